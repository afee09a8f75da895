#!/bin/sh
# check.sh <property> [quick|thorough]: builds from /repo as it is now, and explores.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
case $id in
    C01) what=debug ;;
    C17) what=cli ;;
    *) what= ;;
esac
sh "$here/build.sh" $what || exit 3
export MC_HOME="$here"
export MC_DEBUG_EXE="$here/target/mc/debug/mc"
export MC_CLI="$here/target/cli/release/examples/undecorate_name"
if [ "$tier" = quick ]; then
    # on a slow machine, say what was left out rather than not answer at all
    export MC_DEADLINE="${MC_DEADLINE:-720}"
fi
exec "$here/target/mc/release/mc" check "$id" "$tier"
