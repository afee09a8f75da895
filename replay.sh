#!/bin/sh
# replay.sh <file>: makes a recorded call again, with the code as it is in /repo now.
here=$(cd "$(dirname "$0")" && pwd)
sh "$here/build.sh" debug cli || exit 3
export MC_HOME="$here"
export MC_CLI="$here/target/cli/release/examples/undecorate_name"
exec "$here/target/mc/release/mc" replay "$1"
