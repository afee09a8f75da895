//! An explicit-state model checker for the undecorator: see DESIGN.md.
//!
//!     mc check <property> [quick|thorough]    explore; write evidence; exit 0 or 1
//!     mc replay <file>                        make one recorded call again
//!     mc show <name> [flags]                  what the code and the model make of a name
//!     mc catalog <deviations>                 the catalogue of generated names

mod ast;
mod checks;
mod engine;
mod gen;
mod mangle;
mod meter;
mod parse;
mod print;
mod robust;
mod sched;
mod strings;
mod wide;

use checks::{Run, Tier};
use engine::*;
use serde_json::{json, Value};
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static METER: meter::Meter = meter::Meter;

/// a call that takes longer than this won't return
const HANG: Duration = Duration::from_secs(60);
const WORKER_MEMORY: u64 = 24 << 30;
const ONE_MEMORY: u64 = 3 << 30;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    // on a stack of a known size
    let code = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, || run(&args)).unwrap().join()
    });
    match code {
        Ok(code) => std::process::exit(code),
        Err(_) => engine_error("the checker panicked"),
    }
}

fn run(args: &[&str]) -> i32 {
    match args {
        ["check", id] => check(id, &std::env::var("VERIF_TIER").unwrap_or("quick".into())),
        ["check", id, tier] => check(id, tier),
        ["work", id, tier, part, dir] => work(id, tier, part, Path::new(dir)),
        ["one", file] => one(file, false),
        ["replay", file] => one_apart(Path::new(file), true).map_or(0, |_| 1),
        ["show", name] => show(name, 0),
        ["show", name, flags] => show(name, flags.parse().unwrap()),
        ["call", flags, "--", name] => {
            let mut buf = String::new();
            match invoke(name, flags.parse().unwrap(), &mut buf) {
                true => print!("ok {buf}"),
                false => print!("refused"),
            }
            0
        }
        ["catalog", d] => {
            for (s, t) in checks::catalog(d.parse().unwrap()) {
                println!("{s}\t{t}");
            }
            0
        }
        _ => engine_error("usage: mc check <property> [tier] | replay <file> | show <name> [flags]"),
    }
}

fn home() -> PathBuf {
    std::env::var("MC_HOME").map_or_else(|_| PathBuf::from("/verif"), PathBuf::from)
}

fn show(name: &str, flags: u16) -> i32 {
    let o = parse::parse(name);
    println!("model: {:?}", o.sym.map(|s| print::print(&s, flags)));
    println!("code:  {:?}", undname::demangle(name, fl(flags)));
    0
}

// ---------- the worker ----------

fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        // those of the code under test are for the explorers to judge
        let mine = i.location().is_some_and(|l| l.file().starts_with("src/"));
        if mine {
            eprintln!("{i}");
        }
    }));
}

fn work(id: &str, tier: &str, part: &str, dir: &Path) -> i32 {
    let tier = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
    let shm = Shm::open(dir.join("slots").to_str().unwrap(), false);
    let mut g = Global::new(Some(shm));
    if let Some(s) = std::env::var("MC_DEADLINE").ok().and_then(|s| s.parse().ok()) {
        g.deadline = Some(Instant::now() + Duration::from_secs(s));
    }
    let Some((_, f)) = checks::ALL.iter().find(|x| x.0 == id) else {
        engine_error(&format!("no property {id}"))
    };
    quiet_panics();
    let mut r = Run { g: &g, tier, spaces: vec![], clock: Instant::now() };
    match part {
        "deep" => {
            robust::deep(&mut r, 8 << 20, "towers, unoptimised build");
            robust::long_lists(&mut r, 8 << 20, "long lists, unoptimised build");
        }
        _ => f(&mut r),
    }
    let spaces = r.spaces;
    let mut total = Stats::default();
    let mut out = vec![];
    for s in spaces {
        out.push(json!({
            "space": s.name,
            "bound": s.bound,
            "states": s.stats.states(),
            "transitions": s.stats.transitions,
            "traces": s.stats.traces,
            "outcomes": s.stats.outcomes.len(),
            "accepted": s.stats.accepted,
            "refused": s.stats.refused,
            "prefixes_not_extended": s.stats.pruned,
        }));
        total.merge(s.stats);
    }
    let vs: Vec<Value> = g.violations.lock().unwrap().iter().map(record).collect();
    let result = json!({
        "spaces": out,
        "states": total.states(),
        "transitions": total.transitions,
        "traces": total.traces,
        "outcomes": total.outcomes.len(),
        "calls": total.calls,
        "samples": total.samples,
        "capped": g.capped.load(std::sync::atomic::Ordering::SeqCst),
        "violations": vs,
    });
    std::fs::write(dir.join("result"), result.to_string()).unwrap_or_else(|e| engine_error(&format!("result: {e}")));
    0
}

fn record(v: &Violation) -> Value {
    json!({
        "input": v.input,
        "flags": v.flags,
        "before": v.before.iter().map(|(s, f)| json!([s, f])).collect::<Vec<_>>(),
        "stack_kib": v.stack,
        "expect": v.expect,
        "want": v.want,
        "got": v.got,
        "note": v.note,
    })
}

// ---------- one call ----------

/// Make a recorded call again: 0 if all is well, 1 if it isn't.
fn one(file: &str, _loud: bool) -> i32 {
    let v: Value = std::fs::read_to_string(file)
        .ok()
        .and_then(|s| serde_json::from_str(&s).ok())
        .unwrap_or_else(|| engine_error(&format!("can't read {file}")));
    let text = |k: &str| v[k].as_str().unwrap_or_default().to_string();
    let flags = v["flags"].as_u64().unwrap_or(0) as u16;
    let stack = v["stack_kib"].as_u64().unwrap_or(64 << 10) as usize;
    let (input, expect) = (text("input"), text("expect"));
    let before: Vec<(String, u16)> = v["before"]
        .as_array()
        .map(|a| a.iter().map(|x| (x[0].as_str().unwrap_or_default().to_string(), x[1].as_u64().unwrap_or(0) as u16)).collect())
        .unwrap_or_default();
    if expect == "cli" {
        let exe = std::env::var("MC_CLI").unwrap_or_else(|_| engine_error("MC_CLI isn't set"));
        let out = Command::new(exe).args(before[0].0.split('\n')).output().unwrap();
        let got = String::from_utf8_lossy(&out.stdout).into_owned();
        println!("want: {:?}\ngot:  {got:?} ({})", text("want"), out.status);
        return (got != text("want") || !out.status.success()) as i32;
    }
    quiet_panics();
    if let Some(plan) = expect.strip_prefix("schedule:").and_then(sched::Plan::read) {
        let other = before.first().unwrap_or_else(|| engine_error("no second call"));
        let ran = sched::run((&input, flags), (&other.0, other.1), &plan);
        let got = format!("{} / {}", ran.first.show(), ran.second.iter().map(Got::show).collect::<Vec<_>>().join(" / "));
        println!("{input:?} under flags {flags:#x}, and at the same time {:?} under flags {:#x}, {}", other.0, other.1, plan.show());
        println!("want: {}\ngot:  {got}", text("want"));
        return (got != text("want")) as i32;
    }
    let got = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(stack << 10)
            .spawn_scoped(s, || {
                let mut buf = String::new();
                for (s, f) in &before {
                    let _ = invoke(s, *f, &mut buf);
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    invoke(&input, flags, &mut buf).then(|| buf.clone())
                }));
                match r {
                    Ok(Some(t)) if std::str::from_utf8(t.as_bytes()).is_err() => Got::Garbage(t.len()),
                    Ok(Some(t)) => Got::Text(t),
                    Ok(None) => Got::Refused,
                    Err(_) => Got::Panicked,
                }
            })
            .unwrap()
            .join()
            .unwrap_or(Got::Panicked)
    });
    let ok = match expect.strip_prefix("text:") {
        Some(t) => got == Got::Text(t.into()),
        None if expect == "refuse" => got == Got::Refused,
        None => !matches!(got, Got::Panicked | Got::Garbage(_)),
    };
    let clip = |s: String| if s.chars().count() > 2000 { s.chars().take(2000).collect::<String>() + "..." } else { s };
    println!("{:?} under flags {flags:#x}", clip(input));
    println!("want: {}", clip(if expect == "nopanic" { "an answer".into() } else { text("want") }));
    println!("got:  {}", clip(got.show()));
    !ok as i32
}

fn limit(c: &mut Command, memory: u64) {
    unsafe {
        c.pre_exec(move || {
            let l = libc::rlimit { rlim_cur: memory, rlim_max: memory };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &none);
            // don't outlive the parent
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
}

/// The same in a process of its own; what went wrong, if anything did.
fn one_apart(file: &Path, loud: bool) -> Option<String> {
    let exe = std::fs::read_to_string(file)
        .ok()
        .and_then(|s| serde_json::from_str::<Value>(&s).ok())
        .and_then(|v| v["exe"].as_str().map(String::from))
        .filter(|e| Path::new(e).exists())
        .map_or_else(|| std::env::current_exe().unwrap(), PathBuf::from);
    let mut c = Command::new(exe);
    c.arg("one").arg(file).stdin(Stdio::null());
    if !loud {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    }
    limit(&mut c, ONE_MEMORY);
    let mut child = c.spawn().unwrap_or_else(|e| engine_error(&format!("{e}")));
    let start = Instant::now();
    let what = loop {
        match child.try_wait() {
            Ok(Some(st)) if st.code() == Some(0) => break None,
            Ok(Some(st)) if st.code() == Some(1) => break Some("what was recorded".into()),
            Ok(Some(st)) => break Some(died(st)),
            _ => {}
        }
        if start.elapsed() > HANG {
            let _ = child.kill();
            let _ = child.wait();
            break Some(format!("no answer within {} s", HANG.as_secs()));
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    if loud {
        match &what {
            Some(w) => println!("VIOLATED: {w}"),
            None => println!("fine"),
        }
    }
    what
}

const DIED: &str = "the process ";

fn died(st: ExitStatus) -> String {
    match st.signal() {
        Some(libc::SIGSEGV) => "the process died of a segmentation fault (a stack overflow, as a rule)".into(),
        Some(libc::SIGABRT) => "the process aborted (out of stack or memory, or a non-unwinding panic)".into(),
        Some(s) => format!("the process died of signal {s}"),
        None => format!("it exited with {:?}", st.code()),
    }
}

// ---------- the parent ----------

enum End {
    Result(Value),
    /// what it was doing, and what became of it
    Died(Vec<Value>, String),
}

fn supervise(exe: &Path, id: &str, tier: &str, part: &str, dir: &Path) -> End {
    let slots = dir.join("slots");
    let _ = std::fs::remove_file(dir.join("result"));
    let shm = Shm::open(slots.to_str().unwrap(), true);
    let mut c = Command::new(exe);
    c.args(["work", id, tier, part]).arg(dir).stdin(Stdio::null());
    limit(&mut c, WORKER_MEMORY);
    let mut child = c.spawn().unwrap_or_else(|e| engine_error(&format!("{}: {e}", exe.display())));
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); SLOTS];
    loop {
        if let Ok(Some(st)) = child.try_wait() {
            if st.code() == Some(0) {
                let r = std::fs::read_to_string(dir.join("result"))
                    .ok()
                    .and_then(|s| serde_json::from_str(&s).ok());
                return End::Result(r.unwrap_or_else(|| engine_error("the worker left no result")));
            }
            if st.code() == Some(3) {
                std::process::exit(3);
            }
            let active: Vec<Value> = (0..SLOTS).filter_map(|k| shm.active(k)).map(in_flight).collect();
            return End::Died(active, died(st));
        }
        let now = Instant::now();
        let mut hung = vec![];
        for (k, l) in last.iter_mut().enumerate() {
            match shm.seq_of(k) {
                s if s % 2 == 0 || s != l.0 => *l = (s, now),
                _ if now - l.1 > HANG => hung.extend(shm.active(k)),
                _ => {}
            }
        }
        if !hung.is_empty() {
            let _ = child.kill();
            let _ = child.wait();
            return End::Died(hung.into_iter().map(in_flight).collect(), format!("no answer within {} s", HANG.as_secs()));
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn in_flight(a: Active) -> Value {
    json!({
        "input": String::from_utf8_lossy(&a.input),
        "flags": a.flags,
        "before": [],
        "stack_kib": a.stack,
        "expect": "nopanic",
        "want": "a result",
        "note": "in flight when the process died",
    })
}

/// Findings that are known: `finding: property=<id> flags=<n> input=<input>`
fn known(id: &str, v: &Value) -> bool {
    let text = std::fs::read_to_string(home().join("known-findings.txt")).unwrap_or_default();
    let key = format!("finding: property={id} flags={} input={}", v["flags"], v["input"].as_str().unwrap_or_default());
    text.lines().any(|l| l == key)
}

fn check(id: &str, tier: &str) -> i32 {
    if !checks::ALL.iter().any(|x| x.0 == id) {
        engine_error(&format!("no property {id}"));
    }
    let start = Instant::now();
    let dir = home().join("run").join(format!("{id}.{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| engine_error(&format!("{}: {e}", dir.display())));
    let code = check_in(id, tier, &dir, start);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn check_in(id: &str, tier: &str, dir: &Path, start: Instant) -> i32 {
    let me = std::env::current_exe().unwrap();
    let mut parts = vec![(me.clone(), "all")];
    if id == "C01" {
        match std::env::var("MC_DEBUG_EXE") {
            Ok(e) => parts.push((e.into(), "deep")),
            Err(_) => engine_error("MC_DEBUG_EXE isn't set"),
        }
    }
    let mut results: Vec<Value> = vec![];
    let mut violations: Vec<Value> = vec![];
    for (exe, part) in parts {
        match supervise(&exe, id, tier, part, dir) {
            End::Result(mut r) => {
                for mut v in r["violations"].take().as_array().cloned().unwrap_or_default() {
                    v["exe"] = json!(exe);
                    violations.push(v);
                }
                results.push(r);
            }
            End::Died(active, what) => {
                // which of them was it?
                let mut found = false;
                let first = active.first().cloned();
                for (k, mut v) in active.into_iter().enumerate() {
                    v["exe"] = json!(exe);
                    let f = dir.join(format!("suspect{k}"));
                    std::fs::write(&f, v.to_string()).unwrap();
                    if let Some(how) = one_apart(&f, false) {
                        v["got"] = json!(how);
                        violations.push(v);
                        found = true;
                    }
                }
                // none of them alone: then it's what went before, or what went on beside it
                let company = what.starts_with(DIED) && !what.ends_with("signal 9") && !what.ends_with("signal 15");
                if let (false, true, Some(mut v)) = (found, company, first) {
                    v["exe"] = json!(exe);
                    v["got"] = json!(what);
                    v["note"] = json!("in flight when the process died, which it doesn't after this call alone: check again rather than replay");
                    violations.push(v);
                } else if !found {
                    engine_error(&format!("the worker ended ({what}), and no call can be blamed"));
                }
            }
        }
        if !violations.is_empty() {
            break;
        }
    }
    let len = |v: &Value| (v["input"].as_str().map_or(0, str::len), v["before"].as_array().map_or(0, Vec::len), v["flags"].as_u64());
    violations.sort_by_key(len);
    let mut fresh = vec![];
    for v in violations {
        if known(id, &v) {
            println!("KNOWN-FINDING: property={id} {:?} under flags {}", v["input"].as_str().unwrap_or_default(), v["flags"]);
        } else {
            fresh.push(v);
        }
    }
    evidence(id, tier, &results, fresh.len(), start);
    let Some(v) = fresh.first() else {
        println!("{id}: holds on everything explored ({tier}, {:.1} s)", start.elapsed().as_secs_f64());
        return 0;
    };
    let mut v = v.clone();
    v["property"] = json!(id);
    let replays = home().join("replays");
    let _ = std::fs::create_dir_all(&replays);
    let path = replays.join(format!("{id}-{:016x}.json", hash(&v.to_string())));
    if let Err(e) = std::fs::File::create(&path).and_then(|mut f| f.write_all(serde_json::to_string_pretty(&v).unwrap().as_bytes())) {
        engine_error(&format!("{}: {e}", path.display()));
    }
    let clip = |k: &str| {
        let s = v[k].as_str().unwrap_or_default();
        if s.chars().count() > 400 { s.chars().take(400).collect::<String>() + "..." } else { s.to_string() }
    };
    println!("{id}: {:?} under flags {} ({})\n  want {}\n  got  {}", clip("input"), v["flags"], clip("note"), clip("want"), clip("got"));
    println!("  ({} violations seen; replay with: {} replay {})", fresh.len(), me.display(), path.display());
    println!("VIOLATION property={id} replay={}", path.display());
    1
}

fn evidence(id: &str, tier: &str, results: &[Value], violations: usize, start: Instant) {
    let sum = |k: &str| results.iter().map(|r| r[k].as_u64().unwrap_or(0)).sum::<u64>();
    let all = |k: &str| results.iter().flat_map(|r| r[k].as_array().cloned().unwrap_or_default()).collect::<Vec<_>>();
    let capped = results.iter().any(|r| r["capped"] == json!(true));
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let e = json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": sum("states"),
            "transitions": sum("transitions"),
            "traces_validated_against_impl": sum("traces"),
            "distinct_expected_outcomes": sum("outcomes"),
            "exhaustive_within_bounds": !capped && violations == 0,
            "spaces": all("spaces"),
            "samples": all("samples"),
        },
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
        "assumptions": [
            "the exploration is exhaustive within the bounds named for each space, and says nothing beyond them",
            "no randomness is involved: the seed has no effect",
        ],
    });
    let dir = home().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let tmp = dir.join(format!("{id}.json.{}", std::process::id()));
    let out = dir.join(format!("{id}.json"));
    if std::fs::write(&tmp, serde_json::to_string_pretty(&e).unwrap()).and_then(|_| std::fs::rename(&tmp, &out)).is_err() {
        engine_error("can't write the evidence");
    }
}
