//! The explorers' runtime: choice sequences, the call into the code under test (isolated, recorded
//! in shared memory so that a crash or a hang can be pinned on an input), and bookkeeping.

use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

// ---------- choice sequences ----------

#[derive(Clone, Copy)]
pub struct Point {
    pub chosen: u32,
    pub n: u32,
    pub free: bool,
}

/// One derivation: a sequence of choices, replayed from `script` and then all-default.
pub struct Ch {
    script: Vec<u32>,
    pub log: Vec<Point>,
}

impl Ch {
    pub fn new(script: Vec<u32>) -> Ch {
        Ch { script, log: Vec::new() }
    }
    fn point(&mut self, n: usize, free: bool) -> usize {
        assert!(n > 0);
        if n == 1 {
            return 0;
        }
        let k = self.log.len();
        let c = self.script.get(k).copied().unwrap_or(0);
        if c as usize >= n {
            engine_error("a replayed choice is out of range: the exploration isn't deterministic");
        }
        self.log.push(Point { chosen: c, n: n as u32, free });
        c as usize
    }
    /// 0 is the default; anything else costs one deviation
    pub fn pick(&mut self, n: usize) -> usize {
        self.point(n, false)
    }
    /// every alternative is explored at no cost
    pub fn free(&mut self, n: usize) -> usize {
        self.point(n, true)
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn of<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.pick(v.len())]
    }
    pub fn all_of<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.free(v.len())]
    }
}

pub fn engine_error(what: &str) -> ! {
    eprintln!("ENGINE ERROR: {what}");
    std::process::exit(3)
}

// ---------- shared-memory slots ----------

pub const SLOT: usize = 8 << 20;
const HEAD: usize = 24;
pub const SLOTS: usize = 16;

/// A call in flight.
pub struct Active {
    pub seq: u64,
    pub flags: u16,
    /// KiB
    pub stack: usize,
    pub input: Vec<u8>,
}

pub struct Shm {
    base: *mut u8,
}
unsafe impl Send for Shm {}
unsafe impl Sync for Shm {}

impl Shm {
    pub fn open(path: &str, create: bool) -> Shm {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(create)
            .truncate(create)
            .open(path)
            .unwrap_or_else(|e| engine_error(&format!("{path}: {e}")));
        f.set_len((SLOT * SLOTS) as u64).unwrap();
        let base = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOT * SLOTS,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if base == libc::MAP_FAILED {
            engine_error("mmap");
        }
        Shm { base: base.cast() }
    }
    fn seq(&self, slot: usize) -> &AtomicU64 {
        unsafe { &*self.base.add(slot * SLOT).cast::<AtomicU64>() }
    }
    /// the call in flight, if any
    pub fn active(&self, slot: usize) -> Option<Active> {
        let seq = self.seq(slot).load(SeqCst);
        if seq % 2 == 0 {
            return None;
        }
        unsafe {
            let p = self.base.add(slot * SLOT + 8);
            let len = p.cast::<u32>().read() as usize;
            let flags = p.add(4).cast::<u32>().read() as u16;
            let stack = p.add(8).cast::<u32>().read() as usize;
            let data = std::slice::from_raw_parts(p.add(16), len.min(SLOT - HEAD)).to_vec();
            Some(Active { seq, flags, stack, input: data })
        }
    }
    pub fn seq_of(&self, slot: usize) -> u64 {
        self.seq(slot).load(SeqCst)
    }
    fn begin(&self, slot: usize, input: &[u8], flags: u16, stack: usize) {
        let len = input.len().min(SLOT - HEAD);
        unsafe {
            let p = self.base.add(slot * SLOT + 8);
            p.cast::<u32>().write(len as u32);
            p.add(4).cast::<u32>().write(flags as u32);
            p.add(8).cast::<u32>().write(stack as u32);
            std::ptr::copy_nonoverlapping(input.as_ptr(), p.add(16), len);
        }
        self.seq(slot).fetch_add(1, SeqCst);
    }
    fn end(&self, slot: usize) {
        self.seq(slot).fetch_add(1, SeqCst);
    }
}

// ---------- results of one call ----------

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Got {
    Text(String),
    Refused,
    Panicked,
    /// text that isn't UTF-8, of this many bytes
    Garbage(usize),
}

impl Got {
    pub fn show(&self) -> String {
        match self {
            Got::Text(t) => format!("Ok({t:?})"),
            Got::Refused => "an error".into(),
            Got::Panicked => "a panic".into(),
            Got::Garbage(n) => format!("{n} bytes of invalid UTF-8"),
        }
    }
}

/// Not a flag of the code's: the call is to be made by value, not into a buffer.
pub const BY_VALUE: u16 = 0x8000;

/// One call, in either of the two ways; what it leaves is in `buf`.
pub fn invoke(input: &str, flags: u16, buf: &mut String) -> bool {
    if flags & BY_VALUE == 0 {
        return undname::demangle_into(input, fl(flags), buf).is_ok();
    }
    match undname::demangle(input, fl(flags)) {
        Ok(t) => *buf = t,
        Err(_) => return false,
    }
    true
}

pub fn fl(f: u16) -> undname::Flags {
    undname::Flags::from_bits_truncate(f)
}

// ---------- violations ----------

#[derive(Clone)]
pub struct Violation {
    pub input: String,
    pub flags: u16,
    pub want: String,
    pub got: String,
    pub note: String,
    /// machine-readable expectation for replays: "text:..." | "refuse" | "nopanic"
    pub expect: String,
    /// calls to be made beforehand, on the same buffer
    pub before: Vec<(String, u16)>,
    /// the stack to make the call on, in KiB
    pub stack: usize,
}

pub struct Global {
    pub shm: Option<Shm>,
    pub violations: Mutex<Vec<Violation>>,
    pub stop: AtomicBool,
    pub deadline: Option<std::time::Instant>,
    pub capped: AtomicBool,
}

impl Global {
    pub fn new(shm: Option<Shm>) -> Global {
        Global {
            shm,
            violations: Mutex::new(vec![]),
            stop: AtomicBool::new(false),
            deadline: None,
            capped: AtomicBool::new(false),
        }
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    /// calls of the code under test
    pub calls: u64,
    /// model transitions: choices taken, or characters appended
    pub transitions: u64,
    /// executions whose outcome was compared with what the model (or the monitor) demands
    pub traces: u64,
    pub accepted: u64,
    pub refused: u64,
    pub pruned: u64,
    /// further model states, which the enumeration visits once each by construction
    pub distinct: u64,
    /// distinct decorated names (model states)
    pub inputs: HashSet<u64>,
    /// distinct outcomes observed
    pub outcomes: HashSet<u64>,
    pub samples: Vec<String>,
}

impl Stats {
    pub fn states(&self) -> u64 {
        self.inputs.len() as u64 + self.distinct
    }
    pub fn merge(&mut self, o: Stats) {
        self.calls += o.calls;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.accepted += o.accepted;
        self.refused += o.refused;
        self.pruned += o.pruned;
        self.distinct += o.distinct;
        if self.inputs.is_empty() {
            self.inputs = o.inputs;
        } else {
            self.inputs.extend(o.inputs);
        }
        if self.outcomes.is_empty() {
            self.outcomes = o.outcomes;
        } else {
            self.outcomes.extend(o.outcomes);
        }
        for s in o.samples {
            if self.samples.len() < 24 {
                self.samples.push(s);
            }
        }
    }
}

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// How many names a thread remembers; beyond that, states are counted no more, and derivations
/// that lead to the same name are replayed each.
const SEEN: usize = 6_000_000;

/// One thread's view of the run.
pub struct Cx<'g> {
    pub g: &'g Global,
    pub slot: usize,
    /// of this thread, in KiB
    pub stack: usize,
    pub st: Stats,
    buf: String,
}

impl<'g> Cx<'g> {
    pub fn new(g: &'g Global, slot: usize) -> Self {
        Cx { g, slot, stack: STACK >> 10, st: Stats::default(), buf: String::new() }
    }

    pub fn guarded<T>(&mut self, input: &str, flags: u16, f: impl FnOnce() -> T) -> Option<T> {
        self.st.calls += 1;
        if let Some(shm) = &self.g.shm {
            shm.begin(self.slot, input.as_bytes(), flags, self.stack);
        }
        let r = catch_unwind(AssertUnwindSafe(f)).ok();
        if let Some(shm) = &self.g.shm {
            shm.end(self.slot);
        }
        r
    }

    pub fn call(&mut self, input: &str, flags: u16) -> Got {
        let mut buf = std::mem::take(&mut self.buf);
        let r = self.guarded(input, flags, || {
            let r = invoke(input, flags, &mut buf);
            (r, buf)
        });
        match r {
            Some((true, b)) if std::str::from_utf8(b.as_bytes()).is_err() => Got::Garbage(b.len()),
            Some((true, b)) => {
                let t = b.clone();
                self.buf = b;
                Got::Text(t)
            }
            Some((false, b)) => {
                self.buf = b;
                Got::Refused
            }
            None => Got::Panicked,
        }
    }

    pub fn violation(&mut self, v: Violation) {
        let mut all = self.g.violations.lock().unwrap();
        all.push(v);
        if all.len() >= 200 {
            self.g.stop.store(true, Relaxed);
        }
    }

    pub fn fail(&mut self, input: &str, flags: u16, want: &str, got: &str, note: &str, expect: String) {
        self.violation(Violation {
            input: input.into(),
            flags,
            want: want.into(),
            got: got.into(),
            note: note.into(),
            expect,
            before: vec![],
            stack: self.stack,
        });
    }

    /// The code under test must render `input` as `want`.
    pub fn expect_text(&mut self, input: &str, flags: u16, want: &str, note: &str) {
        self.st.accepted += 1;
        self.st.traces += 1;
        let got = self.call(input, flags);
        if self.st.outcomes.len() < 2_000_000 {
            self.st.outcomes.insert(hash(want));
        }
        if got != Got::Text(want.to_string()) {
            self.fail(input, flags, &format!("Ok({want:?})"), &got.show(), note, format!("text:{want}"));
        }
    }

    pub fn expect_refusal(&mut self, input: &str, flags: u16, note: &str) {
        self.st.refused += 1;
        self.st.traces += 1;
        let got = self.call(input, flags);
        if got != Got::Refused {
            self.fail(input, flags, "an error", &got.show(), note, "refuse".into());
        }
    }

    /// Judge the code under test by the reference reader and printer.
    pub fn judge(&mut self, input: &str, flags: &[u16], note: &str) -> crate::parse::Outcome {
        let o = crate::parse::parse(input);
        match &o.sym {
            Some(s) => {
                for f in flags {
                    let want = crate::print::print(s, *f);
                    self.expect_text(input, *f, &want, note);
                }
            }
            None => {
                for f in flags {
                    self.expect_refusal(input, *f, note);
                }
            }
        }
        o
    }

    /// One model trace: spell the symbol, check that the reader and the writer of the model agree,
    /// and replay it against the code under test.
    pub fn trace(
        &mut self,
        sym: &crate::ast::Sym,
        ch: &mut Ch,
        back: crate::mangle::Back,
        alt: bool,
        flags: &[u16],
        note: &str,
    ) -> String {
        let (text, _) = crate::mangle::mangle(sym, ch, back, alt);
        self.replay(sym, &text, flags, note);
        text
    }

    pub fn replay(&mut self, sym: &crate::ast::Sym, text: &str, flags: &[u16], note: &str) {
        if self.st.inputs.len() < SEEN && !self.st.inputs.insert(hash(text)) {
            // another derivation led here
            return;
        }
        let o = crate::parse::parse(text);
        let same = o.sym.as_ref().is_some_and(|s| {
            crate::print::print(s, 0) == crate::print::print(sym, 0)
        });
        if !same {
            let read = o.sym.as_ref().map(|s| crate::print::print(s, 0));
            engine_error(&format!(
                "the model disagrees with itself on {text}: {read:?} / {:?}",
                crate::print::print(sym, 0),
            ));
        }
        let mut text0 = None;
        for f in flags {
            let want = crate::print::print(sym, *f);
            self.expect_text(text, *f, &want, note);
            text0.get_or_insert(want);
        }
        self.sample(|| format!("{text} => {}", text0.unwrap_or_default()));
    }

    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.st.samples.len() < 3 {
            self.st.samples.push(s());
        }
    }
    pub fn seen(&mut self, input: &str) {
        if self.st.inputs.len() < SEEN {
            self.st.inputs.insert(hash(input));
        }
    }
    pub fn stopped(&self) -> bool {
        if self.g.stop.load(Relaxed) {
            return true;
        }
        if let Some(d) = self.g.deadline {
            if std::time::Instant::now() > d {
                self.g.capped.store(true, Relaxed);
                return true;
            }
        }
        false
    }
}

/// what the explorers' threads get, unless said otherwise
pub const STACK: usize = 64 << 20;

pub fn threads() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 8)
}

/// Run `f(cx, item)` for every item, in parallel, each exactly once.
pub fn each<T: Sync>(g: &Global, items: &[T], f: impl Fn(&mut Cx, &T) + Sync) -> Stats {
    each_on(g, STACK, items, f)
}

/// ... on threads with this much stack
pub fn each_on<T: Sync>(g: &Global, stack: usize, items: &[T], f: impl Fn(&mut Cx, &T) + Sync) -> Stats {
    let next = AtomicUsize::new(0);
    let mut total = Stats::default();
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads())
            .map(|k| {
                let (next, f) = (&next, &f);
                std::thread::Builder::new()
                    .stack_size(stack)
                    .spawn_scoped(s, move || {
                        let mut cx = Cx::new(g, k);
                        cx.stack = stack >> 10;
                        loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= items.len() || cx.stopped() {
                                break cx.st;
                            }
                            f(&mut cx, &items[i]);
                        }
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(st) => total.merge(st),
                Err(_) => engine_error("an explorer thread panicked"),
            }
        }
    });
    total
}

fn children(prefix: &[u32], log: &[Point], bound: usize, out: &mut Vec<Vec<u32>>) {
    let cost = log[..prefix.len()].iter().filter(|p| !p.free && p.chosen != 0).count();
    for i in prefix.len()..log.len() {
        let p = log[i];
        debug_assert_eq!(p.chosen, 0);
        if p.free || cost < bound {
            for alt in 1..p.n {
                let mut v: Vec<u32> = log[..i].iter().map(|p| p.chosen).collect();
                v.push(alt);
                out.push(v);
            }
        }
    }
}

/// Explore every choice sequence with at most `bound` deviations. `run` performs one derivation and
/// checks it.
pub fn explore(g: &Global, bound: usize, run: impl Fn(&mut Cx, &mut Ch) + Sync) -> Stats {
    // breadth first until there's enough to share out
    let mut cx = Cx::new(g, SLOTS - 1);
    let mut frontier = std::collections::VecDeque::from([Vec::<u32>::new()]);
    while let Some(prefix) = frontier.pop_front() {
        let mut ch = Ch::new(prefix.clone());
        run(&mut cx, &mut ch);
        cx.st.transitions += (ch.log.len() - prefix.len().saturating_sub(1)) as u64;
        let mut next = vec![];
        children(&prefix, &ch.log, bound, &mut next);
        frontier.extend(next);
        if frontier.len() > 4000 || cx.stopped() {
            break;
        }
    }
    let items: Vec<Vec<u32>> = frontier.into();
    let mut st = std::mem::take(&mut cx.st);
    st.merge(each(g, &items, |cx, root| {
        let mut stack = vec![root.clone()];
        while let Some(prefix) = stack.pop() {
            if cx.stopped() {
                return;
            }
            let mut ch = Ch::new(prefix.clone());
            run(cx, &mut ch);
            cx.st.transitions += (ch.log.len() - (prefix.len() - 1)) as u64;
            children(&prefix, &ch.log, bound, &mut stack);
        }
    }));
    st
}

/// A space of texts: every string over an alphabet, after any of some prefixes.
pub struct Texts<'a> {
    pub roots: &'a [&'a str],
    pub alphabet: &'a [char],
    pub depth: usize,
    /// what to also try after each text
    pub closers: &'a [&'a str],
    pub flags: &'a [u16],
    pub note: &'a str,
}

impl Texts<'_> {
    fn judge(&self, cx: &mut Cx, s: &str) -> crate::parse::Outcome {
        cx.seen(s);
        let o = cx.judge(s, self.flags, self.note);
        if o.sym.is_some() {
            cx.sample(|| s.to_string());
        }
        o
    }

    /// Judge `s` and its closings; true if what follows can matter.
    fn visit(&self, cx: &mut Cx, s: &mut String) -> bool {
        let n = s.len();
        let o = self.judge(cx, s);
        // What follows an accepted symbol is ignored, and nothing redeems a refused one. The model
        // knows when that is so; see that the code under test does, too.
        if !o.hit_end && o.sym.is_some() {
            for c in self.alphabet {
                s.push(*c);
                cx.st.transitions += 1;
                self.judge(cx, s);
                s.truncate(n);
            }
        }
        for c in self.closers {
            s.push_str(c);
            cx.st.transitions += 1;
            self.judge(cx, s);
            s.truncate(n);
        }
        if !o.hit_end {
            cx.st.pruned += 1;
        }
        o.hit_end
    }

    fn walk(&self, cx: &mut Cx, s: &mut String, left: usize) {
        if cx.stopped() || !self.visit(cx, s) || left == 0 {
            return;
        }
        let n = s.len();
        for c in self.alphabet {
            s.push(*c);
            cx.st.transitions += 1;
            self.walk(cx, s, left - 1);
            s.truncate(n);
        }
    }

    pub fn run(&self, g: &Global) -> Stats {
        let mut cx = Cx::new(g, SLOTS - 1);
        let mut frontier: std::collections::VecDeque<(String, usize)> =
            self.roots.iter().map(|r| (r.to_string(), self.depth)).collect();
        while let Some((mut s, left)) = frontier.pop_front() {
            if self.visit(&mut cx, &mut s) && left > 0 {
                for c in self.alphabet {
                    cx.st.transitions += 1;
                    frontier.push_back((format!("{s}{c}"), left - 1));
                }
            }
            if frontier.len() > 3000 || cx.stopped() {
                break;
            }
        }
        let items: Vec<(String, usize)> = frontier.into();
        let mut st = std::mem::take(&mut cx.st);
        st.merge(each(g, &items, |cx, (s, left)| self.walk(cx, &mut s.clone(), *left)));
        st
    }
}
