//! Schedules of two calls on two threads, switched between at machine instructions: a scheduler
//! made of the processor's single-step trap. Only one of the two threads runs at a time, and for as
//! many instructions as the schedule says.

use crate::engine::*;
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, Ordering::SeqCst};

/// Who runs for how many of its instructions, by turns, the first call beginning; whoever is left
/// when there are no more turns runs to the end.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Plan {
    Turns(Vec<u64>),
    /// over and over
    Cycle(u64, u64),
    /// the second call in full between every two instructions of the first
    Between,
}

impl Plan {
    pub fn show(&self) -> String {
        match self {
            Plan::Turns(v) => format!("turns {}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")),
            Plan::Cycle(a, b) => format!("cycle {a} {b}"),
            Plan::Between => "between".into(),
        }
    }
    pub fn read(s: &str) -> Option<Plan> {
        let mut w = s.split(' ');
        let kind = w.next()?;
        let n: Vec<u64> = w.map(|x| x.parse().ok()).collect::<Option<_>>()?;
        match (kind, &n[..]) {
            ("turns", _) => Some(Plan::Turns(n)),
            ("cycle", [a, b]) => Some(Plan::Cycle(*a, *b)),
            ("between", []) => Some(Plan::Between),
            _ => None,
        }
    }
}

/// What became of a schedule.
pub struct Ran {
    pub first: Got,
    /// what the second said, each time
    pub second: Vec<Got>,
    /// instructions of each thread, and switches
    pub steps: [u64; 2],
    pub switches: u64,
    /// times a thread couldn't go on, as the other held a lock
    pub blocked: u64,
}

struct Control {
    turn: AtomicU32,
    ended: [AtomicBool; 2],
    /// can't go on for now
    stuck: [AtomicBool; 2],
    /// what the system says of them
    stat: [AtomicI32; 2],
    left: [AtomicU64; 2],
    next: AtomicU64,
    turns: Vec<u64>,
    cycle: bool,
    steps: [AtomicU64; 2],
    switches: AtomicU64,
    blocked: AtomicU64,
}

impl Control {
    /// The next turn's length, or as good as none.
    fn draw(&self) -> u64 {
        let k = self.next.fetch_add(1, SeqCst) as usize;
        if self.cycle {
            return self.turns[k % self.turns.len()];
        }
        self.turns.get(k).copied().unwrap_or(u64::MAX)
    }
    /// Give the other its turn, and wait for one's own.
    fn pass(&self, me: usize) {
        let other = 1 - me;
        if self.ended[other].load(SeqCst) {
            self.left[me].store(self.draw(), SeqCst);
            return;
        }
        if self.stuck[other].load(SeqCst) {
            self.left[me].store(1, SeqCst);
            return;
        }
        self.switches.fetch_add(1, SeqCst);
        self.left[other].store(self.draw(), SeqCst);
        self.turn.store(other as u32, SeqCst);
        self.wait(me);
    }
    /// Whether a thread is off the processor, and not as others are on it.
    fn sleeps(&self, who: usize) -> bool {
        let mut b = [0u8; 128];
        let n = unsafe { libc::pread(self.stat[who].load(SeqCst), b.as_mut_ptr().cast(), b.len(), 0) };
        let b = &b[..n.max(0) as usize];
        b.iter().rposition(|x| *x == b')').is_some_and(|i| b.get(i + 2) == Some(&b'S'))
    }
    fn wait(&self, me: usize) {
        self.stuck[me].store(false, SeqCst);
        let (mut n, mut since) = (0u32, 0u64);
        while self.turn.load(SeqCst) != me as u32 && !self.ended[1 - me].load(SeqCst) {
            n += 1;
            if n < 2000 {
                std::hint::spin_loop();
                continue;
            }
            unsafe { libc::sched_yield() };
            let now = millis();
            if since == 0 {
                since = now;
            }
            // if it waits for something that's held here, it's not its turn
            if now - since > 2 && (self.sleeps(1 - me) || now - since > 500) && self.turn.compare_exchange(1 - me as u32, me as u32, SeqCst, SeqCst).is_ok() {
                self.blocked.fetch_add(1, SeqCst);
                self.stuck[1 - me].store(true, SeqCst);
                self.left[me].store(1, SeqCst);
            }
        }
    }
}

fn millis() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

thread_local! {
    static MINE: std::cell::Cell<(*const Control, usize)> = const { std::cell::Cell::new((std::ptr::null(), 0)) };
}

#[cfg(target_arch = "x86_64")]
mod trap {
    use super::*;

    extern "C" {
        static __executable_start: u8;
        static etext: u8;
    }

    extern "C" fn handler(_: libc::c_int, _: *mut libc::siginfo_t, context: *mut libc::c_void) {
        let (control, me) = MINE.get();
        let regs = unsafe { &mut (*context.cast::<libc::ucontext_t>()).uc_mcontext.gregs };
        if control.is_null() {
            regs[libc::REG_EFL as usize] &= !0x100;
            return;
        }
        let at = regs[libc::REG_RIP as usize] as usize;
        let (from, to) = (&raw const __executable_start as usize, &raw const etext as usize);
        if at < from || at >= to {
            // inside of libc, where it may hold the allocator's locks
            return;
        }
        let errno = unsafe { libc::__errno_location() };
        let before = unsafe { *errno };
        step(unsafe { &*control }, me, regs);
        unsafe { *errno = before };
    }

    fn step(control: &Control, me: usize, regs: &mut [libc::greg_t]) {
        control.steps[me].fetch_add(1, SeqCst);
        if control.turn.load(SeqCst) != me as u32 && !control.ended[1 - me].load(SeqCst) {
            // it was thought to be blocked, and isn't any more
            control.wait(me);
        }
        match control.left[me].load(SeqCst) {
            u64::MAX if !control.cycle => {
                // to the end
                regs[libc::REG_EFL as usize] &= !0x100;
            }
            0 | 1 => control.pass(me),
            n => control.left[me].store(n - 1, SeqCst),
        }
    }

    pub fn install() {
        static ONCE: std::sync::Once = std::sync::Once::new();
        ONCE.call_once(|| unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = handler as *const () as usize;
            a.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
            libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut());
        });
    }

    #[inline(always)]
    pub fn on() {
        unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
    }
    #[inline(always)]
    pub fn off() {
        unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq") }
    }
}

#[cfg(not(target_arch = "x86_64"))]
mod trap {
    pub fn install() {}
    pub fn on() {}
    pub fn off() {}
}

pub const CAN: bool = cfg!(target_arch = "x86_64");

fn call(input: &str, flags: u16) -> Got {
    let r = std::panic::catch_unwind(|| {
        let mut buf = String::new();
        invoke(input, flags, &mut buf).then_some(buf)
    });
    match r {
        Ok(Some(t)) if std::str::from_utf8(t.as_bytes()).is_err() => Got::Garbage(t.len()),
        Ok(Some(t)) => Got::Text(t),
        Ok(None) => Got::Refused,
        Err(_) => Got::Panicked,
    }
}

/// Two calls on two threads, by a schedule.
pub fn run(a: (&str, u16), b: (&str, u16), plan: &Plan) -> Ran {
    trap::install();
    let (turns, cycle) = match plan {
        Plan::Turns(v) => (v.clone(), false),
        Plan::Cycle(a, b) => (vec![*a, *b], true),
        Plan::Between => (vec![1], true),
    };
    let c = Control {
        turn: AtomicU32::new(0),
        ended: Default::default(),
        stuck: Default::default(),
        stat: [const { AtomicI32::new(-1) }; 2],
        left: Default::default(),
        next: AtomicU64::new(0),
        turns,
        cycle,
        steps: Default::default(),
        switches: AtomicU64::new(0),
        blocked: AtomicU64::new(0),
    };
    c.left[0].store(c.draw(), SeqCst);
    let between = *plan == Plan::Between;
    let c = &c;
    let watch = |me: usize| {
        let f = std::fs::File::open("/proc/thread-self/stat").ok();
        c.stat[me].store(f.as_ref().map_or(-1, |f| f.as_raw_fd()), SeqCst);
        f
    };
    let stepped = |me: usize, x: (&str, u16)| {
        if me == 1 {
            c.wait_quietly(1);
        }
        MINE.set((c, me));
        trap::on();
        let got = call(x.0, x.1);
        trap::off();
        MINE.set((std::ptr::null(), 0));
        got
    };
    let end = |me: usize| {
        c.ended[me].store(true, SeqCst);
        c.left[1 - me].store(c.draw(), SeqCst);
        c.turn.store(1 - me as u32, SeqCst);
    };
    std::thread::scope(|s| {
        let other = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || {
                let _file = watch(1);
                if !between {
                    let got = stepped(1, b);
                    end(1);
                    return vec![got];
                }
                let mut all: Vec<Got> = vec![];
                loop {
                    c.wait_quietly(1);
                    if c.ended[0].load(SeqCst) {
                        break all;
                    }
                    let got = call(b.0, b.1);
                    if !all.contains(&got) {
                        all.push(got);
                    }
                    c.stuck[1].store(false, SeqCst);
                    c.left[0].store(1, SeqCst);
                    c.turn.store(0, SeqCst);
                }
            })
            .unwrap();
        let _file = watch(0);
        let first = stepped(0, a);
        end(0);
        let second = other.join().unwrap_or(vec![Got::Panicked]);
        Ran {
            first,
            second,
            steps: [c.steps[0].load(SeqCst), c.steps[1].load(SeqCst)],
            switches: c.switches.load(SeqCst),
            blocked: c.blocked.load(SeqCst),
        }
    })
}

impl Control {
    /// Wait for one's first turn, which may be long in coming.
    fn wait_quietly(&self, me: usize) {
        let mut n = 0u32;
        while self.turn.load(SeqCst) != me as u32 && !self.ended[1 - me].load(SeqCst) {
            n += 1;
            if n < 2000 {
                std::hint::spin_loop();
            } else {
                std::thread::yield_now();
            }
        }
    }
}

// ---------- what's explored ----------

/// A call, and what it says when nothing else goes on.
struct Alone {
    name: String,
    flags: u16,
    says: Got,
}

fn workers() -> usize {
    (threads() / 2).max(1)
}

/// Explore schedules of pairs of calls. `plans` says which; it's told how many instructions the two
/// calls take.
fn pairs(r: &mut crate::checks::Run, name: &str, bound: &str, calls: &[Alone], which: &[(usize, usize)], plans: impl Fn(u64, u64) -> Vec<Plan> + Sync) {
    if r.broken() {
        return;
    }
    let next = std::sync::atomic::AtomicUsize::new(0);
    let mut total = Stats::default();
    let g = r.g;
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..workers())
            .map(|k| {
                let (next, plans) = (&next, &plans);
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, move || {
                        let mut cx = Cx::new(g, k);
                        loop {
                            let i = next.fetch_add(1, SeqCst);
                            if i >= which.len() || cx.stopped() {
                                break cx.st;
                            }
                            let (a, b) = (&calls[which[i].0], &calls[which[i].1]);
                            pair(&mut cx, a, b, plans);
                        }
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(st) => total.merge(st),
                Err(_) => engine_error("an explorer thread panicked"),
            }
        }
    });
    r.add(name, format!("{bound} ({} pairs of calls)", which.len()), total);
}

fn pair(cx: &mut Cx, a: &Alone, b: &Alone, plans: &(impl Fn(u64, u64) -> Vec<Plan> + Sync)) {
    // how long they are
    let long = u64::MAX - 1;
    let (x, y) = ((&a.name[..], a.flags), (&b.name[..], b.flags));
    let (n, m) = (run(x, x, &Plan::Turns(vec![long])).steps[0], run(y, y, &Plan::Turns(vec![long])).steps[0]);
    if n < 10 || m < 10 {
        // no trap here: nothing to explore with
        cx.st.pruned += 1;
        return;
    }
    let mut blocked = 0;
    for plan in plans(n, m) {
        if cx.stopped() {
            return;
        }
        if blocked > 200 {
            // one can't do much while the other is at it
            cx.st.pruned += 1;
            continue;
        }
        let ran = run(x, y, &plan);
        blocked += ran.blocked;
        cx.st.calls += 2;
        cx.st.traces += 1;
        cx.st.transitions += ran.steps[0] + ran.steps[1];
        cx.st.distinct += 1 + ran.switches;
        cx.sample(|| format!("{:?} and {:?}, {}: {} and {} instructions, {} switches", a.name, b.name, plan.show(), ran.steps[0], ran.steps[1], ran.switches));
        cx.st.outcomes.insert(hash(&ran.first.show()));
        if ran.first != a.says || ran.second.iter().any(|x| *x != b.says) {
            let show = |x: &Got, y: &[Got]| format!("{} / {}", x.show(), y.iter().map(Got::show).collect::<Vec<_>>().join(" / "));
            cx.violation(Violation {
                input: a.name.clone(),
                flags: a.flags,
                want: show(&a.says, if ran.second.is_empty() { &[] } else { std::slice::from_ref(&b.says) }),
                got: show(&ran.first, &ran.second),
                note: format!("while another thread asks for {:?}, {}; wanted is what each says alone", b.name, plan.show()),
                expect: format!("schedule:{}", plan.show()),
                before: vec![(b.name.clone(), b.flags)],
                stack: cx.stack,
            });
            return;
        }
    }
}

pub fn c15(r: &mut crate::checks::Run) {
    if !CAN || r.broken() {
        return;
    }
    let mut cx = Cx::new(r.g, 0);
    let mut names: Vec<(String, u16)> = [
        "?x@@3HA", "?f@@YAXXZ", "?x@@3", "", "?f@@YAXPAHV?$t@H@@01@Z", "?f@a@b@@QAEXV1@V23@@Z", "??Ha@@QAEXH@Z", "??$f@$0A@$1?y@@3HA@@YAXXZ", "??_C@_02PCEFGMJL@hi?$AA@",
        "?x@?1??f@@YAXXZ@4HA", "??0?$C@H@@QAE@XZ", "??Ba@@QAEHXZ", "??_7a@@6Bb@@@", "??_R1A@?0A@EA@a@@8", "?f@a@@WBA@AEXXZ", ".?AVa@@", "?é@名@@3HA", "??$f@$1?x@@3H@@YAXXZ", "?f@@YAX9@Z", "?x@@3PQa@@HQ1@",
        "?x@@3P6AHPAH0@ZA", "??__E?x@@3HA@@YAXXZ", "??@abc@", "?x@?A0x1@@3V12@A",
    ]
    .map(|s| (s.to_string(), 0))
    .into();
    let base = names.len();
    for f in [0x3FF, 0x200, 0x100, 0x91] {
        for i in [1, 4, 5] {
            let s = names[i].0.clone();
            names.push((s, f));
        }
    }
    let most = names.len();
    // deep and long: what's alright alone is to be so in company
    let deep = [
        format!("?x@@3{}HA", "PA".repeat(300)),
        format!("?x@@3{}H{}A", "V?$t@".repeat(20), "@@".repeat(20)),
        format!("?f@@YAX{}@Z", "PAH".repeat(200)),
        format!("?x@{}@3HA", "n@".repeat(200)),
    ];
    names.extend(deep.into_iter().map(|s| (s, 0)));
    let calls: Vec<Alone> = names.into_iter().map(|(name, flags)| Alone { says: cx.call(&name, flags), name, flags }).collect();
    r.add("what the calls say alone", format!("{} calls", calls.len()), cx.st);
    let thorough = r.tier == crate::checks::Tier::Thorough;

    let partners = if thorough { (0..most).collect() } else { vec![0, 2, 5, 12, base + 1] };
    let mut all: Vec<(usize, usize)> = (0..most).flat_map(|a| partners.iter().chain([&a]).map(|b| (a, *b)).collect::<Vec<_>>()).collect();
    all.sort();
    all.dedup();
    pairs(r, "one call between any two instructions of another", "a call on another thread in full between every two instructions", &calls, &all, |_, _| vec![Plan::Between]);

    let part = r.q(4, 64) as u64;
    let big: Vec<(usize, usize)> = if thorough {
        (most..calls.len()).flat_map(|a| [0, 2, 5, most, most + 1, most + 2, most + 3].map(move |b| (a, b))).collect()
    } else {
        (0..4).flat_map(|a| [2, most + a, most + (a + 1) % 2].map(move |b| (most + a, b))).collect()
    };
    pairs(r, "one switch within a deep or long one", "the second call in full after every share of the first, in parts", &calls, &big, |n, _| {
        (1..part).map(|i| Plan::Turns(vec![n * i / part, u64::MAX])).collect()
    });

    let few = [0, 2, 4, 5, 9, 19];
    let some: Vec<(usize, usize)> = few.iter().flat_map(|a| few.iter().map(move |b| (*a, *b))).collect();
    let k = r.q(3, 8) as u64;
    pairs(r, "two calls in step", "by turns of every two numbers of instructions up to the bound, over and over", &calls, &some, |_, _| {
        (1..=k).flat_map(|a| (1..=k).map(move |b| Plan::Cycle(a, b))).collect()
    });

    let two = if thorough { vec![(0, 2), (2, 0), (0, 0), (1, 4), (4, 5), (5, 4)] } else { vec![(0, 2)] };
    pairs(r, "one switch, at any instruction", "the second call in full, step by step, after any number of instructions of the first", &calls, &two, |n, _| {
        (1..=n).map(|i| Plan::Turns(vec![i, u64::MAX])).collect()
    });

    let part = r.q(16, 96) as u64;
    let three = if thorough { some.clone() } else { vec![(0, 0), (2, 4), (4, 5), (5, 4)] };
    pairs(r, "two switches", "after every share of the first call to every share of the second, in parts, and back", &calls, &three, |n, m| {
        (1..part).flat_map(|i| (1..part).map(move |j| Plan::Turns(vec![(n * i / part).max(1), (m * j / part).max(1), u64::MAX]))).collect()
    });
}
