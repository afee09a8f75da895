//! Properties of the whole: totality, rejection, buffers, limits, purity, Unicode, the command
//! line, and what follows a symbol.

use crate::ast::*;
use crate::checks::*;
use crate::engine::*;
use crate::gen::GEN;
use crate::mangle::{mangle, Back};
use crate::print::print;

const DEF: &[u16] = &[0];
/// every flag for itself would be overkill where only survival counts
const SOME: &[u16] = &[0, 0x3FF, 0x200];

/// Everything the grammar gives a meaning to, and a few things it doesn't.
pub const SIGMA: [char; 47] = [
    '?', '@', '$', '_', '.', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'A', 'B', 'C', 'D',
    'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W',
    'X', 'Y', 'Z', 'a', 'x', '<', ' ', 'é', '😀',
];

/// All of ASCII, and of the rest what might be taken for something else.
pub fn every_char() -> Vec<char> {
    let mut v: Vec<char> = (0u8..128).map(char::from).collect();
    v.extend([
        '\u{80}', '\u{85}', '\u{a0}', 'é', 'ß', 'ÿ', '\u{100}', 'İ', 'ſ', '\u{13f}', '\u{140}', '\u{301}', 'А', '\u{661}', '\u{200b}',
        '\u{202e}', '\u{2028}', 'K', '\u{3000}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '？', '＠', 'Ａ', '０', '𝟎', '😀', '\u{10ffff}',
    ]);
    v
}

pub const CORPUS: &str = include_str!("../corpus.txt");

pub fn corpus() -> Vec<&'static str> {
    let mut v: Vec<&str> = CORPUS.lines().filter(|l| !l.is_empty()).collect();
    v.sort_by_key(|s| (s.len(), *s));
    v.dedup();
    v
}

impl Cx<'_> {
    /// It has to return, whatever it returns.
    fn survive(&mut self, s: &str, flags: &[u16]) {
        for f in flags {
            self.st.traces += 1;
            match self.call(s, *f) {
                got @ (Got::Panicked | Got::Garbage(_)) => {
                    self.fail(s, *f, "a result", &got.show(), "totality", "nopanic".into());
                }
                Got::Text(_) => self.st.accepted += 1,
                Got::Refused => self.st.refused += 1,
            }
        }
    }
}

const ROOTS: &[&str] = &[
    "?", "??", "??_", "??__", "??$", "??$f@", "??$f@$", "??$f@$$", "??$f@$M", "?x@@3", "?x@@3P", "?x@@3Y", "?x@@3$$",
    "?x@@3V", "?x@@3V?$t@", "?f@@Y", "?f@@YA", "?f@@YAX", "?f@@YAXP6", "?f@C@@Q", "?f@C@@$", "?f@C@@$R4", "?f@C@@W", "?x@?",
    "?x@?1?", "?x@?A", "??_R0", "??_R1", "??_C@_", "??_C@_0", "??_C@_03x@", "??_C@_15x@", "??_7C@@", "??_9C@@$B",
    "??_B?1??f@@YAXXZ@", "??__E", "??__E?x@@3H", "??__F", "??@", ".", ".?A", ".P", "?x@@3PQ", "?x@@3P8C@@",
];

// ---------- C01 ----------

/// Ways to put a type into a type: what comes before it and what comes after.
const NEST: &[(&str, &str)] = &[
    ("PA", ""),
    ("PEB", ""),
    ("AA", ""),
    ("$$QA", ""),
    ("PAY02", ""),
    ("Y00", ""),
    ("P6A", "XZ"),
    ("P6AX", "@Z"),
    ("PQC@@", ""),
    ("P8C@@AA", "XZ"),
    ("$$A6A", "XZ"),
    ("V?$t@", "@@"),
    ("?A", ""),
    ("V?$t@$$C", "@@"),
    ("V?$t@$1?x@@3", "A@@@"),
    ("V?$t@$E?x@@3", "A@@@"),
    ("V?$t@$$BY00", "@@"),
    ("V?$t@$M", "00@@"),
    ("Vx@?1??f@@YA", "XZ@"),
    ("Vx@?1??$f@", "@@YAXXZ@"),
    ("V?$t@$$Yx@?1??$f@", "@@YAXXZ@@@"),
    ("??$t@", "@@"),
];

/// Ways to put a symbol into a symbol.
const NEST_SYM: &[(&str, &str)] = &[
    ("?x@?1?", "@3HA"),
    ("??$f@$1", "@@YAXXZ"),
    ("??$f@$E", "@@3HA"),
    ("??__E", "YAXXZ"),
    ("??__E?", "@@YAXXZ"),
    ("??__F", "YAXXZ"),
    ("??$f@$H", "0@@YAXXZ"),
    ("??_7C@?1?", "@6B@"),
    ("??_B?1?", "@5"),
    ("??_9C@?1?", "@$BA@AA"),
    ("??$?$f@", "@@@YAXXZ"),
    ("??$?H", "@@@YAXXZ"),
    ("?x@?$t@$1", "@@@3HA"),
    ("?", ""),
    ("??", ""),
    ("??$", ""),
    ("??$?", ""),
    ("??__E", ""),
    ("?A@", ""),
    (".", ""),
];

fn nested(open: &[&str], close: &[&str], n: usize, core: &str) -> String {
    let mut s = String::new();
    for i in 0..n {
        s += open[i % open.len()];
    }
    s += core;
    for i in (0..n).rev() {
        s += close[i % close.len()];
    }
    s
}

/// Every nesting construct and every two of them by turns, however deep, closed or left open.
pub fn towers(depths: &[usize], pairs: &[usize]) -> Vec<String> {
    let mut v = vec![];
    let heads = [("?x@@3", "A"), ("?f@@YAX", "@Z"), ("??_R0", "@8"), (".", ""), ("??$f@", "@@YAXXZ")];
    let mut add = |o: &[&str], c: &[&str], n: usize, types: bool, tails: bool| {
        let core = if types { "H" } else { "?x@@3HA" };
        let s = nested(o, c, n, core);
        if types {
            for (h, t) in heads.iter().take(if tails { 5 } else { 1 }) {
                v.push(format!("{h}{s}{t}"));
            }
        } else {
            v.push(s);
        }
        // left open
        let s: String = (0..n).map(|i| o[i % o.len()]).collect();
        v.push(if types { format!("?x@@3{s}") } else { s });
    };
    for n in depths {
        for (o, c) in NEST {
            add(&[o], &[c], *n, true, true);
        }
        for (o, c) in NEST_SYM {
            add(&[o], &[c], *n, false, true);
        }
    }
    for n in pairs {
        for (o1, c1) in NEST {
            for (o2, c2) in NEST {
                if o1 != o2 {
                    add(&[o1, o2], &[c1, c2], *n, true, false);
                }
            }
        }
        for (o1, c1) in NEST_SYM {
            for (o2, c2) in NEST_SYM {
                if o1 != o2 {
                    add(&[o1, o2], &[c1, c2], *n, false, false);
                }
            }
        }
    }
    v
}

/// The deep part of C01, on stacks of the given size.
pub fn deep(r: &mut Run, stack: usize, name: &str) {
    let (depths, pairs): (Vec<usize>, Vec<usize>) = match r.tier {
        Tier::Quick => (
            [1, 2, 3, 8, 50, 100, 128, 170, 200, 250, 255, 256, 257, 300, 340, 400, 500, 510, 511, 512, 513, 514, 600, 700, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 5000, 12_000, 60_000].to_vec(),
            vec![50, 256, 300, 511, 512, 513, 700, 1024, 5000],
        ),
        Tier::Thorough => ((1..=1100).chain([1500, 2000, 2047, 2048, 2049, 5000, 12_000, 60_000, 300_000]).collect(), (8..1100).step_by(24).chain([511, 512, 513, 2000, 20_000]).collect()),
    };
    let all = towers(&depths, &pairs);
    if r.broken() {
        return;
    }
    let st = each_on(r.g, stack, &all, |cx, s| {
        cx.seen(s);
        cx.st.transitions += 1;
        cx.sample(|| format!("{}... ({} characters)", s.chars().take(60).collect::<String>(), s.len()));
        cx.survive(s, &[0, 0x3FF]);
    });
    r.add(name, format!("{} constructs alone and in pairs, {} depths up to {}, on {} KiB of stack", NEST.len() + NEST_SYM.len(), depths.len(), depths.iter().max().unwrap(), stack >> 10), st);
}

/// Lists of anything that can be listed, far longer than the stack has room for if each of them took
/// some of it.
pub fn long_lists(r: &mut Run, stack: usize, name: &str) {
    use crate::wide::{DIMENSIONS, PARAMETERS, REFERENCES, SCOPES};
    const MORE: &[(&str, &str, &str)] = &[
        ("??$f@", "$$V", "@@YAXXZ"),
        ("??$f@", "$S$$Z$$$V", "@@YAXXZ"),
        ("??$f@", "H", "@@YAXXZ"),
        ("??$f@", "$0A@", "@@YAXXZ"),
        ("?f@@YAXV?$t@", "$$V", "@@PAH00@Z"),
        ("?f@@YAXABH", "000000", "ZZ"),
        ("?x@", "?0?", "?f@@YAXXZ@3HA"),
        ("?x@a@b@?A@", "2", "0@3HA"),
        ("??$f@$0", "A", "B@@@YAXXZ"),
        ("??$f@$0", "P", "@@@YAXXZ"),
        ("?x@?", "B", "@??f@@YAXXZ@3HA"),
        ("?", "x", "@@3HA"),
        ("?x@@3V", "é", "@@A"),
        ("?x@?A", "0x", "@@3HA"),
        ("??__K", "_k", "@@YAXXZ"),
        ("??_C@_1PPPP@x@", "?$AAa", "?$AA?$AA@"),
        ("??_C@_0PPPP@x@", "a", "?$AA@"),
        ("??_C@_02", "x", "@hi?$AA@"),
        ("??@", "0", "@"),
        ("??@", "0", "@??_R4@"),
        ("??_7c@@6B", "c@", "@"),
        ("??_7c@@6Bd@", "0", "@"),
        ("??_R2c@", "0", "@8"),
        ("??_B?1??f@@YAXXZ@5", "A", "B@"),
        ("??_9c@", "0", "@$BA@AA"),
        ("??__Ex@a@", "10", "@@YAXXZ"),
        ("??__E?x@a@", "10", "@3HA@@YAXXZ"),
        ("?x@@3HA", "@", ""),
        (".?AVa@", "0", "@"),
        ("??_R0?AVa@", "0", "@@8"),
        ("?f@@9", "0", ""),
    ];
    let counts: Vec<usize> = match r.tier {
        Tier::Quick => vec![1000, 2047, 8000, 30_000, 100_000, 200_000, 340_000],
        Tier::Thorough => vec![500, 1000, 2040, 2041, 2042, 2043, 2044, 2045, 2046, 2047, 2048, 4000, 8000, 16_000, 32_767, 32_768, 65_535, 65_536, 100_000, 131_071, 131_072, 149_000, 174_000, 200_000, 262_144, 340_000, 524_287, 1_048_577, 3_000_000],
    };
    if r.broken() {
        return;
    }
    let mut all = vec![];
    for (head, one, tail) in [DIMENSIONS, PARAMETERS, SCOPES, REFERENCES, MORE].concat() {
        for n in &counts {
            all.push((head, one, tail, *n));
        }
    }
    let st = each_on(r.g, stack, &all, |cx, (head, one, tail, n)| {
        let mut s = head.replace('%', &crate::mangle::number(*n as u64, false));
        for i in 0..*n {
            if one.contains(['%', '^']) {
                s += &one.replace('%', &i.to_string()).replace('^', &(i % 10).to_string());
            } else {
                s += one;
            }
        }
        s += tail;
        cx.seen(&s);
        cx.st.transitions += *n as u64;
        cx.sample(|| format!("{}... ({} characters)", s.chars().take(60).collect::<String>(), s.len()));
        cx.survive(&s, &[0, 0x3FF]);
    });
    r.add(name, format!("{} kinds of lists, {} lengths up to {}, on {} KiB of stack", all.len() / counts.len(), counts.len(), counts.last().unwrap(), stack >> 10), st);
}

pub fn edits(s: &str, alphabet: &[char], mut f: impl FnMut(&str)) {
    let cs: Vec<char> = s.chars().collect();
    let n = cs.len();
    let mut b = String::with_capacity(s.len() + 8);
    let mut put = |parts: &[&[char]], f: &mut dyn FnMut(&str)| {
        b.clear();
        for p in parts {
            b.extend(p.iter());
        }
        f(&b);
    };
    for i in 0..=n {
        put(&[&cs[..i]], &mut f); // cut off
        put(&[&cs[i..]], &mut f); // beheaded
        for c in alphabet {
            put(&[&cs[..i], &[*c], &cs[i..]], &mut f); // one more
        }
        if i < n {
            put(&[&cs[..i], &cs[i + 1..]], &mut f); // one less
            put(&[&cs[..=i], &cs[i..]], &mut f); // twice
            for c in alphabet {
                if *c != cs[i] {
                    put(&[&cs[..i], &[*c], &cs[i + 1..]], &mut f); // another
                }
            }
        }
        if i + 1 < n {
            put(&[&cs[..i], &[cs[i + 1], cs[i]], &cs[i + 2..]], &mut f); // swapped
        }
    }
}

pub fn c01(r: &mut Run) {
    // every text at all
    let n = r.q(4, 5);
    struct Raw {
        depth: usize,
    }
    impl Raw {
        fn walk(&self, cx: &mut Cx, s: &mut String, left: usize) {
            if cx.stopped() {
                return;
            }
            cx.st.transitions += 1;
            cx.st.distinct += 1;
            cx.survive(s, SOME);
            if left == 0 {
                return;
            }
            let n = s.len();
            for c in SIGMA {
                s.push(c);
                self.walk(cx, s, left - 1);
                s.truncate(n);
            }
        }
    }
    let raw = Raw { depth: n };
    if !r.broken() {
        let mut items: Vec<(String, usize)> = vec![(String::new(), 0)];
        for a in SIGMA {
            items.push((a.to_string(), 0));
            for b in SIGMA {
                items.push((format!("{a}{b}"), raw.depth - 2));
            }
        }
        let st = each(r.g, &items, |cx, (s, left)| {
            cx.sample(|| s.clone());
            raw.walk(cx, &mut s.clone(), *left)
        });
        r.add("every text", format!("all texts of up to {n} characters over {}", SIGMA.len()), st);
    }
    let d = r.q(3, 4);
    if !r.broken() {
        let mut items: Vec<(String, usize)> = vec![];
        for root in ROOTS {
            items.push((root.to_string(), 0));
            for a in SIGMA {
                items.push((format!("{root}{a}"), d - 1));
            }
        }
        let st = each(r.g, &items, |cx, (s, left)| {
            raw.walk(cx, &mut s.clone(), *left)
        });
        r.add("every continuation", format!("all continuations by up to {d} characters of {} prefixes", ROOTS.len()), st);
    }
    // anything next to a real name
    let mut cat: Vec<String> = catalog(r.q(1, 2)).into_iter().map(|x| x.0).collect();
    cat.extend(corpus().into_iter().map(String::from));
    r.items("every edit", "every single edit of every catalogued name", &cat, |cx, text| {
        cx.seen(text);
        edits(text, &SIGMA, |s| {
            cx.st.transitions += 1;
            cx.seen(s);
            cx.survive(s, &[0, 0x3FF]);
        });
    });
    let odd = ['\0', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{301}', '\u{ffff}', '\u{10ffff}', '\u{e9}'];
    r.items("odd characters anywhere", "nine characters of one to four bytes put anywhere into every catalogued name", &cat, |cx, text| {
        cx.seen(text);
        edits(text, &odd, |s| {
            cx.st.transitions += 1;
            cx.seen(s);
            cx.survive(s, SOME);
        });
    });
    // two halves
    let small = catalog(1);
    let m = r.q(60, 200).min(small.len());
    let step = small.len() / m;
    let pick: Vec<&String> = small.iter().step_by(step.max(1)).map(|x| &x.0).collect();
    r.items("every splice", "every beginning of a catalogued name with every ending of another", &pick, |cx, a| {
        cx.seen(a.as_str());
        for b in &pick {
            for i in 0..=a.len() {
                for j in 0..=b.len() {
                    if a.is_char_boundary(i) && b.is_char_boundary(j) {
                        cx.st.transitions += 1;
                        let s = format!("{}{}", &a[..i], &b[j..]);
                        cx.seen(&s);
                        cx.survive(&s, DEF);
                    }
                }
            }
        }
    });
    // one character over and over
    let lens: &[usize] = &[20, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 2047, 2048, 2049, 10_000, 100_000];
    let mut items = vec![];
    for root in ROOTS {
        for c in SIGMA {
            items.push((root, c));
        }
    }
    r.items("repetition", "every character, 20 to 100000 times over, after every prefix", &items, |cx, (root, c)| {
        for n in lens {
            if *n >= 10_000 && root.len() > 6 {
                continue;
            }
            let mut s = root.to_string();
            s.extend(std::iter::repeat(*c).take(*n));
            cx.seen(&s);
            cx.st.transitions += 1;
            cx.survive(&s, DEF);
            s += "@@3HA";
            cx.survive(&s, DEF);
        }
    });
    deep(r, 2 << 20, "towers");
    long_lists(r, 2 << 20, "long lists");
}

// ---------- C12 ----------

pub fn c12(r: &mut Run) {
    digits(r);
    let n = r.q(3, 4);
    r.texts(
        "from nothing",
        &Texts { roots: &["", "?", "??", "??_", "??__", "??$", "?a@", "?a@@", "??$a@", "??_R", ".", "?a@?1?"], alphabet: &SIGMA, depth: n, closers: &["@", "@@3HA", "@@YAXXZ", "3HA", "YAXXZ", "HA", "@8", "6B@"], flags: DEF, note: "any text" },
    );
    r.texts(
        "types",
        &Texts {
            roots: &["?x@@3", "?x@@3P", "?x@@3A", "?x@@3Y", "?x@@3$$", "?x@@3_", "?x@@3V", "?x@@3V?$t@", "?x@@3PQa@@", "?x@@3?", ".", ".?A"],
            alphabet: &SIGMA[..43],
            depth: n,
            closers: &["A", "HA", "@A", "@@A", "XZA", "AXXZA", "@@@A", "H", "@", "@@"],
            flags: DEF,
            note: "a variable, or nearly one",
        },
    );
    r.texts(
        "functions",
        &Texts {
            roots: &["?f@@", "?f@@Y", "?f@@YA", "?f@@YAX", "?f@@YAXP", "?f@@YAXPAH", "?f@@YAX_", "?f@C@@Q", "?f@C@@QA", "?f@C@@$", "?f@@$$J0", "?f@@YAP6", "?f@@YAXP8C@@", "?f@@YA?", "??0", "??B"],
            alphabet: &SIGMA[..43],
            depth: n,
            closers: &["Z", "@Z", "XZ", "XXZ", "AXXZ", "AEXXZ", "C@@QAE@XZ", "C@@QAEHXZ", "@@QAEHXZ", "_E"],
            flags: DEF,
            note: "a function, or nearly one",
        },
    );
    r.texts(
        "names",
        &Texts {
            roots: &["?x@", "?x@?", "?x@?A", "?x@?$", "?x@?$t@", "?x@?1", "?x@?1??f@@YAXXZ@", "?x@n@", "??$x@", "??$x@H", "??$x@$1", "??$x@$0"],
            alphabet: &SIGMA[..43],
            depth: n,
            closers: &["@3HA", "@@3HA", "@@@3HA", "@@YAXXZ", "?f@@YAXXZ@3HA", "@?f@@YAXXZ@3HA"],
            flags: DEF,
            note: "a name, or nearly one",
        },
    );
    let mut cat: Vec<String> = catalog(r.q(2, 3)).into_iter().map(|x| x.0).collect();
    if r.tier == Tier::Quick {
        // the shorter ones: the longer ones combine what they show apart
        cat.truncate(3000);
    }
    r.items("every edit of generated names", "every single edit", &cat, |cx, text| {
        cx.sample(|| text.clone());
        edits(text, &SIGMA, |s| {
            cx.st.transitions += 1;
            cx.seen(s);
            cx.judge(s, DEF, "a name with one edit");
        });
    });
    let real = corpus();
    r.items("every edit of real names", "every single edit", &real, |cx, text| {
        cx.sample(|| text.to_string());
        let mut k = 0usize;
        edits(text, &SIGMA, |s| {
            k += 1;
            cx.st.transitions += 1;
            cx.seen(s);
            cx.judge(s, DEF, "a real name with one edit");
        });
    });
    let mut cat: Vec<String> = catalog(r.q(1, 2)).into_iter().map(|x| x.0).collect();
    cat.truncate(r.q(800, 6000));
    let chars = every_char();
    r.items("any character anywhere", "every single edit of the shorter generated names, with all of ASCII and some more", &cat, |cx, text| {
        edits(text, &chars, |s| {
            cx.st.transitions += 1;
            cx.seen(s);
            cx.judge(s, DEF, "a name with one edit");
        });
    });
    // counts, with what they count there, and one more or less of it; signed
    // counts, and ones too big, are refused however much there is
    let mut counts: Vec<u64> = (0..r.q(300, 2000) as u64).collect();
    for k in 8..64 {
        counts.extend([(1u64 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 10]);
    }
    counts.extend([u64::MAX - 1, u64::MAX]);
    r.items("counts and numbers with a sign", "each of these numbers, with and without a sign, in several spellings, wherever something is counted or may not be negative, with as many as it says or its last bits say, one more, and one less", &counts, |cx, v| {
        let hex: String = format!("{v:X}").chars().map(|c| (b'A' + c.to_digit(16).unwrap() as u8) as char).collect();
        for n in [crate::mangle::number(*v, false), crate::mangle::number(*v, true), format!("{hex}@"), format!("?{hex}@"), format!("?A{hex}@"), format!("??{hex}@")] {
            let items = [*v, *v & 0xFF, *v & 0xFFFF];
            for (i, k) in items.iter().enumerate() {
                if *k > 2001 || items[..i].contains(k) {
                    continue;
                }
                for k in [k.wrapping_sub(1), *k, k + 1] {
                    if k > 2002 {
                        continue;
                    }
                    let k = k as usize;
                    let ds: String = (0..k).map(|i| (b'0' + (i % 10) as u8) as char).collect();
                    for s in [
                        format!("?x@@3PAY{n}{ds}HA"),
                        format!("?f@@YAXQAY{n}{ds}H@Z"),
                        format!("??$t@$$BY{n}{ds}H@@YAXXZ"),
                        format!("??_C@_0{n}x@{}$AA@", "a".repeat(k.saturating_sub(1))),
                        format!("??_C@_1{n}x@{}$AA$AA@", "$AAa".repeat(k.saturating_sub(2) / 2)),
                    ] {
                        cx.st.transitions += 1;
                        cx.seen(&s);
                        cx.judge(&s, DEF, "something counted");
                    }
                }
            }
            for s in [
                format!("?x@@3PAY0{n}HA"),
                format!("?x@@3PAY10{n}HA"),
                format!("?x@@3PAY1{n}0HA"),
                format!("?x@?{n}??f@@YAXXZ@3HA"),
                format!("?x@C@?{n}??f@@YAXXZ@3HA"),
                format!("??_9C@@$B{n}AA"),
                format!("??_9C@@$B{n}AE"),
                format!("??_B?1??f@@YAXXZ@5{n}"),
                format!("??__J?1??f@@YAXXZ@5{n}"),
                format!("?x@@3HA{n}"),
                format!("??_R1{n}012C@@8"),
                format!("??_R10{n}12C@@8"),
                format!("??_R101{n}2C@@8"),
                format!("??_R1012{n}C@@8"),
                format!("?f@C@@W{n}AEXXZ"),
                format!("?f@C@@$4{n}0AEXXZ"),
                format!("?f@C@@$40{n}AEXXZ"),
                format!("?f@C@@$R4{n}012AEXXZ"),
                format!("?f@C@@$R4012{n}AEXXZ"),
            ] {
                cx.st.transitions += 1;
                cx.seen(&s);
                cx.judge(&s, DEF, "a number with a sign");
            }
        }
    });
    const CODES: &[&str] = &[
        "?x@@3HA", "?x@C@@2_NB", "?x@@3PEIFAHEIFA", "?x@@3P6AXXZA", "?x@@3P8C@@AEXXZQ1@", "?x@@3PQC@@HQ1@", "?x@@3Y01HA", "?x@@3PAY02$$CBHA", "?x@@3$$QAHA", "?x@@3W4e@@A", "?x@@3V?$t@H@@A", "?x@@3_SA", "?x@@3?BHA",
        "?f@@YAXXZ", "?f@@YAX_NH0Z", "?f@@YAXXZ_E", "?f@@YA?AVc@@XZ", "?f@C@@QEGBA@XZ", "?f@C@@UIFBEHXZ", "?f@C@@WBA@AEXXZ", "?f@C@@$4PPPPPPPM@A@AEXXZ", "?f@C@@$R4A@3A@7AEXXZ", "?f@@$$J0YAXXZ", "?f@@9",
        "??HC@@QAEXXZ", "??_VC@@QAEXXZ", "??__MC@@QAEXXZ", "??0C@@QAE@XZ", "??1C@@UAE@XZ", "??BC@@QBEHXZ", "??__K_k@@YAXXZ", "??$f@H@@YAXXZ", "??$?HH@@YAXXZ", "??$f@$0A@@@YAXXZ", "??$f@$1?x@@3HA@@YAXXZ", "??$f@$E?x@@3HA@@YAXXZ",
        "??$f@$H?f@@YAXXZA@@@YAXXZ", "??$f@$F01@@YAXXZ", "??$f@$MH0A@@@YAXXZ", "??$f@$$V@@YAXXZ", "??$f@$$Yc@@@@YAXXZ", "??$f@$$BY01H@@YAXXZ", "??$f@$S$$Z@@YAXXZ",
        "??_7C@@6B@", "??_7C@@6Bd@@@", "??_8C@@7B@", "??_R0H@8", "??_R1A@?0A@EA@C@@8", "??_R2C@@8", "??_R4C@@6B@", "??_9C@@$BA@AE", "??_C@_02x@hi?$AA@", "??_C@_13x@?$AAh?$AA?$AA@", "??_B?1??f@@YAXXZ@51", "??__J?1??f@@YAXXZ@5", "??__Ex@@YAXXZ", "??__E?x@@3HA@@YAXXZ", "??__Fx@@YAXXZ",
        "?x@?1??f@@YAXXZ@4HA", "?x@?BA@??f@@YAXXZ@4HA", "?x@?A0x1@@3HA", "?x@?$t@H@@3V1@A", ".?AVc@@", ".PAH", ".W4e@@",
    ];
    let to = r.q(0x31, 0x1100) as u32;
    // and what looks like letters or digits, or is one when cut off to 16 bits
    let more: &[u32] = if to < 0x100 { &[0xA6, 0xAB, 0xE0, 0xF6, 0xF7, 0xFB, 0xFE, 0xFF, 0x100, 0x104, 0x1D4, 0x1D5, 0x1D6, 0x1D7, 0x1F1, 0x200, 0xE00, 0x1000] } else { &[] };
    let blocks: Vec<(&str, u32)> = CODES.iter().flat_map(|t| (0..to).chain(more.iter().copied()).map(move |b| (*t, b))).collect();
    r.items("any character there is", if to < 0x100 { "every character to U+30FF, and of 18 blocks of 256 above, in place of, and before, any character of names that show every kind of place once" } else { "every character in place of, and before, any character of names that show every kind of place once" }, &blocks, |cx, (t, b)| {
        for c in (b << 8..(b + 1) << 8).filter_map(char::from_u32) {
            if cx.stopped() {
                return;
            }
            for (i, old) in t.char_indices() {
                for s in [format!("{}{c}{}", &t[..i], &t[i + old.len_utf8()..]), format!("{}{c}{}", &t[..i], &t[i..])] {
                    cx.st.transitions += 1;
                    cx.judge(&s, DEF, "a name with any character in it");
                }
            }
        }
        cx.seen(&format!("{t} {b}"));
    });
    if r.tier == Tier::Thorough {
        let cat: Vec<String> = catalog(1).into_iter().map(|x| x.0).filter(|s| s.len() <= 24).collect();
        let few: Vec<char> = "?@$_0159AEHPQVXYZa".chars().collect();
        r.items("every two edits of small names", "every two edits", &cat, |cx, text| {
            edits(text, &few, |s| {
                let s = s.to_string();
                edits(&s, &few, |s| {
                    cx.st.transitions += 1;
                    cx.judge(s, DEF, "a name with two edits");
                });
            });
        });
    }
}

/// Numbers of any number of digits, and what nearly is one, wherever there can be one, and followed by
/// whatever would make sense if it were something else.
fn digits(r: &mut Run) {
    if r.broken() {
        return;
    }
    let mut texts: Vec<String> = vec![];
    for n in (0..=r.q(40, 70)).chain([100, 255, 256, 300, 1000, 5000]) {
        for one in ["A", "B", "P", "BA", "BP", "Q", "a", "0", "9"] {
            let run = one.repeat(n);
            texts.push(run.clone());
            for c in ["A", "B", "P", "C", "0", "1", "Q", "?", "$", "_"] {
                texts.push(format!("{c}{run}"));
                texts.push(format!("{run}{c}"));
            }
        }
    }
    texts.sort();
    texts.dedup();
    const HOSTS: &[&str] = &[
        "?x@?%", "?x@a@?%", "?x@?$t@H@?%", "?%", "?x@@3PAY%", "?x@@3PAY0%", "??$f@$0%", "??_R1%", "??_9c@@$B%", "?f@c@@W%", "?f@c@@$4%", "?x@@3Vc@?%", "?x@?1??f@@YAXXZ@?%", "??_B?%", "??$f@$F%", "?f@@YAXVc@?%", "??_C@_0%", "??__E?x@?%",
    ];
    const ENDS: &[&str] = &[
        "", "@", "@@", "@3HA", "@@3HA", "@?f@@YAXXZ", "@?f@@YAXXZ@3HA", "?f@@YAXXZ@3HA", "@??f@@YAXXZ@3HA", "??f@@YAXXZ@3HA", "@?0?f@@YAXXZ", "@y@@3HA", "?y@@3HA", "@HA", "@0HA", "@AA", "@012c@@8", "@AEXXZ", "@A@AEXXZ", "@@YAXXZ", "@0@@YAXXZ",
        "@??f@@YAXXZ@51", "??f@@YAXXZ@51", "@?f@@YAXXZ@@A", "@??f@@YAXXZ@@A", "@?f@@YAXXZ@@Z", "@x@hi?$AA@", "@?y@?f@@3HA",
    ];
    let st = each(r.g, &texts, |cx, t| {
        for h in HOSTS {
            let head = h.replace('%', t);
            for e in ENDS {
                let s = format!("{head}{e}");
                cx.st.transitions += 1;
                cx.seen(&s);
                cx.judge(&s, DEF, "a number of some digits");
            }
        }
    });
    r.add("numbers of any length", format!("{} numbers, and what nearly is one, of up to 5000 digits, in {} places, each with {} endings", texts.len(), HOSTS.len(), ENDS.len()), st);
}

// ---------- C13 ----------

/// (input, flags, what the model says)
type Op = (String, u16, Option<String>);

fn op(s: &str, f: u16) -> Op {
    let o = crate::parse::parse(s);
    (s.into(), f, o.sym.map(|x| print(&x, f)))
}

/// a name that expands to more than anyone is willing to hold
fn bomb() -> String {
    let mut s = format!("?f@@YAXV{}@@", "n".repeat(120_000));
    s += "0000000000@Z";
    s
}

pub fn c13(r: &mut Run) {
    let mut ops: Vec<Op> = vec![
        op("?x@@3HA", 0),
        op("?f@C@@QAEXH@Z", 0),
        op("?f@C@@QAEXH@Z", 0x200),
        op("", 0),
        op("?x@@3H", 0),
        op("?f@@YAXV?$t@H", 0x3FF),
        op("??_C@_02PCEFGMJL@hi?$AA@", 0),
        op(&format!("?x@@3V{}@@A", "é😀".repeat(300)), 0),
        op("?x@@3PAY0A@HA", 1),
        op("abc", 0),
        op("??_R0H@8", 0),
        op(".?AUs@@x", 0),
        op(&format!("?{}@@3HA", "y".repeat(5000)), 0),
    ];
    ops.push((bomb(), 0, None));
    ops.push((bomb(), 0x200, Some("f".into())));
    let starts: Vec<(String, usize)> = vec![
        (String::new(), 0),
        ("left over".into(), 9),
        ("ß".repeat(40), 4096),
        (String::new(), 1 << 16),
        ("x".repeat(2 << 20), 2 << 20),
        (String::new(), 40 << 20),
    ];
    let n = r.q(4, 5);
    let ops = &ops;
    r.full("every history of one buffer", |cx, ch| {
        let k = ch.free(starts.len());
        let mut buf = String::with_capacity(starts[k].1);
        buf.push_str(&starts[k].0);
        let len = 1 + ch.free(n);
        let mut before = vec![];
        let mut trail = starts[k].0.len() as u64;
        for step in 0..len {
            let i = ch.free(ops.len());
            if step + 1 < len && i >= 13 && step > 0 {
                // big ones only at the ends of a history
                return;
            }
            let (s, f, want) = &ops[i];
            let cap = buf.capacity();
            let mut b = std::mem::take(&mut buf);
            let got = cx.guarded(s, *f, || {
                let ok = undname::demangle_into(s, fl(*f), &mut b).is_ok();
                (ok, b)
            });
            let complain = |cx: &mut Cx, want: String, got: String| {
                cx.violation(Violation {
                    input: s.clone(),
                    flags: *f,
                    want,
                    got,
                    note: format!("after a history of {step} calls on a buffer that held {} bytes", starts[k].0.len()),
                    expect: match &ops[i].2 {
                        Some(t) => format!("text:{t}"),
                        None => "refuse".into(),
                    },
                    before: before.clone(),
                    stack: cx.stack,
                });
            };
            cx.st.traces += 1;
            cx.st.transitions += 1;
            let Some((ok, b)) = got else {
                complain(cx, "a result".into(), "a panic".into());
                return;
            };
            if std::str::from_utf8(b.as_bytes()).is_err() {
                complain(cx, "text".into(), "invalid UTF-8".into());
                return;
            }
            buf = b;
            let text = ok.then(|| buf.clone());
            if text != *want {
                complain(cx, format!("{:?}", short(want)), format!("{:?}", short(&text)));
                return;
            }
            if !ok && !buf.is_empty() {
                complain(cx, "an empty buffer after an error".into(), format!("{} bytes in it", buf.len()));
                return;
            }
            if buf.capacity() < cap {
                complain(cx, format!("the buffer's allocation of {cap} bytes kept"), format!("{}", buf.capacity()));
                return;
            }
            trail = hash(&(trail, i as u64));
            cx.st.inputs.insert(trail);
            cx.st.outcomes.insert(hash(&(ok, &buf)));
            before.push((s.clone(), *f));
        }
        cx.sample(|| format!("start with {} bytes; calls: {:?}", starts[k].0.len(), before.iter().map(|(s, f)| (s.chars().take(30).collect::<String>(), *f)).collect::<Vec<_>>()));
    });
    // buffers of any capacity, with anything in them
    let small: Vec<(String, Option<String>)> = [
        "?x@@3HA", "?f@C@@QAEXH@Z", "?xé☃@n@@3HA", "??_C@_02PCEFGMJL@hi?$AA@", ".?AUs@@", "??_7c@@6B@", "", "?x@@3H", "abc", ".?AUs@@x", "?x@@3V1@A",
    ]
    .iter()
    .map(|x| (x.to_string(), op(x, 0).2))
    .collect();
    let mut contents: Vec<(String, usize)> = vec![];
    for c in (0..0x3100).chain(0xD7F0..0xD800).chain(0xE000..0xE010).chain(0xFE00..0x10010).chain(0x1F000..0x1F700).filter_map(char::from_u32) {
        contents.push((c.to_string(), 0));
        contents.push((format!("int x{c}"), 0));
        contents.push((format!("{c}int x"), 0));
    }
    for n in 0..=r.q(1100, 5000) {
        contents.push(("n".repeat(n), 0));
        contents.push(("é".repeat(n), 64));
        contents.push((String::new(), n));
    }
    for (s, want) in &small {
        for t in [Some(s), want.as_ref()].into_iter().flatten() {
            for (n, _) in t.char_indices() {
                contents.push((t[..n].into(), 0));
                contents.push((t[n..].into(), 4096));
            }
            contents.push((t.clone(), 0));
            contents.push((format!("{t}{t}"), 0));
            contents.push((format!("{t}\0"), 0));
            contents.push((format!("{t}\n"), 0));
        }
    }
    for k in 0..=24 {
        for d in [-1isize, 0, 1] {
            contents.push((String::new(), (1usize << k).saturating_add_signed(d)));
            contents.push(("full".repeat((1usize << k) / 4), (1usize << k).saturating_add_signed(d)));
        }
    }
    r.items("buffers of any kind", "eleven names into buffers that end, begin, or consist of any of ~15000 characters, of every length to 1100, with parts of the names or the texts in them, and of capacities around powers of two", &contents, |cx, (held, cap)| {
        for (s, want) in &small {
            into_used(cx, s, 0, want.as_deref(), held, *cap);
        }
        cx.seen(&format!("{cap} {held}"));
    });
    // both ways of calling agree, and so does a buffer that has seen something else
    let cat = catalog(r.q(3, 4));
    r.items("both ways of calling", "every catalogued name and every way to cut it short, by value and into a used buffer", &cat, |cx, (text, _)| {
        let mut buf = String::new();
        for n in 0..=text.len() {
            for f in [0u16, 0x200, 0x182] {
                buf.clear();
                buf.push_str("left over ☃");
                let s = &text[..n];
                cx.seen(s);
                cx.st.transitions += 1;
                let mut b = std::mem::take(&mut buf);
                let got = cx.guarded(s, f, || {
                    let by_value = undname::demangle(s, fl(f)).ok();
                    let ok = undname::demangle_into(s, fl(f), &mut b).is_ok();
                    (by_value, ok, b)
                });
                cx.st.traces += 1;
                let Some((by_value, ok, b)) = got else {
                    cx.fail(s, f, "a result", "a panic", "both ways of calling", "nopanic".into());
                    continue;
                };
                buf = b;
                let into = ok.then(|| buf.clone());
                if by_value != into || (!ok && !buf.is_empty()) {
                    let expect = match &by_value {
                        Some(t) => format!("text:{t}"),
                        None => "refuse".into(),
                    };
                    cx.fail(s, f, &format!("{by_value:?} as by value, and nothing else in the buffer"), &format!("ok: {ok}, buffer: {buf:?}"), "into a used buffer", expect);
                }
            }
        }
    });
}

/// A call that writes into a buffer of some capacity with something in it.
fn into_used(cx: &mut Cx, s: &str, f: u16, want: Option<&str>, content: &str, cap: usize) {
    let mut b = String::with_capacity(cap);
    b.push_str(content);
    let cap = b.capacity();
    cx.st.traces += 1;
    cx.st.transitions += 1;
    let expect = match want {
        Some(t) => format!("text:{t}"),
        None => "refuse".into(),
    };
    let got = cx.guarded(s, f, || {
        let ok = undname::demangle_into(s, fl(f), &mut b).is_ok();
        (ok, b)
    });
    let held = content.chars().rev().take(20).collect::<String>();
    let note = "into a buffer that was used before";
    let Some((ok, b)) = got else {
        cx.fail(s, f, "a result", "a panic", note, expect);
        return;
    };
    let brief = |t: &str| short(&Some(t.to_string())).unwrap();
    if std::str::from_utf8(b.as_bytes()).is_err() || ok != want.is_some() || b != want.unwrap_or("") {
        let got = String::from_utf8_lossy(b.as_bytes()).into_owned();
        cx.fail(s, f, &format!("{:?}, whatever the buffer held (capacity {cap}, {} bytes that end in {held:?}, reversed)", want.map(brief), content.len()), &format!("ok: {ok}, buffer: {:?}", brief(&got)), note, expect);
    } else if b.capacity() < cap {
        cx.fail(s, f, &format!("the buffer's allocation of {cap} bytes kept"), &format!("{} bytes", b.capacity()), note, expect);
    }
}

fn short(t: &Option<String>) -> Option<String> {
    t.as_ref().map(|s| if s.len() > 200 { format!("{}... ({} bytes)", s.chars().take(60).collect::<String>(), s.len()) } else { s.clone() })
}

// ---------- C14 ----------

/// What there can be any number of without anything being built from it: before, unit, after.
const LONG: &[(&str, &str, &str)] = &[
    // numbers, each with zeros in front, or beyond what there's room for
    ("?x@@3PAY0", "A", "B@HA"),
    ("?x@@3PAY", "A", "B@0HA"),
    ("?x@@3PAY0", "P", "@HA"),
    ("??$f@$0", "A", "B@@@YAXXZ"),
    ("??$f@$0?", "A", "B@@@YAXXZ"),
    ("??$f@$0", "B", "@@@YAXXZ"),
    ("??$f@$MH0", "A", "B@@@YAXXZ"),
    ("??$f@$F", "A", "B@0@@YAXXZ"),
    ("??$f@$F0", "A", "B@@@YAXXZ"),
    ("??$f@$G01", "A", "B@@@YAXXZ"),
    ("??$f@$J?g@@YAXXZ01", "A", "B@@@YAXXZ"),
    ("??_9C@@$B", "A", "B@AA"),
    ("??_R1", "A", "B@012C@@8"),
    ("??_R1012", "A", "B@C@@8"),
    ("??_B?1??f@@YAXXZ@5", "A", "B@"),
    ("?x@?", "A", "B@??f@@YAXXZ@3HA"),
    ("?x@?B", "A", "@??f@@YAXXZ@3HA"),
    ("?f@C@@W", "A", "B@AEXXZ"),
    ("?f@C@@$4", "A", "B@0AEXXZ"),
    ("?f@C@@$R4012", "A", "B@AEXXZ"),
    ("??_C@_0", "A", "C@x@a@"),
    ("??_C@_1", "A", "C@x@?$AA?$AA@"),
    // string literals
    ("??_C@_0CA@x@", "a", "@"),
    ("??_C@_0CA@x@", "?$AA", "@"),
    ("??_C@_0CA@x@", "?a", "@"),
    ("??_C@_0CA@x@", "?0", "@"),
    ("??_C@_1EA@x@", "?$AAa", "@"),
    ("??_C@_1EA@x@", "?$AA?$AA", "@"),
    ("??_C@_02", "x", "@a@"),
    ("??_C@_02x@a@", "a", "@"),
    // packs
    ("??$f@", "$S", "@@YAXXZ"),
    ("??$f@", "$$V", "@@YAXXZ"),
    ("??$f@", "$$$V", "@@YAXXZ"),
    ("??$f@", "$$Z", "@@YAXXZ"),
    ("?x@@3V?$t@", "$$Z$S", "@@A"),
    // references
    ("?f@", "0", "@YAXXZ"),
    ("?f@x@", "1", "@YAXXZ"),
    ("?x@@3Vx@", "0", "@A"),
    ("?f@@YAXPAH", "0", "@Z"),
    ("?f@@YAXPAH", "0", "ZZ"),
    ("?f@@YAP6AXPAH", "0", "@ZXZ"),
    ("??$f@PAH", "0", "@@YAXXZ"),
    ("?x@", "?1??0@YAXXZ@", "@3HA"),
    // names
    ("?", "a", "@@3HA"),
    ("?", "é", "@@3HA"),
    ("?x@", "a", "@@3HA"),
    ("?x@?A", "a", "@@3HA"),
    ("?x@?A0x", "1", "@y@@3HA"),
    ("??@", "a", "@"),
    ("??@", "a", "@??_R4@"),
    ("??__K", "a", "@@YAXXZ"),
    (".?AV", "a", "@@"),
    ("?f@@YAXV", "a", "@@0@Z"),
    ("??$", "a", "@H@@YAXXZ"),
    ("??__E", "a", "@@YAXXZ"),
    ("??_R4", "a", "@@6B@"),
    ("??_7", "a", "@@6B@"),
    ("?x@", "a@", "@3HA"),
    ("?x@", "ab@cd@", "@3HA"),
    ("?x@", "?A@", "@3HA"),
    ("?x@", "?A0x1@", "@3HA"),
    ("?x@", "?$t@@", "@3HA"),
    ("?x@", "?$t@H@", "@3HA"),
    ("?x@", "?0??f@@9@", "@3HA"),
    // types
    ("?f@@YAX", "H", "@Z"),
    ("?f@@YAX", "_N", "@Z"),
    ("?f@@YAX", "Va@@", "@Z"),
    ("?f@@YAX", "PAH", "@Z"),
    ("?f@@YAX", "P6AXXZ", "@Z"),
    ("?f@@YAX", "P8a@@AEXXZ", "@Z"),
    ("?f@@YAX", "PAY0A@H", "@Z"),
    ("?f@@YAX", "?Aa@@", "@Z"),
    ("??$f@", "H", "@@YAXXZ"),
    ("??$f@", "$00", "@@YAXXZ"),
    ("??$f@", "$1?a@@3HA", "@@YAXXZ"),
    ("??$f@", "$E?a@@3HA", "@@YAXXZ"),
    ("??$f@", "$H?a@@YAXXZ0", "@@YAXXZ"),
    ("??$f@", "$F01", "@@YAXXZ"),
    ("??$f@", "$MH0", "@@YAXXZ"),
    ("??$f@", "$$CBH", "@@YAXXZ"),
    ("??$f@", "$$BY00H", "@@YAXXZ"),
    ("??$f@", "$$Ya@@", "@@YAXXZ"),
    ("?x@@3PAY", "0", "HA"),
    ("?x@@3PAYP@", "0", "HA"),
    ("?x@@3P", "E", "AHA"),
    ("?x@@3P", "I", "AHA"),
    ("?x@@3P", "F", "AHA"),
    ("?x@@3P", "EIF", "AHA"),
    ("?f@C@@Q", "E", "AAXXZ"),
    ("?f@C@@Q", "IF", "AAXXZ"),
    ("?f@C@@QE", "G", "AAXXZ"),
    ("?f@@", "$$J0", "YAXXZ"),
    ("?f@@YAXX", "_E", "Z"),
    ("??_7a@@6B", "b@", "@"),
    // what's none
    ("", "?", ""),
    ("", "@", ""),
    ("", "$", ""),
    ("", "_", ""),
    ("", ".", ""),
    ("", "A", ""),
    ("", "0", ""),
    ("", " ", ""),
    ("", "\u{0}", ""),
    ("", "😀", ""),
    ("?", "?$", ""),
    ("??_", "_", ""),
    ("??$", "$", ""),
    ("?x@@3", "?", ""),
    ("?x@@3", "$", ""),
    ("?x@@3", "$$", ""),
    ("?x@@3", "_", ""),
    // what follows
    ("?x@@3HA", "Z", ""),
    ("?x@@3HA", "?x@@3HA", ""),
    ("?f@@YAXXZ", "Z", ""),
    ("?f@@YAXXZ", "_E", ""),
    ("??_R0H@8", "8", ""),
    ("??_C@_02x@a@", "@", ""),
    ("??@a@", "?", ""),
    (".H", "H", ""),
    ("??_7a@@6B@", "@", ""),
];

pub fn c14(r: &mut Run) {
    const M: usize = 1 << 20;
    // texts of a length that's right at the limit, made in different ways
    let mut items: Vec<(String, u16, Option<String>)> = vec![];
    for total in [M - 300, M - 65, M - 3, M - 2, M - 1, M + 1, M + 2, M + 3, M + 64, M + 70_000] {
        let fits = total < M;
        let mut add = |s: String, f: u16, want: String| {
            assert_eq!(want.len(), total);
            items.push((s, f, fits.then_some(want)));
        };
        let n = total - "int ".len();
        add(format!("?{}@@3HA", "a".repeat(n)), 0, format!("int {}", "a".repeat(n)));
        let n = total;
        add(format!("?{}@@3HA", "a".repeat(n)), 0x200, "a".repeat(n));
        // the last piece is a single character
        let n = total - "void __cdecl f(class )".len();
        add(format!("?f@@YAXV{}@@@Z", "b".repeat(n)), 0, format!("void __cdecl f(class {})", "b".repeat(n)));
        // through references, so that what's written is far longer than what's read
        let unit = 99_990;
        let fixed = "void __cdecl f(".len() + ")".len();
        let per = "class ".len() + unit + ", ".len();
        let rest = total - fixed - 10 * per;
        let tail = rest - "class ".len();
        let c = "c".repeat(unit);
        let t = "d".repeat(tail);
        add(
            format!("?f@@YAXV{c}@@000000000V{t}@@@Z"),
            0,
            format!("void __cdecl f({}class {t})", format!("class {c}, ").repeat(10)),
        );
        // two-byte characters
        if (total - 4) % 2 == 0 {
            let n = (total - 4) / 2;
            add(format!("?{}@@3HA", "é".repeat(n)), 0, format!("int {}", "é".repeat(n)));
        }
        // a type descriptor name, whose last piece is a long one
        let tail = " `RTTI Type Descriptor Name'";
        let n = total - "class ".len() - tail.len();
        add(format!(".?AV{}@@", "e".repeat(n)), 0, format!("class {}{tail}", "e".repeat(n)));
    }
    r.items("the limit on what is written", "lengths around the limit, reached in six ways", &items, |cx, (s, f, want)| {
        cx.st.transitions += 1;
        cx.seen(s);
        cx.sample(|| format!("{}... ({} bytes) must be {}", s.chars().take(40).collect::<String>(), s.len(), if want.is_some() { "accepted" } else { "refused" }));
        match want {
            Some(w) => cx.expect_text(s, *f, w, "a text below the limit"),
            None => cx.expect_refusal(s, *f, "a text beyond the limit"),
        };
        // whatever there's room for
        for cap in [0, M - 1, M, M + 1, 2 * M, 8 * M, 40 * M] {
            into_used(cx, s, *f, want.as_deref(), "", cap);
            into_used(cx, s, *f, want.as_deref(), &"held ".repeat(cap / 10), cap);
        }
    });
    // growth: how a call's cost depends on the depth of doubling
    let mut bombs: Vec<String> = vec![];
    for w in [2usize, 3, 6, 10] {
        for n in [2usize, 5, 10, 20, 40, 80] {
            // each template's arguments are all references to the one before
            let mut t = "Vx@@".to_string();
            for i in 0..n {
                let refs = "0".repeat(w.min(9));
                t = format!("V?$t{i}@P6AX{t}{refs}@Z@@");
            }
            bombs.push(format!("?f@@YAX{t}@Z"));
            bombs.push(format!("?f@@YAX{t}000000@Z"));
            bombs.push(format!("?x@@3{t}A"));
            // names instead
            let mut t = "x@".to_string();
            for i in 0..n {
                let refs: String = (0..w).map(|_| "V1@".to_string()).collect();
                t = format!("?$u{i}@V{t}@{refs}@");
            }
            bombs.push(format!("?{t}@3HA"));
            bombs.push(format!("?x@@3V{t}@A"));
            // as long names
            let long = "L".repeat(3000);
            let mut t = format!("V{long}@@");
            for i in 0..n {
                t = format!("V?$w{i}@{t}{}@@", "V0@".repeat(w));
            }
            bombs.push(format!("?x@@3{t}A"));
            // operators and structors repeat the name of their class
            let mut t = "x@".to_string();
            for i in 0..n.min(40) {
                t = format!("?$s{i}@V{t}@{}@", "V1@".repeat(w));
            }
            bombs.push(format!("??0{t}@QAE@XZ"));
            bombs.push(format!("??1{t}@QAE@XZ"));
            bombs.push(format!("??{t}@QAE@XZ"));
            bombs.push(format!("??B{t}@QAEHXZ"));
            let mut s = "?x@@3HA".to_string();
            for _ in 0..n {
                s = format!("??$g@$1{s}{}@@YAXXZ", "V0@".repeat(w.min(9)));
            }
            bombs.push(s);
        }
    }
    // templates are remembered as they're written: one of nearly the longest text there can be,
    // inside of many more
    for fill in [12usize, 15, 16, 17, 18] {
        for around in [1usize, 30, 100, 200, 300, 400, 450, 490] {
            // about 2^fill characters
            let mut t = "wwwwwwwwww@".to_string();
            for _ in 0..fill.saturating_sub(2) {
                t = format!("?$d@V{t}@V1@@");
            }
            for _ in 0..around {
                t = format!("?$t@V{t}@@");
            }
            bombs.push(format!("?x@@3V{t}@A"));
            bombs.push(format!("?x@{t}@3HA"));
            bombs.push(format!("??0{t}@QAE@XZ"));
            bombs.push(format!("?f@@YAXV{t}@V1@000@Z"));
        }
        // side by side
        let mut t = "wwwwwwwwww@".to_string();
        for _ in 0..fill.saturating_sub(2) {
            t = format!("?$d@V{t}@V1@@");
        }
        for many in [9usize, 50, 200, 600, 2500, 6000] {
            if many > 1000 && fill < 16 {
                continue;
            }
            let args: String = (0..many).map(|i| format!("V?$s{i}@V{t}@@@")).collect();
            bombs.push(format!("?f@@YAX{args}@Z"));
            let args: String = (0..many).map(|i| format!("?$s{i}@V{t}@@")).collect();
            bombs.push(format!("?x@{args}@3HA"));
        }
    }
    // what is nearly the longest text there can be, said again by references: in names of scopes, in
    // symbols that are arguments, in types
    for fill in [8usize, 14, 15] {
        let mut t = "wwwwwwwwwww@".to_string();
        for _ in 0..fill {
            t = format!("?$d@V{t}@V1@@");
        }
        for many in [1usize, 30, 100, 200, 300, 350, 400, 450, 500, 3000] {
            for again in ["?1??1@9", "?1??1@3HA", "?1???_R21@8", "?1???_B1@5", "?1??01@9"] {
                bombs.push(format!("?x@{t}{}@3HA", again.repeat(many)));
            }
            for again in ["$1?1@9", "$1?1@3HA", "$1??_R21@8", "$E?1@9", "V1@", "?1@", "?$e@V1@@"] {
                bombs.push(format!("?x@@3V?$s@V{t}@{}@@A", again.repeat(many)));
            }
            for again in ["V1@", "PAV1@", "?1@", "P8x@1@AEXXZ"] {
                bombs.push(format!("?f@@YAXV{t}@{}@Z", again.repeat(many)));
            }
        }
    }
    // as many nodes as a text of some length can ask for
    for unit in ["PAH", "VC@@", "PAPAPAH", "_N", "V?$t@H@@", "P6AXXZ", "Y01H", "V?$t@HHHHHHHH@@", "0"] {
        for n in [100, 400, 700, 1000, 1500, 2100, 5000, 50_000] {
            bombs.push(format!("?f@@YAX{}@Z", format!("{}{}", if unit == "0" { "PAH" } else { "" }, unit.repeat(n))));
            bombs.push(format!("??$f@{}@@YAXXZ", unit.repeat(n)));
        }
    }
    // as long as they come, of whatever is read a character or a piece at a time
    let long = r.q(4, 7) << 20;
    for (head, unit, tail) in LONG {
        // not all of them get far: at their ends, and with as much behind what's wrong with them
        let many = unit.repeat(long / unit.len().max(1));
        bombs.push(format!("{head}{many}{tail}"));
        bombs.push(format!("{head}{many}"));
    }
    // side by side, twice as much takes about twice as long
    let steepest = std::sync::atomic::AtomicUsize::new(0);
    let most = r.q(7, 9);
    r.items("time in proportion", "whatever can be repeated, 125 times over, and twice that, and so on; where time more than trebles twice in a row, to above 1 ms, it's measured again", LONG, |cx, (head, unit, tail)| {
        let name = |k: usize| format!("{head}{}{tail}", unit.repeat(125 << k));
        let time = |cx: &mut Cx, k: usize, f: u16, runs: usize| {
            let s = name(k);
            cx.seen(&s);
            cx.st.traces += 1;
            (0..runs)
                .map(|_| {
                    cx.st.transitions += 1;
                    let t = cpu_ns();
                    cx.call(&s, f);
                    cpu_ns().saturating_sub(t)
                })
                .min()
                .unwrap_or(0)
                .max(1)
        };
        for f in [0u16, 0x200] {
            let t: Vec<usize> = (0..=most).map(|k| time(cx, k, f, 7)).collect();
            for k in 0..=most - 2 {
                let ratio = |t: &[usize]| (100 * t[1] / t[0]).min(100 * t[2] / t[1]);
                let mut x = ratio(&t[k..]);
                for _ in 0..5 {
                    if x > 300 {
                        let again: Vec<usize> = (k..k + 3).map(|k| time(cx, k, f, 30)).collect();
                        x = x.min(ratio(&again));
                    }
                }
                steepest.fetch_max(x, std::sync::atomic::Ordering::Relaxed);
                if x > 300 && t[k + 2] > 1_000_000 {
                    let got = format!("{}, {}, and {} us for {} bytes, for twice, and for four times as many", t[k] / 1000, t[k + 1] / 1000, t[k + 2] / 1000, name(k).len());
                    cx.fail(&name(k + 2), f, "time in proportion to the length", &got, "a growing name", "refuse".into());
                }
            }
        }
    });
    eprintln!("  steepest: {} / 100", steepest.into_inner());
    let peak = std::sync::atomic::AtomicUsize::new(0);
    let slowest = std::sync::atomic::AtomicUsize::new(0);
    r.items("inputs that grow", "templates of templates of references, twelve ways, floods of arguments, and whatever can be repeated, for megabytes", &bombs, |cx, s| {
        use std::sync::atomic::Ordering::Relaxed;
        cx.seen(s);
        for f in [0u16, 0x200, 0x3FF] {
            cx.st.transitions += 1;
            crate::meter::reset();
            let t = cpu();
            cx.st.traces += 1;
            let got = cx.call(s, f);
            let t = cpu().saturating_sub(t);
            let m = crate::meter::peak();
            peak.fetch_max(m, Relaxed);
            slowest.fetch_max(t, Relaxed);
            cx.st.outcomes.insert(hash(&got.show()));
            match &got {
                Got::Panicked | Got::Garbage(_) => cx.fail(s, f, "a result", &got.show(), "an input that grows", "nopanic".into()),
                Got::Text(t) if t.len() > M => cx.fail(s, f, "less than a mebibyte", &format!("{} bytes", t.len()), "an input that grows", "refuse".into()),
                _ => {}
            }
            if m > 2 << 30 {
                cx.fail(s, f, "at most 2 GiB of memory", &format!("{} MiB", m >> 20), "an input that grows", "refuse".into());
            }
            if t > 10_000 {
                cx.fail(s, f, "an answer within 10 s of processor time", &format!("{t} ms"), "an input that grows", "refuse".into());
            }
        }
    });
    // as much as anyone could hand in, one at a time
    let most = r.q(96, 192) << 20;
    r.items("inputs of any size", "96 MiB (thorough: 192) of a few characters, wherever the name is read on from or isn't", &[()], |cx, ()| {
        for (head, unit, tail) in [
            ("?x@@3HA", "x", ""),
            ("?x@@3HA", "@", ""),
            ("?x@@3HA", "é", ""),
            ("?f@@YAXXZ", "?", ""),
            (".?AVc@@", "x", ""),
            ("??_7c@@6B@", "@", ""),
            ("?", "x", "@@3HA"),
            ("?", "é", "@@3HA"),
            ("?x@", "n@", "@3HA"),
            ("?f@@YAX", "0", "@Z"),
            ("?f@@YAXPAH", "0", "@Z"),
            ("??_C@_02FKKPPBAA@", "h", "@"),
            ("??@", "0", "@"),
            ("x", "x", ""),
            (" ", " ", ""),
            ("\0", "\0", ""),
        ] {
            let s = format!("{head}{}{tail}", unit.repeat(most / unit.len()));
            cx.seen(&s);
            for f in [0u16, 0x3FF] {
                cx.st.transitions += 1;
                cx.st.traces += 1;
                crate::meter::reset();
                let t = cpu();
                let got = cx.call(&s, f);
                let t = cpu().saturating_sub(t);
                let m = crate::meter::peak();
                peak.fetch_max(m, std::sync::atomic::Ordering::Relaxed);
                slowest.fetch_max(t, std::sync::atomic::Ordering::Relaxed);
                if let Got::Panicked | Got::Garbage(_) = &got {
                    cx.fail(&s, f, "a result", &got.show(), "an input of any size", "nopanic".into());
                }
                if m > (2usize << 30).max(32 * s.len()) {
                    cx.fail(&s, f, "at most 2 GiB of memory, or 32 bytes for each of the input's", &format!("{} MiB", m >> 20), "an input of any size", "refuse".into());
                }
                if t > 10_000 {
                    cx.fail(&s, f, "an answer within 10 s of processor time", &format!("{t} ms"), "an input of any size", "refuse".into());
                }
            }
        }
    });
    eprintln!("  peak {} MiB, slowest {} ms", peak.into_inner() >> 20, slowest.into_inner());
    // what's of a reasonable size has to be accepted
    let lens: Vec<usize> = (0..=300).collect();
    r.items("what must still be accepted", "0 to 300 of everything there can be several of, and up to 64 levels", &lens, |cx, n| {
        let n = *n;
        let reps: Vec<(String, String)> = vec![
            (format!("?f@@YAX{}@Z", if n == 0 { "H".into() } else { "PAH".repeat(n) }), format!("void __cdecl f({})", if n == 0 { "int".into() } else { vec!["int *"; n].join(", ") })),
            (format!("??$f@{}@@YAXXZ", "VC@@".repeat(n)), format!("void __cdecl f<{}>(void)", vec!["class C"; n].join(", "))),
            (format!("?x@{}@3HA", "n@".repeat(n)), format!("int {}x", "n::".repeat(n))),
            (format!("?x@@3PAY{}{}HA", crate::mangle::number(n as u64 + 1, false), "2".repeat(n + 1)), format!("int (*x){}", "[3]".repeat(n + 1))),
        ];
        let m = n.min(64);
        let deep: Vec<(String, String)> = vec![
            (format!("?x@@3{}HA", "PA".repeat(m)), format!("int {}x", "*".repeat(m))),
            (format!("?x@@3{}H{}A", "V?$t@".repeat(m), "@@".repeat(m)), format!("{}int{} x", "class t<".repeat(m), ">".repeat(m))),
            (format!("{}?x@@3HA{}", "?x@?1?".repeat(m), "@3HA".repeat(m)), {
                let mut t = "int x".to_string();
                for _ in 0..m {
                    t = format!("int `{t}'::`2'::x");
                }
                t
            }),
        ];
        for (s, want) in reps.iter().chain(&deep) {
            cx.st.transitions += 1;
            cx.seen(s);
            cx.expect_text(s, 0, want, "a name of reasonable size");
        }
    });
    // beyond that, it's either right or refused, and once refused it stays so
    let makes: Vec<usize> = (0..14).collect();
    let lim = r.q(3000, 12_000);
    let mut sizes: Vec<usize> = (1..700).chain((700..lim).step_by(13)).collect();
    for k in 9..18 {
        sizes.extend((1usize << k) - 2..=(1 << k) + 2);
    }
    sizes.sort();
    sizes.dedup();
    r.items("either right or refused", "fourteen ways to grow, to 3000 in small steps, and on to 2^17", &makes, |cx, make| {
        let mut refused = false;
        for n in &sizes {
            let n = *n;
            let (s, want) = match make {
                0 => (format!("?f@@YAX{}@Z", "PAH".repeat(n)), format!("void __cdecl f({})", vec!["int *"; n].join(", "))),
                1 => (format!("?f@@YAX{}@Z", "H".repeat(n)), format!("void __cdecl f({})", vec!["int"; n].join(", "))),
                2 => (format!("??$f@{}@@YAXXZ", "VC@@".repeat(n)), format!("void __cdecl f<{}>(void)", vec!["class C"; n].join(", "))),
                3 => (format!("?x@{}@3HA", "n@".repeat(n)), format!("int {}x", "n::".repeat(n))),
                4 => (format!("?x@@3PAY{}{}HA", crate::mangle::number(n as u64 + 1, false), "2".repeat(n + 1)), format!("int (*x){}", "[3]".repeat(n + 1))),
                5 => (format!("?x@@3{}HA", "PA".repeat(n)), format!("int {}x", "*".repeat(n))),
                6 => (format!("?x@@3{}H{}A", "V?$t@".repeat(n), "@@".repeat(n)), format!("{}int{} x", "class t<".repeat(n), ">".repeat(n))),
                7 => (format!("?{}@@3HA", "ab".repeat(n)), format!("int {}", "ab".repeat(n))),
                8 => (format!("?f@@YAXV{}@@0@Z", "ab".repeat(n)), format!("void __cdecl f(class {0}, class {0})", "ab".repeat(n))),
                9 => (
                    format!("?x@{}@3HA", (0..n).map(|i| format!("n{i}@")).collect::<String>()),
                    format!("int {}x", (0..n).rev().map(|i| format!("n{i}::")).collect::<String>()),
                ),
                10 => (
                    format!("?f@@YAX{}@Z", (0..n).map(|i| format!("Un{i}@@")).collect::<String>()),
                    format!("void __cdecl f({})", (0..n).map(|i| format!("struct n{i}")).collect::<Vec<_>>().join(", ")),
                ),
                11 => (
                    format!("??$f@{}@@YAXXZ", (0..n).map(|i| format!("${}{}", 0, crate::mangle::number(i as u64, false))).collect::<String>()),
                    format!("void __cdecl f<{}>(void)", (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(", ")),
                ),
                12 => (
                    format!("?x@{}@3HA", "?1??f@@YAXXZ@".repeat(n)),
                    format!("int {}x", "`void __cdecl f(void)'::`2'::".repeat(n)),
                ),
                _ => (
                    format!("?x@@3{}{}A", "P6AX".repeat(n), format!("H{}", "@Z".repeat(n))),
                    {
                        // parameters that are pointers to functions with such parameters
                        let mut t = "int".to_string();
                        for k in 0..n.min(2000) {
                            t = if k + 1 == n { format!("void (__cdecl *x)({t})") } else { format!("void (__cdecl *)({t})") };
                        }
                        t
                    },
                ),
            };
            cx.st.transitions += 1;
            cx.seen(&s);
            cx.st.traces += 1;
            match cx.call(&s, 0) {
                Got::Text(t) if t == want && !refused => {}
                Got::Refused => refused = true,
                got => {
                    let what = if refused { "refused, as a smaller one is" } else { "the right text, or an error" };
                    cx.fail(&s, 0, what, &got.show(), "a growing name", "refuse".into());
                    return;
                }
            }
        }
    });
}

/// this thread's processor time in milliseconds
fn cpu() -> usize {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as usize * 1000 + t.tv_nsec as usize / 1_000_000
}

fn cpu_ns() -> usize {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as usize * 1_000_000_000 + t.tv_nsec as usize
}

// ---------- C15 ----------

pub fn c15(r: &mut Run) {
    let mut cat: Vec<String> = catalog(1).into_iter().map(|x| x.0).collect();
    for bad in ["", "?", "?x@@3", "?f@@YAXV?$t@H", "?f@@YAX9@Z", "??$f@$1?x@@3H@@YAXXZ", "?x@?1??f@@YAXV1@", "abc"] {
        cat.push(bad.into());
    }
    let small = cat.len();
    // and real ones, which are longer and remember more
    cat.extend(corpus().iter().step_by(r.q(6, 2)).filter(|s| s.len() < 600).map(|s| s.to_string()));
    let cat = &cat;
    let idx: Vec<usize> = (0..cat.len()).collect();
    let sets: [u16; 13] = [0, 0x002, 0x182, 0x200, 0x001, 0x004, 0x008, 0x010, 0x020, 0x040, 0x080, 0x100, 0x3FF];
    const FEW: usize = 4;
    // What a name means is what a new process says of it, as its first call: nothing that came
    // before may change that.
    let table: Vec<std::sync::OnceLock<Vec<Got>>> = cat.iter().map(|_| Default::default()).collect();
    let exe = std::env::current_exe().unwrap();
    let fresh = |name: &str, flags: u16| {
        let out = std::process::Command::new(&exe)
            .args(["call", &flags.to_string(), "--", name])
            .output()
            .unwrap_or_else(|e| engine_error(&e.to_string()));
        match String::from_utf8(out.stdout) {
            Ok(t) if t == "refused" => Got::Refused,
            Ok(t) if t.starts_with("ok ") => Got::Text(t[3..].into()),
            Ok(_) => Got::Panicked,
            Err(e) => Got::Garbage(e.into_bytes().len()),
        }
    };
    r.items("the first call of a process", "every catalogued and real name as the first call of a new process, under 13 sets of flags", &idx, |cx, i| {
        let mut all = vec![];
        for f in sets {
            let got = fresh(&cat[*i], f);
            cx.st.traces += 1;
            cx.st.transitions += 1;
            cx.st.calls += 1;
            cx.st.distinct += 1;
            cx.st.outcomes.insert(hash(&got.show()));
            if f == 0 {
                // and another
                let again = fresh(&cat[*i], BY_VALUE);
                cx.st.calls += 1;
                if again != got {
                    cx.fail(&cat[*i], f, &got.show(), &again.show(), "the first calls of two processes", "nopanic".into());
                }
            }
            all.push(got);
        }
        let _ = table[*i].set(all);
    });
    if r.broken() || r.g.stop.load(std::sync::atomic::Ordering::SeqCst) {
        return;
    }
    let table: Vec<Vec<Got>> = table.into_iter().filter_map(|t| t.into_inner()).collect();
    if table.len() < cat.len() {
        return; // out of time
    }
    let table = &table;
    // a call is (name, flags, whether by value)
    type Call = (usize, usize, bool);
    let bits = |c: &Call| sets[c.1] | if c.2 { BY_VALUE } else { 0 };
    let one = |cx: &mut Cx, c: Call, before: &[Call]| {
        cx.st.traces += 1;
        let got = cx.call(&cat[c.0], bits(&c));
        let want = &table[c.0][c.1];
        if got != *want {
            cx.violation(Violation {
                input: cat[c.0].clone(),
                flags: bits(&c),
                want: want.show(),
                got: got.show(),
                note: format!("after {} other calls in a row; wanted is what a new process says", before.len()),
                expect: match &want {
                    Got::Text(t) => format!("text:{t}"),
                    _ => "refuse".into(),
                },
                before: before.iter().map(|c| (cat[c.0].clone(), bits(c))).collect(),
                stack: cx.stack,
            });
        }
    };
    r.items("every two calls", "every ordered pair of catalogued and real names, of 4 sets of flags, and of ways to call", &idx, |cx, i| {
        for j in 0..cat.len() {
            for f in 0..FEW {
                for e in 0..FEW {
                    for way in [false, true] {
                        cx.st.transitions += 2;
                        cx.st.distinct += 1;
                        one(cx, (*i, f, way), &[]);
                        one(cx, (j, e, way), &[(*i, f, way)]);
                    }
                }
            }
        }
        cx.sample(|| format!("{} then each of {} names, under {FEW} x {FEW} sets of flags", cat[*i], cat.len()));
    });
    let m = r.q(100, 200);
    let step = (small / m).max(1);
    let some: Vec<usize> = (0..cat.len()).step_by(step).collect();
    r.items("every three calls", "every ordered triple out of a part of them, in turn by value and into a buffer", &some, |cx, i| {
        for j in &some {
            for k in &some {
                for way in [false, true] {
                    cx.st.transitions += 3;
                    cx.st.distinct += 1;
                    let (a, b, c) = ((*i, 0, way), (*j, 0, !way), (*k, 0, way));
                    one(cx, a, &[]);
                    one(cx, b, &[a]);
                    one(cx, c, &[a, b]);
                }
            }
        }
    });
    let m = r.q(20, 28);
    let step = (small / m).max(1);
    let few: Vec<usize> = (0..cat.len()).step_by(step).collect();
    r.items("every four calls", "every history of four calls out of fewer of them", &few, |cx, i| {
        for j in &few {
            for k in &few {
                for l in &few {
                    cx.st.transitions += 4;
                    cx.st.distinct += 1;
                    let h = [(*i, 0, false), (*j, 0, false), (*k, 0, false), (*l, 0, false)];
                    for n in 0..4 {
                        one(cx, h[n], &h[..n]);
                    }
                }
            }
        }
    });
    // names that are easily taken for each other
    let mut bases: Vec<String> = cat.clone();
    for n in [3usize, 10, 20, 33, 66, 130, 260, 520, 1100, 2200] {
        bases.push(format!("?f@@YAXV{}@@@Z", "abcdefghij".chars().cycle().take(n).collect::<String>()));
        bases.push(format!("?x@{}3HA", (0..n.min(100)).map(|i| format!("n{i}@")).collect::<String>() + "@"));
        bases.push(format!("?f@@YAX{}@Z", "HPAHDM".repeat(n.min(260) / 4 + 1)));
    }
    r.items("names that differ in little", "every catalogued, real, and some long names, each followed by the ones that differ in one character, in the order of two, or in where one of them stands, in either order", &bases, |cx, base| {
        let mut nears: Vec<String> = vec![];
        for (p, c) in base.char_indices().filter(|x| x.1.is_ascii_alphanumeric()) {
            for d in [c as u8 + 1, b'A', b'B', b'P', b'Q', b'Z', b'x', b'0', b'1'] {
                if d != c as u8 {
                    nears.push(format!("{}{}{}", &base[..p], d as char, &base[p + 1..]));
                }
            }
        }
        let cs: Vec<char> = base.chars().collect();
        let reach = match cs.len() {
            0..=40 => 40,
            41..=300 => 3,
            _ => 1,
        };
        for i in 0..cs.len() {
            for j in i + 1..cs.len().min(i + 1 + reach) {
                if cs[i] == cs[j] {
                    continue;
                }
                let mut x = cs.clone();
                x.swap(i, j);
                nears.push(x.iter().collect());
                // one of them moved next to the other
                let c = x.remove(i);
                x.insert(j, c);
                nears.push(x.iter().collect());
                let mut x = cs.clone();
                let c = x.remove(i);
                x.insert(j, c);
                nears.push(x.iter().collect());
            }
        }
        nears.sort();
        nears.dedup();
        for near in &nears {
            {
                for (first, then) in [(base, near), (near, base)] {
                    cx.st.transitions += 2;
                    cx.st.traces += 1;
                    cx.st.distinct += 1;
                    cx.call(first, 0);
                    let got = cx.call(then, 0);
                    let model = match crate::parse::parse(then).sym {
                        Some(s) => Got::Text(crate::print::print(&s, 0)),
                        None => Got::Refused,
                    };
                    if got == model {
                        continue;
                    }
                    // the model is not what counts here
                    let want = fresh(then, 0);
                    if got != want {
                        cx.violation(Violation {
                            input: then.clone(),
                            flags: 0,
                            want: want.show(),
                            got: got.show(),
                            note: "after a name that differs in one character; wanted is what a new process says".into(),
                            expect: match &want {
                                Got::Text(t) => format!("text:{t}"),
                                _ => "refuse".into(),
                            },
                            before: vec![(first.clone(), 0)],
                            stack: cx.stack,
                        });
                    }
                }
            }
        }
    });
    // after something that strains the limits, nothing may be left
    let big: Vec<(String, u16)> = vec![
        (bomb(), 0),
        (bomb(), 0x200),
        (format!("?{}@@3HA", "y".repeat((1 << 20) + 5)), 0),
        (format!("?{}@@3HA", "y".repeat((1 << 20) - 50)), 0),
        (format!("?x@@3{}HA", "PA".repeat(500)), 0),
        (format!("?x@@3{}HA", "PA".repeat(5000)), 0),
        (format!("?x@@3{}HA", "V?$t@".repeat(5000)), 0),
        (format!("?x@@3{}", "P6AX".repeat(300)), 0),
        (format!("?f@@YAX{}@Z", "PAH".repeat(5000)), 0),
        (format!("?x@{}@3HA", (0..3000).map(|i| format!("n{i}@")).collect::<String>()), 0),
        (format!("?x@@3PAY{}{}HA", crate::mangle::number(40, false), "2".repeat(40)), 0),
        (format!("{}?x@@3HA{}", "?x@?1?".repeat(100), "@3HA".repeat(100)), 0),
    ];
    let big = &big;
    r.items("after something big", "every catalogued and real name after each of 12 that strain the limits, once and twice", &idx, |cx, i| {
        // (each is called on every thread often enough; the heavier ones for fewer names)
        for (k, (s, f)) in big.iter().enumerate() {
            if k < 4 && *i % 8 != 0 {
                continue;
            }
            for way in [0, BY_VALUE] {
                for times in 1..=2 {
                    for _ in 0..times {
                        let got = cx.call(s, f | way);
                        if matches!(got, Got::Panicked | Got::Garbage(_)) {
                            cx.fail(s, *f, "a result", &got.show(), "something big", "nopanic".into());
                        }
                    }
                    cx.st.transitions += 1;
                    cx.st.distinct += 1;
                    cx.st.traces += 1;
                    let got = cx.call(&cat[*i], way);
                    let want = &table[*i][0];
                    if got != *want {
                        cx.violation(Violation {
                            input: cat[*i].clone(),
                            flags: way,
                            want: want.show(),
                            got: got.show(),
                            note: "after something big".into(),
                            expect: match &want {
                                Got::Text(t) => format!("text:{t}"),
                                _ => "refuse".into(),
                            },
                            before: (0..times).map(|_| (s.clone(), f | way)).collect(),
                            stack: cx.stack,
                        });
                    }
                }
            }
        }
    });
    // the same again and again, and then something else: whatever builds up by the call shows
    let bads: Vec<usize> = (0..cat.len()).filter(|i| table[*i][0] == Got::Refused).collect();
    let mut pick: Vec<usize> = (0..cat.len()).step_by((cat.len() / r.q(60, 150)).max(1)).collect();
    pick.extend(&bads);
    pick.sort();
    pick.dedup();
    // long ones, whose references lead to the ends of what's remembered
    pick.extend((small..cat.len()).rev().take(10));
    pick.sort();
    pick.dedup();
    let pick = &pick;
    r.items("streaks", "every two out of a part of the names, all that are refused among them: the one 3 to 257 times in a row, then the other, in either way to call and under 4 sets of flags", pick, |cx, i| {
        for (k, n) in [3usize, 5, 9, 17, 33, 65, 129, 257].iter().enumerate() {
            for f in 0..FEW {
                let way = (k + f) % 2 == 0;
                for j in pick {
                    let h: Vec<Call> = vec![(*i, f, way); *n];
                    for m in 0..*n {
                        // all of them have to be right, too
                        if m < 2 || m + 1 == *n {
                            one(cx, h[m], &h[..m]);
                        } else {
                            cx.call(&cat[*i], bits(&h[m]));
                        }
                    }
                    for e in [f, (f + 1) % FEW] {
                        one(cx, (*j, e, way), &h);
                        one(cx, (*j, e, !way), &h);
                    }
                    cx.st.transitions += *n as u64 + 4;
                    cx.st.distinct += 1;
                }
            }
        }
    });
    let some: Vec<usize> = pick.iter().copied().step_by(3).chain(bads.iter().copied()).collect();
    let some = &some;
    r.items("taking turns", "two names taking turns 16 times, then a third; every three out of fewer of them", some, |cx, i| {
        for j in some {
            for k in some {
                let mut h: Vec<Call> = vec![];
                for n in 0..32 {
                    h.push((if n % 2 == 0 { *i } else { *j }, 0, n % 3 == 0));
                }
                for c in &h {
                    cx.call(&cat[c.0], bits(c));
                }
                one(cx, (*k, 0, false), &h);
                one(cx, (*k, 1, true), &h);
                cx.st.transitions += 34;
                cx.st.distinct += 1;
            }
        }
    });
    let lens: Vec<(usize, usize)> = (0..big.len()).flat_map(|k| [3usize, 4, 9, 17, 33].map(|n| (k, n))).collect();
    r.items("many big ones", "each of the 12 that strain the limits 3 to 33 times in a row, then a part of the names", &lens, |cx, (k, n)| {
        let (s, f) = &big[*k];
        for way in [0, BY_VALUE] {
            for _ in 0..*n {
                cx.call(s, f | way);
            }
            for i in pick.iter() {
                cx.st.transitions += 1;
                cx.st.distinct += 1;
                cx.st.traces += 1;
                let got = cx.call(&cat[*i], way);
                let want = &table[*i][0];
                if got != *want {
                    cx.violation(Violation {
                        input: cat[*i].clone(),
                        flags: way,
                        want: want.show(),
                        got: got.show(),
                        note: format!("after something big, {n} times"),
                        expect: match &want {
                            Got::Text(t) => format!("text:{t}"),
                            _ => "refuse".into(),
                        },
                        before: (0..*n).map(|_| (s.clone(), f | way)).collect(),
                        stack: cx.stack,
                    });
                }
            }
        }
    });
    // one name under changing flags
    r.items("every three sets of flags", "every name under every three of 13 sets of flags in a row", &idx, |cx, i| {
        for a in 0..sets.len() {
            for b in 0..sets.len() {
                for c in 0..sets.len() {
                    let way = (a + b + c) % 2 == 0;
                    cx.st.transitions += 3;
                    cx.st.distinct += 1;
                    let h = [(*i, a, way), (*i, b, way), (*i, c, way)];
                    for n in 0..3 {
                        one(cx, h[n], &h[..n]);
                    }
                }
            }
        }
    });
    crate::sched::c15(r);
    // new threads
    r.items("the first calls of a thread", "every catalogued name as the first, and then the second, call of a new thread", &idx, |cx, i| {
        for f in 0..FEW {
            cx.st.transitions += 2;
            cx.st.distinct += 1;
            let (g, slot) = (cx.g, cx.slot);
            let st = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, || {
                        let mut cx = Cx::new(g, slot);
                        one(&mut cx, (*i, f, false), &[]);
                        one(&mut cx, (*i, f, true), &[(*i, f, false)]);
                        cx.st
                    })
                    .unwrap()
                    .join()
                    .unwrap()
            });
            cx.st.merge(st);
        }
    });
    // one call over and over
    r.items("the same call again and again", "every catalogued name 300 times over", &idx, |cx, i| {
        for _ in 0..300 {
            cx.st.transitions += 1;
            one(cx, (*i, 0, true), &[(*i, 0, true)]);
        }
        cx.st.distinct += 1;
    });
}

// ---------- C16 ----------

/// Names that are made of, begin with, or end in any character, wherever names can be.
const PLACES: &[&str] = &[
    "?f@@YAXVt%@@ZZ", "?f@@YAXPAVt%@@ZZ", "?f@@YAXV%@@ZZ", "?f@@YAXHVt%@@ZZ", "?f@@YAXV?$t@V%@@@@ZZ",
    "?f@@YA?AVt%@@Vt%@@@Z", "?f@@YAXVt%@@0ZZ", "?f@@YAXP6AXVt%@@ZZV1@ZZ",
    "?x@@3P6AVt%@@XZA", "?x@@3P8t%@@AEVt%@@XZA", "?x@@3PQt%@@Vt%@@A", "?x@@3PAY02Vt%@@A", "?x@@3PAY02$$CBVt%@@A",
    "?x@@3W4t%@@B", "?x@@3Tt%@@C", "?x@@3ABUt%@@B", "?x@@3$$QAUt%@@A", "?x@@3PIFAUt%@@IFA", "?x@@3QBUt%@@B",
    "??Bt%@@QAE?AVt%@@XZ", "??0t%@@QAE@XZ", "??1t%@@UAE@XZ", "??_7t%@@6Bt%@@@", "??_7t%@@6B@", "??_Rt%@@8", "??_R4t%@@6Bt%@@@",
    "??_R1A@?0A@EA@t%@@8", "??_R0?AVt%@@@8", "??_9t%@@$B3AE", "??_B?1??t%@@YAXXZ@51", "??__Et%@@YAXXZ", "??__E?t%@s%@@2HA@@YAXXZ",
    "?x@?1??t%@@YAXXZ@4Vt%@@A", "?x@?1??f@@YAXVt%@@@Z@4HA", "??$f@$1?t%@@3HA@@YAXXZ", "??$f@$H?t%@@YAXXZ2@@YAXXZ", "??$f@$E?t%@@3HA@@YAXXZ",
    "??$f@Vt%@@H@@YAXXZ", "??$f@$$A6AXVt%@@@Z@@YAXXZ", "??$f@$$BY01Vt%@@@@YAXXZ", "??$f@$$CBVt%@@@@YAXXZ", "??$f@$$Yt%@@@@YAXXZ", "??$f@?t%@@@@YAXXZ",
    "?x@@3V?$t%@Vt%@@@@A", "?x@@3V?$t%@H@@A", "?x@?At%@@3HA", "?x@?At%@1@3HA", "?f@t%@@WBA@AEXVt%@@ZZ", "?f@t%@@$4PPPPPPPM@A@AEXXZ", "?t%@@$$J0YAXXZ", "?t%@@9",
    "??$?Bt%@@Vt%@@@s@@QAE?AVt%@@XZ", "??$?HVt%@@@@YAXXZ", "??__Kt%@@YAXXZ", "??$?__K%@Vt%@@@@YAXXZ", "?t%@s%@u%@@QAEXXZ", "?f@1%@@YAXXZ", "?f@%1@@YAXXZ", "?%f@@YAXXZ",
    ".?AW4t%@@", ".?AUt%@s%@@", ".PAVt%@@", ".P6AXVt%@@ZZ", ".?BVt%@@",
];

pub fn c16(r: &mut Run) {
    let all: Vec<char> = (0..=0x10FFFF).filter_map(char::from_u32).filter(|c| *c != '@').collect();
    let chunks: Vec<&[char]> = all.chunks(1024).collect();
    let wide: u32 = r.q(0x3100, 0x11_0000) as u32;
    r.items("every character", "every Unicode character but '@', in eight places (in blocks of 1024)", &chunks, |cx, block| {
        for c in *block {
            let w = |s: &str| if c.is_alphanumeric() || "_$>".contains(*c) || !c.is_ascii() { format!("{s} ") } else { s.to_string() };
            let digit = c.is_ascii_digit();
            let special = digit || *c == '?';
            let mut cases: Vec<(String, String)> = vec![
                (format!("?x{c}@@3HA"), format!("int x{c}")),
                (format!("?x@y{c}@@3HA"), format!("int y{c}::x")),
                (format!("?x@@3Vt{c}@@A"), format!("{}x", w(&format!("class t{c}")))),
                (format!("?x@@3PAVt{c}@@A"), format!("{}*x", w(&format!("class t{c}")))),
                (format!("?f{c}@@YAXVt{c}@@0@Z"), format!("void __cdecl f{c}(class t{c}, class t{c})")),
                (format!(".?AVt{c}@@"), format!("{}`RTTI Type Descriptor Name'", w(&format!("class t{c}")))),
                (format!("??$f{c}@Vt{c}@@V1@@@YAXXZ"), format!("void __cdecl f{c}<class t{c}, class t{c}>(void)")),
                (format!("??__K_{c}@@YAXXZ"), format!("void __cdecl operator \"\"_{c}(void)")),
                (format!("?a@?A0x{c}@@3HA"), "int `anonymous namespace'::a".to_string()),
            ];
            if !special {
                cases.push((format!("?{c}@@3HA"), format!("int {c}")));
                cases.push((format!("?x@{c}x@@3HA"), format!("int {c}x::x")));
                // not in the memory of names, whatever it looks like
                cases.push((format!("?x@@3PAV{c}@{c}y@0@A"), format!("{}*x", w(&format!("class x::{c}y::{c}")))));
            }
            for (s, want) in &cases {
                cx.st.transitions += 1;
                cx.sample(|| format!("{s} => {want}"));
                cx.expect_text(s, 0, want, "an identifier with any character");
                cx.expect_text(s, BY_VALUE, want, "an identifier with any character");
            }
            cx.seen(&cases[0].0);
            if (*c as u32) < wide {
                // in every kind of place, by the model
                for s in PLACES {
                    cx.st.transitions += 1;
                    let s = s.replace('%', c.encode_utf8(&mut [0; 4]));
                    cx.judge(&s, &[0, 0x3FF, BY_VALUE], "an identifier with any character");
                }
            }
            if (*c as u32) < 0x3000 {
                for f in [0x200u16, 0x3FF, 0x100] {
                    for s in ["?x@@3Vt%@@A", "?f@@YAPAVt%@@XZ", ".PAUt%@@", "?x@@3PAY01$$CBVt%@@A", "?x@@3PIAVt%@@A"] {
                        let s = s.replace('%', &c.to_string());
                        cx.judge(&s, &[f], "an identifier with any character");
                    }
                }
            }
        }
    });
    // what joins, combines, turns, separates, or stands for something else
    const ODD: &[char] = &[
        '\0', '\t', '\n', '\r', ' ', '\u{7f}', '\u{85}', '\u{a0}', '\u{ad}', 'ß', '\u{130}', '\u{131}', '\u{149}', '\u{301}', '\u{323}', '\u{34f}', '\u{3c2}', '\u{663}', '\u{94d}', '\u{1161}', '\u{11a8}', '\u{180e}', '\u{200b}',
        '\u{200c}', '\u{200d}', '\u{200e}', '\u{202e}', '\u{2028}', '\u{2060}', '\u{20e3}', '\u{212a}', '\u{3000}', '\u{3099}', '\u{d7ff}', '\u{e000}', '\u{fb01}', '\u{fe00}', '\u{fe0f}', '\u{feff}', '\u{ff10}', '\u{ff1f}', '\u{ff20}',
        '\u{ff21}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{1f1e6}', '\u{1f3fb}', '\u{1f600}', '\u{e0041}', '\u{e0100}', '\u{10ffff}',
    ];
    // three in a row
    let mut threes: Vec<[char; 3]> = vec![];
    for a in ODD {
        for b in ODD {
            threes.extend(ODD.iter().map(|c| [*a, *b, *c]));
        }
    }
    // syllables, in parts
    let of = |a: u32, b: u32| (a..=b).filter_map(char::from_u32);
    for a in of(0x1100, 0x1113).chain(of(0x3131, 0x3132)) {
        for b in of(0x1160, 0x1176) {
            threes.extend(of(0x11A7, 0x11C3).map(|c| [a, b, c]));
        }
    }
    // letters with two marks, and what could be a sequence of regions, tones or emoji
    for a in of(0x20, 0x7E).chain(of(0xC0, 0xFF)).chain(of(0x391, 0x3C9)).chain(of(0x410, 0x44F)).filter(|x| *x != '@') {
        for b in of(0x300, 0x36F) {
            for c in ['\u{301}', '\u{323}', '\u{345}', '\u{338}', '\u{200d}'] {
                threes.push([a, b, c]);
                threes.push([a, c, b]);
            }
        }
    }
    for a in of(0x1F1E6, 0x1F1FF) {
        for b in of(0x1F1E6, 0x1F1FF) {
            threes.extend(of(0x1F1E6, 0x1F1FF).map(|c| [a, b, c]));
        }
    }
    let blocks: Vec<&[[char; 3]]> = threes.chunks(256).collect();
    r.items("three characters", "any three of 52 that combine, join, turn, separate, or resemble others; all syllables of Hangul in parts, letters with two marks, three regional indicators; alone, and at either end of a name", &blocks, |cx, block| {
        for t in *block {
            let t: String = t.iter().collect();
            let name = if t.starts_with(|x: char| x == '?' || x.is_ascii_digit()) { format!("x{t}") } else { t.clone() };
            for s in [format!("?{name}@@3HA"), format!("?x{t}@@3PAV0@A"), format!("?f@n{t}y@@YAXV{name}@@1@Z")] {
                cx.st.transitions += 1;
                cx.seen(&s);
                cx.judge(&s, &[0, BY_VALUE], "an identifier with three characters");
            }
        }
    });
    r.items("every character next to odd ones", "every Unicode character but '@' before and after each of 52 that combine, join, turn, separate, or resemble others, as part of a name, and of two that share it (in blocks of 1024)", &chunks, |cx, block| {
        for c in *block {
            for o in ODD {
                for (a, b) in [(c, o), (o, c)] {
                    let s = format!("?x{a}{b}@@3PAV0@A");
                    cx.st.transitions += 1;
                    cx.expect_text(&s, 0, &format!("class x{a}{b}{}*x{a}{b}", if b.is_ascii_alphanumeric() || "_$>".contains(*b) || !b.is_ascii() { " " } else { "" }), "a name with any two characters");
                }
            }
        }
        cx.seen(&format!("?x{}@@3PAV0@A", block[0]));
    });
    let firsts: Vec<char> = (0..0x1100u32).filter_map(|b| char::from_u32((b << 8) + 0x41)).collect();
    r.items("characters of any two blocks", "a character of every block of 256 next to one of every other", &firsts, |cx, a| {
        for b in &firsts {
            let s = format!("?{a}{b}@x{b}{a}@@3HA");
            cx.st.transitions += 1;
            if !a.is_ascii() {
                cx.expect_text(&s, 0, &format!("int x{b}{a}::{a}{b}"), "a name with any two characters");
            }
        }
        cx.seen(&format!("?{a}@@3HA"));
    });
    r.items("names that nearly are the same", "every Unicode character but '@' and what it becomes in the other case, in half width, and with any one bit flipped, in two names that are referred to by number (in blocks of 1024)", &chunks, |cx, block| {
        for c in *block {
            let mut others: Vec<String> = (0..21).filter_map(|k| char::from_u32(*c as u32 ^ 1 << k)).map(String::from).collect();
            others.extend([c.to_lowercase().to_string(), c.to_uppercase().to_string()]);
            others.extend(char::from_u32((*c as u32).wrapping_sub(0xFEE0)).map(String::from));
            others.push(format!("{c}\u{301}"));
            others.push(format!("{c}\u{fe0f}"));
            others.push(format!("{c}{c}"));
            others.push(String::new());
            for o in &others {
                if o.contains('@') || *o == c.to_string() {
                    continue;
                }
                let s = format!("?f@x{c}@x{o}@@QAEHV12@@Z");
                cx.st.transitions += 1;
                let arg = format!("x{o}::x{c}");
                cx.expect_text(&s, 0, &format!("public: int __thiscall x{o}::x{c}::f(class {arg})"), "two names that nearly are the same");
            }
        }
        cx.seen(&format!("?f@x{}@@QAEHV1@@Z", block[0]));
    });
    // characters of different widths next to everything else
    let names = ["é", "ß_", "名前", "😀", "a\u{301}", "\u{301}", "x\u{200d}y", "Ω9", "п", "\u{a0}", "٣"];
    let cat = catalog(r.q(3, 4));
    r.items("any symbol with such names", "every catalogued name, renamed in 11 ways", &cat, |cx, (text, _)| {
        for n in names {
            for (from, to) in [("a@", format!("{n}@")), ("foo@", format!("{n}@")), ("a@", format!("{n}{n}x@"))] {
                if !text.contains(from) {
                    continue;
                }
                let s = text.replace(from, &to);
                cx.st.transitions += 1;
                cx.seen(&s);
                cx.judge(&s, &[0, 0x3FF], "a symbol with a non-ASCII name");
            }
        }
    });
    // two at once
    let ascii: Vec<char> = (1..128u8).map(char::from).filter(|c| *c != '@').collect();
    let firsts: Vec<(char, usize)> = ascii.iter().flat_map(|c| (0..PLACES.len()).map(|k| (*c, k))).collect();
    let all = r.tier == Tier::Thorough;
    r.items("every two characters", "a name that is, begins, or ends with any two ASCII characters, in every place", &firsts, |cx, (a, k)| {
        for b in &ascii {
            for id in [format!("{a}{b}"), format!("x{a}{b}"), format!("{a}{b}y"), format!("{a}x{b}")] {
                let s = PLACES[*k].replace('%', &id);
                cx.st.transitions += 1;
                cx.judge(&s, if all { &[0, 0x200, 0x3FF] } else { DEF }, "a name with any two characters");
            }
        }
        cx.seen(&PLACES[*k].replace('%', &a.to_string()));
    });
    const WORDS: &[&str] = &[
        "const", "volatile", "class", "struct", "union", "enum", "int", "unsigned", "signed", "char", "void", "bool", "auto", "static", "virtual", "public:", "private:", "protected:", "public", "private", "protected",
        "extern", "extern \"C\"", "operator", "operator+", "operator()", "operator<", "operator\"\"", "template", "typename", "namespace", "anonymous namespace", "`anonymous namespace'", "`anonymous-namespace'", "noexcept", "nullptr",
        "std::nullptr_t", "nullptr_t", "decltype", "decltype(auto)", "this", "new", "delete", "long", "short", "float", "double", "__int64", "wchar_t", "char8_t", "char16_t", "char32_t", "__cdecl", "__stdcall", "__thiscall",
        "__fastcall", "__vectorcall", "__clrcall", "__pascal", "__eabi", "cdecl", "__restrict", "__unaligned", "__ptr64", "restrict", "unaligned", "ptr64", "__attribute__((__swiftcall__)) ", "`vftable'", "`vbtable'", "`vcall'", "vftable",
        "`RTTI Type Descriptor'", "`RTTI Type Descriptor Name'", "`adjustor{4}'", "`vtordisp{0, 0}'", "[thunk]:", "[thunk]: ", "::", "::x", "x::", "a::b", "<>", "<", ">", ">>", "< >", "<x>", "t<int>", "(void)", "()", "(", ")", "[]", "[3]", "{", "}", "{flat}",
        "...", ", ...", ",", ", ", "*", "&", "&&", "~", "~x", "`", "'", "`'", "``''", "\"", "\\", "\\0", "%s", "%n", "{}", "{0}", "$", "$$", "$S", "$$V", "$$Z", "$0", "?A", "??", "?$", "??_C", "?_7", "0", "00", "x0", "0x", "A0x", "_", "__", "___", "_E", "Z", "XZ", "YAXXZ", "3HA",
        "`dynamic initializer for ", "`local static guard'", "`1'", "`string'", "`typeof'", "x y", " ", "  ", " x", "x ", "\t", "\n", "\r\n", "\u{0}", "x\u{0}", "\u{7f}", "main", "String", "Some", "None", "null", "nil", "NaN", "true", "false", "if", "return", "error",
    ];
    let places: Vec<(&str, &str)> = PLACES.iter().flat_map(|p| WORDS.iter().map(move |w| (*p, *w))).collect();
    r.items("names that look like something else", "keywords, operators, punctuation, what the text is made of and what names are made of, alone and as part of a name, in every place, under every flag", &places, |cx, (p, w)| {
        let mut flags: Vec<u16> = vec![0, 0x3FF];
        flags.extend((0..10).map(|k| 1 << k));
        for id in [w.to_string(), format!("{w}x"), format!("x{w}"), format!("{w}_{w}")] {
            let s = p.replace('%', &id);
            cx.st.transitions += 1;
            cx.seen(&s);
            cx.judge(&s, &flags, "a name that looks like something else");
        }
    });
    let few = catalog(r.q(2, 3));
    r.items("any symbol with such names too", "every catalogued name, with such words for names", &few, |cx, (text, _)| {
        for n in WORDS {
            for from in ["a@", "foo@"] {
                if text.contains(from) {
                    let s = text.replace(from, &format!("{n}@"));
                    cx.st.transitions += 1;
                    cx.judge(&s, DEF, "a name that looks like something else");
                }
            }
        }
        cx.seen(text);
    });
    // long runs of wide characters, at every alignment
    let mut lens: Vec<usize> = (0..=r.q(4000, 8000)).collect();
    for k in 12..17 {
        lens.extend((1usize << k) - 4..=(1 << k) + 2);
    }
    lens.sort();
    lens.dedup();
    r.items("long names", "0 to 4000, and around powers of two to 2^16, characters of two to four bytes", &lens, |cx, n| {
        for c in ["é", "名", "😀"] {
            let id = format!("x{}", c.repeat(*n));
            for (s, want) in [
                (format!("?{id}@@3HA"), format!("int {id}")),
                (format!("?v@@3PAV{id}@@A"), format!("class {id} *v")),
                (format!("?f@{id}@@QAEXV1@@Z"), format!("public: void __thiscall {id}::f(class {id})")),
            ] {
                cx.st.transitions += 1;
                cx.seen(&s);
                cx.expect_text(&s, 0, &want, "a long non-ASCII name");
            }
        }
    });
}

// ---------- C17 ----------

pub fn c17(r: &mut Run) {
    let exe = match std::env::var("MC_CLI") {
        Ok(e) => e,
        Err(_) => engine_error("MC_CLI isn't set"),
    };
    const OPTS: [&str; 10] = [
        "--no-calling-convention",
        "--no-tag-specifier",
        "--no-access-specifier",
        "--no-member-type",
        "--no-return-type",
        "--no-variable-type",
        "--no-this-type",
        "--no-leading-underscores",
        "--no-ms-keywords",
        "--name-only",
    ];
    let exe = &exe;
    let run = |cx: &mut Cx, s: &str, f: u16, args: &[String]| {
        cx.st.calls += 1;
        cx.st.traces += 1;
        cx.st.transitions += 1;
        cx.st.inputs.insert(hash(&(s, args)));
        let out = std::process::Command::new(exe).args(args).stdin(std::process::Stdio::null()).output();
        let out = match out {
            Ok(o) => o,
            Err(e) => engine_error(&format!("{exe}: {e}")),
        };
        let o = crate::parse::parse(s);
        let error = format!("{s}\nerror: Invalid mangled name\n");
        let want = match o.sym {
            Some(x) => format!("{s}\n{}\n", print(&x, f)),
            None => error.clone(),
        };
        let got = String::from_utf8_lossy(&out.stdout).into_owned();
        // names that are very deep may be refused (C01, C14)
        let want = if s.len() > 500 && got == error { error } else { want };
        cx.st.outcomes.insert(hash(&got));
        cx.sample(|| format!("{args:?} => {got:?}"));
        if got != want || out.status.code() != Some(0) {
            cx.violation(Violation {
                input: s.into(),
                flags: f,
                want,
                got: format!("{got} (status {:?})", out.status.code()),
                note: format!("the command line {args:?}"),
                expect: "cli".into(),
                before: vec![(args.join("\n"), 0)],
                stack: cx.stack,
            });
        }
    };
    let syms = [
        "?f@C@@UEBAPEIFAVT@@PEAUS@@@Z",
        "?m@C@@2PEIFAVT@@EIFA",
        "?f@@YAX",
        "?g@C@@SGPAHXZ",
    ];
    let all: Vec<u16> = (0..1024).collect();
    r.items("every set of options", "all 1024 sets of options, on four names", &all, |cx, f| {
        for s in &syms {
            let mut args: Vec<String> = (0..10).filter(|k| f >> k & 1 == 1).map(|k| OPTS[k].to_string()).collect();
            // before, after, and around the name
            let at = *f as usize % (args.len() + 1);
            args.insert(at, s.to_string());
            run(cx, s, *f, &args);
        }
    });
    // every order of up to three (thorough: four) options, the name in every place among them
    let most = r.q(3, 4);
    let mut orders: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..most {
        let to = orders.len();
        for i in from..to {
            for k in 0..10 {
                if !orders[i].contains(&k) {
                    let mut o = orders[i].clone();
                    o.push(k);
                    orders.push(o);
                }
            }
        }
        from = to;
    }
    r.items("every order of options", if most == 3 { "every sequence of up to three different options, with the name in every place" } else { "every sequence of up to four different options, with the name in every place" }, &orders, |cx, o| {
        let f = o.iter().fold(0, |a, k| a | 1 << k);
        for at in 0..=o.len() {
            let mut args: Vec<String> = o.iter().map(|&k| OPTS[k].to_string()).collect();
            args.insert(at, syms[0].to_string());
            run(cx, syms[0], f, &args);
            // what follows "--" isn't an option
            if at == o.len() {
                args.insert(at, "--".into());
                run(cx, syms[0], f, &args);
                for s in ["--no-ms-keywords", "-", "--", "-h", "--help", "-?x@@3HA", "?-@@3HA"] {
                    let mut args = args.clone();
                    args[o.len() + 1] = s.into();
                    run(cx, s, f, &args);
                }
            }
        }
    });
    let mut cat: Vec<String> = catalog(r.q(1, 2)).into_iter().map(|x| x.0).collect();
    cat.extend(
        [
            "", "?", "abc", " ", "?f@@YAX", "?é@@3HA", "?x y@@3HA", " ?x@@3HA", "?x@@3HA ", "?x@@3HA\n", "\n?x@@3HA", "?a\nb@@3HA", "?x@@3HA\t", "?\"@@3HA", "?'@@3HA",
            "?$x@@3HA", "?%s@@3HA", "?{}@@3HA", "?\\@@3HA", "?*@@3HA", "?~@@3HA", "?\u{feff}@@3HA", "\u{feff}?x@@3HA", "?\u{1b}[0m@@3HA", ".H", ".?AVA@@", "..", "-", "?=@@3HA", "a=b", "@file",
        ]
        .map(String::from),
    );
    // as deep and as long as names may be, and more than that
    for n in [64, 500, 505, 509, 510, 511, 512, 600, 5000] {
        cat.push(format!("?x@@3{}HA", "PA".repeat(n)));
        cat.push(format!("?{}@@3HA", "x".repeat(n * 20)));
        cat.push(format!("?f@@YAX{}@Z", "H".repeat(n * 20)));
    }
    r.items("every catalogued name", "every catalogued name, some that are none, and deep and long ones, under no option, each, and all", &cat, |cx, s| {
        if s.starts_with('-') {
            return;
        }
        run(cx, s, 0, &[s.clone()]);
        for k in 0..10 {
            run(cx, s, 1 << k, &[s.clone(), OPTS[k].into()]);
        }
        let mut all: Vec<String> = OPTS.map(String::from).to_vec();
        all.insert(0, s.clone());
        run(cx, s, 0x3FF, &all);
    });
}

// ---------- C18 ----------

pub fn c18(r: &mut Run) {
    let cat = catalog(r.q(2, 3));
    let n = cat.len();
    let all: Vec<usize> = (0..n).collect();
    let cat = &cat;
    r.items("whatever follows", "every catalogued name with every one and two characters after it", &all, |cx, i| {
        let (text, _) = &cat[*i];
        let mut s = text.clone();
        cx.sample(|| text.clone());
        for a in SIGMA {
            s.push(a);
            cx.st.transitions += 1;
            cx.seen(&s);
            cx.judge(&s, &[0, 0x200], "a name followed by something");
            for b in SIGMA {
                let m = s.len();
                s.push(b);
                cx.st.transitions += 1;
                cx.judge(&s, DEF, "a name followed by something");
                s.truncate(m);
            }
            s.truncate(text.len());
        }
    });
    let chars = every_char();
    let chars = &chars[..];
    r.items("any character at all", "every catalogued name with any ASCII character and some others after it, and with one of those before it", &all, |cx, i| {
        let text = &cat[*i].0;
        for c in chars {
            cx.st.transitions += 3;
            let s = format!("{text}{c}");
            cx.seen(&s);
            cx.judge(&s, &[0, 0x200], "a name followed by something");
            let s = format!("{c}{text}");
            cx.judge(&s, DEF, "a name after something");
            let s = format!("{text}{c}{c}");
            cx.judge(&s, DEF, "a name followed by something twice");
        }
    });
    let fewer = catalog(2);
    let all: Vec<usize> = (0..fewer.len()).collect();
    r.items("two names in a row", "every catalogued name followed by every other", &all, |cx, i| {
        for (b, _) in &fewer {
            let s = format!("{}{b}", fewer[*i].0);
            cx.st.transitions += 1;
            cx.seen(&s);
            cx.judge(&s, DEF, "a name followed by another");
        }
    });
    let real = corpus();
    r.items("real names", "every real name followed by any character", &real, |cx, text| {
        for a in chars {
            let s = format!("{text}{a}");
            cx.st.transitions += 1;
            cx.seen(&s);
            cx.judge(&s, DEF, "a name followed by something");
        }
        // and nothing of it is to be missed
        for (k, _) in text.char_indices() {
            cx.st.transitions += 1;
            cx.judge(&text[..k], DEF, "the beginning of a name");
        }
    });
    let _ = (GEN, mangle, Back::Always, std::any::type_name::<Ident>());
}
