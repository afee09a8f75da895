//! Spaces that are wide rather than deep: lists of every length with everything else they can be
//! combined with, and names that are nearly the same.

use crate::ast::*;
use crate::checks::*;
use crate::engine::*;
use crate::mangle::Back;
use std::rc::Rc;

const DEF: &[u16] = &[0];

fn void() -> Rc<Ty> {
    Ty::Prim(2, 0).into()
}

fn int() -> Rc<Ty> {
    Ty::Prim(0, 0).into()
}

fn ptr(to: Rc<Ty>) -> Ty {
    Ty::Ptr { aff: Aff::Ptr, q: 0, class: None, to }
}

fn templ(name: &str, args: Vec<TArg>) -> Ident {
    Ident { kind: IdKind::Name(name.into()), targs: Some(args) }
}

// ---------- C02 ----------

/// Arrays of every rank, with all that can be in them and around them.
pub fn arrays(r: &mut Run) {
    let ranks = r.q(12, 20);
    r.full("arrays of every rank", |cx, ch| {
        let n = 1 + ch.free(ranks);
        let make = ch.free(4);
        let dims: Vec<u64> = (0..n)
            .map(|i| match make {
                0 => 3,
                1 => i as u64,
                2 => 1 + (i as u64 * 7) % 23,
                _ => 10 + i as u64,
            })
            .collect();
        let q = ch.free(4) as Q;
        let elem = match ch.free(8) {
            0 => Ty::Prim(0, 0),
            1 => Ty::Prim(3, 0),
            2 => class("c"),
            3 => ptr(int()),
            4 => ptr(Ty::Prim(0, CONST).into()),
            5 => Ty::Ptr { aff: Aff::Ptr, q: 0, class: Some(vec![Ident::name("S")]), to: int() },
            6 => {
                let mut sig = bare_sig();
                sig.cc = Some(0);
                sig.ret = Some(void());
                ptr(Ty::Func(sig.into()).into())
            }
            _ => Ty::Tag(Tag::Struct, vec![templ("t", vec![TArg::Int(5, true)])], 0),
        };
        let arr = Ty::Arr { dims, q, elem: elem.into() };
        let of = |aff, q, to: Ty| Ty::Ptr { aff, q, class: None, to: to.into() };
        let sym = match ch.free(9) {
            0 => v("x", arr),
            1 => v("x", of(Aff::Ptr, 0, arr)),
            2 => v("x", of(Aff::Ref, 0, arr)),
            3 => v("x", of(Aff::RRef, PTR64, arr)),
            4 => v("x", of(Aff::Ptr, CONST, of(Aff::Ptr, 0, arr))),
            5 => f(vec![Ident::name("f")], vec![of(Aff::Ptr, 0, arr.clone()).into(), of(Aff::Ref, 0, arr).into()]),
            6 => v("x", Ty::Tag(Tag::Class, vec![templ("t", vec![TArg::ArrTy(arr.into())])], 0)),
            7 => {
                let mut s = f(vec![Ident::name("f")], vec![]);
                if let Sym::Func { sig, .. } = &mut s {
                    sig.ret = Some(of(Aff::Ptr, 0, arr).into());
                }
                s
            }
            _ => v("x", Ty::Ptr { aff: Aff::Ptr, q: 0, class: Some(vec![Ident::name("S")]), to: of(Aff::Ptr, 0, arr).into() }),
        };
        cx.trace(&sym, ch, Back::Always, false, DEF, "an array");
    });
    // as it's spelled, wherever it's put
    let ranks = r.q(12, 17);
    r.full("arrays of every rank, as they're spelled", |cx, ch| {
        let n = ch.free(ranks + 1);
        let (head, tail) = [
            ("?x@@3", "A"),
            ("?x@@3", "B"),
            ("?x@@3PA", "A"),
            ("?x@@3QB", "C"),
            ("?x@@3AB", "B"),
            ("?x@@3$$QA", "A"),
            ("?x@@3PQS@@", "1"),
            ("?f@@YAX", "@Z"),
            ("?f@@YAXPA", "0@Z"),
            ("?f@@YA?A", "XZ"),
            ("?f@@YAPA", "XZ"),
            ("??$f@", "@@YAXXZ"),
            ("??$f@$$B", "@@YAXXZ"),
            ("??$f@$$CB", "@@YAXXZ"),
            (".", ""),
            (".PB", ""),
            ("??_R0", "@8"),
        ][ch.free(17)];
        let dim = ["0", "1", "9", "BA@", "@", "A@"][ch.free(6)];
        let q = ["", "$$CA", "$$CB", "$$CC", "$$CD", "$$CQ", "$$CP", "$$CE", "$$C"][ch.free(9)];
        let t = ["H", "_N", "Vc@@", "PAH", "QBH", "P6AXXZ", "$$A6AXXZ", "Y01H", "AAH", "?AVc@@", "X"][ch.free(11)];
        let s = format!("{head}Y{}{}{q}{t}{tail}", crate::mangle::number(n as u64, false), dim.repeat(n));
        cx.seen(&s);
        cx.st.transitions += 1;
        cx.judge(&s, DEF, "an array");
    });
}

// ---------- C03 ----------

/// Every number of parameters with everything else a signature has.
pub fn signatures(r: &mut Run, classes: &[(Class, Option<Thunk>)]) {
    let n = r.q(12, 24);
    r.full("every number of parameters, with all else a signature has", |cx, ch| {
        let (class_, thunk) = classes[ch.free(classes.len())].clone();
        let member = class_.access != Access::None && !class_.is_static;
        let mut sig = bare_sig();
        sig.class = class_;
        sig.cc = Some([0, 1, 3][ch.free(3)]);
        if member {
            sig.q = [0, CONST, VOLATILE | PTR64][ch.free(3)];
            sig.refq = ch.free(3) as u8;
        }
        sig.ret = [None, Some(void()), Some(Rc::new(ptr(int())))][ch.free(3)].clone();
        let k = ch.free(n + 1);
        let make = ch.free(6);
        let t = |i: usize| -> Rc<Ty> {
            match make {
                0 => int(),
                1 => ptr(int()).into(),
                2 => class(&format!("c{i}")).into(),
                3 => Ty::Ptr { aff: if i % 2 == 0 { Aff::Ref } else { Aff::RRef }, q: 0, class: None, to: class("r").into() }.into(),
                4 => {
                    let mut s = bare_sig();
                    s.cc = Some(i % 4);
                    s.ret = Some(void());
                    s.params = Some(vec![int(); i % 3 + 1]);
                    s.variadic = i % 2 == 1;
                    Rc::new(ptr(Ty::Func(s.into()).into()))
                }
                _ => Ty::Tag(Tag::Struct, vec![templ("t", vec![TArg::Int(i as u64, false)])], 0).into(),
            }
        };
        let ps: Vec<_> = (0..k).map(t).collect();
        sig.variadic = ch.free(2) == 1;
        sig.params = if k == 0 && !sig.variadic { None } else { Some(ps) };
        sig.noexcept = ch.free(2) == 1;
        let sym = match ch.free(3) {
            0 => Sym::Func { name: Some(vec![Ident::name("C"), Ident::name("f")]), sig, thunk },
            1 if thunk.is_none() && !member && sig.class == FREE => v("x", ptr(Ty::Func(sig.into()).into())),
            _ => return,
        };
        cx.trace(&sym, ch, Back::Always, false, DEF, "a function");
    });
}

// ---------- C04, C06 ----------

/// Every number of scopes around every kind of name.
pub fn scopes(r: &mut Run) {
    let n = r.q(12, 24);
    r.full("every number of scopes around every kind of name", |cx, ch| {
        let k = ch.free(n + 1);
        let make = ch.free(8);
        let odd = ch.free(3); // which place is unlike the others: none, the innermost, the outermost
        let id = |i: usize, make: usize| match make {
            0 => Ident::name("n"),
            1 => Ident::name(&format!("n{i}")),
            2 => Ident::new(IdKind::Anon(format!("0x{i:08x}").as_str().into())),
            3 => templ("t", vec![TArg::Ty(int())]),
            4 => templ(&format!("t{i}"), vec![TArg::Ty(class("n").into()), TArg::Int(i as u64, i % 2 == 1)]),
            5 => Ident::new(IdKind::Local(i as u64, f(vec![Ident::name("g")], vec![]).into())),
            6 => templ("e", vec![]),
            _ => Ident::name(["x", "y"][i % 2]),
        };
        let mut name: QName = (0..k)
            .map(|i| match odd {
                1 if i + 1 == k => id(i, (make + 3) % 8),
                2 if i == 0 => id(i, (make + 3) % 8),
                _ => id(i, make),
            })
            .collect();
        let sym = match ch.free(13) {
            0 => {
                name.push(Ident::name("n"));
                f(name, vec![])
            }
            1 => {
                name.push(templ("t", vec![TArg::Ty(int())]));
                f(name, vec![])
            }
            2 => {
                name.push(Ident::new(IdKind::Op(14)));
                f(name, vec![class("n").into()])
            }
            3 => {
                name.push(Ident::new(IdKind::LitOp("_k".into())));
                f(name, vec![])
            }
            d @ 4..=5 => {
                let Some(last) = name.last() else { return };
                if matches!(last.kind, IdKind::Anon(_) | IdKind::Local(..)) {
                    return;
                }
                let class = Some(Rc::new(last.clone()));
                name.push(Ident::new(IdKind::Structor { dtor: d == 5, class }));
                f(name, vec![])
            }
            6 => {
                let to: Rc<Ty> = class("n").into();
                name.push(Ident::new(IdKind::Conv(Some(to.clone()))));
                let mut s = f(name, vec![]);
                if let Sym::Func { sig, .. } = &mut s {
                    sig.ret = Some(to);
                }
                s
            }
            7 => {
                name.push(Ident::name("x"));
                Sym::Var { sc: 2, name, ty: Some(int()) }
            }
            8 => {
                name.push(Ident::name("T"));
                Sym::TypeName(Ty::Tag(Tag::Enum, name, 0).into())
            }
            9 => {
                name.push(Ident::name("T"));
                v("x", Ty::Tag(Tag::Union, name, CONST))
            }
            10 => {
                name.push(Ident::name("T"));
                v("x", Ty::Ptr { aff: Aff::Ptr, q: 0, class: Some(name), to: int() })
            }
            11 => {
                name.push(Ident::name("g"));
                let inner = Rc::new(f(name, vec![]));
                f(vec![templ("h", vec![TArg::PtrTo { sym: Some(inner), offs: vec![], auto: None }])], vec![])
            }
            _ => {
                name.push(Ident::name("g"));
                let inner = Rc::new(f(name, vec![]));
                v2(vec![Ident::new(IdKind::Local(3, inner)), Ident::name("x")])
            }
        };
        let back = [Back::Always, Back::Never][ch.free(2)];
        cx.trace(&sym, ch, back, false, DEF, "a qualified name");
    });
}

fn v2(name: QName) -> Sym {
    Sym::Var { sc: 3, name, ty: Some(int()) }
}

// ---------- C05 ----------

/// Pairs of names that are nearly the same.
pub fn near_pairs(thorough: bool) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    let mut add = |a: &str, b: &str| {
        v.push((a.into(), b.into()));
        v.push((b.into(), a.into()));
    };
    for (a, b) in [
        ("foo", "Foo"), ("foo", "FOO"), ("foo", "foO"), ("x", "X"), ("ab", "aB"), ("é", "É"), ("é", "e"), ("é", "e\u{301}"),
        ("ß", "ss"), ("a", "а"), ("a", "\u{161}"), ("\u{161}", "\u{261}"), ("İ", "i"), ("K", "k"), ("ſ", "s"), ("ﬁ", "fi"),
        ("😀", "😁"), ("😀", "\u{f600}"), ("Ａ", "A"), ("a", "a_"), ("a", "_a"), ("_a", "__a"), ("a", "aa"), ("aa", "aaa"),
        ("ab", "ba"), ("abc", "cba"), ("abc", "acb"), ("ab", "abab"), ("a0", "a00"), ("a1", "a01"), ("a1", "a2"), ("a1", "a11"),
        ("a", "a\u{200b}"), ("a", "a\u{0}"), ("a", "a "), ("a ", "a  "), (" a", "a"), ("a", "a\t"), ("a b", "ab"), ("a", "a\u{feff}"),
        ("a", "\u{feff}a"), ("n::a", "a"), ("a<b>", "a"), ("a<b>", "a<b >"), ("t<int>", "t"), ("class a", "a"), ("operator+", "operator-"),
        ("a", "b"), ("a,b", "a"), ("~a", "a"), ("`a'", "a"), ("a.b", "a"), ("a-b", "a_b"), ("a\u{301}", "a\u{300}"), ("a\r", "a\n"),
    ] {
        add(a, b);
    }
    let alphabet: Vec<char> = "abcdefghijklmnopqrstuvwxyz0123456789".chars().collect();
    let long = |n: usize| -> Vec<char> { (0..n).map(|i| alphabet[(i * 5 + i / 36) % 26]).collect() };
    let put = |s: &[char]| s.iter().collect::<String>();
    let mut lens: Vec<usize> = (2..=40).collect();
    lens.extend([47, 48, 49, 63, 64, 65, 66, 100, 127, 128, 129, 130]);
    if thorough {
        lens.extend([180, 254, 255, 256, 257, 258, 300, 511, 512, 513]);
    }
    for n in lens {
        let a = long(n);
        for p in 0..n {
            let mut b = a.clone();
            b[p] = a[p].to_ascii_uppercase();
            add(&put(&a), &put(&b));
            b[p] = 'z';
            if a[p] != 'z' && (n > 60 && p % 7 == 0 || n <= 60) {
                add(&put(&a), &put(&b));
            }
        }
        add(&put(&a), &put(&a[1..]));
        add(&put(&a), &put(&a[..n - 1]));
        let mut b = a.clone();
        b.reverse();
        add(&put(&a), &put(&b));
        let mut b = a.clone();
        b.swap(0, n - 1);
        add(&put(&a), &put(&b));
        b = a.clone();
        b.rotate_left(1);
        add(&put(&a), &put(&b));
    }
    for n in [254, 255, 256, 257, 258, 300, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65_535, 65_536, 65_537] {
        let a = long(n);
        let spots: Vec<usize> = [0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, n / 2, n - 33, n - 17, n - 9, n - 2, n - 1]
            .into_iter()
            .filter(|p| *p < n)
            .collect();
        for p in if n > 5000 { vec![0, 255, 256, n / 2, n - 1] } else { spots } {
            let mut b = a.clone();
            b[p] = 'Z';
            add(&put(&a), &put(&b));
        }
        add(&put(&a), &put(&a[..n - 1]));
        add(&put(&a), &put(&a[1..]));
    }
    v
}

/// Types any two of which differ.
fn some_types() -> Vec<Ty> {
    let mut v = vec![];
    let of = |aff, q, to: Ty| Ty::Ptr { aff, q, class: None, to: to.into() };
    for q in [0, CONST, VOLATILE, CONST | VOLATILE] {
        for base in [Ty::Prim(0, q), Ty::Prim(1, q), Ty::Tag(Tag::Class, vec![Ident::name("a")], q)] {
            v.push(of(Aff::Ptr, 0, base.clone()));
            v.push(of(Aff::Ref, 0, base));
        }
    }
    for q in [CONST, VOLATILE, CONST | VOLATILE, PTR64, RESTRICT, UNALIGNED, PTR64 | RESTRICT, PTR64 | CONST] {
        v.push(of(Aff::Ptr, q, Ty::Prim(0, 0)));
    }
    v.push(of(Aff::RRef, 0, Ty::Prim(0, 0)));
    v.push(of(Aff::Ref, PTR64, Ty::Prim(0, 0)));
    v.push(of(Aff::Ptr, 0, of(Aff::Ptr, 0, Ty::Prim(0, 0))));
    v.push(of(Aff::Ptr, 0, of(Aff::Ptr, CONST, Ty::Prim(0, 0))));
    v.push(of(Aff::Ptr, 0, Ty::Prim(2, 0)));
    for t in [Tag::Class, Tag::Struct, Tag::Union, Tag::Enum] {
        for n in [vec!["a"], vec!["A"], vec!["a", "a"], vec!["b", "a"]] {
            v.push(Ty::Tag(t, n.iter().map(|x| Ident::name(x)).collect(), 0));
        }
    }
    for cc in [0, 1, 2] {
        for ps in [None, Some(vec![int()]), Some(vec![int(), int()]), Some(vec![Ty::Prim(1, 0).into()])] {
            for more in [0u8, 1, 2] {
                let mut s = bare_sig();
                s.cc = Some(cc);
                s.ret = Some(void());
                s.params = ps.clone();
                s.variadic = more == 1 && ps.is_some();
                s.noexcept = more == 2;
                if cc == 0 || more == 0 {
                    v.push(of(Aff::Ptr, 0, Ty::Func(s.into())));
                }
            }
        }
    }
    for d in [vec![1], vec![2], vec![1, 1], vec![1, 2]] {
        v.push(of(Aff::Ptr, 0, Ty::Arr { dims: d, q: 0, elem: int() }));
    }
    v.push(of(Aff::Ptr, 0, Ty::Arr { dims: vec![1], q: CONST, elem: int() }));
    v.push(Ty::Ptr { aff: Aff::Ptr, q: 0, class: Some(vec![Ident::name("a")]), to: int() });
    v.push(Ty::Ptr { aff: Aff::Ptr, q: 0, class: Some(vec![Ident::name("b")]), to: int() });
    for args in [
        vec![],
        vec![TArg::Ty(int())],
        vec![TArg::Ty(int()), TArg::Ty(int())],
        vec![TArg::Ty(Ty::Prim(1, 0).into())],
        vec![TArg::Int(0, false)],
        vec![TArg::Int(1, false)],
        vec![TArg::Int(1, true)],
        vec![TArg::Int(257, false)],
        vec![TArg::Ty(class("a").into())],
        vec![TArg::Ty(class("A").into())],
        vec![TArg::Ty(Ty::Tag(Tag::Struct, vec![Ident::name("a")], 0).into())],
        vec![TArg::PtrTo { sym: Some(super_var("a").into()), offs: vec![], auto: None }],
        vec![TArg::RefTo(super_var("a").into())],
    ] {
        v.push(Ty::Tag(Tag::Class, vec![templ("t", args)], 0));
    }
    v.dedup();
    v
}

fn super_var(n: &str) -> Sym {
    v(n, Ty::Prim(0, 0))
}

pub fn near(r: &mut Run) {
    let mut pairs = near_pairs(r.tier == Tier::Thorough);
    pairs.sort();
    pairs.dedup();
    r.items("names that are nearly the same", "pairs of names that differ in one place, in case, in length, or in order, each remembered after 0 to 8 others and then referred to", &pairs, |cx, (a, b)| {
        let (ia, ib) = (Ident::name(a), Ident::name(b));
        let small = a.len() + b.len() < 300;
        for k in if small { vec![0usize, 1, 2, 5, 7, 8, 9] } else { vec![0, 7] } {
            let fill: QName = (0..k).map(|i| Ident::name(&format!("n{i}"))).collect();
            // scopes are read from the innermost outwards
            let mut name: QName = vec![ib.clone(), ia.clone()];
            name.extend(fill.iter().cloned());
            name.push(Ident::name("f"));
            let ps: Vec<Rc<Ty>> = [&ia, &ib, &ia]
                .iter()
                .enumerate()
                .map(|(i, n)| Ty::Tag([Tag::Class, Tag::Struct][i % 2], vec![(*n).clone()], 0).into())
                .collect();
            let mut ch = Ch::new(vec![]);
            for back in [Back::Always, Back::Never] {
                cx.trace(&f(name.clone(), ps.clone()), &mut ch, back, false, DEF, "two names that are nearly the same");
            }
            if k > 2 && !small {
                continue;
            }
            // as templates, as their arguments, and as variables
            let ta = |n: &Ident| Ident { kind: n.kind.clone(), targs: Some(vec![TArg::Ty(int())]) };
            let tag = |n: Ident| -> Rc<Ty> { Ty::Tag(Tag::Class, vec![n], 0).into() };
            let as_arg = |n: &Ident| templ("t", vec![TArg::Ty(tag(n.clone()))]);
            for (x, y) in [(ta(&ia), ta(&ib)), (as_arg(&ia), as_arg(&ib)), (ta(&ia), ib.clone()), (ia.clone(), ta(&ib))] {
                let mut name: QName = vec![];
                name.extend(fill.iter().cloned());
                name.push(Ident::name("f"));
                let ps = vec![tag(x.clone()), tag(y.clone()), Rc::new(ptr(tag(x.clone()))), Rc::new(ptr(tag(y.clone()))), tag(x), tag(y)];
                cx.trace(&f(name, ps), &mut ch, Back::Always, false, DEF, "two templates that are nearly the same");
            }
            let lit = |n: &str| Ident::new(IdKind::LitOp(n.into()));
            cx.trace(&f(vec![ib.clone(), ia.clone(), lit(a)], ps.clone()), &mut ch, Back::Always, false, DEF, "two names that are nearly the same");
            let anon = |n: &str| Ident::new(IdKind::Anon(format!("0x{n}").as_str().into()));
            cx.trace(&f(vec![ib.clone(), anon(b), anon(a), ia.clone(), Ident::name("f")], ps.clone()), &mut ch, Back::Always, false, DEF, "two names that are nearly the same");
        }
    });
    let all: Vec<usize> = (0..some_types().len()).collect();
    let d: Vec<(usize, usize)> = all.iter().flat_map(|i| all.iter().map(move |j| (*i, *j))).collect();
    r.items("any two types", "every two out of a hundred types that differ in one thing, as parameters, repeated and referred to", &d, |cx, (i, j)| {
        // they can't be shared between threads
        let types = some_types();
        let (a, b): (Rc<Ty>, Rc<Ty>) = (types[*i].clone().into(), types[*j].clone().into());
        for back in [Back::Always, Back::Never] {
            let mut ch = Ch::new(vec![]);
            cx.trace(&f(vec![Ident::name("f")], vec![a.clone(), b.clone(), b.clone(), a.clone()]), &mut ch, back, false, DEF, "two types");
            let name = vec![templ("f", vec![TArg::Ty(a.clone()), TArg::Ty(b.clone())])];
            cx.trace(&f(name, vec![a.clone(), b.clone(), a.clone()]), &mut ch, back, false, DEF, "two types");
            let fp = |x: &Rc<Ty>, y: &Rc<Ty>| {
                let mut s = bare_sig();
                s.cc = Some(0);
                s.ret = Some(x.clone());
                s.params = Some(vec![x.clone(), y.clone(), y.clone()]);
                Rc::new(ptr(Ty::Func(s.into()).into()))
            };
            cx.trace(&f(vec![Ident::name("f")], vec![fp(&a, &b), a.clone(), fp(&b, &a), b.clone(), a.clone()]), &mut ch, back, false, DEF, "two types");
        }
    });
}

// ---------- C08 ----------

/// One argument of each kind.
pub fn one_arg(k: usize, i: usize) -> TArg {
    let var = |n: &str| Rc::new(v(n, Ty::Prim(0, 0)));
    let fun = |n: &str| Rc::new(f(vec![Ident::name("a"), Ident::name(n)], vec![class("a").into()]));
    match k {
        0 => TArg::Ty(int()),
        1 => TArg::Ty(class(&format!("c{i}")).into()),
        2 => TArg::Ty(class("a").into()),
        3 => TArg::Int(i as u64, false),
        4 => TArg::Int(11, true),
        5 => TArg::PtrTo { sym: Some(var("a")), offs: vec![], auto: None },
        6 => TArg::PtrTo { sym: Some(fun("b")), offs: vec![], auto: None },
        7 => TArg::RefTo(var("a")),
        8 => TArg::PtrTo { sym: Some(fun("c")), offs: vec![4], auto: None },
        9 => TArg::PtrTo { sym: Some(fun("c")), offs: vec![4, -8, 0], auto: None },
        10 => TArg::DataMember { offs: vec![4, -1], auto: None },
        11 => TArg::DataMember { offs: vec![4, -1, 8], auto: None },
        12 => TArg::Pack("$S"),
        13 => TArg::Pack("$$V"),
        14 => TArg::Pack("$$Z"),
        15 => TArg::Alias(vec![Ident::name("a"), Ident::name("b")]),
        16 => TArg::ArrTy(Ty::Arr { dims: vec![3], q: CONST, elem: int() }.into()),
        17 => TArg::CvTy(Ty::Prim(0, CONST).into()),
        18 => TArg::AutoInt(int(), 7, false),
        19 => TArg::Ty(Ty::Tag(Tag::Class, vec![templ("u", vec![TArg::Ty(int())])], 0).into()),
        20 => TArg::Ty(ptr(int()).into()),
        21 => TArg::PtrTo { sym: None, offs: vec![4, -8], auto: None },
        22 => TArg::Pack("$$$V"),
        _ => TArg::Ty(Ty::Prim(2, 0).into()),
    }
}
pub const ARGS: usize = 24;

pub fn arguments(r: &mut Run) {
    let n = r.q(12, 24);
    r.full("every number of template arguments of every two kinds", |cx, ch| {
        let k = 1 + ch.free(n);
        let at = ch.free(k);
        let (one, rest) = (ch.free(ARGS), ch.free(ARGS));
        let args: Vec<TArg> = (0..k).map(|i| one_arg(if i == at { one } else { rest }, i)).collect();
        let id = templ("t", args);
        let sym = match ch.free(2) {
            0 => f(vec![id], vec![class("a").into()]),
            _ => v("x", Ty::Tag(Tag::Class, vec![id], 0)),
        };
        cx.trace(&sym, ch, Back::Always, false, DEF, "template arguments");
    });
}

// ---------- C06 ----------

/// Structors of classes of any kind, in symbols that have named the class before, or haven't.
pub fn structors(r: &mut Run) {
    r.full("structors of any class, anywhere", |cx, ch| {
        let kind = |ch: &mut Ch| match ch.free(7) {
            0 => Ident::name("K"),
            1 => templ("K", vec![TArg::Ty(int())]),
            2 => templ("K", vec![TArg::Ty(class("K").into())]),
            3 => templ("K", vec![TArg::Ty(Ty::Tag(Tag::Class, vec![templ("K", vec![TArg::Ty(int())])], 0).into()), TArg::Int(1, true)]),
            4 => templ("K", vec![]),
            5 => templ("K", vec![TArg::RefTo(v("g", Ty::Prim(0, 0)).into())]),
            _ => Ident::name("L<int>"),
        };
        let k = kind(ch);
        let around: QName = match ch.free(4) {
            0 => vec![],
            1 => vec![Ident::name("n")],
            2 => vec![templ("K", vec![TArg::Ty(int())])],
            _ => vec![Ident::new(IdKind::Anon("0x1".into())), Ident::name("K")],
        };
        let targs = match ch.free(3) {
            0 => None,
            1 => Some(vec![TArg::Ty(int())]),
            _ => Some(vec![TArg::Ty(class("K").into())]),
        };
        let mut full = around;
        full.push(k.clone());
        let of = |dtor: bool, params: Vec<Rc<Ty>>| {
            let mut name = full.clone();
            name.push(Ident { kind: IdKind::Structor { dtor, class: Some(Rc::new(k.clone())) }, targs: targs.clone() });
            let mut s = f(name, params);
            if let Sym::Func { sig, .. } = &mut s {
                sig.ret = None;
                sig.class = Class { access: Access::Public, ..FREE };
            }
            s
        };
        let tag: Rc<Ty> = Ty::Tag(Tag::Class, full.clone(), 0).into();
        let other: Rc<Ty> = Ty::Tag(Tag::Class, vec![kind(ch)], 0).into();
        let to = |s: Sym| TArg::PtrTo { sym: Some(s.into()), offs: vec![], auto: None };
        let d = ch.free(2) == 1;
        let sym = match ch.free(9) {
            0 => of(d, vec![tag.clone(), other, tag]),
            1 => f(vec![templ("h", vec![TArg::Ty(tag.clone()), to(of(d, vec![tag])), TArg::Ty(other)])], vec![]),
            2 => f(vec![templ("h", vec![TArg::Ty(other.clone()), to(of(d, vec![other])), TArg::Ty(tag)])], vec![]),
            3 => f(vec![templ("h", vec![to(of(d, vec![])), to(of(!d, vec![])), TArg::RefTo(of(d, vec![]).into())])], vec![tag, other]),
            4 => v2(vec![Ident::new(IdKind::Local(3, of(d, vec![other]).into())), k.clone(), Ident::name("x")]),
            5 => v2(vec![k.clone(), Ident::new(IdKind::Local(3, of(d, vec![other.clone()]).into())), Ident::name("K"), Ident::name("x")]),
            6 => {
                let mut name = full.clone();
                name.push(Ident::name("f"));
                f(name, vec![other, Ty::Tag(Tag::Class, vec![templ("h", vec![to(of(d, vec![tag.clone()]))])], 0).into(), tag])
            }
            7 => {
                let mut name = vec![Ident::new(IdKind::Local(1, of(d, vec![]).into()))];
                name.push(k.clone());
                name.push(Ident::new(IdKind::Structor { dtor: !d, class: Some(Rc::new(k.clone())) }));
                f(name, vec![tag, other])
            }
            _ => v2(vec![Ident::new(IdKind::Local(3, of(d, vec![tag.clone()]).into())), templ("y", vec![TArg::Ty(tag), TArg::Ty(other)]), Ident::name("x")]),
        };
        let back = [Back::Always, Back::Never][ch.free(2)];
        cx.trace(&sym, ch, back, false, DEF, "a structor");
    });
}

/// Pointers, references and members as arguments of a deduced type, next to each other.
pub fn deduced(r: &mut Run) {
    let n = r.q(3, 4);
    r.full("sequences of arguments, of which some are of a deduced type", |cx, ch| {
        let k = 1 + ch.free(n);
        let args: Vec<TArg> = (0..k)
            .map(|i| {
                let var = |n: &str| Rc::new(v(n, Ty::Prim(0, 0)));
                let fun = |n: &str| Rc::new(f(vec![Ident::name("a"), Ident::name(n)], vec![class("a").into()]));
                let auto = |ch: &mut Ch| -> Option<Rc<Ty>> { (ch.free(2) == 1).then(|| ptr(int()).into()) };
                match ch.free(9) {
                    0 => TArg::PtrTo { sym: Some(var("x")), offs: vec![], auto: auto(ch) },
                    1 => TArg::PtrTo { sym: Some(fun("g")), offs: vec![], auto: auto(ch) },
                    2 => TArg::PtrTo { sym: Some(fun("g")), offs: vec![-4], auto: auto(ch) },
                    3 => TArg::PtrTo { sym: Some(fun("h")), offs: vec![1, 2, 3], auto: auto(ch) },
                    4 => TArg::DataMember { offs: vec![8, i as i64], auto: auto(ch) },
                    5 => TArg::DataMember { offs: vec![8, 0, -1], auto: auto(ch) },
                    6 => TArg::RefTo(var("x")),
                    7 => TArg::AutoInt(class("e").into(), i as u64, i % 2 == 1),
                    _ => TArg::Ty(class("x").into()),
                }
            })
            .collect();
        let sym = f(vec![templ("t", args)], vec![]);
        cx.trace(&sym, ch, Back::Always, false, DEF, "template arguments");
    });
}

/// Ten different names at a time, all that there are of up to three letters (thorough: four), in
/// several arrangements: so that any confusion of names by less than all of them shows.
pub fn many_names(r: &mut Run) {
    if r.broken() {
        return;
    }
    let mut names: Vec<String> = vec![];
    let most = r.q(3, 4);
    let mut from = vec![String::new()];
    for _ in 0..most {
        from = from.iter().flat_map(|s| ('a'..='z').map(move |c| format!("{s}{c}"))).collect();
        names.extend(from.iter().cloned());
    }
    // words that simple hashes are known to confuse
    let words = ["costarring", "liquid", "declinate", "macallums", "altarage", "zinke", "altarages", "zinkes", "hetairas", "mentioner", "heliotropes", "neurospora", "depravement", "serafins", "stylist", "subgenera",
        "joyful", "synaphea", "redescribed", "urites", "dram", "vivency", "plumless", "buckeroo", "codding", "gnu", "exhibiters", "schlager", "cataract", "periti", "roquette", "skivie", "shawl", "stormbound", "dowlases", "tramontane",
        "cricketings", "twanger", "longans", "whigs", "Aa", "BB", "AaAa", "BBBB", "AaBB", "BBAa", "0AaAa", "polygenelubricants"];
    let n = names.len();
    let mut strides = vec![1, 2, 3, 5, 7, 11, 26, 27, 52, 100, 256, 257, 676, 677, 1000, 1024, 4096, 4097];
    if r.tier == Tier::Thorough {
        strides.extend([8192, 10_000, 16_384, 17_576, 32_768, 65_536, 65_537, 100_003]);
    }
    let mut lists: Vec<(usize, usize)> = vec![];
    for s in &strides {
        lists.extend((0..n).step_by(if *s == 1 { 5 } else { 10 }).map(|i| (i, *s)));
    }
    let names = &names;
    let st = each(r.g, &lists, |cx, (i, s)| {
        if cx.stopped() {
            return;
        }
        let ten: Vec<&str> = (0..10).map(|k| names[(i + k * s) % n].as_str()).collect();
        let t = format!("?{}@@3V9876543210@A", ten.join("@"));
        cx.st.transitions += 1;
        cx.sample(|| t.clone());
        cx.seen(&t);
        let mut inner = ten.clone();
        inner.reverse();
        // what's read first is written last
        let want = format!("class {} {}", ten.join("::"), inner.join("::"));
        cx.expect_text(&t, 0, &want, "ten different names, and references to them");
    });
    r.add("ten different names at a time", format!("all {n} names of up to {most} letters, {} lists of ten, all of them referred to", lists.len()), st);
    let pairs: Vec<(&str, &str)> = words.iter().flat_map(|a| words.iter().map(move |b| (*a, *b))).filter(|(a, b)| a != b).collect();
    r.items("words that are easily confused", "every two of 48 words that simple hashes confuse", &pairs, |cx, (a, b)| {
        for s in [format!("?x@{a}@{b}@@3V1@A"), format!("?x@{a}@{b}@@3V2@A"), format!("?f@@YAXV{a}@@V{b}@@01V1@V2@@Z"), format!("?f@@YAXV?$t@V{a}@@@@V?$t@V{b}@@@@V1@V2@@Z")] {
            cx.st.transitions += 1;
            cx.seen(&s);
            cx.judge(&s, DEF, "names that are easily confused");
        }
    });
}

// ---------- counts: more of everything than anyone samples ----------

/// Every count up to 300, and those around the powers of two and of ten above.
fn counts(r: &Run) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=r.q(300, 1100)).collect();
    v.extend([500, 999, 1000, 1001, 5000, 10_000, 20_000, 65_534, 100_000]);
    for k in 9..18 {
        v.extend((1usize << k) - 1..=(1 << k) + 1);
    }
    v.sort();
    v.dedup();
    v
}

/// Lists of any length: what's before them, what's in them (`%` is a number that differs from one
/// to the next, `^` one out of ten), and what's after them.
pub fn lists(r: &mut Run, what: &str, makes: &[(&str, &str, &str)]) {
    let all: Vec<(usize, usize)> = counts(r).into_iter().rev().flat_map(|n| (0..makes.len()).map(move |m| (n, m))).collect();
    r.items(&format!("any number of {what}"), "every count up to 300, and on to 2^17", &all, |cx, (n, m)| {
        let (head, one, tail) = makes[*m];
        // as long as the text can't get near the limit
        if *n > 2000 && *n * (one.len() + 24) > 900_000 {
            return;
        }
        let mut s = head.replace('%', &crate::mangle::number(*n as u64, false));
        for i in 0..*n {
            if one.contains(['%', '^']) {
                s += &one.replace('%', &i.to_string()).replace('^', &(i % 10).to_string());
            } else {
                s += one;
            }
        }
        s += tail;
        cx.st.transitions += *n as u64 + 1;
        cx.seen(&s);
        long(cx, &s, "a long list");
    });
}

/// What's longer than this may have more nodes than there can be, and may be refused (but not be
/// wrong); each node takes a character at least.
const SURE: usize = 1900;

fn long(cx: &mut Cx, s: &str, note: &str) {
    if s.len() > SURE {
        cx.st.traces += 1;
        let o = crate::parse::parse(s);
        let got = cx.call(s, 0);
        let right = match (&o.sym, &got) {
            (_, Got::Refused) => true,
            (Some(x), Got::Text(t)) => *t == crate::print::print(x, 0),
            _ => false,
        };
        if right {
            return;
        }
    }
    cx.judge(s, DEF, note);
}

pub const DIMENSIONS: &[(&str, &str, &str)] = &[
    ("?x@@3PAY%", "2", "HA"),
    ("?x@@3PAY%", "^", "$$CBVc@@A"),
    ("?x@@3Y%", "BA@", "PAHA"),
    ("?f@@YAXPAY%", "0", "H@Z"),
    ("?x@@3V?$t@$$BY%", "1", "H@@A"),
];

pub const PARAMETERS: &[(&str, &str, &str)] = &[
    ("?f@@YAX", "H", "@Z"),
    ("?f@@YAX", "H", "ZZ"),
    ("?f@C@@QBEH", "PAH", "@Z"),
    ("?f@@YAXPAH", "0", "@Z"),
    ("?f@@YAXPAHPBD_N_J", "210", "ZZ"),
    ("?f@@YAX", "Vc%@@", "@Z"),
    ("?f@@YAX", "Vc%@@", "0123456789@Z"),
    ("?f@@YAX", "P6AXXZ", "@Z"),
    ("?f@@YAX", "V?$t@H@@", "@Z"),
    ("?f@@YAX", "V?$t@Vc%@@@@", "ZZ"),
    ("?x@@3P6AX", "PBD", "@ZA"),
    ("?f@@YAXP6AX", "N", "ZZPAH0@Z"),
    ("??0C@@QAE@", "ABV0@", "@Z"),
    ("??$f@H@@YAX", "PAH", "0@Z"),
];

pub const SCOPES: &[(&str, &str, &str)] = &[
    ("?x@", "n@", "@3HA"),
    ("?x@", "n%@", "@3HA"),
    ("?x@n@", "1", "@3HA"),
    ("?x@a@b@", "210", "@3HA"),
    ("?x@", "?A0x%@", "@3HA"),
    ("?x@", "?$t@H@", "@3HA"),
    ("?x@", "?$t@Vn%@@@", "@3HA"),
    ("?x@", "?^??f@@YAXXZ@", "n@@3HA"),
    ("?x@@3V", "n%@", "@A"),
    ("?f@", "n%@", "@QAEXV1@V2@V9@@Z"),
    (".?AV", "n%@", "@"),
    ("??_7", "n%@", "@6B@"),
    ("??_7c@@6B", "n%@", "@"),
    ("??0", "n%@", "@QAE@XZ"),
    ("?x@@3V?$t@V", "n%@", "@V0@@@A"),
];

pub const REFERENCES: &[(&str, &str, &str)] = &[
    ("?x@", "n%@", "@3V?$t@V0@V9@@9876543210@A"),
    ("?x@", "?$t%@H@", "@3V9876543210@A"),
    ("?x@", "?$t@Vn%@@@", "@3V9876543210@A"),
    ("?x@", "?A0x%@", "@3V9876543210@A"),
    ("?f@@YAX", "Vn%@@", "V9876543210@0123456789@Z"),
    ("?f@@YAX", "PAHH", "0123@Z"),
    ("?f@@YAX", "PAUn%@@", "9876543210ZZ"),
    ("?f@@YAX", "V?$t@Vn%@@0@@", "9876543210V1@@Z"),
    ("?f@@YAX", "P6APAHPAH0@Z", "0@Z"),
    ("?f@@YAX", "P6AXVn%@@V1@0@Z", "9876543210V9876543210@@Z"),
    ("??$f@", "Vn%@@", "V9876543210@@@YAXV9876543210@@Z"),
    ("??$f@", "$1?n%@@3HA", "V9876543210@@@YAXXZ"),
    ("?f@a@b@@YAXV1@", "0", "V0@@Z"),
    ("?f@a@b@@YAXV1@", "V10@", "@Z"),
    ("?f@@YAXPAH", "0V?$t@PAH0@@", "21@Z"),
];

/// Template arguments: any number of each kind, alone and after one of another kind.
pub fn many_arguments(r: &mut Run) {
    let all: Vec<(usize, usize)> = counts(r).into_iter().rev().flat_map(|n| (0..ARGS).map(move |m| (n, m))).collect();
    r.items("any number of template arguments", "every count up to 300, and on to 2^17, of each of 24 kinds", &all, |cx, (n, m)| {
        if *n == 0 || *n > 2000 && *n * 40 > 900_000 && (*m > 4 || *n > 100_000) {
            return;
        }
        let args: Vec<TArg> = (0..*n).map(|i| one_arg(*m, i)).collect();
        cx.st.transitions += *n as u64;
        let mut ch = Ch::new(vec![]);
        let id = templ("t", args);
        for (sym, back) in [
            (v("x", Ty::Tag(Tag::Class, vec![id.clone()], 0)), Back::Always),
            (f(vec![id.clone()], vec![class("a").into()]), Back::Always),
            (f(vec![id, Ident::name("g")], vec![class("a").into()]), Back::Never),
        ] {
            let (text, _) = crate::mangle::mangle(&sym, &mut ch, back, false);
            cx.seen(&text);
            long(cx, &text, "a long list");
        }
    });
}

// ---------- grafts: whatever can be made, put wherever it can stand ----------

/// Types, spelled out, as they stand after a `.`
pub fn type_pieces(d: usize) -> Vec<String> {
    pieces(d, |ch| Sym::TypeName(crate::gen::GEN.ty(ch, 2, crate::gen::VAR).into()), |s| {
        let t = &s[1..];
        // the qualifiers in front belong to places that ask for them
        match t.strip_prefix('?') {
            Some(x) if x.starts_with('A') => x[1..].into(),
            _ => t.into(),
        }
    })
}

/// Qualified names of types, spelled out
pub fn name_pieces(d: usize) -> Vec<String> {
    pieces(d, |ch| Sym::TypeName(Ty::Tag(Tag::Class, crate::gen::GEN.qname(ch, 2), 0).into()), |s| s[s.find('V').unwrap() + 1..].into())
}

fn pieces(d: usize, make: impl Fn(&mut Ch) -> Sym + Sync, cut: impl Fn(&str) -> String + Sync) -> Vec<String> {
    let out = std::sync::Mutex::new(std::collections::BTreeSet::new());
    explore(&Global::new(None), d, |_, ch| {
        let sym = make(ch);
        let (text, _) = crate::mangle::mangle(&sym, ch, Back::Always, false);
        out.lock().unwrap().insert(cut(&text));
    });
    let mut v: Vec<_> = out.into_inner().unwrap().into_iter().collect();
    v.sort_by_key(|x| (x.len(), x.clone()));
    v
}

/// Where a type can stand, and what can be read after it: `#` is the type, `%` another.
pub const TYPE_PLACES: &[&str] = &[
    ".#", ".?B#", ".PA#", ".P6A#XZ", "??_R0#@8", "??_R0?A#@8", "?x@@3#A", "?x@C@@2#B", "?x@@3PA#A", "?x@@3PEIB#EIC", "?x@@3AA#B", "?x@@3$$QEB#ED", "?x@@3Y02#A", "?x@@3PAY123#A",
    "?x@@3PAY123$$CB#B", "?x@@3PQS@@#Q1@", "?x@@3PRS@@#R1@", "?x@@3QEQS@@#ER1@", "?x@@3PRS@@#A", "?x@@3P6A#XZA", "?x@@3P6AX#@ZA", "?x@@3P8C@@AE#XZQ1@", "?x@@3P8C@@BEX#@ZQ1@", "?x@@3V?$t@#@@B", "?x@@3V?$t@#@1@A", "?x@n@@3V?$t@#@1@A",
    "?x@@3V?$t@$$B#@@A", "?x@@3V?$t@$$CB#@@A", "?x@@3V?$t@$M#0A@@@A", "?x@@3V?$t@$M#1?y@@3HA@@A", "?x@@3V?$t@$S#@@A", "?x@@3V?$t@#$$V@@A", "?x@@3V?$t@H#H@@A", "?x@?$t@#@@3HA",
    "?f@@YAX#@Z", "?f@@YAX#Z", "?f@@YAX#0@Z", "?f@@YAX#01@Z", "?f@@YAXH#1@Z", "?f@@YAXPAH#10Z", "?f@@YAXPAH#V0@V1@V2@@Z", "?f@@YAX#V1@@Z", "?f@@YA#XZ", "?f@@YA?A#XZ", "?f@@YA?B#X_E", "?f@@YA#0@Z", "?f@@YA?A#PAH01@Z",
    "?f@C@@UBE#H@Z", "?f@C@@WBA@AEX#@Z", "?f@C@@$4PPPPPPPM@A@AE?A#XZ", "??BC@@QBE#XZ", "??BC@@QBE?B#XZ", "??$?BH@C@@QAE#XZ", "??$?B#@C@@QAEHXZ", "??$f@#@@YAXXZ", "??$f@#@@YAX#@Z", "??$f@#@@YAX0@Z", "??$f@#@@YAXV0@@Z",
    "??$f@V?$u@#@@@@YAXXZ", "??$f@$1?g@@YAX#@Z@@YAXXZ", "??$f@$E?y@@3#A@@3HA", "??0?$C@#@@QAE@XZ", "??0C@@QAE@#@Z", "??1?$C@#@@UAE@XZ", "??_7?$C@#@@6B@", "??_7C@@6B?$D@#@@@", "??_R1A@?0A@EA@?$C@#@@8", "??_R2?$C@#@@8",
    "??__Ex@?$C@#@@3HA@YAXXZ", "??__E?x@C@@2#A@@YAXXZ", "??__Ff@@YAX#@Z", "?x@?1??f@@YAX#@Z@4HA", "?x@?1??f@@YAX#@Z@4PAV1@A", "?x@?1???$f@#@@YAXXZ@4HA", "??__K_k@@YA#H@Z", "??_9?$C@#@@$BA@AA",
    "?f@@YAXP6AX#@Z0@Z", "?f@@YAXP6A#PAH@Z01@Z", "?f@@YAX$$A6AX#@Z@Z", "?f@@YAXY02#@Z", "?f@@YAX?A#@Z", "?f@@YAX?C#@Z", "?x@@3?B#A", "?x@@3#EIFA", "?x@@3#Q1@", "??_B?1??f@@YAX#@Z@51", "?x@@3#",
];

pub const TWO_TYPE_PLACES: &[&str] = &[
    "?f@@YA#%@Z", "?f@@YAX#%@Z", "?f@@YAX#%01@Z", "?f@@YAX#%10Z", "?f@@YA?A#%0@Z", "?x@@3P6A#%@ZA", "?x@@3P8C@@AE#%@ZQ1@", "?x@@3V?$t@#%@@A", "??$f@#@@YA%XZ", "??$f@#@@YAX%@Z", "??$f@#%@@YAX%0@Z", "??$f@$$CB#$$CD%@@YAXXZ",
    "?f@@YAXV?$t@#@@V?$u@%@@@Z", "?f@?$C@#@@QAEX%@Z", "??B?$C@#@@QAE%XZ", "?x@?1??f@@YAX#@Z@4%A", "?f@@YAXP6A#XZ%01@Z", "?f@@YAXP6AX#@Z%01@Z", "??0?$C@#@@QAE@%@Z", "?x@?$C@#@@2%A", "??_7?$C@#@@6B?$D@%@@@", "?x@?$N@#@?$M@%@@3HA",
    "?x@@3PQ?$C@#@@%Q1@", "?f@@YAX#_J%_N@Z", "??$f@$M#0A@$M%00@@YAXXZ",
];

/// Where a qualified name can stand
pub const NAME_PLACES: &[&str] = &[
    "?x@#3HA", "?#3HA", "?#YAXXZ", "?#QAEXXZ", ".?AV#", ".PAU#", ".P8#AEXXZ", ".PQ#H", "??_R0?AV#@8", "?x@@3V#A", "?x@@3W4#A", "?x@@3PQ#HQ1@", "?x@@3PQ#HQ#", "?x@@3P8#AEXXZQ1@", "?x@@3P8#AEXXZQ#", "?x@n@#3HA", "?x@#3V0@A", "?x@#3V1@A",
    "?x@#3V2@A", "?x@#2V01@B", "?f@#QAEXXZ", "?f@#QAEXV1@@Z", "?f@#QAEXV2@V3@@Z", "?f@#QAEXABV0@@Z", "??0#QAE@XZ", "??0#QAE@ABV0@@Z", "??1#UAE@XZ", "??H#QAEXXZ", "??B#QBEHXZ", "??B#QBE?AV#XZ", "??_G#UAEPAXI@Z", "??$f@H@#QAEXXZ",
    "??$f@V#@@YAXXZ", "??$f@V#V0@V1@@@YAXXZ", "??$f@$$Y#@@YAXXZ", "??$f@$1?x@#3HA@@YAXXZ", "??$f@$1?f@#QAEXXZV0@@@YAXXZ", "??$f@$H?f@#QAEXXZA@@@YAXXZ", "??$f@$E?x@#3HA@@YAXXZ", "?f@@YAXV#@Z", "?f@@YAXV#0@Z", "?f@@YAXV#V0@V1@@Z",
    "?f@@YAXV#V2@V3@@Z", "?f@@YAXABV#0V#@Z", "?f@@YAXPAHV#1@Z", "?f@@YA?AV#XZ", "?f@@YA?AV#V0@V1@@Z", "??_7#6B@", "??_8#7B@", "??_S#6B@", "??_7C@@6B#", "??_7#6B#", "??_R4#6B@", "??_R4C@@6B#", "??_R2#8", "??_R3#8",
    "??_R1A@?0A@EA@#8", "??_9#$BA@AA", "??_B#51", "??__J#4IA", "??_B#4IA2", "??__Ex@#3HA@YAXXZ", "??__E?x@#2HA@@YAXXZ", "??__Ff@#QAEXXZ", "??__Ff@@YAXV#@Z", "?x@?1??f@#QAEXXZ@4HA", "?x@?BA@??f@@YAXV#@Z@4HA", "?x@?1??f@#QAEXXZ@4V0@A",
    "?x@?1??f@#QAEXXZ@4V1@A", "?x@?$t@V#@@3HA", "?x@?$t@V#V0@@@3HA", "?x@?$t@V#@@3V0@A", "?x@?$t@V#@0@3HA", "??__K_k@#YAXXZ", "??$?0H@#QAE@XZ", "?f@#$4PPPPPPPM@A@AEXXZ", "?f@#WBA@AEXXZ", "?f@#$$J0YAXXZ",
    "??__E#YAXXZ", "??__F#YAXXZ", "??__E?#3HA@@YAXXZ", "??__F?x@#2HA@@YAXXZ",
];

/// Where a symbol can stand within another
pub const SYMBOL_PLACES: &[&str] = &[
    "??$f@$1#@@YAXXZ", "??$f@$1#@@YAXV0@@Z", "??$f@$E#@@YAXXZ", "??$f@$H#A@@@YAXXZ", "??$f@$I#0?0@@YAXXZ", "??$f@$J#012@@YAXXZ", "??$f@$1#V0@V1@@@YAXXZ", "??$f@$1#$1#@@YAXXZ", "??$f@$E#$0A@@@YAXXZ", "??$f@$MPAH1#@@YAXXZ", "??$f@$MHH#A@@@YAXXZ",
    "??$f@$MPAH1#V0@V1@V2@@@YAXXZ", "??$f@$MPAHE#V0@V1@V2@@@YAXXZ", "??$f@$MP8C@@AEXXZH#A@V0@V1@V2@@@YAXXZ", "??$f@$MPAH1#$MPAH1#V0@V1@V3@@@YAXXZ", "?x@@3V?$t@$MPAH1#@V1@A", "??$f@$1#$MVc@@0A@V0@V1@V2@@@YAXXZ",
    "?x@@3V?$t@$1#@@A", "?x@@3V?$t@$E#@@B", "?f@@YAXV?$t@$1#@@0@Z", "?f@@YAXV?$t@$1#@@V0@@Z", "?x@?$t@$1#@@3HA", "??0?$t@$1#@@QAE@XZ", "?x@?1?#@3HA", "?x@?0?#@4V0@A", "?f@?1?#@YAXXZ", "?f@?BA@?#@QAEXV0@@Z", "?x@?1?#C@@2HA", "??_B?1?#@51",
    "??__J?1?#@4IA", "?T@?1?#@3HA", ".?AVT@?1?#@", ".?AV?$t@$1#@@", "??_7T@?1?#@6B@", "??0T@?1?#@QAE@XZ", "??BT@?1?#@QAEHXZ", "?x@?2??y@?1?#@4HA@4HA", "??$f@$1?x@?1?#@4HA@@YAXXZ", "?x@?1???$f@$1#@@YAXXZ@4HA", "??_R0?AV?$t@$E#@@@8",
    "??_R1A@?0A@EA@T@?1?#@8",
];

pub fn graft_types(r: &mut Run, quick: usize, thorough: usize, at: impl Fn(&str) -> bool, flags: &[u16]) {
    let d = r.q(quick, thorough);
    grafts(r, "types, wherever they can stand", TYPE_PLACES, at, || type_pieces(d), "types", flags);
}

pub fn graft_names(r: &mut Run, quick: usize, thorough: usize, at: impl Fn(&str) -> bool, flags: &[u16]) {
    let d = r.q(quick, thorough);
    grafts(r, "names, wherever they can stand", NAME_PLACES, at, || name_pieces(d), "names", flags);
}

/// Every word of up to so many scopes, wherever a name can stand: what a piece of a name is must not
/// depend on how many are around it, and of which kinds.
pub fn scope_words(r: &mut Run, quick: usize, thorough: usize, at: impl Fn(&str) -> bool) {
    if r.broken() {
        return;
    }
    const PIECES: &[&str] = &["a@", "?A0x1@", "?$t@H@", "?3?", "?1??f@@YAXXZ@", "?BA@", "0", "?A@"];
    let n = r.q(quick, thorough);
    let mut words: Vec<String> = vec!["x@".into()];
    let mut last = words.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|w| PIECES.iter().map(move |p| format!("{w}{p}"))).collect();
        words.extend(last.iter().cloned());
    }
    for w in &mut words {
        w.push('@');
    }
    let places: Vec<&str> = NAME_PLACES.iter().copied().filter(|p| at(p)).collect();
    let st = each(r.g, &words, |cx, w| {
        for place in &places {
            let s = place.replace('#', w);
            cx.st.transitions += 1;
            cx.seen(&s);
            cx.judge(&s, &[0], "words of scopes");
        }
    });
    r.add("words of scopes, wherever they can stand", format!("every word of up to {n} of {} kinds of scopes, in {} places", PIECES.len(), places.len()), st);
}

/// Words of scopes again, in every kind of variable, of function, and of table with and without a target: what
/// a name is must not depend on what is said about the thing it names.
pub fn scope_kinds(r: &mut Run, tables: bool) {
    if r.broken() {
        return;
    }
    const PIECES: &[&str] = &["a@", "?A0x1@", "?$t@H@", "b@", "?1??f@@YAXXZ@", "?BA@??y@@3HA@", "0", "1"];
    let upto = |n: usize| {
        let (mut words, mut last) = (vec![String::new()], vec![String::new()]);
        for _ in 0..n {
            last = last.iter().flat_map(|w| PIECES.iter().map(move |p| format!("{w}{p}"))).collect();
            words.extend(last.iter().cloned());
        }
        words
    };
    let quals: Vec<String> = ["", "E", "F", "I", "EI"].iter().flat_map(|e| "ABCD".chars().map(move |c| format!("{e}{c}"))).collect();
    let n = r.q(4, 5);
    let mut places: Vec<String> = vec![];
    if tables {
        for t in ["_7", "_8", "_S", "_R4"] {
            for own in ["x@@", "x@0@", "x@?1??f@@YAXXZ@", "x@a@?$t@H@b@?A0x2@@"] {
                for q in &quals[..] {
                    if q.len() == 1 || own == "x@@" {
                        places.push(format!("??{t}{own}6{q}y@#@@"));
                        places.push(format!("??{t}{own}6{q}z@@y@#@@"));
                        places.push(format!("??{t}y@#@6{q}@"));
                    }
                }
            }
        }
    } else {
        for sc in '0'..='4' {
            for q in &quals[..] {
                places.push(format!("?x@#@{sc}H{q}"));
                places.push(format!("?x@#@{sc}PAH{q}"));
            }
        }
        for c in 'A'..='Z' {
            let this = if c == 'Y' || c == 'Z' || "CDKLST".contains(c) { "" } else { "A" };
            let adj = if "GHOPWX".contains(c) { "7" } else { "" };
            places.push(format!("?f@#@{c}{adj}{this}AXXZ"));
            places.push(format!("??0#@{c}{adj}{this}A@XZ"));
            places.push(format!("??B#@{c}{adj}{this}AHXZ"));
            places.push(format!("?f@#@{c}{adj}{this}AV01@XZ"));
        }
        for k in '0'..='5' {
            places.push(format!("?f@#@${k}3A@AEXXZ"));
            places.push(format!("?f@#@$R{k}3A@3A@AEXXZ"));
        }
    }
    places.sort();
    places.dedup();
    let st = each(r.g, &upto(n), |cx, w| {
        for place in &places {
            let s = place.replace('#', w);
            cx.st.transitions += 1;
            cx.seen(&s);
            cx.judge(&s, &[0], "words of scopes");
        }
    });
    r.add("words of scopes in every kind of symbol", format!("every word of up to {n} of {} kinds of scopes, in {} symbols", PIECES.len(), places.len()), st);
}

pub fn graft_symbols(r: &mut Run, at: impl Fn(&str) -> bool, flags: &[u16]) {
    let d = r.q(2, 3);
    grafts(r, "symbols, wherever they can stand", SYMBOL_PLACES, at, || catalog(d).into_iter().map(|x| x.0).collect(), "symbols", flags);
}

fn grafts(r: &mut Run, name: &str, places: &[&'static str], at: impl Fn(&str) -> bool, pieces: impl FnOnce() -> Vec<String>, what: &str, flags: &[u16]) {
    if r.broken() {
        return;
    }
    let places: Vec<&str> = places.iter().copied().filter(|p| at(p)).collect();
    let pieces = pieces();
    let st = each(r.g, &pieces, |cx, p| {
        for place in &places {
            if cx.stopped() {
                return;
            }
            let s = place.replace('#', p);
            cx.st.transitions += 1;
            cx.seen(&s);
            cx.judge(&s, flags, name);
        }
        cx.sample(|| places[0].replace('#', p));
    });
    r.add(name, format!("{} {what} in {} places, under {} sets of flags", pieces.len(), places.len(), flags.len()), st);
}

pub fn graft_pairs(r: &mut Run, at: impl Fn(&str) -> bool, flags: &[u16]) {
    if r.broken() {
        return;
    }
    let name = "pairs of types, wherever they can stand";
    let places: Vec<&str> = TWO_TYPE_PLACES.iter().copied().filter(|p| at(p)).collect();
    let pieces = type_pieces(2);
    let others = if r.tier == Tier::Quick { pieces.clone() } else { type_pieces(3) };
    let st = each(r.g, &others, |cx, p| {
        for place in &places {
            for (a, b) in [('#', '%'), ('%', '#')] {
                let half = place.replace(a, p);
                for q in &pieces {
                    if cx.stopped() {
                        return;
                    }
                    let s = half.replace(b, q);
                    cx.st.transitions += 1;
                    cx.seen(&s);
                    cx.judge(&s, flags, name);
                }
                if others.len() == pieces.len() {
                    break;
                }
            }
        }
        cx.sample(|| places[0].replace('#', p).replace('%', &pieces[0]));
    });
    r.add(name, format!("{} types with {} in {} pairs of places, under {} sets of flags", others.len(), pieces.len(), places.len(), flags.len()), st);
}

/// Templates whose arguments differ in what flags take away only, and references to each of them.
pub fn flag_twins(r: &mut Run, flags: &[u16]) {
    if r.broken() {
        return;
    }
    let mut args = type_pieces(2);
    args.extend(catalog(r.q(0, 1)).into_iter().filter(|x| x.0.starts_with('?')).map(|x| format!("$1{}", x.0)));
    for t in ["UX@@", "TX@@", "VX@@", "W4X@@", "PAX", "PEAX", "PIAX", "PFAX", "QAX", "P6AXXZ", "P6GXXZ", "P6AHXZ", "P6AXXZ@", "P8X@@AEXXZ", "P8X@@BEXXZ", "P8X@@EBEXXZ", "$$A6AXXZ", "$$A6GXXZ", "$$A8@@AEXXZ", "$$A8@@BEXXZ", "$$A8@@GAEXXZ"] {
        args.push(t.into());
    }
    for c in "ACEIKMQSUY".chars() {
        args.push(format!("$1?y@X@@{c}{}XXZ", if matches!(c, 'C' | 'K' | 'S' | 'Y') { "A" } else { "AE" }));
    }
    for c in "01234".chars() {
        args.push(format!("$1?y@X@@{c}HA"));
        args.push(format!("$E?y@X@@{c}PIAHA"));
    }
    args.sort();
    args.dedup();
    let args = &args;
    let st = each(r.g, args, |cx, a| {
        for b in args {
            for s in [
                format!("?f@@YAXV?$t@{a}@@V?$t@{b}@@V1@V2@@Z"),
                format!("?x@?$t@{a}@?$t@{b}@@3V210@A"),
                format!("??$f@$1??$g@{a}@@YAXXZ$1??$g@{b}@@YAXXZV1@V2@@@YAXXZ"),
            ] {
                if cx.stopped() {
                    return;
                }
                cx.st.transitions += 1;
                cx.seen(&s);
                cx.judge(&s, flags, "references to templates that flags may make alike");
            }
        }
        cx.sample(|| format!("?f@@YAXV?$t@{a}@@V?$t@UX@@@@V1@V2@@Z"));
    });
    r.add("templates that flags may make alike", format!("every two of {} arguments in three arrangements, under {} sets of flags", args.len(), flags.len()), st);
}

/// A reference put anywhere: before any character of any name, and of any symbol within another.
pub fn references_anywhere(r: &mut Run) {
    if r.broken() {
        return;
    }
    let mut texts: Vec<String> = catalog(r.q(2, 3)).into_iter().map(|x| x.0).collect();
    let few = catalog(1);
    for p in SYMBOL_PLACES {
        texts.extend(few.iter().map(|x| p.replace('#', &x.0)));
    }
    let d = r.q(2, 3);
    let more = type_pieces(d);
    for p in TYPE_PLACES.iter().filter(|p| p.contains("$t@") || p.contains("??$")) {
        texts.extend(more.iter().map(|x| p.replace('#', x)));
    }
    let more = name_pieces(d);
    for p in NAME_PLACES.iter().filter(|p| p.contains("$t@") || p.contains("??$")) {
        texts.extend(more.iter().map(|x| p.replace('#', x)));
    }
    r.items("a reference put anywhere", "a reference to one of the first four names, or parameters, put before any character of every catalogued name, and of every symbol and type in a template", &texts, |cx, t| {
        for (i, _) in t.char_indices() {
            for x in ["V0@", "V1@", "V2@", "V3@", "0", "1", "2@", "U?$t@V0@V1@V2@V3@@@", "P6AX0@Z", "P6AX1@Z"] {
                let s = format!("{}{x}{}", &t[..i], &t[i..]);
                cx.st.transitions += 1;
                cx.seen(&s);
                cx.judge(&s, DEF, "a reference put somewhere");
            }
        }
    });
}

/// What is remembered at every depth: something of its own at each level, what it holds, and then
/// references on the way out, for every kind of level alone and for every two of them in turn.
pub fn references_deep(r: &mut Run) {
    if r.broken() {
        return;
    }
    // % is the number of the level, # what the level holds, & the reference that comes after it
    const LEVELS: &[&str] = &[
        "V?$t%@#Vz%@@&@@",
        "V?$t%@Vz%@@#&@@",
        "V?$t%@Vz%@@#&@u@@",
        "Vn@?$t%@#Vz%@@&@@",
        "P6AX#Vz%@@&@Z",
        "P6AXVz%@@#&@Z",
        "P6AVz%@@#&@Z",
        "P8z%@@AEX#&@Z",
        "Vx%@?1??f%@@YAX#&@Z@",
        "Vx%@?1??f%@@YAXVz%@@#&@Z@",
        "V?$t%@$1??$f%@#Vz%@@&@@YAX&@Z@@",
        "V?$t%@$1?v%@@3#A&@@",
        "PAY01#",
        "PQz%@@#",
    ];
    const REFS: &[&str] = &["", "0", "1", "2", "V0@", "V1@", "V2@", "V3@", "V1@V2@"];
    const HOSTS: &[&str] = &["?x@@3#A", "?f@@YAX#&@Z", "??$f@#&@@YAX&@Z", "?f@?$c@#&@@QAEX&@Z", "?x@?1??f@@YAX#&@Z@4HA"];
    let depths: Vec<usize> = match r.tier {
        Tier::Quick => vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 50, 63, 64, 65],
        Tier::Thorough => (1..=72).collect(),
    };
    let pairs = [2usize, 3, 4, 5, 9, 16, 33, 64];
    let mut items = vec![];
    for d in &depths {
        for a in LEVELS {
            for b in LEVELS {
                if a == b || pairs.contains(d) || (r.tier == Tier::Thorough && d % 4 == 0) {
                    items.push((*a, *b, *d));
                }
            }
        }
    }
    let hosts = |d: usize| if d < 6 { HOSTS } else { &HOSTS[1..3] };
    let st = each_on(r.g, 64 << 20, &items, |cx, (a, b, d)| {
        // outside of the innermost level, references at one level only: they could double what is
        // written at every one
        let mut at: Vec<usize> = vec![0, d / 2, d.saturating_sub(2)];
        at.dedup();
        for at in at {
            for inner in REFS {
                for outer in REFS {
                    let mut t = String::from("H");
                    for i in (0..*d).rev() {
                        let level = if i % 2 == 0 { a } else { b };
                        let refer = if i + 1 == *d {
                            inner
                        } else if i == at {
                            outer
                        } else {
                            &""
                        };
                        t = level.replace('&', refer).replace('%', &i.to_string()).replace('#', &t);
                    }
                    for h in hosts(*d) {
                        let s = h.replace('&', outer).replace('#', &t);
                        cx.st.transitions += 1;
                        cx.seen(&s);
                        cx.judge(&s, DEF, "references at a depth");
                    }
                }
            }
        }
    });
    r.add("references at every depth", format!("{} kinds of levels, alone and by turns, {} depths up to {} ({} towers), {} references within, {} at one of three levels outside, {} hosts", LEVELS.len(), depths.len(), depths.last().unwrap(), items.len(), REFS.len(), REFS.len(), HOSTS.len()), st);
}

/// What is remembered, by name or as a parameter, once something of any kind is over.
pub fn references_after(r: &mut Run) {
    if r.broken() {
        return;
    }
    let types = type_pieces(r.q(2, 3));
    let names = name_pieces(r.q(2, 3));
    let syms: Vec<String> = catalog(r.q(2, 3)).into_iter().map(|x| x.0).filter(|x| x.starts_with('?')).collect();
    let mut args: Vec<String> = types.clone();
    for t in &types {
        args.extend([format!("$M{t}0A@"), format!("$$CB{t}"), format!("$$B{t}"), format!("$M{t}1?y@z@@3HA")]);
    }
    for n in &names {
        args.extend([format!("$$Y{n}"), format!("V{n}"), format!("?{n}"), format!("P8{n}AEXXZ"), format!("PQ{n}H")]);
    }
    for s in &syms {
        args.extend([format!("$1{s}"), format!("$E{s}"), format!("$H{s}A@"), format!("$J{s}012"), format!("$MH1{s}"), format!("$MPAVq@@I{s}01"), format!("$MVq@@E{s}")]);
    }
    // what each hole is in, what refers to names and parameters after it
    const ARGS: &[&str] = &["??$f@#%@@YAXXZ", "?x@p@@3V?$t@#%@1@A", "?x@?1???$f@#%@@YAXXZ@4HA", "??$f@$1??$g@#%@@YAXXZ@@YAXXZ"];
    const PARAMS: &[&str] = &["?f@@YAX#%@Z", "?f@@YAXP6AX#@Z%@Z", "?f@@YAXP8C@@AEX#%@Z@Z", "?f@?1??g@@YAX#@Z@YAX%@Z", "?f@@YA#%@Z", "??$f@$1?g@@YAX#@Z@@YAX%@Z"];
    const SCOPES: &[&str] = &["?f@#YAX%@Z", "?f@n@#QAEX%@Z", "?f@?1??g@#YAXXZ@YAX%@Z", "??0#QAE@%@Z"];
    const INNER: &[&str] = &["?f@?1?#@YAX%@Z", "?f@p@?BA@?#@QAE?AV2@%@Z", "??$f@$1?g@?1?#@YAX%@Z@@YAXXZ"];
    let by_arg = ["V0@", "V1@", "V2@", "V3@", "V4@", "P6AX0@Z", "P6AX1@Z", "P6AXV2@0@Z", "V12@"];
    let by_param = ["0", "1", "2", "V0@", "V1@", "V2@", "V3@", "P6AX0@Z", "V12@"];
    let mut items: Vec<(&str, &String, &[&str])> = vec![];
    for (hosts, pieces, refs) in [(ARGS, &args, &by_arg), (PARAMS, &types, &by_param), (SCOPES, &names, &by_param), (INNER, &syms, &by_param)] {
        for h in hosts {
            items.extend(pieces.iter().map(|x| (*h, x, &refs[..])));
        }
    }
    let st = each(r.g, &items, |cx, (host, x, refs)| {
        let host = host.replace('#', x);
        for a in *refs {
            for b in std::iter::once(&"").chain(*refs) {
                let s = host.replace('%', &format!("{a}{b}"));
                cx.st.transitions += 1;
                cx.seen(&s);
                cx.judge(&s, DEF, "references after something");
            }
        }
    });
    r.add("references after everything", format!("{} template arguments, parameters, scopes, and symbols in places followed by every one or two references to names and parameters", items.len()), st);
}

/// Symbols within symbols within symbols; types and names within symbols within symbols.
pub fn graft_twice(r: &mut Run, small: bool, at: impl Fn(&str) -> bool, flags: &[u16]) {
    if r.broken() {
        return;
    }
    let name = "grafts within symbols within symbols";
    let outer: Vec<&str> = SYMBOL_PLACES.iter().copied().filter(|p| at(p)).collect();
    let d = if small { r.q(1, 2) } else { r.q(2, 3) };
    let mut inner: Vec<String> = vec![];
    let cat = catalog(if small { 1 } else { r.q(1, 2) });
    for p in SYMBOL_PLACES.iter().filter(|p| p.starts_with('?')) {
        inner.extend(cat.iter().map(|x| p.replace('#', &x.0)));
    }
    let some = type_pieces(d);
    for p in TYPE_PLACES.iter().filter(|p| p.starts_with('?')) {
        inner.extend(some.iter().map(|x| p.replace('#', x)));
    }
    let some = name_pieces(d);
    for p in NAME_PLACES.iter().filter(|p| p.starts_with('?')) {
        inner.extend(some.iter().map(|x| p.replace('#', x)));
    }
    let st = each(r.g, &inner, |cx, p| {
        for place in &outer {
            if cx.stopped() {
                return;
            }
            let s = place.replace('#', p);
            cx.st.transitions += 1;
            cx.seen(&s);
            cx.judge(&s, flags, name);
        }
        cx.sample(|| outer[0].replace('#', p));
    });
    r.add(name, format!("{} symbols with grafts in {} places, under {} sets of flags", inner.len(), outer.len(), flags.len()), st);
}

#[cfg(test)]
#[test]
fn places_are_places() {
    for (places, with) in [(TYPE_PLACES, "H"), (NAME_PLACES, "n@@"), (SYMBOL_PLACES, "?v@@3HA")] {
        for p in places {
            let s = p.replace('#', with);
            println!("{:<40} {:?}", s, crate::parse::parse(&s).sym.map(|x| crate::print::print(&x, 0)));
        }
    }
    for p in TWO_TYPE_PLACES {
        let s = p.replace('#', "PAH").replace('%', "Vc@@");
        println!("{:<40} {:?}", s, crate::parse::parse(&s).sym.map(|x| crate::print::print(&x, 0)));
    }
    for d in 0..5 {
        println!("{d}: {} types, {} names", type_pieces(d).len(), name_pieces(d).len());
    }
}
