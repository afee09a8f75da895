//! One function per property: the spaces it explores, and what it judges them by.

use crate::ast::*;
use crate::engine::*;
use crate::gen::*;
use crate::mangle::{mangle, number, plain, Back};
use crate::print::{print, NAME_ONLY};
use crate::strings;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Space {
    pub name: String,
    pub bound: String,
    pub stats: Stats,
}

pub struct Run<'g> {
    pub g: &'g Global,
    pub tier: Tier,
    pub spaces: Vec<Space>,
    pub clock: std::time::Instant,
}

impl<'g> Run<'g> {
    pub fn q(&self, quick: usize, thorough: usize) -> usize {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
    pub fn broken(&self) -> bool {
        !self.g.violations.lock().unwrap().is_empty()
    }
    pub fn add(&mut self, name: &str, bound: String, stats: Stats) {
        eprintln!(
            "  [{:.1} s] {name}: {bound}; traces={} states={} transitions={} outcomes={} calls={} accepted={} refused={} pruned={}",
            self.clock.elapsed().as_secs_f64(), stats.traces, stats.states(), stats.transitions, stats.outcomes.len(), stats.calls,
            stats.accepted, stats.refused, stats.pruned
        );
        self.spaces.push(Space { name: name.into(), bound, stats });
        self.clock = std::time::Instant::now();
    }

    /// All derivations with at most 0, 1, ..., `bound` departures from the default.
    pub fn sweep(&mut self, name: &str, bound: usize, f: impl Fn(&mut Cx, &mut Ch) + Sync) {
        if self.broken() {
            return;
        }
        let mut last = Stats::default();
        for d in 0..=bound {
            last = explore(self.g, d, &f);
            if self.broken() {
                break;
            }
        }
        self.add(name, format!("every derivation with at most {bound} deviations"), last);
    }

    /// All derivations, without a bound on the choices.
    pub fn full(&mut self, name: &str, f: impl Fn(&mut Cx, &mut Ch) + Sync) {
        if self.broken() {
            return;
        }
        let st = explore(self.g, usize::MAX, &f);
        self.add(name, "every derivation".into(), st);
    }

    pub fn texts(&mut self, name: &str, t: &Texts) {
        if self.broken() {
            return;
        }
        let st = t.run(self.g);
        self.add(
            name,
            format!(
                "every text of up to {} characters over an alphabet of {} after {} prefixes, each also with {} endings",
                t.depth,
                t.alphabet.len(),
                t.roots.len(),
                t.closers.len()
            ),
            st,
        );
    }

    pub fn items<T: Sync>(&mut self, name: &str, bound: &str, items: &[T], f: impl Fn(&mut Cx, &T) + Sync) {
        if self.broken() {
            return;
        }
        let st = each(self.g, items, f);
        self.add(name, format!("{bound} ({} cases)", items.len()), st);
    }
}

pub const ALL: &[(&str, fn(&mut Run))] = &[
    ("C01", crate::robust::c01),
    ("C02", c02),
    ("C03", c03),
    ("C04", c04),
    ("C05", c05),
    ("C06", c06),
    ("C07", c07),
    ("C08", c08),
    ("C09", c09),
    ("C10", c10),
    ("C11", c11),
    ("C12", crate::robust::c12),
    ("C13", crate::robust::c13),
    ("C14", crate::robust::c14),
    ("C15", crate::robust::c15),
    ("C16", crate::robust::c16),
    ("C17", crate::robust::c17),
    ("C18", crate::robust::c18),
];

const DEF: &[u16] = &[0];

pub fn v(name: &str, ty: Ty) -> Sym {
    Sym::Var { sc: 3, name: vec![Ident::name(name)], ty: Some(ty.into()) }
}

pub fn f(name: QName, params: Vec<Rc<Ty>>) -> Sym {
    let sig = Sig {
        cc: Some(0),
        ret: Some(Ty::Prim(2, 0).into()),
        params: if params.is_empty() { None } else { Some(params) },
        ..bare_sig()
    };
    Sym::Func { name: Some(name), sig, thunk: None }
}

pub fn class(n: &str) -> Ty {
    Ty::Tag(Tag::Class, vec![Ident::name(n)], 0)
}

// ---------- C02: types of variables ----------

/// Wraps `inner` into one more layer of declarator.
fn layer(ch: &mut Ch, inner: Ty, outermost: bool) -> Option<Ty> {
    let is_ref = matches!(inner, Ty::Ptr { aff: Aff::Ref | Aff::RRef, .. });
    let ptr = |aff, q, to: Ty| Ty::Ptr { aff, q, class: None, to: to.into() };
    let k = ch.free(17);
    if is_ref && !(8..=11).contains(&k) {
        return None;
    }
    Some(match k {
        0 => ptr(Aff::Ptr, 0, inner),
        1 => ptr(Aff::Ptr, CONST, inner),
        2 => ptr(Aff::Ptr, VOLATILE, inner),
        3 => ptr(Aff::Ptr, CONST | VOLATILE, inner),
        4 => ptr(Aff::Ptr, RESTRICT | PTR64, inner),
        5 => ptr(Aff::Ptr, UNALIGNED | CONST, inner),
        6 => ptr(Aff::Ref, 0, inner),
        7 => ptr(Aff::RRef, PTR64, inner),
        k @ 8..=11 => {
            // a pointer to a function that returns it, or takes it
            let inner: Rc<Ty> = inner.into();
            let void: Rc<Ty> = Ty::Prim(2, 0).into();
            let bad = matches!(*inner, Ty::Arr { .. } | Ty::Func(_));
            if bad {
                return None;
            }
            let top_cv = matches!(&*inner, Ty::Prim(_, q) | Ty::Tag(_, _, q) if *q != 0);
            if k % 2 == 1 && (top_cv || matches!(*inner, Ty::Prim(2, _))) {
                return None;
            }
            let mut sig = bare_sig();
            sig.cc = Some(if k >= 10 { 1 } else { 0 });
            if k % 2 == 0 {
                sig.ret = Some(inner);
            } else {
                sig.ret = Some(void);
                sig.params = Some(vec![inner]);
            }
            let class = if k >= 10 {
                sig.q = CONST;
                Some(vec![Ident::name("S")])
            } else {
                None
            };
            Ty::Ptr { aff: Aff::Ptr, q: 0, class, to: Ty::Func(sig.into()).into() }
        }
        k @ 12..=13 => {
            let cv = match &inner {
                Ty::Arr { .. } | Ty::Func(_) => return None,
                Ty::Ptr { q, .. } => *q & !3,
                _ => 0,
            };
            if cv != 0 {
                return None;
            }
            Ty::Ptr {
                aff: Aff::Ptr,
                q: if k == 12 { 0 } else { CONST },
                class: Some(vec![Ident::name("S")]),
                to: inner.into(),
            }
        }
        k => {
            match &inner {
                // these are spelled as further dimensions, and arrays of arrays have none
                Ty::Arr { .. } | Ty::Func(_) => return None,
                Ty::Prim(_, q) | Ty::Tag(_, _, q) if *q != 0 => return None,
                _ => {}
            }
            let dims = [vec![3], vec![2, 20], vec![1, 10, 11]][k - 14].clone();
            let q = if outermost && k == 14 { VOLATILE } else { 0 };
            Ty::Arr { dims, q, elem: inner.into() }
        }
    })
}

pub fn c02(r: &mut Run) {
    let depth = r.q(5, 6);
    r.full("declarator chains", |cx, ch| {
        let n = 1 + ch.free(depth);
        let base = ch.free(6);
        let mut t = match base {
            0 => Ty::Prim(0, 0),
            1 => Ty::Prim(5, CONST),
            2 => Ty::Prim(14, VOLATILE),
            3 => Ty::Tag(Tag::Class, vec![Ident::name("S")], 0),
            4 => Ty::Tag(Tag::Enum, vec![Ident::name("N"), Ident::name("S")], CONST | VOLATILE),
            _ => Ty::Prim(2, 0),
        };
        if n >= 4 && base > 3 {
            return;
        }
        for k in 0..n {
            match layer(ch, t, k + 1 == n) {
                Some(x) => t = x,
                None => return,
            }
        }
        cx.trace(&v("x", t), ch, Back::Always, false, DEF, "a declarator chain");
    });
    r.full("every base type, qualifier, storage class, and one or two layers", |cx, ch| {
        let sc = ch.free(5) as u8;
        let q = ch.free(4) as Q;
        let p = ch.free(PRIMS.len() + 5);
        let mut t = if p < PRIMS.len() {
            Ty::Prim(p, q)
        } else if p < PRIMS.len() + 4 {
            let tag = [Tag::Class, Tag::Struct, Tag::Union, Tag::Enum][p - PRIMS.len()];
            Ty::Tag(tag, vec![Ident::name("T")], q)
        } else {
            Ty::Custom(Ident::name("T"), 0)
        };
        for _ in 0..ch.free(3) {
            match layer(ch, t, false) {
                Some(x) => t = x,
                None => return,
            }
        }
        let sym = Sym::Var { sc, name: vec![Ident::name("x")], ty: Some(t.into()) };
        cx.trace(&sym, ch, Back::Always, false, DEF, "a variable");
    });
    crate::wide::arrays(r);
    crate::wide::lists(r, "dimensions", crate::wide::DIMENSIONS);
    let g = Gen { prims: PRIMS.len(), ccs: 10, ..GEN };
    let d = r.q(5, 6);
    r.sweep("types of any shape", d, |cx, ch| {
        let name = vec![Ident::name("x")];
        let sym = g.variable_named(ch, 4, name);
        cx.trace(&sym, ch, Back::Choose, true, DEF, "a variable");
    });
    crate::wide::graft_types(r, 4, 4, |_| true, &[0]);
}

// ---------- C03: functions ----------

fn all_classes() -> Vec<(Class, Option<Thunk>)> {
    let mut v = vec![(FREE, None)];
    v.push((Class { extern_c: true, ..FREE }, None));
    for access in [Access::Private, Access::Protected, Access::Public] {
        let c = Class { access, ..FREE };
        v.push((c, None));
        v.push((Class { is_static: true, ..c }, None));
        v.push((Class { is_virtual: true, ..c }, None));
        v.push((Class { extern_c: true, ..c }, None));
        let virt = Class { is_virtual: true, ..c };
        v.push((
            Class { is_virtual: access != Access::Private, ..c },
            Some(Thunk::Adjustor(12)),
        ));
        v.push((virt, Some(Thunk::Vtordisp { disp: -4, stat: 16 })));
        v.push((virt, Some(Thunk::VtordispEx { vbptr: 8, vboff: -12, disp: -4, stat: 20 })));
    }
    v
}

pub fn c03(r: &mut Run) {
    let classes = all_classes();
    let cl = &classes;
    r.full("function classes, conventions, qualifiers, results, parameters", |cx, ch| {
        let (class, thunk) = cl[ch.free(cl.len())].clone();
        let member = class.access != Access::None && !class.is_static;
        let mut sig = bare_sig();
        sig.class = class;
        sig.cc = Some(ch.free(CCS.len()));
        if member {
            sig.q = ch.free(4) as Q;
            sig.q |= [0, PTR64, RESTRICT, UNALIGNED, PTR64 | RESTRICT, PTR64 | RESTRICT | UNALIGNED]
                [ch.free(6)];
            sig.refq = ch.free(3) as u8;
        }
        sig.ret = [None, Some(Ty::Prim(2, 0)), Some(Ty::Prim(0, CONST))][ch.free(3)].clone().map(Rc::new);
        sig.params = [None, Some(vec![Ty::Prim(1, 0).into()]), Some(vec![])][ch.free(3)].clone();
        sig.variadic = match &sig.params {
            None => false,
            Some(p) if p.is_empty() => true,
            _ => ch.free(2) == 1,
        };
        sig.noexcept = ch.free(2) == 1;
        // both letters for each class and convention
        let name = Some(vec![Ident::name("C"), Ident::name("f")]);
        let sym = Sym::Func { name, sig, thunk };
        cx.trace(&sym, ch, Back::Always, false, DEF, "a function");
    });
    crate::wide::signatures(r, cl);
    crate::wide::lists(r, "parameters", crate::wide::PARAMETERS);
    let d = r.q(4, 5);
    r.sweep("other spellings of the same", d, |cx, ch| {
        let (class, thunk) = cl[ch.free(cl.len())].clone();
        let name = vec![Ident::name("C"), Ident::name("f")];
        let g = Gen { ccs: 10, ..GEN };
        let Sym::Func { name, sig, .. } = g.function_of(ch, 1, name, class) else { return };
        cx.trace(&Sym::Func { name, sig, thunk }, ch, Back::Choose, true, DEF, "a function");
    });
    let g = Gen { prims: PRIMS.len(), ccs: 10, params: 4, ..GEN };
    let d = r.q(4, 5);
    r.sweep("functions of any type", d, |cx, ch| {
        let name = vec![Ident::name("f")];
        let sym = g.function_named(ch, 3, name);
        cx.trace(&sym, ch, Back::Choose, true, DEF, "a function");
    });
    let d = r.q(4, 5);
    r.sweep("thunks", d, |cx, ch| {
        let sym = GEN.thunk(ch, 2);
        cx.trace(&sym, ch, Back::Choose, true, DEF, "a thunk");
    });
    // every spelling of the classes, with and without what makes one extern "C"
    let bodies = ["YAXXZ", "AXXZ", "AEXXZ", "EBAHHZZ", "AE@XZ", "A?AV0@XZ", "AXXZ_E", "EGBAPEAXPEAHZ", "AAAXXZ", "0AEXXZ", "4AEXXZ", "404AEXXZ", "40121AEXXZ", ""];
    r.full("linkage and classes", |cx, ch| {
        let mut s = ["?f@@", "?f@C@@", "??0C@@", "??BC@@", "??HC@@", "??$f@H@C@@", "?f@?1??g@@YAXXZ@", "?f@C@?1??$$J0g@@YAXXZ@"][ch.free(8)].to_string();
        s += ["", "$$J0", "$$J1", "$$J9", "$$JA", "$$J", "$$J00", "$$J0$$J0"][ch.free(8)];
        let c = ch.free(40);
        match c {
            0..26 => s.push((b'A' + c as u8) as char),
            26..36 => s.push((b'0' + (c - 26) as u8) as char),
            36 => s += "$",
            37 => s += "$R",
            38 => s += "$B",
            _ => {}
        }
        s += bodies[ch.free(bodies.len())];
        cx.seen(&s);
        cx.judge(&s, DEF, "a function");
    });
    // every number where a thunk has one, on its own and along with the others
    let mut values: Vec<String> = vec!["".into()];
    for k in [0u64, 1, 2, 4, 9, 10, 11, 16, 255, 256, 4096, 0x7FFF, 0xFFFF, (1 << 31) - 4, (1 << 31) - 1, 1 << 31, (1 << 32) - 4, (1 << 32) - 1] {
        values.push(crate::mangle::number(k, false));
        values.push(crate::mangle::number(k, true));
    }
    values.extend(["A", "?A", "AB@", "?AAB@"].map(String::from));
    let values = &values;
    let few = &values[..].iter().step_by(r.q(3, 2)).cloned().collect::<Vec<_>>();
    r.full("the numbers of thunks", |cx, ch| {
        let (head, n) = [("G", 1), ("H", 1), ("O", 1), ("P", 1), ("W", 1), ("X", 1), ("$", 2), ("$R", 4)][ch.free(8)];
        let mut s = format!("?f@C@@{head}");
        if n > 1 {
            s.push((b'0' + ch.free(6) as u8) as char);
        }
        for _ in 0..n {
            let from = if n < 4 { values } else { few };
            s += &from[ch.free(from.len())];
        }
        s += ["AEXXZ", "EBAHHZZ"][ch.free(2)];
        cx.seen(&s);
        cx.judge(&s, DEF, "a thunk");
    });
    // lists of every length up to what the limits can't get in the way of
    let n = 64;
    let lens: Vec<usize> = (0..=n).collect();
    r.items("parameter lists by length", "0 to 64 parameters of four makes", &lens, |cx, n| {
        for make in 0..4 {
            let t = |i: usize| -> Rc<Ty> {
                match make {
                    0 => Ty::Prim(0, 0),
                    1 => class(&format!("c{i}")),
                    2 => Ty::Prim(i % PRIMS.len(), 0),
                    _ => Ty::Ptr {
                        aff: Aff::Ptr,
                        q: 0,
                        class: None,
                        to: Ty::Prim((i * 7) % PRIMS.len(), 0).into(),
                    },
                }
                .into()
            };
            let ps: Vec<_> = (0..*n).map(|i| if make == 2 && i % PRIMS.len() == 2 { class("v").into() } else { t(i) }).collect();
            for variadic in [false, true] {
                let mut s = f(vec![Ident::name("f")], ps.clone());
                if let Sym::Func { sig, .. } = &mut s {
                    if variadic {
                        sig.params = Some(ps.clone());
                    }
                    sig.variadic = variadic;
                }
                for back in [Back::Always, Back::Never] {
                    cx.trace(&s, &mut Ch::new(vec![]), back, false, DEF, "a long parameter list");
                }
            }
        }
    });
    let ps = |p: &str| p.contains("YA") || p.contains("AE") || p.contains("$4");
    crate::wide::graft_types(r, 3, 4, ps, &[0]);
    crate::wide::graft_pairs(r, ps, &[0]);
}

// ---------- C04: names ----------

fn scope_kinds(i: usize, ch: &mut Ch) -> Option<Ident> {
    let int: Rc<Ty> = Ty::Prim(0, 0).into();
    Some(match ch.free(9) {
        0 => Ident::name("n"),
        1 => Ident::name(["p", "q", "r", "s", "t", "u", "w"][i % 7]),
        2 => Ident::new(IdKind::Anon("0x8badf00d".into())),
        3 => Ident::new(IdKind::Anon("".into())),
        4 => Ident { kind: IdKind::Name("n".into()), targs: Some(vec![TArg::Ty(int)]) },
        5 => Ident {
            kind: IdKind::Name("v".into()),
            targs: Some(vec![TArg::Ty(class("n").into()), TArg::Ty(class("n").into())]),
        },
        6 => Ident::new(IdKind::Local(0, f(vec![Ident::name("n")], vec![]).into())),
        7 => Ident::new(IdKind::Local(
            17,
            f(vec![Ident::name("n"), Ident::name("m")], vec![class("n").into()]).into(),
        )),
        _ => Ident { kind: IdKind::Name("e".into()), targs: Some(vec![]) },
    })
}

pub fn c04(r: &mut Run) {
    let depth = r.q(5, 6);
    r.full("chains of scopes", |cx, ch| {
        let mut name = vec![];
        for i in 0..ch.free(depth + 1) {
            match scope_kinds(i, ch) {
                Some(x) => name.push(x),
                None => return,
            }
        }
        let k = ch.free(6);
        let sym = match k {
            0 => {
                name.push(Ident::name("n"));
                f(name, vec![])
            }
            1 => {
                name.push(Ident::name("x"));
                Sym::Var { sc: 3, name, ty: Some(Ty::Prim(0, 0).into()) }
            }
            2 => {
                name.push(Ident::name("T"));
                Sym::TypeName(Ty::Tag(Tag::Struct, name, 0).into())
            }
            3 => {
                name.push(Ident { kind: IdKind::Name("n".into()), targs: Some(vec![TArg::Ty(Ty::Prim(0, 0).into())]) });
                f(name, vec![])
            }
            4 => {
                if name.is_empty() {
                    return;
                }
                let class = Some(Rc::new(name[name.len() - 1].clone()));
                name.push(Ident::new(IdKind::Structor { dtor: true, class }));
                f(name, vec![])
            }
            _ => {
                name.push(Ident { kind: IdKind::Name("n".into()), targs: Some(vec![TArg::Ty(Ty::Prim(0, 0).into())]) });
                v("x", Ty::Tag(Tag::Class, name, 0))
            }
        };
        cx.trace(&sym, ch, Back::Always, false, DEF, "a qualified name");
    });
    let g = Gen { scopes: 4, targs: 4, ..GEN };
    let d = r.q(6, 7);
    r.sweep("qualified names of functions", d, |cx, ch| {
        let name = g.symbol_name(ch, 3);
        let sym = g.function_of(ch, 0, name, FREE);
        cx.trace(&sym, ch, Back::Choose, true, DEF, "a qualified name");
    });
    r.sweep("qualified names of types", d, |cx, ch| {
        let name = g.qname(ch, 3);
        let sym = Sym::TypeName(Ty::Tag(Tag::Class, name, 0).into());
        cx.trace(&sym, ch, Back::Choose, true, DEF, "a qualified type name");
    });
    let lens: Vec<usize> = (1..=64).collect();
    r.items("scopes and template arguments by number", "1 to 64 of either, the same or different", &lens, |cx, n| {
        for make in 0..6 {
            let id = |i: usize| match make {
                0 => Ident::name("n"),
                1 => Ident::name(&format!("n{i}")),
                _ => Ident { kind: IdKind::Name(format!("t{i}").as_str().into()), targs: Some(vec![TArg::Ty(Ty::Prim(0, 0).into())]) },
            };
            let sym = if make < 3 {
                let mut name: QName = (0..*n).map(id).collect();
                name.push(Ident::name("x"));
                f(name, vec![])
            } else {
                let args = (0..*n)
                    .map(|i| match make {
                        3 => TArg::Ty(Ty::Prim(0, 0).into()),
                        4 => TArg::Ty(class(&format!("c{i}")).into()),
                        _ => TArg::Int(i as u64, i % 2 == 1),
                    })
                    .collect();
                let name = vec![Ident { kind: IdKind::Name("x".into()), targs: Some(args) }];
                f(name, vec![])
            };
            for back in [Back::Always, Back::Never] {
                cx.trace(&sym, &mut Ch::new(vec![]), back, false, DEF, "a long name");
            }
        }
    });
    numbered_scopes(r, &numbers(r.q(300, 3000) as u64));
    crate::wide::scopes(r);
    crate::wide::lists(r, "scopes", crate::wide::SCOPES);
    // templates in templates
    let lens: Vec<usize> = (1..=40).collect();
    r.items("templates in templates", "1 to 40 deep", &lens, |cx, n| {
        for make in 0..3 {
            let mut t = class("c");
            for i in 0..*n {
                let name = ["n".to_string(), format!("n{i}"), format!("n{}", i % 2)][make].clone();
                let targs = Some(vec![TArg::Ty(t.into())]);
                t = Ty::Tag(Tag::Class, vec![Ident { kind: IdKind::Name(name.as_str().into()), targs }], 0);
            }
            cx.trace(&v("x", t), &mut Ch::new(vec![]), Back::Always, false, DEF, "nested templates");
        }
    });
    crate::wide::scope_words(r, 5, 6, |p| !p.starts_with("??_") && !p.starts_with('.'));
    crate::wide::scope_kinds(r, false);
    crate::wide::graft_names(r, 4, 5, |_| true, &[0]);
    crate::wide::graft_symbols(r, |p| p.contains("@?"), &[0]);
    crate::wide::graft_twice(r, false, |p| p.contains("@?"), &[0]);
}

// ---------- C05: back references ----------

pub fn c05(r: &mut Run) {
    const N: [&str; 13] = ["n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "na", "nb", "nc"];
    r.full("the memory of names", |cx, ch| {
        // k names in a row, then three more of which any can be among them
        let k = ch.free(13);
        let mut scopes: Vec<Ident> = (0..k).map(|i| Ident::name(N[i])).collect();
        for _ in 0..3 {
            let c = ch.free(17);
            scopes.push(match c {
                0..=12 => Ident::name(N[c]),
                13 => Ident { kind: IdKind::Name("n0".into()), targs: Some(vec![TArg::Ty(class("n1").into())]) },
                14 => Ident::new(IdKind::Anon("0x1".into())),
                15 => Ident { kind: IdKind::Name("t".into()), targs: Some(vec![TArg::Ty(class("n1").into()), TArg::Ty(class("t").into())]) },
                _ => Ident::new(IdKind::Local(3, f(vec![Ident::name("n0"), Ident::name("n1")], vec![class("n9").into()]).into())),
            });
        }
        if matches!(scopes[0].kind, IdKind::Anon(_) | IdKind::Local(..)) {
            // scopes, but no names
            return;
        }
        scopes.reverse();
        let sym = f(scopes, vec![]);
        let back = [Back::Always, Back::Never][ch.free(2)];
        cx.trace(&sym, ch, back, false, DEF, "names and references to them");
    });
    r.full("the memory of parameters", |cx, ch| {
        let t = |i: usize| -> Rc<Ty> {
            match i {
                0 => Ty::Prim(0, 0),
                1 => Ty::Prim(3, 0), // two characters
                2 => Ty::Prim(1, 0),
                3 => class("c3"),
                4 => Ty::Ptr { aff: Aff::Ptr, q: 0, class: None, to: Ty::Prim(0, 0).into() },
                5 => Ty::Ptr { aff: Aff::Ptr, q: CONST, class: None, to: Ty::Prim(0, 0).into() },
                6 => Ty::Prim(22, 0),
                7 => class("c7"),
                8 => Ty::Ptr { aff: Aff::Ref, q: 0, class: None, to: class("c3").into() },
                _ => class(N[i - 3]),
            }
            .into()
        };
        let k = ch.free(13);
        let mut ps: Vec<Rc<Ty>> = (0..k).map(t).collect();
        for _ in 0..3 {
            ps.push(t(ch.free(16)));
        }
        let sym = f(vec![Ident::name("f")], ps);
        let back = [Back::Always, Back::Never][ch.free(2)];
        cx.trace(&sym, ch, back, false, DEF, "parameters and references to them");
    });
    let n = r.q(4, 5);
    r.full("who sees what", |cx, ch| {
        let a = || Ident::name("a");
        let b = || Ident::name("b");
        let tpl = |args: Vec<Ty>| Ident {
            kind: IdKind::Name("t".into()),
            targs: Some(args.into_iter().map(|t| TArg::Ty(t.into())).collect()),
        };
        let tag = |q: QName| Ty::Tag(Tag::Class, q, 0);
        let fp = |ps: Vec<Ty>| {
            let Sym::Func { sig, .. } = f(vec![a()], ps.into_iter().map(Rc::new).collect()) else { unreachable!() };
            Ty::Ptr { aff: Aff::Ptr, q: 0, class: None, to: Ty::Func(sig.into()).into() }
        };
        let t = |ch: &mut Ch| match ch.free(12) {
            0 => tag(vec![a()]),
            1 => tag(vec![b()]),
            2 => tag(vec![a(), b()]),
            3 => tag(vec![tpl(vec![tag(vec![a()])])]),
            4 => tag(vec![tpl(vec![tag(vec![b()]), tag(vec![a(), b()])])]),
            5 => fp(vec![tag(vec![a()])]),
            6 => fp(vec![tag(vec![b()]), tag(vec![b()])]),
            7 => tag(vec![tpl(vec![fp(vec![tag(vec![a()]), tag(vec![a()])]), fp(vec![tag(vec![a()])])])]),
            8 => tag(vec![tpl(vec![tag(vec![tpl(vec![tag(vec![a()])]), b()])])]),
            9 => Ty::Prim(0, 0),
            10 => tag(vec![
                Ident::new(IdKind::Local(2, f(vec![a(), b()], vec![tag(vec![b()]).into(), fp(vec![tag(vec![a()])]).into()]).into())),
                b(),
            ]),
            _ => tag(vec![Ident {
                kind: IdKind::Name("t".into()),
                targs: Some(vec![
                    TArg::PtrTo { sym: Some(f(vec![b(), a()], vec![tag(vec![b()]).into(), tag(vec![b()]).into()]).into()), offs: vec![], auto: None },
                    TArg::Ty(tag(vec![a()]).into()),
                ]),
            }]),
        };
        let head = match ch.free(4) {
            0 => vec![Ident::name("f")],
            1 => vec![a(), b(), Ident::name("f")],
            2 => vec![tpl(vec![tag(vec![b()])]), Ident::name("f")],
            _ => vec![a(), tpl(vec![tag(vec![a()]), tag(vec![b(), a()])])],
        };
        let ps = (0..1 + ch.free(n)).map(|_| t(ch).into()).collect();
        let back = [Back::Always, Back::Never][ch.free(2)];
        cx.trace(&f(head, ps), ch, back, false, DEF, "references across contexts");
    });
    crate::wide::near(r);
    crate::wide::many_names(r);
    crate::wide::lists(r, "names and parameters to refer to", crate::wide::REFERENCES);
    crate::wide::references_anywhere(r);
    crate::wide::references_after(r);
    crate::wide::references_deep(r);
    crate::wide::flag_twins(r, &[0, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0x100, 0x200, 0x3FF]);
    r.full("what a name leaves behind", |cx, ch| {
        // a name of each kind, then names that are remembered and referred to after it
        let cls = |n: &str| -> TArg { TArg::Ty(class(n).into()) };
        let targs = match ch.free(4) {
            0 => None,
            1 => Some(vec![]),
            2 => Some(vec![cls("a")]),
            _ => Some(vec![cls("c"), TArg::Int(1, false)]),
        };
        let scopes: QName = match ch.free(5) {
            0 => vec![],
            1 => vec![Ident::name("a")],
            2 => vec![Ident::name("b"), Ident::name("a")],
            3 => vec![Ident { kind: IdKind::Name("a".into()), targs: Some(vec![cls("b")]) }],
            _ => vec![Ident::new(IdKind::Anon("0x1".into()))],
        };
        let mut name = scopes;
        let kind = match ch.free(10) {
            0 => IdKind::Name("f".into()),
            1 => IdKind::Name("a".into()),
            2 => IdKind::Op(14),
            3 => IdKind::LitOp("a".into()),
            4 => IdKind::LitOp("_k".into()),
            5 => IdKind::Conv(Some(class("a").into())),
            k @ 6..=7 => {
                let Some(last) = name.last() else { return };
                IdKind::Structor { dtor: k == 7, class: Some(Rc::new(last.clone())) }
            }
            8 => IdKind::Op(0),
            _ => IdKind::Name("b".into()),
        };
        let conv = matches!(kind, IdKind::Conv(_));
        name.push(Ident { kind, targs });
        let sym = |name: QName, ps: Vec<Rc<Ty>>| {
            let mut s = f(name, ps);
            if let (true, Sym::Func { sig, .. }) = (conv, &mut s) {
                sig.ret = Some(class("a").into());
            }
            s
        };
        let t = |ch: &mut Ch| -> Rc<Ty> {
            Rc::new(class(["a", "b", "c", "f", "_k", "operator+", "operator="][ch.free(7)]))
        };
        let back = [Back::Always, Back::Never][ch.free(2)];
        let at = ch.free(6);
        let (t1, t2) = (t(ch), t(ch));
        let q1 = |t: &Rc<Ty>| TArg::Ty(t.clone());
        let s = match at {
            // by the parameters
            0 => sym(name, vec![t1, t2]),
            // by the arguments and parameters that follow it as an argument
            k @ 1..=4 => {
                let inner: Rc<Sym> = match k {
                    1 => sym(name, vec![]),
                    2 => sym(name, vec![t1.clone()]),
                    3 => sym(name, vec![t1.clone()]),
                    _ if conv => return,
                    _ => Sym::Var { sc: 3, name, ty: Some(t1.clone()) },
                }
                .into();
                let arg = match k {
                    3 => TArg::RefTo(inner),
                    _ => TArg::PtrTo { sym: Some(inner), offs: if k == 2 { vec![4] } else { vec![] }, auto: None },
                };
                let args = vec![q1(&t2), arg, q1(&t1), q1(&t2)];
                let id = Ident { kind: IdKind::Name("t".into()), targs: Some(args) };
                f(vec![Ident::name("a"), Ident::name("g")], vec![Ty::Tag(Tag::Class, vec![id], 0).into(), t1, t2])
            }
            // by what follows it as a local scope
            _ => {
                let inner = Rc::new(sym(name, vec![t1.clone()]));
                f(vec![Ident::name("b"), Ident::new(IdKind::Local(3, inner)), Ident::name("f")], vec![t2, t1])
            }
        };
        cx.trace(&s, ch, back, false, DEF, "references after a name");
    });
    let d = r.q(5, 6);
    r.sweep("references after names of any kind", d, |cx, ch| {
        let g = Gen { names: &["a", "b"], ..GEN };
        let sym = g.function(ch, 3);
        cx.trace(&sym, ch, Back::Choose, false, DEF, "references after a name");
    });
    let d = r.q(5, 6);
    r.sweep("spelling out any references", d, |cx, ch| {
        let g = Gen { names: &["a", "b"], params: 4, targs: 4, nontype: true, ..GEN };
        let sym = g.function_of(ch, 3, vec![Ident::name("a"), Ident::name("b")], FREE);
        cx.trace(&sym, ch, Back::Choose, false, DEF, "references, some spelled out");
    });
    // every digit in place of every other digit
    let cat = catalog(r.q(3, 4));
    r.items("every digit anywhere", "every digit of every catalogued name replaced by every other", &cat, |cx, (text, _)| {
        for (i, c) in text.char_indices() {
            if !c.is_ascii_digit() {
                continue;
            }
            for d in '0'..='9' {
                let s = format!("{}{d}{}", &text[..i], &text[i + 1..]);
                cx.st.transitions += 1;
                cx.seen(&s);
                cx.judge(&s, DEF, "a changed digit");
            }
        }
    });
    let ps = |p: &str| p.contains(['0', '1', '2', '3']);
    crate::wide::graft_types(r, 3, 4, ps, &[0]);
    crate::wide::graft_names(r, 4, 4, ps, &[0]);
    crate::wide::graft_symbols(r, ps, &[0]);
    crate::wide::graft_pairs(r, |_| true, &[0]);
    crate::wide::graft_twice(r, false, ps, &[0]);
}

/// Every symbol within `d` deviations of the simplest of its kind, with its spelling.
pub fn catalog(d: usize) -> Vec<(String, String)> {
    let out = std::sync::Mutex::new(std::collections::BTreeMap::new());
    let g = Global::new(None);
    explore(&g, d, |_, ch| {
        let sym = GEN.any(ch, 2);
        let (text, _) = mangle(&sym, ch, Back::Always, false);
        out.lock().unwrap().insert(text, print(&sym, 0));
    });
    let mut out = out.into_inner().unwrap();
    for s in extras() {
        let o = crate::parse::parse(&s);
        let Some(sym) = o.sym else { engine_error(&format!("{s} should be a name")) };
        out.insert(s, print(&sym, 0));
    }
    let mut v: Vec<_> = out.into_iter().collect();
    v.sort_by_key(|x| (x.0.len(), x.0.clone()));
    v
}

/// One name for each of what the generators take few of, or don't make.
fn extras() -> Vec<String> {
    use strings::{encode, Kind};
    let mut v = vec![];
    for kind in [Kind::Char, Kind::Wide, Kind::U16, Kind::U32] {
        for s in ["", "hi", "a\n\t\"\\", "\u{1}\u{7f}", "0123456789012345678901234567890123456789"] {
            v.push(encode(kind, &s.chars().map(|c| c as u32).collect::<Vec<_>>()));
        }
    }
    for (code, _) in &OPS[..NOPS] {
        v.push(format!("??{code}a@@QAEXXZ"));
    }
    for p in PRIMS {
        if p.0 != "X" {
            v.push(format!("?x@@3{}A", p.0));
        }
    }
    for (c, ..) in CCS {
        v.push(format!("?f@@Y{c}XXZ"));
    }
    for s in ["??$f@$E??_C@_02PCEFGMJL@hi?$AA@@@YAXXZ", "??$f@$1??_7a@@6B@@@YAXXZ", "??$f@$1??_9a@@$BA@AE@@YAXXZ", "??$f@$1??__Ea@@YAXXZ@@YAXXZ"] {
        v.push(s.into());
    }
    v
}

// ---------- C06: operators ----------

pub fn c06(r: &mut Run) {
    r.full("every operator", |cx, ch| {
        let o = ch.free(NOPS);
        let targs = match ch.free(3) {
            0 => None,
            1 => Some(vec![TArg::Ty(Ty::Prim(0, 0).into())]),
            _ => Some(vec![TArg::Ty(class("C").into()), TArg::Int(3, true)]),
        };
        let id = Ident { kind: IdKind::Op(o), targs };
        let mut name = vec![];
        for _ in 0..ch.free(3) {
            name.push(match ch.free(3) {
                0 => Ident::name("C"),
                1 => Ident { kind: IdKind::Name("T".into()), targs: Some(vec![TArg::Ty(Ty::Prim(0, 0).into())]) },
                _ => Ident::new(IdKind::Anon("0x1".into())),
            });
        }
        name.push(id);
        let sym = match ch.free(3) {
            0 => f(name, vec![class("C").into()]),
            1 => {
                let mut s = f(name, vec![class("C").into(), Ty::Prim(0, 0).into()]);
                if let Sym::Func { sig, .. } = &mut s {
                    sig.class = Class { access: Access::Public, is_virtual: true, ..FREE };
                    sig.cc = Some(1);
                }
                s
            }
            _ => Sym::Var { sc: 0, name, ty: Some(Ty::Prim(0, 0).into()) },
        };
        // the model can't tell an operator's template from a pointer's
        cx.trace(&sym, ch, Back::Always, false, DEF, "an operator");
    });
    // every code there is
    let mut codes = vec![];
    for g in ["", "_", "__"] {
        for c in ('!'..='~').chain(['é', '\u{0}', '\u{7f}']) {
            codes.push(format!("{g}{c}"));
        }
    }
    r.items("every operator code", "every code, of either length", &codes, |cx, code| {
        for tail in ["@YAXXZ", "C@@QAEXXZ", "C@@QAEHXZ", "C@@QAE@XZ", "x@@QAEHXZ", "C@N@@2HA", "", "@", "@3HA", "$0A@@YAXXZ", "x@@YAXXZ"] {
            for head in ["??", "??$?"] {
                let s = format!("{head}{code}{tail}");
                cx.st.transitions += 1;
                cx.seen(&s);
                cx.judge(&s, DEF, "an operator code");
            }
        }
    });
    let blocks: Vec<u32> = (0..0x110).collect();
    r.items("every character as an operator code", "every character there is, in every place a code has one, in names that are complete with an operator in them", &blocks, |cx, b| {
        for c in (b << 12..(b + 1) << 12).filter_map(char::from_u32) {
            if cx.stopped() {
                return;
            }
            for s in [
                format!("??{c}a@@QAEXXZ"),
                format!("??_{c}a@@QAEXXZ"),
                format!("??__{c}a@@QAEXXZ"),
                format!("??{c}@YAXXZ"),
                format!("??_{c}@YAXXZ"),
                format!("??__{c}@YAXXZ"),
                format!("??{c}a@@QAEHXZ"),
                format!("??{c}a@@QAE@XZ"),
                format!("??$?{c}H@@YAXXZ"),
                format!("??$?_{c}H@@YAXXZ"),
                format!("??$?__{c}H@@YAXXZ"),
                format!("??{c}_a@@QAEXXZ"),
                format!("??_{c}_a@@6B@"),
                format!("??_R{c}a@@8"),
                format!("??__{c}a@@YAXXZ"),
            ] {
                cx.st.transitions += 1;
                cx.judge(&s, DEF, "any character as an operator code");
            }
        }
        cx.sample(|| format!("??_{}a@@QAEXXZ", char::from_u32(b << 12).unwrap_or('?')));
        cx.seen(&format!("??_{b}"));
    });
    crate::wide::structors(r);
    let d = r.q(5, 6);
    r.sweep("structors", d, |cx, ch| {
        let dtor = ch.flag();
        let name = GEN.structor(ch, 2, dtor);
        let sym = GEN.function_named(ch, 1, name);
        cx.trace(&sym, ch, Back::Choose, true, DEF, "a structor");
    });
    let g = Gen { prims: PRIMS.len(), ..GEN };
    let dc = r.q(4, 5);
    r.sweep("conversions", dc, |cx, ch| {
        let targs = ch.flag().then(|| g.targs(ch, 1));
        let mut name = vec![Ident { kind: IdKind::Conv(None), targs }];
        for _ in 0..ch.pick(3) {
            name.insert(0, g.type_ident(ch, 1));
        }
        let mut class = Class { access: Access::Public, ..FREE };
        if ch.flag() {
            class = g.class(ch);
            class.no_params = false;
        }
        let ret: Rc<Ty> = g.ty(ch, 3, RET).into();
        let Sym::Func { mut sig, mut name, .. } = g.function_of(ch, 1, name, class) else { return };
        sig.ret = Some(ret.clone());
        if let Some(n) = &mut name {
            let k = n.len();
            n[k - 1].kind = IdKind::Conv(Some(ret));
        }
        let sym = Sym::Func { name, sig, thunk: None };
        cx.trace(&sym, ch, Back::Choose, true, DEF, "a conversion");
    });
    r.sweep("literal operators", d, |cx, ch| {
        let targs = ch.flag().then(|| GEN.targs(ch, 1));
        let lit = ch.of(&["_k", "_", "km", "_long_suffix"]);
        let mut name = vec![Ident { kind: IdKind::LitOp(lit.into()), targs }];
        for _ in 0..ch.pick(3) {
            name.insert(0, GEN.type_ident(ch, 1));
        }
        let sym = GEN.function_of(ch, 2, name, FREE);
        cx.trace(&sym, ch, Back::Choose, true, DEF, "a literal operator");
    });
    let ps = |p: &str| p.starts_with("??") && !p.starts_with("??$f") && !p.starts_with("??_7") && !p.starts_with("??_R");
    crate::wide::graft_types(r, 4, 4, ps, &[0]);
    crate::wide::graft_names(r, 4, 5, ps, &[0]);
    crate::wide::graft_symbols(r, ps, &[0]);
    crate::wide::graft_pairs(r, ps, &[0]);
}

// ---------- C07: compiler-generated symbols ----------

pub fn c07(r: &mut Run) {
    let d = r.q(5, 6);
    r.sweep("compiler-generated symbols", d, |cx, ch| {
        let g = Gen { names: &["a", "b"], ccs: 10, ..GEN };
        let sym = g.special(ch, 2, true);
        cx.trace(&sym, ch, Back::Choose, true, DEF, "a compiler-generated symbol");
    });
    let g = Gen { prims: PRIMS.len(), ccs: 10, ..GEN };
    let d = r.q(5, 6);
    r.sweep("names of types", d, |cx, ch| {
        let t = g.ty(ch, 3, RTTI).into();
        let sym = if ch.free(2) == 0 { Sym::TypeName(t) } else { Sym::TypeDesc(t) };
        cx.trace(&sym, ch, Back::Choose, true, DEF, "the name of a type");
    });
    r.texts(
        "around the intrinsic codes",
        &Texts {
            roots: &["??_", "??__", "??_7a@@", "??_R4a@@", "??_R2a@@", "??_R1", "??_9a@@", "??_B?1??f@@YAXXZ@", "??__J?1??f@@YAXXZ@", "??__Ex@@", "??__E?x@@3H", "??__F", "??@", "??_R0", ".", "??_R0H@", "??_C"],
            alphabet: &['@', 'A', 'B', '0', '1', '5', '6', '7', '8', '9', '?', '$', 'H', 'R', '_', 'x', 'E', 'F', 'I', 'J', 'S', 'P', '4'],
            depth: r.q(4, 5),
            closers: &["@", "A@", "8", "@8", "@@6B@", "@@YAXXZ", "$BA@AA", "4IA", "51", "H@8", "YAXXZ"],
            flags: DEF,
            note: "next to a compiler-generated symbol",
        },
    );
    let all = specials(r.q(3, 3));
    let ends: Vec<char> = "?@$_.0189AEBHPQRX4xZ é".chars().collect();
    r.items("what follows, and what is missing", "every compiler-generated symbol cut short anywhere, or followed by up to two characters", &all, |cx, text| {
        cx.sample(|| text.clone());
        for (n, _) in text.char_indices() {
            cx.st.transitions += 1;
            cx.seen(&text[..n]);
            cx.judge(&text[..n], DEF, "a part of a compiler-generated symbol");
        }
        let mut s = text.clone();
        for a in &ends {
            s.push(*a);
            cx.st.transitions += 1;
            cx.seen(&s);
            cx.judge(&s, DEF, "a compiler-generated symbol followed by something");
            for b in &ends {
                let m = s.len();
                s.push(*b);
                cx.st.transitions += 1;
                cx.st.distinct += 1;
                cx.judge(&s, DEF, "a compiler-generated symbol followed by something");
                s.truncate(m);
            }
            s.truncate(text.len());
        }
        for tail in ["??_R4@", "??_R4@@", "@@YAXXZ", "@@3HA", "@6B@"] {
            let s = format!("{text}{tail}");
            cx.st.transitions += 1;
            cx.seen(&s);
            cx.judge(&s, &[0, 0x200], "a compiler-generated symbol followed by something");
        }
    });
    let ps = |p: &str| p.starts_with("??_") || p.starts_with('.');
    crate::wide::graft_types(r, 4, 4, ps, &[0]);
    crate::wide::scope_words(r, 5, 6, ps);
    crate::wide::scope_kinds(r, true);
    crate::wide::graft_names(r, 4, 5, ps, &[0]);
    crate::wide::graft_symbols(r, ps, &[0]);
    crate::wide::graft_pairs(r, ps, &[0]);
}

/// Every compiler-generated symbol within `d` deviations of the simplest of its kind.
fn specials(d: usize) -> Vec<String> {
    let out = std::sync::Mutex::new(std::collections::BTreeSet::new());
    let g = Global::new(None);
    explore(&g, d, |_, ch| {
        let sym = Gen { names: &["a", "b"], ..GEN }.special(ch, 2, true);
        out.lock().unwrap().insert(mangle(&sym, ch, Back::Always, false).0);
    });
    // locators of names that are longer than that
    let mut v = out.into_inner().unwrap();
    for md5 in ["a96c4c5b3e4e0c1b6c5a8e0d1f2b3c4d", "00000000000000000000000000000000", "9"] {
        v.insert(format!("??@{md5}@"));
        v.insert(format!("??@{md5}@??_R4@"));
    }
    v.into_iter().collect()
}

// ---------- C08: template arguments ----------

pub fn c08(r: &mut Run) {
    let d = r.q(5, 6);
    r.sweep("template arguments", d, |cx, ch| {
        let g = Gen { names: &["a", "b"], ..GEN };
        let args = g.targs(ch, 3);
        let id = Ident { kind: IdKind::Name("t".into()), targs: Some(args) };
        let sym = if ch.free(2) == 0 { f(vec![id], vec![]) } else { v("x", Ty::Tag(Tag::Class, vec![id], 0)) };
        cx.trace(&sym, ch, Back::Choose, true, DEF, "template arguments");
    });
    let n = r.q(4, 5);
    r.full("sequences of template arguments", |cx, ch| {
        let args: Vec<TArg> = (0..ch.free(n + 1)).map(|_| {
            let var = |n: &str| Rc::new(v(n, Ty::Prim(0, 0)));
            let fun = |n: &str| Rc::new(f(vec![Ident::name("a"), Ident::name(n)], vec![class("a").into()]));
            match ch.free(21) {
                0 => TArg::Ty(Ty::Prim(0, 0).into()),
                1 => TArg::Ty(class("a").into()),
                2 => TArg::Int(0, false),
                3 => TArg::Int(11, true),
                4 => TArg::PtrTo { sym: Some(var("a")), offs: vec![], auto: None },
                5 => TArg::PtrTo { sym: Some(fun("b")), offs: vec![], auto: None },
                6 => TArg::RefTo(var("a")),
                7 => TArg::PtrTo { sym: Some(fun("c")), offs: vec![4], auto: None },
                8 => TArg::PtrTo { sym: Some(fun("c")), offs: vec![4, -8], auto: None },
                9 => TArg::PtrTo { sym: Some(fun("c")), offs: vec![4, -8, 0], auto: None },
                10 => TArg::PtrTo { sym: None, offs: vec![4, -8], auto: None },
                11 => TArg::DataMember { offs: vec![4, -1], auto: None },
                12 => TArg::DataMember { offs: vec![4, -1, 8], auto: None },
                13 => TArg::Pack("$S"),
                14 => TArg::Pack("$$V"),
                15 => TArg::Pack("$$$V"),
                16 => TArg::Pack("$$Z"),
                17 => TArg::Alias(vec![Ident::name("a"), Ident::name("b")]),
                18 => TArg::ArrTy(Ty::Arr { dims: vec![3], q: 0, elem: Ty::Prim(0, 0).into() }.into()),
                19 => TArg::CvTy(Ty::Prim(0, CONST).into()),
                _ => TArg::AutoInt(Ty::Prim(0, 0).into(), 7, false),
            }
        }).collect();
        let id = Ident { kind: IdKind::Name("t".into()), targs: Some(args) };
        let sym = if ch.free(2) == 0 { f(vec![id], vec![]) } else { v("x", Ty::Tag(Tag::Class, vec![id], 0)) };
        let back = [Back::Always, Back::Never][ch.free(2)];
        cx.trace(&sym, ch, back, false, DEF, "template arguments");
    });
    crate::wide::arguments(r);
    crate::wide::many_arguments(r);
    crate::wide::deduced(r);
    let values = numbers(r.q(300, 3000) as u64);
    r.items("numbers in template arguments", "each of these numbers, of either sign, in every way to write it, everywhere a template argument has one", &values, |cx, v| {
        for neg in [false, true] {
            for n in spellings(*v, neg) {
                for args in [
                    format!("$0{n}"),
                    format!("$MH0{n}"),
                    format!("$M_J0{n}"),
                    format!("$MW4e@@0{n}"),
                    format!("$MPAH0{n}"),
                    format!("$F{n}{n}"),
                    format!("$FA@{n}"),
                    format!("$G{n}01"),
                    format!("$G0{n}{n}"),
                    format!("$MPQC@@HF{n}A@"),
                    format!("$MPQC@@HG{n}{n}{n}"),
                    format!("$H?g@@YAXXZ{n}"),
                    format!("$I?g@@YAXXZ{n}{n}"),
                    format!("$J?g@@YAXXZ{n}0{n}"),
                    format!("$J0{n}1"),
                    format!("$MP8C@@AEXXZH?g@C@@QAEXXZ{n}"),
                    format!("$MP8C@@AEXXZI?g@C@@QAEXXZ0{n}"),
                    format!("$MP8C@@AEXXZJ?g@C@@QAEXXZ{n}{n}{n}"),
                    format!("$$BY0{n}H"),
                    format!("$0{n}H$0{n}"),
                    format!("?$u@$0{n}@n@@"),
                ] {
                    let s = format!("??$t@{args}@@YAXXZ");
                    cx.st.transitions += 1;
                    cx.seen(&s);
                    cx.judge(&s, DEF, "a number in a template argument");
                }
            }
        }
    });
    r.texts(
        "around template arguments",
        &Texts {
            roots: &["??$t@$", "??$t@$$", "??$t@$M", "??$t@$MH", "??$t@$1?a@@3HA", "??$t@$H?a@@3HA", "??$t@$J", "??$t@$F", "??$t@$G0", "??$t@$0", "??$t@$E", "??$t@$$C", "??$t@$$Y", "??$t@$$B"],
            alphabet: &['@', '0', '1', '9', 'A', 'B', 'C', 'E', 'F', 'G', 'H', 'I', 'J', 'M', 'P', 'Q', 'S', 'V', 'Y', 'Z', '$', '?', 'a', '_'],
            depth: r.q(4, 5),
            closers: &["@@YAXXZ", "H@@YAXXZ", "0@@YAXXZ", "@@3HA", "?a@@3HA@@YAXXZ"],
            flags: DEF,
            note: "next to a template argument",
        },
    );
    let ps = |p: &str| p.contains("?$") || p.contains("$1") || p.contains("$E");
    crate::wide::graft_types(r, 4, 4, ps, &[0]);
    crate::wide::graft_names(r, 4, 4, ps, &[0]);
    crate::wide::graft_symbols(r, ps, &[0]);
    crate::wide::graft_pairs(r, ps, &[0]);
    crate::wide::graft_twice(r, false, ps, &[0]);
}

// ---------- C09: numbers ----------

/// A place a number can be in: what's before it, what's after it, what it reads as.
struct Place {
    head: &'static str,
    tail: &'static str,
    /// None: must be refused
    text: fn(u64, bool) -> Option<String>,
}

fn sgn(v: u64, neg: bool) -> Option<i64> {
    let v = i64::try_from(v).ok()?;
    Some(if neg { -v } else { v })
}

const PLACES: &[Place] = &[
    Place { head: "?x@@3PAY0", tail: "HA", text: |v, n| (!n).then(|| if v == 0 { "int (*x)[]".into() } else { format!("int (*x)[{v}]") }) },
    Place { head: "??$f@$0", tail: "@@YAXXZ", text: |v, n| Some(format!("void __cdecl f<{}{v}>(void)", if n { "-" } else { "" })) },
    Place { head: "??$f@$MH0", tail: "@@YAXXZ", text: |v, n| Some(format!("void __cdecl f<{}{v}>(void)", if n { "-" } else { "" })) },
    Place { head: "??$f@$F0", tail: "@@YAXXZ", text: |v, n| sgn(v, n).map(|v| format!("void __cdecl f<{{1, {v}}}>(void)")) },
    Place { head: "??$f@$F", tail: "0@@YAXXZ", text: |v, n| sgn(v, n).map(|v| format!("void __cdecl f<{{{v}, 1}}>(void)")) },
    Place { head: "??$f@$G01", tail: "@@YAXXZ", text: |v, n| sgn(v, n).map(|v| format!("void __cdecl f<{{1, 2, {v}}}>(void)")) },
    Place { head: "??$f@$H?g@@YAXXZ", tail: "@@YAXXZ", text: |v, n| sgn(v, n).map(|v| format!("void __cdecl f<{{void __cdecl g(void), {v}}}>(void)")) },
    Place { head: "??$f@$I?g@@YAXXZ0", tail: "@@YAXXZ", text: |v, n| sgn(v, n).map(|v| format!("void __cdecl f<{{void __cdecl g(void), 1, {v}}}>(void)")) },
    Place { head: "??$f@$J?g@@YAXXZ01", tail: "@@YAXXZ", text: |v, n| sgn(v, n).map(|v| format!("void __cdecl f<{{void __cdecl g(void), 1, 2, {v}}}>(void)")) },
    Place { head: "??_9C@@$B", tail: "AA", text: |v, n| (!n).then(|| format!("[thunk]: __cdecl C::`vcall'{{{v}, {{flat}}}}")) },
    Place { head: "??_R1", tail: "012C@@8", text: |v, n| (!n && v <= u32::MAX.into()).then(|| format!("C::`RTTI Base Class Descriptor at ({v}, 1, 2, 3)'")) },
    Place { head: "??_R10", tail: "12C@@8", text: |v, n| sgn(v, n).filter(|v| i32::try_from(*v).is_ok()).map(|v| format!("C::`RTTI Base Class Descriptor at (1, {v}, 2, 3)'")) },
    Place { head: "??_R101", tail: "2C@@8", text: |v, n| (!n && v <= u32::MAX.into()).then(|| format!("C::`RTTI Base Class Descriptor at (1, 2, {v}, 3)'")) },
    Place { head: "??_R1012", tail: "C@@8", text: |v, n| (!n && v <= u32::MAX.into()).then(|| format!("C::`RTTI Base Class Descriptor at (1, 2, 3, {v})'")) },
    Place { head: "??_B?1??f@@YAXXZ@5", tail: "", text: |v, n| (!n && v <= u32::MAX.into()).then(|| if v == 0 { "`void __cdecl f(void)'::`2'::`local static guard'".into() } else { format!("`void __cdecl f(void)'::`2'::`local static guard'{{{v}}}") }) },
];

/// offsets in thunks are 32 bits wide; (head, tail, text, signed)
type Offset = (&'static str, &'static str, fn(i64) -> String, bool);
const OFFSETS: &[Offset] = &[
    ("?f@C@@W", "AEXXZ", |v| format!("[thunk]: public: virtual void __thiscall C::f`adjustor{{{v}}}'(void)"), false),
    ("?f@C@@O", "AEXXZ", |v| format!("[thunk]: protected: virtual void __thiscall C::f`adjustor{{{v}}}'(void)"), false),
    ("?f@C@@$4", "0AEXXZ", |v| format!("[thunk]: public: virtual void __thiscall C::f`vtordisp{{{v}, 1}}'(void)"), true),
    ("?f@C@@$40", "AEXXZ", |v| format!("[thunk]: public: virtual void __thiscall C::f`vtordisp{{1, {v}}}'(void)"), false),
    ("?f@C@@$R4", "012AEXXZ", |v| format!("[thunk]: public: virtual void __thiscall C::f`vtordispex{{{v}, 1, 2, 3}}'(void)"), true),
    ("?f@C@@$R40", "12AEXXZ", |v| format!("[thunk]: public: virtual void __thiscall C::f`vtordispex{{1, {v}, 2, 3}}'(void)"), true),
    ("?f@C@@$R401", "2AEXXZ", |v| format!("[thunk]: public: virtual void __thiscall C::f`vtordispex{{1, 2, {v}, 3}}'(void)"), true),
    ("?f@C@@$R4012", "AEXXZ", |v| format!("[thunk]: public: virtual void __thiscall C::f`vtordispex{{1, 2, 3, {v}}}'(void)"), false),
];

/// Scopes told apart by a number, of any size, wherever a scope can be.
fn numbered_scopes(r: &mut Run, nums: &[u64]) {
    r.items("numbered scopes", "each of these numbers as the discriminator of a local scope, of its own or of one further out, of variables, functions, and types", nums, |cx, v| {
        let n = if *v == 0 { "@".to_string() } else { number(*v, false) };
        for (text, what) in [
            (format!("?x@?{n}??f@@YAXXZ@3HA"), format!("int `void __cdecl f(void)'::`{v}'::x")),
            (format!("?x@C@?{n}??f@@YAXXZ@3HA"), format!("int `void __cdecl f(void)'::`{v}'::C::x")),
            (format!("?g@C@?{n}??f@@YAXXZ@QAEXXZ"), format!("public: void __thiscall `void __cdecl f(void)'::`{v}'::C::g(void)")),
            (format!("?g@@YAXVC@?{n}??f@@YAXXZ@@Z"), format!("void __cdecl g(class `void __cdecl f(void)'::`{v}'::C)")),
            (format!("?x@?{n}??f@?1??g@@YAXXZ@YAXXZ@3HA"), format!("int `void __cdecl `void __cdecl g(void)'::`2'::f(void)'::`{v}'::x")),
            (format!("?x@?1??f@?{n}??g@@YAXXZ@YAXXZ@3HA"), format!("int `void __cdecl `void __cdecl g(void)'::`{v}'::f(void)'::`2'::x")),
            (format!("??$t@VC@?{n}??f@@YAXXZ@@@YAXXZ"), format!("void __cdecl t<class `void __cdecl f(void)'::`{v}'::C>(void)")),
        ] {
            cx.st.transitions += 1;
            cx.seen(&text);
            cx.expect_text(&text, 0, &what, "a numbered scope");
        }
    });
}

fn numbers(limit: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (0..limit).collect();
    for k in 0..64 {
        for d in -3i64..=3 {
            v.push((1u64 << k).wrapping_add(d as u64));
        }
    }
    // every digit in every place
    for k in 0..16 {
        for n in 1..16u64 {
            v.push(n << (4 * k));
            v.push(u64::MAX ^ (n << (4 * k)));
            v.push(u64::MAX >> (4 * k));
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn spellings(v: u64, neg: bool) -> Vec<String> {
    let s = if neg { "?" } else { "" };
    let mut out = vec![number(v, neg)];
    let hex: String = format!("{v:X}").chars().map(|c| (b'A' + c.to_digit(16).unwrap() as u8) as char).collect();
    out.push(format!("{s}{hex}@"));
    out.push(format!("{s}A{hex}@"));
    out.push(format!("{s}AAAAAAAA{hex}@"));
    if v == 0 {
        out.push(format!("{s}@"));
    }
    out
}

pub fn c09(r: &mut Run) {
    let limit = match r.tier {
        Tier::Quick => 5000,
        Tier::Thorough => 70_000,
    };
    let nums = numbers(limit);
    r.items("numbers everywhere", "every number below the limit, and every one near a power of two or made of one odd digit, spelled in four ways, in every place a number can be in", &nums, |cx, v| {
        for neg in [false, true] {
            for s in spellings(*v, neg) {
                for p in PLACES {
                    let text = format!("{}{s}{}", p.head, p.tail);
                    cx.st.transitions += 1;
                    cx.seen(&text);
                    cx.sample(|| text.clone());
                    match (p.text)(*v, neg) {
                        Some(want) => cx.expect_text(&text, 0, &want, "a number"),
                        None => cx.expect_refusal(&text, 0, "a number out of range"),
                    }
                }
                for (head, tail, want, signed) in OFFSETS {
                    let text = format!("{head}{s}{tail}");
                    cx.st.transitions += 1;
                    cx.seen(&text);
                    // 32 bits wide, of which the negative ones can come as their complement
                    match sgn(*v, neg) {
                        Some(n) if *signed => cx.expect_text(&text, 0, &want((n as i32).into()), "an offset"),
                        Some(n) => cx.expect_text(&text, 0, &want((n as u32).into()), "an offset"),
                        None => cx.expect_refusal(&text, 0, "an offset out of range"),
                    }
                }
            }
        }
    });
    numbered_scopes(r, &nums);
    r.texts(
        "every spelling of a number",
        &Texts {
            roots: &["?x@@3PAY", "?x@@3PAY0", "??$f@$0", "??$f@$F", "??_R1", "?f@C@@W", "?f@C@@$4", "??_9C@@$B", "?x@?", "??_B?1??f@@YAXXZ@5", "??_C@_0"],
            alphabet: &['0', '1', '9', 'A', 'B', 'J', 'K', 'O', 'P', 'Q', '@', '?', 'a', '$'],
            depth: r.q(5, 6),
            closers: &["@HA", "HA", "@@@YAXXZ", "@@YAXXZ", "0@@YAXXZ", "@AEXXZ", "0AEXXZ", "AA", "?f@@YAXXZ@3HA", "012C@@8", "@"],
            flags: DEF,
            note: "a number, or nearly one",
        },
    );
}

// ---------- C10: string literals ----------

pub fn c10(r: &mut Run) {
    use strings::Kind;
    const KINDS: [Kind; 4] = [Kind::Char, Kind::Wide, Kind::U16, Kind::U32];
    let check = |cx: &mut Cx, kind: Kind, units: &[u32]| {
        let text = strings::encode(kind, units);
        let want = strings::text(kind, units);
        cx.st.transitions += units.len() as u64 + 1;
        cx.seen(&text);
        cx.sample(|| format!("{text} => {want}"));
        let read = crate::parse::parse(&text).sym.map(|s| print(&s, 0));
        if read.as_ref() != Some(&want) {
            engine_error(&format!("the model disagrees with itself on {text}: {read:?} / {want:?}"));
        }
        cx.expect_text(&text, 0, &want, "a string literal");
    };
    // whatever stands where the checksum does, however long
    let lens: Vec<usize> = (0..=r.q(300, 3000)).collect();
    r.items("checksums", "every length of the checksum, of eight makes, in literals of all four kinds", &lens, |cx, n| {
        for make in ["A", "p", "0", "?", "$AB", "é", "_", "ABCDEFGHIJKLMNOP"] {
            let crc: String = make.chars().cycle().take(*n).collect();
            for (kind, units) in [(Kind::Char, &b"hi"[..]), (Kind::Wide, b"hi"), (Kind::U16, b"hi"), (Kind::U32, b"h"), (Kind::Char, b""), (Kind::Wide, b"")] {
                let units: Vec<u32> = units.iter().map(|x| *x as u32).collect();
                let text = strings::encode(kind, &units);
                assert!(text.contains("EKCDPFCA@"));
                let s = text.replacen("EKCDPFCA@", &format!("{crc}@"), 1);
                cx.st.transitions += 1;
                cx.seen(&s);
                cx.judge(&s, DEF, "a string literal with another checksum");
            }
        }
    });
    // every length, with a different character at every position
    let lens: Vec<usize> = (0..=r.q(3000, 8000)).collect();
    r.items("literals by length", "every length, of all four kinds", &lens, |cx, n| {
        for kind in KINDS {
            for make in 0..4 {
                let units: Vec<u32> = (0..*n)
                    .map(|i| match make {
                        0 => 'a' as u32,
                        1 => 0x20 + (i as u32 * 7) % 95,
                        2 => [10, 34, 92, 39, 9, 13][i % 6],
                        _ => b",/\\:. \n\t'-"[i % 10] as u32,
                    })
                    .collect();
                check(cx, kind, &units);
            }
        }
    });
    // every unit at every position
    let units: Vec<u32> = (1..0x100).collect();
    r.items("every byte at every position", "every byte, at every position of literals of 1 to 8, and around 32, characters", &units, |cx, u| {
        for kind in KINDS {
            for n in (1..=8).chain(30..=33) {
                for at in 0..n {
                    let mut s = vec!['x' as u32; n];
                    s[at] = *u;
                    check(cx, kind, &s);
                }
            }
        }
    });
    let units: Vec<u32> = (1..0x1_0000).collect();
    r.items("every wide character", "every 16-bit code unit in a wide literal", &units, |cx, u| {
        check(cx, Kind::Wide, &[*u]);
        check(cx, Kind::Wide, &['x' as u32, *u, 'y' as u32]);
        if u >> 8 != 0 && u & 0xFF != 0 || *u < 0x100 {
            check(cx, Kind::U16, &[*u]);
        }
        let c = *u << 4 | 0x1_0001;
        if c < 0x11_0000 {
            check(cx, Kind::U32, &[c, *u]);
        }
    });
    // how the width is guessed, for any length and any arrangement of zeros
    let n = r.q(9, 11);
    r.full("any arrangement of zeros", |cx, ch| {
        let k = ch.free(n + 1);
        let len = [0u64, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 31, 32, 33, 34, 36, 40][ch.free(17)];
        let wide = ch.free(2) == 1;
        let mut s = format!("??_C@_{}{}x@", wide as u8, number(len, false));
        for _ in 0..k {
            s += ["a", "?$AA", "?$BB"][ch.free(3)];
        }
        s += "@";
        cx.seen(&s);
        cx.judge(&s, DEF, "a string literal");
    });
    let blocks: Vec<(usize, usize)> = (0..=130).flat_map(|n| (0..=n.min(130)).map(move |z| (n, z))).collect();
    r.items("any share of zeros", "literals of 0 to 130 bytes of which any number are zero, at either end or spread", &blocks, |cx, (n, z)| {
        for make in 0..3 {
            let mut bytes = vec![b'x'; *n];
            match make {
                0 => bytes[..*z].fill(0),
                1 => bytes[n - z..].fill(0),
                _ => {
                    for i in 0..*z {
                        // spread evenly, starting from the second
                        bytes[(i * n / z + 1) % n] = 0;
                    }
                }
            }
            for extra in [0u64, 1, 2, 4] {
                let mut s = format!("??_C@_0{}x@", number(*n as u64 + extra, false));
                for b in &bytes {
                    strings::byte(*b, &mut s);
                }
                s += "@";
                cx.st.transitions += 1;
                cx.seen(&s);
                cx.judge(&s, DEF, "a string literal");
            }
        }
    });
    r.texts(
        "every spelling of a character",
        &Texts {
            roots: &["??_C@_02x@", "??_C@_01x@a", "??_C@_13x@", "??_C@_15x@?$AAa", "??_C@_", "??_C@_0BI@", "??_C@_03x@ab"],
            alphabet: &['?', '$', 'A', 'B', 'P', 'Q', 'Z', 'a', 'z', '0', '1', '9', '@', '_', ' ', 'é', '\u{ff}', '\u{100}'],
            depth: r.q(5, 6),
            closers: &["@", "?$AA@", "a@", "?$AA?$AA@"],
            flags: DEF,
            note: "a string literal, or nearly one",
        },
    );
}

// ---------- C11: flags ----------

pub fn c11(r: &mut Run) {
    let all: Vec<u16> = (0..1024).collect();
    let all = &all[..];
    let d = r.q(3, 4);
    let small = Gen { prims: 3, ccs: 2, names: &["a", "b_"], scopes: 2, params: 2, targs: 2, ops: 2, nums: &[1, 16], nontype: true, locals: true };
    let g = &small;
    r.sweep("any symbol, under every set of flags", d, |cx, ch| {
        let sym = g.any(ch, 2);
        cx.trace(&sym, ch, Back::Always, false, all, "a symbol under some flags");
    });
    // every bit on its own and with every other, on everything a bit deeper
    let mut pairs: Vec<u16> = vec![0, 0x3FF];
    for a in 0..10 {
        pairs.push(1 << a);
        pairs.push(0x3FF ^ (1 << a));
        for b in 0..a {
            pairs.push(1 << a | 1 << b);
        }
    }
    let d = r.q(4, 5);
    r.sweep("any symbol, under every one and two flags, and all but one", d, |cx, ch| {
        let sym = g.any(ch, 2);
        cx.trace(&sym, ch, Back::Always, false, &pairs, "a symbol under some flags");
    });
    let types = Gen { ccs: 10, prims: 3, ..GEN };
    let few: Vec<u16> = (0..10).map(|a| 1 << a).chain((0..10).map(|a| 0x3FF ^ (1 << a))).collect();
    let d = r.q(5, 6);
    r.sweep("types of variables, under every one flag, and all but one", d, |cx, ch| {
        let sym = types.variable_named(ch, 3, vec![Ident::name("x")]);
        cx.trace(&sym, ch, Back::Always, false, &few, "a variable under some flags");
    });
    let d = r.q(4, 5);
    r.sweep("functions, under every one flag, and all but one", d, |cx, ch| {
        let sym = types.function(ch, 3);
        cx.trace(&sym, ch, Back::Always, false, &few, "a function under some flags");
    });
    r.sweep("compiler-generated symbols, under every one flag, and all but one", d, |cx, ch| {
        let sym = types.special(ch, 2, true);
        cx.trace(&sym, ch, Back::Always, false, &few, "a compiler-generated symbol under some flags");
    });
    let few: Vec<u16> = (0..10).map(|a| 1 << a).chain([0x1FF, 0x3FF, 0x180, 0x101]).collect();
    r.texts(
        "whether it's accepted at all",
        &Texts {
            roots: &["?x@@3", "?f@C@@Q", "?f@@YAX", "??$f@", "?x@C@@", "?f@@YAXV?$t@Va@@@@"],
            alphabet: &['@', 'A', 'B', 'E', 'H', 'I', 'P', 'Q', 'V', 'X', 'Y', 'Z', '0', '1', '6', '8', '_', '$', '?'],
            depth: r.q(4, 5),
            closers: &["XZ", "@Z", "HA", "@@XXZ", "@@YAXXZ", "AEXXZ"],
            flags: &few,
            note: "a text under some flags",
        },
    );
    // what there's only a little of above
    let more = extras();
    r.items("everything else, under every set of flags", "string literals, every operator, primitive type and calling convention", &more, |cx, text| {
        cx.seen(text);
        cx.st.transitions += all.len() as u64;
        cx.judge(text, all, "a symbol under some flags");
        // and deeper inside
        let inner = format!("?x@?1?{text}@3V?$t@$E{text}@@A");
        cx.judge(&inner, all, "a symbol under some flags");
        if let Some(t) = text.strip_prefix("?x@@3") {
            let t = &t[..t.len() - 1];
            for s in [format!("?f@@YA{t}{t}P{t}@Z"), format!("?f@@YAXP6A{t}{t}@Z@Z"), format!("??Ba@@QAE{t}XZ"), format!("??$f@{t}PA{t}@@YAXXZ"), format!(".PA{t}")] {
                cx.judge(&s, all, "a type under some flags");
            }
        }
    });
    let names = ["__a", "_", "__", "a__", "class", "__cdecl", "public", "operator", "x::y", "a ", " a", "(", "<", "t<a>", ">", "`a'", "*", "const", "-", ","];
    r.items("names that look like something else, under every set of flags", "names that look like what flags take away", &names, |cx, n| {
        for s in [
            format!("?{n}@@3HA"),
            format!("?x@{n}@@2PEIAV{n}@{n}@@EA"),
            format!("?{n}@{n}@@QEAAXV1@P8{n}@@EAAXV1@@Z@Z"),
            format!("??0{n}@@QEAA@XZ"),
            format!("??{n}@@YAXXZ"),
            format!("??${n}@V{n}@@@{n}@@YIXW4{n}@@@Z"),
            format!("??_7{n}@@6B{n}@@@"),
            format!("??_R4{n}@@6B@"),
            format!("?x@?{n}@?1?{n}@@YAXXZ@3HA"),
            format!("??__E{n}@@YAXXZ"),
            format!("??__K{n}@@YAXXZ"),
            format!(".?AV{n}@@"),
        ] {
            cx.seen(&s);
            cx.st.transitions += all.len() as u64;
            cx.judge(&s, all, "a name under some flags");
        }
    });
    // the names of the flags
    if r.broken() {
        return;
    }
    use undname::Flags as F;
    let named: &[(&str, F, u16)] = &[
        ("NO_CALLING_CONVENTION", F::NO_CALLING_CONVENTION, 0),
        ("NO_ALLOCATION_LANGUAGE", F::NO_ALLOCATION_LANGUAGE, 0),
        ("NO_TAG_SPECIFIER", F::NO_TAG_SPECIFIER, 1),
        ("NO_ECSU", F::NO_ECSU, 1),
        ("NO_ACCESS_SPECIFIER", F::NO_ACCESS_SPECIFIER, 2),
        ("NO_ACCESS_SPECIFIERS", F::NO_ACCESS_SPECIFIERS, 2),
        ("NO_MEMBER_TYPE", F::NO_MEMBER_TYPE, 3),
        ("NO_RETURN_TYPE", F::NO_RETURN_TYPE, 4),
        ("NO_FUNCTION_RETURNS", F::NO_FUNCTION_RETURNS, 4),
        ("NO_VARIABLE_TYPE", F::NO_VARIABLE_TYPE, 5),
        ("NO_THISTYPE", F::NO_THISTYPE, 6),
        ("NO_LEADING_UNDERSCORES", F::NO_LEADING_UNDERSCORES, 7),
        ("NO_MS_KEYWORDS", F::NO_MS_KEYWORDS, 8),
        ("NAME_ONLY", F::NAME_ONLY, 9),
    ];
    let cat = catalog(1);
    r.items("flags by name", "every flag and alias, on every catalogued name", &cat, |cx, (text, _)| {
        let o = crate::parse::parse(text);
        for (name, flag, bit) in named {
            cx.st.transitions += 1;
            cx.seen(text);
            let want = o.sym.as_ref().map(|s| print(s, 1 << bit));
            cx.st.traces += 1;
            let got = match cx.guarded(text, flag.bits(), || undname::demangle(text, *flag).ok()) {
                Some(got) => got,
                None => Some("a panic".into()),
            };
            if got != want {
                cx.fail(text, flag.bits(), &format!("{want:?}"), &format!("{got:?}"), &format!("under {name}"), format!("text:{}", want.clone().unwrap_or_default()));
            }
        }
    });
    let _ = (plain, NAME_ONLY);
    let mut sets: Vec<u16> = (0..10).flat_map(|k| [1 << k, 0x3FF ^ 1 << k]).collect();
    sets.extend([0, 0x3FF]);
    crate::wide::graft_types(r, 3, 4, |_| true, &sets);
    crate::wide::graft_names(r, 3, 4, |_| true, &sets);
    crate::wide::graft_symbols(r, |_| true, &sets);
    sets.truncate(20);
    sets.retain(|f| f.count_ones() == 1);
    sets.push(0x3FF);
    crate::wide::flag_twins(r, &sets);
    crate::wide::graft_twice(r, true, |_| true, &sets);
}
