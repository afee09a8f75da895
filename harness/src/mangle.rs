//! The reference model's writer: from a meaning to one of the texts that spell it. Where the
//! grammar offers several spellings, the default is the one compilers emit and each of the others
//! is a deviation for the explorer to take.

use crate::ast::*;
use crate::engine::Ch;
use crate::print::Pr;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    Drop,
    Mangle,
    Result,
}

/// Whether to refer back to what has been spelled already.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Back {
    Always,
    Never,
    /// always, but spelling any one of them out is a deviation
    Choose,
}

pub struct Writer<'c> {
    pub ch: &'c mut Ch,
    pub out: String,
    pub back: Back,
    /// take the other spellings into account
    pub alt: bool,
    names: Vec<String>,
    params: Vec<Rc<Ty>>,
    /// how many back references were written
    pub refs: usize,
}

pub fn mangle(sym: &Sym, ch: &mut Ch, back: Back, alt: bool) -> (String, usize) {
    let mut w = Writer { ch, out: String::new(), back, alt, names: vec![], params: vec![], refs: 0 };
    w.symbol(sym);
    (w.out, w.refs)
}

/// The default spelling.
pub fn plain(sym: &Sym) -> String {
    mangle(sym, &mut Ch::new(vec![]), Back::Always, false).0
}

pub fn number(v: u64, neg: bool) -> String {
    let s = if neg { "?" } else { "" };
    if (1..=10).contains(&v) {
        return format!("{s}{}", v - 1);
    }
    let mut digits: Vec<char> = vec![];
    let mut n = v;
    loop {
        digits.push((b'A' + (n % 16) as u8) as char);
        n /= 16;
        if n == 0 {
            break;
        }
    }
    digits.reverse();
    format!("{s}{}@", digits.into_iter().collect::<String>())
}

impl Writer<'_> {
    fn put(&mut self, s: &str) {
        self.out.push_str(s);
    }
    fn alt(&mut self, n: usize) -> usize {
        if self.alt {
            self.ch.pick(n)
        } else {
            0
        }
    }

    fn number(&mut self, v: u64, neg: bool) {
        let s = number(v, neg);
        // the same number with superfluous leading zeros, or in hex despite having a digit
        let alts = if s.len() < 15 { 3 } else { 1 };
        match self.alt(alts) {
            0 => self.put(&s),
            k => {
                let hex = format!("{v:X}");
                if neg {
                    self.put("?");
                }
                for _ in 1..k {
                    self.put("A");
                }
                for c in hex.chars() {
                    let d = c.to_digit(16).unwrap() as u8;
                    self.out.push((b'A' + d) as char);
                }
                self.put("@");
            }
        }
    }
    fn signed(&mut self, v: i64) {
        self.number(v.unsigned_abs(), v < 0);
    }

    // ---- memory ----
    fn known(&mut self, key: &str) -> bool {
        let Some(i) = self.names.iter().position(|n| n == key) else { return false };
        match self.back {
            Back::Never => return false,
            Back::Choose => {
                if self.ch.flag() {
                    return false;
                }
            }
            Back::Always => {}
        }
        self.refs += 1;
        self.put(&i.to_string());
        true
    }
    fn remember(&mut self, key: String) {
        if self.names.len() < 10 && !self.names.contains(&key) {
            self.names.push(key);
        }
    }
    fn key(id: &Ident) -> String {
        match &id.kind {
            IdKind::Anon(k) => k.to_string(),
            _ => Pr { f: 0 }.ident(id),
        }
    }

    // ---- symbols ----
    pub fn symbol(&mut self, s: &Sym) {
        match s {
            Sym::Md5(t) => self.put(t),
            Sym::TypeName(t) => {
                self.put(".");
                self.ty(t, Mode::Result);
            }
            Sym::TypeDesc(t) => {
                self.put("??_R0");
                self.ty(t, Mode::Result);
                self.put("@8");
            }
            Sym::Table { name, q, target } => {
                self.put("?");
                self.qname(name, true);
                let k = self.alt(2);
                self.put(["6", "7"][k]);
                self.cv(*q);
                match target {
                    None => self.put("@"),
                    Some(t) => self.qname(t, false),
                }
            }
            Sym::Guard { name } => {
                self.put("?");
                self.qname(name, true);
                let k = self.alt(2);
                let IdKind::Guard { index, .. } = name.last().unwrap().kind else { unreachable!() };
                self.put(["4IA", "5"][k]);
                if index > 0 || self.alt(2) == 1 {
                    self.number(index, false);
                }
            }
            Sym::Str { .. } => unreachable!("string literals have a writer of their own"),
            Sym::Var { sc, name, ty } => {
                self.put("?");
                self.qname(name, true);
                match ty {
                    None => self.put("8"),
                    Some(t) => {
                        self.put(&sc.to_string());
                        self.variable(t);
                    }
                }
            }
            Sym::Func { name, sig, thunk } => {
                self.put("?");
                let name = name.as_ref().unwrap();
                match &name[name.len() - 1].kind {
                    IdKind::DynVar { dtor, var } => {
                        self.put(if *dtor { "?__F" } else { "?__E" });
                        let Sym::Var { name, .. } = &**var else { unreachable!() };
                        let last = &name[name.len() - 1];
                        let plain = matches!(last.kind, IdKind::Name(_)) && last.targs.is_none();
                        // members are wrapped up as symbols of their own
                        if name.len() > 1 || !plain || self.alt(2) == 1 {
                            self.put("?");
                            self.symbol_tail(var);
                            self.put("@@");
                        } else {
                            self.symbol_tail(var);
                            self.put("@");
                        }
                    }
                    IdKind::DynName { dtor, name } => {
                        self.put(if *dtor { "?__F" } else { "?__E" });
                        self.qname(name, true);
                    }
                    _ => self.qname(name, true),
                }
                if let IdKind::Vcall(n) = name[name.len() - 1].kind {
                    self.put("$B");
                    self.number(n, false);
                    self.put("A");
                    self.cc(sig.cc);
                    return;
                }
                self.function(sig, *thunk);
            }
        }
    }

    /// a variable without the leading '?'
    fn symbol_tail(&mut self, s: &Sym) {
        let Sym::Var { sc, name, ty: Some(t) } = s else { unreachable!() };
        self.qname(name, true);
        self.put(&sc.to_string());
        self.variable(t);
    }

    fn variable(&mut self, t: &Ty) {
        match t {
            Ty::Ptr { q, class, to, .. } => {
                if matches!(**to, Ty::Func(_)) {
                    self.ty(t, Mode::Drop);
                    self.put("A");
                } else {
                    // what's pointed to is qualified in the type and after it, or only in either
                    let cv = top_cv(to);
                    let how = if cv != 0 { self.alt(3) } else { 0 };
                    match t {
                        Ty::Ptr { aff, q, class, to } if how == 2 => {
                            let to = Rc::new(match &**to {
                                Ty::Ptr { q, .. } => (**to).clone().set_q(q & !3),
                                _ => (**to).clone().set_q(0),
                            });
                            self.ty(&Ty::Ptr { aff: *aff, q: *q, class: class.clone(), to }, Mode::Drop);
                        }
                        _ => self.ty(t, Mode::Drop),
                    }
                    self.ext(*q);
                    let cv = if how == 1 { 0 } else { cv };
                    if class.is_some() && self.alt(2) == 1 {
                        self.put(["Q", "R", "S", "T"][cv as usize]);
                    } else {
                        self.cv(cv);
                    }
                }
                if let Some(c) = class {
                    self.qname(c, false);
                }
            }
            Ty::Arr { dims, q, elem } => {
                // the qualifiers come last
                self.ty(&Ty::Arr { dims: dims.clone(), q: 0, elem: elem.clone() }, Mode::Drop);
                self.cv(*q);
            }
            Ty::Func(_) => {
                // whose own qualifiers those would override
                self.ty(t, Mode::Drop);
                self.cv(top_cv(t));
            }
            _ => {
                self.ty(&t.clone().set_q(0), Mode::Drop);
                self.cv(top_cv(t));
            }
        }
    }

    fn function(&mut self, sig: &Sig, thunk: Option<Thunk>) {
        let c = sig.class;
        if c.no_params {
            self.put("9");
            return;
        }
        if c.extern_c {
            self.put("$$J0");
        }
        let far = self.alt(2);
        let access = match c.access {
            Access::Private => 0,
            Access::Protected => 1,
            Access::Public => 2,
            Access::None => {
                self.put(["Y", "Z"][far]);
                self.signature(sig, false);
                return;
            }
        };
        let letter = |k: usize| ((b'A' + (access * 8 + k * 2 + far) as u8) as char).to_string();
        match thunk {
            None | Some(Thunk::Plain) => {
                let k = if c.is_static {
                    1
                } else if c.is_virtual {
                    2
                } else {
                    0
                };
                self.put(&letter(k));
            }
            Some(Thunk::Adjustor(n)) => {
                self.put(&letter(3));
                self.offset(n);
            }
            Some(Thunk::Vtordisp { disp, stat }) => {
                self.put(&format!("${}", access * 2 + far));
                self.offset(disp);
                self.offset(stat);
            }
            Some(Thunk::VtordispEx { vbptr, vboff, disp, stat }) => {
                self.put(&format!("$R{}", access * 2 + far));
                for n in [vbptr, vboff, disp, stat] {
                    self.offset(n);
                }
            }
        }
        self.signature(sig, !c.is_static);
    }

    fn offset(&mut self, n: i64) {
        if n < 0 && self.alt(2) == 1 {
            // as its 32-bit two's complement
            self.number(n as u32 as u64, false);
        } else {
            self.signed(n);
        }
    }

    // ---- types ----
    fn cv(&mut self, q: Q) {
        self.put(["A", "B", "C", "D"][(q & 3) as usize]);
    }
    fn ext(&mut self, q: Q) {
        if q & PTR64 != 0 {
            self.put("E");
        }
        if q & RESTRICT != 0 {
            self.put("I");
        }
        if q & UNALIGNED != 0 {
            self.put("F");
        }
    }

    pub fn ty(&mut self, t: &Ty, mode: Mode) {
        match t {
            Ty::Ptr { aff, q, class, to } => {
                // a pointer's own qualifiers can be stated in front of it, too
                let cv = q & 3;
                match mode {
                    Mode::Drop => self.pointer(*aff, *q, class.as_ref(), to),
                    Mode::Mangle | Mode::Result => {
                        let letter = *aff == Aff::Ptr;
                        let how = if cv != 0 && letter { self.alt(3) } else { 0 };
                        let outer = if !letter || how > 0 { cv } else { 0 };
                        if mode == Mode::Mangle {
                            self.cv(outer);
                        } else if outer != 0 || self.alt(2) == 1 {
                            self.put("?");
                            self.cv(outer);
                        }
                        let inner = if letter && how != 2 { *q } else { q & !3 };
                        self.pointer(*aff, inner, class.as_ref(), to);
                    }
                }
            }
            Ty::Prim(p, q) => {
                self.outer(*q, mode, false);
                self.put(PRIMS[*p].0);
            }
            Ty::Tag(tag, name, q) => {
                self.outer(*q, mode, true);
                self.put(match tag {
                    Tag::Union => "T",
                    Tag::Struct => "U",
                    Tag::Class => "V",
                    Tag::Enum => "W4",
                });
                self.qname(name, false);
            }
            Ty::Custom(id, q) => {
                // starts with a '?' itself
                if mode == Mode::Result {
                    self.put("?");
                }
                if mode != Mode::Drop {
                    self.cv(*q);
                }
                self.put("?");
                self.piece(id, false);
                self.put("@");
            }
            Ty::Arr { dims, q, elem } => {
                self.outer(if mode == Mode::Drop { 0 } else { *q }, mode, false);
                self.array(dims, if mode == Mode::Drop { *q } else { 0 }, elem);
            }
            Ty::Func(sig) => {
                self.outer(0, mode, false);
                if sig.q != 0 || sig.refq != 0 || self.alt(2) == 1 {
                    self.put("$$A8@@");
                    self.signature(sig, true);
                } else {
                    self.put("$$A6");
                    self.signature(sig, false);
                }
            }
        }
    }

    fn array(&mut self, dims: &[u64], q: Q, elem: &Ty) {
        self.put("Y");
        self.number(dims.len() as u64, false);
        for d in dims {
            self.number(*d, false);
        }
        if q & 3 != 0 || self.alt(2) == 1 {
            self.put("$$C");
            self.cv(q);
        }
        self.ty(elem, Mode::Drop);
    }

    /// the qualifiers in front of anything but a pointer
    fn outer(&mut self, q: Q, mode: Mode, tag: bool) {
        match mode {
            Mode::Drop => assert_eq!(q & 3, 0, "can't spell these qualifiers here"),
            Mode::Mangle => self.cv(q),
            Mode::Result => {
                // class types have theirs spelled even when there are none
                let usual = q & 3 != 0 || tag;
                if usual && q & 3 != 0 || usual != (self.alt(2) == 1) {
                    self.put("?");
                    self.cv(q);
                }
            }
        }
    }

    fn pointer(&mut self, aff: Aff, q: Q, class: Option<&QName>, to: &Ty) {
        self.put(match (aff, q & 3) {
            (Aff::Ref, _) => "A",
            (Aff::RRef, _) => "$$Q",
            (Aff::Ptr, 0) => "P",
            (Aff::Ptr, 1) => "Q",
            (Aff::Ptr, 2) => "R",
            (Aff::Ptr, _) => "S",
        });
        if let (Ty::Func(sig), Some(c)) = (to, class) {
            self.put("8");
            self.qname(c, false);
            self.signature(sig, true);
            return;
        }
        if let Ty::Func(sig) = to {
            if sig.q == 0 && sig.refq == 0 && q & !3 == 0 && self.alt(2) == 0 {
                self.put("6");
                self.signature(sig, false);
                return;
            }
        }
        self.ext(q);
        if let Some(c) = class {
            // only the letter states what a pointee is qualified with
            self.put(["Q", "R", "S", "T"][(top_cv(to) & 3) as usize]);
            self.qname(c, false);
            self.ty(&strip(to), Mode::Drop);
            return;
        }
        if aff != Aff::Ptr {
            self.ty(to, Mode::Mangle);
            return;
        }
        match to {
            Ty::Ptr { q: tq, .. } => {
                let cv = tq & 3;
                let how = if cv != 0 { self.alt(3) } else { 0 };
                self.cv(if how == 1 { 0 } else { cv });
                if how == 2 && can_letter(to) {
                    self.ty(&strip_cv(to), Mode::Drop);
                } else {
                    self.ty(&if can_letter(to) { to.clone() } else { strip_cv(to) }, Mode::Drop);
                }
            }
            Ty::Arr { dims, q: aq, elem } => {
                let how = if aq & 3 != 0 { self.alt(3) } else { 0 };
                self.cv(if how == 1 { 0 } else { *aq });
                self.array(dims, if how == 0 { 0 } else { *aq }, elem);
            }
            Ty::Func(_) => {
                self.cv(0);
                self.ty(to, Mode::Drop);
            }
            _ => {
                self.cv(top_cv(to));
                self.ty(&strip(to), Mode::Drop);
            }
        }
    }

    fn cc(&mut self, cc: Option<usize>) {
        let code = CCS[cc.unwrap()].0;
        if !"QSW".contains(code) && self.alt(2) == 1 {
            self.out.push((code as u8 + 1) as char);
        } else {
            self.out.push(code);
        }
    }

    fn signature(&mut self, sig: &Sig, member: bool) {
        if member {
            self.ext(sig.q);
            self.put(["", "G", "H"][sig.refq as usize]);
            self.cv(sig.q);
        }
        self.cc(sig.cc);
        match &sig.ret {
            None => self.put("@"),
            Some(t) => self.ty(t, Mode::Result),
        }
        match &sig.params {
            None => self.put("X"),
            Some(v) => {
                for t in v {
                    self.param(t);
                }
                self.put(if sig.variadic { "Z" } else { "@" });
            }
        }
        self.put(if sig.noexcept { "_E" } else { "Z" });
    }

    fn param(&mut self, t: &Rc<Ty>) {
        if let Some(i) = self.params.iter().position(|p| p == t) {
            let take = match self.back {
                Back::Always => true,
                Back::Never => false,
                Back::Choose => !self.ch.flag(),
            };
            if take {
                self.refs += 1;
                self.put(&i.to_string());
                return;
            }
        }
        let from = self.out.len();
        self.ty(t, Mode::Drop);
        if self.out.len() - from > 1 && self.params.len() < 10 {
            self.params.push(t.clone());
        }
    }

    // ---- names ----
    /// innermost first, closed by '@'
    pub fn qname(&mut self, n: &QName, symbol: bool) {
        let k = n.len();
        self.piece(&n[k - 1], symbol);
        for id in n[..k - 1].iter().rev() {
            self.scope(id);
        }
        self.put("@");
    }

    fn scope(&mut self, id: &Ident) {
        match &id.kind {
            IdKind::Anon(key) => {
                if !self.known(key) {
                    self.put(&format!("?A{key}@"));
                    self.remember(key.to_string());
                }
            }
            IdKind::Local(n, sym) => {
                self.put("?");
                // these have exactly one spelling
                self.put(&if *n == 0 { "@".into() } else { number(*n, false) });
                self.put("?");
                self.symbol(sym);
            }
            _ => self.piece(id, false),
        }
    }

    fn piece(&mut self, id: &Ident, symbol: bool) {
        let key = Self::key(id);
        let referable = match id.kind {
            IdKind::Name(_) => true,
            IdKind::Op(_) | IdKind::LitOp(_) => id.targs.is_some(),
            _ => false,
        };
        if referable && self.known(&key) {
            return;
        }
        if let Some(args) = &id.targs {
            self.put("?$");
            let names = std::mem::take(&mut self.names);
            let params = std::mem::take(&mut self.params);
            self.bare(id);
            for a in args {
                self.targ(a);
            }
            self.put("@");
            self.names = names;
            self.params = params;
            if !symbol {
                self.remember(key);
            }
        } else {
            self.bare(id);
        }
    }

    fn bare(&mut self, id: &Ident) {
        match &id.kind {
            IdKind::Name(n) => {
                self.put(&format!("{n}@"));
                self.remember(n.to_string());
            }
            IdKind::Op(o) => self.put(&format!("?{}", OPS[*o].0)),
            IdKind::LitOp(n) => self.put(&format!("?__K{n}@")),
            IdKind::Structor { dtor, .. } => self.put(if *dtor { "?1" } else { "?0" }),
            IdKind::Conv(_) => self.put("?B"),
            IdKind::Fixed(s) => {
                let code = FIXED.iter().find(|(_, t)| t == s).unwrap().0;
                self.put(code);
            }
            IdKind::Vcall(_) => self.put("?_9"),
            IdKind::Guard { thread, .. } => self.put(if *thread { "?__J" } else { "?_B" }),
            IdKind::BaseDesc { nv, vbptr, vbtable, flags } => {
                self.put("?_R1");
                self.number(*nv, false);
                self.signed(*vbptr);
                self.number(*vbtable, false);
                self.number(*flags, false);
            }
            IdKind::UnknownOp(code) => self.put(&format!("?{code}")),
            other => unreachable!("{other:?}"),
        }
    }

    fn targ(&mut self, a: &TArg) {
        let auto = |w: &mut Self, t: &Option<Rc<Ty>>| match t {
            Some(t) => {
                w.put("$M");
                w.ty(t, Mode::Drop);
                true
            }
            None => {
                w.put("$");
                false
            }
        };
        match a {
            TArg::Ty(t) => self.ty(t, Mode::Drop),
            TArg::CvTy(t) => {
                self.put("$$C");
                self.ty(t, Mode::Mangle);
            }
            TArg::ArrTy(t) => {
                self.put("$$B");
                self.ty(t, Mode::Drop);
            }
            TArg::Alias(n) => {
                self.put("$$Y");
                self.qname(n, false);
            }
            TArg::Int(v, neg) => {
                self.put("$0");
                self.number(*v, *neg);
            }
            TArg::AutoInt(t, v, neg) => {
                self.put("$M");
                self.ty(t, Mode::Drop);
                self.put("0");
                self.number(*v, *neg);
            }
            TArg::PtrTo { sym, offs, auto: t } => {
                auto(self, t);
                self.put(["1", "H", "I", "J"][offs.len()]);
                if let Some(s) = sym {
                    self.symbol(s);
                    let key = match &**s {
                        Sym::Md5(t) => Some(t.clone()),
                        Sym::TypeDesc(_) => Some("`RTTI Type Descriptor'".into()),
                        s => s.name().map(|n| Self::key_of_symbol(n.last().unwrap())),
                    };
                    self.remember(key.expect("a symbol without a name"));
                }
                for o in offs {
                    self.signed(*o);
                }
            }
            TArg::RefTo(s) => {
                self.put("$E");
                self.symbol(s);
            }
            TArg::DataMember { offs, auto: t } => {
                auto(self, t);
                self.put(["F", "G"][offs.len() - 2]);
                for o in offs {
                    self.signed(*o);
                }
            }
            TArg::Pack(p) => self.put(p),
        }
    }

    fn key_of_symbol(id: &Ident) -> String {
        Pr { f: 0 }.ident(id)
    }
}

pub const FIXED: [(&str, &str); 6] = [
    ("?_7", "`vftable'"),
    ("?_8", "`vbtable'"),
    ("?_S", "`local vftable'"),
    ("?_R4", "`RTTI Complete Object Locator'"),
    ("?_R2", "`RTTI Base Class Array'"),
    ("?_R3", "`RTTI Class Hierarchy Descriptor'"),
];

fn top_cv(t: &Ty) -> Q {
    (match t {
        Ty::Prim(_, q) | Ty::Tag(_, _, q) | Ty::Custom(_, q) => *q,
        Ty::Ptr { q, .. } | Ty::Arr { q, .. } => *q,
        Ty::Func(s) => s.q,
    }) & 3
}

/// references can't carry their qualifiers in the letter
fn can_letter(t: &Ty) -> bool {
    matches!(t, Ty::Ptr { aff: Aff::Ptr, .. })
}

fn strip_cv(t: &Ty) -> Ty {
    match t {
        Ty::Ptr { aff, q, class, to } => {
            Ty::Ptr { aff: *aff, q: q & !3, class: class.clone(), to: to.clone() }
        }
        _ => t.clone(),
    }
}

fn strip(t: &Ty) -> Ty {
    t.clone().set_q(0)
}
