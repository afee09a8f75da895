//! Generators: the reference model's states, reached by choices. Choice 0 is always the simplest
//! thing; every departure from it is a deviation that the explorer bounds.

use crate::ast::*;
use crate::engine::Ch;
use std::rc::Rc;

#[derive(Clone)]
pub struct Gen {
    /// how many of the primitive types to use
    pub prims: usize,
    /// how many of the calling conventions
    pub ccs: usize,
    pub names: &'static [&'static str],
    /// how many scopes around a name
    pub scopes: usize,
    pub params: usize,
    pub targs: usize,
    pub ops: usize,
    pub nums: &'static [u64],
    /// whether the non-type template arguments take part
    pub nontype: bool,
    pub locals: bool,
}

pub const NAMES: &[&str] = &["a", "b", "foo"];
pub const NUMS: &[u64] = &[1, 0, 10, 11, 16, 255, 256, 4096, 0x7FFF_FFFF];

pub const GEN: Gen = Gen {
    prims: 4,
    ccs: 3,
    names: NAMES,
    scopes: 2,
    params: 3,
    targs: 3,
    ops: 6,
    nums: NUMS,
    nontype: true,
    locals: true,
};

#[derive(Clone, Copy)]
pub struct At {
    /// may be qualified itself
    pub cv: bool,
    pub void: bool,
    /// may be an array or a function type
    pub any: bool,
    /// may be a reference
    pub refs: bool,
}
pub const PARAM: At = At { cv: false, void: false, any: false, refs: true };
pub const RET: At = At { cv: true, void: true, any: false, refs: true };
pub const POINTEE: At = At { cv: true, void: true, any: true, refs: false };
pub const VAR: At = At { cv: true, void: false, any: true, refs: true };
pub const TARG: At = At { cv: false, void: true, any: true, refs: true };

#[derive(Clone, Copy, PartialEq)]
enum K {
    Prim(usize),
    Tag(Tag),
    Ptr,
    Ref,
    RRef,
    Arr,
    FnPtr,
    MemPtr,
    MemFn,
    Func,
    Custom,
}

impl Gen {
    pub fn name(&self, ch: &mut Ch) -> Rc<str> {
        ch.of(self.names).into()
    }

    pub fn num(&self, ch: &mut Ch) -> u64 {
        ch.of(self.nums)
    }

    pub fn cv(&self, ch: &mut Ch) -> Q {
        ch.pick(4) as Q
    }

    pub fn ext(&self, ch: &mut Ch) -> Q {
        ch.of(&[0, PTR64, RESTRICT, UNALIGNED, RESTRICT | UNALIGNED, PTR64 | RESTRICT | UNALIGNED])
    }

    pub fn ty(&self, ch: &mut Ch, d: usize, at: At) -> Ty {
        let mut kinds: Vec<K> = (0..self.prims).map(K::Prim).collect();
        if !at.void {
            kinds.retain(|k| *k != K::Prim(2));
        }
        kinds.extend([Tag::Class, Tag::Struct, Tag::Union, Tag::Enum].map(K::Tag));
        if d > 0 {
            kinds.push(K::Ptr);
            if at.refs {
                kinds.extend([K::Ref, K::RRef]);
            }
            kinds.extend([K::FnPtr, K::MemPtr, K::MemFn]);
            if at.any {
                kinds.extend([K::Arr, K::Func]);
            }
        }
        kinds.push(K::Custom);
        let k = ch.of(&kinds);
        self.ty_of(ch, d, at, k)
    }

    fn ty_of(&self, ch: &mut Ch, d: usize, at: At, k: K) -> Ty {
        let q = if at.cv && !matches!(k, K::Func | K::Ref | K::RRef | K::Custom) {
            self.cv(ch)
        } else {
            0
        };
        // pointers carry theirs in the letter
        let pq = |ch: &mut Ch| if at.cv { q } else { ch.pick(4) as Q };
        match k {
            K::Prim(p) => Ty::Prim(p, q),
            K::Tag(t) => Ty::Tag(t, self.qname(ch, d.saturating_sub(1)), q),
            K::Custom => Ty::Custom(self.type_ident(ch, d.saturating_sub(1)), 0),
            K::Ptr => {
                let q = pq(ch) | self.ext(ch);
                Ty::Ptr { aff: Aff::Ptr, q, class: None, to: self.ty(ch, d - 1, POINTEE).into() }
            }
            K::Ref | K::RRef => {
                let q = self.ext(ch);
                let aff = if k == K::Ref { Aff::Ref } else { Aff::RRef };
                Ty::Ptr { aff, q, class: None, to: self.ty(ch, d - 1, POINTEE).into() }
            }
            K::FnPtr => {
                let aff = ch.of(&[Aff::Ptr, Aff::Ref, Aff::RRef]);
                let q = if aff == Aff::Ptr { pq(ch) } else { 0 };
                let to = Ty::Func(self.sig(ch, d - 1, false).into());
                Ty::Ptr { aff, q, class: None, to: to.into() }
            }
            K::MemPtr => {
                let q = pq(ch) | self.ext(ch);
                let class = self.qname(ch, d - 1);
                // the qualifiers are all that's kept of what the pointee says of itself
                let to = self.ty(ch, d - 1, At { any: false, ..POINTEE });
                let to = match to {
                    Ty::Ptr { aff, q, class, to } => Ty::Ptr { aff, q: q & 3, class, to },
                    t => t,
                };
                Ty::Ptr { aff: Aff::Ptr, q, class: Some(class), to: to.into() }
            }
            K::MemFn => {
                let q = pq(ch);
                let class = self.qname(ch, d - 1);
                let to = Ty::Func(self.sig(ch, d - 1, true).into());
                Ty::Ptr { aff: Aff::Ptr, q, class: Some(class), to: to.into() }
            }
            K::Arr => {
                let n = 1 + ch.pick(3);
                let dims = (0..n).map(|_| self.num(ch)).collect();
                let elem = self.ty(ch, d - 1, At { void: false, ..PARAM });
                Ty::Arr { dims, q, elem: elem.into() }
            }
            K::Func => {
                let member = ch.flag();
                Ty::Func(self.sig(ch, d - 1, member).into())
            }
        }
    }

    pub fn sig(&self, ch: &mut Ch, d: usize, member: bool) -> Sig {
        let mut s = bare_sig();
        if member {
            s.q = self.cv(ch) | self.ext(ch);
            s.refq = ch.pick(3) as u8;
        }
        s.cc = Some(ch.pick(self.ccs));
        s.ret = Some(self.ret(ch, d).into());
        let n = ch.pick(self.params + 2);
        if n > 0 {
            // 1 parameter, ..., `params` parameters, none
            let n = if n > self.params { 0 } else { n };
            s.params = Some((0..n).map(|_| self.ty(ch, d, PARAM).into()).collect());
            // an empty list that isn't (void) has to be variadic
            s.variadic = if n == 0 { true } else { ch.flag() };
        }
        s.noexcept = ch.flag();
        s
    }

    /// void unless stated otherwise
    fn ret(&self, ch: &mut Ch, d: usize) -> Ty {
        if ch.flag() {
            self.ty(ch, d, RET)
        } else {
            Ty::Prim(2, 0)
        }
    }

    pub fn type_ident(&self, ch: &mut Ch, d: usize) -> Ident {
        let n = self.names.len();
        let k = ch.pick(n + (d > 0) as usize);
        if k < n {
            Ident::name(self.names[k])
        } else {
            Ident { kind: IdKind::Name(self.name(ch)), targs: Some(self.targs(ch, d - 1)) }
        }
    }

    fn scope(&self, ch: &mut Ch, d: usize) -> Ident {
        let n = self.names.len();
        let k = ch.pick(n + 2 + if d > 0 { 1 + self.locals as usize } else { 0 });
        if k < n {
            Ident::name(self.names[k])
        } else if k < n + 2 {
            Ident::new(IdKind::Anon(["0x1", ""][k - n].into()))
        } else if k == n + 2 {
            Ident { kind: IdKind::Name(self.name(ch)), targs: Some(self.targs(ch, d - 1)) }
        } else {
            let num = self.num(ch);
            let sym = if ch.flag() {
                self.variable(ch, d - 1)
            } else {
                let name = self.qname(ch, d - 1);
                self.function_named(ch, d - 1, name)
            };
            Ident::new(IdKind::Local(num, sym.into()))
        }
    }

    fn scopes(&self, ch: &mut Ch, d: usize, first: Ident, min: usize) -> QName {
        let mut v = vec![first];
        while v.len() - 1 < self.scopes.max(min) {
            if v.len() > min && !ch.flag() {
                break;
            }
            v.push(self.scope(ch, d));
        }
        v.reverse();
        v
    }

    /// the name of a type
    pub fn qname(&self, ch: &mut Ch, d: usize) -> QName {
        let first = self.type_ident(ch, d);
        self.scopes(ch, d, first, 0)
    }

    pub fn targs(&self, ch: &mut Ch, d: usize) -> Vec<TArg> {
        let n = ch.pick(self.targs + 1);
        // 1, 2, ..., none
        let n = if n == self.targs { 0 } else { n + 1 };
        (0..n).map(|_| self.targ(ch, d)).collect()
    }

    pub fn targ(&self, ch: &mut Ch, d: usize) -> TArg {
        if !ch.flag() {
            return TArg::Ty(self.ty(ch, d, TARG).into());
        }
        let k = ch.pick(if self.nontype { 11 } else { 4 });
        match k {
            0 => TArg::CvTy(self.ty(ch, d, VAR_NO_REF).into()),
            1 => TArg::Alias(self.qname(ch, d)),
            2 => TArg::ArrTy(self.arr(ch, d).into()),
            3 => TArg::Pack(ch.of(&["$S", "$$V", "$$$V", "$$Z"])),
            4 => TArg::Int(self.num(ch), ch.flag()),
            5 => TArg::PtrTo { sym: Some(self.pointed(ch, d).into()), offs: vec![], auto: None },
            6 => TArg::RefTo(self.pointed(ch, d).into()),
            7 => {
                let n = 1 + ch.pick(3);
                let sym = if ch.flag() { None } else { Some(self.pointed(ch, d).into()) };
                let mut offs = self.offs(ch, n);
                if sym.is_none() {
                    // a '?' would start a symbol
                    offs[0] = offs[0].abs();
                }
                TArg::PtrTo { sym, offs, auto: None }
            }
            8 => {
                let n = 2 + ch.pick(2);
                TArg::DataMember { offs: self.offs(ch, n), auto: None }
            }
            9 => {
                let t = Rc::new(self.ty(ch, d, PARAM));
                TArg::AutoInt(t, self.num(ch), ch.flag())
            }
            _ => {
                let t = Some(Rc::new(self.ty(ch, d, PARAM)));
                if ch.flag() {
                    TArg::DataMember { offs: self.offs(ch, 2), auto: t }
                } else {
                    let n = ch.pick(4);
                    let sym = Some(self.pointed(ch, d).into());
                    TArg::PtrTo { sym, offs: self.offs(ch, n), auto: t }
                }
            }
        }
    }

    fn arr(&self, ch: &mut Ch, d: usize) -> Ty {
        let n = 1 + ch.pick(2);
        Ty::Arr {
            dims: (0..n).map(|_| self.num(ch)).collect(),
            q: self.cv(ch),
            elem: self.ty(ch, d, PARAM).into(),
        }
    }

    fn offs(&self, ch: &mut Ch, n: usize) -> Vec<i64> {
        (0..n).map(|_| self.off(ch)).collect()
    }

    pub fn off(&self, ch: &mut Ch) -> i64 {
        let v = self.num(ch) as i64;
        if ch.flag() {
            -v
        } else {
            v
        }
    }

    /// what a template argument can point to
    fn pointed(&self, ch: &mut Ch, d: usize) -> Sym {
        let name = |g: &Gen, ch: &mut Ch| g.symbol_name(ch, d);
        match ch.pick(3) {
            0 => {
                let n = name(self, ch);
                if is_conv(&n) {
                    return self.function_named(ch, d, n);
                }
                self.variable_named(ch, d, n)
            }
            1 => {
                let n = name(self, ch);
                self.function_named(ch, d, n)
            }
            _ => Sym::Md5("??@a6a285da2eea70dba6b578022be61d81@".into()),
        }
    }

    /// the name of a symbol, which can be of any kind
    pub fn symbol_name(&self, ch: &mut Ch, d: usize) -> QName {
        let n = self.names.len();
        let t = (d > 0) as usize;
        let k = ch.pick(n + t + self.ops + 4);
        if k < n {
            self.scopes(ch, d, Ident::name(self.names[k]), 0)
        } else if k < n + t {
            let kind = match ch.pick(3) {
                0 => IdKind::Name(self.name(ch)),
                1 => IdKind::Op(ch.pick(self.ops)),
                _ => IdKind::LitOp("_k".into()),
            };
            let first = Ident { kind, targs: Some(self.targs(ch, d - 1)) };
            self.scopes(ch, d, first, 0)
        } else if k < n + t + self.ops {
            self.scopes(ch, d, Ident::new(IdKind::Op(k - n - t)), 0)
        } else {
            match k - n - t - self.ops {
                0 => self.scopes(ch, d, Ident::new(IdKind::LitOp("_k".into())), 0),
                k @ 1..=2 => self.structor(ch, d, k == 2),
                _ => {
                    let targs = (d > 0 && ch.flag()).then(|| self.targs(ch, d - 1));
                    self.scopes(ch, d, Ident { kind: IdKind::Conv(None), targs }, 0)
                }
            }
        }
    }

    pub fn structor(&self, ch: &mut Ch, d: usize, dtor: bool) -> QName {
        let targs = (d > 0 && ch.flag()).then(|| self.targs(ch, d - 1));
        let kind = IdKind::Structor { dtor, class: None };
        let mut v = self.scopes(ch, d, Ident { kind, targs }, 1);
        let n = v.len();
        let enclosing = Rc::new(v[n - 2].clone());
        if let IdKind::Structor { class, .. } = &mut v[n - 1].kind {
            *class = Some(enclosing);
        }
        v
    }

    pub fn variable(&self, ch: &mut Ch, d: usize) -> Sym {
        let first = self.type_ident(ch, d);
        let name = self.scopes(ch, d, first, 0);
        self.variable_named(ch, d, name)
    }

    pub fn variable_named(&self, ch: &mut Ch, d: usize, name: QName) -> Sym {
        let sc = ch.of(&[3u8, 0, 1, 2, 4]);
        Sym::Var { sc, name, ty: Some(self.var_ty(ch, d).into()) }
    }

    pub fn var_ty(&self, ch: &mut Ch, d: usize) -> Ty {
        // a function type's qualifiers are overridden by the variable's
        match self.ty(ch, d, VAR) {
            Ty::Func(s) => {
                let mut s = (*s).clone();
                s.q &= 3;
                Ty::Func(s.into())
            }
            t => t,
        }
    }

    pub fn class(&self, ch: &mut Ch) -> Class {
        let mut c = FREE;
        match ch.pick(12) {
            0 => {}
            k @ 1..=9 => {
                c.access = [Access::Public, Access::Protected, Access::Private][(k - 1) % 3];
                c.is_static = (k - 1) / 3 == 1;
                c.is_virtual = (k - 1) / 3 == 2;
            }
            10 => c.extern_c = true,
            _ => {
                c.extern_c = true;
                c.no_params = true;
            }
        }
        c
    }

    pub fn function(&self, ch: &mut Ch, d: usize) -> Sym {
        let name = self.symbol_name(ch, d);
        self.function_named(ch, d, name)
    }

    pub fn function_named(&self, ch: &mut Ch, d: usize, name: QName) -> Sym {
        let mut class = self.class(ch);
        if is_conv(&name) {
            class.no_params = false;
        }
        self.function_of(ch, d, name, class)
    }

    pub fn function_of(&self, ch: &mut Ch, d: usize, mut name: QName, class: Class) -> Sym {
        if class.no_params {
            let sig = Sig { class, ..bare_sig() };
            return Sym::Func { name: Some(name), sig, thunk: None };
        }
        let member = class.access != Access::None && !class.is_static;
        let mut sig = self.sig(ch, d, member);
        sig.class = class;
        let n = name.len();
        match &mut name[n - 1].kind {
            IdKind::Structor { .. } => {
                if !ch.flag() {
                    sig.ret = None;
                }
            }
            IdKind::Conv(t) => *t = sig.ret.clone(),
            _ => {
                if ch.flag() {
                    sig.ret = None;
                }
            }
        }
        Sym::Func { name: Some(name), sig, thunk: None }
    }
}

pub const VAR_NO_REF: At = At { cv: true, void: true, any: true, refs: true };

fn is_conv(n: &QName) -> bool {
    matches!(n[n.len() - 1].kind, IdKind::Conv(_))
}

impl Gen {
    fn fixed(&self, ch: &mut Ch, d: usize, kind: IdKind) -> QName {
        self.scopes(ch, d, Ident::new(kind), 1)
    }

    /// compiler-generated symbols
    pub fn special(&self, ch: &mut Ch, d: usize, all: bool) -> Sym {
        let k = if all { ch.free(13) } else { ch.pick(13) };
        match k {
            k @ 0..=3 => {
                let fixed = crate::mangle::FIXED[k].1;
                let name = self.fixed(ch, d, IdKind::Fixed(fixed));
                let q = self.cv(ch);
                let target = if ch.flag() { Some(self.qname(ch, d)) } else { None };
                Sym::Table { name, q, target }
            }
            k @ 4..=5 => {
                let fixed = crate::mangle::FIXED[k].1;
                Sym::Var { sc: 9, name: self.fixed(ch, d, IdKind::Fixed(fixed)), ty: None }
            }
            6 => Sym::TypeDesc(self.ty(ch, d, RTTI).into()),
            7 => Sym::TypeName(self.ty(ch, d, RTTI).into()),
            8 => {
                let kind = IdKind::BaseDesc {
                    nv: self.num32(ch),
                    vbptr: self.off(ch),
                    vbtable: self.num32(ch),
                    flags: self.num32(ch),
                };
                Sym::Var { sc: 9, name: self.fixed(ch, d, kind), ty: None }
            }
            9 => {
                let kind = IdKind::Vcall(self.num(ch));
                let name = self.fixed(ch, d, kind);
                let cc = Some(ch.pick(self.ccs));
                let sig = Sig { cc, class: Class { no_params: true, ..FREE }, ..bare_sig() };
                Sym::Func { name: Some(name), sig, thunk: Some(Thunk::Plain) }
            }
            10 => {
                let thread = ch.flag();
                let index = if ch.flag() { self.num32(ch) } else { 0 };
                Sym::Guard { name: self.fixed(ch, d, IdKind::Guard { thread, index }) }
            }
            11 => {
                let dtor = ch.flag();
                let id = if ch.flag() {
                    let name = self.plain_name(ch, d);
                    IdKind::DynName { dtor, name }
                } else {
                    IdKind::DynVar { dtor, var: self.variable(ch, d).into() }
                };
                let class = if ch.flag() { self.class(ch) } else { FREE };
                let class = Class { no_params: false, ..class };
                let s = self.function_of(ch, d, vec![Ident::new(id)], class);
                s
            }
            _ => Sym::Md5(
                ch.of(&[
                    "??@a6a285da2eea70dba6b578022be61d81@",
                    "??@a6a285da2eea70dba6b578022be61d81@??_R4@",
                    "??@x@",
                    "??@@",
                ])
                .into(),
            ),
        }
    }

    fn num32(&self, ch: &mut Ch) -> u64 {
        self.num(ch) & 0xFFFF_FFFF
    }

    fn plain_name(&self, ch: &mut Ch, d: usize) -> QName {
        // a template's name starts with a '?', which isn't read as a name here
        let first = Ident::name(self.names[ch.pick(self.names.len())]);
        self.scopes(ch, d, first, 0)
    }

    pub fn thunk(&self, ch: &mut Ch, d: usize) -> Sym {
        let access = ch.of(&[Access::Public, Access::Protected, Access::Private]);
        let thunk = match ch.free(3) {
            0 => Thunk::Adjustor(self.off(ch).unsigned_abs() as i64),
            1 => Thunk::Vtordisp { disp: self.off(ch), stat: self.off(ch).abs() },
            _ => Thunk::VtordispEx {
                vbptr: self.off(ch),
                vboff: self.off(ch),
                disp: self.off(ch),
                stat: self.off(ch).abs(),
            },
        };
        let is_virtual = access != Access::Private || !matches!(thunk, Thunk::Adjustor(_));
        let class = Class { access, is_virtual, ..FREE };
        let name = self.symbol_name(ch, d);
        match self.function_of(ch, d, name, class) {
            Sym::Func { name, sig, .. } => Sym::Func { name, sig, thunk: Some(thunk) },
            _ => unreachable!(),
        }
    }

    /// any symbol at all
    pub fn any(&self, ch: &mut Ch, d: usize) -> Sym {
        match ch.free(4) {
            0 => self.function(ch, d),
            1 => self.variable(ch, d),
            2 => self.thunk(ch, d),
            _ => self.special(ch, d, true),
        }
    }
}

pub const RTTI: At = At { cv: true, void: false, any: true, refs: true };
