//! The reference model's reader: the grammar of decorated names, as a function from text to
//! meaning. It also reports whether its verdict depended on where the text ends, which makes
//! pruning an exhaustive enumeration of texts sound, and whether the text strays into territory
//! that the grammar gives no meaning to.

use crate::ast::*;
use crate::print::Pr;
use std::rc::Rc;

pub struct Refuse;
type R<T> = Result<T, Refuse>;

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Drop,
    Mangle,
    Result,
}

#[derive(Clone, Copy, PartialEq)]
enum Memo {
    Simple,
    Template,
}

#[derive(Default, Clone)]
struct Ctx {
    names: Vec<(String, Ident)>,
    params: Vec<Rc<Ty>>,
}

pub struct Parser {
    s: Vec<char>,
    i: usize,
    cx: Ctx,
    pub hit_end: bool,
}

pub struct Outcome {
    pub sym: Option<Sym>,
    /// the verdict could change if more text followed
    pub hit_end: bool,
    pub consumed: usize,
}

pub fn parse(text: &str) -> Outcome {
    let mut p = Parser {
        s: text.chars().collect(),
        i: 0,
        cx: Ctx::default(),
        hit_end: false,
    };
    let sym = p.symbol().ok();
    Outcome { sym, hit_end: p.hit_end, consumed: p.i }
}

fn no<T>() -> R<T> {
    Err(Refuse)
}

impl Parser {
    // ---- reading ----
    fn peek(&mut self) -> Option<char> {
        let c = self.s.get(self.i).copied();
        if c.is_none() {
            self.hit_end = true;
        }
        c
    }
    fn next(&mut self) -> R<char> {
        match self.peek() {
            Some(c) => {
                self.i += 1;
                Ok(c)
            }
            None => no(),
        }
    }
    fn at(&mut self, what: &str) -> bool {
        for (k, w) in what.chars().enumerate() {
            match self.s.get(self.i + k) {
                None => {
                    self.hit_end = true;
                    return false;
                }
                Some(c) if *c != w => return false,
                _ => {}
            }
        }
        true
    }
    fn eat(&mut self, what: &str) -> bool {
        let yes = self.at(what);
        if yes {
            self.i += what.chars().count();
        }
        yes
    }
    fn want(&mut self, what: &str) -> R<()> {
        if self.eat(what) {
            Ok(())
        } else {
            no()
        }
    }
    fn done(&mut self) -> bool {
        self.peek().is_none()
    }
    fn find(&mut self, c: char) -> Option<usize> {
        let r = (self.i..self.s.len()).find(|k| self.s[*k] == c);
        if r.is_none() {
            self.hit_end = true;
        }
        r
    }
    /// everything before the next '@', which is skipped
    fn upto_at(&mut self) -> R<String> {
        match self.find('@') {
            Some(k) => {
                let r = self.s[self.i..k].iter().collect();
                self.i = k + 1;
                Ok(r)
            }
            None => no(),
        }
    }

    fn number(&mut self) -> R<(u64, bool)> {
        let neg = self.eat("?");
        let c = self.next()?;
        if let Some(d) = c.to_digit(10).filter(|_| c.is_ascii()) {
            return Ok((u64::from(d) + 1, neg));
        }
        let mut n: u64 = 0;
        let mut c = c;
        loop {
            match c {
                '@' => return Ok((n, neg)),
                'A'..='P' => {
                    if n >> 60 != 0 {
                        return no();
                    }
                    n = (n << 4) | (c as u64 - 'A' as u64);
                }
                _ => return no(),
            }
            c = self.next()?;
        }
    }
    fn unsigned(&mut self) -> R<u64> {
        match self.number()? {
            (n, false) => Ok(n),
            _ => no(),
        }
    }
    fn signed(&mut self) -> R<i64> {
        let (n, neg) = self.number()?;
        match i64::try_from(n) {
            Ok(n) => Ok(if neg { -n } else { n }),
            Err(_) => no(),
        }
    }
    /// thunk offsets are the low 32 bits of what is written (the code says so), so that a negative
    /// one may be spelled as its two's complement
    fn fits32(n: i64) -> i64 {
        i64::from(n as u32 as i32)
    }
    fn fits_u32(n: i64) -> i64 {
        i64::from(n as u32)
    }

    // ---- memory ----
    fn remember(&mut self, key: String, id: Ident) {
        if self.cx.names.len() < 10 && self.cx.names.iter().all(|x| x.0 != key) {
            self.cx.names.push((key, id));
        }
    }
    fn remember_printed(&mut self, id: &Ident) {
        let key = Pr { f: 0 }.ident(id);
        self.remember(key, id.clone());
    }
    fn name_ref(&mut self) -> R<Ident> {
        let d = self.next()? as usize - '0' as usize;
        match self.cx.names.get(d) {
            Some(x) => Ok(x.1.clone()),
            None => no(),
        }
    }
    fn at_digit(&mut self) -> bool {
        matches!(self.peek(), Some('0'..='9'))
    }

    // ---- symbols ----
    fn symbol(&mut self) -> R<Sym> {
        if self.at(".") {
            self.i += 1;
            let t = self.ty(Mode::Result)?;
            return if self.done() { Ok(Sym::TypeName(t)) } else { no() };
        }
        if self.at("??@") {
            return self.md5();
        }
        self.want("?")?;
        if let Some(s) = self.special()? {
            return Ok(s);
        }
        self.declarator()
    }

    fn md5(&mut self) -> R<Sym> {
        self.i += 3;
        let hash = self.upto_at()?;
        let tail = if self.eat("??_R4@") { "??_R4@" } else { "" };
        Ok(Sym::Md5(format!("??@{hash}@{tail}")))
    }

    fn special(&mut self) -> R<Option<Sym>> {
        let table = [
            ("?_7", "`vftable'"),
            ("?_8", "`vbtable'"),
            ("?_S", "`local vftable'"),
            ("?_R4", "`RTTI Complete Object Locator'"),
        ];
        for (code, text) in table {
            if self.eat(code) {
                let name = self.scopes(Ident::new(IdKind::Fixed(text)))?;
                match self.next()? {
                    '6' | '7' => {}
                    _ => return no(),
                }
                let (q, _) = self.quals()?;
                let target = if self.eat("@") { None } else { Some(self.type_name()?) };
                return Ok(Some(Sym::Table { name, q, target }));
            }
        }
        for (code, text) in
            [("?_R2", "`RTTI Base Class Array'"), ("?_R3", "`RTTI Class Hierarchy Descriptor'")]
        {
            if self.eat(code) {
                let name = self.scopes(Ident::new(IdKind::Fixed(text)))?;
                self.want("8")?;
                return Ok(Some(Sym::Var { sc: 9, name, ty: None }));
            }
        }
        if self.eat("?_R0") {
            let t = self.ty(Mode::Result)?;
            self.want("@8")?;
            return if self.done() { Ok(Some(Sym::TypeDesc(t))) } else { no() };
        }
        if self.eat("?_R1") {
            let nv = self.unsigned()?;
            let nv = if nv > u32::MAX as u64 { return no() } else { nv };
            let vbptr = self.signed()?;
            if i32::try_from(vbptr).is_err() {
                return no();
            }
            let vbtable = self.unsigned()?;
            if vbtable > u32::MAX as u64 {
                return no();
            }
            let flags = self.unsigned()?;
            if flags > u32::MAX as u64 {
                return no();
            }
            let name = self.scopes(Ident::new(IdKind::BaseDesc { nv, vbptr, vbtable, flags }))?;
            self.want("8")?;
            return Ok(Some(Sym::Var { sc: 9, name, ty: None }));
        }
        if self.eat("?_9") {
            let mut name = self.scopes(Ident::new(IdKind::Vcall(0)))?;
            self.want("$B")?;
            let off = self.unsigned()?;
            name.last_mut().unwrap().kind = IdKind::Vcall(off);
            self.want("A")?;
            let cc = self.cc()?;
            let sig = Sig { cc, class: Class { no_params: true, ..FREE }, ..bare_sig() };
            return Ok(Some(Sym::Func { name: Some(name), sig, thunk: Some(Thunk::Plain) }));
        }
        if self.eat("?_A") || self.eat("?_P") {
            return no();
        }
        for (code, thread) in [("?_B", false), ("?__J", true)] {
            if self.eat(code) {
                let mut name = self.scopes(Ident::new(IdKind::Guard { thread, index: 0 }))?;
                if !self.eat("4IA") && !self.eat("5") {
                    return no();
                }
                if !self.done() {
                    let index = self.unsigned()?;
                    if index > u32::MAX as u64 {
                        return no();
                    }
                    name.last_mut().unwrap().kind = IdKind::Guard { thread, index };
                }
                return Ok(Some(Sym::Guard { name }));
            }
        }
        if self.eat("?_C") {
            return self.string().map(Some);
        }
        for (code, dtor) in [("?__E", false), ("?__F", true)] {
            if self.eat(code) {
                let member = self.eat("?");
                return match self.declarator()? {
                    v @ Sym::Var { .. } => {
                        self.want(if member { "@@" } else { "@" })?;
                        let (sig, thunk) = self.function()?;
                        let id = Ident::new(IdKind::DynVar { dtor, var: Rc::new(v) });
                        Ok(Some(Sym::Func { name: Some(vec![id]), sig, thunk }))
                    }
                    Sym::Func { name: Some(name), sig, thunk } if !member => {
                        let id = Ident::new(IdKind::DynName { dtor, name });
                        Ok(Some(Sym::Func { name: Some(vec![id]), sig, thunk }))
                    }
                    _ => no(),
                };
            }
        }
        Ok(None)
    }

    fn declarator(&mut self) -> R<Sym> {
        let first = self.symbol_piece(Memo::Simple)?;
        let mut name = self.scopes(first)?;
        let n = name.len();
        if matches!(name[n - 1].kind, IdKind::Structor { .. }) {
            if n < 2 {
                return no();
            }
            let enclosing = Rc::new(name[n - 2].clone());
            if let IdKind::Structor { class, .. } = &mut name[n - 1].kind {
                *class = Some(enclosing);
            }
        }
        match self.peek() {
            None => no(),
            Some(c @ '0'..='4') => {
                self.i += 1;
                let sc = c as u8 - b'0';
                let ty = self.variable_type()?;
                if matches!(name[n - 1].kind, IdKind::Conv(_)) {
                    return no();
                }
                Ok(Sym::Var { sc, name, ty: Some(ty) })
            }
            _ => {
                let (sig, thunk) = self.function()?;
                if let IdKind::Conv(t) = &mut name[n - 1].kind {
                    match &sig.ret {
                        Some(r) => *t = Some(r.clone()),
                        None => return no(),
                    }
                }
                Ok(Sym::Func { name: Some(name), sig, thunk })
            }
        }
    }

    fn variable_type(&mut self) -> R<Rc<Ty>> {
        let t = self.ty(Mode::Drop)?;
        let t = (*t).clone();
        if let Ty::Ptr { aff, q, class, to } = t {
            let q = q | self.ext_quals();
            let (more, _) = self.quals()?;
            if class.is_some() {
                self.type_name()?;
            }
            let to = Rc::new((*to).clone().add_q(more));
            Ok(Rc::new(Ty::Ptr { aff, q, class, to }))
        } else {
            let (q, _) = self.quals()?;
            Ok(Rc::new(t.set_q(q)))
        }
    }

    fn function(&mut self) -> R<(Sig, Option<Thunk>)> {
        let extern_c = self.eat("$$J0");
        if self.done() {
            return no();
        }
        let c = self.next()?;
        let mut class = Class { extern_c, ..FREE };
        let mut global = false;
        let mut adjust = 0; // 1 static, 2 vtordisp, 3 vtordispex
        match c {
            '9' => {
                class.extern_c = true;
                class.no_params = true;
            }
            'A'..='X' => {
                let k = c as u8 - b'A';
                class.access = [Access::Private, Access::Protected, Access::Public][k as usize / 8];
                match (k % 8) / 2 {
                    0 => {}
                    1 => class.is_static = true,
                    2 => class.is_virtual = true,
                    _ => {
                        adjust = 1;
                        // G and H: the private ones say nothing of being virtual
                        class.is_virtual = class.access != Access::Private;
                    }
                }
            }
            'Y' | 'Z' => global = true,
            '$' => {
                adjust = if self.eat("R") { 3 } else { 2 };
                let d = self.next()?;
                if !('0'..='5').contains(&d) {
                    return no();
                }
                class.access = [Access::Private, Access::Protected, Access::Public]
                    [(d as u8 - b'0') as usize / 2];
                class.is_virtual = true;
            }
            _ => return no(),
        }
        let thunk = match adjust {
            1 => {
                let n = self.signed()?;
                Some(Thunk::Adjustor(Self::fits_u32(n)))
            }
            2 => {
                let disp = self.signed()?;
                let stat = self.signed()?;
                Some(Thunk::Vtordisp { disp: Self::fits32(disp), stat: Self::fits_u32(stat) })
            }
            3 => {
                let vbptr = self.signed()?;
                let vboff = self.signed()?;
                let disp = self.signed()?;
                let stat = self.signed()?;
                Some(Thunk::VtordispEx {
                    vbptr: Self::fits32(vbptr),
                    vboff: Self::fits32(vboff),
                    disp: Self::fits32(disp),
                    stat: Self::fits_u32(stat),
                })
            }
            _ => None,
        };
        let mut sig = if class.no_params {
            bare_sig()
        } else {
            self.signature(!global && !class.is_static)?
        };
        sig.class = class;
        Ok((sig, thunk))
    }

    // ---- types ----
    fn ext_quals(&mut self) -> Q {
        let mut q = 0;
        if self.eat("E") {
            q |= PTR64;
        }
        if self.eat("I") {
            q |= RESTRICT;
        }
        if self.eat("F") {
            q |= UNALIGNED;
        }
        q
    }

    fn quals(&mut self) -> R<(Q, bool)> {
        let c = self.next()?;
        let k = "ABCDQRST".find(c).ok_or(Refuse)? as u8;
        Ok((k % 4, k >= 4)) // bit 0 const, bit 1 volatile
    }

    fn ty(&mut self, mode: Mode) -> R<Rc<Ty>> {
        let q = match mode {
            Mode::Mangle => self.quals()?.0,
            Mode::Result if self.eat("?") => self.quals()?.0,
            _ => 0,
        };
        let c = match self.peek() {
            None => return no(),
            Some(c) => c,
        };
        let t = match c {
            'T' | 'U' | 'V' | 'W' => {
                self.i += 1;
                let tag = match c {
                    'T' => Tag::Union,
                    'U' => Tag::Struct,
                    'V' => Tag::Class,
                    _ => {
                        self.want("4")?;
                        Tag::Enum
                    }
                };
                Ty::Tag(tag, self.type_name()?, 0)
            }
            'A' | 'P' | 'Q' | 'R' | 'S' => self.pointer()?,
            '$' if self.at("$$Q") => self.pointer()?,
            'Y' => self.array()?,
            '$' if self.eat("$$A8@@") => Ty::Func(Rc::new(self.signature(true)?)),
            '$' if self.eat("$$A6") => Ty::Func(Rc::new(self.signature(false)?)),
            '?' => {
                self.i += 1;
                let id = self.type_piece()?;
                self.want("@")?;
                Ty::Custom(id, 0)
            }
            _ => {
                let found = PRIMS.iter().position(|(code, _)| self.eat(code));
                match found {
                    Some(p) => Ty::Prim(p, 0),
                    None => return no(),
                }
            }
        };
        Ok(Rc::new(t.add_q(q)))
    }

    fn pointer(&mut self) -> R<Ty> {
        let (aff, mut q) = if self.eat("$$Q") {
            (Aff::RRef, 0)
        } else {
            match self.next()? {
                'A' => (Aff::Ref, 0),
                'P' => (Aff::Ptr, 0),
                'Q' => (Aff::Ptr, CONST),
                'R' => (Aff::Ptr, VOLATILE),
                _ => (Aff::Ptr, CONST | VOLATILE),
            }
        };
        if self.eat("6") {
            let to = Rc::new(Ty::Func(Rc::new(self.signature(false)?)));
            return Ok(Ty::Ptr { aff, q, class: None, to });
        }
        if aff == Aff::Ptr {
            // only plain pointers can point to members
            if self.eat("8") {
                let class = self.type_name()?;
                let to = Rc::new(Ty::Func(Rc::new(self.signature(true)?)));
                return Ok(Ty::Ptr { aff, q, class: Some(class), to });
            }
            if self.at_digit() {
                return no();
            }
            q |= self.ext_quals();
            let (tq, member) = match self.peek() {
                Some('A'..='D') | Some('Q'..='T') => self.quals()?,
                _ => return no(),
            };
            if member {
                let class = self.type_name()?;
                let to = self.ty(Mode::Drop)?;
                let to = Rc::new((*to).clone().set_q(tq));
                return Ok(Ty::Ptr { aff, q, class: Some(class), to });
            }
            let to = self.ty(Mode::Drop)?;
            let to = Rc::new((*to).clone().add_q(tq));
            return Ok(Ty::Ptr { aff, q, class: None, to });
        }
        q |= self.ext_quals();
        let to = self.ty(Mode::Mangle)?;
        Ok(Ty::Ptr { aff, q, class: None, to })
    }

    fn array(&mut self) -> R<Ty> {
        self.i += 1;
        let (rank, neg) = self.number()?;
        if neg || rank == 0 {
            return no();
        }
        let mut dims = vec![];
        for _ in 0..rank {
            let (d, neg) = self.number()?;
            if neg {
                return no();
            }
            dims.push(d);
        }
        let mut q = 0;
        if self.eat("$$C") {
            let (x, member) = self.quals()?;
            if member {
                return no();
            }
            q = x;
        }
        let elem = self.ty(Mode::Drop)?;
        Ok(Ty::Arr { dims, q, elem })
    }

    fn cc(&mut self) -> R<Option<usize>> {
        let c = self.next()?;
        // every convention but the last three has a second, "exported" letter
        let k = CCS.iter().position(|(code, ..)| {
            c == *code || (!"QSW".contains(*code) && c as u32 == *code as u32 + 1)
        });
        // any other character stands for a convention that isn't shown
        Ok(k)
    }

    fn signature(&mut self, member: bool) -> R<Sig> {
        let mut s = bare_sig();
        if member {
            s.q = self.ext_quals();
            if self.eat("G") {
                s.refq = 1;
            } else if self.eat("H") {
                s.refq = 2;
            }
            s.q |= self.quals()?.0;
        }
        s.cc = self.cc()?;
        if !self.eat("@") {
            s.ret = Some(self.ty(Mode::Result)?);
        }
        if !self.eat("X") {
            let mut v = vec![];
            loop {
                match self.peek() {
                    None => return no(),
                    Some('@') => {
                        self.i += 1;
                        break;
                    }
                    Some('Z') => {
                        self.i += 1;
                        s.variadic = true;
                        break;
                    }
                    Some(c @ '0'..='9') => {
                        self.i += 1;
                        match self.cx.params.get(c as usize - '0' as usize) {
                            Some(t) => v.push(t.clone()),
                            None => return no(),
                        }
                    }
                    Some(_) => {
                        let from = self.i;
                        let t = self.ty(Mode::Drop)?;
                        if self.i - from > 1 && self.cx.params.len() < 10 {
                            self.cx.params.push(t.clone());
                        }
                        v.push(t);
                    }
                }
            }
            s.params = Some(v);
        }
        if self.eat("_E") {
            s.noexcept = true;
        } else {
            self.want("Z")?;
        }
        Ok(s)
    }

    // ---- names ----
    fn simple(&mut self, memo: bool) -> R<Rc<str>> {
        let s = self.upto_at()?;
        if s.is_empty() {
            return no();
        }
        if memo {
            self.remember(s.clone(), Ident::name(&s));
        }
        Ok(s.into())
    }

    fn type_name(&mut self) -> R<QName> {
        let first = self.type_piece()?;
        self.scopes(first)
    }

    fn type_piece(&mut self) -> R<Ident> {
        if self.at_digit() {
            self.name_ref()
        } else if self.at("?$") {
            self.template(Memo::Template)
        } else {
            Ok(Ident::new(IdKind::Name(self.simple(true)?)))
        }
    }

    fn symbol_piece(&mut self, memo: Memo) -> R<Ident> {
        if self.at_digit() {
            self.name_ref()
        } else if self.at("?$") {
            self.template(memo)
        } else if self.eat("?") {
            self.operator()
        } else {
            Ok(Ident::new(IdKind::Name(self.simple(memo == Memo::Simple)?)))
        }
    }

    fn operator(&mut self) -> R<Ident> {
        let group = if self.eat("__") {
            "__"
        } else if self.eat("_") {
            "_"
        } else {
            ""
        };
        let c = self.next()?;
        if !(c.is_ascii_digit() || c.is_ascii_uppercase()) {
            return no();
        }
        let kind = match (group, c) {
            ("", '0') => IdKind::Structor { dtor: false, class: None },
            ("", '1') => IdKind::Structor { dtor: true, class: None },
            ("", 'B') => IdKind::Conv(None),
            ("__", 'K') => IdKind::LitOp(self.simple(false)?),
            _ => {
                let code = format!("{group}{c}");
                match OPS[..NOPS].iter().position(|(k, _)| *k == code) {
                    Some(o) => IdKind::Op(o),
                    // the codes nobody uses have no name
                    None => IdKind::UnknownOp(code),
                }
            }
        };
        Ok(Ident::new(kind))
    }

    /// the enclosing scopes, up to and including the closing '@'
    fn scopes(&mut self, first: Ident) -> R<QName> {
        let mut v = vec![first];
        loop {
            if self.eat("@") {
                v.reverse();
                return Ok(v);
            }
            if self.done() {
                return no();
            }
            let piece = if self.at_digit() {
                self.name_ref()?
            } else if self.at("?$") {
                self.template(Memo::Template)?
            } else if self.eat("?A") {
                let key = self.upto_at()?;
                let id = Ident::new(IdKind::Anon(key.as_str().into()));
                self.remember(key, id.clone());
                id
            } else if self.at_local() {
                self.i += 1;
                let (n, _) = self.number()?;
                self.want("?")?;
                let s = self.symbol()?;
                Ident::new(IdKind::Local(n, Rc::new(s)))
            } else {
                Ident::new(IdKind::Name(self.simple(true)?))
            };
            v.push(piece);
        }
    }

    /// ?<number>? where the number is a single digit, @ for 0, or hex digits without a leading 0
    fn at_local(&mut self) -> bool {
        if !self.at("?") {
            return false;
        }
        self.i += 1;
        let end = self.find('?');
        let from = self.i;
        self.i -= 1;
        let Some(end) = end else { return false };
        let n: String = self.s[from..end].iter().collect();
        match n.chars().count() {
            0 => false,
            1 => n == "@" || n.chars().all(|c| c.is_ascii_digit()),
            _ => {
                let Some(hex) = n.strip_suffix('@') else { return false };
                !hex.starts_with('A') && hex.chars().all(|c| ('A'..='P').contains(&c))
            }
        }
    }

    fn template(&mut self, memo: Memo) -> R<Ident> {
        self.want("?$")?;
        let outer = std::mem::take(&mut self.cx);
        let r = self.template_body();
        self.cx = outer;
        let id = r?;
        if memo == Memo::Template {
            if matches!(id.kind, IdKind::Conv(_) | IdKind::Structor { .. }) {
                return no();
            }
            self.remember_printed(&id);
        }
        Ok(id)
    }

    fn template_body(&mut self) -> R<Ident> {
        let mut id = self.symbol_piece(Memo::Simple)?;
        let mut v = vec![];
        while !self.eat("@") {
            if let Some(p) = ["$S", "$$V", "$$$V", "$$Z"].into_iter().find(|p| self.eat(p)) {
                v.push(TArg::Pack(p));
                continue;
            }
            if self.done() {
                return no();
            }
            let auto = if self.eat("$M") { Some(self.ty(Mode::Drop)?) } else { None };
            let is_auto = auto.is_some();
            let code = |p: &mut Parser, c: &str| {
                if is_auto {
                    p.eat(c)
                } else {
                    p.eat(&format!("${c}"))
                }
            };
            if self.eat("$$Y") {
                v.push(TArg::Alias(self.type_name()?));
            } else if self.eat("$$B") {
                v.push(TArg::ArrTy(self.ty(Mode::Drop)?));
            } else if self.eat("$$C") {
                v.push(TArg::CvTy(self.ty(Mode::Mangle)?));
            } else if let Some(n) =
                ["1", "H", "I", "J"].into_iter().position(|c| code(self, c))
            {
                let sym = if self.at("?") {
                    let s = self.symbol()?;
                    match s.name().and_then(|n| n.last()).cloned() {
                        Some(id) => self.remember_printed(&id),
                        None => match &s {
                            // these do have a name, but none that the grammar lets you refer to
                            Sym::Md5(t) => {
                                let id = Ident::name(t);
                                self.remember_printed(&id)
                            }
                            Sym::TypeDesc(_) => {
                                let id = Ident::name("`RTTI Type Descriptor'");
                                self.remember_printed(&id)
                            }
                            _ => return no(),
                        },
                    }
                    Some(Rc::new(s))
                } else {
                    None
                };
                let mut offs = vec![];
                for _ in 0..n {
                    offs.push(self.signed()?);
                }
                v.push(TArg::PtrTo { sym, offs, auto });
            } else if self.at("$E?") {
                self.i += 2;
                v.push(TArg::RefTo(Rc::new(self.symbol()?)));
            } else if let Some(n) = ["F", "G"].into_iter().position(|c| code(self, c)) {
                let mut offs = vec![];
                for _ in 0..n + 2 {
                    offs.push(self.signed()?);
                }
                v.push(TArg::DataMember { offs, auto });
            } else if code(self, "0") {
                let (n, neg) = self.number()?;
                v.push(match auto {
                    Some(t) => TArg::AutoInt(t, n, neg),
                    None => TArg::Int(n, neg),
                });
            } else {
                v.push(TArg::Ty(self.ty(Mode::Drop)?));
            }
        }
        id.targs = Some(v);
        Ok(id)
    }

    // ---- string literals ----
    fn char_code(&mut self) -> R<u32> {
        let c = self.next()?;
        if c != '?' {
            return if (c as u32) < 256 { Ok(c as u32) } else { no() };
        }
        let c = self.next()?;
        Ok(match c {
            '$' => {
                // both are looked at before either is judged
                let (a, b) = (self.next()?, self.next()?);
                match (a, b) {
                    ('A'..='P', 'A'..='P') => (a as u32 - 65) * 16 + b as u32 - 65,
                    _ => return no(),
                }
            }
            '0'..='9' => b",/\\:. \n\t'-"[c as usize - 48] as u32,
            'a'..='z' => c as u32 - 97 + 0xE1,
            'A'..='Z' => c as u32 - 65 + 0xC1,
            _ => return no(),
        })
    }

    fn string(&mut self) -> R<Sym> {
        self.want("@_")?;
        let wide = match self.next()? {
            '0' => false,
            '1' => true,
            _ => return no(),
        };
        let (len, neg) = self.number()?;
        if neg || len < if wide { 2 } else { 1 } {
            return no();
        }
        self.upto_at()?;
        if self.done() {
            return no();
        }
        let mut text = String::new();
        if wide {
            let truncated = len > 64;
            let mut left = len;
            while !self.eat("@") {
                let w = self.char_code()? * 256 + self.char_code()?;
                if left != 2 || truncated {
                    text += &escape(w);
                }
                left = left.saturating_sub(2);
            }
            return Ok(Sym::Str { kind: 1, text, truncated });
        }
        let mut b: Vec<u32> = vec![];
        while !self.eat("@") {
            if b.len() == 128 {
                // the bytes are read before they're counted
                self.char_code()?;
                return no();
            }
            b.push(self.char_code()?);
        }
        let truncated = len > b.len() as u64;
        let width = width(&b, len);
        let units: Vec<u32> = b
            .chunks_exact(width)
            .map(|c| c.iter().rev().fold(0, |a, x| (a << 8) | x))
            .collect();
        let shown = if truncated { units.len() } else { units.len().saturating_sub(1) };
        for u in &units[..shown] {
            text += &escape(*u);
        }
        let kind = match width {
            1 => 0,
            2 => 2,
            _ => 3,
        };
        Ok(Sym::Str { kind, text, truncated })
    }
}

/// how wide the units of a narrow-encoded literal most likely are
fn width(b: &[u32], len: u64) -> usize {
    if len % 2 == 1 {
        return 1;
    }
    let (four, two) = if len < 32 {
        let z = b.iter().rev().take_while(|x| **x == 0).count();
        (z >= 4, z >= 2)
    } else {
        let z = b.iter().filter(|x| **x == 0).count();
        (z >= 2 * b.len() / 3, z >= b.len() / 3)
    };
    if four && len % 4 == 0 {
        4
    } else if two {
        2
    } else {
        1
    }
}

pub fn escape(c: u32) -> String {
    match c {
        0 => "\\0".into(),
        7 => "\\a".into(),
        8 => "\\b".into(),
        9 => "\\t".into(),
        10 => "\\n".into(),
        11 => "\\v".into(),
        12 => "\\f".into(),
        13 => "\\r".into(),
        0x22 => "\\\"".into(),
        0x27 => "\\'".into(),
        0x5C => "\\\\".into(),
        0x20..=0x7E => char::from_u32(c).unwrap().to_string(),
        _ => format!("\\x{c:02X}"),
    }
}
