//! The reference model's printer: a pure function from (meaning, flags) to text.

use crate::ast::*;

pub const NO_CC: u16 = 1 << 0;
pub const NO_TAG: u16 = 1 << 1;
pub const NO_ACCESS: u16 = 1 << 2;
pub const NO_MEMBER: u16 = 1 << 3;
pub const NO_RET: u16 = 1 << 4;
pub const NO_VAR: u16 = 1 << 5;
pub const NO_THIS: u16 = 1 << 6;
pub const NO_UND: u16 = 1 << 7;
pub const NO_MS: u16 = 1 << 8;
pub const NAME_ONLY: u16 = 1 << 9;

pub struct Pr {
    pub f: u16,
}

fn wordy(c: char) -> bool {
    c.is_alphanumeric() || c == '_' || c == '$' || c == '>' || !c.is_ascii()
}

/// One space between two things that would otherwise run together.
fn sep(s: &mut String) {
    if s.chars().next_back().is_some_and(wordy) {
        s.push(' ');
    }
}

impl Pr {
    fn on(&self, bit: u16) -> bool {
        self.f & bit != 0
    }

    fn kw(&self, s: &'static str) -> &'static str {
        if self.on(NO_UND) {
            s.trim_start_matches('_')
        } else {
            s
        }
    }

    /// const volatile __restrict, in this order
    fn cvr(&self, q: Q) -> Vec<&'static str> {
        let mut v = vec![];
        if q & CONST != 0 {
            v.push("const");
        }
        if q & VOLATILE != 0 {
            v.push("volatile");
        }
        if q & RESTRICT != 0 && !self.on(NO_MS) {
            v.push(self.kw("__restrict"));
        }
        v
    }

    fn after(&self, s: &mut String, q: Q) {
        for w in self.cvr(q) {
            s.push(' ');
            s.push_str(w);
        }
    }

    fn cc(&self, sig: &Sig) -> Option<&'static str> {
        if self.on(NO_CC) || self.on(NO_MS) {
            return None;
        }
        sig.cc.map(|i| if self.on(NO_UND) { CCS[i].2 } else { CCS[i].1 })
    }

    /// What comes before the declared thing.
    pub fn pre(&self, t: &Ty) -> String {
        match t {
            Ty::Prim(p, q) => {
                let mut s = PRIMS[*p].1.to_string();
                self.after(&mut s, *q);
                s
            }
            Ty::Tag(tag, name, q) => {
                let mut s = String::new();
                if !self.on(NO_TAG) && !self.on(NAME_ONLY) {
                    s += match tag {
                        Tag::Class => "class ",
                        Tag::Struct => "struct ",
                        Tag::Union => "union ",
                        Tag::Enum => "enum ",
                    };
                }
                s += &self.qname(name);
                self.after(&mut s, *q);
                s
            }
            Ty::Custom(id, q) => {
                let mut s = self.ident(id);
                self.after(&mut s, *q);
                s
            }
            Ty::Arr { q, elem, .. } => {
                let mut s = self.pre(elem);
                self.after(&mut s, *q);
                s
            }
            Ty::Func(sig) => self.sig_pre(sig, true),
            Ty::Ptr { aff, q, class, to } => {
                let mut s = match &**to {
                    Ty::Func(sig) => self.sig_pre(sig, false),
                    other => self.pre(other),
                };
                sep(&mut s);
                if q & UNALIGNED != 0 && !self.on(NO_MS) {
                    s += self.kw("__unaligned");
                    s.push(' ');
                }
                match &**to {
                    Ty::Arr { .. } => s.push('('),
                    Ty::Func(sig) => {
                        s.push('(');
                        if let Some(cc) = self.cc(sig) {
                            s += cc;
                            s.push(' ');
                        }
                    }
                    _ => {}
                }
                if let Some(c) = class {
                    s += &self.qname(c);
                    s += "::";
                }
                s += match aff {
                    Aff::Ptr => "*",
                    Aff::Ref => "&",
                    Aff::RRef => "&&",
                };
                s += &self.cvr(*q).join(" ");
                s
            }
        }
    }

    /// What comes after it.
    pub fn post(&self, t: &Ty) -> String {
        match t {
            Ty::Prim(..) | Ty::Tag(..) | Ty::Custom(..) => String::new(),
            Ty::Arr { dims, elem, .. } => {
                let mut s = String::new();
                for d in dims {
                    s.push('[');
                    if *d != 0 {
                        s += &d.to_string();
                    }
                    s.push(']');
                }
                s + &self.post(elem)
            }
            Ty::Func(sig) => self.sig_post(sig),
            Ty::Ptr { to, .. } => match &**to {
                Ty::Arr { .. } => format!("){}", self.post(to)),
                Ty::Func(sig) => format!("){}", self.sig_post(sig)),
                _ => self.post(to),
            },
        }
    }

    pub fn ty(&self, t: &Ty) -> String {
        self.pre(t) + &self.post(t)
    }

    fn sig_pre(&self, sig: &Sig, with_cc: bool) -> String {
        let mut s = String::new();
        if !self.on(NO_ACCESS) {
            s += match sig.class.access {
                Access::None => "",
                Access::Private => "private: ",
                Access::Protected => "protected: ",
                Access::Public => "public: ",
            };
        }
        if !self.on(NO_MEMBER) {
            if sig.class.is_static {
                s += "static ";
            }
            if sig.class.is_virtual {
                s += "virtual ";
            }
            if sig.class.extern_c {
                s += "extern \"C\" ";
            }
        }
        if !self.on(NO_RET) {
            if let Some(r) = &sig.ret {
                s += &self.pre(r);
                s.push(' ');
            }
        }
        if with_cc {
            if let Some(cc) = self.cc(sig) {
                s += cc;
            }
        }
        s
    }

    fn sig_post(&self, sig: &Sig) -> String {
        let mut s = String::new();
        if !sig.class.no_params {
            let mut items: Vec<String> = match &sig.params {
                None => vec!["void".into()],
                Some(v) => v.iter().map(|t| self.ty(t)).collect(),
            };
            if sig.variadic {
                items.push("...".into());
            }
            s = format!("({})", items.join(", "));
        }
        if !self.on(NO_THIS) {
            if sig.q & CONST != 0 {
                s += " const";
            }
            if sig.q & VOLATILE != 0 {
                s += " volatile";
            }
            if !self.on(NO_MS) {
                if sig.q & RESTRICT != 0 {
                    s.push(' ');
                    s += self.kw("__restrict");
                }
                if sig.q & UNALIGNED != 0 {
                    s.push(' ');
                    s += self.kw("__unaligned");
                }
            }
        }
        if sig.noexcept {
            s += " noexcept";
        }
        if !self.on(NO_THIS) {
            s += ["", " &", " &&"][sig.refq as usize];
        }
        if !self.on(NO_RET) {
            if let Some(r) = &sig.ret {
                s += &self.post(r);
            }
        }
        s
    }

    pub fn qname(&self, n: &QName) -> String {
        n.iter().map(|i| self.ident(i)).collect::<Vec<_>>().join("::")
    }

    pub fn ident(&self, i: &Ident) -> String {
        let targs = match &i.targs {
            None => String::new(),
            Some(a) => format!("<{}>", self.targs(a)),
        };
        match &i.kind {
            IdKind::Name(n) => format!("{n}{targs}"),
            IdKind::Anon(_) => "`anonymous namespace'".into(),
            IdKind::Local(n, sym) => format!("`{}'::`{n}'", self.sym(sym)),
            IdKind::Op(o) => format!("{}{targs}", OPS[*o].1),
            IdKind::UnknownOp(_) => targs,
            IdKind::LitOp(n) => format!("operator \"\"{n}{targs}"),
            IdKind::Structor { dtor, class } => format!(
                "{}{}{targs}",
                if *dtor { "~" } else { "" },
                class.as_ref().map(|c| self.ident(c)).unwrap_or_default()
            ),
            IdKind::Conv(t) => format!(
                "operator{targs} {}",
                t.as_ref().map(|t| self.ty(t)).unwrap_or_default()
            ),
            IdKind::Fixed(s) => format!("{s}{targs}"),
            IdKind::Vcall(n) => {
                if self.on(NAME_ONLY) {
                    format!("`vcall'{{{n}}}")
                } else {
                    format!("`vcall'{{{n}, {{flat}}}}")
                }
            }
            IdKind::Guard { thread, index } => {
                let base = if *thread { "`local static thread guard'" } else { "`local static guard'" };
                if *index > 0 {
                    format!("{base}{{{index}}}")
                } else {
                    base.into()
                }
            }
            IdKind::BaseDesc { nv, vbptr, vbtable, flags } => {
                format!("`RTTI Base Class Descriptor at ({nv}, {vbptr}, {vbtable}, {flags})'")
            }
            IdKind::DynVar { dtor, var } => format!("`dynamic {}`{}''", init(*dtor), self.sym(var)),
            IdKind::DynName { dtor, name } => {
                format!("`dynamic {}'{}''", init(*dtor), self.qname(name))
            }
        }
    }

    fn targs(&self, a: &[TArg]) -> String {
        a.iter().filter_map(|x| self.targ(x)).collect::<Vec<_>>().join(", ")
    }

    fn targ(&self, a: &TArg) -> Option<String> {
        let list = |offs: &[i64]| {
            offs.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(", ")
        };
        Some(match a {
            TArg::Ty(t) | TArg::CvTy(t) | TArg::ArrTy(t) => self.ty(t),
            TArg::Alias(n) => self.qname(n),
            TArg::Int(v, neg) | TArg::AutoInt(_, v, neg) => {
                format!("{}{v}", if *neg { "-" } else { "" })
            }
            TArg::RefTo(s) => self.sym(s),
            TArg::PtrTo { sym, offs, .. } => {
                let name = sym.as_ref().map(|s| self.sym(s));
                if offs.is_empty() {
                    format!("&{}", name.unwrap_or_default())
                } else {
                    match name {
                        Some(n) => format!("{{{n}, {}}}", list(offs)),
                        None => format!("{{{}}}", list(offs)),
                    }
                }
            }
            TArg::DataMember { offs, .. } => format!("{{{}}}", list(offs)),
            TArg::Pack(_) => return None,
        })
    }

    pub fn sym(&self, s: &Sym) -> String {
        match s {
            Sym::Md5(t) => t.clone(),
            Sym::Str { kind, text, truncated } => format!(
                "{}\"{text}\"{}",
                ["", "L", "u", "U"][*kind as usize],
                if *truncated { "..." } else { "" }
            ),
            Sym::Guard { name } => self.qname(name),
            Sym::Table { name, q, target } => {
                let mut s = String::new();
                if !self.on(NAME_ONLY) {
                    for w in self.cvr(*q) {
                        s += w;
                        s.push(' ');
                    }
                }
                s += &self.qname(name);
                if let Some(t) = target {
                    s += &format!("{{for `{}'}}", self.qname(t));
                }
                s
            }
            Sym::TypeName(t) => {
                let mut s = self.ty(t);
                if !self.on(NAME_ONLY) {
                    sep(&mut s);
                    s += "`RTTI Type Descriptor Name'";
                }
                s
            }
            Sym::TypeDesc(t) => self.variable(9, "`RTTI Type Descriptor'".into(), Some(t)),
            Sym::Var { sc, name, ty } => self.variable(*sc, self.qname(name), ty.as_deref()),
            Sym::Func { name, sig, thunk } => {
                let adjust = match thunk {
                    None | Some(Thunk::Plain) => String::new(),
                    Some(Thunk::Adjustor(n)) => format!("`adjustor{{{n}}}'"),
                    Some(Thunk::Vtordisp { disp, stat }) => format!("`vtordisp{{{disp}, {stat}}}'"),
                    Some(Thunk::VtordispEx { vbptr, vboff, disp, stat }) => {
                        format!("`vtordispex{{{vbptr}, {vboff}, {disp}, {stat}}}'")
                    }
                };
                let name = name.as_ref().map(|n| self.qname(n)).unwrap_or_default();
                if self.on(NAME_ONLY) {
                    return name + &adjust;
                }
                let mut s = String::new();
                if thunk.is_some() {
                    s += "[thunk]: ";
                }
                s += &self.sig_pre(sig, true);
                sep(&mut s);
                s + &name + &adjust + &self.sig_post(sig)
            }
        }
    }

    fn variable(&self, sc: u8, name: String, ty: Option<&Ty>) -> String {
        if self.on(NAME_ONLY) {
            return name;
        }
        let mut s = String::new();
        if sc <= 2 {
            if !self.on(NO_ACCESS) {
                s += ["private: ", "protected: ", "public: "][sc as usize];
            }
            if !self.on(NO_MEMBER) {
                s += "static ";
            }
        }
        match ty {
            Some(t) if !self.on(NO_VAR) => {
                s += &self.pre(t);
                sep(&mut s);
                s + &name + &self.post(t)
            }
            _ => s + &name,
        }
    }
}

fn init(dtor: bool) -> &'static str {
    if dtor {
        "atexit destructor for "
    } else {
        "initializer for "
    }
}

pub fn print(s: &Sym, f: u16) -> String {
    Pr { f }.sym(s)
}
