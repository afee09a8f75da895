//! The reference model's abstract syntax: what a decorated name *means*, independent of how it is
//! spelled. Nothing in here shares code with the crate under test.

use std::rc::Rc;

pub type Q = u8;
pub const CONST: Q = 1;
pub const VOLATILE: Q = 2;
pub const RESTRICT: Q = 4;
pub const UNALIGNED: Q = 8;
pub const PTR64: Q = 16;

/// (mangled code, C++ spelling)
pub const PRIMS: [(&str, &str); 23] = [
    ("H", "int"),
    ("D", "char"),
    ("X", "void"),
    ("_N", "bool"),
    ("C", "signed char"),
    ("E", "unsigned char"),
    ("F", "short"),
    ("G", "unsigned short"),
    ("I", "unsigned int"),
    ("J", "long"),
    ("K", "unsigned long"),
    ("M", "float"),
    ("N", "double"),
    ("O", "long double"),
    ("_J", "__int64"),
    ("_K", "unsigned __int64"),
    ("_W", "wchar_t"),
    ("_Q", "char8_t"),
    ("_S", "char16_t"),
    ("_U", "char32_t"),
    ("_P", "auto"),
    ("_T", "decltype(auto)"),
    ("$$T", "std::nullptr_t"),
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tag {
    Class,
    Struct,
    Union,
    Enum,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Aff {
    Ptr,
    Ref,
    RRef,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ty {
    Prim(usize, Q),
    Tag(Tag, QName, Q),
    Ptr { aff: Aff, q: Q, class: Option<QName>, to: Rc<Ty> },
    Arr { dims: Vec<u64>, q: Q, elem: Rc<Ty> },
    Func(Rc<Sig>),
    Custom(Ident, Q),
}

impl Ty {
    pub fn add_q(self, x: Q) -> Ty {
        match self {
            Ty::Prim(p, q) => Ty::Prim(p, q | x),
            Ty::Tag(t, n, q) => Ty::Tag(t, n, q | x),
            Ty::Ptr { aff, q, class, to } => Ty::Ptr { aff, q: q | x, class, to },
            Ty::Arr { dims, q, elem } => Ty::Arr { dims, q: q | x, elem },
            Ty::Func(s) => {
                let mut s = (*s).clone();
                s.q |= x;
                Ty::Func(Rc::new(s))
            }
            Ty::Custom(i, q) => Ty::Custom(i, q | x),
        }
    }

    pub fn set_q(self, x: Q) -> Ty {
        match self {
            Ty::Prim(p, _) => Ty::Prim(p, x),
            Ty::Tag(t, n, _) => Ty::Tag(t, n, x),
            Ty::Ptr { aff, class, to, .. } => Ty::Ptr { aff, q: x, class, to },
            Ty::Arr { dims, elem, .. } => Ty::Arr { dims, q: x, elem },
            Ty::Func(s) => {
                let mut s = (*s).clone();
                s.q = x;
                Ty::Func(Rc::new(s))
            }
            Ty::Custom(i, _) => Ty::Custom(i, x),
        }
    }
}

/// Calling conventions: (mangled code, spelling, spelling without leading underscores)
pub const CCS: [(char, &str, &str); 10] = [
    ('A', "__cdecl", "cdecl"),
    ('E', "__thiscall", "thiscall"),
    ('G', "__stdcall", "stdcall"),
    ('I', "__fastcall", "fastcall"),
    ('Q', "__vectorcall", "vectorcall"),
    ('M', "__clrcall", "clrcall"),
    ('C', "__pascal", "pascal"),
    ('O', "__eabi", "eabi"),
    ('S', "__attribute__((__swiftcall__)) ", "__attribute__((__swiftcall__)) "),
    ('W', "__attribute__((__swiftasynccall__)) ", "__attribute__((__swiftasynccall__)) "),
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Access {
    None,
    Private,
    Protected,
    Public,
}

/// What the function-class letter says.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Class {
    pub access: Access,
    pub is_static: bool,
    pub is_virtual: bool,
    pub extern_c: bool,
    pub no_params: bool,
}

pub const FREE: Class = Class {
    access: Access::None,
    is_static: false,
    is_virtual: false,
    extern_c: false,
    no_params: false,
};

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Sig {
    pub class: Class,
    pub q: Q,
    pub refq: u8, // 0 none, 1 &, 2 &&
    pub cc: Option<usize>,
    pub ret: Option<Rc<Ty>>,
    /// `None`: the list is spelled X, i.e. (void)
    pub params: Option<Vec<Rc<Ty>>>,
    pub variadic: bool,
    pub noexcept: bool,
}

pub fn bare_sig() -> Sig {
    Sig {
        class: FREE,
        q: 0,
        refq: 0,
        cc: None,
        ret: None,
        params: None,
        variadic: false,
        noexcept: false,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Thunk {
    /// no adjustment text (vcall)
    Plain,
    Adjustor(i64),
    Vtordisp { disp: i64, stat: i64 },
    VtordispEx { vbptr: i64, vboff: i64, disp: i64, stat: i64 },
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ident {
    pub kind: IdKind,
    pub targs: Option<Vec<TArg>>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum IdKind {
    Name(Rc<str>),
    Anon(Rc<str>),
    Local(u64, Rc<Sym>),
    /// index into OPS
    Op(usize),
    /// an operator code nobody assigned a meaning to
    UnknownOp(String),
    LitOp(Rc<str>),
    /// the class is what encloses it
    Structor { dtor: bool, class: Option<Rc<Ident>> },
    Conv(Option<Rc<Ty>>),
    /// `vftable' and friends, verbatim
    Fixed(&'static str),
    Vcall(u64),
    Guard { thread: bool, index: u64 },
    BaseDesc { nv: u64, vbptr: i64, vbtable: u64, flags: u64 },
    DynVar { dtor: bool, var: Rc<Sym> },
    DynName { dtor: bool, name: QName },
}

impl Ident {
    pub fn new(kind: IdKind) -> Ident {
        Ident { kind, targs: None }
    }
    pub fn name(s: &str) -> Ident {
        Ident::new(IdKind::Name(s.into()))
    }
}

/// Innermost last, i.e. in the order C++ writes them.
pub type QName = Vec<Ident>;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum TArg {
    Ty(Rc<Ty>),
    /// `$$C`: a type spelled along with its own qualifiers
    CvTy(Rc<Ty>),
    /// `$$B`
    ArrTy(Rc<Ty>),
    /// `$$Y`
    Alias(QName),
    Int(u64, bool),
    /// `$1 $H $I $J`: pointer to symbol, with 0..=3 offsets
    PtrTo { sym: Option<Rc<Sym>>, offs: Vec<i64>, auto: Option<Rc<Ty>> },
    /// `$E`
    RefTo(Rc<Sym>),
    /// `$F $G`
    DataMember { offs: Vec<i64>, auto: Option<Rc<Ty>> },
    /// auto-typed integer `$M<type>0<number>`
    AutoInt(Rc<Ty>, u64, bool),
    /// pack separators print nothing
    Pack(&'static str),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Sym {
    Md5(String),
    Var { sc: u8, name: QName, ty: Option<Rc<Ty>> },
    /// `.` names
    TypeName(Rc<Ty>),
    /// `??_R0`
    TypeDesc(Rc<Ty>),
    Func { name: Option<QName>, sig: Sig, thunk: Option<Thunk> },
    Table { name: QName, q: Q, target: Option<QName> },
    Guard { name: QName },
    Str { kind: u8, text: String, truncated: bool }, // kind: 0 char 1 wchar 2 char16 3 char32
}

impl Sym {
    pub fn name(&self) -> Option<&QName> {
        match self {
            Sym::Var { name, .. } | Sym::Table { name, .. } | Sym::Guard { name } => Some(name),
            Sym::Func { name, .. } => name.as_ref(),
            _ => None,
        }
    }
}

/// (mangled code after the ?, text). From Microsoft's and LLVM's operator tables.
pub const OPS: [(&str, &str); 67] = [
    ("4", "operator="),
    ("2", "operator new"),
    ("3", "operator delete"),
    ("5", "operator>>"),
    ("6", "operator<<"),
    ("7", "operator!"),
    ("8", "operator=="),
    ("9", "operator!="),
    ("A", "operator[]"),
    ("C", "operator->"),
    ("D", "operator*"),
    ("E", "operator++"),
    ("F", "operator--"),
    ("G", "operator-"),
    ("H", "operator+"),
    ("I", "operator&"),
    ("J", "operator->*"),
    ("K", "operator/"),
    ("L", "operator%"),
    ("M", "operator<"),
    ("N", "operator<="),
    ("O", "operator>"),
    ("P", "operator>="),
    ("Q", "operator,"),
    ("R", "operator()"),
    ("S", "operator~"),
    ("T", "operator^"),
    ("U", "operator|"),
    ("V", "operator&&"),
    ("W", "operator||"),
    ("X", "operator*="),
    ("Y", "operator+="),
    ("Z", "operator-="),
    ("_0", "operator/="),
    ("_1", "operator%="),
    ("_2", "operator>>="),
    ("_3", "operator<<="),
    ("_4", "operator&="),
    ("_5", "operator|="),
    ("_6", "operator^="),
    ("_D", "`vbase dtor'"),
    ("_E", "`vector deleting dtor'"),
    ("_F", "`default constructor closure'"),
    ("_G", "`scalar deleting dtor'"),
    ("_H", "`vector ctor iterator'"),
    ("_I", "`vector dtor iterator'"),
    ("_J", "`vector vbase ctor iterator'"),
    ("_K", "`virtual displacement map'"),
    ("_L", "`eh vector ctor iterator'"),
    ("_M", "`eh vector dtor iterator'"),
    ("_N", "`eh vector vbase ctor iterator'"),
    ("_O", "`copy ctor closure'"),
    ("_T", "`local vftable ctor closure'"),
    ("_U", "operator new[]"),
    ("_V", "operator delete[]"),
    ("__A", "`managed vector ctor iterator'"),
    ("__B", "`managed vector dtor iterator'"),
    ("__C", "`EH vector copy ctor iterator'"),
    ("__D", "`EH vector vbase copy ctor iterator'"),
    ("__G", "`vector copy ctor iterator'"),
    ("__H", "`vector vbase copy constructor iterator'"),
    ("__I", "`managed vector vbase copy constructor iterator'"),
    ("__L", "operator co_await"),
    ("__M", "operator<=>"),
    // duplicates of the first entry keep the table a fixed size; never generated
    ("", ""),
    ("", ""),
    ("", ""),
];
pub const NOPS: usize = 64;
