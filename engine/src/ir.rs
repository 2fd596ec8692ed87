//! Parser for textual LLVM IR (opaque pointers) into a compact form.
use std::collections::HashMap;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    FX,
    Struct(Vec<TyId>, bool),
    Array(u64, TyId),
    Vector(u32, TyId),
    Opaque,
    Label,
    Meta,
    Token,
}

#[derive(Clone, Debug)]
pub enum C {
    Int(u32, u128),
    Undef(TyId),
    Zero(TyId),
    Float(TyId, u64),
    Str(Vec<u8>),
    Agg(TyId, Vec<C>),
    Splat(u32, Box<C>),
    Global(u32),
    Func(u32),
    Expr(Box<CExpr>),
}
#[derive(Clone, Debug)]
pub enum CExpr {
    Gep(TyId, C, Vec<C>),
    Cast(u32, C), // target bits
    Bin(&'static str, u32, C, C),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum O {
    R(u32),
    K(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bin {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    FAdd, FSub, FMul, FDiv, FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FPred { Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, False, True }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cast { Trunc, ZExt, SExt, Bit, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Nand, Max, Min, UMax, UMin }

#[derive(Clone, Debug)]
pub struct Edge {
    pub bb: u32,
    pub copies: Vec<(u32, O)>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    F(u32),
    Ptr(O),
}

#[derive(Clone, Debug)]
pub enum Op {
    Bin(Bin, TyId, O, O),
    Icmp(Pred, TyId, O, O),
    Fcmp(FPred, TyId, O, O),
    FNeg(TyId, O),
    Cast(Cast, TyId, TyId, O),
    Select(TyId, O, O, O),
    Load(TyId, O),
    Store(TyId, O, O),
    Gep(O, i64, Box<[(O, i64, u32)]>),
    VGep(O),
    Alloca(u64, O, u32),
    Br(Box<Edge>),
    CondBr(O, Box<(Edge, Edge)>),
    Switch(u32, O, Box<(Edge, Vec<(u128, Edge)>)>),
    Ret(Option<O>),
    Unreachable,
    Call(Callee, Box<[(TyId, O)]>, TyId),
    ExtractValue(O, Box<[u32]>),
    InsertValue(O, O, Box<[u32]>),
    ExtractElement(O, O),
    InsertElement(O, O, O),
    Shuffle(O, O, Box<[i32]>),
    Freeze(O),
    AtomicRmw(Rmw, TyId, O, O),
    CmpXchg(TyId, O, O, O),
    Nop,
    Bad(String),
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: u32,
    pub op: Op,
}
pub const NODST: u32 = u32::MAX;

pub struct Func {
    pub name: String,
    pub ret: TyId,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Vec<Inst>>,
    pub defined: bool,
    pub vararg: bool,
    pub body: (usize, usize), // text range, parsed lazily
}

pub struct Global {
    pub name: String,
    pub ty: TyId,
    pub init: Option<C>,
    pub constant: bool,
    pub align: u32,
}

pub struct Module {
    pub types: Vec<Ty>,
    pub tymap: HashMap<Ty, TyId>,
    pub named: HashMap<String, TyId>,
    pub layout: Vec<Option<(u64, u64)>>,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub consts: Vec<(TyId, C)>,
    pub cmap: HashMap<String, u32>,
    pub vconsts: Vec<crate::exec::V>,
}

#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    Word(&'a str),
    Loc(&'a str),
    Glob(&'a str),
    Attr,
    Meta(&'a str),
    Num(&'a str),
    Str(&'a [u8]),
    P(u8),
    Dots,
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    p: usize,
}

fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    fn st(&self, a: usize, b: usize) -> &'a str {
        unsafe { std::str::from_utf8_unchecked(&self.s[a..b]) }
    }
    fn ws(&mut self) {
        while self.p < self.s.len() {
            let c = self.s[self.p];
            if c == b';' {
                while self.p < self.s.len() && self.s[self.p] != b'\n' {
                    self.p += 1;
                }
            } else if c <= b' ' {
                self.p += 1;
            } else {
                break;
            }
        }
    }
    fn name(&mut self) -> &'a str {
        if self.s[self.p] == b'"' {
            let a = self.p + 1;
            self.p += 1;
            while self.s[self.p] != b'"' {
                self.p += 1;
            }
            let r = self.st(a, self.p);
            self.p += 1;
            r
        } else {
            let a = self.p;
            while self.p < self.s.len() && idch(self.s[self.p]) {
                self.p += 1;
            }
            self.st(a, self.p)
        }
    }
    fn next(&mut self) -> T<'a> {
        self.ws();
        if self.p >= self.s.len() {
            return T::Eof;
        }
        let c = self.s[self.p];
        match c {
            b'%' => {
                self.p += 1;
                T::Loc(self.name())
            }
            b'@' => {
                self.p += 1;
                T::Glob(self.name())
            }
            b'#' => {
                self.p += 1;
                self.name();
                T::Attr
            }
            b'!' => {
                self.p += 1;
                if self.p < self.s.len() && idch(self.s[self.p]) {
                    T::Meta(self.name())
                } else {
                    T::Meta("")
                }
            }
            b'"' => {
                let a = self.p + 1;
                self.p += 1;
                while self.s[self.p] != b'"' {
                    self.p += 1;
                }
                let r = &self.s[a..self.p];
                self.p += 1;
                T::Str(r)
            }
            b'0'..=b'9' | b'-' => {
                let a = self.p;
                self.p += 1;
                while self.p < self.s.len() && (idch(self.s[self.p]) || self.s[self.p] == b'+') {
                    self.p += 1;
                }
                T::Num(self.st(a, self.p))
            }
            b'.' => {
                if self.s[self.p..].starts_with(b"...") {
                    self.p += 3;
                    T::Dots
                } else {
                    let a = self.p;
                    self.name();
                    T::Word(self.st(a, self.p))
                }
            }
            b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'$' => {
                let a = self.p;
                while self.p < self.s.len() && idch(self.s[self.p]) {
                    self.p += 1;
                }
                T::Word(self.st(a, self.p))
            }
            _ => {
                self.p += 1;
                T::P(c)
            }
        }
    }
    fn peek(&mut self) -> T<'a> {
        let p = self.p;
        let t = self.next();
        self.p = p;
        t
    }
    fn eat(&mut self, c: u8) -> bool {
        let p = self.p;
        self.ws();
        if self.p < self.s.len() && self.s[self.p] == c {
            self.p += 1;
            true
        } else {
            self.p = p;
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            let e = (self.p + 120).min(self.s.len());
            let b = self.p.saturating_sub(120);
            panic!("expected {:?} at: {} <<HERE>> {}", c as char, String::from_utf8_lossy(&self.s[b..self.p]), String::from_utf8_lossy(&self.s[self.p..e]));
        }
    }
    fn word(&mut self, w: &str) -> bool {
        let p = self.p;
        if let T::Word(x) = self.next() {
            if x == w {
                return true;
            }
        }
        self.p = p;
        false
    }
    fn skip_balanced(&mut self) {
        // after '(' consumed
        let mut d = 1;
        while d > 0 {
            match self.next() {
                T::P(b'(') => d += 1,
                T::P(b')') => d -= 1,
                T::Eof => panic!("eof"),
                _ => {}
            }
        }
    }
    fn skip_line(&mut self) {
        while self.p < self.s.len() && self.s[self.p] != b'\n' {
            self.p += 1;
        }
    }
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut r = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 1 < s.len() {
            if s[i + 1] == b'\\' {
                r.push(b'\\');
                i += 2;
                continue;
            }
            let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
            r.push(h(s[i + 1]) * 16 + h(s[i + 2]));
            i += 3;
        } else {
            r.push(s[i]);
            i += 1;
        }
    }
    r
}

pub fn mask(b: u32) -> u128 {
    if b >= 128 {
        u128::MAX
    } else {
        (1u128 << b) - 1
    }
}

impl Module {
    fn new() -> Module {
        Module {
            types: vec![],
            tymap: HashMap::new(),
            named: HashMap::new(),
            layout: vec![],
            funcs: vec![],
            fmap: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            consts: vec![],
            cmap: HashMap::new(),
            vconsts: vec![],
        }
    }
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.types.len() as u32;
        self.types.push(t.clone());
        self.layout.push(None);
        self.tymap.insert(t, i);
        i
    }
    /// (size, align)
    pub fn sz(&mut self, t: TyId) -> (u64, u64) {
        if let Some(x) = self.layout[t as usize] {
            return x;
        }
        let r = match self.types[t as usize].clone() {
            Ty::Int(b) => {
                let by = ((b as u64) + 7) / 8;
                let al = by.next_power_of_two().min(16).max(1);
                ((by + al - 1) / al * al, al)
            }
            Ty::Ptr => (8, 8),
            Ty::F32 => (4, 4),
            Ty::F64 => (8, 8),
            Ty::FX => (16, 16),
            Ty::Array(n, e) => {
                let (s, a) = self.sz(e);
                (s * n, a)
            }
            Ty::Vector(n, e) => {
                let bits = match self.types[e as usize] {
                    Ty::Int(b) => b as u64,
                    _ => self.sz(e).0 * 8,
                };
                let by = (bits * n as u64 + 7) / 8;
                (by, by.next_power_of_two().max(1))
            }
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                let mut al = 1;
                for f in fs {
                    let (s, a) = self.sz(f);
                    let a = if packed { 1 } else { a };
                    o = (o + a - 1) / a * a + s;
                    al = al.max(a);
                }
                ((o + al - 1) / al * al, al)
            }
            _ => (0, 1),
        };
        self.layout[t as usize] = Some(r);
        r
    }
    pub fn size(&self, t: TyId) -> u64 {
        self.layout[t as usize].unwrap_or_else(|| panic!("layout of {:?}", self.types[t as usize])).0
    }
    pub fn field_off(&mut self, t: TyId, i: usize) -> (u64, TyId) {
        match self.types[t as usize].clone() {
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for (k, f) in fs.iter().enumerate() {
                    let (s, a) = self.sz(*f);
                    let a = if packed { 1 } else { a };
                    o = (o + a - 1) / a * a;
                    if k == i {
                        return (o, *f);
                    }
                    o += s;
                }
                panic!("field index")
            }
            Ty::Array(_, e) | Ty::Vector(_, e) => (self.sz(e).0 * i as u64, e),
            _ => panic!("field_off"),
        }
    }
    pub fn bits(&self, t: TyId) -> u32 {
        match self.types[t as usize] {
            Ty::Int(b) => b,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            _ => panic!("bits of {:?}", self.types[t as usize]),
        }
    }
}

struct Parser<'a> {
    m: Module,
    l: Lex<'a>,
}

struct FnCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    n: u32,
}

impl<'a> Parser<'a> {
    fn fail<X>(&self, w: &str) -> X {
        let e = (self.l.p + 160).min(self.l.s.len());
        let b = self.l.p.saturating_sub(160);
        panic!("{} at: {} <<HERE>> {}", w, String::from_utf8_lossy(&self.l.s[b..self.l.p]), String::from_utf8_lossy(&self.l.s[self.l.p..e]));
    }
    fn parse_ty(&mut self) -> TyId {
        let t = self.l.next();
        self.parse_ty_tok(t)
    }
    fn parse_ty_tok(&mut self, t: T<'a>) -> TyId {
        let r = match t {
            T::Word(w) => match w {
                "void" => Ty::Void,
                "ptr" => {
                    let r = self.m.ty(Ty::Ptr);
                    if self.l.word("addrspace") {
                        self.l.expect(b'(');
                        self.l.skip_balanced();
                    }
                    return r;
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "fp128" | "x86_fp80" | "half" | "bfloat" | "ppc_fp128" => Ty::FX,
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                "token" => Ty::Token,
                "opaque" => Ty::Opaque,
                _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => self.fail(&format!("type {}", w)),
            },
            T::P(b'{') => {
                let f = self.ty_list(b'}');
                Ty::Struct(f, false)
            }
            T::P(b'[') => {
                let n = self.num();
                if !self.l.word("x") {
                    self.fail("x")
                }
                let e = self.parse_ty();
                self.l.expect(b']');
                Ty::Array(n as u64, e)
            }
            T::P(b'<') => {
                if self.l.eat(b'{') {
                    let f = self.ty_list(b'}');
                    self.l.expect(b'>');
                    Ty::Struct(f, true)
                } else {
                    let n = self.num();
                    if !self.l.word("x") {
                        self.fail("x")
                    }
                    let e = self.parse_ty();
                    self.l.expect(b'>');
                    Ty::Vector(n as u32, e)
                }
            }
            T::Loc(n) => {
                return *self.m.named.get(n).unwrap_or_else(|| panic!("named type {}", n));
            }
            _ => self.fail("type"),
        };
        let id = self.m.ty(r);
        self.m.sz(id);
        // function type suffix "(...)" is only seen in calls; handled there
        id
    }
    fn ty_list(&mut self, close: u8) -> Vec<TyId> {
        let mut v = vec![];
        if self.l.eat(close) {
            return v;
        }
        loop {
            v.push(self.parse_ty());
            if self.l.eat(b',') {
                continue;
            }
            self.l.expect(close);
            return v;
        }
    }
    fn num(&mut self) -> i128 {
        match self.l.next() {
            T::Num(s) => parse_int(s),
            _ => self.fail("number"),
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            let p = self.l.p;
            match self.l.next() {
                T::Word(w) => match w {
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat"
                    | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "mul"
                    | "and" | "or" | "shl" | "lshr" | "blockaddress" | "asm" | "c" | "dso_local_equivalent" | "no_cfi" => {
                        self.l.p = p;
                        return;
                    }
                    "align" => {
                        if self.l.eat(b'(') {
                            self.l.skip_balanced();
                        } else {
                            self.l.next();
                        }
                    }
                    _ => {
                        let q = self.l.p;
                        // attribute with argument has '(' immediately after
                        if q < self.l.s.len() && self.l.s[q] == b'(' {
                            self.l.p += 1;
                            self.l.skip_balanced();
                        }
                    }
                },
                T::Attr => {}
                T::Str(_) => {
                    // string attribute "k"="v"
                    if self.l.eat(b'=') {
                        self.l.next();
                    }
                }
                _ => {
                    self.l.p = p;
                    return;
                }
            }
        }
    }
    fn parse_const(&mut self, ty: TyId) -> C {
        let t = self.l.next();
        match t {
            T::Num(s) => match self.m.types[ty as usize].clone() {
                Ty::Int(b) => C::Int(b, (parse_int(s) as u128) & mask(b)),
                Ty::F64 | Ty::F32 | Ty::FX => {
                    let v: f64 = if let Some(h) = s.strip_prefix("0x") {
                        if h.starts_with('K') || h.starts_with('L') || h.starts_with('M') || h.starts_with('H') {
                            0.0
                        } else {
                            f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                        }
                    } else {
                        s.parse().unwrap()
                    };
                    if self.m.types[ty as usize] == Ty::F32 {
                        C::Float(ty, (v as f32).to_bits() as u64)
                    } else {
                        C::Float(ty, v.to_bits())
                    }
                }
                _ => self.fail("num const"),
            },
            T::Glob(n) => self.global_ref(n),
            T::Word(w) => match w {
                "true" => C::Int(1, 1),
                "false" => C::Int(1, 0),
                "null" | "none" => C::Int(64, 0),
                "undef" | "poison" => C::Undef(ty),
                "zeroinitializer" => C::Zero(ty),
                "c" => match self.l.next() {
                    T::Str(s) => C::Str(unescape(s)),
                    _ => self.fail("c string"),
                },
                "splat" => {
                    self.l.expect(b'(');
                    let t2 = self.parse_ty();
                    let c = self.parse_const(t2);
                    self.l.expect(b')');
                    let n = match self.m.types[ty as usize] {
                        Ty::Vector(n, _) => n,
                        _ => self.fail("splat type"),
                    };
                    C::Splat(n, Box::new(c))
                }
                "getelementptr" => {
                    loop {
                        if self.l.eat(b'(') {
                            break;
                        }
                        match self.l.next() {
                            T::Word("inrange") => {
                                self.l.expect(b'(');
                                self.l.skip_balanced();
                            }
                            T::Word(_) => {}
                            _ => self.fail("gep const"),
                        }
                    }
                    let et = self.parse_ty();
                    self.l.expect(b',');
                    let bt = self.parse_ty();
                    let base = self.parse_const(bt);
                    let mut idx = vec![];
                    while self.l.eat(b',') {
                        let it = self.parse_ty();
                        idx.push(self.parse_const(it));
                    }
                    self.l.expect(b')');
                    C::Expr(Box::new(CExpr::Gep(et, base, idx)))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" => {
                    self.l.expect(b'(');
                    let t1 = self.parse_ty();
                    let c = self.parse_const(t1);
                    if !self.l.word("to") {
                        self.fail("to")
                    }
                    let t2 = self.parse_ty();
                    self.l.expect(b')');
                    let b = self.m.bits(t2);
                    C::Expr(Box::new(CExpr::Cast(b, c)))
                }
                "add" | "sub" | "xor" | "mul" | "and" | "or" | "shl" | "lshr" => {
                    let k = match w {
                        "add" => "add",
                        "sub" => "sub",
                        "xor" => "xor",
                        "mul" => "mul",
                        "and" => "and",
                        "or" => "or",
                        "shl" => "shl",
                        _ => "lshr",
                    };
                    while !self.l.eat(b'(') {
                        self.l.next();
                    }
                    let t1 = self.parse_ty();
                    let a = self.parse_const(t1);
                    self.l.expect(b',');
                    let t2 = self.parse_ty();
                    let b = self.parse_const(t2);
                    self.l.expect(b')');
                    let bits = self.m.bits(t1);
                    C::Expr(Box::new(CExpr::Bin(k, bits, a, b)))
                }
                _ => self.fail(&format!("const {}", w)),
            },
            T::P(b'{') => self.agg(ty, b'}'),
            T::P(b'[') => self.agg(ty, b']'),
            T::P(b'<') => {
                if self.l.eat(b'{') {
                    let r = self.agg(ty, b'}');
                    self.l.expect(b'>');
                    r
                } else {
                    self.agg(ty, b'>')
                }
            }
            _ => self.fail("const"),
        }
    }
    fn agg(&mut self, ty: TyId, close: u8) -> C {
        let mut v = vec![];
        if self.l.eat(close) {
            return C::Agg(ty, v);
        }
        loop {
            let t = self.parse_ty();
            v.push(self.parse_const(t));
            if self.l.eat(b',') {
                continue;
            }
            self.l.expect(close);
            return C::Agg(ty, v);
        }
    }
    fn global_ref(&mut self, n: &str) -> C {
        if let Some(&g) = self.m.gmap.get(n) {
            C::Global(g)
        } else if let Some(&f) = self.m.fmap.get(n) {
            C::Func(f)
        } else {
            self.fail(&format!("unknown global {}", n))
        }
    }

    fn konst(&mut self, ty: TyId, c: C) -> O {
        let key = format!("{}:{:?}", ty, c);
        if let Some(&i) = self.m.cmap.get(&key) {
            return O::K(i);
        }
        let i = self.m.consts.len() as u32;
        self.m.consts.push((ty, c));
        self.m.cmap.insert(key, i);
        O::K(i)
    }
    fn operand(&mut self, ty: TyId, f: &mut FnCtx) -> O {
        self.skip_attrs();
        if let T::Loc(n) = self.l.peek() {
            self.l.next();
            return O::R(reg(f, n));
        }
        if self.m.types[ty as usize] == Ty::Meta {
            // metadata operand
            let mut d = 0;
            loop {
                match self.l.peek() {
                    T::P(b'(') => d += 1,
                    T::P(b')') if d == 0 => break,
                    T::P(b')') => d -= 1,
                    T::P(b',') if d == 0 => break,
                    _ => {}
                }
                self.l.next();
            }
            let t = self.m.ty(Ty::Int(1));
            return self.konst(t, C::Int(1, 0));
        }
        let c = self.parse_const(ty);
        self.konst(ty, c)
    }
    fn tyop(&mut self, f: &mut FnCtx) -> (TyId, O) {
        let t = self.parse_ty();
        let o = self.operand(t, f);
        (t, o)
    }
    fn label(&mut self, f: &mut FnCtx) -> u32 {
        if !self.l.word("label") {
            self.fail("label")
        }
        match self.l.next() {
            T::Loc(n) => *f.blocks.get(n).unwrap_or_else(|| panic!("block {}", n)),
            _ => self.fail("label"),
        }
    }

    fn body(&mut self, f: &mut FnCtx) -> Vec<Vec<Inst>> {
        // First pass: find block labels.
        let start = self.l.p;
        let text = self.l.s;
        let mut p = start;
        let mut nb = 0u32;
        let mut first = true;
        let mut end = start;
        while p < text.len() {
            let mut e = p;
            while e < text.len() && text[e] != b'\n' {
                e += 1;
            }
            let line = &text[p..e];
            if line == b"}" {
                end = p;
                break;
            }
            if !line.is_empty() && line[0] != b' ' && line[0] != b'\t' && line[0] != b';' && line[0] != b'}' {
                // label
                let q = if line[0] == b'"' {
                    let k = line[1..].iter().position(|c| *c == b'"').unwrap() + 1;
                    std::str::from_utf8(&line[1..k]).unwrap().to_string()
                } else {
                    let k = line.iter().position(|c| *c == b':').unwrap();
                    std::str::from_utf8(&line[..k]).unwrap().to_string()
                };
                f.blocks.insert(q, nb);
                nb += 1;
                first = false;
            } else if first && line.iter().any(|c| *c > b' ') && !line.trim_ascii_start().starts_with(b";") {
                // entry block without a label: its name is the next unnamed number
                let nm = f.n.to_string();
                f.blocks.insert(nm, nb);
                nb += 1;
                first = false;
            }
            p = e + 1;
        }
        let mut blocks: Vec<Vec<Inst>> = vec![Vec::new(); nb as usize];
        let mut phis: Vec<Vec<(u32, Vec<(u32, O)>)>> = vec![Vec::new(); nb as usize];
        let mut cur: u32 = 0;
        let mut started = false;
        loop {
            self.l.ws();
            if self.l.p >= end {
                break;
            }
            // label?
            let ls = self.l.p;
            if ls == 0 || text[ls - 1] == b'\n' {
                let nm = if text[ls] == b'"' { self.l.p += 0; self.l.name() } else { self.l.name() };
                self.l.expect(b':');
                cur = f.blocks[nm];
                started = true;
                continue;
            }
            if !started {
                started = true;
                cur = 0;
            }
            // debug records
            if text[self.l.p] == b'#' {
                self.l.skip_line();
                continue;
            }
            let mut dst = NODST;
            if let T::Loc(n) = self.l.peek() {
                self.l.next();
                self.l.expect(b'=');
                dst = reg(f, n);
            }
            let w = match self.l.next() {
                T::Word(w) => w,
                t => self.fail(&format!("inst {:?}", t)),
            };
            if w == "phi" {
                self.fmf();
                let t = self.parse_ty();
                let mut v = vec![];
                loop {
                    self.l.expect(b'[');
                    let o = self.operand(t, f);
                    self.l.expect(b',');
                    let b = match self.l.next() {
                        T::Loc(n) => f.blocks[n],
                        _ => self.fail("phi"),
                    };
                    self.l.expect(b']');
                    v.push((b, o));
                    // another incoming or metadata
                    let p = self.l.p;
                    if self.l.eat(b',') {
                        if let T::P(b'[') = self.l.peek() {
                            continue;
                        }
                        self.l.p = p;
                    }
                    break;
                }
                self.l.skip_line();
                phis[cur as usize].push((dst, v));
                continue;
            }
            let op = self.inst(w, f);
            self.l.skip_line();
            if let Op::Nop = op {
                continue;
            }
            blocks[cur as usize].push(Inst { dst, op });
        }
        self.l.p = end;
        // fill in edge copies
        for b in 0..blocks.len() {
            if let Some(last) = blocks[b].last_mut() {
                let fix = |e: &mut Edge| {
                    for (d, inc) in &phis[e.bb as usize] {
                        let o = inc.iter().find(|x| x.0 == b as u32).map(|x| x.1).expect("phi incoming");
                        e.copies.push((*d, o));
                    }
                };
                match &mut last.op {
                    Op::Br(e) => fix(e),
                    Op::CondBr(_, e) => {
                        fix(&mut e.0);
                        fix(&mut e.1);
                    }
                    Op::Switch(_, _, e) => {
                        fix(&mut e.0);
                        for (_, x) in e.1.iter_mut() {
                            fix(x);
                        }
                    }
                    _ => {}
                }
            }
        }
        // an invoke is lowered to call + br; both were pushed by inst()
        blocks
    }
    fn fmf(&mut self) {
        loop {
            let p = self.l.p;
            if let T::Word(w) = self.l.next() {
                if matches!(
                    w,
                    "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "nuw" | "nsw" | "exact" | "disjoint"
                        | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "atomic" | "weak" | "inrange"
                ) {
                    continue;
                }
            }
            self.l.p = p;
            return;
        }
    }
    fn bin(&mut self, b: Bin, f: &mut FnCtx) -> Op {
        self.fmf();
        let (t, a) = self.tyop(f);
        self.l.expect(b',');
        let c = self.operand(t, f);
        Op::Bin(b, t, a, c)
    }
    fn cast(&mut self, c: Cast, f: &mut FnCtx) -> Op {
        self.fmf();
        let (t, a) = self.tyop(f);
        if !self.l.word("to") {
            self.fail("to")
        }
        let t2 = self.parse_ty();
        Op::Cast(c, t, t2, a)
    }
    fn inst(&mut self, w: &str, f: &mut FnCtx) -> Op {
        match w {
            "add" => self.bin(Bin::Add, f),
            "sub" => self.bin(Bin::Sub, f),
            "mul" => self.bin(Bin::Mul, f),
            "udiv" => self.bin(Bin::UDiv, f),
            "sdiv" => self.bin(Bin::SDiv, f),
            "urem" => self.bin(Bin::URem, f),
            "srem" => self.bin(Bin::SRem, f),
            "and" => self.bin(Bin::And, f),
            "or" => self.bin(Bin::Or, f),
            "xor" => self.bin(Bin::Xor, f),
            "shl" => self.bin(Bin::Shl, f),
            "lshr" => self.bin(Bin::LShr, f),
            "ashr" => self.bin(Bin::AShr, f),
            "fadd" => self.bin(Bin::FAdd, f),
            "fsub" => self.bin(Bin::FSub, f),
            "fmul" => self.bin(Bin::FMul, f),
            "fdiv" => self.bin(Bin::FDiv, f),
            "frem" => self.bin(Bin::FRem, f),
            "fneg" => {
                self.fmf();
                let (t, a) = self.tyop(f);
                Op::FNeg(t, a)
            }
            "icmp" => {
                self.fmf();
                let p = match self.l.next() {
                    T::Word(x) => match x {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => self.fail("pred"),
                    },
                    _ => self.fail("pred"),
                };
                let (t, a) = self.tyop(f);
                self.l.expect(b',');
                let b = self.operand(t, f);
                Op::Icmp(p, t, a, b)
            }
            "fcmp" => {
                self.fmf();
                let p = match self.l.next() {
                    T::Word(x) => match x {
                        "oeq" => FPred::Oeq,
                        "ogt" => FPred::Ogt,
                        "oge" => FPred::Oge,
                        "olt" => FPred::Olt,
                        "ole" => FPred::Ole,
                        "one" => FPred::One,
                        "ord" => FPred::Ord,
                        "ueq" => FPred::Ueq,
                        "ugt" => FPred::Ugt,
                        "uge" => FPred::Uge,
                        "ult" => FPred::Ult,
                        "ule" => FPred::Ule,
                        "une" => FPred::Une,
                        "uno" => FPred::Uno,
                        "true" => FPred::True,
                        _ => FPred::False,
                    },
                    _ => self.fail("pred"),
                };
                let (t, a) = self.tyop(f);
                self.l.expect(b',');
                let b = self.operand(t, f);
                Op::Fcmp(p, t, a, b)
            }
            "trunc" => self.cast(Cast::Trunc, f),
            "zext" => self.cast(Cast::ZExt, f),
            "sext" => self.cast(Cast::SExt, f),
            "bitcast" | "addrspacecast" => self.cast(Cast::Bit, f),
            "ptrtoint" | "ptrtoaddr" => self.cast(Cast::Trunc, f),
            "inttoptr" => self.cast(Cast::ZExt, f),
            "fptoui" => self.cast(Cast::FpToUi, f),
            "fptosi" => self.cast(Cast::FpToSi, f),
            "uitofp" => self.cast(Cast::UiToFp, f),
            "sitofp" => self.cast(Cast::SiToFp, f),
            "fpext" => self.cast(Cast::FpExt, f),
            "fptrunc" => self.cast(Cast::FpTrunc, f),
            "select" => {
                self.fmf();
                let (_, c) = self.tyop(f);
                self.l.expect(b',');
                let (t, a) = self.tyop(f);
                self.l.expect(b',');
                let (_, b) = self.tyop(f);
                Op::Select(t, c, a, b)
            }
            "load" => {
                self.fmf();
                let t = self.parse_ty();
                self.l.expect(b',');
                let (_, p) = self.tyop(f);
                Op::Load(t, p)
            }
            "store" => {
                self.fmf();
                let (t, v) = self.tyop(f);
                self.l.expect(b',');
                let (_, p) = self.tyop(f);
                Op::Store(t, v, p)
            }
            "getelementptr" => {
                self.fmf();
                let et = self.parse_ty();
                self.l.expect(b',');
                let (bt, base) = self.tyop(f);
                if let Ty::Vector(..) = self.m.types[bt as usize] {
                    return Op::Bad("vector gep".into());
                }
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = et;
                let mut k = 0;
                loop {
                    let p = self.l.p;
                    if !self.l.eat(b',') {
                        break;
                    }
                    if let T::Meta(_) = self.l.peek() {
                        self.l.p = p;
                        break;
                    }
                    let (it, o) = self.tyop(f);
                    let bits = match self.m.types[it as usize] {
                        Ty::Int(b) => b,
                        _ => return Op::Bad("gep index".into()),
                    };
                    let cval = match o {
                        O::K(i) => match &self.m.consts[i as usize].1 {
                            C::Int(b, v) => Some(sext(*v, *b) as i64),
                            C::Zero(_) | C::Undef(_) => Some(0),
                            _ => None,
                        },
                        _ => None,
                    };
                    let is_struct = k > 0 && matches!(self.m.types[cur as usize], Ty::Struct(..));
                    if is_struct {
                        let (o2, t2) = self.m.field_off(cur, cval.unwrap() as usize);
                        off += o2 as i64;
                        cur = t2;
                    } else {
                        let elem = if k == 0 {
                            cur
                        } else {
                            match self.m.types[cur as usize] {
                                Ty::Array(_, e) | Ty::Vector(_, e) => e,
                                _ => panic!("gep type"),
                            }
                        };
                        let s = self.m.sz(elem).0 as i64;
                        match cval {
                            Some(v) => off = off.wrapping_add(s.wrapping_mul(v)),
                            None => terms.push((o, s, bits)),
                        }
                        cur = elem;
                    }
                    k += 1;
                }
                Op::Gep(base, off, terms.into_boxed_slice())
            }
            "alloca" => {
                if self.l.word("inalloca") {}
                let t = self.parse_ty();
                let s = self.m.sz(t).0;
                let mut al = self.m.sz(t).1 as u32;
                let one = self.m.ty(Ty::Int(64));
                let mut cnt = self.konst(one, C::Int(64, 1));
                loop {
                    let p = self.l.p;
                    if !self.l.eat(b',') {
                        break;
                    }
                    match self.l.peek() {
                        T::Word("align") => {
                            self.l.next();
                            al = self.num() as u32;
                        }
                        T::Meta(_) => {
                            self.l.p = p;
                            break;
                        }
                        _ => {
                            let (_, o) = self.tyop(f);
                            cnt = o;
                        }
                    }
                }
                Op::Alloca(s, cnt, al)
            }
            "br" => {
                if let T::Word("label") = self.l.peek() {
                    let b = self.label(f);
                    return Op::Br(Box::new(Edge { bb: b, copies: vec![] }));
                }
                let (_, c) = self.tyop(f);
                self.l.expect(b',');
                let a = self.label(f);
                self.l.expect(b',');
                let b = self.label(f);
                Op::CondBr(c, Box::new((Edge { bb: a, copies: vec![] }, Edge { bb: b, copies: vec![] })))
            }
            "switch" => {
                let (t, v) = self.tyop(f);
                let bits = self.m.bits(t);
                self.l.expect(b',');
                let d = self.label(f);
                self.l.expect(b'[');
                let mut cs = vec![];
                while !self.l.eat(b']') {
                    let ct = self.parse_ty();
                    let c = self.parse_const(ct);
                    self.l.expect(b',');
                    let b = self.label(f);
                    let cv = match c {
                        C::Int(_, v) => v,
                        _ => self.fail("case"),
                    };
                    cs.push((cv, Edge { bb: b, copies: vec![] }));
                }
                Op::Switch(bits, v, Box::new((Edge { bb: d, copies: vec![] }, cs)))
            }
            "ret" => {
                let t = self.parse_ty();
                if self.m.types[t as usize] == Ty::Void {
                    return Op::Ret(None);
                }
                let o = self.operand(t, f);
                Op::Ret(Some(o))
            }
            "unreachable" | "resume" => Op::Unreachable,
            "tail" | "musttail" | "notail" => {
                self.l.next(); // call
                self.call(f)
            }
            "call" => self.call(f),
            "extractvalue" => {
                let (_, a) = self.tyop(f);
                let mut ix = vec![];
                loop {
                    let p = self.l.p;
                    if !self.l.eat(b',') {
                        break;
                    }
                    if let T::Num(_) = self.l.peek() {
                        ix.push(self.num() as u32);
                    } else {
                        self.l.p = p;
                        break;
                    }
                }
                Op::ExtractValue(a, ix.into_boxed_slice())
            }
            "insertvalue" => {
                let (_, a) = self.tyop(f);
                self.l.expect(b',');
                let (_, v) = self.tyop(f);
                let mut ix = vec![];
                loop {
                    let p = self.l.p;
                    if !self.l.eat(b',') {
                        break;
                    }
                    if let T::Num(_) = self.l.peek() {
                        ix.push(self.num() as u32);
                    } else {
                        self.l.p = p;
                        break;
                    }
                }
                Op::InsertValue(a, v, ix.into_boxed_slice())
            }
            "extractelement" => {
                let (_, a) = self.tyop(f);
                self.l.expect(b',');
                let (_, i) = self.tyop(f);
                Op::ExtractElement(a, i)
            }
            "insertelement" => {
                let (_, a) = self.tyop(f);
                self.l.expect(b',');
                let (_, v) = self.tyop(f);
                self.l.expect(b',');
                let (_, i) = self.tyop(f);
                Op::InsertElement(a, v, i)
            }
            "shufflevector" => {
                let (_, a) = self.tyop(f);
                self.l.expect(b',');
                let (_, b) = self.tyop(f);
                self.l.expect(b',');
                let mt = self.parse_ty();
                let n = match self.m.types[mt as usize] {
                    Ty::Vector(n, _) => n,
                    _ => self.fail("mask"),
                };
                let c = self.parse_const(mt);
                let mut mk = vec![];
                match c {
                    C::Zero(_) => mk = vec![0; n as usize],
                    C::Undef(_) => mk = vec![-1; n as usize],
                    C::Splat(n, c) => {
                        let v = match *c {
                            C::Int(_, v) => v as i32,
                            _ => -1,
                        };
                        mk = vec![v; n as usize];
                    }
                    C::Agg(_, v) => {
                        for c in v {
                            mk.push(match c {
                                C::Int(_, v) => v as i32,
                                _ => -1,
                            })
                        }
                    }
                    _ => self.fail("mask"),
                }
                Op::Shuffle(a, b, mk.into_boxed_slice())
            }
            "freeze" => {
                let (_, a) = self.tyop(f);
                Op::Freeze(a)
            }
            "fence" => Op::Nop,
            "atomicrmw" => {
                self.fmf();
                let k = match self.l.next() {
                    T::Word(x) => match x {
                        "xchg" => Rmw::Xchg,
                        "add" => Rmw::Add,
                        "sub" => Rmw::Sub,
                        "and" => Rmw::And,
                        "or" => Rmw::Or,
                        "xor" => Rmw::Xor,
                        "nand" => Rmw::Nand,
                        "max" => Rmw::Max,
                        "min" => Rmw::Min,
                        "umax" => Rmw::UMax,
                        "umin" => Rmw::UMin,
                        _ => return Op::Bad("rmw".into()),
                    },
                    _ => self.fail("rmw"),
                };
                let (_, p) = self.tyop(f);
                self.l.expect(b',');
                let (t, v) = self.tyop(f);
                Op::AtomicRmw(k, t, p, v)
            }
            "cmpxchg" => {
                self.fmf();
                let (_, p) = self.tyop(f);
                self.l.expect(b',');
                let (t, a) = self.tyop(f);
                self.l.expect(b',');
                let (_, b) = self.tyop(f);
                Op::CmpXchg(t, p, a, b)
            }
            "landingpad" | "catchpad" | "cleanuppad" | "catchswitch" | "cleanupret" | "catchret" | "va_arg" | "callbr"
            | "indirectbr" => Op::Bad(w.to_string()),
            _ => self.fail(&format!("unknown instruction {}", w)),
        }
    }
    fn call(&mut self, f: &mut FnCtx) -> Op {
        self.fmf();
        // cconv / ret attrs then type
        loop {
            let p = self.l.p;
            match self.l.next() {
                T::Word(w) => {
                    let isty = matches!(w, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "metadata" | "token")
                        || (w.starts_with('i') && w[1..].parse::<u32>().is_ok());
                    if isty {
                        self.l.p = p;
                        break;
                    }
                    if self.l.p < self.l.s.len() && self.l.s[self.l.p] == b'(' {
                        self.l.p += 1;
                        self.l.skip_balanced();
                    } else if w == "align" || w == "addrspace" {
                        self.l.next();
                    }
                }
                _ => {
                    self.l.p = p;
                    break;
                }
            }
        }
        let rt = self.parse_ty();
        // optional function type params
        if self.l.eat(b'(') {
            self.l.skip_balanced();
        }
        let callee = match self.l.next() {
            T::Glob(n) => match self.m.fmap.get(n) {
                Some(&i) => Callee::F(i),
                None => panic!("call of unknown {}", n),
            },
            T::Loc(n) => Callee::Ptr(O::R(reg(f, n))),
            T::Word("asm") => {
                return {
                    // consume nothing more; treated as an error if reached
                    let e = (self.l.p + 60).min(self.l.s.len());
                    let s = String::from_utf8_lossy(&self.l.s[self.l.p..e]).to_string();
                    if s.trim_start().starts_with("sideeffect") && s.contains("\"\"") || s.trim_start().starts_with("\"\"") {
                        Op::Nop
                    } else {
                        Op::Bad(format!("asm {}", s))
                    }
                };
            }
            T::Word("inttoptr") => return Op::Bad("call of constant".into()),
            T::Word("null") | T::Word("undef") | T::Word("poison") => return Op::Bad("call null".into()),
            t => self.fail(&format!("callee {:?}", t)),
        };
        self.l.expect(b'(');
        let mut args = vec![];
        if !self.l.eat(b')') {
            loop {
                let (t, o) = self.tyop(f);
                args.push((t, o));
                if self.l.eat(b',') {
                    continue;
                }
                self.l.expect(b')');
                break;
            }
        }
        Op::Call(callee, args.into_boxed_slice(), rt)
    }
}

fn reg(f: &mut FnCtx, n: &str) -> u32 {
    if let Some(&r) = f.regs.get(n) {
        return r;
    }
    let r = f.regs.len() as u32;
    f.regs.insert(n.to_string(), r);
    r
}

pub fn sext(v: u128, b: u32) -> i128 {
    if b >= 128 {
        v as i128
    } else {
        ((v << (128 - b)) as i128) >> (128 - b)
    }
}

fn parse_int(s: &str) -> i128 {
    if let Some(h) = s.strip_prefix("u0x") {
        return u128::from_str_radix(h, 16).unwrap() as i128;
    }
    if let Ok(v) = s.parse::<i128>() {
        return v;
    }
    s.parse::<u128>().map(|x| x as i128).unwrap_or_else(|_| panic!("int {}", s))
}

/// Parses the whole module.
pub fn parse(text: &'static [u8]) -> Module {
    // Pass 0: collect top-level lines.
    let mut p = Parser { m: Module::new(), l: Lex { s: text, p: 0 } };
    let mut tyline: Vec<(String, usize)> = vec![];
    let mut globs: Vec<usize> = vec![];
    let mut fns: Vec<(usize, bool)> = vec![];
    let mut pos = 0;
    let n = text.len();
    let mut infn = false;
    while pos < n {
        let mut e = pos;
        while e < n && text[e] != b'\n' {
            e += 1;
        }
        let line = &text[pos..e];
        if infn {
            if line == b"}" {
                infn = false;
            }
        } else if line.starts_with(b"define ") {
            fns.push((pos, true));
            infn = true;
        } else if line.starts_with(b"declare ") {
            fns.push((pos, false));
        } else if line.starts_with(b"@") {
            globs.push(pos);
        } else if line.starts_with(b"%") {
            let mut l = Lex { s: text, p: pos };
            if let T::Loc(nm) = l.next() {
                tyline.push((nm.to_string(), l.p));
            }
        }
        pos = e + 1;
    }
    // named types: resolve recursively by repeated attempts (they are emitted
    // in arbitrary order).
    {
        let idx: HashMap<String, usize> = tyline.iter().map(|x| (x.0.clone(), x.1)).collect();
        fn need(p: &mut Parser<'static>, idx: &HashMap<String, usize>, nm: &str) {
            if p.m.named.contains_key(nm) {
                return;
            }
            let at = idx[nm];
            // find referenced names first
            let mut l = Lex { s: p.l.s, p: at };
            let end = {
                let mut e = at;
                while p.l.s[e] != b'\n' {
                    e += 1;
                }
                e
            };
            let mut deps = vec![];
            while l.p < end {
                if let T::Loc(d) = l.next() {
                    deps.push(d.to_string());
                }
            }
            for d in deps {
                need(p, idx, &d);
            }
            p.l.p = at;
            p.l.expect(b'=');
            if !p.l.word("type") {
                p.fail::<()>("type");
            }
            let t = p.parse_ty();
            p.m.named.insert(nm.to_string(), t);
        }
        for (nm, _) in &tyline {
            need(&mut p, &idx, nm);
        }
    }
    // function signatures
    let mut bodies = vec![];
    for &(at, def) in &fns {
        p.l.p = at;
        p.l.next();
        // skip to return type
        loop {
            let q = p.l.p;
            match p.l.next() {
                T::Word(w) => {
                    let isty = matches!(w, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "metadata" | "token")
                        || (w.starts_with('i') && w.len() > 1 && w[1..].parse::<u32>().is_ok());
                    if isty {
                        p.l.p = q;
                        break;
                    }
                    if p.l.s[p.l.p] == b'(' {
                        p.l.p += 1;
                        p.l.skip_balanced();
                    } else if w == "align" {
                        p.l.next();
                    }
                }
                T::Meta(_) => {
                    p.l.next();
                }
                _ => {
                    p.l.p = q;
                    break;
                }
            }
        }
        let ret = p.parse_ty();
        let name = match p.l.next() {
            T::Glob(n) => n.to_string(),
            t => p.fail(&format!("fname {:?}", t)),
        };
        p.l.expect(b'(');
        let mut f = FnCtx { regs: HashMap::new(), blocks: HashMap::new(), n: 0 };
        let mut np = 0u32;
        let mut vararg = false;
        if !p.l.eat(b')') {
            loop {
                if p.l.peek() == T::Dots {
                    p.l.next();
                    vararg = true;
                    p.l.expect(b')');
                    break;
                }
                let _t = p.parse_ty();
                p.skip_attrs();
                if let T::Loc(n) = p.l.peek() {
                    p.l.next();
                    let r = reg(&mut f, n);
                    assert_eq!(r, np);
                    if n.parse::<u32>().is_ok() {
                        f.n += 1;
                    }
                } else {
                    let nm = f.n.to_string();
                    reg(&mut f, &nm);
                    f.n += 1;
                }
                np += 1;
                if p.l.eat(b',') {
                    continue;
                }
                p.l.expect(b')');
                break;
            }
        }
        let id = p.m.funcs.len() as u32;
        p.m.fmap.insert(name.clone(), id);
        p.m.funcs.push(Func { name, ret, nparams: np, nregs: np, blocks: vec![], defined: def, vararg, body: (0, 0) });
        if def {
            p.l.skip_line();
            // the opening brace is the last char of the line
            p.l.p += 1;
            bodies.push((id, p.l.p, f));
        }
    }
    // global names
    for (i, &at) in globs.iter().enumerate() {
        p.l.p = at;
        if let T::Glob(nm) = p.l.next() {
            p.m.gmap.insert(nm.to_string(), i as u32);
        }
    }
    for &at in &globs {
        p.l.p = at;
        let name = match p.l.next() {
            T::Glob(n) => n.to_string(),
            _ => unreachable!(),
        };
        p.l.expect(b'=');
        let mut constant = false;
        let mut external = false;
        let mut alias = false;
        loop {
            let q = p.l.p;
            match p.l.next() {
                T::Word("constant") => {
                    constant = true;
                    break;
                }
                T::Word("global") => break,
                T::Word("alias") => {
                    alias = true;
                    break;
                }
                T::Word("external") | T::Word("extern_weak") => external = true,
                T::Word(_) => {
                    if p.l.s[p.l.p] == b'(' {
                        p.l.p += 1;
                        p.l.skip_balanced();
                    }
                }
                _ => {
                    p.l.p = q;
                    p.fail::<()>("global");
                }
            }
        }
        let ty = p.parse_ty();
        if alias {
            p.l.expect(b',');
            let t2 = p.parse_ty();
            let c = p.parse_const(t2);
            p.m.globals.push(Global { name: format!("alias {}", name), ty, init: Some(c), constant, align: 1 });
            continue;
        }
        let init = if external { None } else { Some(p.parse_const(ty)) };
        p.m.globals.push(Global { name, ty, init, constant, align: 16 });
    }
    for (id, at, mut f) in bodies {
        p.l.p = at;
        let b = p.body(&mut f);
        let fun = &mut p.m.funcs[id as usize];
        fun.blocks = b;
        fun.nregs = f.regs.len() as u32;
    }
    for i in 0..p.m.types.len() {
        p.m.sz(i as u32);
    }
    p.m
}
