//! Symbolic interpreter of the parsed IR.
use crate::expr::{Arena, FxB, E};
use crate::ir::*;
use crate::z3::{R as ZR, Z};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    I(u64),
    W(Rc<u128>),
    S(u32),
    A(Rc<Vec<V>>),
}
const Z0: V = V::I(0);

#[derive(Clone)]
pub struct Obj {
    pub b: Vec<u8>,
    pub s: Vec<u32>, // empty, or one expression id (0: concrete) per byte
    pub ro: bool,
}
const CH: usize = 64;
#[derive(Clone)]
struct Chunk([Option<Rc<Obj>>; CH]);

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    free: Vec<u32>,
    n: u32,
}
const SH: u32 = 24;
const FN_BASE: u64 = 1 << 60;

impl Mem {
    fn new() -> Mem {
        let mut m = Mem { chunks: vec![], free: vec![], n: 1 };
        m.grow();
        m
    }
    fn grow(&mut self) {
        self.chunks.push(Rc::new(Chunk(std::array::from_fn(|_| None))));
    }
    fn alloc(&mut self, size: u64) -> u64 {
        let id = if let Some(i) = self.free.pop() {
            i
        } else {
            let i = self.n;
            self.n += 1;
            if (i as usize) / CH >= self.chunks.len() {
                self.grow();
            }
            i
        };
        let c = Rc::make_mut(&mut self.chunks[id as usize / CH]);
        c.0[id as usize % CH] = Some(Rc::new(Obj { b: vec![0; size as usize], s: vec![], ro: false }));
        (id as u64) << SH
    }
    fn release(&mut self, id: u32) {
        let c = Rc::make_mut(&mut self.chunks[id as usize / CH]);
        c.0[id as usize % CH] = None;
        self.free.push(id);
    }
    #[inline]
    fn obj(&self, a: u64) -> Option<&Obj> {
        let id = (a >> SH) as usize;
        match self.chunks.get(id / CH) {
            Some(c) => c.0[id % CH].as_deref(),
            None => None,
        }
    }
    #[inline]
    fn obj_mut(&mut self, a: u64) -> Option<&mut Obj> {
        let id = (a >> SH) as usize;
        match self.chunks.get_mut(id / CH) {
            Some(c) => match Rc::make_mut(c).0[id % CH].as_mut() {
                Some(o) => Some(Rc::make_mut(o)),
                None => None,
            },
            None => None,
        }
    }
}

#[derive(Clone)]
struct Frame {
    f: u32,
    bb: u32,
    ip: u32,
    base: u32,
    dst: u32,
    obj: u32,
    dyns: Vec<u32>,
}

#[derive(Clone, Debug)]
pub enum In {
    Var(u32, u32), // expression
    K(u64),
    #[allow(dead_code)]
    X,
}

#[derive(Clone)]
pub struct State {
    regs: Vec<V>,
    frames: Vec<Frame>,
    mem: Mem,
    pub cons: Vec<u32>,
    /// unsigned bounds of expressions that follow from `cons`
    dom: Rc<HashMap<u32, (u128, u128), crate::expr::FxB>>,
    pub model: Rc<Vec<u64>>,
    pub inputs: Vec<(u32, In)>,
    nvar: u32,
    pub notes: Vec<(u32, V)>,
    pub instr: u64,
    checks: u32,
}

pub enum End {
    /// the path ended
    Stop(Out),
}
#[derive(Debug, Clone)]
pub enum Out {
    Finished,
    Done,
    Pruned,
    Violated,
    Panic(String),
    Error(String),
}
fn err<T>(s: impl Into<String>) -> Result<T, End> {
    Err(End::Stop(Out::Error(s.into())))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ext {
    Unknown,
    Sym,
    Choose,
    Assume,
    Check,
    Reach,
    Concrete,
    Done,
    Note,
    SelectPick,
    HashOne,
    Format,
    Panic,
    Nop,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Strlen,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Umax,
    Umin,
    Smax,
    Smin,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    UaddSat,
    UsubSat,
    SaddSat,
    SsubSat,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    Abs,
    Ucmp,
    Scmp,
    Tls,
    Trap,
    Ceil,
    Floor,
    Sqrt,
    Fabs,
    Trunc,
    FpuiSat,
    FpsiSat,
    Write,
    ClockGettime,
    Ret0,
    Errno,
    Abort,
    Expect,
    IsConst,
    Movmsk,
    GetTid,
    Getrandom,
    Syscall,
    Getenv,
    VRedOr,
    VRedAnd,
    LoadRel,
}

fn classify(n: &str) -> Ext {
    use Ext::*;
    match n {
        "vf_sym" => return Sym,
        "vf_choose" => return Choose,
        "vf_assume" => return Assume,
        "vf_check" => return Check,
        "vf_reach" => return Reach,
        "vf_concrete" => return Concrete,
        "vf_done" => return Done,
        "vf_note" => return Note,
        "vf_panic_mode" => return Nop,
        "vf_select_pick" => return SelectPick,
        "malloc" => return Malloc,
        "calloc" => return Calloc,
        "realloc" => return Realloc,
        "free" => return Free,
        "posix_memalign" => return PosixMemalign,
        "strlen" => return Strlen,
        "memcmp" => return Memcmp,
        "bcmp" => return Bcmp,
        "memcpy" | "memmove" => return Memcpy,
        "memset" => return Memset,
        "write" => return Write,
        "writev" => return Write,
        "clock_gettime" => return ClockGettime,
        "__cxa_thread_atexit_impl" | "sched_yield" => return Ret0,
        "__errno_location" => return Errno,
        "gettid" | "getpid" => return GetTid,
        "syscall" => return Syscall,
        "getrandom" => return Getrandom,
        "getenv" => return Getenv,
        "abort" | "exit" | "_exit" => return Abort,
        _ => {}
    }
    if n.contains("hash_one") {
        return HashOne;
    }
    if n.contains("12format_inner") {
        return Format;
    }
    if n.contains("9panicking9panic_fmt") || n.contains("9panicking18panic_nounwind_fmt") {
        return Panic;
    }
    if n.contains("detect_and_initialize") {
        return Ret0;
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        let st = |p: &str| r.starts_with(p);
        if st("lifetime.") || st("assume") || st("experimental.noalias") || st("invariant.") || st("prefetch") || st("dbg.") || st("donothing") || st("x86.sse2.pause") || st("va_") {
            return Nop;
        }
        if st("memcpy") || st("memmove") {
            return Memcpy;
        }
        if st("memset") {
            return Memset;
        }
        for (p, e) in [
            ("umax.", Umax),
            ("umin.", Umin),
            ("smax.", Smax),
            ("smin.", Smin),
            ("uadd.with.overflow", UaddO),
            ("usub.with.overflow", UsubO),
            ("umul.with.overflow", UmulO),
            ("sadd.with.overflow", SaddO),
            ("ssub.with.overflow", SsubO),
            ("smul.with.overflow", SmulO),
            ("uadd.sat", UaddSat),
            ("usub.sat", UsubSat),
            ("sadd.sat", SaddSat),
            ("ssub.sat", SsubSat),
            ("ctlz.", Ctlz),
            ("cttz.", Cttz),
            ("ctpop.", Ctpop),
            ("bswap.", Bswap),
            ("bitreverse.", Bitrev),
            ("fshl.", Fshl),
            ("fshr.", Fshr),
            ("abs.", Abs),
            ("ucmp.", Ucmp),
            ("scmp.", Scmp),
            ("threadlocal.address", Tls),
            ("trap", Trap),
            ("ubsantrap", Trap),
            ("ceil.", Ceil),
            ("floor.", Floor),
            ("sqrt.", Sqrt),
            ("fabs.", Fabs),
            ("trunc.", Trunc),
            ("fptoui.sat", FpuiSat),
            ("fptosi.sat", FpsiSat),
            ("expect", Expect),
            ("is.constant", IsConst),
            ("x86.sse2.pmovmskb", Movmsk),
            ("vector.reduce.or", VRedOr),
            ("vector.reduce.and", VRedAnd),
            ("load.relative", LoadRel),
        ] {
            if st(p) {
                return e;
            }
        }
    }
    Unknown
}

pub struct Violation {
    pub id: String,
    pub inputs: Vec<(String, u64)>,
}

#[derive(Default)]
pub struct Stats {
    pub instr: u64,
    pub forks: u64,
    pub finished: u64,
    pub pruned: u64,
    pub quick: u64,
    pub done: u64,
    pub violated: u64,
    pub panics: HashMap<String, (u64, Vec<(String, u64)>)>,
    pub errors: HashMap<String, (u64, Vec<(String, u64)>)>,
    pub reach: HashMap<String, u64>,
    pub checks: HashMap<String, (u64, u64)>, // evaluated, decided by the solver
    pub viol: Vec<Violation>,
    pub violn: HashMap<String, u64>,
    pub sat: u64,
    pub unsat: u64,
    pub cached: u64,
    pub samples: Vec<(Vec<(String, u64)>, Vec<(String, u64)>)>,
    pub maxcons: usize,
    pub conc: u64,
}

pub struct Ex {
    pub m: &'static Module,
    ext: Vec<Ext>,
    allocoff: Vec<HashMap<u32, u32>>, // per function: dst reg -> frame offset
    fsize: Vec<u32>,
    pub ar: Arena,
    pub z: Z,
    pub pending: Vec<State>,
    cache: HashMap<Box<[u32]>, Option<Rc<Vec<u64>>>, FxB>,
    pub st: Stats,
    pub hit: Vec<bool>,
    tags: HashMap<Vec<u8>, u32>,
    pub tagn: Vec<String>,
    pub maxinstr: u64,
    pub maxviol: u64,
    /// only checks whose name starts with this are decided
    pub only: String,
    /// property that a panic of the code under test violates, if any
    pub panics: String,
    pub trace_q: bool,
    /// case-split symbolic addresses and byte lengths instead of encoding them
    pub fork_addr: bool,
    pub sample_cap: usize,
    pub viol_is_stop: bool,
    tki: Vec<(u8, u32)>, // 0 other, 1 int-like with bits, 2 vec, 3 agg
    gaddr: Vec<u64>,
    trace: u32,
    errno: u64,
    seed: u64,
    budget: std::cell::Cell<u32>,
}

fn m64(b: u32) -> u64 {
    if b >= 64 {
        u64::MAX
    } else {
        (1u64 << b) - 1
    }
}
fn sx64(v: u64, b: u32) -> i64 {
    ((v << (64 - b)) as i64) >> (64 - b)
}

impl Ex {
    pub fn new(m: &'static mut Module, seed: u64) -> (Ex, State) {
        // constant frame layout
        let mut allocoff = vec![];
        let mut fsize = vec![];
        for f in m.funcs.iter() {
            let mut h = HashMap::new();
            let mut off = 0u32;
            if let Some(b) = f.blocks.first() {
                for i in b {
                    if let Op::Alloca(s, O::K(k), al) = &i.op {
                        if let C::Int(_, n) = m.consts[*k as usize].1 {
                            let al = (*al).max(1);
                            off = (off + al - 1) / al * al;
                            h.insert(i.dst, off);
                            off += (*s * n as u64) as u32;
                        }
                    }
                }
            }
            allocoff.push(h);
            fsize.push(off);
        }
        let ext: Vec<Ext> = m.funcs.iter().map(|f| if f.defined { Ext::Unknown } else { classify(&f.name) }).collect();
        let mut mem = Mem::new();
        let mut gaddr = vec![];
        for g in m.globals.iter() {
            let sz = m.size(g.ty);
            gaddr.push(mem.alloc(sz.max(1)));
        }
        let mut me = Ex {
            m: unsafe { &*(m as *const Module) },
            ext,
            allocoff,
            fsize,
            ar: Arena::new(),
            z: Z::new(),
            pending: vec![],
            cache: HashMap::default(),
            st: Stats::default(),
            hit: vec![false; m.funcs.len()],
            tags: HashMap::new(),
            tagn: vec![],
            maxinstr: 200_000_000,
            maxviol: 8,
            only: String::new(),
            panics: String::new(),
            fork_addr: false,
            trace_q: std::env::var("SYMEX_QUERIES").is_ok(),
            sample_cap: 4,
            viol_is_stop: true,
            tki: vec![],
            gaddr,
            trace: std::env::var("SYMEX_TRACE").ok().and_then(|x| x.parse().ok()).unwrap_or(0),
            errno: 0,
            seed,
            budget: std::cell::Cell::new(0),
        };
        for t in me.m.types.iter() {
            me.tki.push(match t {
                Ty::Int(b) => (1, *b),
                Ty::Ptr => (1, 64),
                Ty::F32 => (1, 32),
                Ty::F64 => (1, 64),
                Ty::FX => (1, 128),
                Ty::Vector(..) => (2, 0),
                Ty::Struct(..) | Ty::Array(..) => (3, 0),
                _ => (0, 0),
            });
        }
        me.errno = mem.alloc(8);
        // aliases first resolve to their target
        for (i, g) in me.m.globals.iter().enumerate() {
            if g.name.starts_with("alias ") {
                if let Some(c) = &g.init {
                    let v = me.cv(c, g.ty);
                    if let V::I(a) = v {
                        me.gaddr[i] = a;
                    }
                }
            }
        }
        let mut vconsts = vec![];
        for (t, c) in me.m.consts.iter() {
            vconsts.push(me.cv(c, *t));
        }
        m.vconsts = vconsts;
        for (i, g) in me.m.globals.iter().enumerate() {
            if g.name.starts_with("alias ") {
                continue;
            }
            if let Some(c) = &g.init {
                let sz = me.m.size(g.ty) as usize;
                let mut buf = vec![0u8; sz];
                me.cinit(c, g.ty, &mut buf, 0);
                let o = mem.obj_mut(me.gaddr[i]).unwrap();
                if sz > 0 {
                    o.b[..sz].copy_from_slice(&buf);
                }
                o.ro = g.constant;
            }
        }
        let st = State {
            regs: vec![],
            frames: vec![],
            mem,
            cons: vec![],
            dom: Rc::new(HashMap::default()),
            model: Rc::new(vec![]),
            inputs: vec![],
            nvar: 0,
            notes: vec![],
            instr: 0,
            checks: 0,
        };
        (me, st)
    }
    fn cv(&mut self, c: &C, ty: TyId) -> V {
        match c {
            C::Int(b, v) => {
                if *b <= 64 {
                    V::I(*v as u64)
                } else {
                    V::W(Rc::new(*v))
                }
            }
            C::Undef(t) | C::Zero(t) => self.zero(*t),
            C::Float(_, v) => V::I(*v),
            C::Str(s) => V::A(Rc::new(s.iter().map(|x| V::I(*x as u64)).collect())),
            C::Agg(t, v) => {
                let tys: Vec<TyId> = match &self.m.types[*t as usize] {
                    Ty::Struct(f, _) => f.clone(),
                    Ty::Array(_, e) | Ty::Vector(_, e) => vec![*e; v.len()],
                    _ => vec![ty; v.len()],
                };
                V::A(Rc::new(v.iter().zip(tys).map(|(x, t)| self.cv(x, t)).collect()))
            }
            C::Splat(n, x) => {
                let v = self.cv(x, ty);
                V::A(Rc::new(vec![v; *n as usize]))
            }
            C::Global(g) => V::I(self.gaddr[*g as usize]),
            C::Func(f) => V::I(FN_BASE + 16 * *f as u64),
            C::Expr(e) => {
                let g = |s: &mut Self, c: &C| match s.cv(c, ty) {
                    V::I(x) => x,
                    V::W(x) => *x as u64,
                    _ => 0,
                };
                match &**e {
                    CExpr::Cast(b, c) => V::I(g(self, c) & m64(*b)),
                    CExpr::Bin(k, b, x, y) => {
                        let (x, y) = (g(self, x), g(self, y));
                        V::I(
                            match *k {
                                "add" => x.wrapping_add(y),
                                "sub" => x.wrapping_sub(y),
                                "xor" => x ^ y,
                                "mul" => x.wrapping_mul(y),
                                "and" => x & y,
                                "or" => x | y,
                                "shl" => x << (y & 63),
                                _ => x >> (y & 63),
                            } & m64(*b),
                        )
                    }
                    CExpr::Gep(et, base, idx) => {
                        let mut a = g(self, base);
                        let mut cur = *et;
                        for (k, i) in idx.iter().enumerate() {
                            let iv = match i {
                                C::Int(b, v) => sext(*v, *b) as i64,
                                _ => g(self, i) as i64,
                            };
                            if k == 0 {
                                a = a.wrapping_add((self.m.size(cur) as i64).wrapping_mul(iv) as u64);
                            } else {
                                match &self.m.types[cur as usize] {
                                    Ty::Struct(fs, p) => {
                                        let mut o = 0u64;
                                        for (j, f) in fs.iter().enumerate() {
                                            let (s, al) = self.m.layout[*f as usize].unwrap();
                                            let al = if *p { 1 } else { al };
                                            o = (o + al - 1) / al * al;
                                            if j as i64 == iv {
                                                break;
                                            }
                                            o += s;
                                        }
                                        a = a.wrapping_add(o);
                                        cur = fs[iv as usize];
                                    }
                                    Ty::Array(_, e) | Ty::Vector(_, e) => {
                                        a = a.wrapping_add((self.m.size(*e) as i64).wrapping_mul(iv) as u64);
                                        cur = *e;
                                    }
                                    _ => {}
                                }
                            }
                        }
                        V::I(a)
                    }
                }
            }
        }
    }
    fn zero(&self, t: TyId) -> V {
        match &self.m.types[t as usize] {
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|x| self.zero(*x)).collect())),
            Ty::Array(n, e) => V::A(Rc::new(vec![self.zero(*e); *n as usize])),
            Ty::Vector(n, e) => V::A(Rc::new(vec![self.zero(*e); *n as usize])),
            Ty::Int(b) if *b > 64 => V::W(Rc::new(0)),
            Ty::FX => V::W(Rc::new(0)),
            _ => V::I(0),
        }
    }
    fn cinit(&mut self, c: &C, ty: TyId, buf: &mut [u8], off: usize) {
        match c {
            C::Undef(_) | C::Zero(_) => {}
            C::Str(s) => buf[off..off + s.len()].copy_from_slice(s),
            C::Agg(_, v) => {
                let (fs, offs): (Vec<TyId>, Vec<u64>) = match &self.m.types[ty as usize] {
                    Ty::Struct(f, p) => {
                        let mut o = 0u64;
                        let mut os = vec![];
                        for x in f {
                            let (s, al) = self.m.layout[*x as usize].unwrap();
                            let al = if *p { 1 } else { al };
                            o = (o + al - 1) / al * al;
                            os.push(o);
                            o += s;
                        }
                        (f.clone(), os)
                    }
                    Ty::Array(_, e) | Ty::Vector(_, e) => {
                        let s = self.m.size(*e);
                        (vec![*e; v.len()], (0..v.len() as u64).map(|i| i * s).collect())
                    }
                    _ => panic!("init"),
                };
                for i in 0..v.len() {
                    self.cinit(&v[i], fs[i], buf, off + offs[i] as usize);
                }
            }
            _ => {
                let v = self.cv(c, ty);
                let sz = self.m.size(ty) as usize;
                match v {
                    V::I(x) => buf[off..off + sz.min(8)].copy_from_slice(&x.to_le_bytes()[..sz.min(8)]),
                    V::W(x) => buf[off..off + sz.min(16)].copy_from_slice(&x.to_le_bytes()[..sz.min(16)]),
                    V::A(vs) => {
                        let e = match &self.m.types[ty as usize] {
                            Ty::Vector(_, e) | Ty::Array(_, e) => *e,
                            _ => panic!("splat init"),
                        };
                        let s = self.m.size(e) as usize;
                        for (i, v) in vs.iter().enumerate() {
                            if let V::I(x) = v {
                                buf[off + i * s..off + (i + 1) * s].copy_from_slice(&x.to_le_bytes()[..s]);
                            }
                        }
                    }
                    V::S(_) => unreachable!(),
                }
            }
        }
    }

    pub fn start(&mut self, mut st: State, fname: &str) -> Result<State, String> {
        let f = *self.m.fmap.get(fname).ok_or_else(|| format!("no function {}", fname))?;
        self.push_frame(&mut st, f, NODST, &[]);
        Ok(st)
    }
    fn push_frame(&mut self, st: &mut State, f: u32, dst: u32, args: &[V]) {
        let fun = &self.m.funcs[f as usize];
        self.hit[f as usize] = true;
        let base = st.regs.len() as u32;
        st.regs.extend_from_slice(args);
        st.regs.resize(base as usize + fun.nregs as usize, Z0);
        let fs = self.fsize[f as usize];
        let obj = if fs > 0 { (st.mem.alloc(fs as u64) >> SH) as u32 } else { 0 };
        if obj > 0 {
            for (r, o) in self.allocoff[f as usize].iter() {
                st.regs[(base + r) as usize] = V::I(((obj as u64) << SH) + *o as u64);
            }
        }
        st.frames.push(Frame { f, bb: 0, ip: 0, base, dst, obj, dyns: vec![] });
    }

    // ---- expressions helpers ----
    fn ex(&mut self, v: &V, bits: u32) -> u32 {
        match v {
            V::I(x) => self.ar.konst(bits, *x as u128),
            V::W(x) => self.ar.konst(bits, **x),
            V::S(e) => *e,
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn val(&self, e: u32) -> V {
        match self.ar.cval(e) {
            Some(v) => {
                if self.ar.w(e) <= 64 {
                    V::I(v as u64)
                } else {
                    V::W(Rc::new(v))
                }
            }
            None => V::S(e),
        }
    }
    fn kv(bits: u32, v: u128) -> V {
        if bits <= 64 {
            V::I(v as u64)
        } else {
            V::W(Rc::new(v))
        }
    }

    // ---- solver ----
    fn implied(&self, st: &State, lit: u32) -> bool {
        if st.cons.contains(&lit) {
            return true;
        }
        let n = self.ar.n[lit as usize];
        if n.op == E::And && n.w == 1 {
            return self.implied(st, n.a) && self.implied(st, n.b);
        }
        false
    }
    fn add_con(&mut self, st: &mut State, c: u32) {
        if self.ar.cval(c).is_some() {
            return;
        }
        let n = self.ar.n[c as usize];
        if n.op == E::And && n.w == 1 {
            self.add_con(st, n.a);
            self.add_con(st, n.b);
            return;
        }
        // de Morgan: not(or(a,b))
        if n.op == E::Xor && self.ar.cval(n.b) == Some(1) {
            let i = self.ar.n[n.a as usize];
            if i.op == E::Or && i.w == 1 {
                let x = self.ar.not(i.a);
                let y = self.ar.not(i.b);
                self.add_con(st, x);
                self.add_con(st, y);
                return;
            }
        }
        if !st.cons.contains(&c) {
            st.cons.push(c);
            self.learn(st, c);
        }
        self.st.maxcons = self.st.maxcons.max(st.cons.len());
    }
    /// Records the bound that a new constraint puts on an expression.
    fn learn(&mut self, st: &mut State, c: u32) {
        let (c, pos) = match self.negated(c) {
            Some(i) => (i, false),
            None => (c, true),
        };
        let n = self.ar.n[c as usize];
        if !matches!(n.op, E::Eq | E::Ult | E::Ule) {
            return;
        }
        let (ka, kb) = (self.ar.cval(n.a), self.ar.cval(n.b));
        let (x, k, left) = match (ka, kb) {
            (Some(k), None) => (n.b, k, true),
            (None, Some(k)) => (n.a, k, false),
            _ => return,
        };
        let top = crate::expr::mask(self.ar.w(x));
        let (mut lo, mut hi) = self.itv(st, x, 0);
        match (n.op, pos, left) {
            (E::Eq, true, _) => {
                lo = lo.max(k);
                hi = hi.min(k);
            }
            (E::Eq, false, _) => {
                if lo == k && k < top {
                    lo = k + 1;
                }
                if hi == k && k > 0 {
                    hi = k - 1;
                }
            }
            // x < k, !(k <= x)
            (E::Ult, true, false) | (E::Ule, false, true) => hi = hi.min(k.saturating_sub(1)),
            // x <= k, !(k < x)
            (E::Ule, true, false) | (E::Ult, false, true) => hi = hi.min(k),
            // k < x, !(x <= k)
            (E::Ult, true, true) | (E::Ule, false, false) => lo = lo.max(k.saturating_add(1)),
            // k <= x, !(x < k)
            (E::Ule, true, true) | (E::Ult, false, false) => lo = lo.max(k),
            _ => {}
        }
        if lo <= hi {
            Rc::make_mut(&mut st.dom).insert(x, (lo, hi));
        }
    }
    fn negated(&self, c: u32) -> Option<u32> {
        let n = self.ar.n[c as usize];
        if n.op == E::Xor && n.w == 1 && self.ar.cval(n.b) == Some(1) {
            return Some(n.a);
        }
        None
    }
    /// Unsigned interval that contains every value of `e` on this path.
    fn itv(&self, st: &State, e: u32, _: u32) -> (u128, u128) {
        self.budget.set(400);
        self.itv1(st, e, 0)
    }
    fn itv1(&self, st: &State, e: u32, depth: u32) -> (u128, u128) {
        use crate::expr::mask;
        let n = self.ar.n[e as usize];
        let w = n.w as u32;
        let top = mask(w);
        if let Some(v) = self.ar.cval(e) {
            return (v, v);
        }
        let full = (0, top);
        let left = self.budget.get();
        self.budget.set(left.saturating_sub(1));
        if depth > 24 || left == 0 {
            return st.dom.get(&e).copied().unwrap_or(full);
        }
        let f = |x: u32| self.itv1(st, x, depth + 1);
        let up = |h: u128| -> u128 {
            if h == 0 {
                0
            } else {
                mask(128 - h.leading_zeros())
            }
        };
        let b = |t: bool, fl: bool| -> (u128, u128) { (t as u128, !fl as u128) };
        let r = match n.op {
            E::ZExt => f(n.a),
            E::Extract => {
                let (l, h) = f(n.a);
                if n.b < 128 && h >> n.b <= top {
                    (l >> n.b, h >> n.b)
                } else {
                    full
                }
            }
            E::Concat => {
                let (hl, hh) = f(n.a);
                let (ll, lh) = f(n.b);
                let k = self.ar.w(n.b);
                ((hl << k) | ll, (hh << k) | lh)
            }
            E::Add => {
                let (al, ah) = f(n.a);
                let (bl, bh) = f(n.b);
                match ah.checked_add(bh) {
                    Some(x) if x <= top => (al + bl, x),
                    _ => full,
                }
            }
            E::Sub => {
                let (al, ah) = f(n.a);
                let (bl, bh) = f(n.b);
                if al >= bh {
                    (al - bh, ah - bl)
                } else {
                    full
                }
            }
            E::Mul => {
                let (al, ah) = f(n.a);
                let (bl, bh) = f(n.b);
                match ah.checked_mul(bh) {
                    Some(x) if x <= top => (al * bl, x),
                    _ => full,
                }
            }
            E::UDiv => {
                let (al, ah) = f(n.a);
                match self.ar.cval(n.b) {
                    Some(k) if k > 0 => (al / k, ah / k),
                    _ => full,
                }
            }
            E::URem => {
                let (al, ah) = f(n.a);
                match self.ar.cval(n.b) {
                    Some(k) if k > 0 && ah < k => (al, ah),
                    Some(k) if k > 0 => (0, k - 1),
                    _ => full,
                }
            }
            E::And if w > 1 => {
                let (_, ah) = f(n.a);
                let (_, bh) = f(n.b);
                (0, ah.min(bh))
            }
            E::Or if w > 1 => {
                let (al, ah) = f(n.a);
                let (bl, bh) = f(n.b);
                (al.max(bl), up(ah | bh))
            }
            E::Xor if w > 1 => {
                let (_, ah) = f(n.a);
                let (_, bh) = f(n.b);
                (0, up(ah | bh))
            }
            E::And => {
                let (al, ah) = f(n.a);
                let (bl, bh) = f(n.b);
                (al & bl, ah & bh)
            }
            E::Or => {
                let (al, ah) = f(n.a);
                let (bl, bh) = f(n.b);
                (al | bl, ah | bh)
            }
            E::Xor => {
                let (al, ah) = f(n.a);
                let (bl, bh) = f(n.b);
                if al == ah && bl == bh {
                    (al ^ bl, al ^ bl)
                } else {
                    full
                }
            }
            E::LShr => {
                let (al, ah) = f(n.a);
                match self.ar.cval(n.b) {
                    Some(k) if k < w as u128 => (al >> k, ah >> k),
                    _ => (0, ah),
                }
            }
            E::Shl => {
                let (al, ah) = f(n.a);
                match self.ar.cval(n.b) {
                    Some(k) if k < w as u128 && ah <= top >> k => (al << k, ah << k),
                    _ => full,
                }
            }
            E::Ite => {
                let (cl, ch) = f(n.a);
                if cl == 1 {
                    f(n.b)
                } else if ch == 0 {
                    f(n.c)
                } else {
                    let (al, ah) = f(n.b);
                    let (bl, bh) = f(n.c);
                    (al.min(bl), ah.max(bh))
                }
            }
            E::Eq => {
                let (al, ah) = f(n.a);
                let (bl, bh) = f(n.b);
                b(al == ah && bl == bh && al == bl, ah < bl || bh < al)
            }
            E::Ult => {
                let (al, ah) = f(n.a);
                let (bl, bh) = f(n.b);
                b(ah < bl, al >= bh)
            }
            E::Ule => {
                let (al, ah) = f(n.a);
                let (bl, bh) = f(n.b);
                b(ah <= bl, al > bh)
            }
            E::Slt | E::Sle => {
                let half = mask(self.ar.w(n.a)) >> 1;
                let (al, ah) = f(n.a);
                let (bl, bh) = f(n.b);
                if ah > half || bh > half {
                    full
                } else if n.op == E::Slt {
                    b(ah < bl, al >= bh)
                } else {
                    b(ah <= bl, al > bh)
                }
            }
            _ => full,
        };
        match st.dom.get(&e) {
            Some(&(l, h)) if l.max(r.0) <= h.min(r.1) => (l.max(r.0), h.min(r.1)),
            _ => r,
        }
    }
    /// Is `q` satisfiable together with the path constraints?  If so returns
    /// a full model.
    fn query(&mut self, st: &State, q: u32) -> Result<Option<Rc<Vec<u64>>>, End> {
        if let Some(v) = self.ar.cval(q) {
            return Ok(if v != 0 { Some(st.model.clone()) } else { None });
        }
        let mut vs = self.ar.vars(q);
        let mut used = vec![false; st.cons.len()];
        let mut sl = vec![q];
        loop {
            let mut ch = false;
            for (i, &c) in st.cons.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let cv = self.ar.vars(c);
                if (0..4).any(|k| cv[k] & vs[k] != 0) {
                    used[i] = true;
                    sl.push(c);
                    for k in 0..4 {
                        if cv[k] & !vs[k] != 0 {
                            vs[k] |= cv[k];
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        sl.sort_unstable();
        sl.dedup();
        let key: Box<[u32]> = sl.clone().into_boxed_slice();
        let part = if let Some(r) = self.cache.get(&key) {
            self.st.cached += 1;
            r.clone()
        } else {
            if self.trace_q {
                eprintln!("QUERY {} || {}", self.ar.show(q, 8), sl.iter().filter(|x| **x != q).map(|x| self.ar.show(*x, 6)).collect::<Vec<_>>().join(" ; "));
            }
            let t0 = self.z.nanos;
            let z = self.z.check(&mut self.ar, &sl);
            if self.trace_q {
                eprintln!("TIME {} ms {}", (self.z.nanos - t0) / 1_000_000, self.ar.show(q, 14));
            }
            let r = match z {
                ZR::Sat(m) => {
                    self.st.sat += 1;
                    Some(Rc::new(m))
                }
                ZR::Unsat => {
                    self.st.unsat += 1;
                    None
                }
                ZR::Unknown => return err("solver gave no answer"),
            };
            if self.cache.len() > 400_000 {
                self.cache.clear();
            }
            self.cache.insert(key, r.clone());
            r
        };
        Ok(part.map(|p| {
            let mut m = (*st.model).clone();
            for i in 0..256usize {
                if vs[i >> 6] >> (i & 63) & 1 == 1 {
                    if m.len() <= i {
                        m.resize(i + 1, 0);
                    }
                    m[i] = p.get(i).copied().unwrap_or(0);
                }
            }
            Rc::new(m)
        }))
    }
    fn ev(&mut self, st: &State, e: u32) -> u128 {
        let m = st.model.clone();
        self.ar.eval(e, &m)
    }
    /// Decide a one-bit value, forking when both outcomes are possible.
    fn decide(&mut self, st: &mut State, c: u32) -> Result<bool, End> {
        if let Some(v) = self.ar.cval(c) {
            return Ok(v != 0);
        }
        let nc = self.ar.not(c);
        if self.implied(st, c) {
            return Ok(true);
        }
        if self.implied(st, nc) {
            return Ok(false);
        }
        let (lo, hi) = self.itv(st, c, 0);
        if lo == hi {
            self.st.quick += 1;
            return Ok(lo != 0);
        }
        let d = self.ev(st, c) != 0;
        let (lit, other) = if d { (c, nc) } else { (nc, c) };
        if let Some(m) = self.query(st, other)? {
            let mut s2 = st.clone();
            self.add_con(&mut s2, other);
            s2.model = m;
            self.st.forks += 1;
            self.pending.push(s2);
            self.add_con(st, lit);
        }
        Ok(d)
    }
    fn conc_e(&mut self, st: &mut State, e: u32) -> Result<u128, End> {
        if let Some(v) = self.ar.cval(e) {
            return Ok(v);
        }
        self.st.conc += 1;
        let v = self.ev(st, e);
        let w = self.ar.w(e);
        let k = self.ar.konst(w, v);
        let eq = self.ar.bin(E::Eq, e, k);
        if self.implied(st, eq) {
            return Ok(v);
        }
        let (lo, hi) = self.itv(st, e, 0);
        if lo == hi {
            self.st.quick += 1;
            return Ok(lo);
        }
        let ne = self.ar.not(eq);
        if let Some(m) = self.query(st, ne)? {
            let mut s2 = st.clone();
            if self.trace_q {
                let fr = st.frames.last().unwrap();
                eprintln!("CONC {} {} {}", self.m.funcs[fr.f as usize].name, st.cons.len(), self.ar.show(e, 4));
            }
            self.add_con(&mut s2, ne);
            s2.model = m;
            self.st.forks += 1;
            self.pending.push(s2);
            self.add_con(st, eq);
        }
        Ok(v)
    }
    fn conc(&mut self, st: &mut State, v: &V) -> Result<u64, End> {
        match v {
            V::I(x) => Ok(*x),
            V::W(x) => Ok(**x as u64),
            V::S(e) => Ok(self.conc_e(st, *e)? as u64),
            V::A(_) => err("aggregate where scalar expected"),
        }
    }

    // ---- memory ----
    fn rd_byte(&mut self, o: &Obj, i: usize) -> u32 {
        let s = if o.s.is_empty() { 0 } else { o.s[i] };
        if s != 0 {
            s
        } else {
            self.ar.konst(8, o.b[i] as u128)
        }
    }
    fn load_n(&mut self, st: &State, a: u64, n: usize, bits: u32) -> Result<V, End> {
        let off = (a & ((1 << SH) - 1)) as usize;
        let o = match st.mem.obj(a) {
            Some(o) if off + n <= o.b.len() => o,
            _ => return self.bad_access(st, a, n, "load"),
        };
        if o.s.is_empty() || o.s[off..off + n].iter().all(|x| *x == 0) {
            if n <= 8 {
                let mut t = [0u8; 8];
                t[..n].copy_from_slice(&o.b[off..off + n]);
                return Ok(V::I(u64::from_le_bytes(t) & m64(bits)));
            }
            let mut t = [0u8; 16];
            t[..n].copy_from_slice(&o.b[off..off + n]);
            return Ok(V::W(Rc::new(u128::from_le_bytes(t) & crate::expr::mask(bits))));
        }
        let o: &Obj = unsafe { &*(o as *const Obj) };
        let mut e = self.rd_byte(o, off + n - 1);
        for i in (0..n - 1).rev() {
            let l = self.rd_byte(o, off + i);
            e = self.ar.concat(e, l);
        }
        let w = self.ar.w(e);
        if bits < w {
            e = self.ar.extract(e, 0, bits);
        }
        Ok(self.val(e))
    }
    fn bad_access<T>(&self, st: &State, a: u64, n: usize, k: &str) -> Result<T, End> {
        let fr = st.frames.last().unwrap();
        err(format!(
            "invalid {} of {} bytes at {:#x} (object size {:?}) in {}",
            k,
            n,
            a,
            st.mem.obj(a).map(|o| o.b.len()),
            self.m.funcs[fr.f as usize].name
        ))
    }
    fn load(&mut self, st: &mut State, t: TyId, a: u64) -> Result<V, End> {
        let (k, b) = self.tki[t as usize];
        match k {
            1 => self.load_n(st, a, ((b + 7) / 8) as usize, b),
            2 => {
                let (n, e) = match self.m.types[t as usize] {
                    Ty::Vector(n, e) => (n, e),
                    _ => unreachable!(),
                };
                let (ek, eb) = self.tki[e as usize];
                if ek != 1 {
                    return err("vector element");
                }
                if eb % 8 != 0 {
                    let w = n * eb;
                    let v = self.load_n(st, a, ((w + 7) / 8) as usize, w)?;
                    return self.from_bits(v, w, t);
                }
                let s = (eb / 8) as u64;
                let mut v = Vec::with_capacity(n as usize);
                for i in 0..n as u64 {
                    v.push(self.load_n(st, a + i * s, s as usize, eb)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            3 => {
                let m = self.m;
                let mut v = vec![];
                match &m.types[t as usize] {
                    Ty::Array(n, e) => {
                        let s = m.size(*e);
                        for i in 0..*n {
                            v.push(self.load(st, *e, a + i * s)?);
                        }
                    }
                    Ty::Struct(fs, p) => {
                        let mut o = 0;
                        for f in fs {
                            let (s, al) = m.layout[*f as usize].unwrap();
                            let al = if *p { 1 } else { al };
                            o = (o + al - 1) / al * al;
                            v.push(self.load(st, *f, a + o)?);
                            o += s;
                        }
                    }
                    _ => {}
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => err("load type"),
        }
    }
    fn store_n(&mut self, st: &mut State, a: u64, n: usize, bits: u32, v: &V) -> Result<(), End> {
        let off = (a & ((1 << SH) - 1)) as usize;
        let ok = match st.mem.obj(a) {
            Some(o) => off + n <= o.b.len() && !o.ro,
            None => false,
        };
        if !ok {
            return self.bad_access(st, a, n, "store");
        }
        let o = st.mem.obj_mut(a).unwrap();
        match v {
            V::I(x) => {
                let t = x.to_le_bytes();
                if n <= 8 {
                    o.b[off..off + n].copy_from_slice(&t[..n]);
                } else {
                    o.b[off..off + 8].copy_from_slice(&t);
                    o.b[off + 8..off + n].fill(0);
                }
                if !o.s.is_empty() {
                    o.s[off..off + n].fill(0);
                }
            }
            V::W(x) => {
                o.b[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if !o.s.is_empty() {
                    o.s[off..off + n].fill(0);
                }
            }
            V::S(e) => {
                if o.s.is_empty() {
                    o.s = vec![0; o.b.len()];
                }
                let mut e = *e;
                if bits != n as u32 * 8 {
                    e = self.ar.zext(e, n as u32 * 8);
                }
                for i in 0..n {
                    let x = self.ar.extract(e, i as u32 * 8, 8);
                    match self.ar.cval(x) {
                        Some(c) => {
                            o.b[off + i] = c as u8;
                            o.s[off + i] = 0;
                        }
                        None => o.s[off + i] = x,
                    }
                }
            }
            V::A(_) => return err("store aggregate as int"),
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, t: TyId, v: &V, a: u64) -> Result<(), End> {
        let (k, b) = self.tki[t as usize];
        match k {
            1 => self.store_n(st, a, ((b + 7) / 8) as usize, b, v),
            2 => {
                let e = match self.m.types[t as usize] {
                    Ty::Vector(_, e) => e,
                    _ => unreachable!(),
                };
                let eb = self.tki[e as usize].1;
                if let V::A(vs) = v {
                    if eb % 8 != 0 {
                        let w = vs.len() as u32 * eb;
                        let x = self.to_bits(v, t)?;
                        return self.store_n(st, a, ((w + 7) / 8) as usize, w, &x);
                    }
                    let s = (eb / 8) as u64;
                    for (i, x) in vs.iter().enumerate() {
                        self.store_n(st, a + i as u64 * s, s as usize, eb, x)?;
                    }
                    return Ok(());
                }
                err("store vector")
            }
            3 => {
                let m = self.m;
                let vs = match v {
                    V::A(vs) => vs.clone(),
                    _ => return err("store aggregate"),
                };
                match &m.types[t as usize] {
                    Ty::Array(n, e) => {
                        let s = m.size(*e);
                        for i in 0..*n {
                            self.store(st, *e, &vs[i as usize], a + i * s)?;
                        }
                    }
                    Ty::Struct(fs, p) => {
                        let mut o = 0;
                        for (i, f) in fs.iter().enumerate() {
                            let (s, al) = m.layout[*f as usize].unwrap();
                            let al = if *p { 1 } else { al };
                            o = (o + al - 1) / al * al;
                            self.store(st, *f, &vs[i], a + o)?;
                            o += s;
                        }
                    }
                    _ => {}
                }
                Ok(())
            }
            _ => err("store type"),
        }
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> Result<(), End> {
        if n == 0 {
            return Ok(());
        }
        let so = (s & ((1 << SH) - 1)) as usize;
        let dof = (d & ((1 << SH) - 1)) as usize;
        match st.mem.obj(s) {
            Some(o) if so + n <= o.b.len() => {}
            _ => return self.bad_access(st, s, n, "copy from"),
        }
        match st.mem.obj(d) {
            Some(o) if dof + n <= o.b.len() && !o.ro => {}
            _ => return self.bad_access(st, d, n, "copy to"),
        }
        if s >> SH == d >> SH {
            let o = st.mem.obj_mut(d).unwrap();
            o.b.copy_within(so..so + n, dof);
            if !o.s.is_empty() {
                o.s.copy_within(so..so + n, dof);
            }
            return Ok(());
        }
        // SAFETY: distinct objects; obj_mut only touches the target object
        let src: Rc<Obj> = {
            let id = (s >> SH) as usize;
            st.mem.chunks[id / CH].0[id % CH].clone().unwrap()
        };
        let o = st.mem.obj_mut(d).unwrap();
        o.b[dof..dof + n].copy_from_slice(&src.b[so..so + n]);
        let ssym = !src.s.is_empty() && src.s[so..so + n].iter().any(|x| *x != 0);
        if ssym {
            if o.s.is_empty() {
                o.s = vec![0; o.b.len()];
            }
            o.s[dof..dof + n].copy_from_slice(&src.s[so..so + n]);
        } else if !o.s.is_empty() {
            o.s[dof..dof + n].fill(0);
        }
        Ok(())
    }
    fn bytes(&self, st: &State, a: u64, n: usize) -> Result<Vec<u8>, End> {
        let off = (a & ((1 << SH) - 1)) as usize;
        if n == 0 {
            return Ok(vec![]);
        }
        match st.mem.obj(a) {
            Some(o) if off + n <= o.b.len() => Ok(o.b[off..off + n].to_vec()),
            _ => self.bad_access(st, a, n, "read"),
        }
    }

    // ---- vectors ----
    fn to_bits(&mut self, v: &V, t: TyId) -> Result<V, End> {
        match v {
            V::A(vs) => {
                let e = match self.m.types[t as usize] {
                    Ty::Vector(_, e) => e,
                    _ => return err("bitcast of aggregate"),
                };
                let eb = self.tki[e as usize].1;
                let w = eb * vs.len() as u32;
                if w > 128 {
                    return err("wide vector");
                }
                if vs.iter().all(|x| matches!(x, V::I(_) | V::W(_))) {
                    let mut r = 0u128;
                    for (i, x) in vs.iter().enumerate() {
                        let x = match x {
                            V::I(x) => *x as u128,
                            V::W(x) => **x,
                            _ => 0,
                        };
                        r |= x << (i as u32 * eb);
                    }
                    return Ok(Self::kv(w, r));
                }
                let mut e = self.ex(&vs[vs.len() - 1], eb);
                for x in vs[..vs.len() - 1].iter().rev() {
                    let l = self.ex(x, eb);
                    e = self.ar.concat(e, l);
                }
                Ok(self.val(e))
            }
            _ => Ok(v.clone()),
        }
    }
    fn from_bits(&mut self, v: V, w: u32, t: TyId) -> Result<V, End> {
        match self.m.types[t as usize] {
            Ty::Vector(n, e) => {
                let eb = self.tki[e as usize].1;
                let mut r = Vec::with_capacity(n as usize);
                for i in 0..n {
                    r.push(match &v {
                        V::I(x) => V::I((x >> (i * eb)) & m64(eb)),
                        V::W(x) => Self::kv(eb, (**x >> (i * eb)) & crate::expr::mask(eb)),
                        V::S(x) => {
                            let y = self.ar.extract(*x, i * eb, eb);
                            self.val(y)
                        }
                        _ => return err("from_bits"),
                    });
                }
                Ok(V::A(Rc::new(r)))
            }
            _ => {
                let _ = w;
                Ok(v)
            }
        }
    }
    fn elem(&self, t: TyId) -> (TyId, u32) {
        match self.m.types[t as usize] {
            Ty::Vector(_, e) => (e, self.tki[e as usize].1),
            _ => (t, self.tki[t as usize].1),
        }
    }

    // ---- scalar ops ----
    fn bin(&mut self, st: &mut State, op: Bin, bits: u32, f64ty: bool, a: &V, b: &V) -> Result<V, End> {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = m64(bits);
            let r = match op {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => {
                    if y >= bits as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                Bin::LShr => {
                    if y >= bits as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                Bin::AShr => {
                    let s = y.min(bits as u64 - 1);
                    (sx64(x, bits) >> s) as u64
                }
                Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                    if y == 0 {
                        return err("division by zero (undefined behaviour)");
                    }
                    match op {
                        Bin::UDiv => x / y,
                        Bin::URem => x % y,
                        Bin::SDiv => sx64(x, bits).wrapping_div(sx64(y, bits)) as u64,
                        _ => sx64(x, bits).wrapping_rem(sx64(y, bits)) as u64,
                    }
                }
                Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv | Bin::FRem => {
                    if f64ty {
                        let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                        match op {
                            Bin::FAdd => p + q,
                            Bin::FSub => p - q,
                            Bin::FMul => p * q,
                            Bin::FDiv => p / q,
                            _ => p % q,
                        }
                        .to_bits()
                    } else {
                        let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        match op {
                            Bin::FAdd => p + q,
                            Bin::FSub => p - q,
                            Bin::FMul => p * q,
                            Bin::FDiv => p / q,
                            _ => p % q,
                        }
                        .to_bits() as u64
                    }
                }
            };
            return Ok(V::I(r & m));
        }
        if matches!(op, Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv | Bin::FRem) {
            // floats are concrete only
            let x = self.conc(st, a)?;
            let y = self.conc(st, b)?;
            return self.bin(st, op, bits, f64ty, &V::I(x), &V::I(y));
        }
        if bits > 128 {
            return err("integer wider than 128 bits");
        }
        let x = self.ex(a, bits);
        let y = self.ex(b, bits);
        let o = match op {
            Bin::Add => E::Add,
            Bin::Sub => E::Sub,
            Bin::Mul => E::Mul,
            Bin::UDiv => E::UDiv,
            Bin::SDiv => E::SDiv,
            Bin::URem => E::URem,
            Bin::SRem => E::SRem,
            Bin::And => E::And,
            Bin::Or => E::Or,
            Bin::Xor => E::Xor,
            Bin::Shl => E::Shl,
            Bin::LShr => E::LShr,
            Bin::AShr => E::AShr,
            _ => unreachable!(),
        };
        let r = self.ar.bin(o, x, y);
        Ok(self.val(r))
    }
    fn icmp(&mut self, p: Pred, bits: u32, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                _ => {
                    let (x, y) = (sx64(x, bits), sx64(y, bits));
                    match p {
                        Pred::Sgt => x > y,
                        Pred::Sge => x >= y,
                        Pred::Slt => x < y,
                        _ => x <= y,
                    }
                }
            };
            return V::I(r as u64);
        }
        let x = self.ex(a, bits);
        let y = self.ex(b, bits);
        let r = match p {
            Pred::Eq => self.ar.bin(E::Eq, x, y),
            Pred::Ne => {
                let e = self.ar.bin(E::Eq, x, y);
                self.ar.not(e)
            }
            Pred::Ugt => self.ar.bin(E::Ult, y, x),
            Pred::Uge => self.ar.bin(E::Ule, y, x),
            Pred::Ult => self.ar.bin(E::Ult, x, y),
            Pred::Ule => self.ar.bin(E::Ule, x, y),
            Pred::Sgt => self.ar.bin(E::Slt, y, x),
            Pred::Sge => self.ar.bin(E::Sle, y, x),
            Pred::Slt => self.ar.bin(E::Slt, x, y),
            Pred::Sle => self.ar.bin(E::Sle, x, y),
        };
        self.val(r)
    }
    fn ite(&mut self, c: u32, t: TyId, a: &V, b: &V) -> Result<V, End> {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let m = self.m;
                let mut r = vec![];
                for i in 0..x.len() {
                    let et = match &m.types[t as usize] {
                        Ty::Struct(f, _) => f[i],
                        Ty::Array(_, e) | Ty::Vector(_, e) => *e,
                        _ => return err("ite type"),
                    };
                    r.push(self.ite(c, et, &x[i], &y[i])?);
                }
                Ok(V::A(Rc::new(r)))
            }
            _ => {
                let b2 = self.tki[t as usize].1;
                let x = self.ex(a, b2);
                let y = self.ex(b, b2);
                let r = self.ar.ite(c, x, y);
                Ok(self.val(r))
            }
        }
    }
    fn cast(&mut self, st: &mut State, c: Cast, from: u32, to: u32, a: &V) -> Result<V, End> {
        match c {
            Cast::Trunc | Cast::ZExt | Cast::SExt | Cast::Bit => {
                if let V::I(x) = a {
                    if to <= 64 {
                        return Ok(V::I(match c {
                            Cast::SExt => sx64(*x, from) as u64 & m64(to),
                            _ => *x & m64(to),
                        }));
                    }
                }
                if from > 128 || to > 128 {
                    return err("integer wider than 128 bits");
                }
                let x = self.ex(a, from);
                let r = if to < from {
                    self.ar.extract(x, 0, to)
                } else if c == Cast::SExt {
                    self.ar.sext(x, to)
                } else {
                    self.ar.zext(x, to)
                };
                Ok(self.val(r))
            }
            _ => {
                let x = self.conc(st, a)?;
                let isf = |b: u32, v: u64| if b == 64 { f64::from_bits(v) } else { f32::from_bits(v as u32) as f64 };
                let tof = |b: u32, v: f64| if b == 64 { v.to_bits() } else { (v as f32).to_bits() as u64 };
                Ok(V::I(match c {
                    Cast::FpToUi => (isf(from, x) as u64) & m64(to),
                    Cast::FpToSi => (isf(from, x) as i64 as u64) & m64(to),
                    Cast::UiToFp => {
                        if to == 32 {
                            (x as f32).to_bits() as u64
                        } else {
                            (x as f64).to_bits()
                        }
                    }
                    Cast::SiToFp => {
                        let s = sx64(x, from);
                        if to == 32 {
                            (s as f32).to_bits() as u64
                        } else {
                            (s as f64).to_bits()
                        }
                    }
                    Cast::FpExt | Cast::FpTrunc => tof(to, isf(from, x)),
                    _ => unreachable!(),
                }))
            }
        }
    }

    #[inline]
    fn get(&self, st: &State, base: u32, o: O) -> V {
        match o {
            O::R(r) => st.regs[(base + r) as usize].clone(),
            O::K(k) => self.m.vconsts[k as usize].clone(),
        }
    }
    fn addr(&mut self, st: &mut State, base: u32, o: O) -> Result<u64, End> {
        match self.get(st, base, o) {
            V::I(x) => Ok(x),
            v => self.conc(st, &v),
        }
    }

    /// A read at a symbolic address inside one small object becomes an
    /// if-then-else over its positions.
    fn sym_load(&mut self, st: &mut State, t: TyId, e: u32) -> Result<V, End> {
        let (k, bits) = self.tki[t as usize];
        let v = self.ev(st, e) as u64;
        let n = ((bits + 7) / 8) as usize;
        let (ilo, ihi) = self.itv(st, e, 0);
        if ilo == ihi {
            return self.load(st, t, ilo as u64);
        }
        if k == 1 && bits <= 64 && !self.fork_addr {
            if let Some(o) = st.mem.obj(v) {
                let len = o.b.len();
                if len <= 512 && len >= n {
                    let b0 = v & !((1 << SH) - 1);
                    let lo = self.ar.konst(64, b0 as u128);
                    let off = self.ar.bin(E::Sub, e, lo);
                    let lim = self.ar.konst(64, (len - n) as u128);
                    let inb = self.ar.bin(E::Ule, off, lim);
                    let outb = self.ar.not(inb);
                    let inside = ilo >= b0 as u128 && ihi <= b0 as u128 + (len - n) as u128;
                    if inside || self.query(st, outb)?.is_none() {
                        // step: use the alignment of the offset when known
                        let mut step = 1;
                        if n > 1 {
                            let al = self.ar.konst(64, n as u128 - 1);
                            let low = self.ar.bin(E::And, off, al);
                            let z = self.ar.konst(64, 0);
                            let ne = self.ar.bin(E::Eq, low, z);
                            let ne = self.ar.not(ne);
                            if self.query(st, ne)?.is_none() {
                                step = n;
                            }
                        }
                        let mut r: Option<u32> = None;
                        let mut i = 0;
                        while i + n <= len {
                            if inside && ((b0 as u128 + i as u128) < ilo || b0 as u128 + i as u128 > ihi) {
                                i += step;
                                continue;
                            }
                            let x = self.load_n(st, b0 + i as u64, n, bits)?;
                            let x = self.ex(&x, bits);
                            r = Some(match r {
                                None => x,
                                Some(acc) => {
                                    let k = self.ar.konst(64, i as u128);
                                    let c = self.ar.bin(E::Eq, off, k);
                                    self.ar.ite(c, x, acc)
                                }
                            });
                            i += step;
                        }
                        return Ok(self.val(r.unwrap()));
                    }
                }
            }
        }
        let a = self.conc_e(st, e)? as u64;
        self.load(st, t, a)
    }

    fn tag(&mut self, st: &State, p: u64, n: u64) -> Result<u32, End> {
        let b = self.bytes(st, p, n as usize)?;
        if let Some(&i) = self.tags.get(&b) {
            return Ok(i);
        }
        let i = self.tagn.len() as u32;
        self.tagn.push(String::from_utf8_lossy(&b).to_string());
        self.tags.insert(b, i);
        Ok(i)
    }
    pub fn inputs_of(&mut self, st: &State, model: &[u64]) -> Vec<(String, u64)> {
        let mut r = vec![];
        for (t, i) in st.inputs.iter() {
            let v = match i {
                In::Var(e, _) => self.ar.eval(*e, model) as u64,
                In::K(v) => *v,
                In::X => continue,
            };
            r.push((self.tagn[*t as usize].clone(), v));
        }
        r
    }
    fn violation(&mut self, st: &State, model: &[u64], id: String) {
        let n = self.st.violn.entry(id.clone()).or_insert(0);
        *n += 1;
        if *n <= self.maxviol {
            let inputs = self.inputs_of(st, model);
            self.st.viol.push(Violation { id, inputs });
        }
    }

    /// Runs one state until its path ends.
    pub fn run(&mut self, mut st: State, tick: &mut dyn FnMut(&mut Ex) -> bool) {
        let mut next = 20_000u64;
        let i0 = st.instr;
        let out = loop {
            match self.step_block(&mut st) {
                Ok(()) => {}
                Err(End::Stop(o)) => break o,
            }
            if st.instr - i0 > next {
                next = st.instr - i0 + 20_000;
                if !tick(self) {
                    self.st.instr += st.instr - i0;
                    self.pending.push(st);
                    return;
                }
            }
            if st.instr > self.maxinstr {
                break Out::Error(format!("path exceeds {} instructions in {}", self.maxinstr, self.m.funcs[st.frames.last().unwrap().f as usize].name));
            }
        };
        self.st.instr += st.instr - i0;
        match out {
            Out::Finished | Out::Done => {
                if let Out::Done = out {
                    self.st.done += 1;
                } else {
                    self.st.finished += 1;
                }
                let k = self.st.finished + self.st.done;
                // sample a few complete paths for replay on the native build
                let take = self.st.samples.len() < self.sample_cap || (k.wrapping_mul(0x9E3779B97F4A7C15) ^ self.seed) >> 57 == 0;
                if take {
                    let model = st.model.clone();
                    let ins = self.inputs_of(&st, &model);
                    let mut notes = vec![];
                    for (t, v) in st.notes.clone() {
                        let e = self.ex(&v, 64);
                        let x = self.ar.eval(e, &model) as u64;
                        notes.push((self.tagn[t as usize].clone(), x));
                    }
                    if self.st.samples.len() < self.sample_cap {
                        self.st.samples.push((ins, notes));
                    } else if self.sample_cap > 0 {
                        let i = (k as usize) % self.sample_cap;
                        self.st.samples[i] = (ins, notes);
                    }
                }
            }
            Out::Pruned => self.st.pruned += 1,
            Out::Violated => self.st.violated += 1,
            Out::Panic(l) => {
                if self.trace > 0 {
                    self.backtrace(&st);
                }
                let model = st.model.clone();
                let ins = self.inputs_of(&st, &model);
                if !self.panics.is_empty() && !l.contains("/verif/") && !l.contains("src/world.rs") && !l.contains("tokio/src/verif.rs") {
                    let id = format!("{}: panic {}", self.panics, l);
                    let c = self.st.violn.entry(id.clone()).or_insert(0);
                    *c += 1;
                    if *c <= 2 {
                        self.st.viol.push(Violation { id, inputs: ins.clone() });
                    }
                }
                let e = self.st.panics.entry(l).or_insert((0, ins));
                e.0 += 1;
            }
            Out::Error(l) => {
                if self.trace > 0 {
                    eprintln!("error: {}", l);
                    self.backtrace(&st);
                }
                let model = st.model.clone();
                let ins = self.inputs_of(&st, &model);
                let e = self.st.errors.entry(l).or_insert((0, ins));
                e.0 += 1;
            }
        }
    }
    fn backtrace(&self, st: &State) {
        for f in st.frames.iter() {
            eprintln!("   at {} bb{} ip{}", self.m.funcs[f.f as usize].name, f.bb, f.ip);
        }
    }

    fn step_block(&mut self, st: &mut State) -> Result<(), End> {
        let m = self.m;
        let (f, bb, mut ip, base) = {
            let fr = st.frames.last().unwrap();
            (fr.f, fr.bb, fr.ip, fr.base)
        };
        let blk: &'static [Inst] = &m.funcs[f as usize].blocks[bb as usize];
        let fidx = st.frames.len() - 1;
        loop {
            st.frames[fidx].ip = ip;
            st.instr += 1;
            let inst = match blk.get(ip as usize) {
                Some(i) => i,
                None => return err("fell off block"),
            };
            let r: V = match &inst.op {
                Op::Bin(op, t, a, b) => {
                    let x = self.get(st, base, *a);
                    let y = self.get(st, base, *b);
                    let (k, bits) = self.tki[*t as usize];
                    if k == 2 {
                        let (et, eb) = self.elem(*t);
                        let isf = matches!(m.types[et as usize], Ty::F64);
                        match (&x, &y) {
                            (V::A(x), V::A(y)) => {
                                let mut r = Vec::with_capacity(x.len());
                                for i in 0..x.len() {
                                    r.push(self.bin(st, *op, eb, isf, &x[i], &y[i])?);
                                }
                                V::A(Rc::new(r))
                            }
                            _ => return err("vector bin"),
                        }
                    } else {
                        // symbolic divisor: the zero case is undefined and
                        // rustc emits a test before it
                        self.bin(st, *op, bits, bits == 64, &x, &y)?
                    }
                }
                Op::Icmp(p, t, a, b) => {
                    let x = self.get(st, base, *a);
                    let y = self.get(st, base, *b);
                    let (k, bits) = self.tki[*t as usize];
                    if k == 2 {
                        let (_, eb) = self.elem(*t);
                        match (&x, &y) {
                            (V::A(x), V::A(y)) => {
                                let mut r = Vec::with_capacity(x.len());
                                for i in 0..x.len() {
                                    r.push(self.icmp(*p, eb, &x[i], &y[i]));
                                }
                                V::A(Rc::new(r))
                            }
                            _ => return err("vector icmp"),
                        }
                    } else {
                        self.icmp(*p, bits, &x, &y)
                    }
                }
                Op::Fcmp(p, t, a, b) => {
                    let bits = self.tki[*t as usize].1;
                    let x = self.get(st, base, *a);
                    let y = self.get(st, base, *b);
                    let x = self.conc(st, &x)?;
                    let y = self.conc(st, &y)?;
                    let g = |v: u64| if bits == 64 { f64::from_bits(v) } else { f32::from_bits(v as u32) as f64 };
                    let (x, y) = (g(x), g(y));
                    let u = x.is_nan() || y.is_nan();
                    V::I(match p {
                        FPred::Oeq => !u && x == y,
                        FPred::Ogt => !u && x > y,
                        FPred::Oge => !u && x >= y,
                        FPred::Olt => !u && x < y,
                        FPred::Ole => !u && x <= y,
                        FPred::One => !u && x != y,
                        FPred::Ord => !u,
                        FPred::Ueq => u || x == y,
                        FPred::Ugt => u || x > y,
                        FPred::Uge => u || x >= y,
                        FPred::Ult => u || x < y,
                        FPred::Ule => u || x <= y,
                        FPred::Une => u || x != y,
                        FPred::Uno => u,
                        FPred::False => false,
                        FPred::True => true,
                    } as u64)
                }
                Op::FNeg(t, a) => {
                    let bits = self.tki[*t as usize].1;
                    let x = self.get(st, base, *a);
                    let x = self.conc(st, &x)?;
                    V::I(x ^ (1u64 << (bits - 1)))
                }
                Op::Cast(c, t1, t2, a) => {
                    let x = self.get(st, base, *a);
                    let (k1, b1) = self.tki[*t1 as usize];
                    let (k2, b2) = self.tki[*t2 as usize];
                    if k1 == 2 || k2 == 2 {
                        if *c == Cast::Bit {
                            let (et, eb) = self.elem(*t1);
                            let _ = et;
                            let w = if k1 == 2 {
                                match &x {
                                    V::A(v) => v.len() as u32 * eb,
                                    _ => 0,
                                }
                            } else {
                                b1
                            };
                            let v = self.to_bits(&x, *t1)?;
                            self.from_bits(v, w, *t2)?
                        } else {
                            let (_, e1) = self.elem(*t1);
                            let (_, e2) = self.elem(*t2);
                            match &x {
                                V::A(v) => {
                                    let mut r = Vec::with_capacity(v.len());
                                    for y in v.iter() {
                                        r.push(self.cast(st, *c, e1, e2, y)?);
                                    }
                                    V::A(Rc::new(r))
                                }
                                _ => return err("vector cast"),
                            }
                        }
                    } else {
                        self.cast(st, *c, b1, b2, &x)?
                    }
                }
                Op::Select(t, c, a, b) => {
                    let cv = self.get(st, base, *c);
                    let x = self.get(st, base, *a);
                    let y = self.get(st, base, *b);
                    match cv {
                        V::I(v) => {
                            if v & 1 == 1 {
                                x
                            } else {
                                y
                            }
                        }
                        V::S(e) => self.ite(e, *t, &x, &y)?,
                        V::A(cs) => {
                            let (et, _) = self.elem(*t);
                            match (&x, &y) {
                                (V::A(x), V::A(y)) => {
                                    let mut r = vec![];
                                    for i in 0..cs.len() {
                                        r.push(match &cs[i] {
                                            V::I(v) => {
                                                if v & 1 == 1 {
                                                    x[i].clone()
                                                } else {
                                                    y[i].clone()
                                                }
                                            }
                                            V::S(e) => self.ite(*e, et, &x[i], &y[i])?,
                                            _ => return err("select"),
                                        });
                                    }
                                    V::A(Rc::new(r))
                                }
                                _ => return err("select"),
                            }
                        }
                        V::W(_) => return err("select"),
                    }
                }
                Op::Load(t, p) => match self.get(st, base, *p) {
                    V::I(a) => self.load(st, *t, a)?,
                    V::S(e) => self.sym_load(st, *t, e)?,
                    _ => return err("load address"),
                },
                Op::Store(t, v, p) => {
                    let a = self.addr(st, base, *p)?;
                    let x = self.get(st, base, *v);
                    self.store(st, *t, &x, a)?;
                    ip += 1;
                    continue;
                }
                Op::Gep(b, off, terms) => {
                    let mut x = self.get(st, base, *b);
                    if let V::I(a) = &mut x {
                        *a = a.wrapping_add(*off as u64);
                    } else {
                        let k = V::I(*off as u64);
                        x = self.bin(st, Bin::Add, 64, false, &x, &k)?;
                    }
                    for (o, s, bits) in terms.iter() {
                        let i = self.get(st, base, *o);
                        match (&x, &i) {
                            (V::I(a), V::I(i)) => {
                                x = V::I(a.wrapping_add((sx64(*i, *bits)).wrapping_mul(*s) as u64));
                            }
                            _ => {
                                let i = self.cast(st, Cast::SExt, *bits, 64, &i)?;
                                let k = V::I(*s as u64);
                                let p = self.bin(st, Bin::Mul, 64, false, &i, &k)?;
                                x = self.bin(st, Bin::Add, 64, false, &x, &p)?;
                            }
                        }
                    }
                    x
                }
                Op::VGep(_) => return err("vector gep"),
                Op::Alloca(s, n, _) => {
                    if bb == 0 && self.allocoff[f as usize].contains_key(&inst.dst) {
                        ip += 1;
                        continue;
                    }
                    let n = self.addr(st, base, *n)?;
                    let a = st.mem.alloc((s * n).max(1));
                    st.frames[fidx].dyns.push((a >> SH) as u32);
                    V::I(a)
                }
                Op::Br(e) => {
                    self.take(st, base, fidx, e);
                    return Ok(());
                }
                Op::CondBr(c, e) => {
                    let d = match self.get(st, base, *c) {
                        V::I(v) => v & 1 == 1,
                        V::S(x) => self.decide(st, x)?,
                        _ => return err("branch"),
                    };
                    self.take(st, base, fidx, if d { &e.0 } else { &e.1 });
                    return Ok(());
                }
                Op::Switch(bits, v, e) => {
                    let x = self.get(st, base, *v);
                    match x {
                        V::I(x) => {
                            let ed = e.1.iter().find(|y| y.0 as u64 == x).map(|y| &y.1).unwrap_or(&e.0);
                            self.take(st, base, fidx, ed);
                            return Ok(());
                        }
                        V::W(x) => {
                            let ed = e.1.iter().find(|y| y.0 == *x).map(|y| &y.1).unwrap_or(&e.0);
                            self.take(st, base, fidx, ed);
                            return Ok(());
                        }
                        V::S(x) => {
                            let cur = self.ev(st, x);
                            // group the cases by target with the same copies
                            let mine = e.1.iter().position(|y| y.0 == cur);
                            // decide "x == case" for my case or, in the
                            // default case, for each other case in turn
                            match mine {
                                Some(i) => {
                                    let k = self.ar.konst(*bits, e.1[i].0);
                                    let c = self.ar.bin(E::Eq, x, k);
                                    if !self.decide(st, c)? {
                                        return err("switch");
                                    }
                                    self.take(st, base, fidx, &e.1[i].1);
                                }
                                None => {
                                    for y in e.1.iter() {
                                        let k = self.ar.konst(*bits, y.0);
                                        let c = self.ar.bin(E::Eq, x, k);
                                        if self.decide(st, c)? {
                                            return err("switch default");
                                        }
                                    }
                                    self.take(st, base, fidx, &e.0);
                                }
                            }
                            return Ok(());
                        }
                        _ => return err("switch"),
                    }
                }
                Op::Ret(o) => {
                    let v = o.map(|o| self.get(st, base, o));
                    let fr = st.frames.pop().unwrap();
                    if fr.obj != 0 {
                        st.mem.release(fr.obj);
                    }
                    for d in fr.dyns {
                        st.mem.release(d);
                    }
                    st.regs.truncate(fr.base as usize);
                    match st.frames.last_mut() {
                        None => return Err(End::Stop(Out::Finished)),
                        Some(p) => {
                            p.ip += 1;
                            if fr.dst != NODST {
                                if let Some(v) = v {
                                    let b = p.base;
                                    st.regs[(b + fr.dst) as usize] = v;
                                }
                            }
                        }
                    }
                    return Ok(());
                }
                Op::Unreachable => return err(format!("unreachable code reached in {}", m.funcs[f as usize].name)),
                Op::Call(callee, args, rt) => {
                    let fi = match callee {
                        Callee::F(i) => *i,
                        Callee::Ptr(o) => {
                            let a = self.addr(st, base, *o)?;
                            if a < FN_BASE || (a - FN_BASE) % 16 != 0 || (a - FN_BASE) / 16 >= m.funcs.len() as u64 {
                                return err(format!("call through bad pointer {:#x}", a));
                            }
                            ((a - FN_BASE) / 16) as u32
                        }
                    };
                    let fun = &m.funcs[fi as usize];
                    if fun.defined {
                        if st.frames.len() > 2000 {
                            return err("call depth");
                        }
                        let mut av: [V; 12] = [Z0; 12];
                        if args.len() > 12 {
                            let v: Vec<V> = args.iter().map(|(_, o)| self.get(st, base, *o)).collect();
                            if self.trace > 1 {
                                eprintln!("{}call {}", " ".repeat(st.frames.len()), fun.name);
                            }
                            self.push_frame(st, fi, inst.dst, &v[..fun.nparams as usize]);
                            return Ok(());
                        }
                        for (i, (_, o)) in args.iter().enumerate() {
                            av[i] = self.get(st, base, *o);
                        }
                        if self.trace > 1 {
                            eprintln!("{}call {} {:?}", " ".repeat(st.frames.len()), fun.name, &av[..args.len()]);
                        }
                        self.push_frame(st, fi, inst.dst, &av[..fun.nparams as usize]);
                        return Ok(());
                    }
                    let av: Vec<V> = args.iter().map(|(_, o)| self.get(st, base, *o)).collect();
                    let tys: Vec<TyId> = args.iter().map(|(t, _)| *t).collect();
                    match self.external(st, fi, &av, &tys, *rt)? {
                        Some(v) => v,
                        None => {
                            ip += 1;
                            continue;
                        }
                    }
                }
                Op::ExtractValue(a, ix) => {
                    let mut x = self.get(st, base, *a);
                    for i in ix.iter() {
                        x = match x {
                            V::A(v) => v[*i as usize].clone(),
                            _ => return err("extractvalue"),
                        };
                    }
                    x
                }
                Op::InsertValue(a, v, ix) => {
                    let x = self.get(st, base, *a);
                    let y = self.get(st, base, *v);
                    fn ins(x: V, y: V, ix: &[u32]) -> Option<V> {
                        if ix.is_empty() {
                            return Some(y);
                        }
                        match x {
                            V::A(mut v) => {
                                let o = v[ix[0] as usize].clone();
                                let n = ins(o, y, &ix[1..])?;
                                Rc::make_mut(&mut v)[ix[0] as usize] = n;
                                Some(V::A(v))
                            }
                            _ => None,
                        }
                    }
                    match ins(x, y, ix) {
                        Some(v) => v,
                        None => return err("insertvalue"),
                    }
                }
                Op::ExtractElement(a, i) => {
                    let x = self.get(st, base, *a);
                    let i = self.addr(st, base, *i)?;
                    match x {
                        V::A(v) => v.get(i as usize).cloned().unwrap_or(Z0),
                        _ => return err("extractelement"),
                    }
                }
                Op::InsertElement(a, v, i) => {
                    let x = self.get(st, base, *a);
                    let y = self.get(st, base, *v);
                    let i = self.addr(st, base, *i)?;
                    match x {
                        V::A(mut v) => {
                            Rc::make_mut(&mut v)[i as usize] = y;
                            V::A(v)
                        }
                        _ => return err("insertelement"),
                    }
                }
                Op::Shuffle(a, b, mk) => {
                    let x = self.get(st, base, *a);
                    let y = self.get(st, base, *b);
                    match (&x, &y) {
                        (V::A(x), V::A(y)) => V::A(Rc::new(
                            mk.iter()
                                .map(|i| {
                                    if *i < 0 {
                                        Z0
                                    } else if (*i as usize) < x.len() {
                                        x[*i as usize].clone()
                                    } else {
                                        y[*i as usize - x.len()].clone()
                                    }
                                })
                                .collect(),
                        )),
                        _ => return err("shuffle"),
                    }
                }
                Op::Freeze(a) => self.get(st, base, *a),
                Op::AtomicRmw(k, t, p, v) => {
                    let a = self.addr(st, base, *p)?;
                    let bits = self.tki[*t as usize].1;
                    let old = self.load(st, *t, a)?;
                    let y = self.get(st, base, *v);
                    let n = match k {
                        Rmw::Xchg => y,
                        Rmw::Add => self.bin(st, Bin::Add, bits, false, &old, &y)?,
                        Rmw::Sub => self.bin(st, Bin::Sub, bits, false, &old, &y)?,
                        Rmw::And => self.bin(st, Bin::And, bits, false, &old, &y)?,
                        Rmw::Or => self.bin(st, Bin::Or, bits, false, &old, &y)?,
                        Rmw::Xor => self.bin(st, Bin::Xor, bits, false, &old, &y)?,
                        Rmw::Nand => {
                            let x = self.bin(st, Bin::And, bits, false, &old, &y)?;
                            let k = V::I(m64(bits));
                            self.bin(st, Bin::Xor, bits, false, &x, &k)?
                        }
                        Rmw::UMax | Rmw::UMin | Rmw::Max | Rmw::Min => {
                            let p = match k {
                                Rmw::UMax => Pred::Ugt,
                                Rmw::UMin => Pred::Ult,
                                Rmw::Max => Pred::Sgt,
                                _ => Pred::Slt,
                            };
                            match self.icmp(p, bits, &old, &y) {
                                V::I(1) => old.clone(),
                                V::I(_) => y,
                                V::S(c) => self.ite(c, *t, &old, &y)?,
                                _ => return err("rmw"),
                            }
                        }
                    };
                    self.store(st, *t, &n, a)?;
                    old
                }
                Op::CmpXchg(t, p, c, n) => {
                    let a = self.addr(st, base, *p)?;
                    let bits = self.tki[*t as usize].1;
                    let old = self.load(st, *t, a)?;
                    let x = self.get(st, base, *c);
                    let ok = match self.icmp(Pred::Eq, bits, &old, &x) {
                        V::I(v) => v == 1,
                        V::S(e) => self.decide(st, e)?,
                        _ => false,
                    };
                    if ok {
                        let y = self.get(st, base, *n);
                        self.store(st, *t, &y, a)?;
                    }
                    V::A(Rc::new(vec![old, V::I(ok as u64)]))
                }
                Op::Nop => {
                    ip += 1;
                    continue;
                }
                Op::Bad(s) => return err(format!("unsupported {} in {}", s, m.funcs[f as usize].name)),
            };
            if inst.dst != NODST {
                st.regs[(base + inst.dst) as usize] = r;
            }
            ip += 1;
        }
    }
    #[inline]
    fn take(&mut self, st: &mut State, base: u32, fidx: usize, e: &Edge) {
        match e.copies.len() {
            0 => {}
            1 => {
                let (d, o) = e.copies[0];
                let v = self.get(st, base, o);
                st.regs[(base + d) as usize] = v;
            }
            _ => {
                let vs: Vec<V> = e.copies.iter().map(|(_, o)| self.get(st, base, *o)).collect();
                for ((d, _), v) in e.copies.iter().zip(vs) {
                    st.regs[(base + d) as usize] = v;
                }
            }
        }
        let fr = &mut st.frames[fidx];
        fr.bb = e.bb;
        fr.ip = 0;
    }

    /// concretize all arguments
    fn cargs(&mut self, st: &mut State, av: &[V]) -> Result<Vec<u64>, End> {
        let mut r = vec![];
        for a in av {
            r.push(self.conc(st, a)?);
        }
        Ok(r)
    }

    fn external(&mut self, st: &mut State, fi: u32, av: &[V], tys: &[TyId], rt: TyId) -> Result<Option<V>, End> {
        use Ext::*;
        let k = self.ext[fi as usize];
        let bits = tys.first().map(|t| self.tki[*t as usize].1).unwrap_or(0);
        // elementwise vector intrinsics
        if let (Some(V::A(_)), Umax | Umin | Smax | Smin | UsubSat | UaddSat | Abs) = (av.first(), k) {
            let (et, _) = self.elem(tys[0]);
            let n = match &av[0] {
                V::A(x) => x.len(),
                _ => 0,
            };
            let mut r = vec![];
            for i in 0..n {
                let a2: Vec<V> = av
                    .iter()
                    .map(|x| match x {
                        V::A(v) => v[i].clone(),
                        x => x.clone(),
                    })
                    .collect();
                let t2 = vec![et; av.len()];
                r.push(self.external(st, fi, &a2, &t2, et)?.unwrap_or(Z0));
            }
            return Ok(Some(V::A(Rc::new(r))));
        }
        Ok(match k {
            Nop => {
                if self.m.types[rt as usize] == Ty::Void {
                    None
                } else {
                    Some(self.zero(rt))
                }
            }
            Ret0 => Some(V::I(0)),
            Sym => {
                let c = self.cargs(st, av)?;
                let t = self.tag(st, c[1], c[2])?;
                let i = st.nvar;
                if i >= 256 {
                    return err("more than 256 symbolic inputs on a path");
                }
                st.nvar += 1;
                let v = self.ar.var(i, 64);
                let b = c[0] as u32;
                let e = if b < 64 {
                    let x = self.ar.extract(v, 0, b);
                    self.ar.zext(x, 64)
                } else {
                    v
                };
                if st.model.len() <= i as usize {
                    Rc::make_mut(&mut st.model).resize(i as usize + 1, 0);
                }
                st.inputs.push((t, In::Var(e, i)));
                Some(self.val(e))
            }
            Choose => {
                let c = self.cargs(st, av)?;
                let t = self.tag(st, c[1], c[2])?;
                let n = c[0];
                if n == 0 {
                    return Err(End::Stop(Out::Pruned));
                }
                // the other alternatives continue right after this call
                for i in (1..n).rev() {
                    let mut s2 = st.clone();
                    s2.inputs.push((t, In::K(i)));
                    let fr = s2.frames.last_mut().unwrap();
                    let inst = &self.m.funcs[fr.f as usize].blocks[fr.bb as usize][fr.ip as usize];
                    fr.ip += 1;
                    let b = fr.base;
                    if inst.dst != NODST {
                        s2.regs[(b + inst.dst) as usize] = V::I(i);
                    }
                    self.st.forks += 1;
                    self.pending.push(s2);
                }
                st.inputs.push((t, In::K(0)));
                Some(V::I(0))
            }
            Assume => {
                match &av[0] {
                    V::I(v) => {
                        if v & 1 == 0 {
                            return Err(End::Stop(Out::Pruned));
                        }
                    }
                    V::S(e) => {
                        let e = *e;
                        if self.ev(st, e) == 0 {
                            match self.query(st, e)? {
                                Some(m) => st.model = m,
                                None => return Err(End::Stop(Out::Pruned)),
                            }
                        }
                        self.add_con(st, e);
                    }
                    _ => return err("assume"),
                }
                None
            }
            Check => {
                let c = self.cargs(st, &av[1..])?;
                let t = self.tag(st, c[0], c[1])?;
                let id = self.tagn[t as usize].clone();
                if !self.only.is_empty() && !id.starts_with(&self.only) {
                    return Ok(None);
                }
                let ent = self.st.checks.entry(id.clone()).or_insert((0, 0));
                ent.0 += 1;
                st.checks += 1;
                match &av[0] {
                    V::I(v) => {
                        if v & 1 == 0 {
                            let m = st.model.clone();
                            self.violation(st, &m, id);
                            return Err(End::Stop(Out::Violated));
                        }
                    }
                    V::S(e) => {
                        ent.1 += 1;
                        let e = *e;
                        let ne = self.ar.not(e);
                        if let Some(m) = self.query(st, ne)? {
                            self.violation(st, &m, id);
                            // go on where it holds
                            match self.query(st, e)? {
                                Some(m) => st.model = m,
                                None => return Err(End::Stop(Out::Violated)),
                            }
                            self.add_con(st, e);
                        }
                    }
                    _ => return err("check"),
                }
                None
            }
            Reach => {
                let c = self.cargs(st, av)?;
                let t = self.tag(st, c[0], c[1])?;
                *self.st.reach.entry(self.tagn[t as usize].clone()).or_insert(0) += 1;
                None
            }
            Concrete => Some(V::I(self.conc(st, &av[0])?)),
            Done => return Err(End::Stop(Out::Done)),
            Note => {
                let c = self.cargs(st, &av[..2])?;
                let t = self.tag(st, c[0], c[1])?;
                st.notes.push((t, av[2].clone()));
                None
            }
            SelectPick => {
                // which ready branch a select! takes first: forked
                let c = self.cargs(st, av)?;
                let _ = c;
                Some(V::I(0))
            }
            HashOne => Some(V::I(0)),
            Format => {
                // String { cap: 0, ptr: dangling, len: 0 } written to the
                // return slot
                let c = self.cargs(st, &av[..1])?;
                if self.m.types[rt as usize] != Ty::Void {
                    return err("format returns by value");
                }
                self.store_n(st, c[0], 8, 64, &V::I(0))?;
                self.store_n(st, c[0] + 8, 8, 64, &V::I(1))?;
                self.store_n(st, c[0] + 16, 8, 64, &V::I(0))?;
                None
            }
            Panic => {
                let mut loc = String::from("?");
                if let Some(V::I(p)) = av.last() {
                    if let (Ok(V::I(fp)), Ok(V::I(fl)), Ok(V::I(line))) =
                        (self.load_n(st, *p, 8, 64), self.load_n(st, *p + 8, 8, 64), self.load_n(st, *p + 16, 4, 32))
                    {
                        if let Ok(b) = self.bytes(st, fp, fl as usize) {
                            loc = format!("{}:{}", String::from_utf8_lossy(&b), line);
                        }
                    }
                }
                // innermost frames that are not library code give the place
                let mut at = vec![];
                for fr in st.frames.iter().rev() {
                    let n = &self.m.funcs[fr.f as usize].name;
                    if n.contains("8overlord") {
                        at.push(n.clone());
                        if at.len() >= 2 {
                            break;
                        }
                    }
                }
                return Err(End::Stop(Out::Panic(format!("{} | {}", loc, at.join(" < ")))));
            }
            Malloc => {
                let n = self.conc(st, &av[0])?;
                if n > 1 << 23 {
                    return err(format!("allocation of {} bytes", n));
                }
                Some(V::I(st.mem.alloc(n)))
            }
            Calloc => {
                let c = self.cargs(st, av)?;
                let n = c[0].saturating_mul(c[1]);
                if n > 1 << 23 {
                    return err(format!("allocation of {} bytes", n));
                }
                Some(V::I(st.mem.alloc(n)))
            }
            Realloc => {
                let c = self.cargs(st, av)?;
                if c[1] > 1 << 23 {
                    return err(format!("allocation of {} bytes", c[1]));
                }
                let a = st.mem.alloc(c[1]);
                if c[0] != 0 {
                    let old = match st.mem.obj(c[0]) {
                        Some(o) => o.b.len(),
                        None => return err("realloc of bad pointer"),
                    };
                    self.copy(st, a, c[0], old.min(c[1] as usize))?;
                    st.mem.release((c[0] >> SH) as u32);
                }
                Some(V::I(a))
            }
            Free => {
                let p = self.conc(st, &av[0])?;
                if p != 0 {
                    if st.mem.obj(p).is_none() || p & ((1 << SH) - 1) != 0 {
                        return err(format!("free of bad pointer {:#x}", p));
                    }
                    st.mem.release((p >> SH) as u32);
                }
                None
            }
            PosixMemalign => {
                let c = self.cargs(st, av)?;
                let a = st.mem.alloc(c[2]);
                self.store_n(st, c[0], 8, 64, &V::I(a))?;
                Some(V::I(0))
            }
            Strlen => {
                let p = self.conc(st, &av[0])?;
                let mut n = 0;
                loop {
                    match self.load_n(st, p + n, 1, 8)? {
                        V::I(0) => break,
                        V::I(_) => n += 1,
                        _ => return err("strlen symbolic"),
                    }
                }
                Some(V::I(n))
            }
            Memcpy => {
                let c = self.cargs(st, &av[..3])?;
                self.copy(st, c[0], c[1], c[2] as usize)?;
                if self.m.types[rt as usize] == Ty::Void {
                    None
                } else {
                    Some(V::I(c[0]))
                }
            }
            Memset => {
                let d = self.conc(st, &av[0])?;
                let n = self.conc(st, &av[2])? as usize;
                if n > 0 {
                    let off = (d & ((1 << SH) - 1)) as usize;
                    match st.mem.obj(d) {
                        Some(o) if off + n <= o.b.len() && !o.ro => {}
                        _ => return self.bad_access(st, d, n, "memset"),
                    }
                    let x = self.cast(st, Cast::Trunc, self.tki[tys[1] as usize].1, 8, &av[1])?;
                    let o = st.mem.obj_mut(d).unwrap();
                    match x {
                        V::I(b) => {
                            o.b[off..off + n].fill(b as u8);
                            if !o.s.is_empty() {
                                o.s[off..off + n].fill(0);
                            }
                        }
                        V::S(e) => {
                            if o.s.is_empty() {
                                o.s = vec![0; o.b.len()];
                            }
                            o.s[off..off + n].fill(e);
                        }
                        _ => return err("memset"),
                    }
                }
                if self.m.types[rt as usize] == Ty::Void {
                    None
                } else {
                    Some(V::I(d))
                }
            }
            Memcmp | Bcmp => {
                let c = self.cargs(st, &av[..3])?;
                let n = c[2] as usize;
                if n == 0 {
                    return Ok(Some(V::I(0)));
                }
                let (ao, bo) = ((c[0] & ((1 << SH) - 1)) as usize, (c[1] & ((1 << SH) - 1)) as usize);
                match (st.mem.obj(c[0]), st.mem.obj(c[1])) {
                    (Some(x), Some(y)) if ao + n <= x.b.len() && bo + n <= y.b.len() => {
                        let conc = |o: &Obj, p: usize| o.s.is_empty() || o.s[p..p + n].iter().all(|z| *z == 0);
                        if conc(x, ao) && conc(y, bo) {
                            let r = x.b[ao..ao + n].cmp(&y.b[bo..bo + n]);
                            return Ok(Some(V::I(match r {
                                std::cmp::Ordering::Less => 0xffff_ffff,
                                std::cmp::Ordering::Equal => 0,
                                std::cmp::Ordering::Greater => 1,
                            })));
                        }
                    }
                    _ => return self.bad_access(st, c[0], n, "memcmp"),
                }
                let mut xs = vec![];
                let mut ys = vec![];
                for i in 0..n {
                    let v = self.load_n(st, c[0] + i as u64, 1, 8)?;
                    xs.push(self.ex(&v, 8));
                    let v = self.load_n(st, c[1] + i as u64, 1, 8)?;
                    ys.push(self.ex(&v, 8));
                }
                if k == Bcmp {
                    let mut acc = self.ar.konst(1, 1);
                    for i in 0..n {
                        let e = self.ar.bin(E::Eq, xs[i], ys[i]);
                        acc = self.ar.bin(E::And, acc, e);
                    }
                    let ne = self.ar.not(acc);
                    let r = self.ar.zext(ne, 32);
                    Some(self.val(r))
                } else {
                    let mut acc = self.ar.konst(32, 0);
                    let one = self.ar.konst(32, 1);
                    let m1 = self.ar.konst(32, 0xffff_ffff);
                    for i in (0..n).rev() {
                        let e = self.ar.bin(E::Eq, xs[i], ys[i]);
                        let l = self.ar.bin(E::Ult, xs[i], ys[i]);
                        let d = self.ar.ite(l, m1, one);
                        acc = self.ar.ite(e, acc, d);
                    }
                    Some(self.val(acc))
                }
            }
            Umax | Umin | Smax | Smin => {
                let p = match k {
                    Umax => Pred::Ugt,
                    Umin => Pred::Ult,
                    Smax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                Some(match self.icmp(p, bits, &av[0], &av[1]) {
                    V::I(1) => av[0].clone(),
                    V::I(_) => av[1].clone(),
                    V::S(c) => self.ite(c, tys[0], &av[0], &av[1])?,
                    _ => return err("minmax"),
                })
            }
            UaddO | UsubO | UmulO | SaddO | SsubO | SmulO => {
                if bits > 64 {
                    return err("wide overflow op");
                }
                let w2 = if matches!(k, UmulO | SmulO) { bits * 2 } else { bits + 1 };
                let signed = matches!(k, SaddO | SsubO | SmulO);
                let op = match k {
                    UaddO | SaddO => E::Add,
                    UsubO | SsubO => E::Sub,
                    _ => E::Mul,
                };
                if let (V::I(x), V::I(y)) = (&av[0], &av[1]) {
                    let (x, y) = if signed { (sx64(*x, bits) as i128, sx64(*y, bits) as i128) } else { (*x as i128, *y as i128) };
                    let r = match op {
                        E::Add => x + y,
                        E::Sub => x - y,
                        _ => x.wrapping_mul(y),
                    };
                    let lo = (r as u64) & m64(bits);
                    let o = if signed { sx64(lo, bits) as i128 != r } else { lo as i128 != r };
                    return Ok(Some(V::A(Rc::new(vec![V::I(lo), V::I(o as u64)]))));
                }
                let x = self.ex(&av[0], bits);
                let y = self.ex(&av[1], bits);
                let lo = self.ar.bin(op, x, y);
                let (xe, ye) = if signed { (self.ar.sext(x, w2), self.ar.sext(y, w2)) } else { (self.ar.zext(x, w2), self.ar.zext(y, w2)) };
                let o = if k == UaddO {
                    self.ar.bin(E::Ult, lo, x)
                } else if k == UsubO {
                    self.ar.bin(E::Ult, x, y)
                } else {
                    let full = self.ar.bin(op, xe, ye);
                    let back = if signed { self.ar.sext(lo, w2) } else { self.ar.zext(lo, w2) };
                    let e = self.ar.bin(E::Eq, full, back);
                    self.ar.not(e)
                };
                Some(V::A(Rc::new(vec![self.val(lo), self.val(o)])))
            }
            UaddSat | UsubSat => {
                let x = self.ex(&av[0], bits);
                let y = self.ex(&av[1], bits);
                let r = if k == UaddSat {
                    let s = self.ar.bin(E::Add, x, y);
                    let o = self.ar.bin(E::Ult, s, x);
                    let mx = self.ar.konst(bits, u128::MAX);
                    self.ar.ite(o, mx, s)
                } else {
                    let s = self.ar.bin(E::Sub, x, y);
                    let o = self.ar.bin(E::Ult, x, y);
                    let z = self.ar.konst(bits, 0);
                    self.ar.ite(o, z, s)
                };
                Some(self.val(r))
            }
            SaddSat | SsubSat => {
                let c = self.cargs(st, &av[..2])?;
                let (x, y) = (sx64(c[0], bits) as i128, sx64(c[1], bits) as i128);
                let r = if k == SaddSat { x + y } else { x - y };
                let mx = (m64(bits) >> 1) as i128;
                let mn = -mx - 1;
                Some(V::I(r.clamp(mn, mx) as u64 & m64(bits)))
            }
            Ctlz => {
                match &av[0] {
                    V::I(x) => Some(V::I(if *x == 0 { bits as u64 } else { (x.leading_zeros() - (64 - bits)) as u64 })),
                    V::S(e) => {
                        let e = *e;
                        let (lo, hi) = self.itv(st, e, 0);
                        let lead = |x: u128| if x == 0 { bits } else { bits - (128 - x.leading_zeros()) };
                        if lead(lo) == lead(hi) {
                            return Ok(Some(V::I(lead(lo) as u64)));
                        }
                        let (mut tl, mut th) = (lead(hi), lead(lo)); // leading zeros in tl..=th
                        if self.fork_addr {
                            // split by the byte holding the leading bit
                            while tl / 8 != th / 8 {
                                let k = (th / 8) * 8; // at least k leading zeros?
                                let lim = self.ar.konst(bits, 1u128 << (bits - k));
                                let c = if k == bits { let z = self.ar.konst(bits, 0); self.ar.bin(E::Eq, e, z) } else { self.ar.bin(E::Ult, e, lim) };
                                if self.decide(st, c)? {
                                    tl = k;
                                } else {
                                    th = k - 1;
                                }
                            }
                            let h = self.ar.konst(bits - 3, (tl / 8) as u128);
                            if tl == th {
                                return Ok(Some(V::I(tl as u64)));
                            }
                            let mut r = self.ar.konst(3, (th % 8) as u128);
                            for i in (bits - th)..(bits - tl) {
                                let b = self.ar.extract(e, i, 1);
                                let kk = self.ar.konst(3, ((bits - 1 - i) % 8) as u128);
                                r = self.ar.ite(b, kk, r);
                            }
                            let r = self.ar.concat(h, r);
                            return Ok(Some(self.val(r)));
                        }
                        let mut r = self.ar.konst(bits, lead(lo) as u128);
                        for i in (bits - lead(lo))..(bits - lead(hi)) {
                            let b = self.ar.extract(e, i, 1);
                            let kk = self.ar.konst(bits, (bits - 1 - i) as u128);
                            r = self.ar.ite(b, kk, r);
                        }
                        Some(self.val(r))
                    }
                    V::W(x) => Some(Self::kv(bits, if **x == 0 { bits as u128 } else { (x.leading_zeros() - (128 - bits)) as u128 })),
                    _ => return err("ctlz"),
                }
            }
            Cttz => {
                match &av[0] {
                    V::I(x) => Some(V::I(if *x == 0 { bits as u64 } else { x.trailing_zeros() as u64 })),
                    V::S(e) => {
                        let e = *e;
                        let mut r = self.ar.konst(bits, bits as u128);
                        for i in (0..bits).rev() {
                            let b = self.ar.extract(e, i, 1);
                            let kk = self.ar.konst(bits, i as u128);
                            r = self.ar.ite(b, kk, r);
                        }
                        Some(self.val(r))
                    }
                    _ => return err("cttz"),
                }
            }
            Ctpop => match &av[0] {
                V::I(x) => Some(V::I(x.count_ones() as u64)),
                V::S(e) => {
                    let e = *e;
                    let mut r = self.ar.konst(bits, 0);
                    for i in 0..bits {
                        let b = self.ar.extract(e, i, 1);
                        let b = self.ar.zext(b, bits);
                        r = self.ar.bin(E::Add, r, b);
                    }
                    Some(self.val(r))
                }
                _ => return err("ctpop"),
            },
            Bswap => match &av[0] {
                V::I(x) => Some(V::I(x.swap_bytes() >> (64 - bits))),
                V::S(e) => {
                    let e = *e;
                    let n = bits / 8;
                    let mut r = self.ar.extract(e, 0, 8);
                    for i in 1..n {
                        let b = self.ar.extract(e, i * 8, 8);
                        r = self.ar.concat(r, b);
                    }
                    Some(self.val(r))
                }
                _ => return err("bswap"),
            },
            Bitrev => match &av[0] {
                V::I(x) => Some(V::I(x.reverse_bits() >> (64 - bits))),
                V::S(e) => {
                    let e = *e;
                    let mut r = self.ar.extract(e, 0, 1);
                    for i in 1..bits {
                        let b = self.ar.extract(e, i, 1);
                        r = self.ar.concat(r, b);
                    }
                    Some(self.val(r))
                }
                _ => return err("bitreverse"),
            },
            Fshl | Fshr => {
                let s = self.conc(st, &av[2])? % bits as u64;
                if let (V::I(a), V::I(b)) = (&av[0], &av[1]) {
                    let w = (*a as u128) << bits | *b as u128;
                    let r = if k == Fshl { (w << s) >> bits } else { w >> s };
                    return Ok(Some(V::I(r as u64 & m64(bits))));
                }
                if bits > 64 {
                    return err("wide funnel shift");
                }
                let a = self.ex(&av[0], bits);
                let b = self.ex(&av[1], bits);
                let w = self.ar.concat(a, b);
                let r = if k == Fshl { self.ar.extract(w, bits - s as u32, bits) } else { self.ar.extract(w, s as u32, bits) };
                Some(self.val(r))
            }
            Abs => {
                let z = V::I(0);
                let neg = self.bin(st, Bin::Sub, bits, false, &z, &av[0])?;
                Some(match self.icmp(Pred::Slt, bits, &av[0], &z) {
                    V::I(1) => neg,
                    V::I(_) => av[0].clone(),
                    V::S(c) => self.ite(c, tys[0], &neg, &av[0])?,
                    _ => return err("abs"),
                })
            }
            Ucmp | Scmp => {
                let (lt, gt) = if k == Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let rb = self.tki[rt as usize].1;
                let l = self.icmp(lt, bits, &av[0], &av[1]);
                let g = self.icmp(gt, bits, &av[0], &av[1]);
                let l = self.ex(&l, 1);
                let g = self.ex(&g, 1);
                let m1 = self.ar.konst(rb, u128::MAX);
                let one = self.ar.konst(rb, 1);
                let z = self.ar.konst(rb, 0);
                let r = self.ar.ite(g, one, z);
                let r = self.ar.ite(l, m1, r);
                Some(self.val(r))
            }
            Tls => Some(av[0].clone()),
            Trap => return Err(End::Stop(Out::Panic("abort (trap)".into()))),
            Abort => return Err(End::Stop(Out::Panic("abort".into()))),
            Ceil | Floor | Sqrt | Fabs | Trunc => {
                let x = self.conc(st, &av[0])?;
                let f = |v: f64| match k {
                    Ceil => v.ceil(),
                    Floor => v.floor(),
                    Sqrt => v.sqrt(),
                    Trunc => v.trunc(),
                    _ => v.abs(),
                };
                Some(V::I(if bits == 64 { f(f64::from_bits(x)).to_bits() } else { (f(f32::from_bits(x as u32) as f64) as f32).to_bits() as u64 }))
            }
            FpuiSat | FpsiSat => {
                let x = self.conc(st, &av[0])?;
                let v = if bits == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                let rb = self.tki[rt as usize].1;
                Some(V::I(if k == FpuiSat {
                    (v as u64).min(m64(rb))
                } else {
                    let mx = (m64(rb) >> 1) as i64;
                    (v as i64).clamp(-mx - 1, mx) as u64 & m64(rb)
                }))
            }
            Write => {
                let c = self.cargs(st, av)?;
                Some(V::I(c[2]))
            }
            ClockGettime => {
                let c = self.cargs(st, av)?;
                self.store_n(st, c[1], 8, 64, &V::I(1_000_000))?;
                self.store_n(st, c[1] + 8, 8, 64, &V::I(0))?;
                Some(V::I(0))
            }
            Errno => Some(V::I(self.errno)),
            Expect => Some(av[0].clone()),
            IsConst => Some(V::I(0)),
            Movmsk => match &av[0] {
                V::A(v) => {
                    let (_, eb) = self.elem(tys[0]);
                    let mut e = self.ar.konst(1, 0);
                    for (i, x) in v.iter().enumerate() {
                        let y = self.ex(x, eb);
                        let b = self.ar.extract(y, eb - 1, 1);
                        e = if i == 0 { b } else { self.ar.concat(b, e) };
                    }
                    let r = self.ar.zext(e, 32);
                    Some(self.val(r))
                }
                _ => return err("movmsk"),
            },
            VRedOr | VRedAnd => match &av[0] {
                V::A(v) => {
                    let (_, eb) = self.elem(tys[0]);
                    let mut acc = v[0].clone();
                    for x in v[1..].iter() {
                        acc = self.bin(st, if k == VRedOr { Bin::Or } else { Bin::And }, eb, false, &acc, x)?;
                    }
                    Some(acc)
                }
                _ => return err("vector reduce"),
            },
            LoadRel => {
                let p = self.conc(st, &av[0])?;
                let o = self.conc(st, &av[1])?;
                match self.load_n(st, p.wrapping_add(o), 4, 32)? {
                    V::I(x) => Some(V::I(p.wrapping_add(sx64(x, 32) as u64))),
                    _ => return err("load.relative"),
                }
            }
            GetTid => Some(V::I(1)),
            Getrandom => {
                let c = self.cargs(st, &av[..2])?;
                for i in 0..c[1] {
                    self.store_n(st, c[0] + i, 1, 8, &V::I(0))?;
                }
                Some(V::I(c[1]))
            }
            Getenv => Some(V::I(0)),
            Syscall => return err("syscall"),
            Unknown => return err(format!("call of unmodelled external {}", self.m.funcs[fi as usize].name)),
        })
    }
}
