//! Hash-consed bit-vector expressions with local simplification.
//! Widths 1..=128; booleans are one bit wide.
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum E {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract, // a, low bit = b
    ZExt,
    SExt,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct N {
    pub op: E,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub type VarSet = [u64; 4];

pub struct Arena {
    pub n: Vec<N>,
    map: HashMap<N, u32, FxB>,
    wide: Vec<u64>,
    widem: HashMap<u64, u32>,
    vars: Vec<VarSet>,
    // evaluation memo
    ev: Vec<u128>,
    evs: Vec<u32>,
    stamp: u32,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
#[derive(Default, Clone, Copy)]
pub struct FxB;
impl std::hash::BuildHasher for FxB {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx {
        Fx(0)
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn fold(op: E, w: u32, x: u128, y: u128) -> u128 {
    // w: operand width
    let m = mask(w);
    (match op {
        E::Add => x.wrapping_add(y),
        E::Sub => x.wrapping_sub(y),
        E::Mul => x.wrapping_mul(y),
        E::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        E::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        E::SDiv => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                if a < 0 { 1 } else { m }
            } else {
                a.wrapping_div(b) as u128
            }
        }
        E::SRem => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u128
            }
        }
        E::And => x & y,
        E::Or => x | y,
        E::Xor => x ^ y,
        E::Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        E::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        E::AShr => {
            let s = if y >= w as u128 { w - 1 } else { y as u32 };
            (sx(x, w) >> s) as u128
        }
        E::Eq => return (x == y) as u128,
        E::Ult => return (x < y) as u128,
        E::Ule => return (x <= y) as u128,
        E::Slt => return (sx(x, w) < sx(y, w)) as u128,
        E::Sle => return (sx(x, w) <= sx(y, w)) as u128,
        _ => unreachable!(),
    }) & m
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            n: vec![],
            map: HashMap::default(),
            wide: vec![0],
            widem: HashMap::new(),
            vars: vec![],
            ev: vec![],
            evs: vec![],
            stamp: 0,
        };
        a.n.push(N { op: E::Const, w: 0, a: 0, b: 0, c: 0 });
        a.vars.push([0; 4]);
        a
    }
    fn mk(&mut self, op: E, w: u32, a: u32, b: u32, c: u32) -> u32 {
        let k = N { op, w: w as u8, a, b, c };
        if let Some(&i) = self.map.get(&k) {
            return i;
        }
        let i = self.n.len() as u32;
        let mut vs = [0u64; 4];
        match op {
            E::Const => {}
            E::Var => {
                assert!(a < 256, "too many symbolic variables on a path");
                vs[(a >> 6) as usize] |= 1 << (a & 63);
            }
            _ => {
                let mut add = |x: u32| {
                    let o = self.vars[x as usize];
                    for i in 0..4 {
                        vs[i] |= o[i];
                    }
                };
                add(a);
                match op {
                    E::Extract | E::ZExt | E::SExt => {}
                    E::Ite => {
                        add(b);
                        add(c)
                    }
                    _ => add(b),
                }
            }
        }
        self.n.push(k);
        self.vars.push(vs);
        self.map.insert(k, i);
        i
    }
    pub fn show(&self, e: u32, d: u32) -> String {
        let n = self.n[e as usize];
        if let Some(v) = self.cval(e) {
            return format!("{}", v);
        }
        match n.op {
            E::Var => format!("v{}", n.a),
            _ if d == 0 => "..".into(),
            E::Extract => format!("x[{}:{}]({})", n.b, n.w, self.show(n.a, d - 1)),
            E::ZExt => format!("z{}({})", n.w, self.show(n.a, d - 1)),
            E::SExt => format!("s{}({})", n.w, self.show(n.a, d - 1)),
            E::Ite => format!("({}?{}:{})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            op => format!("{:?}({},{})", op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }
    pub fn vars(&self, e: u32) -> VarSet {
        self.vars[e as usize]
    }
    pub fn w(&self, e: u32) -> u32 {
        self.n[e as usize].w as u32
    }
    pub fn konst(&mut self, w: u32, v: u128) -> u32 {
        let v = v & mask(w);
        let hi = (v >> 64) as u64;
        let c = if hi == 0 {
            0
        } else if let Some(&c) = self.widem.get(&hi) {
            c
        } else {
            let c = self.wide.len() as u32;
            self.wide.push(hi);
            self.widem.insert(hi, c);
            c
        };
        self.mk(E::Const, w, v as u32, (v as u64 >> 32) as u32, c)
    }
    pub fn cval(&self, e: u32) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == E::Const {
            Some(n.a as u128 | (n.b as u128) << 32 | (self.wide[n.c as usize] as u128) << 64)
        } else {
            None
        }
    }
    pub fn var(&mut self, idx: u32, w: u32) -> u32 {
        self.mk(E::Var, w, idx, 0, 0)
    }
    pub fn not(&mut self, a: u32) -> u32 {
        let w = self.w(a);
        let n = self.n[a as usize];
        if w == 1 {
            match n.op {
                E::Xor => {
                    if self.cval(n.b) == Some(1) {
                        return n.a;
                    }
                }
                E::Ult => return self.bin(E::Ule, n.b, n.a),
                E::Ule => return self.bin(E::Ult, n.b, n.a),
                E::Slt => return self.bin(E::Sle, n.b, n.a),
                E::Sle => return self.bin(E::Slt, n.b, n.a),
                _ => {}
            }
        }
        let k = self.konst(w, mask(w));
        self.bin(E::Xor, a, k)
    }
    pub fn ite(&mut self, c: u32, a: u32, b: u32) -> u32 {
        if let Some(v) = self.cval(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        let cn = self.n[c as usize];
        if cn.op == E::Xor && self.cval(cn.b) == Some(1) {
            return self.ite(cn.a, b, a);
        }
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(E::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(E::And, n, b);
                }
                (None, Some(0)) => return self.bin(E::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(E::Or, n, a);
                }
                _ => {}
            }
        }
        // ite(c, ite(c, x, _), b) -> ite(c, x, b)
        let an = self.n[a as usize];
        if an.op == E::Ite && an.a == c {
            return self.ite(c, an.b, b);
        }
        let bn = self.n[b as usize];
        if bn.op == E::Ite && bn.a == c {
            return self.ite(c, a, bn.c);
        }
        self.mk(E::Ite, w, c, a, b)
    }
    pub fn zext(&mut self, a: u32, w: u32) -> u32 {
        let n = self.n[a as usize];
        if n.w as u32 == w {
            return a;
        }
        if let Some(v) = self.cval(a) {
            return self.konst(w, v);
        }
        match n.op {
            E::ZExt => return self.zext(n.a, w),
            E::Ite if self.cval(n.b).is_some() && self.cval(n.c).is_some() => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.mk(E::ZExt, w, a, 0, 0)
    }
    pub fn sext(&mut self, a: u32, w: u32) -> u32 {
        let n = self.n[a as usize];
        if n.w as u32 == w {
            return a;
        }
        if let Some(v) = self.cval(a) {
            return self.konst(w, sx(v, n.w as u32) as u128);
        }
        match n.op {
            E::SExt => return self.sext(n.a, w),
            E::ZExt => return self.zext(n.a, w),
            E::Ite if self.cval(n.b).is_some() && self.cval(n.c).is_some() => {
                let x = self.sext(n.b, w);
                let y = self.sext(n.c, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.mk(E::SExt, w, a, 0, 0)
    }
    pub fn extract(&mut self, a: u32, lo: u32, w: u32) -> u32 {
        let n = self.n[a as usize];
        let aw = n.w as u32;
        debug_assert!(lo + w <= aw);
        if w == aw {
            return a;
        }
        if let Some(v) = self.cval(a) {
            return self.konst(w, v >> lo);
        }
        match n.op {
            E::Extract => return self.extract(n.a, lo + n.b, w),
            E::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            E::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            E::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            E::And | E::Or | E::Xor => {
                if self.cval(n.b).is_some() || self.n[n.a as usize].op == E::ZExt || self.n[n.a as usize].op == E::Concat {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(n.op, x, y);
                }
            }
            E::Ite if self.cval(n.b).is_some() || self.cval(n.c).is_some() => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            E::Add | E::Sub | E::Mul if lo == 0 && self.cval(n.b).is_some() => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            E::Shl => {
                if let Some(k) = self.cval(n.b) {
                    let k = k as u32;
                    if lo >= k && k < aw {
                        return self.extract(n.a, lo - k, w);
                    }
                    if lo + w <= k {
                        return self.konst(w, 0);
                    }
                }
            }
            E::LShr => {
                if let Some(k) = self.cval(n.b) {
                    if k < aw as u128 {
                        let k = k as u32;
                        if lo + k + w <= aw {
                            return self.extract(n.a, lo + k, w);
                        }
                    }
                }
            }
            _ => {}
        }
        self.mk(E::Extract, w, a, lo, 0)
    }
    pub fn concat(&mut self, h: u32, l: u32) -> u32 {
        let (hn, ln) = (self.n[h as usize], self.n[l as usize]);
        let w = hn.w as u32 + ln.w as u32;
        if hn.op == E::Extract && ln.op != E::Const && hn.b >= ln.w as u32 {
            // two neighbouring slices of one value
            let lw = ln.w as u32;
            if self.extract(hn.a, hn.b - lw, lw) == l {
                return self.extract(hn.a, hn.b - lw, w);
            }
        }
        match (self.cval(h), self.cval(l)) {
            (Some(x), Some(y)) => return self.konst(w, x << ln.w | y),
            (Some(0), None) => return self.zext(l, w),
            _ => {}
        }
        if hn.op == E::Extract && ln.op == E::Extract && hn.a == ln.a && hn.b == ln.b + ln.w as u32 {
            return self.extract(hn.a, ln.b, w);
        }
        // high part of the same value whose low part is a full prefix
        if hn.op == E::Extract && hn.a == l {
            // not adjacent in general
        }
        // (h1 . extract) . extract of adjacent
        if hn.op == E::Concat {
            let inner = self.n[hn.b as usize];
            if inner.op == E::Extract && ln.op == E::Extract && inner.a == ln.a && inner.b == ln.b + ln.w as u32 {
                let j = self.extract(ln.a, ln.b, inner.w as u32 + ln.w as u32);
                return self.concat(hn.a, j);
            }
        }
        if hn.op == E::ZExt {
            let x = self.concat(hn.a, l);
            return self.zext(x, w);
        }
        if hn.op == E::Extract && ln.op == E::Concat {
            let lh = self.n[ln.a as usize];
            if lh.op == E::Extract && lh.a == hn.a && hn.b == lh.b + lh.w as u32 {
                let j = self.extract(lh.a, lh.b, lh.w as u32 + hn.w as u32);
                return self.concat(j, ln.b);
            }
        }
        self.mk(E::Concat, w, h, l, 0)
    }
    /// a division by a constant in as few bits as the dividend needs
    fn narrow(&mut self, op: E, a: u32, k: u128, w: u32) -> Option<u32> {
        let s = self.ub(a, 8).max(k);
        let nw = (128 - s.leading_zeros()).max(1);
        if nw + 4 > w {
            return None;
        }
        let x = self.extract(a, 0, nw);
        let y = self.konst(nw, k);
        let r = self.bin(op, x, y);
        Some(self.zext(r, w))
    }
    /// upper bound of the value by structure
    fn ub(&self, e: u32, d: u32) -> u128 {
        let n = self.n[e as usize];
        let m = mask(n.w as u32);
        if let Some(v) = self.cval(e) {
            return v;
        }
        if d == 0 {
            return m;
        }
        match n.op {
            E::ZExt => self.ub(n.a, d - 1),
            E::And => self.ub(n.a, d - 1).min(self.ub(n.b, d - 1)),
            E::Ite => self.ub(n.b, d - 1).max(self.ub(n.c, d - 1)),
            E::URem => match self.cval(n.b) {
                Some(k) if k > 0 => k - 1,
                _ => m,
            },
            E::UDiv => match self.cval(n.b) {
                Some(k) if k > 0 => self.ub(n.a, d - 1) / k,
                _ => m,
            },
            E::LShr => match self.cval(n.b) {
                Some(k) if k < 128 => self.ub(n.a, d - 1) >> k,
                _ => m,
            },
            E::Add => {
                let (x, y) = (self.ub(n.a, d - 1), self.ub(n.b, d - 1));
                match x.checked_add(y) {
                    Some(s) if s <= m => s,
                    _ => m,
                }
            }
            E::Shl => match self.cval(n.b) {
                Some(k) if k < n.w as u128 => {
                    let x = self.ub(n.a, d - 1);
                    if x <= m >> k {
                        x << k
                    } else {
                        m
                    }
                }
                _ => {
                    let (x, k) = (self.ub(n.a, d - 1), self.ub(n.b, d - 1));
                    if k < n.w as u128 && x <= m >> k {
                        x << k
                    } else {
                        m
                    }
                }
            },
            E::Concat => {
                let (x, y) = (self.ub(n.a, d - 1), self.ub(n.b, d - 1));
                (x << self.n[n.b as usize].w) | y
            }
            E::Extract => {
                let x = self.ub(n.a, d - 1) >> n.b;
                x.min(m)
            }
            E::Mul => {
                let (x, y) = (self.ub(n.a, d - 1), self.ub(n.b, d - 1));
                match x.checked_mul(y) {
                    Some(s) if s <= m => s,
                    _ => m,
                }
            }
            _ => m,
        }
    }
    /// `e` as a sum of terms with constant factors, as long as nothing wraps.
    fn lin(&self, e: u32, c: u128, d: u32, out: &mut Vec<(u32, u128)>, k0: &mut u128) -> bool {
        if out.len() > 8 {
            return false;
        }
        if let Some(v) = self.cval(e) {
            return match v.checked_mul(c).and_then(|x| k0.checked_add(x)) {
                Some(x) => {
                    *k0 = x;
                    true
                }
                None => false,
            };
        }
        let n = self.n[e as usize];
        let m = mask(n.w as u32);
        if d > 0 {
            match n.op {
                E::ZExt => return self.lin(n.a, c, d - 1, out, k0),
                E::Add => {
                    if let Some(s) = self.ub(n.a, 8).checked_add(self.ub(n.b, 8)) {
                        if s <= m {
                            return self.lin(n.a, c, d - 1, out, k0) && self.lin(n.b, c, d - 1, out, k0);
                        }
                    }
                }
                E::Mul => {
                    if let Some(f) = self.cval(n.b) {
                        if let (Some(s), Some(cf)) = (self.ub(n.a, 8).checked_mul(f), c.checked_mul(f)) {
                            if s <= m {
                                return self.lin(n.a, cf, d - 1, out, k0);
                            }
                        }
                    }
                }
                E::Shl => {
                    if let Some(f) = self.cval(n.b) {
                        if f < 64 && c <= m >> f && self.ub(n.a, 8) <= m >> f {
                            return self.lin(n.a, c << f, d - 1, out, k0);
                        }
                    }
                }
                E::Concat => {
                    let f = self.w(n.b);
                    if self.cval(n.b).is_some() && f < 64 && c <= m >> f {
                        return self.lin(n.a, c << f, d - 1, out, k0) && self.lin(n.b, c, d - 1, out, k0);
                    }
                }
                _ => {}
            }
        }
        match out.iter_mut().find(|x| x.0 == e) {
            Some(x) => match x.1.checked_add(c) {
                Some(s) => {
                    x.1 = s;
                    true
                }
                None => false,
            },
            None => {
                out.push((e, c));
                true
            }
        }
    }
    /// A smaller value congruent to `e` modulo `k`.
    fn reduced(&mut self, e: u32, k: u128) -> Option<u32> {
        let w = self.w(e);
        let (mut out, mut k0) = (vec![], 0u128);
        if !self.lin(e, 1, 12, &mut out, &mut k0) {
            return None;
        }
        if k0 < k && out.iter().all(|x| x.1 < k) {
            return None;
        }
        let mut top = k0 % k;
        for (t, c) in &out {
            top = top.checked_add(self.ub(*t, 8).checked_mul(c % k)?)?;
        }
        if top > mask(w) {
            return None;
        }
        let mut r = self.konst(w, k0 % k);
        for (t, c) in out {
            if c % k == 0 {
                continue;
            }
            let t = self.zext(t, w);
            let c = self.konst(w, c % k);
            let t = self.bin(E::Mul, t, c);
            r = self.bin(E::Add, r, t);
        }
        Some(r)
    }
    pub fn bin(&mut self, op: E, a: u32, b: u32) -> u32 {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.cval(a), self.cval(b));
        let cmp = matches!(op, E::Eq | E::Ult | E::Ule | E::Slt | E::Sle);
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = fold(op, w, x, y);
            return self.konst(if cmp { 1 } else { w }, r);
        }
        // canonical: constant on the right for commutative ops
        if matches!(op, E::Add | E::Mul | E::And | E::Or | E::Xor | E::Eq) {
            if ca.is_some() || (cb.is_none() && a > b) {
                return self.bin2(op, w, b, a);
            }
        }
        self.bin2(op, w, a, b)
    }
    fn bin2(&mut self, op: E, w: u32, a: u32, b: u32) -> u32 {
        let (ca, cb) = (self.cval(a), self.cval(b));
        let m = mask(w);
        let an = self.n[a as usize];
        let bn = self.n[b as usize];
        // x + y < x without a carry
        if op == E::Ult && an.op == E::Add && (an.a == b || an.b == b) {
            if let Some(s) = self.ub(an.a, 8).checked_add(self.ub(an.b, 8)) {
                if s <= m {
                    return self.konst(1, 0);
                }
            }
        }
        match op {
            E::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if an.op == E::Add {
                        if let Some(k2) = self.cval(an.b) {
                            let s = self.konst(w, k.wrapping_add(k2));
                            return self.bin(E::Add, an.a, s);
                        }
                    }
                    if an.op == E::Ite && self.cval(an.b).is_some() && self.cval(an.c).is_some() {
                        let x = self.bin(op, an.b, b);
                        let y = self.bin(op, an.c, b);
                        return self.ite(an.a, x, y);
                    }
                }
                // a sum that fits in fewer bits
                if an.op == E::ZExt && (bn.op == E::ZExt || cb.is_some()) {
                    if let Some(s) = self.ub(a, 4).checked_add(self.ub(b, 4)) {
                        let nw = 128 - s.leading_zeros();
                        if nw + 8 <= w {
                            let x = self.extract(a, 0, nw);
                            let y = self.extract(b, 0, nw);
                            let r = self.bin(E::Add, x, y);
                            return self.zext(r, w);
                        }
                    }
                }
                // x + (y - x) -> y
                if bn.op == E::Sub && bn.b == a {
                    return bn.a;
                }
                if an.op == E::Sub && an.b == b {
                    return an.a;
                }
            }
            E::Sub => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(k) = cb {
                    let nk = self.konst(w, 0u128.wrapping_sub(k));
                    return self.bin(E::Add, a, nk);
                }
                // (x + k) - x
                if an.op == E::Add {
                    if an.a == b {
                        return an.b;
                    }
                    if an.b == b {
                        return an.a;
                    }
                }
            }
            E::Mul => {
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(E::Shl, a, s);
                    }
                    // a product that fits in fewer bits
                    if let Some(s) = self.ub(a, 8).checked_mul(k) {
                        let nw = (128 - s.leading_zeros()).max(1);
                        if nw + 8 <= w {
                            let x = self.extract(a, 0, nw);
                            let y = self.konst(nw, k);
                            let r = self.bin(E::Mul, x, y);
                            return self.zext(r, w);
                        }
                    }
                }
            }
            E::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(E::LShr, a, s);
                    }
                    if k > 0 && self.ub(a, 8) < k {
                        return self.konst(w, 0);
                    }
                    if k > 0 {
                        let an = self.n[a as usize];
                        if an.op == E::UDiv {
                            if let Some(k2) = self.cval(an.b) {
                                if let Some(kk) = k.checked_mul(k2) {
                                    if k2 > 0 && kk <= m {
                                        let c = self.konst(w, kk);
                                        return self.bin(E::UDiv, an.a, c);
                                    }
                                }
                            }
                        }
                        if let Some(r) = self.narrow(E::UDiv, a, k, w) {
                            return r;
                        }
                    }
                }
            }
            E::URem => {
                if let Some(k) = cb {
                    if k == 1 {
                        return self.konst(w, 0);
                    }
                    if k > 1 {
                        if let Some(r) = self.reduced(a, k) {
                            let kk = b;
                            return self.bin(E::URem, r, kk);
                        }
                    }
                    if k.is_power_of_two() {
                        let s = self.konst(w, k - 1);
                        return self.bin(E::And, a, s);
                    }
                    if k > 0 && self.ub(a, 8) < k {
                        return a;
                    }
                    if k > 0 {
                        if let Some(r) = self.narrow(E::URem, a, k, w) {
                            return r;
                        }
                    }
                }
            }
            E::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    // mask of low bits
                    if (k + 1).is_power_of_two() {
                        let lw = (k + 1).trailing_zeros();
                        let x = self.extract(a, 0, lw);
                        return self.zext(x, w);
                    }
                    if an.op == E::And {
                        if let Some(k2) = self.cval(an.b) {
                            let s = self.konst(w, k & k2);
                            return self.bin(E::And, an.a, s);
                        }
                    }
                    if an.op == E::ZExt {
                        let iw = self.w(an.a);
                        let kk = self.konst(iw, k);
                        let x = self.bin(E::And, an.a, kk);
                        return self.zext(x, w);
                    }
                    if an.op == E::Ite && self.cval(an.b).is_some() && self.cval(an.c).is_some() {
                        let x = self.bin(op, an.b, b);
                        let y = self.bin(op, an.c, b);
                        return self.ite(an.a, x, y);
                    }
                }
                if w == 1 {
                    if an.op == E::Xor && self.cval(an.b) == Some(1) && an.a == b {
                        return self.konst(1, 0);
                    }
                    if bn.op == E::Xor && self.cval(bn.b) == Some(1) && bn.a == a {
                        return self.konst(1, 0);
                    }
                }
                if an.op == E::ZExt && bn.op == E::ZExt && self.w(an.a) == self.w(bn.a) {
                    let x = self.bin(op, an.a, bn.a);
                    return self.zext(x, w);
                }
            }
            E::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                    if an.op == E::Ite && self.cval(an.b).is_some() && self.cval(an.c).is_some() {
                        let x = self.bin(op, an.b, b);
                        let y = self.bin(op, an.c, b);
                        return self.ite(an.a, x, y);
                    }
                }
                // (x << k) | zext(y) with y narrower or equal k -> concat
                for (p, q) in [(a, b), (b, a)] {
                    let pn = self.n[p as usize];
                    if pn.op == E::Shl {
                        if let Some(k) = self.cval(pn.b) {
                            let k = k as u32;
                            let qn = self.n[q as usize];
                            if qn.op == E::ZExt && self.w(qn.a) <= k && k < w {
                                let h = self.extract(pn.a, 0, w - k);
                                let l = self.zext(qn.a, k);
                                return self.concat(h, l);
                            }
                        }
                    }
                    // concat with zero low part
                    if pn.op == E::Concat && self.cval(pn.b) == Some(0) {
                        let k = self.w(pn.b);
                        let qn = self.n[q as usize];
                        if qn.op == E::ZExt && self.w(qn.a) <= k {
                            let l = self.zext(qn.a, k);
                            return self.concat(pn.a, l);
                        }
                    }
                }
                if an.op == E::ZExt && bn.op == E::ZExt && self.w(an.a) == self.w(bn.a) {
                    let x = self.bin(op, an.a, bn.a);
                    return self.zext(x, w);
                }
            }
            E::Xor => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if an.op == E::Xor {
                        if let Some(k2) = self.cval(an.b) {
                            let s = self.konst(w, k ^ k2);
                            return self.bin(E::Xor, an.a, s);
                        }
                    }
                    if w == 1 && matches!(an.op, E::Ult | E::Ule | E::Slt | E::Sle) {
                        return match an.op {
                            E::Ult => self.bin(E::Ule, an.b, an.a),
                            E::Ule => self.bin(E::Ult, an.b, an.a),
                            E::Slt => self.bin(E::Sle, an.b, an.a),
                            _ => self.bin(E::Slt, an.b, an.a),
                        };
                    }
                    if an.op == E::ZExt && k <= mask(self.w(an.a)) {
                        let iw = self.w(an.a);
                        let kk = self.konst(iw, k);
                        let x = self.bin(E::Xor, an.a, kk);
                        return self.zext(x, w);
                    }
                    if an.op == E::Ite && self.cval(an.b).is_some() && self.cval(an.c).is_some() {
                        let x = self.bin(op, an.b, b);
                        let y = self.bin(op, an.c, b);
                        return self.ite(an.a, x, y);
                    }
                }
                if an.op == E::ZExt && bn.op == E::ZExt && self.w(an.a) == self.w(bn.a) {
                    let x = self.bin(op, an.a, bn.a);
                    return self.zext(x, w);
                }
            }
            E::Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let k = k as u32;
                    let h = self.extract(a, 0, w - k);
                    let z = self.konst(k, 0);
                    if self.n[h as usize].op == E::ZExt || self.cval(h).is_some() {
                        return self.concat(h, z);
                    }
                    return self.mk(E::Concat, w, h, z, 0);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            E::LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let x = self.extract(a, k as u32, w - k as u32);
                    return self.zext(x, w);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            E::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let k = k.min(w as u128 - 1) as u32;
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            E::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if let Some(k) = cb {
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    match an.op {
                        E::ZExt => {
                            let iw = self.w(an.a);
                            if k > mask(iw) {
                                return self.konst(1, 0);
                            }
                            let kk = self.konst(iw, k);
                            return self.bin(E::Eq, an.a, kk);
                        }
                        E::SExt => {
                            let iw = self.w(an.a);
                            if (sx(k & mask(iw), iw) as u128) & m != k {
                                return self.konst(1, 0);
                            }
                            let kk = self.konst(iw, k);
                            return self.bin(E::Eq, an.a, kk);
                        }
                        E::Ite => {
                            let (x, y) = (self.cval(an.b), self.cval(an.c));
                            if x.is_some() || y.is_some() {
                                let p = self.bin(E::Eq, an.b, b);
                                let q = self.bin(E::Eq, an.c, b);
                                return self.ite(an.a, p, q);
                            }
                        }
                        E::Add => {
                            if let Some(k2) = self.cval(an.b) {
                                let s = self.konst(w, k.wrapping_sub(k2));
                                return self.bin(E::Eq, an.a, s);
                            }
                        }
                        E::Xor => {
                            if let Some(k2) = self.cval(an.b) {
                                let s = self.konst(w, k ^ k2);
                                return self.bin(E::Eq, an.a, s);
                            }
                        }
                        E::Concat => {
                            let lw = self.w(an.b);
                            let hi = self.konst(w - lw, k >> lw);
                            let lo = self.konst(lw, k);
                            let p = self.bin(E::Eq, an.a, hi);
                            let q = self.bin(E::Eq, an.b, lo);
                            return self.bin(E::And, p, q);
                        }
                        _ => {}
                    }
                    if k > self.ub(a, 4) {
                        return self.konst(1, 0);
                    }
                }
                if an.op == E::ZExt && bn.op == E::ZExt && self.w(an.a) == self.w(bn.a) {
                    return self.bin(E::Eq, an.a, bn.a);
                }
            }
            E::Ult => {
                if a == b {
                    return self.konst(1, 0);
                }
                if cb == Some(0) {
                    return self.konst(1, 0);
                }
                if cb == Some(1) {
                    let z = self.konst(w, 0);
                    return self.bin(E::Eq, a, z);
                }
                if let Some(k) = cb {
                    if self.ub(a, 4) < k {
                        return self.konst(1, 1);
                    }
                }
                if let Some(k) = ca {
                    if self.ub(b, 4) <= k {
                        return self.konst(1, 0);
                    }
                    if k == 0 {
                        let z = self.konst(w, 0);
                        let e = self.bin(E::Eq, b, z);
                        return self.not(e);
                    }
                }
                if let Some(r) = self.cmp_zext(op, w, a, b) {
                    return r;
                }
            }
            E::Ule => {
                if a == b || ca == Some(0) {
                    return self.konst(1, 1);
                }
                if cb == Some(m) {
                    return self.konst(1, 1);
                }
                if cb == Some(0) {
                    return self.bin(E::Eq, a, b);
                }
                if let Some(k) = cb {
                    if self.ub(a, 4) <= k {
                        return self.konst(1, 1);
                    }
                }
                if let Some(k) = ca {
                    if self.ub(b, 4) < k {
                        return self.konst(1, 0);
                    }
                }
                if let Some(r) = self.cmp_zext(op, w, a, b) {
                    return r;
                }
            }
            E::Slt | E::Sle => {
                if a == b {
                    return self.konst(1, (op == E::Sle) as u128);
                }
                // both non-negative by structure
                let half = mask(w) >> 1;
                if self.ub(a, 4) <= half && self.ub(b, 4) <= half {
                    return self.bin(if op == E::Slt { E::Ult } else { E::Ule }, a, b);
                }
                if an.op == E::Ite && cb.is_some() && self.cval(an.b).is_some() && self.cval(an.c).is_some() {
                    let p = self.bin(op, an.b, b);
                    let q = self.bin(op, an.c, b);
                    return self.ite(an.a, p, q);
                }
                if bn.op == E::Ite && ca.is_some() && self.cval(bn.b).is_some() && self.cval(bn.c).is_some() {
                    let p = self.bin(op, a, bn.b);
                    let q = self.bin(op, a, bn.c);
                    return self.ite(bn.a, p, q);
                }
            }
            _ => {}
        }
        let ow = if matches!(op, E::Eq | E::Ult | E::Ule | E::Slt | E::Sle) { 1 } else { w };
        self.mk(op, ow, a, b, 0)
    }
    fn cmp_zext(&mut self, op: E, w: u32, a: u32, b: u32) -> Option<u32> {
        let an = self.n[a as usize];
        let bn = self.n[b as usize];
        let iw = |s: &Self, n: &N| if n.op == E::ZExt { Some(s.w(n.a)) } else { None };
        let (x, y) = (iw(self, &an), iw(self, &bn));
        match (x, y) {
            (Some(p), Some(q)) => {
                let t = p.max(q);
                if t < w {
                    let a2 = self.zext(an.a, t);
                    let b2 = self.zext(bn.a, t);
                    return Some(self.bin(op, a2, b2));
                }
            }
            (Some(p), None) => {
                if let Some(k) = self.cval(b) {
                    if k <= mask(p) {
                        let kk = self.konst(p, k);
                        return Some(self.bin(op, an.a, kk));
                    }
                }
            }
            (None, Some(q)) => {
                if let Some(k) = self.cval(a) {
                    if k <= mask(q) {
                        let kk = self.konst(q, k);
                        return Some(self.bin(op, kk, bn.a));
                    }
                }
            }
            _ => {}
        }
        None
    }

    pub fn new_eval(&mut self) {
        self.stamp += 1;
        let n = self.n.len();
        if self.ev.len() < n {
            self.ev.resize(n + n / 2, 0);
            self.evs.resize(n + n / 2, 0);
        }
    }
    pub fn eval(&mut self, e: u32, model: &[u64]) -> u128 {
        self.new_eval();
        self.ev1(e, model)
    }
    fn ev1(&mut self, e: u32, model: &[u64]) -> u128 {
        let i = e as usize;
        if self.evs[i] == self.stamp {
            return self.ev[i];
        }
        let n = self.n[i];
        let w = n.w as u32;
        let r = match n.op {
            E::Const => self.cval(e).unwrap(),
            E::Var => model.get(n.a as usize).copied().unwrap_or(0) as u128 & mask(w),
            E::Ite => {
                if self.ev1(n.a, model) != 0 {
                    self.ev1(n.b, model)
                } else {
                    self.ev1(n.c, model)
                }
            }
            E::Concat => {
                let lw = self.w(n.b);
                let h = self.ev1(n.a, model);
                let l = self.ev1(n.b, model);
                h << lw | l
            }
            E::Extract => (self.ev1(n.a, model) >> n.b) & mask(w),
            E::ZExt => self.ev1(n.a, model),
            E::SExt => {
                let iw = self.w(n.a);
                (sx(self.ev1(n.a, model), iw) as u128) & mask(w)
            }
            op => {
                let ow = self.w(n.a);
                let x = self.ev1(n.a, model);
                let y = self.ev1(n.b, model);
                fold(op, ow, x, y)
            }
        };
        self.ev[i] = r;
        self.evs[i] = self.stamp;
        r
    }
}
