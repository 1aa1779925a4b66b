//! Hash-consed bit-vector expressions over symbolic bytes.
//!
//! Every symbolic variable is one byte.  Expressions are kept in a per-thread arena.  An expression
//! whose support is a single variable carries a lazily computed value table (256 entries); the table
//! is used to simplify and to pre-decide queries, and is cross-checked against the SMT solver.

use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;
pub type Dom = [u64; 4];

pub const FULL: Dom = [!0; 4];

#[inline]
pub fn dom_has(d: &Dom, x: usize) -> bool {
    d[x >> 6] >> (x & 63) & 1 == 1
}
#[inline]
pub fn dom_and(a: &Dom, b: &Dom) -> Dom {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
#[inline]
pub fn dom_empty(a: &Dom) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
pub fn dom_count(a: &Dom) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub fn dom_first(a: &Dom) -> Option<usize> {
    for i in 0..4 {
        if a[i] != 0 {
            return Some(i * 64 + a[i].trailing_zeros() as usize);
        }
    }
    None
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    /// extract `w` bits starting at bit k
    Ext,
    /// a = high part, b = low part
    Cat,
    /// table lookup: a = variable expression, k = table id
    Tab,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub const MAXVARS: usize = 128;

pub struct Arena {
    pub nodes: Vec<Node>,
    pub sup: Vec<u128>,
    map: HashMap<Node, E, BuildFx>,
    tabs: HashMap<E, Rc<[u64; 256]>, BuildFx>,
    pub tables: Vec<Rc<Vec<u64>>>,
    table_ids: HashMap<Vec<u64>, usize>,
    /// static domains of the variables (as created by the harness)
    pub vardom: Vec<Dom>,
    pub vars: Vec<E>,
    varkeys: HashMap<(usize, Dom), E>,
}

#[derive(Default, Clone)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
}
pub type BuildFx = std::hash::BuildHasherDefault<Fx>;

#[inline]
pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u8) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

/// concrete semantics of a binary operator (None: undefined, e.g. division by zero)
pub fn ceval(op: Op, w: u8, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(
        match op {
            Op::Add => a.wrapping_add(b),
            Op::Sub => a.wrapping_sub(b),
            Op::Mul => a.wrapping_mul(b),
            Op::UDiv => a.checked_div(b)?,
            Op::URem => a.checked_rem(b)?,
            Op::SDiv => {
                if b == 0 {
                    return None;
                }
                sext(a, w).wrapping_div(sext(b, w)) as u128
            }
            Op::SRem => {
                if b == 0 {
                    return None;
                }
                sext(a, w).wrapping_rem(sext(b, w)) as u128
            }
            Op::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            Op::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => {
                let sh = if b >= w as u128 { w as u128 - 1 } else { b };
                (sext(a, w) >> sh) as u128
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Eq => return Some((a == b) as u128),
            Op::Ult => return Some((a < b) as u128),
            Op::Ule => return Some((a <= b) as u128),
            Op::Slt => return Some((sext(a, w) < sext(b, w)) as u128),
            Op::Sle => return Some((sext(a, w) <= sext(b, w)) as u128),
            _ => unreachable!(),
        } & m,
    )
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            nodes: vec![],
            sup: vec![],
            map: HashMap::default(),
            tabs: HashMap::default(),
            tables: vec![],
            table_ids: HashMap::default(),
            vardom: vec![],
            vars: vec![],
            varkeys: HashMap::default(),
        };
        // id 0 is reserved (meaning "no expression")
        a.nodes.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0 });
        a.sup.push(0);
        a
    }
    #[inline]
    pub fn w(&self, e: E) -> u8 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn node(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn konst(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        let s = match n.op {
            Op::Const => 0,
            Op::Var => 1u128 << n.k,
            Op::Tab => self.sup[n.a as usize],
            _ => self.sup[n.a as usize] | self.sup[n.b as usize] | self.sup[n.c as usize],
        };
        self.nodes.push(n);
        self.sup.push(s);
        self.map.insert(n, e);
        // constant folding over the static domain of a single variable
        if s != 0 && s & (s - 1) == 0 && n.op != Op::Var && n.w <= 64 {
            let v = s.trailing_zeros() as usize;
            let t = self.table(e);
            let d = self.vardom[v];
            let mut first = None;
            let mut same = true;
            for x in 0..256 {
                if dom_has(&d, x) {
                    match first {
                        None => first = Some(t[x]),
                        Some(f) => {
                            if f != t[x] {
                                same = false;
                                break;
                            }
                        }
                    }
                }
            }
            if same {
                if let Some(f) = first {
                    let c = self.c(n.w, f as u128);
                    self.map.insert(n, c);
                    return c;
                }
            }
        }
        e
    }
    pub fn c(&mut self, w: u8, k: u128) -> E {
        let n = Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) };
        self.intern(n)
    }
    /// the variable for the `ord`-th symbolic byte of a path, with static domain `d`
    pub fn var(&mut self, ord: usize, d: Dom) -> Option<E> {
        if let Some(&e) = self.varkeys.get(&(ord, d)) {
            return Some(e);
        }
        let i = self.vars.len();
        if i >= MAXVARS {
            return None;
        }
        self.vardom.push(d);
        let e = self.intern(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i as u128 });
        self.vars.push(e);
        self.varkeys.insert((ord, d), e);
        Some(e)
    }
    /// single supporting variable, if exactly one
    #[inline]
    pub fn single(&self, e: E) -> Option<usize> {
        let s = self.sup[e as usize];
        if s != 0 && s & (s - 1) == 0 {
            Some(s.trailing_zeros() as usize)
        } else {
            None
        }
    }
    /// value table of a single-variable expression
    pub fn table(&mut self, e: E) -> Rc<[u64; 256]> {
        if let Some(t) = self.tabs.get(&e) {
            return t.clone();
        }
        let n = self.nodes[e as usize];
        let mut r = [0u64; 256];
        match n.op {
            Op::Const => r = [n.k as u64; 256],
            Op::Var => {
                for x in 0..256 {
                    r[x] = x as u64;
                }
            }
            Op::Tab => {
                let t = self.tables[n.k as usize].clone();
                for x in 0..256 {
                    r[x] = t[x];
                }
            }
            Op::Ite => {
                let (a, b, c) = (self.table(n.a), self.table(n.b), self.table(n.c));
                for x in 0..256 {
                    r[x] = if a[x] != 0 { b[x] } else { c[x] };
                }
            }
            Op::ZExt => return self.table_memo(e, n.a),
            Op::SExt => {
                let a = self.table(n.a);
                let w = self.w(n.a);
                for x in 0..256 {
                    r[x] = (sext(a[x] as u128, w) as u128 & mask(n.w)) as u64;
                }
            }
            Op::Ext => {
                if self.w(n.a) > 64 {
                    for x in 0..256 {
                        r[x] = self.eval1(e, x as u8) as u64;
                    }
                } else {
                    let a = self.table(n.a);
                    for x in 0..256 {
                        r[x] = ((a[x] >> n.k as u32) as u128 & mask(n.w)) as u64;
                    }
                }
            }
            Op::Cat => {
                let (a, b) = (self.table(n.a), self.table(n.b));
                let lw = self.w(n.b) as u32;
                for x in 0..256 {
                    r[x] = a[x] << lw | b[x];
                }
            }
            op => {
                let w = self.w(n.a);
                if w > 64 {
                    for x in 0..256 {
                        r[x] = self.eval1(e, x as u8) as u64;
                    }
                } else {
                    let (a, b) = (self.table(n.a), self.table(n.b));
                    for x in 0..256 {
                        r[x] = ceval(op, w, a[x] as u128, b[x] as u128).unwrap_or(0) as u64;
                    }
                }
            }
        }
        let t = Rc::new(r);
        self.tabs.insert(e, t.clone());
        t
    }
    fn table_memo(&mut self, e: E, a: E) -> Rc<[u64; 256]> {
        let t = self.table(a);
        self.tabs.insert(e, t.clone());
        t
    }
    fn eval1(&self, e: E, x: u8) -> u128 {
        self.eval(e, &|_| x)
    }
    /// evaluate under an assignment
    pub fn eval(&self, e: E, f: &dyn Fn(usize) -> u8) -> u128 {
        let mut memo: HashMap<E, u128, BuildFx> = HashMap::default();
        self.eval_m(e, f, &mut memo)
    }
    fn eval_m(&self, e: E, f: &dyn Fn(usize) -> u8, memo: &mut HashMap<E, u128, BuildFx>) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return f(n.k as usize) as u128,
            _ => {}
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let v = match n.op {
            Op::Tab => {
                let x = self.eval_m(n.a, f, memo);
                self.tables[n.k as usize][x as usize] as u128
            }
            Op::Ite => {
                if self.eval_m(n.a, f, memo) != 0 {
                    self.eval_m(n.b, f, memo)
                } else {
                    self.eval_m(n.c, f, memo)
                }
            }
            Op::ZExt => self.eval_m(n.a, f, memo),
            Op::SExt => sext(self.eval_m(n.a, f, memo), self.w(n.a)) as u128 & mask(n.w),
            Op::Ext => (self.eval_m(n.a, f, memo) >> n.k as u32) & mask(n.w),
            Op::Cat => {
                let h = self.eval_m(n.a, f, memo);
                let l = self.eval_m(n.b, f, memo);
                h << self.w(n.b) as u32 | l
            }
            op => {
                let a = self.eval_m(n.a, f, memo);
                let b = self.eval_m(n.b, f, memo);
                ceval(op, self.w(n.a), a, b).unwrap_or(0)
            }
        };
        memo.insert(e, v);
        v
    }

    pub fn tab(&mut self, v: E, w: u8, t: Vec<u64>) -> E {
        let id = match self.table_ids.get(&t) {
            Some(&i) => i,
            None => {
                self.tables.push(Rc::new(t.clone()));
                self.table_ids.insert(t, self.tables.len() - 1);
                self.tables.len() - 1
            }
        };
        self.intern(Node { op: Op::Tab, w, a: v, b: 0, c: 0, k: id as u128 })
    }

    /// bits that are certainly zero
    fn known_zero(&self, e: E) -> u128 {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => !n.k & mask(n.w),
            Op::Var => {
                let d = self.vardom[n.k as usize];
                let mut o = 0u128;
                for x in 0..256usize {
                    if dom_has(&d, x) {
                        o |= x as u128;
                    }
                }
                !o & 0xff
            }
            Op::ZExt => (mask(n.w) & !mask(self.w(n.a))) | self.known_zero(n.a),
            Op::Cat => {
                let lw = self.w(n.b) as u32;
                self.known_zero(n.a) << lw | self.known_zero(n.b)
            }
            Op::And => self.known_zero(n.a) | self.known_zero(n.b),
            Op::Or | Op::Xor => self.known_zero(n.a) & self.known_zero(n.b),
            Op::Ext => (self.known_zero(n.a) >> n.k as u32) & mask(n.w),
            Op::Shl => match self.konst(n.b) {
                Some(k) if k < n.w as u128 => {
                    ((self.known_zero(n.a) << k as u32) | mask(k as u8)) & mask(n.w)
                }
                _ => 0,
            },
            Op::LShr => match self.konst(n.b) {
                Some(k) if k < n.w as u128 => {
                    (self.known_zero(n.a) >> k as u32) | (mask(n.w) & !(mask(n.w) >> k as u32))
                }
                _ => 0,
            },
            Op::Ite => self.known_zero(n.b) & self.known_zero(n.c),
            Op::Add => {
                // no carries possible below the lowest possibly-set bits: only leading zeros tracked
                let z = self.known_zero(n.a) & self.known_zero(n.b);
                // leading known zeros common to both, minus one for the carry
                let lead = (!(z << (128 - n.w as u32))).leading_zeros().min(n.w as u32);
                if lead >= 1 {
                    let keep = lead - 1;
                    mask(n.w) & !(mask(n.w) >> keep)
                } else {
                    0
                }
            }
            _ => 0,
        }
    }

    pub fn zext(&mut self, w: u8, a: E) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        let n = self.node(a);
        match n.op {
            Op::Const => self.c(w, n.k),
            Op::ZExt => self.zext(w, n.a),
            _ => self.intern(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn sext(&mut self, w: u8, a: E) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let n = self.node(a);
        match n.op {
            Op::Const => self.c(w, sext(n.k, aw) as u128),
            Op::ZExt => self.zext(w, a),
            _ => self.intern(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn ext(&mut self, lo: u8, w: u8, a: E) -> E {
        let n = self.node(a);
        if lo == 0 && n.w == w {
            return a;
        }
        match n.op {
            Op::Const => return self.c(w, n.k >> lo as u32),
            Op::Ext => return self.ext(lo + n.k as u8, w, n.a),
            Op::ZExt => {
                let aw = self.w(n.a);
                if lo >= aw {
                    return self.c(w, 0);
                }
                if lo + w <= aw {
                    return self.ext(lo, w, n.a);
                }
                let part = self.ext(lo, aw - lo, n.a);
                return self.zext(w, part);
            }
            Op::Cat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.ext(lo, w, n.b);
                }
                if lo >= lw {
                    return self.ext(lo - lw, w, n.a);
                }
                let h = self.ext(0, lo + w - lw, n.a);
                let l = self.ext(lo, lw - lo, n.b);
                return self.cat(h, l);
            }
            Op::Ite => {
                if self.konst(n.b).is_some() && self.konst(n.c).is_some() {
                    let b = self.ext(lo, w, n.b);
                    let c = self.ext(lo, w, n.c);
                    return self.ite(n.a, b, c);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let b = self.ext(lo, w, n.a);
                let c = self.ext(lo, w, n.b);
                return self.bin(n.op, b, c);
            }
            _ => {}
        }
        self.intern(Node { op: Op::Ext, w, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn cat(&mut self, hi: E, lo: E) -> E {
        let (h, l) = (self.node(hi), self.node(lo));
        let w = h.w + l.w;
        if let (Op::Const, Op::Const) = (h.op, l.op) {
            return self.c(w, h.k << l.w as u32 | l.k);
        }
        if h.op == Op::Const && h.k == 0 {
            return self.zext(w, lo);
        }
        // re-join adjacent extracts
        if let (Op::Ext, Op::Ext) = (h.op, l.op) {
            if h.a == l.a && h.k == l.k + l.w as u128 {
                return self.ext(l.k as u8, w, h.a);
            }
        }
        if l.op != Op::Ext && h.op == Op::Ext && h.a == lo {
            // never produced
        }
        self.intern(Node { op: Op::Cat, w, a: hi, b: lo, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.konst(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) {
                return match (x, y) {
                    (1, 0) => c,
                    (0, 1) => self.not1(c),
                    _ => a,
                };
            }
            if let Some(x) = self.konst(a) {
                return if x == 1 {
                    self.bin(Op::Or, c, b)
                } else {
                    let n = self.not1(c);
                    self.bin(Op::And, n, b)
                };
            }
            if let Some(y) = self.konst(b) {
                return if y == 0 {
                    self.bin(Op::And, c, a)
                } else {
                    let n = self.not1(c);
                    self.bin(Op::Or, n, a)
                };
            }
        }
        self.intern(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn not1(&mut self, a: E) -> E {
        let one = self.c(1, 1);
        self.bin(Op::Xor, a, one)
    }
    /// decompose into bytes/parts for equality splitting
    fn low_split(&mut self, e: E) -> Option<(E, E)> {
        let n = self.node(e);
        match n.op {
            Op::Cat => Some((n.a, n.b)),
            Op::ZExt => {
                let aw = self.w(n.a);
                let z = self.c(n.w - aw, 0);
                Some((z, n.a))
            }
            _ => None,
        }
    }
    /// unsigned comparison of a multi-variable term with a constant, decomposed into its parts
    fn ucmp_split(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.node(a), self.node(b));
        let w = na.w;
        let ka = if na.op == Op::Const { Some(na.k) } else { None };
        let kb = if nb.op == Op::Const { Some(nb.k) } else { None };
        // x < k, x <= k, k < x, k <= x  ->  all as  x < k  or its negation
        let (x, k, neg) = match (ka, kb, op) {
            (None, Some(k), Op::Ult) => (a, k, false),
            (None, Some(k), Op::Ule) => {
                if k == mask(w) {
                    return Some(self.c(1, 1));
                }
                (a, k + 1, false)
            }
            (Some(k), None, Op::Ule) => (b, k, true),
            (Some(k), None, Op::Ult) => {
                if k == mask(w) {
                    return Some(self.c(1, 0));
                }
                (b, k + 1, true)
            }
            _ => return None,
        };
        if self.single(x).is_some() {
            return None;
        }
        let r = self.ult_const(x, k)?;
        Some(if neg { self.not1(r) } else { r })
    }
    /// x < k for a multi-variable x
    fn ult_const(&mut self, x: E, k: u128) -> Option<E> {
        let n = self.node(x);
        let w = n.w;
        if k == 0 {
            return Some(self.c(1, 0));
        }
        if n.op == Op::Add {
            let c = self.konst(n.b)?;
            // (y + c) < k: y in [-c, -c + k) modulo 2^w
            let lo = (!c).wrapping_add(1) & mask(w);
            let hi = lo.wrapping_add(k) & mask(w);
            let ge = {
                let l = self.ult_c(n.a, lo);
                self.not1(l)
            };
            if lo == 0 {
                return Some(self.ult_c(n.a, k));
            }
            let lt = self.ult_c(n.a, hi);
            // interval wraps exactly when hi <= lo (hi == 0: up to the top)
            return Some(if hi == 0 {
                ge
            } else if hi > lo {
                self.bin(Op::And, ge, lt)
            } else {
                self.bin(Op::Or, ge, lt)
            });
        }
        let (h, l) = self.low_split(x)?;
        let lw = self.w(l);
        let (kh, kl) = (k >> lw as u32, k & mask(lw));
        if kh > mask(w - lw) {
            return Some(self.c(1, 1));
        }
        let a = self.ult_c(h, kh);
        let e = {
            let c = self.c(w - lw, kh);
            self.eq(h, c)
        };
        let b = self.ult_c(l, kl);
        let eb = self.bin(Op::And, e, b);
        Some(self.bin(Op::Or, a, eb))
    }
    fn ult_c(&mut self, x: E, k: u128) -> E {
        let w = self.w(x);
        if k > mask(w) {
            return self.c(1, 1);
        }
        let c = self.c(w, k);
        self.bin(Op::Ult, x, c)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let (na, nb) = (self.node(a), self.node(b));
        let w = na.w;
        debug_assert_eq!(na.w, nb.w, "{:?}", op);
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        if na.op == Op::Const && nb.op == Op::Const {
            if let Some(v) = ceval(op, w, na.k, nb.k) {
                return self.c(rw, v);
            }
        }
        // constants to the right for commutative operators
        if na.op == Op::Const
            && nb.op != Op::Const
            && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq)
        {
            return self.bin(op, b, a);
        }
        let bk = if nb.op == Op::Const { Some(nb.k) } else { None };
        match op {
            Op::Add => {
                if bk == Some(0) {
                    return a;
                }
                if let (Some(k), Op::Add) = (bk, na.op) {
                    if let Some(k2) = self.konst(na.b) {
                        let c = self.c(w, k.wrapping_add(k2));
                        return self.bin(Op::Add, na.a, c);
                    }
                }
            }
            Op::Sub => {
                if bk == Some(0) {
                    return a;
                }
                if a == b {
                    return self.c(w, 0);
                }
                if let Some(k) = bk {
                    let c = self.c(w, (!k).wrapping_add(1));
                    return self.bin(Op::Add, a, c);
                }
            }
            Op::Mul => {
                if bk == Some(1) {
                    return a;
                }
                if bk == Some(0) {
                    return b;
                }
            }
            Op::And => {
                if bk == Some(0) {
                    return b;
                }
                if bk == Some(mask(w)) || a == b {
                    return a;
                }
                if let Some(k) = bk {
                    let z = self.known_zero(a);
                    let live = k & !z & mask(w);
                    if live == 0 {
                        return self.c(w, 0);
                    }
                    if (k | z) & mask(w) == mask(w) {
                        return a;
                    }
                    if let Some((h, l)) = self.low_split(a) {
                        let lw = self.w(l);
                        let (kh, kl) =
                            (self.c(w - lw, k >> lw as u32), self.c(lw, k));
                        let h2 = self.bin(Op::And, h, kh);
                        let l2 = self.bin(Op::And, l, kl);
                        return self.cat(h2, l2);
                    }
                }
            }
            Op::Or => {
                if bk == Some(0) || a == b {
                    return a;
                }
                if bk == Some(mask(w)) {
                    return b;
                }
                if let Some((h, l)) = self.low_split(a) {
                    let lw = self.w(l);
                    let use_b = bk.is_some() || {
                        match self.low_split(b) {
                            Some((_, l2)) => self.w(l2) == lw,
                            None => false,
                        }
                    };
                    if use_b {
                        let bh = self.ext(lw, w - lw, b);
                        let bl = self.ext(0, lw, b);
                        let h2 = self.bin(Op::Or, h, bh);
                        let l2 = self.bin(Op::Or, l, bl);
                        return self.cat(h2, l2);
                    }
                }
            }
            Op::Xor => {
                if bk == Some(0) {
                    return a;
                }
                if a == b {
                    return self.c(w, 0);
                }
                if w == 1 && bk == Some(1) {
                    // not
                    if na.op == Op::Xor && self.konst(na.b) == Some(1) {
                        return na.a;
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if bk == Some(0) {
                    return a;
                }
                if let Some(k) = bk {
                    if k >= w as u128 && op != Op::AShr {
                        return self.c(w, 0);
                    }
                    if k < w as u128 {
                        if op == Op::LShr {
                            let p = self.ext(k as u8, w - k as u8, a);
                            return self.zext(w, p);
                        }
                        if op == Op::Shl {
                            let p = self.ext(0, w - k as u8, a);
                            let z = self.c(k as u8, 0);
                            return self.cat(p, z);
                        }
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.c(1, 1);
                }
                if w == 1 {
                    if let Some(k) = bk {
                        return if k == 1 { a } else { self.not1(a) };
                    }
                }
                if let Some(k) = bk {
                    if k & self.known_zero(a) != 0 {
                        return self.c(1, 0);
                    }
                    if k == 0 {
                        if na.op == Op::Or {
                            let x = self.bin(Op::Eq, na.a, b);
                            let y = self.bin(Op::Eq, na.b, b);
                            return self.bin(Op::And, x, y);
                        }
                        if na.op == Op::Xor {
                            return self.bin(Op::Eq, na.a, na.b);
                        }
                    }
                    if na.op == Op::Add {
                        if let Some(k2) = self.konst(na.b) {
                            let c = self.c(w, k.wrapping_sub(k2));
                            return self.bin(Op::Eq, na.a, c);
                        }
                    }
                    if na.op == Op::Ite {
                        if self.konst(na.b).is_some() || self.konst(na.c).is_some() {
                            let x = self.bin(Op::Eq, na.b, b);
                            let y = self.bin(Op::Eq, na.c, b);
                            return self.ite(na.a, x, y);
                        }
                    }
                }
                if let Some((h, l)) = self.low_split(a) {
                    let lw = self.w(l);
                    let ok = bk.is_some() || self.low_split(b).is_some();
                    if ok {
                        let bh = self.ext(lw, w - lw, b);
                        let bl = self.ext(0, lw, b);
                        let x = self.bin(Op::Eq, h, bh);
                        let y = self.bin(Op::Eq, l, bl);
                        return self.bin(Op::And, x, y);
                    }
                }
            }
            Op::Ult => {
                if a == b || bk == Some(0) {
                    return self.c(1, 0);
                }
                if let Some(e) = self.ucmp_split(op, a, b) {
                    return e;
                }
            }
            Op::Ule => {
                if a == b {
                    return self.c(1, 1);
                }
                if let Some(e) = self.ucmp_split(op, a, b) {
                    return e;
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.c(1, (op == Op::Sle) as u128);
                }
                // sign test of a concatenation only depends on its top bit
                if op == Op::Slt && bk == Some(0) && w > 1 {
                    let top = self.ext(w - 1, 1, a);
                    if self.w(top) == 1 && self.node(top).op != Op::Ext {
                        return top;
                    }
                    if w > 8 {
                        return top;
                    }
                }
            }
            _ => {}
        }
        self.intern(Node { op, w: rw, a, b, c: 0, k: 0 })
    }
}

impl Arena {
    /// equality and conjunction without simplification, so that the solver sees the comparison itself
    pub fn raw_eq(&mut self, a: E, b: E) -> E {
        self.raw(Node { op: Op::Eq, w: 1, a, b, c: 0, k: 0 })
    }
    pub fn raw_and(&mut self, a: E, b: E) -> E {
        if self.konst(a) == Some(1) {
            return b;
        }
        self.raw(Node { op: Op::And, w: 1, a, b, c: 0, k: 0 })
    }
    fn raw(&mut self, n: Node) -> E {
        // distinct key (k = 1) keeps these out of the simplified node space
        let n = Node { k: 1, ..n };
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        let s = self.sup[n.a as usize] | self.sup[n.b as usize];
        self.nodes.push(n);
        self.sup.push(s);
        self.map.insert(n, e);
        e
    }
}
