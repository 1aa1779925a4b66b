//! Symbolic execution of decoded LLVM IR.

use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum V {
    I(u64),
    S(E),
    W(u128),
    A(Rc<Vec<V>>),
}

#[derive(Clone)]
pub struct Frame {
    pub func: Arc<Func>,
    pub regs: Vec<V>,
    pub bb: u32,
    pub ip: u32,
    pub stack: u64,
    pub ret: Option<u32>,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub struct Out {
    pub tag: u32,
    pub data: Vec<u8>,
    pub sym: Option<Vec<E>>,
}

#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    /// ordinal of a symbolic byte -> arena variable
    pub vars: Vec<usize>,
    pub doms: Vec<Dom>,
    pub cons: Vec<(E, bool)>,
    pub trace: Vec<u16>,
    pub steps: u64,
    pub outs: Vec<Out>,
    pub errno: u64,
    pub asserts: u32,
}

#[derive(Clone, Debug)]
pub enum Alt {
    Dom(usize, Dom),
    Con(E, bool),
}

#[derive(Debug)]
pub enum Stop {
    Split(Vec<Alt>),
    /// property violated on this path: (kind, message, model constraint)
    Fail(String, Vec<(E, bool)>),
    Done,
    Prune,
    Bad(String),
}
pub type R<T> = Result<T, Stop>;

pub enum Flow {
    Next,
    Jump(u32),
    Frame,
}

pub enum Tri {
    T,
    F,
    Unk(E),
    Hard(E),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hook {
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Bcmp,
    Memcmp,
    Memcpy,
    Memmove,
    Memset,
    Strlen,
    Memchr3,
    Memrchr3,
    CMemchr,
    CMemrchr,
    CountChars,
    Utf8Check,
    Panic,
    Errno,
    Getrandom,
    Zero,
    SymSet,
    SymChoose,
    SymAssume,
    SymAssert,
    SymEq,
    SymFail,
    SymReach,
    SymOut,
    SymJob,
    SymParam,
    SymMark,
    SymDone,
    SymArgsInit,
}

pub fn is_modelled(n: &str) -> bool {
    hook_for(n, true).is_some()
}

fn hook_for(n: &str, declared: bool) -> Option<Hook> {
    if declared {
        match n {
            "malloc" => return Some(Hook::Malloc),
            "calloc" => return Some(Hook::Calloc),
            "realloc" => return Some(Hook::Realloc),
            "free" => return Some(Hook::Free),
            "posix_memalign" => return Some(Hook::PosixMemalign),
            "bcmp" => return Some(Hook::Bcmp),
            "memcmp" => return Some(Hook::Memcmp),
            "memcpy" => return Some(Hook::Memcpy),
            "memmove" => return Some(Hook::Memmove),
            "memset" => return Some(Hook::Memset),
            "strlen" => return Some(Hook::Strlen),
            "memchr" => return Some(Hook::CMemchr),
            "memrchr" => return Some(Hook::CMemrchr),
            "__errno_location" => return Some(Hook::Errno),
            "getrandom" => return Some(Hook::Getrandom),
            "abort" => return Some(Hook::Panic),
            "sym_set" => return Some(Hook::SymSet),
            "sym_choose" => return Some(Hook::SymChoose),
            "sym_assume" => return Some(Hook::SymAssume),
            "sym_assert" => return Some(Hook::SymAssert),
            "sym_eq" => return Some(Hook::SymEq),
            "sym_fail" => return Some(Hook::SymFail),
            "sym_reach" => return Some(Hook::SymReach),
            "sym_out" => return Some(Hook::SymOut),
            "sym_job" => return Some(Hook::SymJob),
            "sym_param" => return Some(Hook::SymParam),
            "sym_mark" => return Some(Hook::SymMark),
            "sym_done" => return Some(Hook::SymDone),
            "sym_args_init" => return Some(Hook::SymArgsInit),
            _ => {}
        }
    } else {
        if n.ends_with("5slice6memchr14memchr_aligned") {
            return Some(Hook::Memchr3);
        }
        if n.ends_with("5slice6memchr15memrchr_aligned") {
            return Some(Hook::Memrchr3);
        }
        if n.ends_with("3str5count14do_count_chars") {
            return Some(Hook::CountChars);
        }
        if n.contains("9panicking9panic_fmt")
            || n.contains("9panicking18panic_nounwind_fmt")
            || n.contains("9panicking11begin_panic")
            || n.contains("9panicking15panic_with_hook")
            || n.contains("___rustc17rust_begin_unwind")
            || n.contains("5alloc18handle_alloc_error")
            || n.contains("___rustc10rust_panic")
        {
            return Some(Hook::Panic);
        }
    }
    None
}

pub fn hooks(m: &Module) -> Vec<Option<Hook>> {
    m.funcs.iter().map(|f| hook_for(&f.name, f.defined.is_none())).collect()
}

#[derive(Default, Clone)]
pub struct PathStats {
    pub paths: u64,
    pub pruned: u64,
    pub forks: u64,
    pub steps: u64,
    pub asserts: u64,
    pub assert_queries: u64,
    pub multi_paths: u64,
    pub space: f64,
    pub max_path_steps: u64,
    pub reach: BTreeMap<u32, u64>,
    pub funcs: BTreeSet<usize>,
    pub job_asserts: BTreeMap<u32, u64>,
    pub job_paths: BTreeMap<u32, u64>,
    pub job_space: BTreeMap<u32, f64>,
    pub job_total: BTreeMap<u32, f64>,
}

pub struct X {
    pub m: Arc<Module>,
    pub hooks: Arc<Vec<Option<Hook>>>,
    pub ar: Arena,
    pub z: Z3,
    pub truth: HashMap<E, Dom, BuildFx>,
    pub confirmed: HashMap<(E, Dom), (), BuildFx>,
    pub verdicts: HashMap<(Vec<(usize, Dom)>, Vec<(E, bool)>), bool, BuildFx>,
    pub job: u32,
    pub param: u32,
    pub st: PathStats,
    pub funcs_seen: Vec<bool>,
}

macro_rules! bad {
    ($($t:tt)*) => { return Err(Stop::Bad(format!($($t)*))) };
}

fn me<T>(r: Result<T, String>) -> R<T> {
    r.map_err(Stop::Bad)
}

#[inline]
fn m64(w: u8) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}

impl X {
    pub fn reset(&mut self, z: Z3) {
        self.ar = Arena::new();
        self.z = z;
        self.truth.clear();
        self.confirmed.clear();
        self.verdicts.clear();
    }
    pub fn initial(&mut self, entry: usize) -> R<State> {
        let func = me(self.m.func(entry))?;
        self.funcs_seen[entry] = true;
        let mut mem = Mem::new(self.m.clone());
        let errno = mem.alloc(8);
        let stack = if func.frame > 0 { mem.alloc(func.frame) } else { 0 };
        let regs = vec![V::I(0); func.nregs as usize];
        Ok(State {
            cur: Frame { func, regs, bb: 0, ip: 0, stack, ret: None, normal: None },
            frames: vec![],
            mem,
            vars: vec![],
            doms: vec![],
            cons: vec![],
            trace: vec![],
            steps: 0,
            outs: vec![],
            errno,
            asserts: 0,
        })
    }

    // ---------------------------------------------------------------- values
    fn mk(&self, e: E) -> V {
        match self.ar.konst(e) {
            Some(k) => {
                if self.ar.w(e) <= 64 {
                    V::I(k as u64)
                } else {
                    V::W(k)
                }
            }
            None => V::S(e),
        }
    }
    fn ex(&mut self, v: &V, w: u8) -> R<E> {
        Ok(match v {
            V::I(k) => self.ar.c(w, *k as u128),
            V::W(k) => self.ar.c(w, *k),
            V::S(e) => {
                if self.ar.w(*e) != w {
                    bad!("width mismatch {} vs {}", self.ar.w(*e), w)
                }
                *e
            }
            V::A(_) => bad!("aggregate used as scalar"),
        })
    }
    #[inline]
    fn opd(&self, st: &State, o: &Opd) -> V {
        match o {
            Opd::R(i) => st.cur.regs[*i as usize].clone(),
            Opd::C(c) => V::I(*c),
            Opd::K(k) => Self::kval(k),
        }
    }
    fn kval(k: &K) -> V {
        match k {
            K::I(i) => V::I(*i),
            K::L(l) => V::W(*l),
            K::Agg(v) => V::A(Rc::new(v.iter().map(Self::kval).collect())),
        }
    }

    // ---------------------------------------------------------------- solver
    pub fn truth(&mut self, e: E) -> Dom {
        if let Some(d) = self.truth.get(&e) {
            return *d;
        }
        let t = self.ar.table(e);
        let mut d = [0u64; 4];
        for x in 0..256 {
            if t[x] != 0 {
                d[x >> 6] |= 1 << (x & 63);
            }
        }
        self.truth.insert(e, d);
        d
    }
    fn related(&self, st: &State, sup0: u128) -> (Vec<(usize, Dom)>, Vec<(E, bool)>) {
        let mut sup = sup0;
        let mut cons: Vec<(E, bool)> = vec![];
        let mut used = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, (e, b)) in st.cons.iter().enumerate() {
                if !used[i] && self.ar.sup[*e as usize] & sup != 0 {
                    used[i] = true;
                    sup |= self.ar.sup[*e as usize];
                    cons.push((*e, *b));
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut doms = vec![];
        for v in 0..st.doms.len() {
            if sup >> v & 1 == 1 {
                doms.push((v, st.doms[v]));
            }
        }
        (doms, cons)
    }
    fn sat(&mut self, st: &State, extra: &[(E, bool)]) -> R<bool> {
        let mut sup = 0u128;
        for (e, _) in extra {
            sup |= self.ar.sup[*e as usize];
        }
        let (doms, mut cons) = self.related(st, sup);
        cons.extend_from_slice(extra);
        let key = (doms, cons);
        if let Some(&r) = self.verdicts.get(&key) {
            self.z.st.cached += 1;
            return Ok(r);
        }
        let r = match self.z.check(&self.ar, &key.0, &key.1, None) {
            Res::Sat => true,
            Res::Unsat => false,
            Res::Unknown => bad!("solver returned unknown"),
        };
        if self.verdicts.len() > 400_000 {
            self.verdicts.clear();
        }
        self.verdicts.insert(key, r);
        Ok(r)
    }
    /// model of the whole path condition (plus extra): values per ordinal
    pub fn model(&mut self, st: &State, extra: &[(E, bool)]) -> R<Option<Vec<u8>>> {
        let mut doms = vec![];
        for &v in &st.vars {
            doms.push((v, st.doms[v]));
        }
        let mut cons = st.cons.clone();
        cons.extend_from_slice(extra);
        let mut mo = vec![];
        match self.z.check(&self.ar, &doms, &cons, Some(&mut mo)) {
            Res::Sat => {
                let mp: HashMap<usize, u8> = mo.into_iter().collect();
                Ok(Some(st.vars.iter().map(|v| mp[v]).collect()))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => bad!("solver returned unknown"),
        }
    }
    pub fn tri(&mut self, st: &State, e: E) -> R<Tri> {
        let n = self.ar.node(e);
        if n.op == Op::Const {
            return Ok(if n.k != 0 { Tri::T } else { Tri::F });
        }
        if let Some(v) = self.ar.single(e) {
            let t = self.truth(e);
            let d = st.doms[v];
            let tt = dom_and(&t, &d);
            if dom_empty(&tt) || tt == d {
                let val = !dom_empty(&tt);
                // the infeasible side is refuted by the solver (cached)
                if self.confirmed.get(&(e, d)).is_none() {
                    match self.z.check(&self.ar, &[(v, d)], &[(e, !val)], None) {
                        Res::Unsat => {}
                        r => bad!("solver disagrees with value table ({:?})", r),
                    }
                    self.confirmed.insert((e, d), ());
                } else {
                    self.z.st.cached += 1;
                }
                return Ok(if val { Tri::T } else { Tri::F });
            }
            return Ok(Tri::Unk(e));
        }
        for (c, b) in st.cons.iter().rev() {
            if *c == e {
                return Ok(if *b { Tri::T } else { Tri::F });
            }
        }
        let w = if n.op == Op::Eq { self.ar.w(n.a) } else { n.w };
        match n.op {
            Op::And if w == 1 => {
                let a = self.tri(st, n.a)?;
                if let Tri::F = a {
                    return Ok(Tri::F);
                }
                let b = self.tri(st, n.b)?;
                Ok(match (a, b) {
                    (_, Tri::F) => Tri::F,
                    (Tri::T, b) => b,
                    (a, Tri::T) => a,
                    (Tri::Unk(x), _) => Tri::Unk(x),
                    (_, Tri::Unk(x)) => Tri::Unk(x),
                    (a, _) => a,
                })
            }
            Op::Or if w == 1 => {
                let a = self.tri(st, n.a)?;
                if let Tri::T = a {
                    return Ok(Tri::T);
                }
                let b = self.tri(st, n.b)?;
                Ok(match (a, b) {
                    (_, Tri::T) => Tri::T,
                    (Tri::F, b) => b,
                    (a, Tri::F) => a,
                    (Tri::Unk(x), _) => Tri::Unk(x),
                    (_, Tri::Unk(x)) => Tri::Unk(x),
                    (a, _) => a,
                })
            }
            Op::Xor | Op::Eq if w == 1 => {
                let a = self.tri(st, n.a)?;
                let b = self.tri(st, n.b)?;
                let eq = n.op == Op::Eq;
                Ok(match (a, b) {
                    (Tri::T, Tri::T) | (Tri::F, Tri::F) => {
                        if eq {
                            Tri::T
                        } else {
                            Tri::F
                        }
                    }
                    (Tri::T, Tri::F) | (Tri::F, Tri::T) => {
                        if eq {
                            Tri::F
                        } else {
                            Tri::T
                        }
                    }
                    (Tri::Unk(x), _) | (_, Tri::Unk(x)) => Tri::Unk(x),
                    (Tri::Hard(x), _) | (_, Tri::Hard(x)) => Tri::Hard(x),
                })
            }
            Op::Ite => {
                let c = self.tri(st, n.a)?;
                match c {
                    Tri::T => self.tri(st, n.b),
                    Tri::F => self.tri(st, n.c),
                    c => Ok(c),
                }
            }
            _ => {
                // all variables pinned?
                let s = self.ar.sup[e as usize];
                let mut pinned = true;
                for v in 0..st.doms.len() {
                    if s >> v & 1 == 1 && dom_count(&st.doms[v]) != 1 {
                        pinned = false;
                        break;
                    }
                }
                if pinned {
                    let r = self.ar.eval(e, &|v| dom_first(&st.doms[v]).unwrap() as u8);
                    return Ok(if r != 0 { Tri::T } else { Tri::F });
                }
                // conditions inside (ite) terms first
                if let Some(c) = self.inner_cond(st, e)? {
                    return Ok(Tri::Unk(c));
                }
                Ok(Tri::Hard(e))
            }
        }
    }
    /// an undecided single-variable ite condition inside a multi-variable term
    fn inner_cond(&mut self, st: &State, e: E) -> R<Option<E>> {
        let n = self.ar.node(e);
        if matches!(n.op, Op::Const | Op::Var | Op::Tab) || self.ar.single(e).is_some() {
            return Ok(None);
        }
        if n.op == Op::Ite {
            match self.tri(st, n.a)? {
                Tri::Unk(x) => return Ok(Some(x)),
                Tri::T => return self.inner_cond(st, n.b),
                Tri::F => return self.inner_cond(st, n.c),
                Tri::Hard(_) => return Ok(None),
            }
        }
        for x in [n.a, n.b, n.c] {
            if x != 0 {
                if let Some(c) = self.inner_cond(st, x)? {
                    return Ok(Some(c));
                }
            }
        }
        Ok(None)
    }
    pub fn decide(&mut self, st: &State, e: E) -> R<bool> {
        match self.tri(st, e)? {
            Tri::T => Ok(true),
            Tri::F => Ok(false),
            Tri::Unk(a) => {
                let v = self.ar.single(a).unwrap();
                let t = self.truth(a);
                let d = st.doms[v];
                let nt = [!t[0], !t[1], !t[2], !t[3]];
                Err(Stop::Split(vec![Alt::Dom(v, dom_and(&d, &t)), Alt::Dom(v, dom_and(&d, &nt))]))
            }
            Tri::Hard(h) => {
                let t = self.sat(st, &[(h, true)])?;
                let f = self.sat(st, &[(h, false)])?;
                let mut alts = vec![];
                if t {
                    alts.push(Alt::Con(h, true));
                }
                if f {
                    alts.push(Alt::Con(h, false));
                }
                if alts.is_empty() {
                    bad!("infeasible path reached");
                }
                Err(Stop::Split(alts))
            }
        }
    }
    #[inline]
    fn cond(&mut self, st: &State, v: &V) -> R<bool> {
        match v {
            V::I(x) => Ok(*x & 1 != 0),
            V::S(e) => self.decide(st, *e),
            _ => bad!("condition"),
        }
    }
    fn groups(&mut self, st: &State, e: E, v: usize) -> Vec<(u64, Dom)> {
        let t = self.ar.table(e);
        let d = st.doms[v];
        let mut g: Vec<(u64, Dom)> = vec![];
        let mut ix: HashMap<u64, usize, BuildFx> = HashMap::default();
        for x in 0..256 {
            if dom_has(&d, x) {
                let i = *ix.entry(t[x]).or_insert_with(|| {
                    g.push((t[x], [0; 4]));
                    g.len() - 1
                });
                g[i].1[x >> 6] |= 1 << (x & 63);
            }
        }
        g
    }
    /// concrete value of an expression; forks on the variables it depends on when undetermined
    pub fn conc(&mut self, st: &State, v: &V) -> R<u64> {
        match v {
            V::I(x) => Ok(*x),
            V::W(x) => Ok(*x as u64),
            V::A(_) => bad!("aggregate concretized"),
            V::S(e) => {
                if let Some(vv) = self.ar.single(*e) {
                    let g = self.groups(st, *e, vv);
                    if g.len() == 1 {
                        return Ok(g[0].0);
                    }
                    return Err(Stop::Split(g.into_iter().map(|(_, d)| Alt::Dom(vv, d)).collect()));
                }
                let mut best: Option<(usize, usize, Vec<Dom>)> = None;
                let mut seen = BTreeSet::new();
                self.leaves(st, *e, &mut seen, &mut best)?;
                match best {
                    None => Ok(self.ar.eval(*e, &|v| dom_first(&st.doms[v]).unwrap() as u8) as u64),
                    Some((_, vv, gs)) => Err(Stop::Split(gs.into_iter().map(|d| Alt::Dom(vv, d)).collect())),
                }
            }
        }
    }
    fn leaves(
        &mut self,
        st: &State,
        e: E,
        seen: &mut BTreeSet<E>,
        best: &mut Option<(usize, usize, Vec<Dom>)>,
    ) -> R<()> {
        if !seen.insert(e) {
            return Ok(());
        }
        let n = self.ar.node(e);
        if n.op == Op::Const {
            return Ok(());
        }
        if let Some(v) = self.ar.single(e) {
            let g = self.groups(st, e, v);
            if g.len() > 1 && best.as_ref().map_or(true, |b| g.len() < b.0) {
                *best = Some((g.len(), v, g.into_iter().map(|x| x.1).collect()));
            }
            return Ok(());
        }
        for x in [n.a, n.b, n.c] {
            if x != 0 {
                self.leaves(st, x, seen, best)?;
            }
        }
        Ok(())
    }

    // ---------------------------------------------------------------- memory access
    fn byte_e(&mut self, d: u8, s: E) -> E {
        if s != 0 {
            s
        } else {
            self.ar.c(8, d as u128)
        }
    }
    fn load_int(&mut self, st: &State, addr: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as usize;
        let (d, s) = me(st.mem.read(addr, n))?;
        let any = match s {
            Some(s) => s.iter().any(|e| *e != 0),
            None => false,
        };
        if !any {
            if n <= 8 {
                let mut x = 0u64;
                for i in (0..n).rev() {
                    x = x << 8 | d[i] as u64;
                }
                return Ok(V::I(x & m64(w.min(64) as u8)));
            }
            let mut x = 0u128;
            for i in (0..n).rev() {
                x = x << 8 | d[i] as u128;
            }
            return Ok(V::W(x & mask(w as u8)));
        }
        let s = s.unwrap().to_vec();
        let d = d.to_vec();
        let mut e = self.byte_e(d[0], s[0]);
        for i in 1..n {
            let h = self.byte_e(d[i], s[i]);
            e = self.ar.cat(h, e);
        }
        if w as usize != n * 8 {
            e = self.ar.ext(0, w as u8, e);
        }
        Ok(self.mk(e))
    }
    fn load(&mut self, st: &State, addr: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Int(w) => self.load_int(st, addr, *w),
            Ty::Ptr | Ty::F64 => self.load_int(st, addr, 64),
            Ty::F32 => self.load_int(st, addr, 32),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                if let (Ty::Vec(..), Ty::Int(w)) = (ty, &**t) {
                    if w % 8 != 0 {
                        bad!("load of {:?}", ty)
                    }
                }
                let sz = t.size();
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(st, addr + i * sz, t)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for (i, t) in f.iter().enumerate() {
                    v.push(self.load(st, addr + ty.field_off(i), t)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => bad!("load of {:?}", ty),
        }
    }
    fn load_sym(&mut self, st: &State, p: &V, ty: &Ty) -> R<V> {
        match p {
            V::I(a) => self.load(st, *a, ty),
            V::S(e) => {
                let w = match ty {
                    Ty::Int(w) if *w <= 64 => *w,
                    Ty::Ptr => 64,
                    _ => {
                        let a = self.conc(st, p)?;
                        return self.load(st, a, ty);
                    }
                };
                if let Some(v) = self.ar.single(*e) {
                    let t = self.ar.table(*e);
                    let d = st.doms[v];
                    let n = ((w + 7) / 8) as usize;
                    let mut out = vec![0u64; 256];
                    let mut ok = true;
                    for x in 0..256 {
                        if dom_has(&d, x) {
                            match st.mem.read(t[x], n) {
                                Ok((b, s)) if s.map_or(true, |s| s.iter().all(|e| *e == 0)) => {
                                    let mut k = 0u64;
                                    for i in (0..n).rev() {
                                        k = k << 8 | b[i] as u64;
                                    }
                                    out[x] = k & m64(w as u8);
                                }
                                _ => {
                                    ok = false;
                                    break;
                                }
                            }
                        }
                    }
                    if ok {
                        // outside of the domain: repeat a value, so that no case distinction is added
                        let f = dom_first(&d).unwrap();
                        let mut last = out[f];
                        for x in 0..256 {
                            if dom_has(&d, x) {
                                last = out[x];
                            } else {
                                out[x] = last;
                            }
                        }
                        let ve = self.ar.vars[v];
                        let r = self.ar.tab(ve, w as u8, out);
                        return Ok(self.mk(r));
                    }
                }
                let a = self.conc(st, p)?;
                self.load(st, a, ty)
            }
            _ => bad!("load pointer"),
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &V) -> R<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 => {
                let w = match ty {
                    Ty::Int(w) => *w,
                    Ty::F32 => 32,
                    _ => 64,
                };
                let n = ((w + 7) / 8) as usize;
                match v {
                    V::I(x) => {
                        let b = x.to_le_bytes();
                        if n <= 8 {
                            me(st.mem.write(addr, &b[..n], None))
                        } else {
                            let b = (*x as u128).to_le_bytes();
                            me(st.mem.write(addr, &b[..n], None))
                        }
                    }
                    V::W(x) => me(st.mem.write(addr, &x.to_le_bytes()[..n], None)),
                    V::S(e) => {
                        let mut e = *e;
                        if w as usize != n * 8 {
                            e = self.ar.zext((n * 8) as u8, e);
                        }
                        let mut d = vec![0u8; n];
                        let mut s = vec![0; n];
                        for i in 0..n {
                            let b = self.ar.ext((i * 8) as u8, 8, e);
                            match self.ar.konst(b) {
                                Some(k) => d[i] = k as u8,
                                None => s[i] = b,
                            }
                        }
                        me(st.mem.write(addr, &d, Some(&s)))
                    }
                    V::A(_) => bad!("store of aggregate as scalar"),
                }
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => {
                if let (Ty::Vec(..), Ty::Int(w)) = (ty, &**t) {
                    if w % 8 != 0 {
                        bad!("store of {:?}", ty)
                    }
                }
                let V::A(a) = v else { bad!("store of scalar as aggregate") };
                let sz = t.size();
                for (i, x) in a.iter().enumerate() {
                    self.store(st, addr + i as u64 * sz, t, x)?;
                }
                Ok(())
            }
            Ty::Struct(f, _) => {
                let V::A(a) = v else { bad!("store of scalar as aggregate") };
                for (i, t) in f.iter().enumerate() {
                    self.store(st, addr + ty.field_off(i), t, &a[i])?;
                }
                Ok(())
            }
            _ => bad!("store of {:?}", ty),
        }
    }

    // ---------------------------------------------------------------- scalar operations
    fn bin(&mut self, op: Op, w: u8, a: &V, b: &V) -> R<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = m64(w);
            let fast = match op {
                Op::Add => Some(x.wrapping_add(y) & m),
                Op::Sub => Some(x.wrapping_sub(y) & m),
                Op::And => Some(x & y),
                Op::Or => Some(x | y),
                Op::Xor => Some(x ^ y),
                Op::Mul => Some(x.wrapping_mul(y) & m),
                _ => None,
            };
            if w <= 64 {
                if let Some(r) = fast {
                    return Ok(V::I(r));
                }
            }
            return match ceval(op, w, x as u128, y as u128) {
                Some(r) if w <= 64 => Ok(V::I(r as u64)),
                Some(r) => Ok(V::W(r)),
                None => bad!("division by zero"),
            };
        }
        let conc = |v: &V| match v {
            V::I(x) => Some(*x as u128),
            V::W(x) => Some(*x),
            _ => None,
        };
        if let (Some(x), Some(y)) = (conc(a), conc(b)) {
            return match ceval(op, w, x, y) {
                Some(r) if w <= 64 => Ok(V::I(r as u64)),
                Some(r) => Ok(V::W(r)),
                None => bad!("division by zero"),
            };
        }
        let (x, y) = (self.ex(a, w)?, self.ex(b, w)?);
        let e = self.ar.bin(op, x, y);
        Ok(self.mk(e))
    }
    fn cmp(&mut self, p: Pred, w: u8, a: &V, b: &V) -> R<V> {
        let (op, sw, neg) = match p {
            Pred::Eq => (Op::Eq, false, false),
            Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false),
            Pred::Ule => (Op::Ule, false, false),
            Pred::Ugt => (Op::Ult, true, false),
            Pred::Uge => (Op::Ule, true, false),
            Pred::Slt => (Op::Slt, false, false),
            Pred::Sle => (Op::Sle, false, false),
            Pred::Sgt => (Op::Slt, true, false),
            Pred::Sge => (Op::Sle, true, false),
        };
        let (a, b) = if sw { (b, a) } else { (a, b) };
        if let (V::I(x), V::I(y)) = (a, b) {
            let r = match op {
                Op::Eq => x == y,
                Op::Ult => x < y,
                Op::Ule => x <= y,
                _ => ceval(op, w, *x as u128, *y as u128).unwrap() != 0,
            };
            return Ok(V::I((r ^ neg) as u64));
        }
        let conc = |v: &V| match v {
            V::I(x) => Some(*x as u128),
            V::W(x) => Some(*x),
            _ => None,
        };
        if let (Some(x), Some(y)) = (conc(a), conc(b)) {
            let r = ceval(op, w, x, y).unwrap() != 0;
            return Ok(V::I((r ^ neg) as u64));
        }
        let (x, y) = (self.ex(a, w)?, self.ex(b, w)?);
        let mut e = self.ar.bin(op, x, y);
        if neg {
            e = self.ar.not1(e);
        }
        Ok(self.mk(e))
    }
    fn map2(&mut self, ty: &Ty, a: &V, b: &V, f: &mut dyn FnMut(&mut X, &V, &V) -> R<V>) -> R<V> {
        if let Ty::Vec(n, _) = ty {
            let (V::A(x), V::A(y)) = (a, b) else { bad!("vector operand") };
            let mut o = vec![];
            for i in 0..*n as usize {
                o.push(f(self, &x[i], &y[i])?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        f(self, a, b)
    }
    fn width(ty: &Ty) -> u8 {
        match ty {
            Ty::Int(w) => *w as u8,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(_, t) => Self::width(t),
            _ => 0,
        }
    }
    fn cast1(&mut self, k: Cast, fw: u8, tw: u8, a: &V) -> R<V> {
        let norm = |x: u128| if tw <= 64 { V::I(x as u64) } else { V::W(x) };
        match (k, a) {
            (Cast::Bit, _) => Ok(a.clone()),
            (Cast::Trunc, V::I(x)) => Ok(V::I(x & m64(tw))),
            (Cast::Trunc, V::W(x)) => Ok(norm(x & mask(tw))),
            (Cast::ZExt, V::I(x)) => Ok(norm(*x as u128)),
            (Cast::ZExt, V::W(x)) => Ok(V::W(*x)),
            (Cast::SExt, V::I(x)) => Ok(norm(sext(*x as u128, fw) as u128 & mask(tw))),
            (Cast::Trunc, V::S(e)) => {
                let e = self.ar.ext(0, tw, *e);
                Ok(self.mk(e))
            }
            (Cast::ZExt, V::S(e)) => {
                let e = self.ar.zext(tw, *e);
                Ok(self.mk(e))
            }
            (Cast::SExt, V::S(e)) => {
                let e = self.ar.sext(tw, *e);
                Ok(self.mk(e))
            }
            (Cast::UiToFp, V::I(x)) => Ok(V::I(if tw == 64 {
                (*x as f64).to_bits()
            } else {
                (*x as f32).to_bits() as u64
            })),
            (Cast::SiToFp, V::I(x)) => {
                let s = sext(*x as u128, fw) as i64;
                Ok(V::I(if tw == 64 { (s as f64).to_bits() } else { (s as f32).to_bits() as u64 }))
            }
            (Cast::FpToUi, V::I(x)) | (Cast::FpToSi, V::I(x)) => {
                let f = if fw == 64 { f64::from_bits(*x) } else { f32::from_bits(*x as u32) as f64 };
                let r = if k == Cast::FpToUi { f as u64 } else { f as i64 as u64 };
                Ok(V::I(r & m64(tw)))
            }
            (Cast::FpExt, V::I(x)) => Ok(V::I((f32::from_bits(*x as u32) as f64).to_bits())),
            (Cast::FpTrunc, V::I(x)) => Ok(V::I((f64::from_bits(*x) as f32).to_bits() as u64)),
            _ => bad!("cast {:?} of {:?}", k, a),
        }
    }
    fn cast(&mut self, k: Cast, from: &Ty, to: &Ty, a: &V) -> R<V> {
        match (from, to) {
            (Ty::Vec(n, ft), Ty::Vec(n2, tt)) if n == n2 => {
                let V::A(x) = a else { bad!("vector operand") };
                let mut o = vec![];
                for y in x.iter() {
                    o.push(self.cast1(k, Self::width(ft), Self::width(tt), y)?);
                }
                Ok(V::A(Rc::new(o)))
            }
            (Ty::Vec(_, ft), _) if k == Cast::Bit => {
                // vector -> wider scalar or other vector: via bits
                let V::A(x) = a else { bad!("vector operand") };
                let fw = Self::width(ft);
                let x = x.clone();
                let mut e = self.ex(&x[0], fw)?;
                for y in x.iter().skip(1) {
                    let h = self.ex(y, fw)?;
                    if self.ar.w(e) as u32 + fw as u32 > 128 {
                        bad!("wide bitcast")
                    }
                    e = self.ar.cat(h, e);
                }
                self.unbits(e, to)
            }
            (_, Ty::Vec(..)) if k == Cast::Bit => {
                let w = Self::width(from);
                let e = self.ex(a, w)?;
                self.unbits(e, to)
            }
            _ => self.cast1(k, Self::width(from), Self::width(to), a),
        }
    }
    fn unbits(&mut self, e: E, to: &Ty) -> R<V> {
        match to {
            Ty::Vec(n, t) => {
                let w = Self::width(t);
                let mut o = vec![];
                for i in 0..*n {
                    let p = self.ar.ext((i * w as u64) as u8, w, e);
                    o.push(self.mk(p));
                }
                Ok(V::A(Rc::new(o)))
            }
            _ => Ok(self.mk(e)),
        }
    }
    fn select1(&mut self, st: &State, c: &V, a: &V, b: &V, ty: &Ty) -> R<V> {
        match c {
            V::I(x) => Ok(if *x & 1 != 0 { a.clone() } else { b.clone() }),
            V::S(e) => {
                // data stays symbolic, sizes and pointers fork
                let w = Self::width(ty);
                if matches!(ty, Ty::Int(_)) && w <= 32 {
                    match self.tri(st, *e)? {
                        Tri::T => return Ok(a.clone()),
                        Tri::F => return Ok(b.clone()),
                        _ => {}
                    }
                    let (x, y) = (self.ex(a, w)?, self.ex(b, w)?);
                    let r = self.ar.ite(*e, x, y);
                    return Ok(self.mk(r));
                }
                Ok(if self.decide(st, *e)? { a.clone() } else { b.clone() })
            }
            _ => bad!("select condition"),
        }
    }

    // ---------------------------------------------------------------- instructions
    #[inline]
    fn set(st: &mut State, d: u32, v: V) {
        st.cur.regs[d as usize] = v;
    }
    pub fn enter(&mut self, st: &mut State, func: &Func, to: u32) {
        let from = st.cur.bb;
        let b = &func.blocks[to as usize];
        match b.phis.len() {
            0 => {}
            1 => {
                let (d, srcs) = &b.phis[0];
                let v = Self::phi(self, st, srcs, from);
                Self::set(st, *d, v);
            }
            _ => {
                let vals: Vec<V> = b.phis.iter().map(|(_, s)| Self::phi(self, st, s, from)).collect();
                for ((d, _), v) in b.phis.iter().zip(vals) {
                    Self::set(st, *d, v);
                }
            }
        }
        st.cur.bb = to;
        st.cur.ip = 0;
    }
    fn phi(x: &X, st: &State, srcs: &[(u32, Opd)], from: u32) -> V {
        for (b, o) in srcs {
            if *b == from {
                return x.opd(st, o);
            }
        }
        panic!("phi without incoming edge");
    }
    /// run until the path stops
    pub fn run(&mut self, st: &mut State, limit: u64) -> Stop {
        loop {
            let func = st.cur.func.clone();
            'blk: loop {
                let blk = &func.blocks[st.cur.bb as usize];
                loop {
                    st.steps += 1;
                    if st.steps > limit {
                        let mut tr = func.name.clone();
                        for f in st.frames.iter().rev().take(6) {
                            tr.push_str(" < ");
                            tr.push_str(&f.func.name);
                        }
                        return Stop::Fail(format!("hang: no result after {limit} instructions in {tr}"), vec![]);
                    }
                    let Some(ins) = blk.ins.get(st.cur.ip as usize) else {
                        return Stop::Bad(format!("block {} of {} has no terminator: {:?}", blk.name, func.name, blk.ins));
                    };
                    match self.ins(st, &func, ins) {
                        Ok(Flow::Next) => st.cur.ip += 1,
                        Ok(Flow::Jump(b)) => {
                            self.enter(st, &func, b);
                            continue 'blk;
                        }
                        Ok(Flow::Frame) => break 'blk,
                        Err(Stop::Bad(s)) => {
                            let mut tr = func.name.clone();
                            for f in st.frames.iter().rev().take(8) {
                                tr.push_str(" < ");
                                tr.push_str(&f.func.name);
                            }
                            return Stop::Bad(format!("{s} at {} ins {} in {tr}", blk.name, st.cur.ip));
                        }
                        Err(s) => return s,
                    }
                }
            }
        }
    }
    fn ins(&mut self, st: &mut State, _func: &Func, ins: &Ins) -> R<Flow> {
        match ins {
            Ins::Bin { op, ty, w, a, b, d } => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let v = if let Ty::Vec(..) = ty {
                    let (op, w) = (*op, *w);
                    self.map2(ty, &x, &y, &mut |s, p, q| s.bin(op, w, p, q))?
                } else {
                    self.bin(*op, *w, &x, &y)?
                };
                Self::set(st, *d, v);
            }
            Ins::Icmp { p, ty, w, a, b, d } => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let v = if let Ty::Vec(..) = ty {
                    let (pp, w) = (*p, *w);
                    self.map2(ty, &x, &y, &mut |s, p, q| s.cmp(pp, w, p, q))?
                } else {
                    self.cmp(*p, *w, &x, &y)?
                };
                Self::set(st, *d, v);
            }
            Ins::Gep { base, off, idx, d } => {
                let b = self.opd(st, base);
                if let V::I(x) = b {
                    let mut x = x.wrapping_add(*off as u64);
                    let mut sym = false;
                    for (o, sc, w) in idx {
                        match self.opd(st, o) {
                            V::I(i) => {
                                let i = if *w < 64 { sext(i as u128, *w) as i64 } else { i as i64 };
                                x = x.wrapping_add(i.wrapping_mul(*sc) as u64);
                            }
                            _ => {
                                sym = true;
                                break;
                            }
                        }
                    }
                    if !sym {
                        Self::set(st, *d, V::I(x));
                        return Ok(Flow::Next);
                    }
                }
                let mut acc = self.bin(Op::Add, 64, &b, &V::I(*off as u64))?;
                for (o, sc, w) in idx {
                    let i = self.opd(st, o);
                    let i = if *w < 64 { self.cast1(Cast::SExt, *w, 64, &i)? } else { i };
                    let p = self.bin(Op::Mul, 64, &i, &V::I(*sc as u64))?;
                    acc = self.bin(Op::Add, 64, &acc, &p)?;
                }
                Self::set(st, *d, acc);
            }
            Ins::Load { ty, p, d } => {
                let p = self.opd(st, p);
                let v = self.load_sym(st, &p, ty)?;
                Self::set(st, *d, v);
            }
            Ins::Store { ty, v, p } => {
                let p = self.opd(st, p);
                let a = self.conc(st, &p)?;
                let v = self.opd(st, v);
                self.store(st, a, ty, &v)?;
            }
            Ins::Br { t } => return Ok(Flow::Jump(*t)),
            Ins::CondBr { c, t, f } => {
                let c = self.opd(st, c);
                return Ok(Flow::Jump(if self.cond(st, &c)? { *t } else { *f }));
            }
            Ins::Switch { w, v, def, cases } => {
                let x = self.opd(st, v);
                match x {
                    V::I(k) => {
                        for (c, b) in cases {
                            if *c == k {
                                return Ok(Flow::Jump(*b));
                            }
                        }
                        return Ok(Flow::Jump(*def));
                    }
                    V::S(e) => {
                        if let Some(vv) = self.ar.single(e) {
                            let t = self.ar.table(e);
                            let d = st.doms[vv];
                            let mut tg: Vec<(u32, Dom)> = vec![];
                            for x in 0..256 {
                                if dom_has(&d, x) {
                                    let b = cases.iter().find(|(c, _)| *c == t[x]).map_or(*def, |c| c.1);
                                    let i = match tg.iter().position(|y| y.0 == b) {
                                        Some(i) => i,
                                        None => {
                                            tg.push((b, [0; 4]));
                                            tg.len() - 1
                                        }
                                    };
                                    tg[i].1[x >> 6] |= 1 << (x & 63);
                                }
                            }
                            if tg.len() == 1 {
                                return Ok(Flow::Jump(tg[0].0));
                            }
                            // phi nodes may still distinguish cases with the same target: they do not,
                            // as a phi is keyed by the predecessor block only
                            return Err(Stop::Split(tg.into_iter().map(|(_, d)| Alt::Dom(vv, d)).collect()));
                        }
                        for (c, b) in cases {
                            let k = self.ar.c(*w, *c as u128);
                            let q = self.ar.eq(e, k);
                            if self.decide(st, q)? {
                                return Ok(Flow::Jump(*b));
                            }
                        }
                        return Ok(Flow::Jump(*def));
                    }
                    _ => bad!("switch value"),
                }
            }
            Ins::Cast { k, from, to, a, d } => {
                let a = self.opd(st, a);
                let v = self.cast(*k, from, to, &a)?;
                Self::set(st, *d, v);
            }
            Ins::Select { cty, c, a, b, ty, d } => {
                let c = self.opd(st, c);
                let (a, b) = (self.opd(st, a), self.opd(st, b));
                let v = if let Ty::Vec(n, _) = cty {
                    let (V::A(cs), V::A(x), V::A(y)) = (&c, &a, &b) else { bad!("vector select") };
                    let et = ty.sub(0);
                    let mut o = vec![];
                    for i in 0..*n as usize {
                        o.push(self.select1(st, &cs[i], &x[i], &y[i], &et)?);
                    }
                    V::A(Rc::new(o))
                } else {
                    self.select1(st, &c, &a, &b, ty)?
                };
                Self::set(st, *d, v);
            }
            Ins::Alloca { off, d } => {
                let a = st.cur.stack + off;
                Self::set(st, *d, V::I(a));
            }
            Ins::Call { .. } => return self.call(st, ins),
            Ins::Ret { v } => {
                let r = v.as_ref().map(|o| self.opd(st, o));
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                if st.cur.stack != 0 {
                    me(st.mem.free(st.cur.stack))?;
                }
                let f = st.frames.pop().unwrap();
                let f = match Rc::try_unwrap(f) {
                    Ok(f) => f,
                    Err(r) => (*r).clone(),
                };
                let old = std::mem::replace(&mut st.cur, f);
                if let (Some(d), Some(v)) = (old.ret, r) {
                    Self::set(st, d, v);
                }
                match old.normal {
                    Some(b) => {
                        let func = st.cur.func.clone();
                        self.enter(st, &func, b);
                    }
                    None => st.cur.ip += 1,
                }
                return Ok(Flow::Frame);
            }
            Ins::Freeze { a, d } => {
                let v = self.opd(st, a);
                Self::set(st, *d, v);
            }
            Ins::ExtractValue { a, path, d } => {
                let mut v = self.opd(st, a);
                for i in path {
                    let V::A(x) = &v else { bad!("extractvalue") };
                    let y = x[*i as usize].clone();
                    v = y;
                }
                Self::set(st, *d, v);
            }
            Ins::InsertValue { a, v, path, d, .. } => {
                let x = self.opd(st, a);
                let y = self.opd(st, v);
                let r = Self::insert(&x, path, y)?;
                Self::set(st, *d, r);
            }
            Ins::ExtractElem { a, i, d } => {
                let x = self.opd(st, a);
                let iv = self.opd(st, i);
                let k = self.conc(st, &iv)? as usize;
                let V::A(x) = x else { bad!("extractelement") };
                Self::set(st, *d, x[k].clone());
            }
            Ins::InsertElem { a, v, i, d, .. } => {
                let x = self.opd(st, a);
                let y = self.opd(st, v);
                let iv = self.opd(st, i);
                let k = self.conc(st, &iv)? as u32;
                let r = Self::insert(&x, &[k], y)?;
                Self::set(st, *d, r);
            }
            Ins::Shuffle { a, b, m, d, n } => {
                let x = self.opd(st, a);
                let y = self.opd(st, b);
                let (V::A(x), V::A(y)) = (&x, &y) else { bad!("shuffle") };
                let mut o = vec![];
                for i in m {
                    let i = (*i).max(0) as u64;
                    o.push(if i < *n { x[i as usize].clone() } else { y[(i - n) as usize].clone() });
                }
                Self::set(st, *d, V::A(Rc::new(o)));
            }
            Ins::Rmw { op, ty, p, v, d } => {
                let p = self.opd(st, p);
                let a = self.conc(st, &p)?;
                let old = self.load(st, a, ty)?;
                let v = self.opd(st, v);
                let w = Self::width(ty);
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(Op::Add, w, &old, &v)?,
                    "sub" => self.bin(Op::Sub, w, &old, &v)?,
                    "and" => self.bin(Op::And, w, &old, &v)?,
                    "or" => self.bin(Op::Or, w, &old, &v)?,
                    "xor" => self.bin(Op::Xor, w, &old, &v)?,
                    o => bad!("atomicrmw {o}"),
                };
                self.store(st, a, ty, &new)?;
                Self::set(st, *d, old);
            }
            Ins::CmpXchg { ty, p, c, n, d } => {
                let p = self.opd(st, p);
                let a = self.conc(st, &p)?;
                let old = self.load(st, a, ty)?;
                let c = self.opd(st, c);
                let n = self.opd(st, n);
                let eq = self.cmp(Pred::Eq, Self::width(ty), &old, &c)?;
                let ok = self.cond(st, &eq)?;
                if ok {
                    self.store(st, a, ty, &n)?;
                }
                Self::set(st, *d, V::A(Rc::new(vec![old, V::I(ok as u64)])));
            }
            Ins::FBin { op, ty, a, b, d } => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                let r = match ty {
                    Ty::F64 => {
                        let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                        match op {
                            '+' => x + y,
                            '-' => x - y,
                            '*' => x * y,
                            '/' => x / y,
                            _ => x % y,
                        }
                        .to_bits()
                    }
                    Ty::F32 => {
                        let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        match op {
                            '+' => x + y,
                            '-' => x - y,
                            '*' => x * y,
                            '/' => x / y,
                            _ => x % y,
                        }
                        .to_bits() as u64
                    }
                    _ => bad!("fbin {:?}", ty),
                };
                Self::set(st, *d, V::I(r));
            }
            Ins::FCmp { p, ty, a, b, d } => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                let (x, y) = match ty {
                    Ty::F64 => (f64::from_bits(x), f64::from_bits(y)),
                    Ty::F32 => (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64),
                    _ => bad!("fcmp {:?}", ty),
                };
                let uno = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => x == y,
                    "one" => !uno && x != y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "ord" => !uno,
                    "uno" => uno,
                    "ueq" => uno || x == y,
                    "une" => uno || x != y,
                    "ult" => uno || x < y,
                    "ule" => uno || x <= y,
                    "ugt" => uno || x > y,
                    "uge" => uno || x >= y,
                    o => bad!("fcmp {o}"),
                };
                Self::set(st, *d, V::I(r as u64));
            }
            Ins::FNeg { ty, a, d } => {
                let x = self.opd(st, a);
                let x = self.conc(st, &x)?;
                let r = if *ty == Ty::F64 { x ^ (1 << 63) } else { x ^ (1 << 31) };
                Self::set(st, *d, V::I(r));
            }
            Ins::Unreachable => {
                return Err(Stop::Fail("undefined behaviour: unreachable instruction reached".into(), vec![]))
            }
            Ins::Nop => {}
            Ins::Bad(s) => bad!("unsupported instruction: {s}"),
        }
        Ok(Flow::Next)
    }
    fn insert(x: &V, path: &[u32], y: V) -> R<V> {
        let V::A(a) = x else { return Err(Stop::Bad("insertvalue".into())) };
        let mut v = (**a).clone();
        let i = path[0] as usize;
        if path.len() == 1 {
            v[i] = y;
        } else {
            v[i] = Self::insert(&a[i], &path[1..], y)?;
        }
        Ok(V::A(Rc::new(v)))
    }

    // ---------------------------------------------------------------- calls
    fn call(&mut self, st: &mut State, ins: &Ins) -> R<Flow> {
        let Ins::Call { f, args, argtys, d, ret, normal, .. } = ins else { unreachable!() };
        let done = |x: &mut X, st: &mut State, v: V| -> R<Flow> {
            if let Some(d) = d {
                Self::set(st, *d, v);
            }
            let _ = x;
            match normal {
                Some(b) => Ok(Flow::Jump(*b)),
                None => Ok(Flow::Next),
            }
        };
        let id = match f {
            Callee::Fn(i) => *i,
            Callee::Intr(n) => {
                let v = self.intrinsic(st, n, args, argtys, ret)?;
                return done(self, st, v);
            }
            Callee::Ind(o) => {
                let p = self.opd(st, o);
                let a = self.conc(st, &p)?;
                if a < FUNC_BASE || (a - FUNC_BASE) % 16 != 0 || ((a - FUNC_BASE) / 16) as usize >= self.m.funcs.len() {
                    bad!("indirect call to {a:#x}")
                }
                ((a - FUNC_BASE) / 16) as usize
            }
            Callee::Asm(text) => {
                // ioctl(fd, request, argument) issued directly: not a terminal
                if text.contains("syscall") && self.arg(st, args, 0)? == 16 {
                    return done(self, st, V::A(Rc::new(vec![V::I(-25i64 as u64), V::I(0), V::I(0)])));
                }
                bad!("inline assembly {text}")
            }
        };
        if let Some(h) = self.hooks[id] {
            if let Some(v) = self.hook(st, h, id, args)? {
                return done(self, st, v);
            }
        }
        if self.m.funcs[id].defined.is_none() {
            bad!("call of external function {}", self.m.funcs[id].name)
        }
        if st.frames.len() > 3000 {
            return Err(Stop::Fail("stack overflow: call depth above 3000".into(), vec![]));
        }
        let func = me(self.m.func(id))?;
        self.funcs_seen[id] = true;
        let mut regs = vec![V::I(0); func.nregs as usize];
        for (p, a) in func.params.iter().zip(args) {
            regs[*p as usize] = self.opd(st, a);
        }
        let stack = if func.frame > 0 { st.mem.alloc(func.frame) } else { 0 };
        let fr = Frame { func, regs, bb: 0, ip: 0, stack, ret: *d, normal: *normal };
        let old = std::mem::replace(&mut st.cur, fr);
        st.frames.push(Rc::new(old));
        Ok(Flow::Frame)
    }
    fn arg(&mut self, st: &State, args: &[Opd], i: usize) -> R<u64> {
        let v = self.opd(st, &args[i]);
        self.conc(st, &v)
    }
    fn bytes(&self, st: &State, p: u64, n: usize) -> R<(Vec<u8>, Option<Vec<E>>)> {
        if n == 0 {
            return Ok((vec![], None));
        }
        let (d, s) = me(st.mem.read(p, n))?;
        Ok((d.to_vec(), s.map(|x| x.to_vec())))
    }
    fn byte_at(&mut self, b: &(Vec<u8>, Option<Vec<E>>), i: usize) -> E {
        let s = b.1.as_ref().map_or(0, |s| s[i]);
        self.byte_e(b.0[i], s)
    }
    fn hook(&mut self, st: &mut State, h: Hook, id: usize, args: &[Opd]) -> R<Option<V>> {
        Ok(Some(match h {
            Hook::Malloc => {
                let n = self.arg(st, args, 0)?;
                if n > 1 << 26 {
                    bad!("allocation of {n} bytes")
                }
                V::I(st.mem.alloc(n))
            }
            Hook::Calloc => {
                let n = self.arg(st, args, 0)?;
                let k = self.arg(st, args, 1)?;
                V::I(st.mem.alloc(n * k))
            }
            Hook::PosixMemalign => {
                let p = self.arg(st, args, 0)?;
                let n = self.arg(st, args, 2)?;
                let a = st.mem.alloc(n);
                self.store(st, p, &Ty::Ptr, &V::I(a))?;
                V::I(0)
            }
            Hook::Realloc => {
                let p = self.arg(st, args, 0)?;
                let n = self.arg(st, args, 1)?;
                if n > 1 << 26 {
                    bad!("allocation of {n} bytes")
                }
                if p == 0 {
                    V::I(st.mem.alloc(n))
                } else {
                    V::I(me(st.mem.realloc(p, n))?)
                }
            }
            Hook::Free => {
                let p = self.arg(st, args, 0)?;
                if p != 0 {
                    me(st.mem.free(p))?;
                }
                V::I(0)
            }
            Hook::Bcmp | Hook::Memcmp => {
                let p = self.arg(st, args, 0)?;
                let q = self.arg(st, args, 1)?;
                let n = self.arg(st, args, 2)? as usize;
                let a = self.bytes(st, p, n)?;
                let b = self.bytes(st, q, n)?;
                if h == Hook::Bcmp {
                    let mut acc = self.ar.c(1, 1);
                    for i in 0..n {
                        let (x, y) = (self.byte_at(&a, i), self.byte_at(&b, i));
                        let e = self.ar.eq(x, y);
                        acc = self.ar.bin(Op::And, acc, e);
                        if self.ar.konst(acc) == Some(0) {
                            break;
                        }
                    }
                    let (z, o) = (self.ar.c(32, 0), self.ar.c(32, 1));
                    let r = self.ar.ite(acc, z, o);
                    self.mk(r)
                } else {
                    let mut acc = self.ar.c(32, 0);
                    for i in (0..n).rev() {
                        let (x, y) = (self.byte_at(&a, i), self.byte_at(&b, i));
                        let e = self.ar.eq(x, y);
                        let l = self.ar.bin(Op::Ult, x, y);
                        let (m1, p1) = (self.ar.c(32, 0xffff_ffff), self.ar.c(32, 1));
                        let ne = self.ar.ite(l, m1, p1);
                        acc = self.ar.ite(e, acc, ne);
                    }
                    self.mk(acc)
                }
            }
            Hook::Memcpy | Hook::Memmove => {
                let p = self.arg(st, args, 0)?;
                let q = self.arg(st, args, 1)?;
                let n = self.arg(st, args, 2)? as usize;
                me(st.mem.copy(p, q, n))?;
                V::I(p)
            }
            Hook::Memset => {
                let p = self.arg(st, args, 0)?;
                let c = self.arg(st, args, 1)? as u8;
                let n = self.arg(st, args, 2)? as usize;
                if n > 0 {
                    me(st.mem.write(p, &vec![c; n], None))?;
                }
                V::I(p)
            }
            Hook::Strlen => {
                let p = self.arg(st, args, 0)?;
                let mut i = 0u64;
                loop {
                    let v = self.load_int(st, p + i, 8)?;
                    let z = self.cmp(Pred::Eq, 8, &v, &V::I(0))?;
                    if self.cond(st, &z)? {
                        break;
                    }
                    i += 1;
                }
                V::I(i)
            }
            Hook::Memchr3 | Hook::Memrchr3 => {
                // core::slice::memchr::{memchr_aligned, memrchr_aligned}(x, ptr, len) -> Option<usize>
                if args.len() != 3 {
                    return Ok(None);
                }
                let x = self.opd(st, &args[0]);
                let p = self.arg(st, args, 1)?;
                let n = self.arg(st, args, 2)? as usize;
                let b = self.bytes(st, p, n)?;
                let xe = self.ex(&x, 8)?;
                let mut found = None;
                for k in 0..n {
                    let i = if h == Hook::Memchr3 { k } else { n - 1 - k };
                    let y = self.byte_at(&b, i);
                    let e = self.ar.eq(y, xe);
                    if self.decide(st, e)? {
                        found = Some(i);
                        break;
                    }
                }
                V::A(Rc::new(match found {
                    Some(i) => vec![V::I(1), V::I(i as u64)],
                    None => vec![V::I(0), V::I(0)],
                }))
            }
            Hook::CMemchr | Hook::CMemrchr => {
                let p = self.arg(st, args, 0)?;
                let x = self.opd(st, &args[1]);
                let x = self.cast1(Cast::Trunc, 32, 8, &x)?;
                let n = self.arg(st, args, 2)? as usize;
                let b = self.bytes(st, p, n)?;
                let xe = self.ex(&x, 8)?;
                let mut r = 0;
                for k in 0..n {
                    let i = if h == Hook::CMemchr { k } else { n - 1 - k };
                    let y = self.byte_at(&b, i);
                    let e = self.ar.eq(y, xe);
                    if self.decide(st, e)? {
                        r = p + i as u64;
                        break;
                    }
                }
                V::I(r)
            }
            Hook::CountChars => {
                if args.len() != 2 {
                    return Ok(None);
                }
                let p = self.arg(st, args, 0)?;
                let n = self.arg(st, args, 1)? as usize;
                let b = self.bytes(st, p, n)?;
                let mut c = 0u64;
                for i in 0..n {
                    let y = self.byte_at(&b, i);
                    let mk = self.ar.c(8, 0xc0);
                    let a = self.ar.bin(Op::And, y, mk);
                    let k = self.ar.c(8, 0x80);
                    let e = self.ar.eq(a, k);
                    if !self.decide(st, e)? {
                        c += 1;
                    }
                }
                V::I(c)
            }
            Hook::Utf8Check => return Ok(None),
            Hook::Panic => {
                let mut loc = String::new();
                if let Some(o) = args.last() {
                    if let V::I(p) = self.opd(st, o) {
                        if st.mem.size(p).map_or(false, |s| s >= 24) {
                            if let (Ok(V::I(f)), Ok(V::I(n)), Ok(V::I(l)), Ok(V::I(c))) = (
                                self.load_int(st, p, 64),
                                self.load_int(st, p + 8, 64),
                                self.load_int(st, p + 16, 32),
                                self.load_int(st, p + 20, 32),
                            ) {
                                if n < 400 {
                                    if let Ok((b, _)) = st.mem.read(f, n as usize) {
                                        loc = format!(
                                            "{}:{}:{}",
                                            String::from_utf8_lossy(b).trim_end_matches('\0'),
                                            l,
                                            c
                                        );
                                    }
                                }
                            }
                        }
                    }
                }
                if loc.is_empty() {
                    // name the closest caller
                    loc = format!("in {}", st.cur.func.name);
                    for f in st.frames.iter().rev().take(4) {
                        loc.push_str(" < ");
                        loc.push_str(&f.func.name);
                    }
                }
                let _ = id;
                return Err(Stop::Fail(format!("panic at {loc}"), vec![]));
            }
            Hook::Errno => V::I(st.errno),
            Hook::Getrandom => {
                let p = self.arg(st, args, 0)?;
                let n = self.arg(st, args, 1)? as usize;
                if n > 0 {
                    me(st.mem.write(p, &vec![0x5a; n], None))?;
                }
                V::I(n as u64)
            }
            Hook::Zero => V::I(0),
            // ------------------------------------------------------ harness interface
            Hook::SymSet => {
                // sym_set(ptr, len, bitmap: *const [u64;4])
                let p = self.arg(st, args, 0)?;
                let n = self.arg(st, args, 1)? as usize;
                let q = self.arg(st, args, 2)?;
                let mut d: Dom = [0; 4];
                for i in 0..4 {
                    let v = self.load_int(st, q + 8 * i as u64, 64)?;
                    d[i] = self.conc(st, &v)?;
                }
                if dom_empty(&d) {
                    bad!("empty domain")
                }
                for i in 0..n {
                    let e = self.newvar(st, d)?;
                    if dom_count(&d) == 1 {
                        let k = dom_first(&d).unwrap() as u8;
                        me(st.mem.write(p + i as u64, &[k], None))?;
                    } else {
                        me(st.mem.write(p + i as u64, &[0], Some(&[e])))?;
                    }
                }
                V::I(0)
            }
            Hook::SymChoose => {
                let n = self.arg(st, args, 0)?;
                if n == 0 || n > 256 {
                    bad!("sym_choose({n})")
                }
                let mut d: Dom = [0; 4];
                for x in 0..n as usize {
                    d[x >> 6] |= 1 << (x & 63);
                }
                // the variable is created first; the fork happens when its value is used
                let e = self.newvar(st, d)?;
                if n == 1 {
                    V::I(0)
                } else {
                    let z = self.ar.zext(32, e);
                    V::S(z)
                }
            }
            Hook::SymAssume => {
                let c = self.opd(st, &args[0]);
                let c = self.cmp_ne0(&c, 32)?;
                if !self.cond(st, &c)? {
                    return Err(Stop::Prune);
                }
                V::I(0)
            }
            Hook::SymAssert => {
                let c = self.opd(st, &args[0]);
                let idv = self.arg(st, args, 1)?;
                self.st.asserts += 1;
                st.asserts += 1;
                match self.cmp_ne0(&c, 32)? {
                    V::I(0) => return Err(Stop::Fail(format!("assertion {idv}"), vec![])),
                    V::I(_) => {}
                    V::S(e) => {
                        self.st.assert_queries += 1;
                        if self.sat(st, &[(e, false)])? {
                            return Err(Stop::Fail(format!("assertion {idv}"), vec![(e, false)]));
                        }
                    }
                    _ => bad!("assert"),
                }
                V::I(0)
            }
            Hook::SymEq => {
                // sym_eq(a, alen, b, blen, id)
                let (p, n) = (self.arg(st, args, 0)?, self.arg(st, args, 1)? as usize);
                let (q, k) = (self.arg(st, args, 2)?, self.arg(st, args, 3)? as usize);
                let idv = self.arg(st, args, 4)?;
                self.st.asserts += 1;
                st.asserts += 1;
                let a = self.bytes(st, p, n)?;
                let b = self.bytes(st, q, k)?;
                if n != k {
                    return Err(Stop::Fail(format!("assertion {idv}: lengths {n} and {k}"), vec![]));
                }
                let mut asked = false;
                for i in 0..n {
                    let (x, y) = (self.byte_at(&a, i), self.byte_at(&b, i));
                    if let (Some(c1), Some(c2)) = (self.ar.konst(x), self.ar.konst(y)) {
                        if c1 != c2 {
                            return Err(Stop::Fail(format!("assertion {idv}: byte {i}"), vec![]));
                        }
                        continue;
                    }
                    // one query per byte: its verdict depends on the constraints
                    // related to this byte only, and is reused wherever they recur
                    asked = true;
                    let e = self.ar.raw_eq(x, y);
                    if self.sat(st, &[(e, false)])? {
                        return Err(Stop::Fail(format!("assertion {idv}: byte {i}"), vec![(e, false)]));
                    }
                }
                self.st.assert_queries += asked as u64;
                V::I(0)
            }
            Hook::SymFail => {
                let idv = self.arg(st, args, 0)?;
                self.st.asserts += 1;
                return Err(Stop::Fail(format!("assertion {idv}"), vec![]));
            }
            Hook::SymReach => {
                let idv = self.arg(st, args, 0)?;
                *self.st.reach.entry(idv as u32).or_insert(0) += 1;
                V::I(0)
            }
            Hook::SymMark => V::I(0),
            Hook::SymDone => return Err(Stop::Done),
            Hook::SymArgsInit => {
                // the entry of .init_array that records argc and argv
                let Some(g) = self.m.globals.iter().position(|g| g.name.contains("ARGV_INIT_ARRAY")) else { bad!("no ARGV_INIT_ARRAY") };
                let a = crate::ir::global_addr(g);
                self.load(st, a, &Ty::Ptr)?
            }
            Hook::SymOut => {
                let tag = self.arg(st, args, 0)? as u32;
                let p = self.arg(st, args, 1)?;
                let n = self.arg(st, args, 2)? as usize;
                let (data, sym) = self.bytes(st, p, n)?;
                st.outs.push(Out { tag, data, sym });
                V::I(0)
            }
            Hook::SymJob => V::I(self.job as u64),
            Hook::SymParam => V::I(self.param as u64),
        }))
    }
    fn cmp_ne0(&mut self, v: &V, w: u8) -> R<V> {
        match v {
            V::S(e) => {
                let w = self.ar.w(*e);
                let z = self.ar.c(w, 0);
                let q = self.ar.eq(*e, z);
                let q = self.ar.not1(q);
                Ok(self.mk(q))
            }
            _ => self.cmp(Pred::Ne, w, v, &V::I(0)),
        }
    }
    fn newvar(&mut self, st: &mut State, d: Dom) -> R<E> {
        let ord = st.vars.len();
        let Some(e) = self.ar.var(ord, d) else { bad!("more symbolic bytes than the arena can hold") };
        let v = self.ar.node(e).k as usize;
        st.vars.push(v);
        while st.doms.len() <= v {
            st.doms.push([0; 4]);
        }
        st.doms[v] = d;
        Ok(e)
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, args: &[Opd], tys: &[Ty], ret: &Ty) -> R<V> {
        let n = &n[5..];
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let p = self.arg(st, args, 0)?;
            let q = self.arg(st, args, 1)?;
            let k = self.arg(st, args, 2)? as usize;
            me(st.mem.copy(p, q, k))?;
            return Ok(V::I(0));
        }
        if n.starts_with("load.relative") {
            let p = self.arg(st, args, 0)?;
            let o = self.arg(st, args, 1)?;
            let v = self.load(st, p.wrapping_add(o), &Ty::Int(32))?;
            let v = self.conc(st, &v)?;
            let r = self.m.rel.lock().unwrap();
            let k = v.wrapping_sub(crate::ir::REL) as usize;
            return Ok(V::I(p.wrapping_add(match r.get(k) {
                Some(d) => *d,
                None => v as u32 as i32 as i64 as u64,
            })));
        }
        if n.starts_with("memset") {
            let p = self.arg(st, args, 0)?;
            let k = self.arg(st, args, 2)? as usize;
            let c = self.opd(st, &args[1]);
            if k > 0 {
                match c {
                    V::S(e) => me(st.mem.write(p, &vec![0; k], Some(&vec![e; k])))?,
                    _ => {
                        let c = self.conc(st, &c)? as u8;
                        me(st.mem.write(p, &vec![c; k], None))?
                    }
                }
            }
            return Ok(V::I(0));
        }
        let w = Self::width(tys.first().unwrap_or(&Ty::Void));
        if let Some(Ty::Vec(cnt, et)) = tys.first() {
            if n.starts_with("vector.reduce.") {
                let V::A(x) = self.opd(st, &args[0]) else { bad!("reduce") };
                let op = match n.split('.').nth(2).unwrap_or("") {
                    "add" => Op::Add,
                    "or" => Op::Or,
                    "and" => Op::And,
                    "xor" => Op::Xor,
                    "mul" => Op::Mul,
                    o => bad!("reduce {o}"),
                };
                let mut acc = x[0].clone();
                for y in x.iter().skip(1) {
                    acc = self.bin(op, w, &acc, y)?;
                }
                return Ok(acc);
            }
            // elementwise
            let mut cols = vec![];
            for (a, t) in args.iter().zip(tys) {
                let v = self.opd(st, a);
                cols.push((v, matches!(t, Ty::Vec(..))));
            }
            let mut o = vec![];
            for i in 0..*cnt as usize {
                let mut av = vec![];
                for (v, isv) in &cols {
                    av.push(match (v, isv) {
                        (V::A(x), true) => x[i].clone(),
                        _ => v.clone(),
                    });
                }
                let tv: Vec<Ty> =
                    tys.iter().map(|t| if let Ty::Vec(_, e) = t { (**e).clone() } else { t.clone() }).collect();
                o.push(self.intr1(st, n, &av, &tv, &et.clone())?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        let av: Vec<V> = args.iter().map(|a| self.opd(st, a)).collect();
        self.intr1(st, n, &av, tys, ret)
    }
    fn intr1(&mut self, st: &mut State, n: &str, a: &[V], tys: &[Ty], _ret: &Ty) -> R<V> {
        let w = Self::width(tys.first().unwrap_or(&Ty::Void));
        let base = n.split('.').collect::<Vec<_>>();
        match base[0] {
            "umax" | "umin" | "smax" | "smin" => {
                let p = match base[0] {
                    "umax" => Pred::Ugt,
                    "umin" => Pred::Ult,
                    "smax" => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = self.cmp(p, w, &a[0], &a[1])?;
                self.select1(st, &c, &a[0], &a[1], &Ty::Int(w as u32))
            }
            "fshl" | "fshr" => {
                let s = self.conc(st, &a[2])? % w as u64;
                let left = base[0] == "fshl";
                if s == 0 {
                    return Ok(if left { a[0].clone() } else { a[1].clone() });
                }
                let (l, r) = if left { (s, w as u64 - s) } else { (w as u64 - s, s) };
                let x = self.bin(Op::Shl, w, &a[0], &V::I(l))?;
                let y = self.bin(Op::LShr, w, &a[1], &V::I(r))?;
                self.bin(Op::Or, w, &x, &y)
            }
            "ctpop" | "cttz" | "ctlz" => {
                if let V::S(e) = &a[0] {
                    if self.ar.single(*e).is_none() {
                        // bit masks of byte comparisons: fork on the atoms, lowest bit first
                        let ww = self.ar.w(*e);
                        let mut val = 0u64;
                        for i in 0..ww {
                            let b = self.ar.ext(i, 1, *e);
                            if self.decide(st, b)? {
                                val |= 1 << i;
                                if base[0] == "cttz" {
                                    return Ok(V::I(i as u64));
                                }
                            }
                        }
                        return self.intr1(st, n, &[V::I(val), V::I(0)], tys, _ret);
                    }
                }
                let x = self.conc(st, &a[0])?;
                Ok(V::I(match base[0] {
                    "ctpop" => x.count_ones() as u64,
                    "cttz" => {
                        if x == 0 {
                            w as u64
                        } else {
                            x.trailing_zeros() as u64
                        }
                    }
                    _ => {
                        if x == 0 {
                            w as u64
                        } else {
                            x.leading_zeros() as u64 - (64 - w as u64)
                        }
                    }
                }))
            }
            "bswap" => {
                let x = self.ex(&a[0], w)?;
                let mut e = self.ar.ext(0, 8, x);
                let mut i = 8;
                while i < w {
                    let b = self.ar.ext(i, 8, x);
                    e = self.ar.cat(e, b);
                    i += 8;
                }
                Ok(self.mk(e))
            }
            "bitreverse" => {
                let x = self.ex(&a[0], w)?;
                let mut e = self.ar.ext(0, 1, x);
                for i in 1..w {
                    let b = self.ar.ext(i, 1, x);
                    e = self.ar.cat(e, b);
                }
                Ok(self.mk(e))
            }
            "abs" => {
                let c = self.cmp(Pred::Slt, w, &a[0], &V::I(0))?;
                let ng = self.bin(Op::Sub, w, &V::I(0), &a[0])?;
                self.select1(st, &c, &ng, &a[0], &Ty::Int(w as u32))
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let signed = base[0].starts_with('s');
                let op = match &base[0][1..] {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Mul,
                };
                if base.get(1) == Some(&"sat") {
                    if signed {
                        bad!("{n}")
                    }
                    let r = self.bin(op, w, &a[0], &a[1])?;
                    return match op {
                        Op::Sub => {
                            let c = self.cmp(Pred::Ult, w, &a[0], &a[1])?;
                            self.select1(st, &c, &V::I(0), &r, &Ty::Int(w as u32))
                        }
                        Op::Add => {
                            let c = self.cmp(Pred::Ult, w, &r, &a[0])?;
                            self.select1(st, &c, &V::I(m64(w)), &r, &Ty::Int(w as u32))
                        }
                        _ => bad!("{n}"),
                    };
                }
                // with.overflow
                let r = self.bin(op, w, &a[0], &a[1])?;
                let o = match (op, signed) {
                    (Op::Add, false) => self.cmp(Pred::Ult, w, &r, &a[0])?,
                    (Op::Sub, false) => self.cmp(Pred::Ult, w, &a[0], &a[1])?,
                    _ => {
                        if w > 63 {
                            let (x, y) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                            let ov = if signed {
                                match op {
                                    Op::Add => (x as i64).checked_add(y as i64).is_none(),
                                    Op::Sub => (x as i64).checked_sub(y as i64).is_none(),
                                    _ => (x as i64).checked_mul(y as i64).is_none(),
                                }
                            } else {
                                x.checked_mul(y).is_none()
                            };
                            V::I(ov as u64)
                        } else {
                            let k = if signed { Cast::SExt } else { Cast::ZExt };
                            let ww = (w * 2).min(126);
                            let (x, y) = (self.cast1(k, w, ww, &a[0])?, self.cast1(k, w, ww, &a[1])?);
                            let wide = self.bin(op, ww, &x, &y)?;
                            let rr = self.cast1(k, w, ww, &r)?;
                            self.cmp(Pred::Ne, ww, &wide, &rr)?
                        }
                    }
                };
                Ok(V::A(Rc::new(vec![r, o])))
            }
            "ucmp" | "scmp" => {
                let (lt, gt) = if base[0] == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.cmp(lt, w, &a[0], &a[1])?;
                let g = self.cmp(gt, w, &a[0], &a[1])?;
                let rw = Self::width(_ret);
                let g = self.cast1(Cast::ZExt, 1, rw, &g)?;
                self.select1(st, &l, &V::I(m64(rw)), &g, _ret)
            }
            "expect" => Ok(a[0].clone()),
            "is" => Ok(V::I(0)),
            "threadlocal" => Ok(a[0].clone()),
            "ptrmask" => self.bin(Op::And, 64, &a[0], &a[1]),
            "trap" => Err(Stop::Fail(format!("panic: trap in {}", st.cur.func.name), vec![])),
            "frameaddress" | "returnaddress" => Ok(V::I(0)),
            "fabs" => {
                let x = self.conc(st, &a[0])?;
                Ok(V::I(x & (m64(w) >> 1)))
            }
            _ => bad!("intrinsic llvm.{n}"),
        }
    }
}
