//! Parser and pre-decoder for textual LLVM IR.

use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Label,
    Meta,
    Func,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// store size in bytes
    pub fn store(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    /// allocation size in bytes
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            _ => panic!("field_off on {:?}", self),
        }
    }
    pub fn sub(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("sub on {:?}", self),
        }
    }
}

/// constants (fully evaluated)
#[derive(Clone, Debug)]
pub enum K {
    I(u64),
    L(u128),
    Agg(Vec<K>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(u64),
    K(Arc<K>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
    FpToSi,
    FpToUi,
    SiToFp,
    UiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(usize),
    Intr(String),
    Ind(Opd),
    Asm(String),
}

pub type BB = u32;

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: crate::expr::Op, ty: Ty, w: u8, a: Opd, b: Opd, d: u32 },
    Icmp { p: Pred, ty: Ty, w: u8, a: Opd, b: Opd, d: u32 },
    Cast { k: Cast, from: Ty, to: Ty, a: Opd, d: u32 },
    Select { cty: Ty, c: Opd, a: Opd, b: Opd, ty: Ty, d: u32 },
    Gep { base: Opd, off: i64, idx: Vec<(Opd, i64, u8)>, d: u32 },
    Load { ty: Ty, p: Opd, d: u32 },
    Store { ty: Ty, v: Opd, p: Opd },
    Alloca { off: u64, d: u32 },
    Br { t: BB },
    CondBr { c: Opd, t: BB, f: BB },
    Switch { w: u8, v: Opd, def: BB, cases: Vec<(u64, BB)> },
    Ret { v: Option<Opd> },
    Unreachable,
    Call { f: Callee, args: Vec<Opd>, argtys: Vec<Ty>, d: Option<u32>, ret: Ty, normal: Option<BB>, line: u32 },
    ExtractValue { a: Opd, path: Vec<u32>, d: u32 },
    InsertValue { a: Opd, v: Opd, path: Vec<u32>, d: u32, ty: Ty },
    ExtractElem { a: Opd, i: Opd, d: u32 },
    InsertElem { a: Opd, v: Opd, i: Opd, d: u32, ty: Ty },
    Shuffle { a: Opd, b: Opd, m: Vec<i64>, d: u32, n: u64 },
    Rmw { op: String, ty: Ty, p: Opd, v: Opd, d: u32 },
    CmpXchg { ty: Ty, p: Opd, c: Opd, n: Opd, d: u32 },
    Freeze { a: Opd, d: u32 },
    FBin { op: char, ty: Ty, a: Opd, b: Opd, d: u32 },
    FCmp { p: String, ty: Ty, a: Opd, b: Opd, d: u32 },
    FNeg { ty: Ty, a: Opd, d: u32 },
    Nop,
    Bad(String),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(BB, Opd)>)>,
    pub ins: Vec<Ins>,
    pub name: String,
}

#[derive(Debug)]
pub struct Func {
    pub id: usize,
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub frame: u64,
    pub variadic: bool,
}

pub struct FuncInfo {
    pub name: String,
    pub defined: Option<(usize, usize)>,
    pub weak: bool,
    pub decoded: OnceLock<Result<Arc<Func>, String>>,
}

pub struct GlobalInfo {
    pub name: String,
    pub size: u64,
    pub constant: bool,
    pub init: Vec<u8>,
    pub external: bool,
}

pub struct Module {
    pub text: Vec<u8>,
    pub funcs: Vec<FuncInfo>,
    pub fmap: HashMap<String, usize>,
    pub globals: Vec<GlobalInfo>,
    pub gmap: HashMap<String, usize>,
    pub aliases: HashMap<String, String>,
    pub types: HashMap<String, Ty>,
    pub rel: std::sync::Mutex<Vec<u64>>,
}

/// entries of relative lookup tables: REL + index into Module::rel
pub const REL: u64 = 0x5a00_0000;

pub const FUNC_BASE: u64 = 0x7000_0000_0000_0000;
pub const GLOBAL_ID0: u64 = 16;

pub fn func_addr(i: usize) -> u64 {
    FUNC_BASE + i as u64 * 16
}
pub fn global_addr(i: usize) -> u64 {
    (GLOBAL_ID0 + i as u64) << 32
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Local(String),
    Global(String),
    Word(String),
    Int(i128),
    HexF(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(char),
    Dots,
    Meta(String),
    AttrRef,
    Eof,
}

pub struct Lex<'a> {
    s: &'a [u8],
    i: usize,
    end: usize,
    peeked: Option<Tok>,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a [u8], i: usize, end: usize) -> Self {
        Lex { s, i, end, peeked: None }
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let mut v = vec![];
        while self.i < self.end && self.s[self.i] != b'"' {
            let c = self.s[self.i];
            if c == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    v.push(b'\\');
                    self.i += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                }
            } else {
                v.push(c);
                self.i += 1;
            }
        }
        self.i += 1;
        v
    }
    fn raw(&mut self) -> Tok {
        loop {
            while self.i < self.end && self.s[self.i].is_ascii_whitespace() {
                self.i += 1;
            }
            if self.i < self.end && self.s[self.i] == b';' {
                while self.i < self.end && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            break;
        }
        if self.i >= self.end {
            return Tok::Eof;
        }
        let c = self.s[self.i];
        match c {
            b'%' | b'@' => {
                self.i += 1;
                let name = if self.s[self.i] == b'"' {
                    String::from_utf8_lossy(&self.quoted()).into_owned()
                } else {
                    let st = self.i;
                    while self.i < self.end && is_id(self.s[self.i]) {
                        self.i += 1;
                    }
                    String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
                };
                if c == b'%' {
                    Tok::Local(name)
                } else {
                    Tok::Global(name)
                }
            }
            b'"' => Tok::Str(self.quoted()),
            b'c' if self.i + 1 < self.end && self.s[self.i + 1] == b'"' => {
                self.i += 1;
                Tok::CStr(self.quoted())
            }
            b'!' => {
                self.i += 1;
                let st = self.i;
                while self.i < self.end && (is_id(self.s[self.i]) || self.s[self.i] == b'\\') {
                    self.i += 1;
                }
                Tok::Meta(String::from_utf8_lossy(&self.s[st..self.i]).into_owned())
            }
            b'#' => {
                self.i += 1;
                while self.i < self.end && is_id(self.s[self.i]) {
                    self.i += 1;
                }
                Tok::AttrRef
            }
            b'.' if self.s[self.i..self.end].starts_with(b"...") => {
                self.i += 3;
                Tok::Dots
            }
            b'+' | b'-' | b'0'..=b'9' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.end
                    && (self.s[self.i].is_ascii_alphanumeric()
                        || self.s[self.i] == b'.'
                        || ((self.s[self.i] == b'+' || self.s[self.i] == b'-')
                            && (self.s[self.i - 1] == b'e')))
                {
                    self.i += 1;
                }
                // `+nan(0x...)`, `+snan(0x...)`
                if self.i < self.end && self.s[self.i] == b'(' && self.s[self.i - 1] == b'n' {
                    while self.i < self.end && self.s[self.i] != b')' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                match t.parse::<i128>() {
                    Ok(v) => Tok::Int(v),
                    Err(_) => match t.parse::<u128>() {
                        Ok(v) => Tok::Int(v as i128),
                        Err(_) => Tok::HexF(t.to_string()),
                    },
                }
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' => {
                let st = self.i;
                while self.i < self.end && is_id(self.s[self.i]) {
                    self.i += 1;
                }
                Tok::Word(String::from_utf8_lossy(&self.s[st..self.i]).into_owned())
            }
            _ => {
                self.i += 1;
                Tok::P(c as char)
            }
        }
    }
    pub fn peek(&mut self) -> &Tok {
        if self.peeked.is_none() {
            let t = self.raw();
            self.peeked = Some(t);
        }
        self.peeked.as_ref().unwrap()
    }
    pub fn next(&mut self) -> Tok {
        match self.peeked.take() {
            Some(t) => t,
            None => self.raw(),
        }
    }
    pub fn is(&mut self, c: char) -> bool {
        if *self.peek() == Tok::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn word(&mut self, w: &str) -> bool {
        if matches!(self.peek(), Tok::Word(x) if x == w) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: char) -> Result<(), String> {
        let t = self.next();
        if t == Tok::P(c) {
            Ok(())
        } else {
            Err(format!("expected '{}', got {:?} near {}", c, t, self.context()))
        }
    }
    pub fn context(&self) -> String {
        let a = self.i.saturating_sub(80);
        let b = (self.i + 40).min(self.s.len());
        String::from_utf8_lossy(&self.s[a..b]).into_owned()
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => return,
                _ => {}
            }
        }
    }
}

fn type_word(w: &str) -> bool {
    (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
        || matches!(
            w,
            "ptr" | "void" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "label" | "metadata" | "bfloat"
        )
}

impl Module {
    pub fn load(path: &str) -> Result<Module, String> {
        let text = std::fs::read(path).map_err(|e| format!("{path}: {e}"))?;
        let mut m = Module {
            text: vec![],
            funcs: vec![],
            fmap: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            rel: Default::default(),
            aliases: HashMap::new(),
            types: HashMap::new(),
        };
        // pass 1: index
        let mut i = 0;
        let n = text.len();
        let mut gl: Vec<(usize, usize)> = vec![];
        let mut tys: Vec<(usize, usize)> = vec![];
        while i < n {
            let e = text[i..].iter().position(|&c| c == b'\n').map(|k| i + k).unwrap_or(n);
            let line = &text[i..e];
            if line.starts_with(b"define ") {
                // find the closing "\n}\n"
                let mut j = e;
                loop {
                    if j >= n {
                        break;
                    }
                    if text[j] == b'\n' && text.get(j + 1) == Some(&b'}') {
                        j += 2;
                        break;
                    }
                    j += 1;
                }
                let name = fname(line).ok_or("function name")?;
                let id = m.funcs.len();
                m.fmap.insert(name.clone(), id);
                m.funcs.push(FuncInfo { name, defined: Some((i, j)), weak: false, decoded: OnceLock::new() });
                i = j;
                continue;
            } else if line.starts_with(b"declare ") {
                let name = fname(line).ok_or("function name")?;
                let weak = contains(line, b" extern_weak ");
                let id = m.funcs.len();
                m.fmap.insert(name.clone(), id);
                m.funcs.push(FuncInfo { name, defined: None, weak, decoded: OnceLock::new() });
            } else if line.starts_with(b"@") {
                gl.push((i, e));
            } else if line.starts_with(b"%") {
                tys.push((i, e));
            }
            i = e + 1;
        }
        m.text = text;
        for (a, b) in tys {
            let (name, ty) = {
                let mut lx = Lex::new(&m.text, a, b);
                let nm = match lx.next() {
                    Tok::Local(s) => s,
                    _ => continue,
                };
                lx.expect('=')?;
                lx.next(); // type
                if lx.word("opaque") {
                    (nm, Ty::Struct(vec![], false))
                } else {
                    (nm.clone(), m.ty(&mut lx)?)
                }
            };
            m.types.insert(name, ty);
        }
        // globals: assign ids first
        let mut pend = vec![];
        for (a, b) in gl {
            let mut lx = Lex::new(&m.text, a, b);
            let nm = match lx.next() {
                Tok::Global(s) => s,
                _ => continue,
            };
            lx.expect('=')?;
            let mut external = false;
            let mut alias = false;
            let mut constant = false;
            loop {
                match lx.next() {
                    Tok::Word(w) => match w.as_str() {
                        "global" => break,
                        "constant" => {
                            constant = true;
                            break;
                        }
                        "alias" => {
                            alias = true;
                            break;
                        }
                        "external" | "extern_weak" => external = true,
                        "thread_local" => {
                            if lx.is('(') {
                                lx.next();
                                lx.expect(')')?;
                            }
                        }
                        _ => {}
                    },
                    Tok::P('(') => {}
                    Tok::P(')') => {}
                    Tok::Int(_) => {}
                    Tok::Eof => return Err(format!("global {nm}")),
                    _ => {}
                }
            }
            if alias {
                // alias ty, ptr @target
                let mut target = None;
                loop {
                    match lx.next() {
                        Tok::Global(t) => target = Some(t),
                        Tok::Eof => break,
                        _ => {}
                    }
                }
                if let Some(t) = target {
                    m.aliases.insert(nm, t);
                }
                continue;
            }
            let id = m.globals.len();
            m.gmap.insert(nm.clone(), id);
            let pos = match &lx.peeked {
                None => lx.i,
                Some(_) => unreachable!(),
            };
            m.globals.push(GlobalInfo { name: nm, size: 0, constant, init: vec![], external });
            pend.push((id, pos, b));
        }
        for (id, a, b) in pend {
            let (size, init) = {
                let mut lx = Lex::new(&m.text, a, b);
                let ty = m.ty(&mut lx)?;
                let mut out = vec![];
                if !m.globals[id].external && !matches!(lx.peek(), Tok::Eof | Tok::P(',')) {
                    m.const_bytes(&mut lx, &ty, &mut out).map_err(|e| {
                        format!("initializer of {}: {}", m.globals[id].name, e)
                    })?;
                }
                out.resize(ty.size() as usize, 0);
                (ty.size(), out)
            };
            m.globals[id].size = size;
            m.globals[id].init = init;
        }
        Ok(m)
    }

    pub fn ty(&self, lx: &mut Lex) -> Result<Ty, String> {
        let t = lx.next();
        let mut ty = match t {
            Tok::Word(w) => match w.as_str() {
                "ptr" => {
                    if lx.word("addrspace") {
                        lx.skip_parens();
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                "half" | "bfloat" => Ty::Int(16),
                "fp128" => Ty::Int(128),
                "x86_fp80" => Ty::Int(80),
                "target" => {
                    lx.skip_parens();
                    Ty::Ptr
                }
                w if type_word(w) => Ty::Int(w[1..].parse().unwrap()),
                w => return Err(format!("type word {w} near {}", lx.context())),
            },
            Tok::Local(n) => {
                self.types.get(&n).cloned().ok_or_else(|| format!("unknown type %{n}"))?
            }
            Tok::P('[') => {
                let n = match lx.next() {
                    Tok::Int(n) => n as u64,
                    t => return Err(format!("array len {t:?}")),
                };
                lx.next();
                let e = self.ty(lx)?;
                lx.expect(']')?;
                Ty::Arr(n, Box::new(e))
            }
            Tok::P('{') => {
                let mut f = vec![];
                if !lx.is('}') {
                    loop {
                        f.push(self.ty(lx)?);
                        if lx.is(',') {
                            continue;
                        }
                        lx.expect('}')?;
                        break;
                    }
                }
                Ty::Struct(f, false)
            }
            Tok::P('<') => {
                if lx.is('{') {
                    let mut f = vec![];
                    if !lx.is('}') {
                        loop {
                            f.push(self.ty(lx)?);
                            if lx.is(',') {
                                continue;
                            }
                            lx.expect('}')?;
                            break;
                        }
                    }
                    lx.expect('>')?;
                    Ty::Struct(f, true)
                } else {
                    let n = match lx.next() {
                        Tok::Int(n) => n as u64,
                        t => return Err(format!("vector len {t:?}")),
                    };
                    lx.next();
                    let e = self.ty(lx)?;
                    lx.expect('>')?;
                    Ty::Vec(n, Box::new(e))
                }
            }
            t => return Err(format!("type token {t:?} near {}", lx.context())),
        };
        // function type suffix: ret (args)
        if *lx.peek() == Tok::P('(') && !matches!(ty, Ty::Label) {
            // only used for explicit callee function types; caller checks
            // we cannot tell here; leave it
        }
        if false {
            ty = Ty::Func;
        }
        Ok(ty)
    }

    pub fn sym_addr(&self, n: &str) -> Result<u64, String> {
        let mut n = n;
        while let Some(t) = self.aliases.get(n) {
            n = t;
        }
        if let Some(&f) = self.fmap.get(n) {
            if self.funcs[f].defined.is_none() && self.funcs[f].weak && !crate::exec::is_modelled(n) {
                return Ok(0);
            }
            return Ok(func_addr(f));
        }
        if let Some(&g) = self.gmap.get(n) {
            if self.globals[g].external && self.globals[g].name.starts_with("__dso") {
                return Ok(0);
            }
            return Ok(global_addr(g));
        }
        Err(format!("unknown symbol @{n}"))
    }

    /// integer-valued constant (also pointers)
    fn const_int(&self, lx: &mut Lex, ty: &Ty) -> Result<u128, String> {
        let w = match ty {
            Ty::Int(w) => *w as u8,
            Ty::Ptr => 64,
            Ty::F64 => 64,
            Ty::F32 => 32,
            _ => return Err(format!("const_int of {ty:?}")),
        };
        let m = crate::expr::mask(w);
        let t = lx.next();
        Ok(match t {
            Tok::Int(v) => {
                if *ty == Ty::F64 {
                    (v as f64).to_bits() as u128
                } else if *ty == Ty::F32 {
                    (v as f32).to_bits() as u128
                } else {
                    v as u128 & m
                }
            }
            Tok::HexF(s) => {
                let neg = s.starts_with('-');
                let body = s.trim_start_matches(['+', '-']);
                let special = if body == "inf" {
                    Some((0u64, false))
                } else if body == "qnan" {
                    Some((0, true))
                } else if let Some(h) = body.strip_prefix("nan(0x").or(body.strip_prefix("snan(0x")) {
                    let v = u64::from_str_radix(h.trim_end_matches(')'), 16).map_err(|e| format!("{s}: {e}"))?;
                    Some((v, body.starts_with("nan")))
                } else {
                    None
                };
                if let Some((payload, quiet)) = special {
                    let (e, m) = if *ty == Ty::F32 { (0xffu64 << 23, 22) } else { (0x7ffu64 << 52, 51) };
                    let sign = if *ty == Ty::F32 { 31 } else { 63 };
                    (e | payload | ((quiet as u64) << m) | ((neg as u64) << sign)) as u128
                } else if let Some(h) = s.strip_prefix("0x") {
                    let bits = u64::from_str_radix(h.trim_start_matches(['K', 'L', 'M', 'H', 'R']), 16)
                        .map_err(|e| format!("{s}: {e}"))?;
                    if *ty == Ty::F32 {
                        (f64::from_bits(bits) as f32).to_bits() as u128
                    } else {
                        bits as u128
                    }
                } else {
                    let f: f64 = s.parse().map_err(|_| format!("number {s}"))?;
                    if *ty == Ty::F32 {
                        (f as f32).to_bits() as u128
                    } else {
                        f.to_bits() as u128
                    }
                }
            }
            Tok::Word(wd) if wd.starts_with("f0x") => {
                u64::from_str_radix(&wd[3..], 16).map_err(|e| format!("{wd}: {e}"))? as u128
            }
            Tok::Word(wd) => match wd.as_str() {
                "true" => 1,
                "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" => 0,
                "getelementptr" => {
                    while matches!(lx.peek(), Tok::Word(_)) {
                        let Tok::Word(w) = lx.next() else { unreachable!() };
                        if w == "inrange" {
                            lx.skip_parens();
                        }
                    }
                    lx.expect('(')?;
                    let ety = self.ty(lx)?;
                    lx.expect(',')?;
                    let bty = self.ty(lx)?;
                    let mut addr = self.const_int(lx, &bty)? as u64;
                    let mut cur = ety;
                    let mut first = true;
                    while lx.is(',') {
                        lx.word("inrange");
                        let ity = self.ty(lx)?;
                        let Ty::Int(iw) = ity else { return Err("gep idx".into()) };
                        let v = crate::expr::sext(self.const_int(lx, &ity)?, iw as u8) as i64;
                        if first {
                            addr = addr.wrapping_add((cur.size() as i64).wrapping_mul(v) as u64);
                            first = false;
                        } else {
                            addr = addr.wrapping_add(cur.field_off(v as usize));
                            cur = cur.sub(v as usize);
                        }
                    }
                    lx.expect(')')?;
                    addr as u128
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "sext" | "ptrtoaddr" => {
                    while matches!(lx.peek(), Tok::Word(_)) {
                        lx.next();
                    }
                    lx.expect('(')?;
                    let fty = self.ty(lx)?;
                    let v = self.const_int(lx, &fty)?;
                    lx.next(); // to
                    let _ = self.ty(lx)?;
                    lx.expect(')')?;
                    if wd == "sext" {
                        if let Ty::Int(fw) = fty {
                            crate::expr::sext(v, fw as u8) as u128 & m
                        } else {
                            v & m
                        }
                    } else if wd == "trunc" && w == 32 && (v as u64) >> 32 != 0 {
                        // the distance of two objects: known to llvm.load.relative only
                        let mut r = self.rel.lock().unwrap();
                        r.push(v as u64);
                        (REL + r.len() as u64 - 1) as u128
                    } else {
                        v & m
                    }
                }
                "sub" | "add" | "xor" | "mul" | "and" | "or" | "shl" | "lshr" => {
                    while matches!(lx.peek(), Tok::Word(_)) {
                        lx.next();
                    }
                    lx.expect('(')?;
                    let t1 = self.ty(lx)?;
                    let a = self.const_int(lx, &t1)?;
                    lx.expect(',')?;
                    let t2 = self.ty(lx)?;
                    let b = self.const_int(lx, &t2)?;
                    lx.expect(')')?;
                    (match wd.as_str() {
                        "sub" => a.wrapping_sub(b),
                        "add" => a.wrapping_add(b),
                        "xor" => a ^ b,
                        "and" => a & b,
                        "or" => a | b,
                        "shl" => a << b,
                        "lshr" => a >> b,
                        _ => a.wrapping_mul(b),
                    }) & m
                }
                "dso_local_equivalent" | "no_cfi" => {
                    let Tok::Global(g) = lx.next() else { return Err("dso".into()) };
                    self.sym_addr(&g)? as u128
                }
                _ => return Err(format!("constant word {wd} near {}", lx.context())),
            },
            Tok::Global(g) => self.sym_addr(&g)? as u128,
            t => return Err(format!("constant token {t:?} near {}", lx.context())),
        })
    }

    fn const_bytes(&self, lx: &mut Lex, ty: &Ty, out: &mut Vec<u8>) -> Result<(), String> {
        let start = out.len();
        if matches!(lx.peek(), Tok::Word(w) if matches!(w.as_str(), "zeroinitializer"|"undef"|"poison")) {
            lx.next();
            out.resize(start + ty.size() as usize, 0);
            return Ok(());
        }
        match ty {
            Ty::Arr(n, et) => {
                if let Tok::CStr(_) = lx.peek() {
                    let Tok::CStr(b) = lx.next() else { unreachable!() };
                    out.extend_from_slice(&b);
                } else {
                    lx.expect('[')?;
                    for i in 0..*n {
                        if i > 0 {
                            lx.expect(',')?;
                        }
                        let t = self.ty(lx)?;
                        self.const_bytes(lx, &t, out)?;
                        let _ = et;
                    }
                    lx.expect(']')?;
                }
            }
            Ty::Vec(n, et) => {
                if lx.word("splat") {
                    lx.expect('(')?;
                    let t = self.ty(lx)?;
                    let mut one = vec![];
                    self.const_bytes(lx, &t, &mut one)?;
                    lx.expect(')')?;
                    for _ in 0..*n {
                        out.extend_from_slice(&one);
                    }
                } else {
                    lx.expect('<')?;
                    for i in 0..*n {
                        if i > 0 {
                            lx.expect(',')?;
                        }
                        let t = self.ty(lx)?;
                        self.const_bytes(lx, &t, out)?;
                        let _ = et;
                    }
                    lx.expect('>')?;
                }
            }
            Ty::Struct(f, packed) => {
                if *packed {
                    lx.expect('<')?;
                }
                lx.expect('{')?;
                for (i, _) in f.iter().enumerate() {
                    if i > 0 {
                        lx.expect(',')?;
                    }
                    let off = start + ty.field_off(i) as usize;
                    out.resize(off, 0);
                    let t = self.ty(lx)?;
                    self.const_bytes(lx, &t, out)?;
                }
                lx.expect('}')?;
                if *packed {
                    lx.expect('>')?;
                }
            }
            _ => {
                let v = self.const_int(lx, ty)?;
                let n = ty.size() as usize;
                out.extend_from_slice(&v.to_le_bytes()[..n.min(16)]);
            }
        }
        out.resize(start + ty.size() as usize, 0);
        Ok(())
    }

    fn zero(ty: &Ty) -> K {
        match ty {
            Ty::Int(w) if *w > 64 => K::L(0),
            Ty::Arr(n, t) | Ty::Vec(n, t) => K::Agg((0..*n).map(|_| Self::zero(t)).collect()),
            Ty::Struct(f, _) => K::Agg(f.iter().map(Self::zero).collect()),
            _ => K::I(0),
        }
    }

    fn const_val(&self, lx: &mut Lex, ty: &Ty) -> Result<K, String> {
        if matches!(lx.peek(), Tok::Word(w) if matches!(w.as_str(), "zeroinitializer"|"undef"|"poison")) {
            lx.next();
            return Ok(Self::zero(ty));
        }
        Ok(match ty {
            Ty::Arr(n, et) => {
                if let Tok::CStr(_) = lx.peek() {
                    let Tok::CStr(b) = lx.next() else { unreachable!() };
                    return Ok(K::Agg(b.iter().map(|x| K::I(*x as u64)).collect()));
                }
                lx.expect('[')?;
                let mut v = vec![];
                for i in 0..*n {
                    if i > 0 {
                        lx.expect(',')?;
                    }
                    let t = self.ty(lx)?;
                    v.push(self.const_val(lx, &t)?);
                    let _ = et;
                }
                lx.expect(']')?;
                K::Agg(v)
            }
            Ty::Vec(n, _) => {
                if lx.word("splat") {
                    lx.expect('(')?;
                    let t = self.ty(lx)?;
                    let k = self.const_val(lx, &t)?;
                    lx.expect(')')?;
                    return Ok(K::Agg(vec![k; *n as usize]));
                }
                lx.expect('<')?;
                let mut v = vec![];
                for i in 0..*n {
                    if i > 0 {
                        lx.expect(',')?;
                    }
                    let t = self.ty(lx)?;
                    v.push(self.const_val(lx, &t)?);
                }
                lx.expect('>')?;
                K::Agg(v)
            }
            Ty::Struct(f, packed) => {
                if *packed {
                    lx.expect('<')?;
                }
                lx.expect('{')?;
                let mut v = vec![];
                for i in 0..f.len() {
                    if i > 0 {
                        lx.expect(',')?;
                    }
                    let t = self.ty(lx)?;
                    v.push(self.const_val(lx, &t)?);
                }
                lx.expect('}')?;
                if *packed {
                    lx.expect('>')?;
                }
                K::Agg(v)
            }
            Ty::Int(w) if *w > 64 => K::L(self.const_int(lx, ty)?),
            _ => K::I(self.const_int(lx, ty)? as u64),
        })
    }

    pub fn func(&self, id: usize) -> Result<Arc<Func>, String> {
        self.funcs[id]
            .decoded
            .get_or_init(|| self.decode(id).map(Arc::new).map_err(|e| format!("{}: {}", self.funcs[id].name, e)))
            .clone()
    }

    fn decode(&self, id: usize) -> Result<Func, String> {
        let (a, b) = self.funcs[id].defined.ok_or("declared only")?;
        let text = &self.text;
        // header line
        let he = text[a..].iter().position(|&c| c == b'\n').unwrap() + a;
        let mut d = Dec {
            m: self,
            regs: HashMap::new(),
            blocks: HashMap::new(),
            frame: 0,
        };
        let mut params = vec![];
        let mut variadic = false;
        {
            let mut lx = Lex::new(text, a, he);
            // skip to the function name
            loop {
                match lx.next() {
                    Tok::Global(_) => break,
                    Tok::Eof => return Err("header".into()),
                    _ => {}
                }
            }
            lx.expect('(')?;
            let mut unnamed = 0;
            if !lx.is(')') {
                loop {
                    if *lx.peek() == Tok::Dots {
                        lx.next();
                        variadic = true;
                        lx.expect(')')?;
                        break;
                    }
                    let _ty = self.ty(&mut lx)?;
                    skip_attrs(&mut lx);
                    match lx.peek().clone() {
                        Tok::Local(n) => {
                            lx.next();
                            if n.bytes().all(|c| c.is_ascii_digit()) {
                                unnamed = n.parse::<u32>().unwrap() + 1;
                            }
                            params.push(d.reg(&n));
                        }
                        _ => {
                            params.push(d.reg(&unnamed.to_string()));
                            unnamed += 1;
                        }
                    }
                    if lx.is(',') {
                        continue;
                    }
                    lx.expect(')')?;
                    break;
                }
            }
            d.blocks.insert(format!("\u{0}entry{}", unnamed), 0);
            d.blocks.insert(unnamed.to_string(), 0);
        }
        // split into blocks of instruction text
        let mut segs: Vec<(String, Vec<(usize, usize)>)> = vec![];
        let mut i = he + 1;
        while i < b {
            let e = text[i..b].iter().position(|&c| c == b'\n').map(|k| k + i).unwrap_or(b);
            let line = &text[i..e];
            if line.is_empty() || line == b"}" || line[0] == b';' {
                i = e + 1;
                continue;
            }
            if line[0] != b' ' && line[0] != b'\t' && line[0] != b']' && line[0] != b'}' {
                // label
                let mut lx = Lex::new(text, i, e);
                let name = if line[0] == b'"' {
                    String::from_utf8_lossy(&lx.quoted()).into_owned()
                } else {
                    let k = line.iter().position(|&c| c == b':').ok_or("label")?;
                    String::from_utf8_lossy(&line[..k]).into_owned()
                };
                if segs.is_empty() {
                    // the first block is labelled: forget the implicit number
                    d.blocks.clear();
                }
                segs.push((name, vec![]));
            } else {
                if segs.is_empty() {
                    segs.push(("\u{0}entry".into(), vec![]));
                }
                let tl = line.iter().position(|c| !c.is_ascii_whitespace()).unwrap_or(0);
                let t = &line[tl..];
                if t.starts_with(b"#dbg_") || t.is_empty() || t.starts_with(b";") {
                    i = e + 1;
                    continue;
                }
                let s = segs.last_mut().unwrap();
                // continuation lines: switch cases / landingpad clauses / invoke targets
                let cont = line.starts_with(b"    ") || t.starts_with(b"]");
                if cont && !s.1.is_empty() {
                    s.1.last_mut().unwrap().1 = e;
                } else {
                    s.1.push((i, e));
                }
            }
            i = e + 1;
        }
        for (k, (name, _)) in segs.iter().enumerate() {
            if !(k == 0 && name.starts_with('\u{0}')) {
                d.blocks.insert(name.clone(), k as u32);
            }
        }
        let mut blocks = vec![];
        for (name, lines) in &segs {
            let mut bl = Block { phis: vec![], ins: vec![], name: name.clone() };
            for &(s, e) in lines {
                let mut lx = Lex::new(text, s, e);
                match d.inst(&mut lx, &mut bl) {
                    Ok(()) => {}
                    Err(err) => {
                        bl.ins.push(Ins::Bad(format!(
                            "{}: {}",
                            err,
                            String::from_utf8_lossy(&text[s..e.min(s + 200)])
                        )));
                    }
                }
            }
            blocks.push(bl);
        }
        Ok(Func {
            id,
            name: self.funcs[id].name.clone(),
            nregs: d.regs.len() as u32,
            params,
            blocks,
            frame: d.frame,
            variadic,
        })
    }
}

fn contains(h: &[u8], n: &[u8]) -> bool {
    h.windows(n.len()).any(|w| w == n)
}

fn fname(line: &[u8]) -> Option<String> {
    // the first @name followed by '('
    let mut i = 0;
    while i < line.len() {
        if line[i] == b'@' {
            let mut lx = Lex::new(line, i, line.len());
            if let Tok::Global(n) = lx.next() {
                return Some(n);
            }
        }
        if line[i] == b'"' {
            i += 1;
            while i < line.len() && line[i] != b'"' {
                i += 1;
            }
        }
        i += 1;
    }
    None
}

fn skip_attrs(lx: &mut Lex) {
    loop {
        match lx.peek().clone() {
            Tok::Word(w) => {
                if w == "align" {
                    lx.next();
                    if lx.is('(') {
                        lx.next();
                        lx.next();
                    } else {
                        lx.next();
                    }
                    continue;
                }
                // constants / expressions are not attributes
                if matches!(
                    w.as_str(),
                    "true"
                        | "false"
                        | "null"
                        | "undef"
                        | "poison"
                        | "zeroinitializer"
                        | "none"
                        | "getelementptr"
                        | "ptrtoint"
                        | "inttoptr"
                        | "bitcast"
                        | "trunc"
                        | "zext"
                        | "sub"
                        | "add"
                        | "xor"
                        | "splat"
                        | "asm"
                        | "dso_local_equivalent"
                        | "ptrtoaddr"
                        | "mul"
                ) || type_word(&w)
                {
                    return;
                }
                lx.next();
                if *lx.peek() == Tok::P('(') {
                    lx.skip_parens();
                }
            }
            Tok::Str(_) => {
                lx.next();
                if lx.is('=') {
                    lx.next();
                }
            }
            Tok::AttrRef => {
                lx.next();
            }
            _ => return,
        }
    }
}

struct Dec<'a> {
    m: &'a Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    frame: u64,
}

impl<'a> Dec<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn opd(&mut self, lx: &mut Lex, ty: &Ty) -> Result<Opd, String> {
        if let Tok::Local(n) = lx.peek().clone() {
            lx.next();
            return Ok(Opd::R(self.reg(&n)));
        }
        Ok(match self.m.const_val(lx, ty)? {
            K::I(v) => Opd::C(v),
            k => Opd::K(Arc::new(k)),
        })
    }
    fn topd(&mut self, lx: &mut Lex) -> Result<(Ty, Opd), String> {
        let t = self.m.ty(lx)?;
        let o = self.opd(lx, &t)?;
        Ok((t, o))
    }
    fn label(&mut self, lx: &mut Lex) -> Result<BB, String> {
        if !lx.word("label") {
            return Err("label".into());
        }
        match lx.next() {
            Tok::Local(n) => self.blocks.get(&n).copied().ok_or(format!("no block {n}")),
            t => Err(format!("label {t:?}")),
        }
    }
    fn iw(ty: &Ty) -> u8 {
        match ty {
            Ty::Int(w) => *w as u8,
            Ty::Ptr => 64,
            Ty::Vec(_, t) => Self::iw(t),
            Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    fn inst(&mut self, lx: &mut Lex, bl: &mut Block) -> Result<(), String> {
        use crate::expr::Op as X;
        let mut dname = None;
        if let Tok::Local(n) = lx.peek().clone() {
            lx.next();
            lx.expect('=')?;
            dname = Some(n);
        }
        let op = match lx.next() {
            Tok::Word(w) => w,
            t => return Err(format!("opcode {t:?}")),
        };
        let d = match &dname {
            Some(n) => self.reg(n),
            None => u32::MAX,
        };
        let flags = |lx: &mut Lex| loop {
            match lx.peek().clone() {
                Tok::Word(w)
                    if matches!(
                        w.as_str(),
                        "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw"
                            | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "reassoc" | "afn"
                    ) =>
                {
                    lx.next();
                }
                _ => break,
            }
        };
        let ins = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or"
            | "xor" => {
                flags(lx);
                let ty = self.m.ty(lx)?;
                let a = self.opd(lx, &ty)?;
                lx.expect(',')?;
                let b = self.opd(lx, &ty)?;
                let o = match op.as_str() {
                    "add" => X::Add,
                    "sub" => X::Sub,
                    "mul" => X::Mul,
                    "udiv" => X::UDiv,
                    "sdiv" => X::SDiv,
                    "urem" => X::URem,
                    "srem" => X::SRem,
                    "shl" => X::Shl,
                    "lshr" => X::LShr,
                    "ashr" => X::AShr,
                    "and" => X::And,
                    "or" => X::Or,
                    _ => X::Xor,
                };
                Ins::Bin { op: o, w: Self::iw(&ty), ty, a, b, d }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                flags(lx);
                let ty = self.m.ty(lx)?;
                let a = self.opd(lx, &ty)?;
                lx.expect(',')?;
                let b = self.opd(lx, &ty)?;
                Ins::FBin { op: op.as_bytes()[1] as char, ty, a, b, d }
            }
            "fneg" => {
                flags(lx);
                let (ty, a) = self.topd(lx)?;
                Ins::FNeg { ty, a, d }
            }
            "fcmp" => {
                flags(lx);
                let p = match lx.next() {
                    Tok::Word(w) => w,
                    t => return Err(format!("fcmp {t:?}")),
                };
                let ty = self.m.ty(lx)?;
                let a = self.opd(lx, &ty)?;
                lx.expect(',')?;
                let b = self.opd(lx, &ty)?;
                Ins::FCmp { p, ty, a, b, d }
            }
            "icmp" => {
                flags(lx);
                let p = match lx.next() {
                    Tok::Word(w) => match w.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => return Err(format!("icmp {w}")),
                    },
                    t => return Err(format!("icmp {t:?}")),
                };
                let ty = self.m.ty(lx)?;
                let a = self.opd(lx, &ty)?;
                lx.expect(',')?;
                let b = self.opd(lx, &ty)?;
                Ins::Icmp { p, w: Self::iw(&ty), ty, a, b, d }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "fptosi"
            | "fptoui" | "sitofp" | "uitofp" | "fpext" | "fptrunc" | "ptrtoaddr" => {
                flags(lx);
                let (from, a) = self.topd(lx)?;
                if !lx.word("to") {
                    return Err("cast to".into());
                }
                let to = self.m.ty(lx)?;
                let k = match op.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        let (f, t) = (Self::iw(&from), Self::iw(&to));
                        if f > t {
                            Cast::Trunc
                        } else if f < t {
                            Cast::ZExt
                        } else {
                            Cast::Bit
                        }
                    }
                    "fptosi" => Cast::FpToSi,
                    "fptoui" => Cast::FpToUi,
                    "sitofp" => Cast::SiToFp,
                    "uitofp" => Cast::UiToFp,
                    "fpext" => Cast::FpExt,
                    "fptrunc" => Cast::FpTrunc,
                    _ => Cast::Bit,
                };
                Ins::Cast { k, from, to, a, d }
            }
            "select" => {
                flags(lx);
                let (cty, c) = self.topd(lx)?;
                lx.expect(',')?;
                let (ty, a) = self.topd(lx)?;
                lx.expect(',')?;
                let (_, b) = self.topd(lx)?;
                Ins::Select { cty, c, a, b, ty, d }
            }
            "freeze" => {
                let (_, a) = self.topd(lx)?;
                Ins::Freeze { a, d }
            }
            "phi" => {
                flags(lx);
                let ty = self.m.ty(lx)?;
                let mut v = vec![];
                loop {
                    lx.expect('[')?;
                    let o = self.opd(lx, &ty)?;
                    lx.expect(',')?;
                    let b = match lx.next() {
                        Tok::Local(n) => self.blocks.get(&n).copied().ok_or(format!("phi block {n}"))?,
                        t => return Err(format!("phi {t:?}")),
                    };
                    lx.expect(']')?;
                    v.push((b, o));
                    if *lx.peek() == Tok::P(',') {
                        lx.next();
                        if *lx.peek() == Tok::P('[') {
                            continue;
                        }
                    }
                    break;
                }
                bl.phis.push((d, v));
                return Ok(());
            }
            "alloca" => {
                lx.word("inalloca");
                let ty = self.m.ty(lx)?;
                let mut align = ty.align().max(8);
                let mut count = 1u64;
                while lx.is(',') {
                    if lx.word("align") {
                        if let Tok::Int(n) = lx.next() {
                            align = align.max(n as u64);
                        }
                    } else if matches!(lx.peek(), Tok::Meta(_)) {
                        lx.next();
                        if matches!(lx.peek(), Tok::Meta(_)) {
                            lx.next();
                        }
                    } else {
                        let t = self.m.ty(lx)?;
                        match self.opd(lx, &t)? {
                            Opd::C(n) => count = n,
                            _ => return Err("dynamic alloca".into()),
                        }
                    }
                }
                self.frame = (self.frame + align - 1) / align * align;
                let off = self.frame;
                self.frame += (ty.size() * count).max(1);
                Ins::Alloca { off, d }
            }
            "load" => {
                lx.word("atomic");
                lx.word("volatile");
                let ty = self.m.ty(lx)?;
                lx.expect(',')?;
                let (_, p) = self.topd(lx)?;
                Ins::Load { ty, p, d }
            }
            "store" => {
                lx.word("atomic");
                lx.word("volatile");
                let (ty, v) = self.topd(lx)?;
                lx.expect(',')?;
                let (_, p) = self.topd(lx)?;
                Ins::Store { ty, v, p }
            }
            "getelementptr" => {
                flags(lx);
                if lx.word("inrange") {
                    lx.skip_parens();
                }
                let ety = self.m.ty(lx)?;
                lx.expect(',')?;
                let (bt, base) = self.topd(lx)?;
                if bt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = ety;
                let mut first = true;
                while lx.is(',') {
                    if matches!(lx.peek(), Tok::Meta(_)) {
                        break;
                    }
                    let (it, o) = self.topd(lx)?;
                    let w = Self::iw(&it);
                    if first {
                        first = false;
                        match o {
                            Opd::C(v) => {
                                off = off.wrapping_add(
                                    (crate::expr::sext(v as u128, w) as i64).wrapping_mul(cur.size() as i64),
                                )
                            }
                            o => idx.push((o, cur.size() as i64, w)),
                        }
                        continue;
                    }
                    match &cur {
                        Ty::Struct(..) => {
                            let Opd::C(v) = o else { return Err("gep struct idx".into()) };
                            off += cur.field_off(v as usize) as i64;
                            cur = cur.sub(v as usize);
                        }
                        Ty::Arr(_, t) | Ty::Vec(_, t) => {
                            let sz = t.size() as i64;
                            match o {
                                Opd::C(v) => {
                                    off = off.wrapping_add((crate::expr::sext(v as u128, w) as i64).wrapping_mul(sz))
                                }
                                o => idx.push((o, sz, w)),
                            }
                            cur = (**t).clone();
                        }
                        _ => return Err("gep".into()),
                    }
                }
                Ins::Gep { base, off, idx, d }
            }
            "br" => {
                if matches!(lx.peek(), Tok::Word(w) if w == "label") {
                    Ins::Br { t: self.label(lx)? }
                } else {
                    let (_, c) = self.topd(lx)?;
                    lx.expect(',')?;
                    let t = self.label(lx)?;
                    lx.expect(',')?;
                    let f = self.label(lx)?;
                    Ins::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (ty, v) = self.topd(lx)?;
                lx.expect(',')?;
                let def = self.label(lx)?;
                lx.expect('[')?;
                let mut cases = vec![];
                while !lx.is(']') {
                    let (_, o) = self.topd(lx)?;
                    lx.expect(',')?;
                    let b = self.label(lx)?;
                    let Opd::C(k) = o else { return Err("switch case".into()) };
                    cases.push((k, b));
                }
                Ins::Switch { w: Self::iw(&ty), v, def, cases }
            }
            "ret" => {
                let t = self.m.ty(lx)?;
                if t == Ty::Void {
                    Ins::Ret { v: None }
                } else {
                    Ins::Ret { v: Some(self.opd(lx, &t)?) }
                }
            }
            "unreachable" | "resume" => Ins::Unreachable,
            "fence" => Ins::Nop,
            "landingpad" => Ins::Bad("landingpad".into()),
            "cleanuppad" | "catchpad" => Ins::Bad("eh pad".into()),
            "extractvalue" => {
                let (_, a) = self.topd(lx)?;
                let mut path = vec![];
                while lx.is(',') {
                    match lx.next() {
                        Tok::Int(n) => path.push(n as u32),
                        _ => break,
                    }
                }
                Ins::ExtractValue { a, path, d }
            }
            "insertvalue" => {
                let (ty, a) = self.topd(lx)?;
                lx.expect(',')?;
                let (_, v) = self.topd(lx)?;
                let mut path = vec![];
                while lx.is(',') {
                    match lx.next() {
                        Tok::Int(n) => path.push(n as u32),
                        _ => break,
                    }
                }
                Ins::InsertValue { a, v, path, d, ty }
            }
            "extractelement" => {
                let (_, a) = self.topd(lx)?;
                lx.expect(',')?;
                let (_, i) = self.topd(lx)?;
                Ins::ExtractElem { a, i, d }
            }
            "insertelement" => {
                let (ty, a) = self.topd(lx)?;
                lx.expect(',')?;
                let (_, v) = self.topd(lx)?;
                lx.expect(',')?;
                let (_, i) = self.topd(lx)?;
                Ins::InsertElem { a, v, i, d, ty }
            }
            "shufflevector" => {
                let (t, a) = self.topd(lx)?;
                lx.expect(',')?;
                let (_, b) = self.topd(lx)?;
                lx.expect(',')?;
                let (_, mk) = self.topd(lx)?;
                let Ty::Vec(n, _) = t else { return Err("shuffle".into()) };
                let m = match mk {
                    Opd::K(k) => match &*k {
                        K::Agg(v) => v
                            .iter()
                            .map(|x| match x {
                                K::I(i) => *i as i32 as i64,
                                _ => 0,
                            })
                            .collect(),
                        _ => return Err("shuffle mask".into()),
                    },
                    _ => return Err("shuffle mask".into()),
                };
                Ins::Shuffle { a, b, m, d, n }
            }
            "atomicrmw" => {
                lx.word("volatile");
                let o = match lx.next() {
                    Tok::Word(w) => w,
                    t => return Err(format!("rmw {t:?}")),
                };
                let (_, p) = self.topd(lx)?;
                lx.expect(',')?;
                let (ty, v) = self.topd(lx)?;
                Ins::Rmw { op: o, ty, p, v, d }
            }
            "cmpxchg" => {
                lx.word("weak");
                lx.word("volatile");
                let (_, p) = self.topd(lx)?;
                lx.expect(',')?;
                let (ty, c) = self.topd(lx)?;
                lx.expect(',')?;
                let (_, n) = self.topd(lx)?;
                Ins::CmpXchg { ty, p, c, n, d }
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if matches!(op.as_str(), "tail" | "musttail" | "notail") {
                    lx.next();
                }
                // calling convention, return attributes
                skip_attrs(lx);
                let ret = self.m.ty(lx)?;
                // explicit function type?
                if *lx.peek() == Tok::P('(') {
                    lx.skip_parens();
                }
                let f = match lx.next() {
                    Tok::Global(n) => {
                        let mut n = n;
                        while let Some(t) = self.m.aliases.get(&n) {
                            n = t.clone();
                        }
                        if n.starts_with("llvm.") {
                            Callee::Intr(n)
                        } else {
                            match self.m.fmap.get(&n) {
                                Some(&i) => Callee::Fn(i),
                                None => return Err(format!("callee @{n}")),
                            }
                        }
                    }
                    Tok::Local(n) => Callee::Ind(Opd::R(self.reg(&n))),
                    Tok::Word(w) if w == "asm" => {
                        let mut text = String::new();
                        while !matches!(lx.peek(), Tok::P('(') | Tok::Eof) {
                            if let Tok::Str(s) = lx.next() {
                                text += &String::from_utf8_lossy(&s);
                                text.push(';');
                            }
                        }
                        Callee::Asm(text)
                    }
                    Tok::Word(w) if w == "inttoptr" || w == "null" => return Err("call const".into()),
                    t => return Err(format!("callee {t:?}")),
                };
                lx.expect('(')?;
                let mut args = vec![];
                let mut argtys = vec![];
                if !lx.is(')') {
                    loop {
                        let t = self.m.ty(lx)?;
                        if t == Ty::Meta {
                            // metadata argument: skip to ',' or ')'
                            let mut depth = 0;
                            loop {
                                match lx.peek().clone() {
                                    Tok::P('(') | Tok::P('{') => {
                                        depth += 1;
                                        lx.next();
                                    }
                                    Tok::P(')') | Tok::P('}') if depth > 0 => {
                                        depth -= 1;
                                        lx.next();
                                    }
                                    Tok::P(')') | Tok::P(',') if depth == 0 => break,
                                    Tok::Eof => break,
                                    _ => {
                                        lx.next();
                                    }
                                }
                            }
                            args.push(Opd::C(0));
                        } else {
                            skip_attrs(lx);
                            args.push(self.opd(lx, &t)?);
                        }
                        argtys.push(t);
                        if lx.is(',') {
                            continue;
                        }
                        lx.expect(')')?;
                        break;
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    loop {
                        match lx.peek().clone() {
                            Tok::Word(w) if w == "to" => {
                                lx.next();
                                normal = Some(self.label(lx)?);
                                break;
                            }
                            Tok::Eof => return Err("invoke".into()),
                            _ => {
                                lx.next();
                            }
                        }
                    }
                }
                if let Callee::Intr(n) = &f {
                    if n.starts_with("llvm.dbg.")
                        || n.starts_with("llvm.lifetime.")
                        || n.starts_with("llvm.experimental.noalias")
                        || n == "llvm.donothing"
                        || n.starts_with("llvm.prefetch")
                        || n == "llvm.x86.sse2.pause"
                        || n == "llvm.assume"
                    {
                        if let Some(b) = normal {
                            bl.ins.push(Ins::Br { t: b });
                        }
                        return Ok(());
                    }
                }
                Ins::Call {
                    f,
                    args,
                    argtys,
                    d: if ret == Ty::Void || dname.is_none() { None } else { Some(d) },
                    ret,
                    normal,
                    line: 0,
                }
            }
            o => return Err(format!("opcode {o}")),
        };
        bl.ins.push(ins);
        Ok(())
    }
}
