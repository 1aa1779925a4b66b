//! Templates with symbolic holes: `%x` in a source template stands for
//! symbolic bytes, `%x` in the expected HTML for the same bytes as text.

use crate::html;
use crate::sym::{self, Dom};

pub const LETTER: Dom = sym::or(sym::span(b'a', b'z'), sym::span(b'A', b'Z'));
pub const DIGIT: Dom = sym::span(b'0', b'9');
pub const ALNUM: Dom = sym::or(LETTER, DIGIT);
pub const PRINT: Dom = sym::span(b' ', b'~');
pub const ASCII: Dom = sym::span(0, 127);
/// everything printable without a meaning inside a line
pub const TEXT: Dom = sym::minus(PRINT, sym::dom(b" *_~`[<\\!"));
pub const TEXT_NO_PIPE: Dom = sym::minus(TEXT, sym::dom(b"|"));
pub const TEXT_HEAD: Dom = sym::minus(TEXT, sym::dom(b"#{}"));
/// text of constructs whose text is not interpreted any further
pub const RAW: Dom = sym::minus(PRINT, sym::dom(b" *_~`[]()<>\\|!\"'{}#^"));
pub const CODE: Dom = sym::minus(PRINT, sym::dom(b"`"));
pub const CODE_LINE: Dom = sym::or(PRINT, sym::dom(b"\t"));
pub const URL: Dom = sym::or(ALNUM, sym::dom(b"/.-_~?#&=%+,;"));
pub const URL_ENC: Dom = sym::dom(b"az\"'<>[]!$(*\\&");
pub const IDENT: Dom = sym::or(ALNUM, sym::dom(b"-_.:"));
pub const PUNCT: Dom = sym::minus(sym::span(b'!', b'~'), ALNUM);
/// characters that start, continue or end some construct
pub const NASTY: Dom = sym::dom(b"\n\t ab1x#*_-+>~`[]()!<\\|:.^\"&/={}");

pub struct Holes {
    keys: Vec<(u8, u8)>,
    vals: Vec<Vec<u8>>,
    /// symbolic bytes left for the variable parts of further holes
    pub len: u32,
}

const MARK: u8 = 0x0e;
const MAXH: usize = 18;

impl Holes {
    pub fn new(len: u32) -> Self {
        Holes { keys: Vec::new(), vals: Vec::new(), len }
    }
    fn index(&mut self, ns: u8, id: u8) -> usize {
        let mut i = 0;
        while i < self.keys.len() {
            if self.keys[i] == (ns, id) {
                return i;
            }
            i += 1;
        }
        let v = make(id, &mut self.len);
        self.keys.push((ns, id));
        self.vals.push(v);
        assert!(self.keys.len() <= MAXH);
        i
    }
    pub fn src(&mut self, t: &str, ns: u8, o: &mut Vec<u8>) {
        let t = &repeat(t.as_bytes())[..];
        let mut i = 0;
        while i < t.len() {
            if t[i] == b'%' {
                i += 1;
                if t[i] == b'%' {
                    o.push(b'%');
                } else {
                    let k = self.index(ns, t[i]);
                    o.extend_from_slice(&self.vals[k]);
                }
            } else {
                o.push(t[i]);
            }
            i += 1;
        }
    }
    /// expected HTML with one marker byte per hole
    pub fn marked(&mut self, t: &str, ns: u8, o: &mut Vec<u8>) {
        let t = &repeat(t.as_bytes())[..];
        let mut i = 0;
        while i < t.len() {
            if t[i] == b'%' {
                i += 1;
                if t[i] == b'%' {
                    o.push(b'%');
                } else {
                    let k = self.index(ns, t[i]);
                    o.push(MARK + k as u8);
                }
            } else {
                o.push(t[i]);
            }
            i += 1;
        }
    }
    pub fn fill(&self, c: &[u8]) -> Vec<u8> {
        let mut o = Vec::with_capacity(c.len() + 64);
        for &b in c {
            if b >= MARK && (b - MARK) < self.vals.len() as u8 {
                o.extend_from_slice(&self.vals[(b - MARK) as usize]);
            } else {
                o.push(b);
            }
        }
        o
    }
}

/// `%{n|text%}` stands for n copies of the text, in which `%#` is the number
/// of the copy (from 1), `%$` that of the next one
fn repeat(t: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(t.len());
    let mut i = 0;
    while i < t.len() {
        if t[i] == b'%' && t[i + 1] == b'{' {
            let mut n = 0;
            i += 2;
            while t[i] != b'|' {
                n = 10 * n + (t[i] - b'0') as u32;
                i += 1;
            }
            i += 1;
            let a = i;
            while !(t[i] == b'%' && t[i + 1] == b'}') {
                i += 1;
            }
            for k in 1..=n {
                let mut j = a;
                while j < i {
                    if t[j] == b'%' && matches!(t[j + 1], b'#' | b'$') {
                        let mut d = [0u8; 8];
                        let mut m = 8;
                        let mut x = k + (t[j + 1] == b'$') as u32;
                        while x > 0 {
                            m -= 1;
                            d[m] = b'0' + (x % 10) as u8;
                            x /= 10;
                        }
                        o.extend_from_slice(&d[m..]);
                        j += 2;
                    } else {
                        o.push(t[j]);
                        j += 1;
                    }
                }
            }
            i += 2;
        } else {
            o.push(t[i]);
            i += 1;
        }
    }
    o
}

/// takes an arbitrary share of what is left
fn share(len: &mut u32) -> usize {
    let n = sym::choose(*len + 1);
    *len -= n;
    n as usize
}

fn upto(first: &Dom, rest: &Dom, len: &mut u32) -> Vec<u8> {
    let n = share(len);
    let mut v = sym::bytes(1, first);
    v.extend_from_slice(&sym::bytes(n, rest));
    v
}

/// a symbolic character that is not ASCII: 2, 3 or 4 bytes
pub fn wide() -> Vec<u8> {
    let cont = sym::span(0x80, 0xbf);
    let mut v;
    match sym::choose(3) {
        0 => {
            v = sym::bytes(1, &sym::span(0xc3, 0xc9)); // U+00C0 .. U+027F
            v.extend_from_slice(&sym::bytes(1, &cont));
        }
        1 => {
            v = sym::bytes(1, &sym::span(0xe4, 0xe9)); // U+4000 .. U+9FFF
            v.extend_from_slice(&sym::bytes(2, &cont));
        }
        _ => {
            v = vec![0xf0, 0x9f]; // U+1F000 .. U+1FFFF
            v.extend_from_slice(&sym::bytes(2, &cont));
        }
    }
    v
}

fn make(id: u8, len: &mut u32) -> Vec<u8> {
    match id {
        b'a'..=b'd' => upto(&LETTER, &TEXT, len),
        b'e' | b'f' => {
            let n = 1 + share(len);
            sym::bytes(n, &RAW)
        }
        b'g' => upto(&LETTER, &RAW, len),
        b'h' => upto(&LETTER, &TEXT_HEAD, len),
        b'i' | b'j' => upto(&LETTER, &IDENT, len),
        b'k' => {
            let mut v = upto(&LETTER, &CODE, len);
            v.extend_from_slice(&sym::bytes(1, &ALNUM));
            v
        }
        b'l' | b'm' => upto(&LETTER, &CODE_LINE, len),
        b'n' => {
            let mut v = sym::bytes(1, &LETTER);
            v.extend_from_slice(&wide());
            v
        }
        b'o' => {
            // digits
            let n = 1 + share(len);
            sym::bytes(n, &DIGIT)
        }
        b'p' | b'q' => sym::bytes(1, &PUNCT),
        b'P' => sym::bytes(1, &sym::minus(PUNCT, sym::dom(b"*_~`"))),
        b'r' | b's' | b't' => upto(&LETTER, &TEXT_NO_PIPE, len),
        b'u' | b'v' => upto(&LETTER, &URL, len),
        b'w' => upto(&LETTER, &URL_ENC, len),
        b'x' | b'0'..=b'9' => sym::bytes(1, &NASTY),
        b'V' => {
            // U+00C0 .. U+00FF
            let mut v = vec![0xc3];
            v.extend_from_slice(&sym::bytes(1, &sym::span(0x80, 0xbf)));
            v
        }
        b'y' => {
            let n = share(len);
            sym::bytes(n, &NASTY)
        }
        b'z' => {
            let n = share(len);
            sym::bytes(n, &ASCII)
        }
        b'Q' => sym::bytes(1, &sym::minus(PUNCT, sym::dom(b"\\"))),
        b'S' => sym::bytes(1, &sym::minus(PUNCT, sym::dom(b"|*_~`[]()<>!\"'\\^"))), // harmless when escaped
        b'T' => sym::bytes(1, &sym::dom(b" \t")), // one blank
        b'O' => upto(&LETTER, &sym::minus(URL_ENC, sym::dom(b">")), len),
        b'B' => vec![b' '; 1 + sym::choose(3) as usize], // blanks
        b'L' => {
            // a line end
            match sym::choose(2) {
                0 => b"\n".to_vec(),
                _ => b"\r\n".to_vec(),
            }
        }
        b'X' => sym::bytes(1, &sym::dom(b"xX")),
        b'M' => sym::bytes(1, &sym::dom(b"-+*")),
        b'C' => sym::bytes(1, &sym::dom(b"*_")),
        b'R' => sym::bytes(1, &sym::dom(b"-*_")),
        b'K' | b'A' | b'E'..=b'J' => sym::bytes(1, &LETTER),
        b'N' => sym::bytes(1, &ALNUM),
        b'W' => wide(),
        b'U' => {
            // characters some functions take for white space, control or nothing
            match sym::choose(4) {
                0 => {
                    let mut v = vec![0xc2];
                    v.extend_from_slice(&sym::bytes(1, &sym::span(0x80, 0xbf))); // U+0080 .. U+00BF
                    v
                }
                1 => {
                    let mut v = vec![0xe2, 0x80];
                    v.extend_from_slice(&sym::bytes(1, &sym::span(0x80, 0xbf))); // U+2000 .. U+203F
                    v
                }
                2 => vec![0xe3, 0x80, 0x80], // U+3000
                _ => vec![0xef, 0xbb, 0xbf], // U+FEFF
            }
        }
        _ => panic!(),
    }
}

/// Renders `src` with the real code and compares with `exp`.
pub fn equal(parts: &[(&str, &str)], sep: &str, len: u32, pct: bool) {
    let mut h = Holes::new(len);
    let mut src = Vec::new();
    let mut exp = Vec::new();
    for (k, p) in parts.iter().enumerate() {
        if k > 0 {
            src.extend_from_slice(sep.as_bytes());
        }
        h.src(p.0, k as u8, &mut src);
        h.marked(p.1, k as u8, &mut exp);
    }
    let want = html::canon(&exp, false);
    assert!(want != b"!");
    let want = h.fill(&want);
    sym::out(0, &src);
    let got = render(&src);
    sym::out(1, got.as_bytes());
    let got = html::canon(got.as_bytes(), pct);
    sym::assert_eq(&got, &want, 1);
    sym::reach(1);
}

pub fn render(src: &[u8]) -> String {
    // the holes are made of whole UTF-8 characters
    gfm::Parser::render(unsafe { std::str::from_utf8_unchecked(src) })
}

/// Renders an arbitrary document
pub fn free(t: &str, len: u32) -> String {
    let mut h = Holes::new(len);
    let mut src = Vec::new();
    h.src(t, 0, &mut src);
    sym::out(0, &src);
    let r = render(&src);
    sym::out(1, r.as_bytes());
    r
}
