use crate::sym;
use crate::vfs::{self, w};
use smd::args::{Cli, Commands, OutputFileFormat, ParseArgs};
use smd_core::config::Config;
use smd_core::error::{Error, Result};
use std::os::unix::ffi::OsStringExt;
use std::path::PathBuf;

fn path(p: &[u8]) -> PathBuf {
    PathBuf::from(std::ffi::OsString::from_vec(p.to_vec()))
}
const TEXT: sym::Dom = sym::or(sym::span(b' ', b'~'), sym::dom(b"\n"));
const ANY: sym::Dom = sym::span(0, 255);

/// what the world looks like, for the report
fn report(ok: bool) {
    let mut o = Vec::new();
    o.extend_from_slice(if ok { b"result ok\n" } else { b"result error\n" });
    for n in &w().nodes {
        if n.dir {
            continue;
        }
        o.extend_from_slice(if n.gone { b"removed " } else { b"file " });
        o.extend_from_slice(&n.path);
        o.extend_from_slice(b" = ");
        o.extend_from_slice(&n.data);
        o.push(b'\n');
    }
    sym::out(9, &o);
}

fn any_text(max: u32, d: &sym::Dom) -> Vec<u8> {
    let n = sym::choose(max + 1);
    sym::bytes(n as usize, d)
}

/// the one live file with this name
fn content(p: &[u8]) -> Option<Vec<u8>> {
    w().find(p).map(|i| w().nodes[i].data.clone())
}

fn same_as_before(p: &[u8], d: &[u8], id: u32) {
    match content(p) {
        None => sym::fail(id),
        Some(x) => sym::assert_eq(&x, d, id),
    }
}

/// long contents: symbolic bytes around offset `at` of `len` bytes
fn long(at: usize, len: usize, n: usize, d: &sym::Dom) -> Vec<u8> {
    let mut v = vec![b'a'; at - n / 2];
    v.extend_from_slice(&sym::bytes(n, d));
    v.resize(len, b'z');
    v
}
/// where buffers of the usual sizes end
const LONG: [(usize, usize); 6] = [(8192, 8194), (8192, 8300), (4096, 8190), (1024, 1026), (16384, 16386), (65536, 66000)];

// ------------------------------------------------------------------ C15

pub const C15: u32 = 20;
/// a reported success stored exactly the content
pub fn c15(j: u32, t: u32) {
    let v = w();
    v.cwd = b"/w".to_vec();
    v.dir(b"/w");
    v.dir(b"/tmp");
    let old = match (j >> 1) & 1 {
        0 => None,
        _ => Some(sym::bytes(5, &ANY)),
    };
    if let Some(o) = &old {
        v.file(b"/w/f", o);
    }
    v.file(b"/w/other", b"other");
    let text = if j < 8 {
        any_text(3 + t, &TEXT)
    } else {
        let (at, len) = LONG[(j as usize - 8) / 2];
        long(at, len, 2, &TEXT)
    };
    v.faults = 1;
    v.quirks = 1 + t;
    v.unknown = 1;
    sym::out(0, &text);
    let p = path(if j & 4 == 0 { b"/w/f" } else { b"f" });
    v.start();
    let r = if j & 1 == 0 {
        smd_core::fs::write_to_file(&p, unsafe { std::str::from_utf8_unchecked(&text) })
    } else {
        smd_core::fs::write_bytes(&p, &text)
    };
    v.stop();
    report(r.is_ok());
    // a failing call that made no difference to what is stored need not be reported
    sym::assert(r.is_ok() || v.failed > 0, 1);
    if r.is_ok() {
        same_as_before(b"/w/f", &text, 2);
    }
    same_as_before(b"/w/other", b"other", 3);
    nothing_else_touched(Some(b"/w/f"));
    sym::reach(1);
}

// ------------------------------------------------------------------ C16

/// UTF-8 validity, written down independently of the standard library
fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = if c < 0x80 {
            (0, 0x80, 0xbf)
        } else if c < 0xc2 {
            return false;
        } else if c < 0xe0 {
            (1, 0x80, 0xbf)
        } else if c < 0xf0 {
            (2, if c == 0xe0 { 0xa0 } else { 0x80 }, if c == 0xed { 0x9f } else { 0xbf })
        } else if c < 0xf5 {
            (3, if c == 0xf0 { 0x90 } else { 0x80 }, if c == 0xf4 { 0x8f } else { 0xbf })
        } else {
            return false;
        };
        if i + n >= b.len() {
            return false;
        }
        let mut k = 1;
        while k <= n {
            let x = b[i + k];
            if k == 1 && (x < lo || x > hi) || x < 0x80 || x > 0xbf {
                return false;
            }
            k += 1;
        }
        i += n + 1;
    }
    true
}

struct Whole(String);
impl smd_core::fs::Deserialize for Whole {
    fn deserialize(input: &str) -> Result<Self> {
        if sym::choose(2) == 1 {
            return Err(Error::DeserializeError(String::new()));
        }
        Ok(Whole(input.to_string()))
    }
}
impl smd_core::fs::Serialize for Whole {
    fn serialize(&self) -> Result<String> {
        if sym::choose(2) == 1 {
            return Err(Error::SerializeError(String::new()));
        }
        Ok(self.0.clone())
    }
}

pub const C16: u32 = 21;
/// reading yields the file's exact text or an error
pub fn c16(j: u32, t: u32) {
    let v = w();
    v.cwd = b"/w".to_vec();
    v.dir(b"/w");
    v.dir(b"/tmp");
    v.vague = j < 8;
    if j > 16 && t != 3 && t != 0 || j > 8 && t == 2 {
        return sym::reach(1);
    }
    if j == 8 {
        // encode_to_string: the serializer's own answer
        let text = any_text(3 + t, &TEXT);
        sym::out(0, &text);
        let x = Whole(String::from_utf8(text.clone()).unwrap());
        let r = smd_core::fs::encode_to_string(&x);
        if let Ok(s) = &r {
            sym::assert_eq(s.as_bytes(), &text, 5);
        }
        return sym::reach(1);
    }
    // 0: any bytes, 1: text, 2: missing, 3: a directory
    let kind = if j > 8 { 0 } else { j >> 1 };
    let data = match kind {
        _ if j > 8 => {
            let (at, len) = LONG[(j as usize - 9) / 2];
            long(at, len, 2 + t.min(2) as usize, &ANY)
        }
        0 => any_text(3 + t.min(1), &ANY),
        1 => any_text(4 + t, &TEXT),
        _ => vec![],
    };
    match kind {
        2 => {}
        3 => v.dir(b"/w/f"),
        _ => v.file(b"/w/f", &data),
    }
    v.faults = 1;
    v.quirks = if j > 8 { 1 } else { 1 + t };
    sym::out(0, &data);
    let p = path(b"/w/f");
    v.start();
    let (r, refused) = if j & 1 == 0 {
        (smd_core::fs::read_to_string(&p), false)
    } else {
        match smd_core::fs::decode_from_file::<Whole>(p) {
            Ok(x) => (Ok(x.0), false),
            Err(Error::DeserializeError(s)) => (Err(Error::DeserializeError(s)), true),
            Err(e) => (Err(e), false),
        }
    };
    v.stop();
    report(r.is_ok());
    let good = kind < 2 && utf8(&data) && !refused;
    sym::assert(if r.is_ok() { good } else { !good || v.failed > 0 }, 1);
    if let Ok(s) = &r {
        sym::assert_eq(s.as_bytes(), &data, 2);
    }
    if kind < 2 {
        same_as_before(b"/w/f", &data, 3);
        sym::assert(!v.nodes[v.find(b"/w/f").unwrap()].dirty, 4);
    }
    sym::reach(1);
}

// ------------------------------------------------------------------ commands

fn cli(input: &[u8], output: OutputFileFormat) -> Cli {
    Cli { commands: Commands::Parse(ParseArgs { input: path(input), output }), help: None, version: None, verbose: 0 }
}

/// the path with the extension of its file name replaced
fn with_extension(p: &[u8], ext: &[u8]) -> Vec<u8> {
    let mut slash = 0;
    let mut dot = 0;
    let mut i = 0;
    while i < p.len() {
        if p[i] == b'/' {
            slash = i;
            dot = 0;
        }
        if p[i] == b'.' && i > slash + 1 {
            dot = i;
        }
        i += 1;
    }
    let mut o = if dot > 0 { p[..dot].to_vec() } else { p.to_vec() };
    o.push(b'.');
    o.extend_from_slice(ext);
    o
}

/// home and configuration directory, with the configuration in one of these
/// states: 0 absent, 1 default, 2 invalid, 3 no configuration directory
fn home(config: u32) {
    let v = w();
    v.dir(b"/h");
    v.env.push((b"HOME".to_vec(), b"/h".to_vec()));
    if config != 3 {
        v.dir(b"/h/.config");
    }
    if config == 1 || config == 2 || config == 4 {
        v.dir(b"/h/.config/smd");
        let c: &[u8] = if config == 1 {
            b"[parse]\non_parse_error = \"skip\"\nkeep_temp_files = false\n"
        } else if config == 4 {
            b"\n"
        } else {
            b"[parse]\non_parse_error = \"no\"\nkeep_temp_files = false\n"
        };
        v.file(b"/h/.config/smd/config.toml", c);
    }
    v.publish();
}

/// No file but `out` was created, changed or removed.
fn nothing_else_touched(out: Option<&[u8]>) {
    // what the system refused to remove stays
    let refused = w().unlink_failed;
    for n in &w().nodes {
        let is_out = match out {
            Some(o) => n.path == o,
            None => false,
        };
        if is_out {
            continue;
        }
        // files the program made must be gone, files that were there untouched
        sym::assert(if n.old { !n.dirty && !n.gone } else { n.gone || n.dir || refused }, 20);
    }
}

const NAMES: &[&[u8]] = &[b"m.md", b"m", b".m", b"m.html", b"m.pdf", b"a.b.md", b"m.", b".md.x",
    b"m.HTML", b"m.Html", b"m.htm", b"m.MD", b"m.xhtml", b"html", b".html", b"m.html.md", b"tmp.md", b"m.md.html"];
const NAME: sym::Dom = sym::dom(b"ab.h-~ #?%");

pub const C17: u32 = 23 + (NAMES.len() as u32 - 8);
/// the last job: an empty configuration
fn more_config(j: u32) -> bool {
    j == C17 - 1
}
/// html output: only the sibling .html file
pub fn c17(j: u32, t: u32) {
    let v = w();
    v.cwd = b"/w".to_vec();
    v.dir(b"/w");
    v.dir(b"/tmp");
    v.dir(b"/d");
    let (name, stale, config, doc);
    // the file names of the table come first and last
    let more = j >= 22;
    if j == 20 || j == 21 {
        // the output is another name of the input
        name = b"m.md".to_vec();
        stale = false;
        config = 0;
        doc = b"a".to_vec();
        v.faults = t;
    } else if j < 8 || more && !more_config(j) {
        // every file name form, no document to speak of
        name = NAMES[if more { j - 14 } else { j } as usize].to_vec();
        stale = true;
        config = 0;
        doc = b"a".to_vec();
        v.faults = 1;
        v.quirks = t;
    } else if j < 12 {
        // arbitrary names
        let n = 1 + (j - 8) as usize;
        let b = sym::bytes(n, &NAME);
        let mut nm = b.clone();
        nm.extend_from_slice(if j & 1 == 0 { b"" } else { b"md" });
        // the standard library's own with_extension and set_extension disagree on "..x"
        sym::assume(nm != b"." && !nm.starts_with(b".."));
        name = nm;
        stale = false;
        config = 0;
        doc = b"a".to_vec();
    } else if j < 16 {
        // every state of the configuration
        name = b"m.md".to_vec();
        stale = false;
        config = j - 12;
        doc = b"a".to_vec();
        v.faults = 1;
    } else if more_config(j) {
        name = b"m.md".to_vec();
        stale = false;
        config = 4;
        doc = b"a".to_vec();
        v.faults = t;
    } else if j < 18 {
        // arbitrary documents
        name = b"m.md".to_vec();
        stale = j & 1 == 1;
        config = 0;
        doc = any_text(2 + t, &sym::dom(b"\n aA#*-`>&"));
        v.quirks = 1;
    } else {
        // documents that are not UTF-8, missing input
        name = b"m.md".to_vec();
        stale = true;
        config = 0;
        doc = sym::bytes(1 + (j & 1) as usize, &ANY);
    }
    let input = [b"/d/", &name[..]].concat();
    let out = with_extension(&input, b"html");
    let linked = j == 20 || j == 21;
    let same = out == input || linked;
    let missing = (j == 18 || j == 19) && sym::choose(2) == 1;
    if !missing {
        v.file(&input, &doc);
    }
    v.file(b"/d/x.html", b"x");
    v.file(b"/w/tmp.html", b"t");
    v.unknown = if missing { 0 } else { 2 };
    if linked {
        v.link(&out, &input, j == 21);
    }
    if stale && !same {
        v.file(&out, b"stale and longer than the new one, by far");
    }
    home(config);
    sym::out(0, &input);
    sym::out(1, &doc);
    v.start();
    let r = smd::run(cli(&input, OutputFileFormat::Html));
    v.stop();
    report(r.is_ok());
    let good = v.failed == 0 && !same && !missing && config != 2 && config != 4 && utf8(&doc);
    // a fault may hit a call whose failure does not matter (looking for the
    // configuration); any other failure is reported
    if v.failed == 0 {
        sym::assert(r.is_ok() == good, 1);
    }
    if r.is_ok() {
        sym::assert(!same && !missing && utf8(&doc), 5);
        let html = gfm::Parser::render(unsafe { std::str::from_utf8_unchecked(&doc) });
        same_as_before(&out, html.as_bytes(), 2);
    }
    nothing_else_touched(if same { None } else { Some(&out) });
    if !missing {
        same_as_before(&input, &doc, 4);
    }
    sym::reach(1);
}

pub const C18: u32 = 16;
/// pdf output: nothing else is disturbed, nothing left behind
pub fn c18(j: u32, t: u32) {
    let v = w();
    v.cwd = b"/w".to_vec();
    v.dir(b"/w");
    v.dir(b"/tmp");
    v.dir(b"/d");
    // which files are in the way of the temporary one, where the input is
    let input: &[u8] = match if j >= 14 { 0 } else { j % 4 } {
        0 => b"/d/m.md",
        1 => b"/w/tmp.md",
        2 => b"/w/tmp.html",
        _ => b"/w/m.pdf",
    };
    let doc: Vec<u8> = if j < 4 { sym::bytes(1, &sym::span(b'a', b'z')) } else { b"a".to_vec() };
    v.file(input, &doc);
    for p in [b"/w/tmp.html" as &[u8], b"/w/tmp1.html", b"/w/tmp.pdf", b"/w/other.html", b"/d/m.pdf"] {
        if p != input && (j >= 8 || sym::choose(2) == 1) {
            v.file(p, b"old");
        }
    }
    if j == 12 || j == 13 {
        // many files in the way
        for k in 2..if j == 12 { 30u32 } else { 120 } {
            let d = [b'0' + (k / 100) as u8, b'0' + (k / 10 % 10) as u8, b'0' + (k % 10) as u8];
            let d = &d[if k < 10 { 2 } else if k < 100 { 1 } else { 0 }..];
            v.file(&[b"/w/tmp", d, b".html"].concat(), b"old");
        }
    }
    let out = with_extension(input, b"pdf");
    let linked = j >= 14;
    let same = out == input || linked;
    if linked {
        // the output is another name of the input
        v.nodes.retain(|n| n.path != out);
        v.link(&out, input, j == 15);
    }
    v.unknown = 2;
    home(0);
    v.chrome_faults = 1;
    if j >= 4 && j < 12 {
        v.faults = 1 + t;
        v.quirks = if j >= 8 { 1 } else { 0 };
    }
    sym::out(0, input);
    v.start();
    let r = smd::run(cli(input, OutputFileFormat::Pdf));
    v.stop();
    report(r.is_ok());
    if v.failed == 0 {
        sym::assert(r.is_ok() == (!v.chrome_failed && !same), 1);
    }
    if v.chrome_failed || same || v.unlink_failed {
        sym::assert(r.is_err(), 3);
    }
    if r.is_ok() {
        let html = gfm::Parser::render(unsafe { std::str::from_utf8_unchecked(&doc) });
        let pdf = vfs::printed(html.as_bytes());
        same_as_before(&out, &pdf, 2);
    }
    // a temporary file that the system refuses to remove stays, and is reported
    nothing_else_touched(if same { None } else { Some(&out) });
    same_as_before(input, &doc, 4);
    sym::reach(1);
}

// ------------------------------------------------------------------ C19

fn init_cli() -> Cli {
    Cli { commands: Commands::Initialize, help: None, version: None, verbose: 0 }
}
const CFG: &[u8] = b"/h/.config/smd/config.toml";
/// the values of a configuration, as written in a file
fn values(c: &Config) -> String {
    toml::to_string(c).unwrap()
}
const DEFAULTS: &str = "[parse]\non_parse_error = \"serialize\"\nkeep_temp_files = false\n";

pub const C19: u32 = 8;
pub fn c19(j: u32, t: u32) {
    let v = w();
    v.cwd = b"/w".to_vec();
    v.dir(b"/w");
    v.dir(b"/tmp");
    v.file(b"/w/other", b"o");
    v.dir(b"/h");
    v.env.push((b"HOME".to_vec(), b"/h".to_vec()));
    let mut cfg = CFG.to_vec();
    // 0: nothing, 1: directories, 2: an existing configuration, 3: a directory in its place
    let state = j & 3;
    if j & 4 != 0 {
        v.dir(b"/x");
        v.env.push((b"XDG_CONFIG_HOME".to_vec(), b"/x".to_vec()));
        cfg = b"/x/smd/config.toml".to_vec();
    }
    let dir = cfg[..cfg.len() - 12].to_vec();
    if state > 0 {
        if j & 4 == 0 {
            v.dir(b"/h/.config");
        }
        v.dir(&dir);
        v.file(&[&dir[..], b"/themes"].concat(), b"t");
    }
    let old = any_text(if state == 2 { 2 + t } else { 0 }, &ANY);
    if state == 2 {
        v.file(&cfg, &old);
    }
    if state == 3 {
        v.dir(&cfg);
    }
    v.publish();
    v.faults = 1 + t;
    v.quirks = 1;
    v.intruder = Some((cfg.clone(), b"i".to_vec()));
    v.start();
    let r = smd::run(init_cli());
    v.stop();
    report(r.is_ok());
    nothing_else_touched(Some(&cfg));
    if state == 2 {
        sym::assert(r.is_err(), 1);
        same_as_before(&cfg, &old, 2);
    }
    if state == 3 {
        sym::assert(r.is_err(), 3);
    }
    if v.intruded && v.nodes.iter().any(|n| n.path == cfg && n.old) {
        // someone else made one first
        sym::assert(r.is_err(), 4);
        same_as_before(&cfg, b"i", 5);
    }
    if state < 2 && v.failed == 0 && !v.intruded {
        sym::assert(r.is_ok(), 6);
    }
    if r.is_ok() {
        // what was written loads back as the defaults, by the real loader
        v.faults = 0;
        v.quirks = 0;
        v.intruder = None;
        v.start();
        let l = Config::load_config();
        v.stop();
        match l {
            Err(_) => sym::fail(7),
            Ok(c) => sym::assert_eq(values(&c).as_bytes(), DEFAULTS.as_bytes(), 8),
        }
    }
    sym::reach(1);
}

// ------------------------------------------------------------------ C20

const WORD: sym::Dom = sym::or(sym::or(sym::span(b'a', b'z'), sym::span(b'A', b'Z')), sym::dom(b" 0_-"));
const LOWER: sym::Dom = sym::span(b'a', b'z');
const ACTIONS: &[&[u8]] = &[b"abort", b"skip", b"serialize"];

/// is `s` this word, in any letter case?
fn is_word(s: &[u8], word: &[u8]) -> bool {
    if s.len() != word.len() {
        return false;
    }
    let mut same = true;
    let mut i = 0;
    while i < s.len() {
        same &= (s[i] == word[i]) | (s[i] == word[i] - 32);
        i += 1;
    }
    same
}
fn action(s: &[u8]) -> Option<usize> {
    ACTIONS.iter().position(|a| is_word(s, a))
}
fn flag(s: &[u8]) -> Option<bool> {
    if s == b"true" {
        Some(true)
    } else if s == b"false" {
        Some(false)
    } else {
        None
    }
}
/// what the configuration must be: None stands for an error
fn expect(text: &[u8], env: &[(&[u8], &[u8])], want: Option<(usize, bool)>) {
    let v = w();
    for (k, x) in env {
        v.env.push((k.to_vec(), x.to_vec()));
    }
    v.publish();
    sym::out(0, text);
    for (k, x) in env {
        sym::out(1, &[k, b"=" as &[u8], x].concat());
    }
    let r = Config::parse_from_str(unsafe { std::str::from_utf8_unchecked(text) });
    match (&r, want) {
        (Err(_), None) => {}
        (Ok(c), Some((a, k))) => {
            let e = [
                b"[parse]\non_parse_error = \"" as &[u8],
                ACTIONS[a],
                b"\"\nkeep_temp_files = ",
                if k { b"true" as &[u8] } else { b"false" },
                b"\n",
            ]
            .concat();
            sym::assert_eq(values(c).as_bytes(), &e, 1)
        }
        (Ok(_), None) => sym::fail(2),
        (Err(_), Some(_)) => sym::fail(3),
    }
    sym::reach(1);
}
fn file(a: &[u8], k: &[u8]) -> Vec<u8> {
    [b"[parse]\non_parse_error = \"", a, b"\"\nkeep_temp_files = ", k, b"\n"].concat()
}
const ENV_A: &[u8] = b"SMD__PARSE__ON_PARSE_ERROR";
const ENV_K: &[u8] = b"SMD__PARSE__KEEP_TEMP_FILES";

pub const C20: u32 = 34;
pub fn c20(j: u32, t: u32) {
    let word = |n: usize| sym::bytes(n, if t == 0 && n > 9 { &LOWER } else { &WORD });
    let pick = |n: u32| sym::choose(n) as usize;
    match j {
        // every action text up to ten characters
        0..=10 => {
            let a = word(j as usize);
            let k = pick(2) == 1;
            let text = file(&a, if k { b"true" } else { b"false" });
            expect(&text, &[], action(&a).map(|a| (a, k)))
        }
        // every lower case word as the flag
        11..=17 => {
            let k = sym::bytes(j as usize - 10, &LOWER);
            // TOML reads these words as numbers
            sym::assume(k != b"inf" && k != b"nan");
            let a = pick(3);
            let text = file(ACTIONS[a], &k);
            expect(&text, &[], flag(&k).map(|k| (a, k)))
        }
        // the other order, spaces, comments
        18 => {
            let a = pick(3);
            let k = pick(2) == 1;
            let c = sym::bytes(2, &sym::span(b' ', b'~'));
            let sp = sym::bytes(2, &sym::dom(b" \t"));
            let text = [
                b"#" as &[u8], &c[..], b"\n[parse]\nkeep_temp_files", &sp[..1], b"=", &sp[1..], if k { b"true" as &[u8] } else { b"false" },
                b" #", &c[..], b"\n\n", b"on_parse_error=\"", ACTIONS[a], b"\"",
            ]
            .concat();
            expect(&text, &[], Some((a, k)))
        }
        // a value is missing
        19 => expect(b"[parse]\non_parse_error = \"skip\"\n", &[], None),
        20 => expect(b"[parse]\nkeep_temp_files = true\n", &[], None),
        21 => expect(b"", &[], None),
        // the environment overrides the file
        22 => {
            let (a, b) = (pick(3), pick(3));
            let k = pick(2) == 1;
            let text = file(ACTIONS[a], if k { b"true" } else { b"false" });
            expect(&text, &[(ENV_A, ACTIONS[b])], Some((b, k)))
        }
        23 => {
            let a = pick(3);
            let (k, l) = (pick(2) == 1, pick(2) == 1);
            let text = file(ACTIONS[a], if k { b"true" } else { b"false" });
            expect(&text, &[(ENV_K, if l { b"true" } else { b"false" })], Some((a, l)))
        }
        24 => {
            let (a, b) = (pick(3), pick(3));
            let (k, l) = (pick(2) == 1, pick(2) == 1);
            let text = file(ACTIONS[a], if k { b"true" } else { b"false" });
            expect(&text, &[(ENV_A, ACTIONS[b]), (ENV_K, if l { b"true" } else { b"false" })], Some((b, l)))
        }
        // an override that is empty
        33 => expect(&file(b"abort", b"true"), &[(ENV_A, b"")], None),
        // an override that is no action
        25..=28 => {
            let b = word([4, 5, 9, 3][j as usize - 25]);
            let text = file(b"abort", b"true");
            expect(&text, &[(ENV_A, &b)], action(&b).map(|b| (b, true)))
        }
        // variables without the prefix have no say
        29 => {
            let c = sym::bytes(3, &sym::span(b'A', b'Z'));
            sym::assume(c != b"SMD");
            let name = [&c[..], b"__PARSE__ON_PARSE_ERROR"].concat();
            expect(&file(b"abort", b"true"), &[(&name, b"skip"), (b"PARSE__KEEP_TEMP_FILES", b"false")], Some((0, true)))
        }
        30 => {
            let a = pick(3);
            expect(&file(ACTIONS[a], b"false"), &[(b"SMD", b"skip"), (b"HOME", b"/h"), (b"PATH", b"true")], Some((a, false)))
        }
        // not TOML at all
        31 => expect(b"[parse\non_parse_error = \"skip\"\nkeep_temp_files = true\n", &[], None),
        // values from the environment alone
        _ => {
            let b = pick(3);
            let l = pick(2) == 1;
            expect(b"", &[(ENV_A, ACTIONS[b]), (ENV_K, if l { b"true" } else { b"false" })], Some((b, l)))
        }
    }
}
