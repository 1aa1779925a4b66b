use crate::sym;
use crate::vfs::{self, w};

/// Runs the program with these arguments; `then` judges its exit status.
fn run(args: &[&[u8]], then: fn(i32)) -> ! {
    let mut bufs: Vec<Vec<u8>> = vec![b"smd\0".to_vec()];
    for a in args {
        bufs.push([a, b"\0" as &[u8]].concat());
    }
    let mut ptrs: Vec<*const u8> = Vec::new();
    for b in &bufs {
        ptrs.push(b.as_ptr());
    }
    ptrs.push(std::ptr::null());
    sym::set_args(bufs.len() as i32, ptrs.as_ptr());
    std::mem::forget(bufs);
    std::mem::forget(ptrs);
    unsafe { THEN = Some(then) };
    w().console = true;
    w().publish();
    w().start();
    let c = crate::program::harness_entry();
    exit(c)
}
static mut THEN: Option<fn(i32)> = None;
#[no_mangle]
pub extern "C" fn exit(code: i32) -> ! {
    w().stop();
    let mut o = Vec::new();
    o.extend_from_slice(b"exit status ");
    o.push(b'0' + (code & 7) as u8);
    o.push(b'\n');
    sym::out(9, &o);
    if let Some(f) = unsafe { THEN } {
        f(code & 0xff)
    }
    sym::reach(1);
    sym::done()
}

/// what must have come of it
static mut WANT: Want = Want { ok: Ok2::Usage, input: Vec::new(), doc: Vec::new(), pdf: false, bad_config: false };
#[derive(Clone, Copy, PartialEq)]
enum Ok2 {
    Convert,
    Usage,
    Help,
    Version,
    Init,
}
struct Want {
    ok: Ok2,
    input: Vec<u8>,
    doc: Vec<u8>,
    pdf: bool,
    bad_config: bool,
}
#[allow(static_mut_refs)]
fn want() -> &'static mut Want {
    unsafe { &mut WANT }
}

fn content(p: &[u8]) -> Option<Vec<u8>> {
    w().find(p).map(|i| w().nodes[i].data.clone())
}
fn untouched_but(out: Option<&[u8]>, dirs: bool) {
    for n in &w().nodes {
        if let Some(o) = out {
            if n.path == o {
                continue;
            }
        }
        sym::assert(if n.old { !n.dirty && !n.gone } else { n.gone || (n.dir && dirs) }, 20);
    }
}
fn judge(code: i32) {
    let v = w();
    let q = want();
    match q.ok {
        Ok2::Convert => {
            sym::assert(code == 0, 1);
            let out = [&q.input[..q.input.len() - 2], if q.pdf { b"pdf" as &[u8] } else { b"html" }].concat();
            let html = gfm::Parser::render(unsafe { std::str::from_utf8_unchecked(&q.doc) });
            let exp = if q.pdf { vfs::printed(html.as_bytes()) } else { html.into_bytes() };
            match content(&out) {
                None => sym::fail(2),
                Some(c) => sym::assert_eq(&c, &exp, 3),
            }
            sym::assert(v.stdout.is_empty(), 13);
            untouched_but(Some(&out), false);
        }
        Ok2::Usage => {
            sym::assert(code != 0, 4);
            sym::assert(v.stdout.is_empty() && !v.stderr.is_empty(), 5);
            untouched_but(None, false);
        }
        Ok2::Help => {
            sym::assert(code == 0, 6);
            sym::assert(has(&v.stdout, b"--help") && v.stderr.is_empty(), 7);
            untouched_but(None, false);
        }
        Ok2::Version => {
            sym::assert(code == 0, 8);
            let o = &v.stdout;
            sym::assert(o.starts_with(b"smd") && o.windows(2).any(|x| x[0] == b' ' && x[1].is_ascii_digit()), 9);
            sym::assert(o.iter().filter(|c| **c == b'\n').count() == 1, 10);
            untouched_but(None, false);
        }
        Ok2::Init => {
            sym::assert(code == 0, 11);
            sym::assert(content(b"/h/.config/smd/config.toml").is_some(), 12);
            untouched_but(Some(b"/h/.config/smd/config.toml"), true);
        }
    }
}
fn has(s: &[u8], p: &[u8]) -> bool {
    s.windows(p.len()).any(|x| x == p)
}

// ------------------------------------------------------------------ C26

/// Argument lists, what they ask for: `c`onvert to html, convert to `p`df,
/// `u`sage error, `h`elp, `v`ersion, `i`nitialise. The input is /d/m.md.
const A: &[(&[&str], char)] = &[
    (&["parse", "-i", "/d/m.md", "-o", "html"], 'c'),
    (&["parse", "-i", "/d/m.md", "-o", "pdf"], 'p'),
    (&["parse", "-i", "/d/m.md"], 'p'),
    (&["parse", "-o", "html", "-i", "/d/m.md"], 'c'),
    (&["parse", "--input", "/d/m.md", "--output", "html"], 'c'),
    (&["parse", "--input=/d/m.md", "--output=html"], 'c'),
    (&["parse", "--output=pdf", "--input=/d/m.md"], 'p'),
    (&["parse", "-i=/d/m.md", "-o=html"], 'c'),
    (&["parse", "-i/d/m.md", "-ohtml"], 'c'),
    (&["-v", "parse", "-i", "/d/m.md", "-o", "html"], 'c'),
    (&["-vv", "parse", "-i", "/d/m.md", "-o", "html"], 'c'),
    (&["-v", "-v", "-v", "parse", "-i", "/d/m.md", "-o", "html"], 'c'),
    (&["--verbose", "parse", "-i", "/d/m.md", "-o", "html"], 'c'),
    (&["--debug", "parse", "-i", "/d/m.md", "-o", "html"], 'c'),
    (&["parse", "-i", "m.md", "-o", "html"], 'c'),
    (&["parse", "-i", "./m.md", "-o", "html"], 'c'),
    (&["parse", "-i", "../d/m.md", "-o", "html"], 'c'),
    (&["parse", "-i", "../d/./m.md"], 'p'),
    (&["parse"], 'u'),
    (&["parse", "-o", "html"], 'u'),
    (&["parse", "-i"], 'u'),
    (&["parse", "-i", "/d/m.md", "-o"], 'u'),
    (&["parse", "-i", "/d/none.md", "-o", "html"], 'u'),
    (&["parse", "-i", "~/none.md"], 'u'),
    (&["parse", "/d/m.md"], 'u'),
    (&["parse", "-i", "/d/m.md", "x"], 'u'),
    (&["parse", "-i", "/d/m.md", "-i", "/d/m.md"], 'u'),
    (&["parse", "-i", "/d/m.md", "-o", "html", "-o", "pdf"], 'u'),
    (&["-i", "/d/m.md"], 'u'),
    (&["-v"], 'u'),
    (&["initialize", "x"], 'u'),
    (&["initialize", "-i", "/d/m.md"], 'u'),
    (&["parse", "--in", "/d/m.md"], 'u'),
    (&["help"], 'u'),
    (&["initialize"], 'i'),
    (&["-v", "initialize"], 'i'),
    (&["-h"], 'h'),
    (&["--help"], 'h'),
    (&["parse", "-h"], 'H'),
    (&["parse", "-i", "/d/m.md", "--help"], 'H'),
    (&["initialize", "--help"], 'H'),
    (&["parse", "-i", "/d", "-o", "html"], 'u'),
    (&["parse", "-i", "/d/m.md/", "-o", "html"], 'u'),
    (&["parse", "-i", "", "-o", "html"], 'u'),
    (&["parse", "--input=", "-o", "html"], 'u'),
    (&["parse", "-i", "/d/m.md", "-o", ""], 'u'),
    (&["parse", "-i", "/d/m.md", "--output="], 'u'),
    (&["parse", "-i", "-o", "html"], 'u'),
    (&["parse", "-i", "/d/m.md", "--", "-o"], 'u'),
    (&["parse", "-i", "/d/m.md", "-ohtml", "-opdf"], 'u'),
    (&["parse", "-i", "/d/m.md", "-o", "html,pdf"], 'u'),
    (&["parse", "-i", "/d/m.md", "/d/n.md", "-o", "html"], 'u'),
    (&["parse", "-i", "/d/m.md", "-o", "html", "initialize"], 'u'),
    (&["initialize", "-o", "html"], 'u'),
    (&["initialize", "initialize"], 'u'),
    (&["initialize", "parse"], 'u'),
    (&["init"], 'u'),
    (&["--verbose=1", "parse", "-i", "/d/m.md", "-o", "html"], 'u'),
    (&[""], 'u'),
    (&["-x"], 'u'),
    (&["-v", "-h"], 'h'),
    (&["-h", "parse"], 'h'),
    (&["-V"], 'v'),
    (&["-v", "-V"], 'v'),
    (&["--version", "parse"], 'v'),
    (&["--version"], 'v'),
];
/// symbolic argument lists
const SYM: u32 = 24;
pub fn c26_jobs() -> u32 {
    A.len() as u32 + SYM
}
const LOW: sym::Dom = sym::span(b'a', b'z');
const WORD: sym::Dom = sym::or(sym::or(LOW, sym::span(b'A', b'Z')), sym::dom(b" -=.1"));
const NAME: sym::Dom = sym::dom(b"ab~-. #%=\\*$");

/// `w` with at most one byte replaced
fn neighbour(w: &[u8]) -> Vec<u8> {
    let k = sym::choose(w.len() as u32) as usize;
    let mut v = w.to_vec();
    v[k] = sym::bytes(1, &WORD)[0];
    v
}
fn set(ok: Ok2, input: &[u8], pdf: bool) {
    let q = want();
    q.ok = ok;
    q.input = input.to_vec();
    q.doc = w().find(input).map(|i| w().nodes[i].data.clone()).unwrap_or_default();
    q.pdf = pdf;
}
fn world(cwd: &[u8]) {
    let v = w();
    v.cwd = cwd.to_vec();
    for d in [b"/d" as &[u8], b"/tmp", b"/h", b"/h/.config", b"/h/s"] {
        v.dir(d);
    }
    for (f, c) in [
        (b"/d/m.md" as &[u8], b"*a*" as &[u8]),
        (b"/h/m.md", b"# b"),
        (b"/h/s/m.md", b"c"),
        (b"/m.md", b"d"),
        (b"/d/n.md", b"n"),
    ] {
        v.file(f, c);
    }
    v.env.push((b"HOME".to_vec(), b"/h".to_vec()));
}
pub fn c26(j: u32, t: u32) {
    let t = t.min(2) as usize;
    world(b"/d");
    let m = b"/d/m.md";
    if (j as usize) < A.len() {
        let (a, k) = A[j as usize];
        match k {
            'c' => set(Ok2::Convert, m, false),
            'p' => set(Ok2::Convert, m, true),
            'u' => set(Ok2::Usage, m, false),
            'h' => set(Ok2::Help, m, false),
            'H' => set(Ok2::Help, m, false),
            'v' => set(Ok2::Version, m, false),
            _ => set(Ok2::Init, m, false),
        }
        let mut l: Vec<&[u8]> = Vec::new();
        for x in a {
            l.push(x.as_bytes());
        }
        run(&l, judge)
    }
    let j = j - A.len() as u32;
    match j {
        // the format: every word of up to five characters
        0..=5 => {
            let f = sym::bytes(j as usize + if j > 3 { t } else { 0 }, &WORD);
            sym::assume(f.first() != Some(&b'-'));
            sym::out(0, &f);
            let ok = f == b"html" || f == b"pdf";
            set(if ok { Ok2::Convert } else { Ok2::Usage }, m, f == b"pdf");
            run(&[b"parse", b"-i", m, b"-o", &f], judge)
        }
        6..=8 => {
            let f = sym::bytes(j as usize - 3 + t, &WORD);
            sym::out(0, &f);
            let ok = f == b"html" || f == b"pdf";
            set(if ok { Ok2::Convert } else { Ok2::Usage }, m, f == b"pdf");
            let o = [b"--output=", &f[..]].concat();
            run(&[b"parse", &o, b"--input", m], judge)
        }
        // the command: every word of two letters, every neighbour of the right ones
        9 => {
            let f = sym::bytes(2 + t, &LOW);
            sym::out(0, &f);
            set(Ok2::Usage, m, false);
            run(&[&f, b"-i", m, b"-ohtml"], judge)
        }
        10 => {
            let f = neighbour(b"parse");
            sym::out(0, &f);
            set(if f == b"parse" { Ok2::Convert } else { Ok2::Usage }, m, false);
            run(&[&f, b"-i", m, b"-ohtml"], judge)
        }
        11 => {
            let f = neighbour(b"initialize");
            sym::out(0, &f);
            set(if f == b"initialize" { Ok2::Init } else { Ok2::Usage }, m, false);
            run(&[&f], judge)
        }
        // the options: every neighbour of the right ones
        12 => {
            let f = neighbour(b"--output");
            sym::assume(f[0] == b'-' && f[1] == b'-');
            sym::out(0, &f);
            set(if f == b"--output" { Ok2::Convert } else { Ok2::Usage }, m, false);
            run(&[b"parse", b"-i", m, &f, b"html"], judge)
        }
        // single letter flags
        13 => {
            let f = sym::bytes(1, &sym::or(LOW, sym::span(b'A', b'Z')));
            sym::out(0, &f);
            let k = match f[0] {
                b'h' => Ok2::Help,
                b'V' => Ok2::Version,
                _ => Ok2::Usage,
            };
            set(k, m, false);
            run(&[b"parse", &[b"-", &f[..]].concat()], judge)
        }
        // input names
        14..=16 => {
            let n = sym::bytes(j as usize - 13 + if j == 16 { t } else { 0 }, &NAME);
            sym::assume(n[0] != b'-' && n[0] != b'=');
            let name = [&n[..], b"c.md"].concat();
            let p = [b"/d/", &name[..]].concat();
            w().file(&p, b"x");
            sym::out(0, &name);
            // relative to the working directory; `~` alone is a directory's name here
            set(Ok2::Convert, &p, false);
            run(&[b"parse", b"-o", b"html", b"-i", &name], judge)
        }
        // the home directory
        17 => {
            set(Ok2::Convert, b"/h/m.md", false);
            run(&[b"parse", b"-i", b"~/m.md", b"-o", b"html"], judge)
        }
        18 => {
            set(Ok2::Convert, b"/h/s/m.md", true);
            run(&[b"parse", b"--input=~/s/m.md"], judge)
        }
        19 => {
            set(Ok2::Convert, b"/h/m.md", false);
            run(&[b"parse", b"-i~/s/../m.md", b"-o", b"html"], judge)
        }
        // a tilde elsewhere is a name like any other
        20 => {
            w().dir(b"/d/~");
            w().file(b"/d/~/m.md", b"tilde");
            set(Ok2::Convert, b"/d/~/m.md", false);
            run(&[b"parse", b"-i", b"./~/m.md", b"-o", b"html"], judge)
        }
        // so is a dollar sign
        21 => {
            w().file(b"/d/$HOME.md", b"dollar");
            set(Ok2::Convert, b"/d/$HOME.md", false);
            run(&[b"parse", b"-i", b"$HOME.md", b"-o", b"html"], judge)
        }
        22 => {
            w().dir(b"/d/${HOME}");
            w().file(b"/d/${HOME}/m.md", b"dollar");
            set(Ok2::Convert, b"/d/${HOME}/m.md", true);
            run(&[b"parse", b"-i${HOME}/m.md"], judge)
        }
        // the environment's own wish about logging changes nothing
        _ => {
            let l = sym::bytes(3 + t, &LOW);
            w().env.push((b"RUST_LOG".to_vec(), l));
            set(Ok2::Convert, m, false);
            run(&[b"parse", b"-i", m, b"-o", b"html"], judge)
        }
    }
}

// ------------------------------------------------------------------ C27

pub const C27: u32 = 22;
/// the exit status tells whether the work was done
pub fn c27(j: u32, t: u32) {
    world(b"/d");
    let v = w();
    v.faults = 1 + t / 2;
    v.quirks = t;
    v.chrome_faults = 1;
    let pdf = j & 1 == 1;
    set(Ok2::Convert, b"/d/m.md", pdf);
    let fmt: &[u8] = if pdf { b"pdf" } else { b"html" };
    match j >> 1 {
        0 => run(&[b"parse", b"-i", b"/d/m.md", b"-o", fmt], outcome),
        1 => run(&[b"-vv", b"parse", b"-i", b"/d/m.md", b"-o", fmt], outcome),
        2 => {
            // not text
            let i = v.find(b"/d/m.md").unwrap();
            v.nodes[i].data = vec![0xff, b'a'];
            want().ok = Ok2::Usage;
            run(&[b"parse", b"-i", b"/d/m.md", b"-o", fmt], outcome)
        }
        3 => {
            // a configuration that cannot be loaded
            v.dir(b"/h/.config/smd");
            v.file(b"/h/.config/smd/config.toml", b"[parse]\n");
            want().bad_config = true;
            run(&[b"parse", b"-i", b"/d/m.md", b"-o", fmt], outcome)
        }
        4 => {
            // the output would be the input
            let p = [b"/d/k.", fmt].concat();
            v.file(&p, b"k");
            want().ok = Ok2::Usage;
            run(&[b"parse", b"-i", &p, b"-o", fmt], outcome)
        }
        7 => {
            // a directory in the output's place
            v.dir(&[b"/d/m.", fmt].concat());
            want().ok = Ok2::Usage;
            run(&[b"parse", b"-i", b"/d/m.md", b"-o", fmt], outcome)
        }
        8 => {
            // a directory as input
            v.dir(b"/d/k.md");
            want().ok = Ok2::Usage;
            run(&[b"parse", b"-i", b"/d/k.md", b"-o", fmt], outcome)
        }
        9 => {
            // a missing input, in a missing directory
            want().ok = Ok2::Usage;
            run(&[b"parse", b"-i", if pdf { b"/d/k.md" } else { b"/k/k.md" as &[u8] }, b"-o", fmt], outcome)
        }
        10 => {
            // a directory or file in the way of the configuration
            if pdf {
                v.file(b"/h/.config/smd", b"");
            } else {
                v.dir(b"/h/.config/smd");
                v.dir(b"/h/.config/smd/config.toml");
            }
            want().ok = Ok2::Usage;
            run(&[b"initialize"], outcome)
        }
        6 => {
            // the output leads to the input
            let p = [b"/d/m.", fmt].concat();
            v.link(&p, b"/d/m.md", pdf);
            want().ok = Ok2::Usage;
            run(&[b"parse", b"-i", b"/d/m.md", b"-o", fmt], outcome)
        }
        _ => {
            want().ok = Ok2::Init;
            if pdf {
                v.dir(b"/h/.config/smd");
                v.file(b"/h/.config/smd/config.toml", b"mine");
                want().ok = Ok2::Usage;
            }
            run(&[b"initialize"], outcome)
        }
    }
}
fn outcome(code: i32) {
    let v = w();
    let q = want();
    if code != 0 {
        // only where something went wrong, and never silently
        sym::assert(v.failed > 0 || v.chrome_failed || q.ok == Ok2::Usage || q.bad_config, 1);
        sym::assert(!v.stderr.is_empty(), 2);
        return;
    }
    sym::assert(q.ok != Ok2::Usage && !v.chrome_failed, 3);
    // one that cannot even be looked for counts as absent
    sym::assert(!q.bad_config || v.failed > 0, 7);
    if q.ok == Ok2::Init {
        // complete: it loads
        let c = content(b"/h/.config/smd/config.toml").unwrap_or_default();
        let c = smd_core::config::Config::parse_from_str(unsafe { std::str::from_utf8_unchecked(&c) });
        return sym::assert(c.is_ok(), 4);
    }
    let out = [&q.input[..q.input.len() - 2], if q.pdf { b"pdf" as &[u8] } else { b"html" }].concat();
    let html = gfm::Parser::render(unsafe { std::str::from_utf8_unchecked(&q.doc) });
    let exp = if q.pdf { vfs::printed(html.as_bytes()) } else { html.into_bytes() };
    match content(&out) {
        None => sym::fail(5),
        Some(c) => sym::assert_eq(&c, &exp, 6),
    }
}
