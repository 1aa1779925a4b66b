//! Reading HTML: a strict tokenizer for what a renderer may emit, and the
//! three judgements built on it (canonical form, markup, nesting, targets).

/// Void elements of HTML
fn is_void(n: &[u8]) -> bool {
    matches!(n, b"br" | b"hr" | b"img" | b"input")
}

/// Elements before and after which white space is insignificant
fn is_block(n: &[u8]) -> bool {
    matches!(
        n,
        b"p" | b"h1" | b"h2" | b"h3" | b"h4" | b"h5" | b"h6" | b"ul" | b"ol" | b"li" | b"table" | b"thead"
            | b"tbody" | b"tr" | b"th" | b"td" | b"blockquote" | b"pre" | b"hr" | b"div" | b"details" | b"summary"
    )
}

/// What the renderer may emit: elements and, for each, the attributes
fn allowed(name: &[u8], attr: &[u8]) -> bool {
    match name {
        b"p" | b"ol" | b"em" | b"strong" | b"strike" | b"pre" | b"thead" | b"tbody" | b"tr" | b"blockquote" | b"hr"
        | b"br" | b"details" | b"summary" => attr.is_empty(),
        b"h1" | b"h2" | b"h3" | b"h4" | b"h5" | b"h6" => matches!(attr, b"" | b"id"),
        b"code" => matches!(attr, b"" | b"class"),
        b"ul" => matches!(attr, b"" | b"class"),
        b"li" => matches!(attr, b"" | b"class" | b"id" | b"role"),
        b"input" => matches!(attr, b"" | b"type" | b"class" | b"checked"),
        b"table" => matches!(attr, b"" | b"class"),
        b"th" | b"td" => matches!(attr, b"" | b"style"),
        b"a" => matches!(attr, b"" | b"href" | b"title" | b"class" | b"rel" | b"role"),
        b"img" => matches!(attr, b"" | b"src" | b"alt" | b"referrerpolicy"),
        b"sup" => matches!(attr, b"" | b"id" | b"role"),
        b"div" => matches!(attr, b"" | b"class" | b"role"),
        _ => false,
    }
}

pub struct Attr {
    pub name: Vec<u8>,
    pub value: Vec<u8>,
}

pub enum Ev {
    Text(Vec<u8>),
    Open(Vec<u8>, Vec<Attr>),
    Close(Vec<u8>),
}

/// The characters an entity at the head of `s` stands for, and its length
fn entity(s: &[u8]) -> Option<(u8, usize)> {
    const T: &[(&[u8], u8)] = &[
        (b"&amp;", b'&'),
        (b"&lt;", b'<'),
        (b"&gt;", b'>'),
        (b"&quot;", b'"'),
        (b"&apos;", b'\''),
        (b"&lbrack;", b'['),
        (b"&lsqb;", b'['),
        (b"&rbrack;", b']'),
        (b"&rsqb;", b']'),
        (b"&lbrace;", b'{'),
        (b"&lcub;", b'{'),
        (b"&rbrace;", b'}'),
        (b"&rcub;", b'}'),
        (b"&vert;", b'|'),
        (b"&verbar;", b'|'),
        (b"&lpar;", b'('),
        (b"&rpar;", b')'),
        (b"&bsol;", b'\\'),
        (b"&grave;", b'`'),
        (b"&ast;", b'*'),
        (b"&lowbar;", b'_'),
        (b"&num;", b'#'),
        (b"&excl;", b'!'),
    ];
    let mut i = 0;
    while i < T.len() {
        let (n, c) = T[i];
        if s.len() >= n.len() && &s[..n.len()] == n {
            return Some((c, n.len()));
        }
        i += 1;
    }
    // decimal and hexadecimal references to ASCII characters
    if s.len() >= 4 && s[1] == b'#' {
        let hex = s[2] == b'x' || s[2] == b'X';
        let mut k = if hex { 3 } else { 2 };
        let mut v: u32 = 0;
        let mut digits = 0;
        while k < s.len() && digits < 4 {
            let d = match s[k] {
                c @ b'0'..=b'9' => (c - b'0') as u32,
                c @ b'a'..=b'f' if hex => (c - b'a' + 10) as u32,
                c @ b'A'..=b'F' if hex => (c - b'A' + 10) as u32,
                _ => break,
            };
            v = v * if hex { 16 } else { 10 } + d;
            digits += 1;
            k += 1;
        }
        if digits > 0 && k < s.len() && s[k] == b';' && v > 0 && v < 128 {
            return Some((v as u8, k + 1));
        }
    }
    None
}

/// Tokenizes HTML. None: not something the renderer may emit. With `amp`, a
/// bare '&' is not accepted either.
pub fn tokens(h: &[u8], amp: bool) -> Option<Vec<Ev>> {
    let mut evs = Vec::new();
    let mut text: Vec<u8> = Vec::new();
    let n = h.len();
    let mut i = 0;
    while i < n {
        let c = h[i];
        if c == b'&' {
            match entity(&h[i..]) {
                Some((c, l)) => {
                    text.push(c);
                    i += l;
                }
                None if amp => return None,
                None => {
                    text.push(b'&');
                    i += 1;
                }
            }
            continue;
        }
        if c != b'<' {
            text.push(c);
            i += 1;
            continue;
        }
        if !text.is_empty() {
            evs.push(Ev::Text(core::mem::take(&mut text)));
        }
        i += 1;
        let close = i < n && h[i] == b'/';
        if close {
            i += 1;
        }
        let mut name: Vec<u8> = Vec::new();
        while i < n && (h[i].is_ascii_lowercase() || (!name.is_empty() && h[i].is_ascii_digit())) {
            name.push(h[i]);
            i += 1;
        }
        if name.is_empty() || !allowed(&name, b"") {
            return None;
        }
        if close {
            if i >= n || h[i] != b'>' || is_void(&name) {
                return None;
            }
            i += 1;
            evs.push(Ev::Close(name));
            continue;
        }
        let mut attrs: Vec<Attr> = Vec::new();
        loop {
            if i >= n {
                return None;
            }
            if h[i] == b'>' {
                i += 1;
                break;
            }
            if h[i] != b' ' {
                return None;
            }
            while i < n && h[i] == b' ' {
                i += 1;
            }
            if i + 1 < n && h[i] == b'/' && h[i + 1] == b'>' {
                if !is_void(&name) {
                    return None;
                }
                i += 2;
                break;
            }
            let mut an: Vec<u8> = Vec::new();
            while i < n && h[i].is_ascii_lowercase() {
                an.push(h[i]);
                i += 1;
            }
            if an.is_empty() || !allowed(&name, &an) || attrs.iter().any(|a| a.name == an) {
                return None;
            }
            if i + 1 >= n || h[i] != b'=' || h[i + 1] != b'"' {
                return None;
            }
            i += 2;
            let mut value: Vec<u8> = Vec::new();
            loop {
                if i >= n {
                    return None;
                }
                let c = h[i];
                if c == b'"' {
                    i += 1;
                    break;
                }
                if c == b'<' || c == b'>' {
                    return None;
                }
                if c == b'&' {
                    match entity(&h[i..]) {
                        Some((c, l)) => {
                            value.push(c);
                            i += l;
                        }
                        None if amp => return None,
                        None => {
                            value.push(c);
                            i += 1;
                        }
                    }
                    continue;
                }
                value.push(c);
                i += 1;
            }
            attrs.push(Attr { name: an, value });
        }
        evs.push(Ev::Open(name, attrs));
    }
    if !text.is_empty() {
        evs.push(Ev::Text(text));
    }
    Some(evs)
}

/// Every opened element is closed once, in nesting order. Blocks do not sit
/// inside paragraphs or headings.
pub fn balanced(evs: &[Ev]) -> bool {
    let mut stack: Vec<&[u8]> = Vec::new();
    for e in evs {
        match e {
            Ev::Open(n, _) => {
                if is_block(n)
                    && stack.iter().any(|s| {
                        matches!(*s, b"p" | b"h1" | b"h2" | b"h3" | b"h4" | b"h5" | b"h6" | b"em" | b"strong" | b"a")
                    })
                {
                    return false;
                }
                if !is_void(n) {
                    stack.push(n)
                }
            }
            Ev::Close(n) => match stack.pop() {
                Some(m) if m == &n[..] => {}
                _ => return false,
            },
            _ => {}
        }
    }
    stack.is_empty()
}

fn starts_with_nocase(s: &[u8], p: &[u8]) -> bool {
    if s.len() < p.len() {
        return false;
    }
    let mut i = 0;
    while i < p.len() {
        if s[i].to_ascii_lowercase() != p[i] {
            return false;
        }
        i += 1;
    }
    true
}

/// No target that a browser would run as a script
pub fn safe_targets(evs: &[Ev]) -> bool {
    for e in evs {
        if let Ev::Open(_, attrs) = e {
            for a in attrs {
                if !matches!(&a.name[..], b"href" | b"src") {
                    continue;
                }
                // what a browser looks at: leading controls and blanks
                // skipped, tabs and line breaks dropped
                let mut u: Vec<u8> = Vec::new();
                for &c in &a.value {
                    if (u.is_empty() && c <= b' ') || c == b'\t' || c == b'\n' || c == b'\r' {
                        continue;
                    }
                    u.push(c);
                }
                if starts_with_nocase(&u, b"javascript:") {
                    return false;
                }
                if starts_with_nocase(&u, b"data:") && !starts_with_nocase(&u, b"data:image/") && u != b"data:," {
                    return false;
                }
            }
        }
    }
    true
}

pub const OPEN: u8 = 1;
pub const CLOSE: u8 = 2;
pub const END: u8 = 3;
pub const ATTR: u8 = 4;
pub const IS: u8 = 5;

fn unpct(v: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < v.len() {
        if v[i] == b'%' && i + 2 < v.len() {
            let h = |c: u8| match c {
                b'0'..=b'9' => Some(c - b'0'),
                b'A'..=b'F' => Some(c - b'A' + 10),
                b'a'..=b'f' => Some(c - b'a' + 10),
                _ => None,
            };
            if let (Some(a), Some(b)) = (h(v[i + 1]), h(v[i + 2])) {
                o.push(a * 16 + b);
                i += 3;
                continue;
            }
        }
        o.push(v[i]);
        i += 1;
    }
    o
}

/// Canonical form of a document: markup spelled with control bytes, text and
/// attribute values decoded, insignificant white space between blocks
/// dropped. Something the renderer may not emit gives "!".
pub fn canon(h: &[u8], pct: bool) -> Vec<u8> {
    let evs = match tokens(h, true) {
        Some(e) => e,
        None => return b"!".to_vec(),
    };
    let mut o: Vec<u8> = Vec::with_capacity(h.len());
    let mut pre = 0;
    let blockish = |e: Option<&Ev>| match e {
        None => true,
        Some(Ev::Open(n, _)) | Some(Ev::Close(n)) => is_block(n),
        _ => false,
    };
    for k in 0..evs.len() {
        match &evs[k] {
            Ev::Text(t) => {
                let mut a = 0;
                let mut b = t.len();
                let before = if k == 0 { None } else { Some(&evs[k - 1]) };
                if pre == 0 {
                    if blockish(before) {
                        while a < b && (t[a] == b'\n' || t[a] == b'\t') {
                            a += 1;
                        }
                    }
                    if blockish(evs.get(k + 1)) {
                        while a < b && (t[b - 1] == b'\n' || t[b - 1] == b'\t') {
                            b -= 1;
                        }
                    }
                }
                o.extend_from_slice(&t[a..b]);
            }
            Ev::Open(n, attrs) => {
                if n == b"pre" {
                    pre += 1
                }
                o.push(OPEN);
                o.extend_from_slice(n);
                for a in attrs {
                    o.push(ATTR);
                    o.extend_from_slice(&a.name);
                    o.push(IS);
                    if pct && matches!(&a.name[..], b"href" | b"src") {
                        o.extend_from_slice(&unpct(&a.value))
                    } else {
                        o.extend_from_slice(&a.value)
                    }
                }
                o.push(END);
            }
            Ev::Close(n) => {
                if n == b"pre" && pre > 0 {
                    pre -= 1
                }
                o.push(CLOSE);
                o.extend_from_slice(n);
                o.push(END);
            }
        }
    }
    o
}

/// The visible text of a document
pub fn text(evs: &[Ev]) -> Vec<u8> {
    let mut o = Vec::new();
    for e in evs {
        if let Ev::Text(t) = e {
            o.extend_from_slice(t)
        }
    }
    o
}

/// What the attributes say that the document wrote
pub fn hidden(evs: &[Ev]) -> Vec<u8> {
    let mut o = Vec::new();
    for e in evs {
        if let Ev::Open(n, attrs) = e {
            for a in attrs {
                match &a.name[..] {
                    b"id" | b"src" | b"alt" | b"title" => o.extend_from_slice(&a.value),
                    b"href" => o.extend_from_slice(&a.value),
                    b"class" if n == b"code" && a.value.len() > 9 => o.extend_from_slice(&a.value[9..]),
                    _ => {}
                }
            }
        }
    }
    o
}
