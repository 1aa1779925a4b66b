//! What is checked, property by property.
use crate::{html, sym, tpl};

type T = (&'static str, &'static str);

macro_rules! th {
    ($a:literal, $t:literal) => {
        concat!("<th style=\"text-align: ", $a, "\">", $t, "</th>")
    };
}

macro_rules! td {
    ($a:literal, $t:literal) => {
        concat!("<td style=\"text-align: ", $a, "\">", $t, "</td>")
    };
}

macro_rules! table {
    ([$($h:expr),*] $([$($c:expr),*])*) => {
        concat!("<table class=\"table table-bordered\"><thead><tr>", $($h,)* "</tr></thead><tbody>",
            $("<tr>", $($c,)* "</tr>",)* "</tbody></table>")
    };
}

macro_rules! fref {
    ($i:literal) => {
        concat!(
            "<sup id=\"fnref:", $i, "\" role=\"doc-noteref\"><a href=\"#fn:", $i,
            "\" class=\"footnote\" rel=\"footnote\">", $i, "</a></sup>"
        )
    };
}

macro_rules! fnote {
    ($i:literal, $t:literal) => {
        concat!(
            "<li id=\"fn:", $i, "\" role=\"doc-endnote\"><p>", $t, "<a href=\"#fnref:", $i,
            "\" class=\"reversefootnote\" role=\"doc-backlink\">\u{21a9}</a></p></li>"
        )
    };
}

macro_rules! notes {
    ($($x:expr),*) => {
        concat!("<div class=\"footnotes\" role=\"doc-endnotes\"><ol>", $($x,)* "</ol></div>")
    };
}

// ------------------------------------------------- arbitrary documents (C01, C02)

/// Documents around which everything is symbolic: every construct, whole,
/// unfinished and nested. `%z`: ASCII bytes, `%y`/`%x`: construct characters.
pub static FREE: &[&str] = &[
    "%z",
    "a%z",
    "%y",
    "a\n%y",
    "a\n\n%y",
    "# %y",
    "#%y\nb",
    "# a {#%y}",
    "# a {#b%y",
    "###### a %y",
    "*%y*",
    "**%y**",
    "_a%y_",
    "***%y",
    "~~%y~~",
    "~~a%y",
    "`%y`",
    "``%y`",
    "```%y\na\n```",
    "```\n%y\n```",
    "```\na\n%y",
    "    %y",
    "\t%y\n\ta",
    "a\n    %y",
    "- %y",
    "- a\n%y",
    "- a\n  %y",
    "- a\n\t%y",
    "- a\n\n\t%y",
    "- a\n\n\t\t%y",
    "+ %y\n+ b",
    "* %y\n* b",
    "- [%y] a",
    "- [ ] %y",
    "- [x] a\n%y",
    "1. %y",
    "1%y a",
    "12. a\n%y",
    "> %y",
    "> a\n%y",
    ">> a\n> %y",
    ">%y a",
    "> > %y",
    "> - %y",
    "---%y",
    "**%y*",
    "- - %y",
    "[%y](b)",
    "[a](%y)",
    "[a](b %y)",
    "[a](b \"%y\")",
    "[a]%y",
    "![%y](b)",
    "![a](%y)",
    "!%y",
    "<%y>",
    "<a:%y>",
    "<a@b%y>",
    "<%y",
    "[^%y]",
    "[^%y]: b",
    "[^a]: %y",
    "[^a]: b\n%y",
    "[^a]: b\n  %y",
    "[^a]%y\n\n[^a]: b",
    "|%y|\n|-|\n|b|",
    "|a|\n|%y|\n|b|",
    "|a|\n|-|\n|%y|",
    "|a|b|\n|-|-|\n|%y|c|",
    "|a|\n|:-:|\n%y",
    "|a|\n|-|\n|b|\n%y",
    "|%y",
    "<details>\n<summary>%y</summary>\nb\n</details>",
    "<details>\n<summary>a</summary>\n%y\n</details>",
    "<details>\n<summary>a</summary>\n%y",
    "<details>\n%y</details>",
    "<details>%y\n<summary>a</summary>\nb</details>",
    "<details>\n<summary>a</summary>\n<details>\n<summary>b</summary>\n%y</details>\n</details>",
    "a\n<details>\n<summary>b</summary>\nc\n</details>%y",
    "\\%y",
    "a\\%yb",
    "a  \n%y",
    "a  %y\nb",
    "%0\r\n%1",
    "a\r%0",
    "%W%0",
    "%0%W%1",
    "[%W](%0)",
    "*%W%0",
    "# %W%0",
    "|%W|\n|-|\n|%0|",
    "- %W%0\n  %W",
    "> %W%0",
    "`%W%0",
    "<%W%0>",
    "1. %W%0",
    "_%W_%0",
    "%V_a_%0",
    "%0\u{2028}%1",
    "a\u{a0}%0",
    "\u{a0}%0",
    "# \u{a0}%0",
    "*\u{3000}%0*",
    "[^\u{3000}%0]: a",
    "%0\n%1\n%2",
    "%0%1\n%2%3",
    "%0\n\n%1",
    "%0 a\n%1 b",
    "%0 a\n\n%1 b\n\n",
    "%0 a\n  %1 b",
    "%0 a\n\t%1 b",
    "- [ ]%y",
    "- [x]%y",
    "1.%y\n2. b",
    "a%y: b",
    "- a\n- b%y",
    "# a\n%y# b",
    "> a\n>%y",
    ">>> a\n>%y",
    "|a|b|\n|-|%y|\n|c|d|",
    "[a](b)%y[c](d)",
    "*a*%y*b*",
    "**a%y",
    "<a:b>%y",
    "```a\nb\n``%y",
    "~~~%y\na\n~~~",
    "%U%0",
    "%0%U%1",
    "*%U%0*",
    "- %U%0",
    "# %U%0",
    "> %U%0",
    "1. %U%0",
    "|%U|\n|-|\n|%0|",
    "[%U](%0)",
    "[a](%U%0)",
    "`%U%0`",
    "<%U:%0>",
    "[^%U]%0",
    "- [ ] %W%0",
    "<details>\n<summary>%W%0</summary>\n%W\n</details>",
    "%{300|-%}%y",
    "%{100|>%} %0",
    "%{60|#%}%y",
    "%{60|*%}%0",
    "%{60|`%}%0",
    "%{60|[%}%0",
    "%{60|(%}%0",
    "%{30|![%}%0",
    "%{60|<%}%0",
    "%{60|_%}%0a%{60|_%}",
    "%{60||%}%0",
    "%{40|- a%#\n%}%0",
    "%{40|line %#\n%}%0",
    "[a](%{200|x%}%0)",
    "%{20|a\n\n%}%0",
    "%{70|a\n%}%y",
    "%{70|a\n\n%}%y",
    "%{20|- a\n%}%y",
    "%{20|1. a\n%}%y",
    "%{20|> a\n%}%y",
    "%{20|# a\n%}%y",
    "%{20|*a* %}%y",
    "%{20|[a](b) %}%y",
    "%{20|`a` %}%y",
    "|a|\n|-|\n%{20||b|\n%}%y",
    "%{20|- [ ] a\n%}%y",
    "%{20|[^a%#]%}%y",
    "%{20|    a\n%}%y",
];

pub fn free_jobs(_t: u32) -> u32 {
    FREE.len() as u32
}
/// templates of fixed length need one stage only
fn done(j: u32, t: u32) -> bool {
    let tp = FREE[j as usize];
    long(tp, t) || t != (if tp.contains("%3") { 3 } else { 1 }) && !tp.contains("%y") && !tp.contains("%z")
}

/// rendering ends, without a panic, in a string
pub fn c01(j: u32, t: u32) {
    if done(j, t) {
        return sym::reach(1);
    }
    let r = tpl::free(FREE[j as usize], 1 + t);
    sym::assert(r.len() < 100_000, 1);
    sym::reach(1);
}

/// only the renderer's own markup
pub fn c02(j: u32, t: u32) {
    if done(j, t) {
        return sym::reach(1);
    }
    let r = tpl::free(FREE[j as usize], 1 + t);
    let ok = html::tokens(r.as_bytes(), true).is_some();
    sym::assert(ok, 1);
    sym::reach(1);
}

// ------------------------------------------------------------------ blocks

/// One of each block, with the HTML it stands for. `g`: blocks of the same
/// group continue each other across a blank line.
pub static BLOCKS: &[T] = &[
    ("%a %b", "<p>%a %b</p>"),
    ("## %h", "<h2>%h</h2>"),
    ("%R%R%R", "<hr />"),
    ("- %a\n- %b", "<ul><li><p>%a</p></li><li><p>%b</p></li></ul>"),
    ("1. %a\n2. %b", "<ol><li>%a</li><li>%b</li></ol>"),
    (
        "- [ ] %a\n- [x] %b",
        "<ul class=\"contains-task-list\"><li class=\"task-list-item\"><input type=\"checkbox\" class=\"task-list-item-checkbox\">%a</li><li class=\"task-list-item\"><input type=\"checkbox\" class=\"task-list-item-checkbox\" checked=\"\">%b</li></ul>",
    ),
    ("> %a", "<blockquote><p>%a</p></blockquote>"),
    (
        "|%r|\n|-|\n|%s|",
        "<table class=\"table table-bordered\"><thead><tr><th style=\"text-align: left\">%r</th></tr></thead><tbody><tr><td style=\"text-align: left\">%s</td></tr></tbody></table>",
    ),
    ("```\n%l\n```", "<pre><code>%l\n</code></pre>"),
    ("    %l", "<pre><code>%l\n</code></pre>"),
    (
        "<details>\n<summary>%g</summary>\n%a\n</details>",
        "<details><summary>%g</summary><p>%a</p></details>",
    ),
    ("%a\n%b", "<p>%a\n%b</p>"),
    ("*%e* %a", "<p><em>%e</em> %a</p>"),
    ("[%e](%u)", "<p><a href=\"%u\">%e</a></p>"),
];

/// blocks that continue each other across a blank line
fn merges(a: usize, b: usize) -> bool {
    a == b && matches!(a, 3 | 4 | 5 | 6 | 9)
}

/// stages: pairs, pairs + 1, triples, pairs + 2, triples + 1, ...
pub fn c08_jobs(t: u32) -> u32 {
    let n = BLOCKS.len() as u32;
    if c08_pairs(t) {
        n * n
    } else {
        n * n * n
    }
}
fn c08_pairs(t: u32) -> bool {
    t == 0 || t % 2 == 1
}
pub fn c08(j: u32, t: u32) {
    let n = BLOCKS.len();
    let j = j as usize;
    let (a, b, c) = (j % n, j / n % n, j / n / n);
    if c08_pairs(t) {
        if merges(a, b) {
            return sym::reach(1);
        }
        tpl::equal(&[BLOCKS[a], BLOCKS[b]], "\n\n", t.div_ceil(2), false)
    } else {
        if merges(a, b) || merges(b, c) {
            return sym::reach(1);
        }
        tpl::equal(&[BLOCKS[a], BLOCKS[b], BLOCKS[c]], "\n\n", (t - 2) / 2, false)
    }
}

/// Line beginnings of every block, complete or not
pub static LINES: &[&str] = &[
    "%K",
    "",
    "# %K",
    "---",
    "- %K",
    "* %K",
    "1. %K",
    "- [x] %K",
    "> %K",
    ">> %K",
    "|%K|",
    "|-|",
    "```",
    "    %K",
    "  - %K",
    "\t%K",
    "<details>",
    "<summary>%K</summary>",
    "</details>",
    "[^%K]: %K",
    "[%K](%K)",
    "*%K",
    "%K*",
    "`%K",
    "%K  ",
];

/// stages 0..2: arbitrary documents and all sequences of two, two and three
/// lines; stage 3: all sequences of four lines; from 4: arbitrary documents
fn c04_lines(t: u32) -> u32 {
    [2, 0, 3, 4, 0, 0, 0, 0][t as usize]
}
fn c04_free(t: u32) -> u32 {
    [1, 2, 3, 0, 4, 5, 6, 7][t as usize]
}
pub fn c04_jobs(t: u32) -> u32 {
    let n = LINES.len() as u32;
    let l = c04_lines(t);
    (if c04_free(t) > 0 { free_jobs(t) } else { 0 }) + if l > 0 { n.pow(l) } else { 0 }
}
/// Sequence `q` of `k` line forms
fn lines_doc(mut q: u32, k: u32) -> Vec<u8> {
    let n = LINES.len() as u32;
    let mut h = tpl::Holes::new(1);
    let mut src = Vec::new();
    for i in 0..k {
        if i > 0 {
            src.push(b'\n')
        }
        h.src(LINES[(q % n) as usize], i as u8, &mut src);
        q /= n;
    }
    src
}
/// Stage t of a check over arbitrary documents (1 + t free bytes) and line
/// sequences (two lines at stage 0, three at stage 2)
fn any_lines(t: u32) -> u32 {
    [2, 0, 3, 0, 0, 0][t as usize]
}
pub fn any_jobs(t: u32) -> u32 {
    let l = any_lines(t);
    free_jobs(t) + if l > 0 { (LINES.len() as u32).pow(l) } else { 0 }
}
fn any_doc(j: u32, t: u32) -> Option<Vec<u8>> {
    let f = free_jobs(t);
    if j >= f {
        return Some(lines_doc(j - f, any_lines(t)));
    }
    if done(j, t) {
        return None;
    }
    let mut h = tpl::Holes::new(1 + t);
    let mut src = Vec::new();
    h.src(FREE[j as usize], 0, &mut src);
    Some(src)
}

/// every element that is opened is closed, in nesting order
pub fn c04(j: u32, t: u32) {
    let f = if c04_free(t) > 0 { free_jobs(t) } else { 0 };
    let r = if j < f {
        if done(j, t) {
            return sym::reach(1);
        }
        tpl::free(FREE[j as usize], c04_free(t))
    } else {
        let src = lines_doc(j - f, c04_lines(t));
        sym::out(0, &src);
        let r = tpl::render(&src);
        sym::out(1, r.as_bytes());
        r
    };
    let ok = match html::tokens(r.as_bytes(), false) {
        Some(e) => html::balanced(&e),
        None => false,
    };
    sym::assert(ok, 1);
    sym::reach(1);
}

// ------------------------------------------------------------------ C03

const J: &[(&str, &str)] = &[
    ("[a](", ")"),
    ("[a](", " \"t\")"),
    ("![a](", ")"),
    ("![](", ")"),
    ("<", ">"),
    ("|a|\n|-|\n|[b](", ")|"),
    ("- <", ">"),
    ("> [a](", ")"),
    ("# [a](", ")"),
    ("[![a](", ")](b)"),
    ("[a]( ", ")"),
    ("[a](b)[c](", ") d"),
    ("<details>\n<summary>a</summary>\n[b](", ")\n</details>"),
    ("- a\n  - ![b](", " 't')"),
];
/// what comes before the scheme, how many scheme letters, what follows
const S: &[(&str, &str, &str)] = &[
    ("", "javascript", ":%x"),
    ("", "javascript", "%x:a"),
    ("%z", "javascript", ":a"),
    ("a@", "javascript", ":a"),
    ("", "javascript", ":a@b"),
    ("", "javascript", ":a@b:c"),
    ("", "javascript", "://a.b/c?d#e"),
    ("", "data", ":%x"),
    ("", "data", ":text/html,%x"),
    ("", "data", ":%x@b"),
    ("%z", "data", ":a"),
    ("", "data", ":image/%x"),
    ("", "data", ":imag%x"),
    ("", "data", ":%x:image/png"),
    ("", "data", ":image%x"),
    ("", "data", ":image%xa/b"),
    ("", "data", ":image"),
    ("", "data", ",image/%x"),
    ("javascript", "", "&colon;%x"),
    ("javascript", "", "&#58;%x"),
    ("JavaScript", "", "&#x3a;%x"),
    ("a:", "javascript", ":b"),
    ("#", "javascript", ":b"),
    ("%x", "javascript", ":b@c"),
];
pub fn c03_jobs(_t: u32) -> u32 {
    (J.len() * S.len() + C03X.len()) as u32
}
/// rejected targets stay visible as text
pub static C03X: &[T] = &[
    ("[%g](jAvascript:%i)", "<p>[%g](jAvascript:%i)</p>"),
    ("![%g](JAVASCRIPT:%i)", "<p>![%g](JAVASCRIPT:%i)</p>"),
    ("<javascript:%i>", "<p>&lt;javascript:%i&gt;</p>"),
    ("[%g](data:text/%i)", "<p>[%g](data:text/%i)</p>"),
    ("<data:%i>", "<p>&lt;data:%i&gt;</p>"),
    ("![%g](data:image/%i)", "<p><img src=\"data:image/%i\" alt=\"%g\" referrerpolicy=\"no-referrer\"></p>"),
];
pub fn c03(j: u32, t: u32) {
    let j = j as usize;
    if j >= J.len() * S.len() {
        return tpl::equal(&[C03X[j - J.len() * S.len()]], "", t, false);
    }
    let (pre, post) = J[j % J.len()];
    let (before, scheme, after) = S[j / J.len()];
    let mut h = tpl::Holes::new(t);
    let mut src = Vec::new();
    h.src(pre, 0, &mut src);
    h.src(before, 1, &mut src);
    // every letter in either case
    for &c in scheme.as_bytes() {
        src.extend_from_slice(&sym::bytes(1, &sym::dom(&[c, c.to_ascii_uppercase()])));
    }
    h.src(after, 2, &mut src);
    h.src(post, 3, &mut src);
    sym::out(0, &src);
    let r = tpl::render(&src);
    sym::out(1, r.as_bytes());
    let ok = match html::tokens(r.as_bytes(), false) {
        Some(e) => html::safe_targets(&e),
        None => false,
    };
    sym::assert(ok, 1);
    sym::reach(1);
}

// ------------------------------------------------------------------ constructs

/// long documents get one further symbolic byte at most
fn long(tp: &str, t: u32) -> bool {
    t > 1 && tp.contains("%{")
}
macro_rules! plain {
    ($f:ident $t:ident) => {
        pub fn $f(j: u32, t: u32) {
            if long($t[j as usize].0, t) {
                return sym::reach(1);
            }
            tpl::equal(&[$t[j as usize]], "", t, false)
        }
    };
}

plain!(c05 C05);
pub static C05: &[T] = &[
    ("%a", "<p>%a</p>"),
    ("%a %b", "<p>%a %b</p>"),
    ("%a%B%b", "<p>%a%B%b</p>"),
    ("%a\n%b", "<p>%a\n%b</p>"),
    ("%a%L%b%L", "<p>%a\n%b</p>"),
    ("%a\n\n%b", "<p>%a</p><p>%b</p>"),
    ("%a%L%L%b", "<p>%a</p><p>%b</p>"),
    ("%a\n\n\n\n%b\n", "<p>%a</p><p>%b</p>"),
    ("%a\n \t\n%b", "<p>%a</p><p>%b</p>"),
    ("\n\n%a", "<p>%a</p>"),
    ("%n", "<p>%n</p>"),
    ("%n %a", "<p>%n %a</p>"),
    ("%W%W", "<p>%W%W</p>"),
    ("%a %W\n%W", "<p>%a %W\n%W</p>"),
    ("%K < %A", "<p>%K &lt; %A</p>"),
    ("%K <%A", "<p>%K &lt;%A</p>"),
    ("%K * %A", "<p>%K * %A</p>"),
    ("%K_%A_%E", "<p>%K_%A_%E</p>"),
    ("%K! %A", "<p>%K! %A</p>"),
    ("%K ~ %A", "<p>%K ~ %A</p>"),
    ("%K [%A]", "<p>%K [%A]</p>"),
    ("%K [ %A", "<p>%K [ %A</p>"),
    ("%K * %A\n\n%E", "<p>%K * %A</p><p>%E</p>"),
    ("%K `%A", "<p>%K `%A</p>"),
    ("%K\\%A", "<p>%K\\%A</p>"),
    ("%K - %A\n%E + %F", "<p>%K - %A\n%E + %F</p>"),
    ("%K # %A", "<p>%K # %A</p>"),
    ("%o", "<p>%o</p>"),
    ("%o.%o", "<p>%o.%o</p>"),
    ("%a  \n%b", "<p>%a<br />\n%b</p>"),
    ("%a    \n%b", "<p>%a<br />\n%b</p>"),
    ("%K <%A>", "<p>%K &lt;%A&gt;</p>"),
    ("%K **%A", "<p>%K **%A</p>"),
    ("%K ~~%A", "<p>%K ~~%A</p>"),
    ("%K\n\n%A\n\n%E\n\n%F", "<p>%K</p><p>%A</p><p>%E</p><p>%F</p>"),
    ("-%a", "<p>-%a</p>"),
    ("+%a", "<p>+%a</p>"),
    (">%a", "<p>&gt;%a</p>"),
    ("|%a", "<p>|%a</p>"),
    ("(%a) \"%b\"", "<p>(%a) \"%b\"</p>"),
    ("%a%U%b", "<p>%a%U%b</p>"),
    ("%a %U %b", "<p>%a %U %b</p>"),
    ("%U%a", "<p>%U%a</p>"),
    ("%a%U", "<p>%a%U</p>"),
    ("%a\n%U%b", "<p>%a\n%U%b</p>"),
    ("%a%U\n%b", "<p>%a%U\n%b</p>"),
    ("%a%U\n\n%U%b", "<p>%a%U</p><p>%U%b</p>"),
    ("%a\t%b", "<p>%a\t%b</p>"),
    ("%{40|word%# %}%a", "<p>%{40|word%# %}%a</p>"),
    ("%{30|line %#\n%}%a", "<p>%{30|line %#\n%}%a</p>"),
    ("%{12|%K %#\n\n%}%a", "%{12|<p>%K %#</p>%}<p>%a</p>"),
    ("%{300|x%}%a", "<p>%{300|x%}%a</p>"),
    ("%K*", "<p>%K*</p>"),
    ("%K_", "<p>%K_</p>"),
    ("%K`", "<p>%K`</p>"),
    ("%K~", "<p>%K~</p>"),
    ("%K[", "<p>%K[</p>"),
    ("%K]", "<p>%K]</p>"),
    ("%K<", "<p>%K&lt;</p>"),
    ("%K>", "<p>%K&gt;</p>"),
    ("%K#", "<p>%K#</p>"),
    ("%K!", "<p>%K!</p>"),
    ("%K|", "<p>%K|</p>"),
    ("%K-", "<p>%K-</p>"),
    ("%K ~~", "<p>%K ~~</p>"),
    ("*", "<p>*</p>"),
    ("`", "<p>`</p>"),
    ("~", "<p>~</p>"),
    ("[", "<p>[</p>"),
    ("!", "<p>!</p>"),
    ("<", "<p>&lt;</p>"),
    ("]", "<p>]</p>"),
    (")", "<p>)</p>"),
    ("_", "<p>_</p>"),
    ("%K: %A; %E, %F. %G? %H!", "<p>%K: %A; %E, %F. %G? %H!</p>"),
    ("%K ![%A", "<p>%K ![%A</p>"),
    ("%K [%A](", "<p>%K [%A](</p>"),
    ("%K __%A", "<p>%K __%A</p>"),
    ("%K ***%A", "<p>%K ***%A</p>"),
    ("%K ``%A`", "<p>%K ``%A`</p>"),
    ("%K\n*%A", "<p>%K\n*%A</p>"),
    ("%K\n`%A\n%E", "<p>%K\n`%A\n%E</p>"),
    ("%{70|%K%#%L%}%a", "<p>%{70|%K%#\n%}%a</p>"),
    ("%{70|%K%#\n\n%}%a", "%{70|<p>%K%#</p>%}<p>%a</p>"),
    ("%{300|a%}%a %{300|b%}", "<p>%{300|a%}%a %{300|b%}</p>"),
    ("%K\n\n\n\n\n\n\n%A", "<p>%K</p><p>%A</p>"),
    ("%K  \t\n%A", "<p>%K  \t\n%A</p>"),
    ("%K\t  \n%A", "<p>%K<br />\n%A</p>"),
    ("%K%T", "<p>%K</p>"),
    ("%K%T%T", "<p>%K</p>"),
    ("%K%T\n\n%A", "<p>%K</p><p>%A</p>"),
    ("%K%T%T\n\n%A", "<p>%K</p><p>%A</p>"),
    ("%K%T\n%A", "<p>%K%T\n%A</p>"),
    ("-*%e*", "<p>-<em>%e</em></p>"),
    ("+`%k`", "<p>+<code>%k</code></p>"),
    ("[*%e*]", "<p>[<em>%e</em>]</p>"),
    ("[`%k`](", "<p>[<code>%k</code>](</p>"),
    ("[**%e**](javascript:%K)", "<p>[<strong>%e</strong>](javascript:%K)</p>"),
    ("<*%K*>", "<p>&lt;<em>%K</em>&gt;</p>"),
    ("<`%K`", "<p>&lt;<code>%K</code></p>"),
    (">*%e*", "<p>&gt;<em>%e</em></p>"),
    ("#*%e*", "<p>#<em>%e</em></p>"),
    ("!*%e*", "<p>!<em>%e</em></p>"),
    ("|*%e*|", "<p>|<em>%e</em>|</p>"),
    ("%o*%e*", "<p>%o<em>%e</em></p>"),
    ("%o.*%e*", "<p>%o.<em>%e</em></p>"),
    ("%K\n   %A", "<p>%K\n   %A</p>"),
    ("%K\n    %A", "<p>%K\n    %A</p>"),
    ("%K\n\t%A", "<p>%K\n\t%A</p>"),
    ("%K*%A", "<p>%K*%A</p>"),
    ("%K%T%T%A", "<p>%K%T%T%A</p>"),
    ("[%K\n\n%A](%u)", "<p>[%K</p><p>%A](%u)</p>"),
    ("`%K\n\n%A`", "<p>`%K</p><p>%A`</p>"),
    ("%K `%A\n\n%E` %F", "<p>%K `%A</p><p>%E` %F</p>"),
    ("~~~~", "<p>~~~~</p>"),
    ("%K ~~~~ %A", "<p>%K ~~~~ %A</p>"),
];

plain!(c06 C06);
pub static C06: &[T] = &[
    ("# %h", "<h1>%h</h1>"),
    ("## %h", "<h2>%h</h2>"),
    ("### %h", "<h3>%h</h3>"),
    ("#### %h", "<h4>%h</h4>"),
    ("##### %h", "<h5>%h</h5>"),
    ("###### %h", "<h6>%h</h6>"),
    ("####### %h", "<p>####### %h</p>"),
    ("######## %h", "<p>######## %h</p>"),
    ("#%a", "<p>#%a</p>"),
    ("###%a", "<p>###%a</p>"),
    ("%a # %b", "<p>%a # %b</p>"),
    ("%a ## %b", "<p>%a ## %b</p>"),
    ("# %h #", "<h1>%h</h1>"),
    ("# %h ##########", "<h1>%h</h1>"),
    ("## %h ##  ", "<h2>%h</h2>"),
    ("#%B%h%B", "<h1>%h</h1>"),
    ("#\t%h", "<h1>%h</h1>"),
    ("# %h#", "<h1>%h#</h1>"),
    ("# %h # %K", "<h1>%h # %K</h1>"),
    ("# %h %K", "<h1>%h %K</h1>"),
    ("# %h\n%a", "<h1>%h</h1><p>%a</p>"),
    ("%a\n# %h", "<p>%a</p><h1>%h</h1>"),
    ("# %h\n## %K", "<h1>%h</h1><h2>%K</h2>"),
    ("%a\n### %h\n%b", "<p>%a</p><h3>%h</h3><p>%b</p>"),
    ("# %n", "<h1>%n</h1>"),
    ("###### %W ##", "<h6>%W</h6>"),
    ("# %h {#%i}", "<h1 id=\"%i\">%h</h1>"),
    ("### %h ### {#%i}", "<h3 id=\"%i\">%h</h3>"),
    ("## *%e*", "<h2><em>%e</em></h2>"),
    ("## %K `%k`", "<h2>%K <code>%k</code></h2>"),
    ("## [%e](%u)", "<h2><a href=\"%u\">%e</a></h2>"),
    ("# %o. %h", "<h1>%o. %h</h1>"),
    ("# - %h", "<h1>- %h</h1>"),
    ("# > %h", "<h1>&gt; %h</h1>"),
    ("## %h%L%L%a", "<h2>%h</h2><p>%a</p>"),
    ("\\# %a", "<p># %a</p>"),
    ("# %K & \"%A\" %E", "<h1>%K &amp; \"%A\" %E</h1>"),
    ("# %K%U%A", "<h1>%K%U%A</h1>"),
    ("# %U%h", "<h1>%U%h</h1>"),
    ("# %K%U", "<h1>%K%U</h1>"),
    ("%{6|# a%#\n%}%a", "%{6|<h1>a%#</h1>%}<p>%a</p>"),
    ("%{12|## %K %#\n\n%}", "%{12|<h2>%K %#</h2>%}"),
    ("# %{30|word%# %}%h", "<h1>%{30|word%# %}%h</h1>"),
    ("#\t%h\t#", "<h1>%h</h1>"),
    ("## %h ###### \n%a", "<h2>%h</h2><p>%a</p>"),
    ("# %h\n\n## %K\n\n### %A\n\n#### %E\n\n##### %F\n\n###### %G", "<h1>%h</h1><h2>%K</h2><h3>%A</h3><h4>%E</h4><h5>%F</h5><h6>%G</h6>"),
    ("# %h {#%i}\n%a", "<h1 id=\"%i\">%h</h1><p>%a</p>"),
    ("## %h { #%K", "<h2>%h { #%K</h2>"),
    ("## %h {%K}", "<h2>%h {%K}</h2>"),
    ("## **%e** %K", "<h2><strong>%e</strong> %K</h2>"),
    ("## ~~%e~~", "<h2><strike>%e</strike></h2>"),
    ("## <http://%u>", "<h2><a href=\"http://%u\">http://%u</a></h2>"),
    ("## %K\\%p%A", "<h2>%K%p%A</h2>"),
    ("# %K * %A", "<h1>%K * %A</h1>"),
    ("# %K | %A", "<h1>%K | %A</h1>"),
    ("# 1. %h", "<h1>1. %h</h1>"),
    ("- %a\n# %h", "<ul><li><p>%a</p></li></ul><h1>%h</h1>"),
    ("```\n%l\n```\n# %h", "<pre><code>%l\n</code></pre><h1>%h</h1>"),
    ("# %K {#%A} {#%i}", "<h1 id=\"%i\">%K {#%A}</h1>"),
    ("%{20|## %K%#\n%}%a", "%{20|<h2>%K%#</h2>%}<p>%a</p>"),
    ("# %{70|word%# %}%h", "<h1>%{70|word%# %}%h</h1>"),
    ("# %h {#%{70|word%#-%}%i}", "<h1 id=\"%{70|word%#-%}%i\">%h</h1>"),
    ("# %h {#%i}%B", "<h1 id=\"%i\">%h</h1>"),
    ("# %h {#%K %A}", "<h1 id=\"%K-%A\">%h</h1>"),
    ("#%T%T%h%T%T", "<h1>%h</h1>"),
    ("#%T%h%T#%T", "<h1>%h</h1>"),
    ("#%T##%T", "<h1></h1>"),
    ("#%T%T##%T%T\n%a", "<h1></h1><p>%a</p>"),
    ("# %h ## %K", "<h1>%h ## %K</h1>"),
    ("# %h #%K", "<h1>%h #%K</h1>"),
    ("# %h %K#", "<h1>%h %K#</h1>"),
    ("# %h # #", "<h1>%h #</h1>"),
    ("## %K\\%p%A%T", "<h2>%K%p%A</h2>"),
    ("# %K #\\%S", "<h1>%K #%S</h1>"),
    ("#\n%a", "<h1></h1><p>%a</p>"),
    ("%a\n\n# %h\n\n%b", "<p>%a</p><h1>%h</h1><p>%b</p>"),
    ("> ## %h", "<blockquote><h2>%h</h2></blockquote>"),
    ("- ## %h", "<ul><li><h2>%h</h2></li></ul>"),
    ("#  *%e*", "<h1><em>%e</em></h1>"),
    ("# %h%T*%e*", "<h1>%h%T<em>%e</em></h1>"),
];

plain!(c07 C07);
pub static C07: &[T] = &[
    ("*%e*", "<p><em>%e</em></p>"),
    ("_%e_", "<p><em>%e</em></p>"),
    ("**%e**", "<p><strong>%e</strong></p>"),
    ("__%e__", "<p><strong>%e</strong></p>"),
    ("***%e***", "<p><strong><em>%e</em></strong></p>"),
    ("___%e___", "<p><strong><em>%e</em></strong></p>"),
    ("~~%e~~", "<p><strike>%e</strike></p>"),
    ("%K *%e* %A", "<p>%K <em>%e</em> %A</p>"),
    ("%K **%e** %A", "<p>%K <strong>%e</strong> %A</p>"),
    ("%K ***%e*** %A", "<p>%K <strong><em>%e</em></strong> %A</p>"),
    ("%K ~~%e~~ %A", "<p>%K <strike>%e</strike> %A</p>"),
    ("%K _%e_ %A", "<p>%K <em>%e</em> %A</p>"),
    ("*%g %K*", "<p><em>%g %K</em></p>"),
    ("**%g %K**", "<p><strong>%g %K</strong></p>"),
    ("~~%g %K~~", "<p><strike>%g %K</strike></p>"),
    ("*%g\n%K*", "<p><em>%g\n%K</em></p>"),
    ("*%e***%f**", "<p><em>%e</em><strong>%f</strong></p>"),
    ("*%e* *%f*", "<p><em>%e</em> <em>%f</em></p>"),
    ("*%e* **%f** ~~%g~~", "<p><em>%e</em> <strong>%f</strong> <strike>%g</strike></p>"),
    ("_%e_ *%f*", "<p><em>%e</em> <em>%f</em></p>"),
    ("%K*%e*%A", "<p>%K<em>%e</em>%A</p>"),
    ("*%n*", "<p><em>%n</em></p>"),
    ("**%W**", "<p><strong>%W</strong></p>"),
    ("~~%W~~", "<p><strike>%W</strike></p>"),
    ("*%K_%A*", "<p><em>%K_%A</em></p>"),
    ("_%K*%A_", "<p><em>%K*%A</em></p>"),
    ("*%e_", "<p>*%e_</p>"),
    ("*%e", "<p>*%e</p>"),
    ("**%e", "<p>**%e</p>"),
    ("~~%e", "<p>~~%e</p>"),
    ("~%e~", "<p>~%e~</p>"),
    ("%K * %e*", "<p>%K * %e*</p>"),
    ("%K*%e *", "<p>%K*%e *</p>"),
    ("%K_%e_%A", "<p>%K_%e_%A</p>"),
    ("%K\\%p%A", "<p>%K%p%A</p>"),
    ("\\%p%K", "<p>%p%K</p>"),
    ("\\%p\\%q", "<p>%p%q</p>"),
    ("%K\\%N", "<p>%K\\%N</p>"),
    ("\\*%e\\*", "<p>*%e*</p>"),
    ("\\_%e\\_", "<p>_%e_</p>"),
    ("\\~~%K~~", "<p>~~%K~~</p>"),
    ("\\[%K](%u)", "<p>[%K](%u)</p>"),
    ("\\![%K](%u)", "<p>!<a href=\"%u\">%K</a></p>"),
    ("\\# %K", "<p># %K</p>"),
    ("\\> %K", "<p>&gt; %K</p>"),
    ("\\- %K", "<p>- %K</p>"),
    ("1\\. %K", "<p>1. %K</p>"),
    ("\\`%K`", "<p>`%K`</p>"),
    ("\\<a:%K>", "<p>&lt;a:%K&gt;</p>"),
    ("\\|%K|", "<p>|%K|</p>"),
    ("*%K\\%P%A*", "<p><em>%K%P%A</em></p>"),
    ("**%K\\%A**", "<p><strong>%K\\%A</strong></p>"),
    ("\\\\%K", "<p>\\%K</p>"),
    ("%K\\", "<p>%K\\</p>"),
    ("%K\\\n%A", "<p>%K\\\n%A</p>"),
    ("*%K%U%A*", "<p><em>%K%U%A</em></p>"),
    ("**%K%U%A**", "<p><strong>%K%U%A</strong></p>"),
    ("~~%K%U%A~~", "<p><strike>%K%U%A</strike></p>"),
    ("%{12|*%K%#* %}%a", "<p>%{12|<em>%K%#</em> %}%a</p>"),
    ("%{12|**%K%#** ~~%A~~ %}%a", "<p>%{12|<strong>%K%#</strong> <strike>%A</strike> %}%a</p>"),
    ("*%{30|word%# %}%K*", "<p><em>%{30|word%# %}%K</em></p>"),
    ("%K**%e**%A", "<p>%K<strong>%e</strong>%A</p>"),
    ("%K~~%e~~%A", "<p>%K<strike>%e</strike>%A</p>"),
    ("# %K\n*%e*", "<h1>%K</h1><p><em>%e</em></p>"),
    ("%K\n**%e**\n%A", "<p>%K\n<strong>%e</strong>\n%A</p>"),
    ("*%e*%L%a", "<p><em>%e</em>\n%a</p>"),
    ("%{12|\\%p%}%K", "<p>%{12|%p%}%K</p>"),
    ("%K \\%p %A", "<p>%K %p %A</p>"),
    ("%K_%A_%E", "<p>%K_%A_%E</p>"),
    ("_%A_%E", "<p>_%A_%E</p>"),
    ("%K_%A_", "<p>%K_%A_</p>"),
    ("%K__%A__%E", "<p>%K__%A__%E</p>"),
    ("__%A__%E", "<p>__%A__%E</p>"),
    ("%o_%A_", "<p>%o_%A_</p>"),
    ("_%A_%o", "<p>_%A_%o</p>"),
    ("_%A_%Q", "<p><em>%A</em>%Q</p>"),
    ("%K*%A*%E", "<p>%K<em>%A</em>%E</p>"),
    ("%K**%A**%E", "<p>%K<strong>%A</strong>%E</p>"),
    ("*%K\n\n%A*", "<p>*%K</p><p>%A*</p>"),
    ("**%K\n\n%A**", "<p>**%K</p><p>%A**</p>"),
    ("_%K\n\n%A_", "<p>_%K</p><p>%A_</p>"),
    ("~~%K\n\n%A~~", "<p>~~%K</p><p>%A~~</p>"),
    ("*%K\n%A*", "<p><em>%K\n%A</em></p>"),
    ("~~%K\n%A~~", "<p><strike>%K\n%A</strike></p>"),
    ("%F *%B%K*", "<p>%F *%B%K*</p>"),
    ("**%K%B**", "<p>**%K%B**</p>"),
    ("****%K****", "<p>****%K****</p>"),
    ("~%K~", "<p>~%K~</p>"),
    ("~~~%K~~~", "<p>~~~%K~~~</p>"),
    ("*%{70|word%# %}%K*", "<p><em>%{70|word%# %}%K</em></p>"),
    ("%{70|*%K%#* %}%a", "<p>%{70|<em>%K%#</em> %}%a</p>"),
    ("%{70|\\*%}%a", "<p>%{70|*%}%a</p>"),
    ("1. %K\\%p%A", "<ol><li>%K%p%A</li></ol>"),
    ("- %K\\%p%A", "<ul><li><p>%K%p%A</p></li></ul>"),
    ("> %K\\%p%A", "<blockquote><p>%K%p%A</p></blockquote>"),
    ("- [ ] %K\\%p%A", "<ul class=\"contains-task-list\"><li class=\"task-list-item\"><input type=\"checkbox\" class=\"task-list-item-checkbox\">%K%p%A</li></ul>"),
    ("**%K\\%S%A**", "<p><strong>%K%S%A</strong></p>"),
    ("***%K\\%S%A***", "<p><strong><em>%K%S%A</em></strong></p>"),
    ("___%K\\%S%A___", "<p><strong><em>%K%S%A</em></strong></p>"),
    ("~~%K\\%S%A~~", "<p><strike>%K%S%A</strike></p>"),
    ("[%K\\%S%A](%u)", "<p><a href=\"%u\">%K%S%A</a></p>"),
    ("[%e](%u \"%K\\%S%A\")", "<p><a href=\"%u\" title=\"%K%S%A\">%e</a></p>"),
    ("![%K\\%S%A](%u)", "<p><img src=\"%u\" alt=\"%K%S%A\" referrerpolicy=\"no-referrer\"></p>"),
    ("|%K\\%S%A|\n|-|\n|%E\\%S%F|", table!([th!("left", "%K%S%A")] [td!("left", "%E%S%F")])),
    ("|%K|\n|-|\n|*%E\\%S%F*|\n|**%E\\%S%F**|", table!([th!("left", "%K")] [td!("left", "<em>%E%S%F</em>")] [td!("left", "<strong>%E%S%F</strong>")])),
    ("|%K|\n|-|\n|***%E\\%S%F***|\n|~~%E\\%S%F~~|", table!([th!("left", "%K")] [td!("left", "<strong><em>%E%S%F</em></strong>")] [td!("left", "<strike>%E%S%F</strike>")])),
    ("|%K|\n|-|\n|[%E\\%S%F](%u)|", table!([th!("left", "%K")] [td!("left", "<a href=\"%u\">%E%S%F</a>")])),
    ("<details>\n<summary>%K\\%S%A</summary>\n%E\n</details>", "<details><summary>%K%S%A</summary><p>%E</p></details>"),
    ("%a[^%i]\n\n[^%i]: %K\\%S%A", concat!("<p>%a", fref!("%i"), "</p>", notes!(fnote!("%i", "%K%S%A")))),
    ("\\\\*%e*", "<p>\\<em>%e</em></p>"),
    ("\\\\\\\\%K", "<p>\\\\%K</p>"),
    ("\\\\\\%p", "<p>\\%p</p>"),
    ("%K\\\\\\%p%A", "<p>%K\\%p%A</p>"),
    ("*%e*\\%p", "<p><em>%e</em>%p</p>"),
    ("%K\\%W", "<p>%K\\%W</p>"),
    ("%K\\ %A", "<p>%K\\ %A</p>"),
    ("%K **%e", "<p>%K **%e</p>"),
    ("%K **%e*", "<p>%K **%e*</p>"),
    ("%K ~~%e~", "<p>%K ~~%e~</p>"),
    ("*%K %A", "<p>*%K %A</p>"),
    ("*%A\n\n*%e*", "<p>*%A</p><p><em>%e</em></p>"),
    ("**%A\n%K\n\n**%e**", "<p>**%A\n%K</p><p><strong>%e</strong></p>"),
    ("~~%K %A\n\n%E %F~~", "<p>~~%K %A</p><p>%E %F~~</p>"),
    ("_%K %A\n\n%E %F_", "<p>_%K %A</p><p>%E %F_</p>"),
    ("**%e**%Q", "<p><strong>%e</strong>%Q</p>"),
    ("[%K\\%S%A](%u \"%g\")", "<p><a href=\"%u\" title=\"%g\">%K%S%A</a></p>"),
    ("- [%X] %K\\%p%A", "<ul class=\"contains-task-list\"><li class=\"task-list-item\"><input type=\"checkbox\" class=\"task-list-item-checkbox\" checked=\"\">%K%p%A</li></ul>"),
];

plain!(c09 C09);
pub static C09: &[T] = &[
    ("- %a", "<ul><li><p>%a</p></li></ul>"),
    ("%M %a\n%M %b", "<ul><li><p>%a</p></li><li><p>%b</p></li></ul>"),
    ("%M %a\n%M %b\n%M %c", "<ul><li><p>%a</p></li><li><p>%b</p></li><li><p>%c</p></li></ul>"),
    ("- %a\n- %b\n- %c\n- %d", "<ul><li><p>%a</p></li><li><p>%b</p></li><li><p>%c</p></li><li><p>%d</p></li></ul>"),
    ("* %a\n* %b\n* %c", "<ul><li><p>%a</p></li><li><p>%b</p></li><li><p>%c</p></li></ul>"),
    ("+ %a\n+ %b\n+ %c", "<ul><li><p>%a</p></li><li><p>%b</p></li><li><p>%c</p></li></ul>"),
    ("%M %n\n%M %W", "<ul><li><p>%n</p></li><li><p>%W</p></li></ul>"),
    ("- %a%L- %b%L", "<ul><li><p>%a</p></li><li><p>%b</p></li></ul>"),
    ("1. %a", "<ol><li>%a</li></ol>"),
    ("1. %a\n2. %b", "<ol><li>%a</li><li>%b</li></ol>"),
    ("1. %a\n2. %b\n3. %c\n4. %d", "<ol><li>%a</li><li>%b</li><li>%c</li><li>%d</li></ol>"),
    ("%o. %a\n%o. %b", "<ol><li>%a</li><li>%b</li></ol>"),
    ("9. %a\n10. %b\n11. %c", "<ol><li>%a</li><li>%b</li><li>%c</li></ol>"),
    ("1. %n\n2. %W", "<ol><li>%n</li><li>%W</li></ol>"),
    ("1. %a%L2. %b%L", "<ol><li>%a</li><li>%b</li></ol>"),
    ("%o.%a", "<p>%o.%a</p>"),
    ("-%a", "<p>-%a</p>"),
    ("%a\n- %b\n- %c", "<p>%a</p><ul><li><p>%b</p></li><li><p>%c</p></li></ul>"),
    ("%a\n1. %b\n2. %c", "<p>%a</p><ol><li>%b</li><li>%c</li></ol>"),
    ("- %a\n\n%b", "<ul><li><p>%a</p></li></ul><p>%b</p>"),
    ("1. %a\n\n%b", "<ol><li>%a</li></ol><p>%b</p>"),
    ("- %a\n1. %b\n- %c", "<ul><li><p>%a</p></li></ul><ol><li>%b</li></ol><ul><li><p>%c</p></li></ul>"),
    ("1. %a\n- %b\n2. %c", "<ol><li>%a</li></ol><ul><li><p>%b</p></li></ul><ol><li>%c</li></ol>"),
    ("- %a\n  - %b\n- %c", "<ul><li><p>%a</p><ul><li><p>%b</p></li></ul></li><li><p>%c</p></li></ul>"),
    ("- %a\n\t- %b\n\t- %c\n- %d", "<ul><li><p>%a</p><ul><li><p>%b</p></li><li><p>%c</p></li></ul></li><li><p>%d</p></li></ul>"),
    ("- %a\n  1. %b\n  2. %c", "<ul><li><p>%a</p><ol><li>%b</li><li>%c</li></ol></li></ul>"),
    ("- %a\n  - %b\n    - %c", "<ul><li><p>%a</p><ul><li><p>%b</p><ul><li><p>%c</p></li></ul></li></ul></li></ul>"),
    ("- *%e* %K\n- `%k`", "<ul><li><p><em>%e</em> %K</p></li><li><p><code>%k</code></p></li></ul>"),
    ("- [ ] %a", "<ul class=\"contains-task-list\"><li class=\"task-list-item\"><input type=\"checkbox\" class=\"task-list-item-checkbox\">%a</li></ul>"),
    ("- [%X] %a", "<ul class=\"contains-task-list\"><li class=\"task-list-item\"><input type=\"checkbox\" class=\"task-list-item-checkbox\" checked=\"\">%a</li></ul>"),
    ("+ [%X] %a\n+ [ ] %b\n- [%X] %c", "<ul class=\"contains-task-list\"><li class=\"task-list-item\"><input type=\"checkbox\" class=\"task-list-item-checkbox\" checked=\"\">%a</li><li class=\"task-list-item\"><input type=\"checkbox\" class=\"task-list-item-checkbox\">%b</li><li class=\"task-list-item\"><input type=\"checkbox\" class=\"task-list-item-checkbox\" checked=\"\">%c</li></ul>"),
    ("- [ ] %a\n\n%b", "<ul class=\"contains-task-list\"><li class=\"task-list-item\"><input type=\"checkbox\" class=\"task-list-item-checkbox\">%a</li></ul><p>%b</p>"),
    ("- [ ] %n\n- [x] %W", "<ul class=\"contains-task-list\"><li class=\"task-list-item\"><input type=\"checkbox\" class=\"task-list-item-checkbox\">%n</li><li class=\"task-list-item\"><input type=\"checkbox\" class=\"task-list-item-checkbox\" checked=\"\">%W</li></ul>"),
    ("- %a\n- [ ] %b", "<ul><li><p>%a</p></li></ul><ul class=\"contains-task-list\"><li class=\"task-list-item\"><input type=\"checkbox\" class=\"task-list-item-checkbox\">%b</li></ul>"),
    ("- [ ]%a", "<ul><li><p>[ ]%a</p></li></ul>"),
    ("- [y] %a", "<ul><li><p>[y] %a</p></li></ul>"),
    ("- %a\n\n\t%b", "<ul><li><p>%a</p><p>%b</p></li></ul>"),
    ("%{12|- %K %#\n%}- %a", "<ul>%{12|<li><p>%K %#</p></li>%}<li><p>%a</p></li></ul>"),
    ("%{12|%#. %K %#\n%}13. %a", "<ol>%{12|<li>%K %#</li>%}<li>%a</li></ol>"),
    ("%{120|- %#\n%}- %a", "<ul>%{120|<li><p>%#</p></li>%}<li><p>%a</p></li></ul>"),
    ("%{101|%#. i%#\n%}102. %a", "<ol>%{101|<li>i%#</li>%}<li>%a</li></ol>"),
    ("%{12|- [ ] %K %#\n- [%X] %A %#\n%}", "<ul class=\"contains-task-list\">%{12|<li class=\"task-list-item\"><input type=\"checkbox\" class=\"task-list-item-checkbox\">%K %#</li><li class=\"task-list-item\"><input type=\"checkbox\" class=\"task-list-item-checkbox\" checked=\"\">%A %#</li>%}</ul>"),
    ("- %K%U%A\n- %b", "<ul><li><p>%K%U%A</p></li><li><p>%b</p></li></ul>"),
    ("1. %K%U%A\n2. %b", "<ol><li>%K%U%A</li><li>%b</li></ol>"),
    ("- [ ] %K%U%A", "<ul class=\"contains-task-list\"><li class=\"task-list-item\"><input type=\"checkbox\" class=\"task-list-item-checkbox\">%K%U%A</li></ul>"),
    ("- %{30|word%# %}%a", "<ul><li><p>%{30|word%# %}%a</p></li></ul>"),
    ("- [%e](%u)\n- **%f**", "<ul><li><p><a href=\"%u\">%e</a></p></li><li><p><strong>%f</strong></p></li></ul>"),
    ("- %a\n  - %b\n    - %c\n      - %d", "<ul><li><p>%a</p><ul><li><p>%b</p><ul><li><p>%c</p><ul><li><p>%d</p></li></ul></li></ul></li></ul></li></ul>"),
    ("- %a\n  - %b\n  - %c\n- %d", "<ul><li><p>%a</p><ul><li><p>%b</p></li><li><p>%c</p></li></ul></li><li><p>%d</p></li></ul>"),
    ("- %a\n\n- %b", "<ul><li><p>%a</p></li><li><p>%b</p></li></ul>"),
    ("- # %h", "<ul><li><h1>%h</h1></li></ul>"),
    ("- > %a", "<ul><li><blockquote><p>%a</p></blockquote></li></ul>"),
    ("999999999. %a", "<ol><li>%a</li></ol>"),
    ("1234567890. %a", "<ol><li>%a</li></ol>"),
    ("%{25|%#%}. %a", "<ol><li>%a</li></ol>"),
    ("%{300|- %#\n%}- %a", "<ul>%{300|<li><p>%#</p></li>%}<li><p>%a</p></li></ul>"),
    ("1. %K\\%p%A", "<ol><li>%K%p%A</li></ol>"),
    ("- [ ] %K\\%p%A", "<ul class=\"contains-task-list\"><li class=\"task-list-item\"><input type=\"checkbox\" class=\"task-list-item-checkbox\">%K%p%A</li></ul>"),
    ("- %K [ ] %A", "<ul><li><p>%K [ ] %A</p></li></ul>"),
    ("- %K [%X] %A", "<ul><li><p>%K [%X] %A</p></li></ul>"),
    ("- [ ] %K [%X] %A", "<ul class=\"contains-task-list\"><li class=\"task-list-item\"><input type=\"checkbox\" class=\"task-list-item-checkbox\">%K [%X] %A</li></ul>"),
    ("- [%X] %K [ ] %A", "<ul class=\"contains-task-list\"><li class=\"task-list-item\"><input type=\"checkbox\" class=\"task-list-item-checkbox\" checked=\"\">%K [ ] %A</li></ul>"),
    ("- %a\n\n\t%b\n\n\t%c\n- %d", "<ul><li><p>%a</p><p>%b</p><p>%c</p></li><li><p>%d</p></li></ul>"),
    ("- %a\n\n\t%b\n%c", "<ul><li><p>%a</p><p>%b</p></li></ul><p>%c</p>"),
    ("- %a\n  %b\n- %c", "<ul><li><p>%a</p><p>%b</p></li><li><p>%c</p></li></ul>"),
    ("- %a\n  %b\n  %c", "<ul><li><p>%a</p><p>%b\n%c</p></li></ul>"),
    ("- %a\n  \n- %b", "<ul><li><p>%a</p></li><li><p>%b</p></li></ul>"),
    ("-%B%K\n- %A", "<ul><li><p>%K</p></li><li><p>%A</p></li></ul>"),
    ("- %K%T\n- %A%T", "<ul><li><p>%K</p></li><li><p>%A</p></li></ul>"),
    ("* %K\n\n%A", "<ul><li><p>%K</p></li></ul><p>%A</p>"),
    ("* %K\n# %h", "<ul><li><p>%K</p></li></ul><h1>%h</h1>"),
    ("* %K\n1. %A", "<ul><li><p>%K</p></li></ul><ol><li>%A</li></ol>"),
    ("* %K\n- %A\n+ %E", "<ul><li><p>%K</p></li><li><p>%A</p></li><li><p>%E</p></li></ul>"),
    ("- %K\n  - %A\n%a", "<ul><li><p>%K</p><ul><li><p>%A</p></li></ul></li></ul><p>%a</p>"),
    ("- %K\n  - %A\n\n%a", "<ul><li><p>%K</p><ul><li><p>%A</p></li></ul></li></ul><p>%a</p>"),
    ("- %K\n\t- %A\n\t\t- %E\n\t\t- %F\n\t- %G\n- %H", "<ul><li><p>%K</p><ul><li><p>%A</p><ul><li><p>%E</p></li><li><p>%F</p></li></ul></li><li><p>%G</p></li></ul></li><li><p>%H</p></li></ul>"),
    ("- [%X] %K\\%p%A", "<ul class=\"contains-task-list\"><li class=\"task-list-item\"><input type=\"checkbox\" class=\"task-list-item-checkbox\" checked=\"\">%K%p%A</li></ul>"),
];

plain!(c10 C10);
pub static C10: &[T] = &[
    ("|%r|\n|-|\n|%s|", table!([th!("left", "%r")] [td!("left", "%s")])),
    ("| %r |\n| --- |\n| %s |", table!([th!("left", "%r")] [td!("left", "%s")])),
    ("|%r|%s|\n|-|-|\n|%t|%g|", table!([th!("left", "%r"), th!("left", "%s")] [td!("left", "%t"), td!("left", "%g")])),
    (
        "|%r|%s|\n|:-|-:|\n|%t|%g|",
        table!([th!("left", "%r"), th!("right", "%s")] [td!("left", "%t"), td!("right", "%g")]),
    ),
    (
        "|%r|%s|\n|:-:|--|\n|%t|%g|",
        table!([th!("center", "%r"), th!("left", "%s")] [td!("center", "%t"), td!("left", "%g")]),
    ),
    (
        "| %r | %s | %t |\n|:--|:-:|--:|\n|%K|%g|%N|",
        table!([th!("left", "%r"), th!("center", "%s"), th!("right", "%t")] [td!("left", "%K"), td!("center", "%g"), td!("right", "%N")]),
    ),
    (
        "|%r|\n|-:|\n|%s|\n|%t|\n|%g|",
        table!([th!("right", "%r")] [td!("right", "%s")] [td!("right", "%t")] [td!("right", "%g")]),
    ),
    (
        "|%r|%A|\n|--|:--:|\n|%t|%K|\n|%N|%E|\n",
        table!([th!("left", "%r"), th!("center", "%A")] [td!("left", "%t"), td!("center", "%K")] [td!("left", "%N"), td!("center", "%E")]),
    ),
    ("|%r|%s|\n|-|-|\n||%t|", table!([th!("left", "%r"), th!("left", "%s")] [td!("left", ""), td!("left", "%t")])),
    ("|%r||\n|-|-|\n|%t||", table!([th!("left", "%r"), th!("left", "")] [td!("left", "%t"), td!("left", "")])),
    ("|%n|\n|-|\n|%W|", table!([th!("left", "%n")] [td!("left", "%W")])),
    ("|%r|%L|-|%L|%s|%L", table!([th!("left", "%r")] [td!("left", "%s")])),
    ("|%r|\n|-|\n|*%e*|", table!([th!("left", "%r")] [td!("left", "<em>%e</em>")])),
    ("|%r|\n|-|\n|**%e**|", table!([th!("left", "%r")] [td!("left", "<strong>%e</strong>")])),
    ("|%r|\n|-|\n|***%e***|", table!([th!("left", "%r")] [td!("left", "<strong><em>%e</em></strong>")])),
    ("|%r|\n|-|\n|~~%e~~ %K|", table!([th!("left", "%r")] [td!("left", "<strike>%e</strike> %K")])),
    ("|%r|\n|-|\n|`%i`|", table!([th!("left", "%r")] [td!("left", "<code>%i</code>")])),
    ("|%r|\n|-|\n|[%e](%u)|", table!([th!("left", "%r")] [td!("left", "<a href=\"%u\">%e</a>")])),
    ("|%r|\n|-|\n|%K %A %E|", table!([th!("left", "%r")] [td!("left", "%K %A %E")])),
    ("|%r|\n|-|\n|# %K|\n|- %A|\n|1. %E|", table!([th!("left", "%r")] [td!("left", "# %K")] [td!("left", "- %A")] [td!("left", "1. %E")])),
    ("%a\n|%r|\n|-|\n|%s|", concat!("<p>%a</p>", table!([th!("left", "%r")] [td!("left", "%s")]))),
    ("|%r|\n|-|\n|%s|\n\n%a", concat!(table!([th!("left", "%r")] [td!("left", "%s")]), "<p>%a</p>")),
    ("|%r|\n|-|\n|%s|\n%a", concat!(table!([th!("left", "%r")] [td!("left", "%s")]), "<p>%a</p>")),
    ("|%r|\n|-|\n|%s|\n# %h", concat!(table!([th!("left", "%r")] [td!("left", "%s")]), "<h1>%h</h1>")),
    ("|%r|\n|%s|\n|-|", "<p>|%r|\n|%s|\n|-|</p>"),
    ("|%r|%s|\n|-|\n|%t|", "<p>|%r|%s|\n|-|\n|%t|</p>"),
    (
        "|%K|%A|%E|%F|%G|\n|-|:-|-:|:-:|--|\n|%r|%A|%K|%G|%s|",
        table!([th!("left", "%K"), th!("left", "%A"), th!("right", "%E"), th!("center", "%F"), th!("left", "%G")]
            [td!("left", "%r"), td!("left", "%A"), td!("right", "%K"), td!("center", "%G"), td!("left", "%s")]),
    ),
    (
        "|%r|%s|\n|:-|-:|\n%{12||%K %#|%A %#|\n%}",
        concat!("<table class=\"table table-bordered\"><thead><tr>", th!("left", "%r"), th!("right", "%s"), "</tr></thead><tbody>%{12|<tr>",
            td!("left", "%K %#"), td!("right", "%A %#"), "</tr>%}</tbody></table>"),
    ),
    (
        "|%r|\n|:-:|\n%{60||i%#|\n%}|%s|",
        concat!("<table class=\"table table-bordered\"><thead><tr>", th!("center", "%r"), "</tr></thead><tbody>%{60|<tr>",
            td!("center", "i%#"), "</tr>%}<tr>", td!("center", "%s"), "</tr></tbody></table>"),
    ),
    (
        "|%{12|h%#|%}\n|%{12|-:|%}\n|%{11|i%#|%}%r|",
        concat!("<table class=\"table table-bordered\"><thead><tr>%{12|", th!("right", "h%#"), "%}</tr></thead><tbody><tr>%{11|",
            td!("right", "i%#"), "%}", td!("right", "%r"), "</tr></tbody></table>"),
    ),
    ("|%K%U%A|\n|-|\n|%E%U%F|", table!([th!("left", "%K%U%A")] [td!("left", "%E%U%F")])),
    ("|%r|\n|-|\n|%{30|word%# %}%K|", table!([th!("left", "%r")] [td!("left", "%{30|word%# %}%K")])),
    ("| %K | %A |\n| :--------: | ---: |\n| %r | %s |", table!([th!("center", "%K"), th!("right", "%A")] [td!("center", "%r"), td!("right", "%s")])),
    ("|%r|\n|-|\n|%K & \"%A\" < %E|", table!([th!("left", "%r")] [td!("left", "%K &amp; \"%A\" &lt; %E")])),
    ("|%r|\n|-|\n|%s|\n\n|%t|\n|-:|\n|%g|", concat!(table!([th!("left", "%r")] [td!("left", "%s")]), table!([th!("right", "%t")] [td!("right", "%g")]))),
    ("# %h\n|%r|\n|-|\n|%s|", concat!("<h1>%h</h1>", table!([th!("left", "%r")] [td!("left", "%s")]))),
    ("- %a\n\n|%r|\n|-|\n|%s|", concat!("<ul><li><p>%a</p></li></ul>", table!([th!("left", "%r")] [td!("left", "%s")]))),
    ("|%r|\n|-|\n|![%e](%u)|", table!([th!("left", "%r")] [td!("left", "<img src=\"%u\" alt=\"%e\" referrerpolicy=\"no-referrer\">")])),
    ("|%r|%s|\n|-|-|\n|*%e*|`%i`|", table!([th!("left", "%r"), th!("left", "%s")] [td!("left", "<em>%e</em>"), td!("left", "<code>%i</code>")])),
    ("|%r|\n|-|\n|%s|\n- %a", concat!(table!([th!("left", "%r")] [td!("left", "%s")]), "<ul><li><p>%a</p></li></ul>")),
    ("|%r|\n|-|\n|%s|\n> %a", concat!(table!([th!("left", "%r")] [td!("left", "%s")]), "<blockquote><p>%a</p></blockquote>")),
    ("|%r|\n|-|\n|%s|\n---", concat!(table!([th!("left", "%r")] [td!("left", "%s")]), "<hr />")),
    ("|%r|\n|-|", "<p>|%r|\n|-|</p>"),
    ("|%r|%s|", "<p>|%r|%s|</p>"),
    ("|%{70|h%#|%}\n|%{70|-:|%}\n|%{69|i%#|%}%r|", concat!("<table class=\"table table-bordered\"><thead><tr>%{70|", th!("right", "h%#"), "%}</tr></thead><tbody><tr>%{69|", td!("right", "i%#"), "%}", td!("right", "%r"), "</tr></tbody></table>")),
    ("|%r|\n|:-:|\n%{300||i%#|\n%}|%s|", concat!("<table class=\"table table-bordered\"><thead><tr>", th!("center", "%r"), "</tr></thead><tbody>%{300|<tr>", td!("center", "i%#"), "</tr>%}<tr>", td!("center", "%s"), "</tr></tbody></table>")),
    ("|%r|\n|%{70|-%}:|\n|%s|", table!([th!("right", "%r")] [td!("right", "%s")])),
    ("|%K|%T\n|-|%T\n|%A|%T", table!([th!("left", "%K")] [td!("left", "%A")])),
    ("|%T%K%T|\n|%T-%T|\n|%T%A%T|", table!([th!("left", "%K")] [td!("left", "%A")])),
    ("|%K|%A|\n|-|%E|\n|%F|%G|", "<p>|%K|%A|\n|-|%E|\n|%F|%G|</p>"),
    ("|%K|%A|\n|%E|-|\n|%F|%G|", "<p>|%K|%A|\n|%E|-|\n|%F|%G|</p>"),
    ("|%K|\n|-%A|\n|%E|", "<p>|%K|\n|-%A|\n|%E|</p>"),
    ("|%K|\n|-%A-|\n|%E|", "<p>|%K|\n|-%A-|\n|%E|</p>"),
    ("|%K|\n|:|\n|%E|", "<p>|%K|\n|:|\n|%E|</p>"),
    ("|%K|%A|\n|-|-|\n|%E|", "<p>|%K|%A|\n|-|-|\n|%E|</p>"),
    ("|%K|%A|\n|-|-|\n|%E|%F|\n|%G|", "<p>|%K|%A|\n|-|-|\n|%E|%F|\n|%G|</p>"),
    ("|%K|\n|-|-|\n|%E|", "<p>|%K|\n|-|-|\n|%E|</p>"),
    ("|%K\\%S%A|\n|-|\n|%E\\%S%F|", table!([th!("left", "%K%S%A")] [td!("left", "%E%S%F")])),
    ("|%K|\n|-|\n|%A---%E|", table!([th!("left", "%K")] [td!("left", "%A---%E")])),
    ("|%K|\n|-|\n|%A **%e** %E|", table!([th!("left", "%K")] [td!("left", "%A <strong>%e</strong> %E")])),
    ("|%K|\n|-|\n|<http://%u>|", table!([th!("left", "%K")] [td!("left", "<a href=\"http://%u\">http://%u</a>")])),
    ("|%K|\n|:---:|\n|*%e*|\n|`%i`|\n|[%f](%u)|", table!([th!("center", "%K")] [td!("center", "<em>%e</em>")] [td!("center", "<code>%i</code>")] [td!("center", "<a href=\"%u\">%f</a>")])),
];

plain!(c11 C11);
pub static C11: &[T] = &[
    ("`%k`", "<p><code>%k</code></p>"),
    ("%K `%k` %A", "<p>%K <code>%k</code> %A</p>"),
    ("``%k``", "<p><code>%k</code></p>"),
    ("``%K`%A``", "<p><code>%K`%A</code></p>"),
    ("`` `%K` ``", "<p><code>`%K`</code></p>"),
    ("```%k```", "<p><code>%k</code></p>"),
    ("`*%e*`", "<p><code>*%e*</code></p>"),
    ("`\\%P%K`", "<p><code>\\%P%K</code></p>"),
    ("`[%e](%u)`", "<p><code>[%e](%u)</code></p>"),
    ("`%n`", "<p><code>%n</code></p>"),
    ("`%K` `%k`", "<p><code>%K</code> <code>%k</code></p>"),
    ("```\n%l\n```", "<pre><code>%l\n</code></pre>"),
    ("```\n%l\n```\n", "<pre><code>%l\n</code></pre>"),
    ("```%L%k%L```", "<pre><code>%k\n</code></pre>"),
    ("```\n%l\n\n%m\n```", "<pre><code>%l\n\n%m\n</code></pre>"),
    ("```\n  %l\n\t%m\n```", "<pre><code>  %l\n\t%m\n</code></pre>"),
    ("```%i\n%l\n```", "<pre><code class=\"language-%i\">%l\n</code></pre>"),
    ("``` %i\n%l\n```", "<pre><code class=\"language-%i\">%l\n</code></pre>"),
    ("````\n```\n%l\n````", "<pre><code>```\n%l\n</code></pre>"),
    ("```\n# %K\n- %A\n> %E\n```", "<pre><code># %K\n- %A\n> %E\n</code></pre>"),
    ("```\n*%e*\n\\%p\n```", "<pre><code>*%e*\n\\%p\n</code></pre>"),
    ("```\n<%e>\n&amp;\n```", "<pre><code>&lt;%e&gt;\n&amp;amp;\n</code></pre>"),
    ("```\n```\n%a", "<pre><code></code></pre><p>%a</p>"),
    ("%a\n```\n%l\n```\n%b", "<p>%a</p><pre><code>%l\n</code></pre><p>%b</p>"),
    ("```\n%n\n```", "<pre><code>%n\n</code></pre>"),
    ("    %l", "<pre><code>%l\n</code></pre>"),
    ("\t%l", "<pre><code>%l\n</code></pre>"),
    ("    %l\n    %m", "<pre><code>%l\n%m\n</code></pre>"),
    ("    %l\n      %m\n", "<pre><code>%l\n  %m\n</code></pre>"),
    ("\t%l\n\t\t%m\n", "<pre><code>%l\n\t%m\n</code></pre>"),
    ("    # %K\n    - %A", "<pre><code># %K\n- %A\n</code></pre>"),
    ("    *%e*\n    \\%p", "<pre><code>*%e*\n\\%p\n</code></pre>"),
    ("    <%e>\n    &amp;", "<pre><code>&lt;%e&gt;\n&amp;amp;\n</code></pre>"),
    ("%a\n\n    %l\n\n%b", "<p>%a</p><pre><code>%l\n</code></pre><p>%b</p>"),
    ("    %l\n%b", "<pre><code>%l\n</code></pre><p>%b</p>"),
    ("# %h\n    %l", "<h1>%h</h1><pre><code>%l\n</code></pre>"),
    ("    %n", "<pre><code>%n\n</code></pre>"),
    ("`%K", "<p>`%K</p>"),
    ("``%K`", "<p>``%K`</p>"),
    ("```\n%{40|line %#\n%}%l\n```", "<pre><code>%{40|line %#\n%}%l\n</code></pre>"),
    ("%{40|    line %#\n%}    %l", "<pre><code>%{40|line %#\n%}%l\n</code></pre>"),
    ("`%K%U%A`", "<p><code>%K%U%A</code></p>"),
    ("```\n%K%U%A\n```", "<pre><code>%K%U%A\n</code></pre>"),
    ("```\n%U%l\n```", "<pre><code>%U%l\n</code></pre>"),
    ("    %K%U%A", "<pre><code>%K%U%A\n</code></pre>"),
    ("    %U%l", "<pre><code>%U%l\n</code></pre>"),
    ("```\n%l%B\n```", "<pre><code>%l%B\n</code></pre>"),
    ("```\n\n%l\n\n\n```", "<pre><code>\n%l\n\n\n</code></pre>"),
    ("```\n%l\n```\n\n```\n%m\n```", "<pre><code>%l\n</code></pre><pre><code>%m\n</code></pre>"),
    ("%{12|`%K%#` %}%a", "<p>%{12|<code>%K%#</code> %}%a</p>"),
    ("```\n<details>\n<summary>%K</summary>\n```", "<pre><code>&lt;details&gt;\n&lt;summary&gt;%K&lt;/summary&gt;\n</code></pre>"),
    ("```\n|%K|\n|-|\n|%A|\n```", "<pre><code>|%K|\n|-|\n|%A|\n</code></pre>"),
    ("```\n[^%K]: %A\n```", "<pre><code>[^%K]: %A\n</code></pre>"),
    ("```\n---\n\n***\n```", "<pre><code>---\n\n***\n</code></pre>"),
    ("`%K*%A*%E`", "<p><code>%K*%A*%E</code></p>"),
    ("`~~%K~~`", "<p><code>~~%K~~</code></p>"),
    ("`<%K>`", "<p><code>&lt;%K&gt;</code></p>"),
    ("`<http://%u>`", "<p><code>&lt;http://%u&gt;</code></p>"),
    ("```%i%L%k%L```%L%a", "<pre><code class=\"language-%i\">%k\n</code></pre><p>%a</p>"),
    ("`%B`", "<p><code>%B</code></p>"),
    ("%K `%B` %A", "<p>%K <code>%B</code> %A</p>"),
    ("` %k `", "<p><code>%k</code></p>"),
    ("`  %K  `", "<p><code> %K </code></p>"),
    ("` %k`", "<p><code> %k</code></p>"),
    ("`%k%B`", "<p><code>%k%B</code></p>"),
    ("`%K\t%A`", "<p><code>%K\t%A</code></p>"),
    ("    %T%l", "<pre><code>%T%l\n</code></pre>"),
    ("\t%T%l", "<pre><code>%T%l\n</code></pre>"),
    ("  \t%T%l", "<pre><code>%T%l\n</code></pre>"),
    ("   \t%T%T%l", "<pre><code>%T%T%l\n</code></pre>"),
    ("    %l\n    %T%m", "<pre><code>%l\n%T%m\n</code></pre>"),
    ("```\n%T%l%T\n%m\n```", "<pre><code>%T%l%T\n%m\n</code></pre>"),
    ("```\n%l\n``\n%m\n```", "<pre><code>%l\n``\n%m\n</code></pre>"),
    ("`````\n%l\n````\n%m\n`````", "<pre><code>%l\n````\n%m\n</code></pre>"),
    ("```\n%l\n`````\n%a", "<pre><code>%l\n</code></pre><p>%a</p>"),
    ("```\n%{300|%#\n%}%l\n```", "<pre><code>%{300|%#\n%}%l\n</code></pre>"),
    ("`%{300|x%}%k`", "<p><code>%{300|x%}%k</code></p>"),
    ("%{10|`%}%k%{10|`%}", "<p><code>%k</code></p>"),
    ("    %{300|x%}%l", "<pre><code>%{300|x%}%l\n</code></pre>"),
    ("%K ```%k``` %A", "<p>%K <code>%k</code> %A</p>"),
    ("%K ```%A\n%E``` %F", "<p>%K <code>%A\n%E</code> %F</p>"),
    ("``%A\n%E``", "<p><code>%A\n%E</code></p>"),
    ("`%A\n%E`", "<p><code>%A\n%E</code></p>"),
    ("```%K`%A\n%E\n```", "<p><code>%K`%A\n%E\n</code></p>"),
    ("```\n%l\n``` %K\n%m\n```", "<pre><code>%l\n``` %K\n%m\n</code></pre>"),
    ("```\n%l\n```%B\n%a", "<pre><code>%l\n</code></pre><p>%a</p>"),
    ("```%K\\%A\n%l\n```", "<pre><code class=\"language-%K\\%A\">%l\n</code></pre>"),
    ("```\n\n%l\n```", "<pre><code>\n%l\n</code></pre>"),
    ("    %K%T%A", "<pre><code>%K%T%A\n</code></pre>"),
    ("   \t%l", "<pre><code>%l\n</code></pre>"),
    ("  \t%l\n%a", "<pre><code>%l\n</code></pre><p>%a</p>"),
    ("- %a\n\n```\n%l\n```", "<ul><li><p>%a</p></li></ul><pre><code>%l\n</code></pre>"),
    ("> ```\n\n%a", "<blockquote><p>```</p></blockquote><p>%a</p>"),
    ("`%K``%A`", "<p><code>%K``%A</code></p>"),
    ("`%K` ``%A``", "<p><code>%K</code> <code>%A</code></p>"),
    ("%K`%k`%A", "<p>%K<code>%k</code>%A</p>"),
    ("# %K `%k` %A", "<h1>%K <code>%k</code> %A</h1>"),
    ("```\n%K", "<p>```\n%K</p>"),
    ("%K ```\n%A\n``` %E", "<p>%K <code>\n%A\n</code> %E</p>"),
    ("``\n%A\n``", "<p><code>\n%A\n</code></p>"),
];

plain!(c12 C12);
pub static C12: &[T] = &[
    ("> %a", "<blockquote><p>%a</p></blockquote>"),
    (">> %a", "<blockquote><blockquote><p>%a</p></blockquote></blockquote>"),
    (">>> %a", "<blockquote><blockquote><blockquote><p>%a</p></blockquote></blockquote></blockquote>"),
    (">>>> %a", "<blockquote><blockquote><blockquote><blockquote><p>%a</p></blockquote></blockquote></blockquote></blockquote>"),
    ("> %a\n", "<blockquote><p>%a</p></blockquote>"),
    ("> %a\n> %b", "<blockquote><p>%a</p><p>%b</p></blockquote>"),
    ("> %a\n>> %b", "<blockquote><p>%a</p><blockquote><p>%b</p></blockquote></blockquote>"),
    (">> %a\n> %b", "<blockquote><blockquote><p>%a</p></blockquote><p>%b</p></blockquote>"),
    ("> %a\n>>> %b", "<blockquote><p>%a</p><blockquote><blockquote><p>%b</p></blockquote></blockquote></blockquote>"),
    (">>> %a\n> %b", "<blockquote><blockquote><blockquote><p>%a</p></blockquote></blockquote><p>%b</p></blockquote>"),
    ("> %a\n>> %b\n> %c", "<blockquote><p>%a</p><blockquote><p>%b</p></blockquote><p>%c</p></blockquote>"),
    (">> %a\n> %b\n>>> %c", "<blockquote><blockquote><p>%a</p></blockquote><p>%b</p><blockquote><blockquote><p>%c</p></blockquote></blockquote></blockquote>"),
    ("> %K\n>> %A\n>>> %E\n> %F\n>> %a", "<blockquote><p>%K</p><blockquote><p>%A</p><blockquote><p>%E</p></blockquote></blockquote><p>%F</p><blockquote><p>%a</p></blockquote></blockquote>"),
    ("> %a%L> %b%L", "<blockquote><p>%a</p><p>%b</p></blockquote>"),
    ("> %n\n>> %W", "<blockquote><p>%n</p><blockquote><p>%W</p></blockquote></blockquote>"),
    ("> %a\n\n%b", "<blockquote><p>%a</p></blockquote><p>%b</p>"),
    (">> %a\n\n%b", "<blockquote><blockquote><p>%a</p></blockquote></blockquote><p>%b</p>"),
    ("> %a\n%b", "<blockquote><p>%a</p></blockquote><p>%b</p>"),
    ("%a\n> %b", "<p>%a</p><blockquote><p>%b</p></blockquote>"),
    ("%a\n\n>> %b\n\n%c", "<p>%a</p><blockquote><blockquote><p>%b</p></blockquote></blockquote><p>%c</p>"),
    ("> %a\n# %h", "<blockquote><p>%a</p></blockquote><h1>%h</h1>"),
    ("> # %h", "<blockquote><h1>%h</h1></blockquote>"),
    ("> - %a", "<blockquote><ul><li><p>%a</p></li></ul></blockquote>"),
    ("> *%e* %K", "<blockquote><p><em>%e</em> %K</p></blockquote>"),
    ("> `%k`", "<blockquote><p><code>%k</code></p></blockquote>"),
    ("> [%e](%u)", "<blockquote><p><a href=\"%u\">%e</a></p></blockquote>"),
    ("> > %a", "<blockquote><blockquote><p>%a</p></blockquote></blockquote>"),
    ("> %K & \"%A\" < %E", "<blockquote><p>%K &amp; \"%A\" &lt; %E</p></blockquote>"),
    (">%a", "<p>&gt;%a</p>"),
    ("%a > %b", "<p>%a &gt; %b</p>"),
    (">>>>>> %a", "<blockquote><blockquote><blockquote><blockquote><blockquote><blockquote><p>%a</p></blockquote></blockquote></blockquote></blockquote></blockquote></blockquote>"),
    (">>>>>>>>>>>> %a", "<blockquote><blockquote><blockquote><blockquote><blockquote><blockquote><blockquote><blockquote><blockquote><blockquote><blockquote><blockquote><p>%a</p></blockquote></blockquote></blockquote></blockquote></blockquote></blockquote></blockquote></blockquote></blockquote></blockquote></blockquote></blockquote>"),
    ("%{12|> %K %#\n%}> %a", "<blockquote>%{12|<p>%K %#</p>%}<p>%a</p></blockquote>"),
    ("> %K%U%A", "<blockquote><p>%K%U%A</p></blockquote>"),
    ("> %{30|word%# %}%a", "<blockquote><p>%{30|word%# %}%a</p></blockquote>"),
    ("> %a\n>> %b\n>>> %c\n>>>> %d", "<blockquote><p>%a</p><blockquote><p>%b</p><blockquote><p>%c</p><blockquote><p>%d</p></blockquote></blockquote></blockquote></blockquote>"),
    (">>>> %a\n> %b", "<blockquote><blockquote><blockquote><blockquote><p>%a</p></blockquote></blockquote></blockquote><p>%b</p></blockquote>"),
    (">>>> %a\n>> %b\n> %c", "<blockquote><blockquote><blockquote><blockquote><p>%a</p></blockquote></blockquote><p>%b</p></blockquote><p>%c</p></blockquote>"),
    ("> 1. %a", "<blockquote><ol><li>%a</li></ol></blockquote>"),
    ("> %a\n\n# %h", "<blockquote><p>%a</p></blockquote><h1>%h</h1>"),
    ("> %a\n- %b", "<blockquote><p>%a</p></blockquote><ul><li><p>%b</p></li></ul>"),
    ("> ~~%e~~ **%f**", "<blockquote><p><strike>%e</strike> <strong>%f</strong></p></blockquote>"),
    ("%{300|>%} %a", "%{300|<blockquote>%}<p>%a</p>%{300|</blockquote>%}"),
    ("%{20|>%} %a\n>>> %b", "%{20|<blockquote>%}<p>%a</p>%{17|</blockquote>%}<p>%b</p></blockquote></blockquote></blockquote>"),
    ("%{70|> %K%#\n%}", "<blockquote>%{70|<p>%K%#</p>%}</blockquote>"),
    ("> %K\\%p%A", "<blockquote><p>%K%p%A</p></blockquote>"),
    (">%B%K", "<blockquote><p>%K</p></blockquote>"),
    ("> %K%T\n> %A%T", "<blockquote><p>%K</p><p>%A</p></blockquote>"),
    ("> %a\n>> %b\n\n%c", "<blockquote><p>%a</p><blockquote><p>%b</p></blockquote></blockquote><p>%c</p>"),
    ("> %a\n1. %b", "<blockquote><p>%a</p></blockquote><ol><li>%b</li></ol>"),
    ("> %a\n    %l", "<blockquote><p>%a</p></blockquote><pre><code>%l\n</code></pre>"),
    ("> %a\n```\n%l\n```", "<blockquote><p>%a</p></blockquote><pre><code>%l\n</code></pre>"),
    ("> %a\n|%r|\n|-|\n|%s|", concat!("<blockquote><p>%a</p></blockquote>", table!([th!("left", "%r")] [td!("left", "%s")]))),
    ("> ![%e](%u)", "<blockquote><p><img src=\"%u\" alt=\"%e\" referrerpolicy=\"no-referrer\"></p></blockquote>"),
    ("> ---", "<blockquote><hr /></blockquote>"),
    ("- %a\n> %b", "<ul><li><p>%a</p></li></ul><blockquote><p>%b</p></blockquote>"),
    ("# %h\n> %a", "<h1>%h</h1><blockquote><p>%a</p></blockquote>"),
];

pub fn c13(j: u32, t: u32) {
    if long(C13[j as usize].0, t) {
        return sym::reach(1);
    }
    let pct = C13[j as usize].0.contains("%w") || C13[j as usize].0.contains("%O");
    tpl::equal(&[C13[j as usize]], "", t, pct)
}
pub static C13: &[T] = &[
    ("[%e](%u)", "<p><a href=\"%u\">%e</a></p>"),
    ("[%e](http://%u)", "<p><a href=\"http://%u\">%e</a></p>"),
    ("[%e](https://%u)", "<p><a href=\"https://%u\">%e</a></p>"),
    ("[%e](%K%A:%u)", "<p><a href=\"%K%A:%u\">%e</a></p>"),
    ("[%e](/%u)", "<p><a href=\"/%u\">%e</a></p>"),
    ("[%e](#%i)", "<p><a href=\"#%i\">%e</a></p>"),
    ("[%e](mailto:%K@%i)", "<p><a href=\"mailto:%K@%i\">%e</a></p>"),
    ("[%e](%K@%A)", "<p><a href=\"mailto:%K@%A\">%e</a></p>"),
    ("[%e](http://%K@%A/%u)", "<p><a href=\"http://%K@%A/%u\">%e</a></p>"),
    ("[%e](%w)", "<p><a href=\"%w\">%e</a></p>"),
    ("[%e](http:%w)", "<p><a href=\"http:%w\">%e</a></p>"),
    ("[%e](%u \"%g\")", "<p><a href=\"%u\" title=\"%g\">%e</a></p>"),
    ("[%e](%u '%g')", "<p><a href=\"%u\" title=\"%g\">%e</a></p>"),
    ("[%e](%u \"%K %A\")", "<p><a href=\"%u\" title=\"%K %A\">%e</a></p>"),
    ("[%e](%u \"%K<%A>&\")", "<p><a href=\"%u\" title=\"%K&lt;%A&gt;&amp;\">%e</a></p>"),
    ("%K [%e](%u) %A", "<p>%K <a href=\"%u\">%e</a> %A</p>"),
    ("%K [%e](%u \"%g\") %A", "<p>%K <a href=\"%u\" title=\"%g\">%e</a> %A</p>"),
    ("[%e](%u)\n%a", "<p><a href=\"%u\">%e</a>\n%a</p>"),
    ("[%e](%u \"%K\")\n%a", "<p><a href=\"%u\" title=\"%K\">%e</a>\n%a</p>"),
    ("[%e](%u)\n\n%a", "<p><a href=\"%u\">%e</a></p><p>%a</p>"),
    ("[%e](%u)[%f](%v)", "<p><a href=\"%u\">%e</a><a href=\"%v\">%f</a></p>"),
    ("[%n](%u)", "<p><a href=\"%u\">%n</a></p>"),
    ("[%K %A](%u)", "<p><a href=\"%u\">%K %A</a></p>"),
    ("![%e](%u)", "<p><img src=\"%u\" alt=\"%e\" referrerpolicy=\"no-referrer\"></p>"),
    ("![%e](http://%u)", "<p><img src=\"http://%u\" alt=\"%e\" referrerpolicy=\"no-referrer\"></p>"),
    ("![%e](%w)", "<p><img src=\"%w\" alt=\"%e\" referrerpolicy=\"no-referrer\"></p>"),
    ("![%e](data:image/%i)", "<p><img src=\"data:image/%i\" alt=\"%e\" referrerpolicy=\"no-referrer\"></p>"),
    ("%K ![%e](%u) %A", "<p>%K <img src=\"%u\" alt=\"%e\" referrerpolicy=\"no-referrer\"> %A</p>"),
    ("![%e](%u)![%f](%v)", "<p><img src=\"%u\" alt=\"%e\" referrerpolicy=\"no-referrer\"><img src=\"%v\" alt=\"%f\" referrerpolicy=\"no-referrer\"></p>"),
    ("![%n](%u)", "<p><img src=\"%u\" alt=\"%n\" referrerpolicy=\"no-referrer\"></p>"),
    ("![](%u)", "<p><img src=\"%u\" alt=\"\" referrerpolicy=\"no-referrer\"></p>"),
    ("<http://%u>", "<p><a href=\"http://%u\">http://%u</a></p>"),
    ("<https://%u>", "<p><a href=\"https://%u\">https://%u</a></p>"),
    ("<%K%A:%u>", "<p><a href=\"%K%A:%u\">%K%A:%u</a></p>"),
    ("<irc://%u>", "<p><a href=\"irc://%u\">irc://%u</a></p>"),
    ("<%K@%i.%A>", "<p><a href=\"mailto:%K@%i.%A\">%K@%i.%A</a></p>"),
    ("%K <http://%u> %A", "<p>%K <a href=\"http://%u\">http://%u</a> %A</p>"),
    ("<http://%u> <http://%v>", "<p><a href=\"http://%u\">http://%u</a> <a href=\"http://%v\">http://%v</a></p>"),
    ("[%e]", "<p>[%e]</p>"),
    ("[%e] (%u)", "<p>[%e] (%u)</p>"),
    ("[%e](%u", "<p>[%e](%u</p>"),
    ("![%e]", "<p>![%e]</p>"),
    ("<%K>", "<p>&lt;%K&gt;</p>"),
    ("[%e](%K%A::%u)", "<p><a href=\"%K%A::%u\">%e</a></p>"),
    ("<%K%A::%u>", "<p><a href=\"%K%A::%u\">%K%A::%u</a></p>"),
    ("[%e](http::%u)", "<p><a href=\"http::%u\">%e</a></p>"),
    ("[%e](http://%K:%o/%u:%A)", "<p><a href=\"http://%K:%o/%u:%A\">%e</a></p>"),
    ("<http://%K:%o/%u:%A>", "<p><a href=\"http://%K:%o/%u:%A\">http://%K:%o/%u:%A</a></p>"),
    ("[%e](http://%K:%A@%u)", "<p><a href=\"http://%K:%A@%u\">%e</a></p>"),
    ("[%e](%u?%K=%A:%E)", "<p><a href=\"%u?%K=%A:%E\">%e</a></p>"),
    ("[%e](//%u)", "<p><a href=\"//%u\">%e</a></p>"),
    ("[%e](../%u)", "<p><a href=\"../%u\">%e</a></p>"),
    ("[%e](%K@%A@%E)", "<p><a href=\"%K@%A@%E\">%e</a></p>"),
    ("[%e](%B%u)", "<p><a href=\"%u\">%e</a></p>"),
    ("[%e](%u%B\"%g\")", "<p><a href=\"%u\" title=\"%g\">%e</a></p>"),
    ("![%e](%B%u)", "<p><img src=\"%u\" alt=\"%e\" referrerpolicy=\"no-referrer\"></p>"),
    ("[%K%U%A](%u)", "<p><a href=\"%u\">%K%U%A</a></p>"),
    ("![%K%U%A](%u)", "<p><img src=\"%u\" alt=\"%K%U%A\" referrerpolicy=\"no-referrer\"></p>"),
    ("%{12|[%K%#](%u%#) %}%a", "<p>%{12|<a href=\"%u%#\">%K%#</a> %}%a</p>"),
    ("[%e](%{30|part%#/%}%u)", "<p><a href=\"%{30|part%#/%}%u\">%e</a></p>"),
    ("[%e](data:image/png;base64,%i)", "<p><a href=\"data:image/png;base64,%i\">%e</a></p>"),
    ("[%e](ftp://%u)", "<p><a href=\"ftp://%u\">%e</a></p>"),
    ("[%e](file:///%u)", "<p><a href=\"file:///%u\">%e</a></p>"),
    ("[%e](tel:%o)", "<p><a href=\"tel:%o\">%e</a></p>"),
    ("[%e](javascripts:%K)", "<p><a href=\"javascripts:%K\">%e</a></p>"),
    ("[%e](/data:%K)", "<p><a href=\"/data:%K\">%e</a></p>"),
    ("- [%e](%u)", "<ul><li><p><a href=\"%u\">%e</a></p></li></ul>"),
    ("> ![%e](%u)", "<blockquote><p><img src=\"%u\" alt=\"%e\" referrerpolicy=\"no-referrer\"></p></blockquote>"),
    ("# ![%e](%u)", "<h1><img src=\"%u\" alt=\"%e\" referrerpolicy=\"no-referrer\"></h1>"),
    ("<http:%O>", "<p><a href=\"http:%O\">http:%O</a></p>"),
    ("<%K%A:%O>", "<p><a href=\"%K%A:%O\">%K%A:%O</a></p>"),
    ("[%e](%K?%A@%E)", "<p><a href=\"%K?%A@%E\">%e</a></p>"),
    ("[%e](%K/%A@%E)", "<p><a href=\"%K/%A@%E\">%e</a></p>"),
    ("[%e](%K#%A@%E)", "<p><a href=\"%K#%A@%E\">%e</a></p>"),
    ("[%e](?%u)", "<p><a href=\"?%u\">%e</a></p>"),
    ("[%e](%{15|s%}%K:%u)", "<p><a href=\"%{15|s%}%K:%u\">%e</a></p>"),
    ("[%e](%{31|s%}%K:%u)", "<p><a href=\"%{31|s%}%K:%u\">%e</a></p>"),
    ("<%{31|s%}%K:%u>", "<p><a href=\"%{31|s%}%K:%u\">%{31|s%}%K:%u</a></p>"),
    ("[%e](%u \"\"%K\"\")", "<p><a href=\"%u\" title=\"&quot;%K&quot;\">%e</a></p>"),
    ("[%e](%u \"'%K'\")", "<p><a href=\"%u\" title=\"'%K'\">%e</a></p>"),
    ("[%e](%u '\"%K\"')", "<p><a href=\"%u\" title=\"&quot;%K&quot;\">%e</a></p>"),
    ("[%e](%u \"%K'%A\")", "<p><a href=\"%u\" title=\"%K'%A\">%e</a></p>"),
    ("[%e](%u \"%K\n%A\")", "<p><a href=\"%u\" title=\"%K\n%A\">%e</a></p>"),
    ("[%e](%u \"%K\\\"%A\")", "<p><a href=\"%u\" title=\"%K&quot;%A\">%e</a></p>"),
    ("[%e](%u \" %K \")", "<p><a href=\"%u\" title=\" %K \">%e</a></p>"),
    ("[%K\"%A<%E>&](%u)", "<p><a href=\"%u\">%K\"%A&lt;%E&gt;&amp;</a></p>"),
    ("![%K\"%A<%E>&](%u)", "<p><img src=\"%u\" alt=\"%K&quot;%A&lt;%E&gt;&amp;\" referrerpolicy=\"no-referrer\"></p>"),
    ("[%K(%A)](%u)", "<p><a href=\"%u\">%K(%A)</a></p>"),
    ("[%K\n%A](%u)", "<p><a href=\"%u\">%K\n%A</a></p>"),
    ("[%e](%{300|x%}%u)", "<p><a href=\"%{300|x%}%u\">%e</a></p>"),
    ("[%{300|x%}%e](%u)", "<p><a href=\"%u\">%{300|x%}%e</a></p>"),
    ("<http://%{300|x%}%u>", "<p><a href=\"http://%{300|x%}%u\">http://%{300|x%}%u</a></p>"),
    ("%{70|[%K%#](%u%#) %}%a", "<p>%{70|<a href=\"%u%#\">%K%#</a> %}%a</p>"),
    ("[%K\\%S%A](%u)", "<p><a href=\"%u\">%K%S%A</a></p>"),
    ("[%e](%u \"%K\\%S%A\")", "<p><a href=\"%u\" title=\"%K%S%A\">%e</a></p>"),
    ("![%K\\%S%A](%u)", "<p><img src=\"%u\" alt=\"%K%S%A\" referrerpolicy=\"no-referrer\"></p>"),
    ("[%K\n%A](%u)", "<p><a href=\"%u\">%K\n%A</a></p>"),
    ("[%K\n\n%A](%u)", "<p>[%K</p><p>%A](%u)</p>"),
    ("%K [%A\n\n%E](%u) %F", "<p>%K [%A</p><p>%E](%u) %F</p>"),
    ("![%K\n\n%A](%u)", "<p>![%K</p><p>%A](%u)</p>"),
    ("[*%e*](%K", "<p>[<em>%e</em>](%K</p>"),
    ("[%e](http:%K)", "<p><a href=\"http:%K\">%e</a></p>"),
    ("[%e](http:/%u)", "<p><a href=\"http:/%u\">%e</a></p>"),
    ("[%K\\%S%A](%u \"%g\")", "<p><a href=\"%u\" title=\"%g\">%K%S%A</a></p>"),
];

plain!(c14 C14);
pub static C14: &[T] = &[
    ("%a[^%i]\n\n[^%i]: %g", concat!("<p>%a", fref!("%i"), "</p>", notes!(fnote!("%i", "%g")))),
    ("%a[^%i] %b\n\n[^%i]: %g", concat!("<p>%a", fref!("%i"), " %b</p>", notes!(fnote!("%i", "%g")))),
    ("[^%i]: %g\n\n%a[^%i]", concat!("<p>%a", fref!("%i"), "</p>", notes!(fnote!("%i", "%g")))),
    (
        "%a[^%i] %K[^%j]\n\n[^%i]: %g\n[^%j]: %A",
        concat!("<p>%a", fref!("%i"), " %K", fref!("%j"), "</p>", notes!(fnote!("%i", "%g"), fnote!("%j", "%A"))),
    ),
    (
        "%a[^%i]\n\n[^%i]: %g\n\n%b[^%j]\n\n[^%j]: %K",
        concat!("<p>%a", fref!("%i"), "</p><p>%b", fref!("%j"), "</p>", notes!(fnote!("%i", "%g"), fnote!("%j", "%K"))),
    ),
    ("%a[^%i]\n\n[^%i]: %K %A & \"%E\"", concat!("<p>%a", fref!("%i"), "</p>", notes!(fnote!("%i", "%K %A &amp; \"%E\"")))),
    ("%a[^%o]\n\n[^%o]: %g\n", concat!("<p>%a", fref!("%o"), "</p>", notes!(fnote!("%o", "%g")))),
    ("%a[^%i]%L%L[^%i]: %g%L", concat!("<p>%a", fref!("%i"), "</p>", notes!(fnote!("%i", "%g")))),
    ("%K[^%n]\n\n[^%n]: %W", concat!("<p>%K", fref!("%n"), "</p>", notes!(fnote!("%n", "%W")))),
    ("%a[^%i]\n\n[^%i]: %g\n\n%b", concat!("<p>%a", fref!("%i"), "</p><p>%b</p>", notes!(fnote!("%i", "%g")))),
    ("%a[^%i]\n\n[^%i]: %g\n%b", concat!("<p>%a", fref!("%i"), "</p><p>%b</p>", notes!(fnote!("%i", "%g")))),
    ("- %a\n\n[^%i]: %g", concat!("<ul><li><p>%a</p></li></ul>", notes!(fnote!("%i", "%g")))),
    ("> %a\n\n[^%i]: %g", concat!("<blockquote><p>%a</p></blockquote>", notes!(fnote!("%i", "%g")))),
    ("# %h[^%i]\n\n[^%i]: %g", concat!("<h1>%h", fref!("%i"), "</h1>", notes!(fnote!("%i", "%g")))),
    ("%a\n[^%i]: %g", concat!("<p>%a</p>", notes!(fnote!("%i", "%g")))),
    ("%a [^%K %A]", "<p>%a [^%K %A]</p>"),
    ("%a [^]", "<p>%a [^]</p>"),
    (
        "%{12|%K%#[^%i%#]\n%}\n%{12|[^%i%#]: %A%#\n%}",
        concat!("<p>%K1", fref!("%i1"), "%{11|\n%K%$", fref!("%i%$"), "%}</p>", "<div class=\"footnotes\" role=\"doc-endnotes\"><ol>%{12|", fnote!("%i%#", "%A%#"), "%}</ol></div>"),
    ),
    ("%a[^%i]\n\n[^%i]: %{30|word%# %}%K", concat!("<p>%a", fref!("%i"), "</p>", notes!(fnote!("%i", "%{30|word%# %}%K")))),
    ("%a[^%i]\n\n[^%i]: %K%U%A", concat!("<p>%a", fref!("%i"), "</p>", notes!(fnote!("%i", "%K%U%A")))),
    ("%a[^%i]\n\n- %b\n\n[^%i]: %g\n\n# %h", concat!("<p>%a", fref!("%i"), "</p><ul><li><p>%b</p></li></ul><h1>%h</h1>", notes!(fnote!("%i", "%g")))),
    ("%a[^%i]\n\n[^%i]: %g\n---\n%b", concat!("<p>%a", fref!("%i"), "</p><hr /><p>%b</p>", notes!(fnote!("%i", "%g")))),
    ("%a[^%i]\n\n[^%i]: %g\n\n```\n%l\n```", concat!("<p>%a", fref!("%i"), "</p><pre><code>%l\n</code></pre>", notes!(fnote!("%i", "%g")))),
    ("*%e*[^%i]\n\n[^%i]: %g", concat!("<p><em>%e</em>", fref!("%i"), "</p>", notes!(fnote!("%i", "%g")))),
    ("- %a[^%i]\n\n[^%i]: %g", concat!("<ul><li><p>%a", fref!("%i"), "</p></li></ul>", notes!(fnote!("%i", "%g")))),
    ("%a[^%i]%b\n\n[^%i]: %g", concat!("<p>%a", fref!("%i"), "%b</p>", notes!(fnote!("%i", "%g")))),
    ("%a[^%i]\n%b[^%j]\n\n[^%j]: %g\n[^%i]: %K", concat!("<p>%a", fref!("%i"), "\n%b", fref!("%j"), "</p>", notes!(fnote!("%j", "%g"), fnote!("%i", "%K")))),
    ("%a[^%i]\n\n[^%i]: %g\n  %K", concat!("<p>%a", fref!("%i"), "</p>", notes!(fnote!("%i", "%g\n  %K")))),
    ("%a[^%i]\n\n[^%i]: %g\n    %K\n%b", concat!("<p>%a", fref!("%i"), "</p><p>%b</p>", notes!(fnote!("%i", "%g\n    %K")))),
    ("%a[^%i]\n\n[^%i]: %g\n\t%K\n\n%b", concat!("<p>%a", fref!("%i"), "</p><p>%b</p>", notes!(fnote!("%i", "%g\n\t%K")))),
    ("%{70|%K%#[^%i%#]\n%}\n%{70|[^%i%#]: %A%#\n%}", concat!("<p>%K1", fref!("%i1"), "%{69|\n%K%$", fref!("%i%$"), "%}</p>", "<div class=\"footnotes\" role=\"doc-endnotes\"><ol>%{70|", fnote!("%i%#", "%A%#"), "%}</ol></div>")),
    ("%a[^%{70|x%}%i]\n\n[^%{70|x%}%i]: %g", concat!("<p>%a", fref!("%{70|x%}%i"), "</p>", notes!(fnote!("%{70|x%}%i", "%g")))),
    ("%a[^%i]\n\n[^%i]: %K\\%S%A", concat!("<p>%a", fref!("%i"), "</p>", notes!(fnote!("%i", "%K%S%A")))),
    ("%a[^%i]\n\n[^%i]: %g\n %K", concat!("<p>%a", fref!("%i"), "</p><p>%K</p>", notes!(fnote!("%i", "%g")))),
    ("%a[^%i]\n\n[^%i]: %g\n- %b\n- %c", concat!("<p>%a", fref!("%i"), "</p><ul><li><p>%b</p></li><li><p>%c</p></li></ul>", notes!(fnote!("%i", "%g")))),
    ("%a[^%i]\n\n[^%i]: %g\n> %b", concat!("<p>%a", fref!("%i"), "</p><blockquote><p>%b</p></blockquote>", notes!(fnote!("%i", "%g")))),
    ("%a[^%i]\n\n[^%i]: %g\n\n    %l", concat!("<p>%a", fref!("%i"), "</p><pre><code>%l\n</code></pre>", notes!(fnote!("%i", "%g")))),
    ("![^%i]: %K", concat!("<p>!", fref!("%i"), ": %K</p>")),
    ("%a[^%K%S%A]\n\n[^%K%S%A]: %g", concat!("<p>%a", fref!("%K%S%A"), "</p>", notes!(fnote!("%K%S%A", "%g")))),
    ("%a[^%W]\n\n[^%W]: %g", concat!("<p>%a", fref!("%W"), "</p>", notes!(fnote!("%W", "%g")))),
    ("%a[^%o]\n\n[^%o]: %g", concat!("<p>%a", fref!("%o"), "</p>", notes!(fnote!("%o", "%g")))),
];

plain!(c22 C22);
pub static C22: &[T] = &[
    ("<details>\n<summary>%g</summary>\n%a\n</details>", "<details><summary>%g</summary><p>%a</p></details>"),
    ("<details>\n<summary>%a</summary>\n\n%b\n\n</details>", "<details><summary>%a</summary><p>%b</p></details>"),
    ("<details>\n<summary>%n</summary>\n%W\n</details>\n", "<details><summary>%n</summary><p>%W</p></details>"),
    ("<details>%L<summary>%g</summary>%L%a%L</details>%L", "<details><summary>%g</summary><p>%a</p></details>"),
    ("<details>\n<summary>%g</summary>\n%a</details>", "<details><summary>%g</summary><p>%a</p></details>"),
    ("<details>\n<summary>%K %A & \"%E\"</summary>\n%a\n</details>", "<details><summary>%K %A &amp; \"%E\"</summary><p>%a</p></details>"),
    ("<details>\n<summary></summary>\n%a\n</details>", "<details><summary></summary><p>%a</p></details>"),
    ("<details>\n<summary>%g</summary>\n</details>", "<details><summary>%g</summary></details>"),
    ("%a\n<details>\n<summary>%g</summary>\n%b\n</details>\n%c", "<p>%a</p><details><summary>%g</summary><p>%b</p></details><p>%c</p>"),
    ("%a\n\n<details>\n<summary>%g</summary>\n%b\n</details>\n\n%c", "<p>%a</p><details><summary>%g</summary><p>%b</p></details><p>%c</p>"),
    ("<details>\n<summary>%g</summary>\n%a\n\n%b\n</details>", "<details><summary>%g</summary><p>%a</p><p>%b</p></details>"),
    ("<details>\n<summary>%g</summary>\n# %h\n\n- %a\n- %b\n</details>", "<details><summary>%g</summary><h1>%h</h1><ul><li><p>%a</p></li><li><p>%b</p></li></ul></details>"),
    ("<details>\n<summary>%g</summary>\n> %a\n</details>\n%b", "<details><summary>%g</summary><blockquote><p>%a</p></blockquote></details><p>%b</p>"),
    ("<details>\n<summary>%g</summary>\n1. %a\n2. %b\n</details>\n%c", "<details><summary>%g</summary><ol><li>%a</li><li>%b</li></ol></details><p>%c</p>"),
    ("<details>\n<summary>%g</summary>\n```\n%l\n```\n</details>", "<details><summary>%g</summary><pre><code>%l\n</code></pre></details>"),
    ("<details>\n<summary>%g</summary>\n|%r|\n|-|\n|%s|\n</details>", concat!("<details><summary>%g</summary>", table!([th!("left", "%r")] [td!("left", "%s")]), "</details>")),
    ("<details>\n<summary>%g</summary>\n*%e* [%f](%u)\n</details>", "<details><summary>%g</summary><p><em>%e</em> <a href=\"%u\">%f</a></p></details>"),
    ("<details>\n<summary>%g</summary>\n%a\n</details>\n<details>\n<summary>%K</summary>\n%b\n</details>", "<details><summary>%g</summary><p>%a</p></details><details><summary>%K</summary><p>%b</p></details>"),
    ("<details>\n<summary>%g</summary>\n<details>\n<summary>%K</summary>\n%a\n</details>\n</details>", "<details><summary>%g</summary><details><summary>%K</summary><p>%a</p></details></details>"),
    ("<details>\n<summary>%K</summary>\n%a\n<details>\n<summary>%A</summary>\n%b\n</details>\n%c\n</details>\n%d", "<details><summary>%K</summary><p>%a</p><details><summary>%A</summary><p>%b</p></details><p>%c</p></details><p>%d</p>"),
    (
        "<details>\n<summary>%K</summary>\n<details>\n<summary>%A</summary>\n<details>\n<summary>%E</summary>\n%a\n</details>\n</details>\n</details>\n%b",
        "<details><summary>%K</summary><details><summary>%A</summary><details><summary>%E</summary><p>%a</p></details></details></details><p>%b</p>",
    ),
    (
        "<details>\n<summary>%K</summary>\n<details>\n<summary>%A</summary>\n%a\n</details>\n<details>\n<summary>%E</summary>\n%b\n</details>\n</details>\n%c",
        "<details><summary>%K</summary><details><summary>%A</summary><p>%a</p></details><details><summary>%E</summary><p>%b</p></details></details><p>%c</p>",
    ),
    ("- %a\n<details>\n<summary>%g</summary>\n%b\n</details>", "<ul><li><p>%a</p></li></ul><details><summary>%g</summary><p>%b</p></details>"),
    ("<details>\n<summary>%g</summary>\n%a", "<p>&lt;details&gt;\n&lt;summary&gt;%g&lt;/summary&gt;\n%a</p>"),
    ("<details>\n%a\n</details>", "<p>&lt;details&gt;\n%a\n&lt;/details&gt;</p>"),
    ("%a <details>", "<p>%a &lt;details&gt;</p>"),
    ("</details>\n%a", "<p>&lt;/details&gt;\n%a</p>"),
    ("%{12|<details>\n<summary>%K%#</summary>\n%A%#\n</details>\n%}%a", "%{12|<details><summary>%K%#</summary><p>%A%#</p></details>%}<p>%a</p>"),
    ("%{8|<details>\n<summary>%K%#</summary>\n%}%a\n%{8|</details>\n%}%b", "%{8|<details><summary>%K%#</summary>%}<p>%a</p>%{8|</details>%}<p>%b</p>"),
    ("<details>\n<summary>%K%U%A</summary>\n%E%U%F\n</details>", "<details><summary>%K%U%A</summary><p>%E%U%F</p></details>"),
    ("<details>\n<summary>%g</summary>\n%{20|line %#\n%}%a\n</details>", "<details><summary>%g</summary><p>%{20|line %#\n%}%a</p></details>"),
    ("<details>\n<summary>%g</summary>\n    %l\n</details>", "<details><summary>%g</summary><pre><code>%l\n</code></pre></details>"),
    ("<details>\n<summary>%g</summary>\n---\n%a\n</details>\n# %h", "<details><summary>%g</summary><hr /><p>%a</p></details><h1>%h</h1>"),
    ("# %h\n<details>\n<summary>%g</summary>\n%a\n</details>\n- %b", "<h1>%h</h1><details><summary>%g</summary><p>%a</p></details><ul><li><p>%b</p></li></ul>"),
    ("<details>\n<summary>%g</summary>\n- [ ] %a\n</details>", "<details><summary>%g</summary><ul class=\"contains-task-list\"><li class=\"task-list-item\"><input type=\"checkbox\" class=\"task-list-item-checkbox\">%a</li></ul></details>"),
    ("<details>\n<summary>%Q%K</summary>\n%a\n</details>", "<details><summary>%Q%K</summary><p>%a</p></details>"),
    ("<details>\n<summary>%K%Q</summary>\n%a\n</details>", "<details><summary>%K%Q</summary><p>%a</p></details>"),
    ("<details>\n<summary> %K </summary>\n%a\n</details>", "<details><summary> %K </summary><p>%a</p></details>"),
    ("<details>\n<summary>%g</summary>\n%K <details %A\n</details>\n%b", "<details><summary>%g</summary><p>%K &lt;details %A</p></details><p>%b</p>"),
    ("<details>\n<summary>%g</summary>\n%K </details %A\n</details>\n%b", "<details><summary>%g</summary><p>%K &lt;/details %A</p></details><p>%b</p>"),
    ("<details>\n<summary>%g</summary>\n%K <summary> %A\n</details>\n%b", "<details><summary>%g</summary><p>%K &lt;summary&gt; %A</p></details><p>%b</p>"),
    ("%{70|<details>\n<summary>%K%#</summary>\n%A%#\n</details>\n%}%a", "%{70|<details><summary>%K%#</summary><p>%A%#</p></details>%}<p>%a</p>"),
    ("%{20|<details>\n<summary>%K%#</summary>\n%}%a\n%{20|</details>\n%}%b", "%{20|<details><summary>%K%#</summary>%}<p>%a</p>%{20|</details>%}<p>%b</p>"),
    ("<details>\n<summary>%K\\%S%A</summary>\n%E\n</details>", "<details><summary>%K%S%A</summary><p>%E</p></details>"),
    ("<details>\n*%e*\n</details>", "<p>&lt;details&gt;\n<em>%e</em>\n&lt;/details&gt;</p>"),
    ("<details>\n<summary>%g</summary>\n*%e*", "<p>&lt;details&gt;\n&lt;summary&gt;%g&lt;/summary&gt;\n<em>%e</em></p>"),
    ("<details>\n<summary>%g</summary>\n\n    %l\n\n</details>\n%a", "<details><summary>%g</summary><pre><code>%l\n</code></pre></details><p>%a</p>"),
    ("<details>\n<summary>%g</summary>\n%K  \n%A\n</details>", "<details><summary>%g</summary><p>%K<br />\n%A</p></details>"),
    ("> %a\n<details>\n<summary>%g</summary>\n%b\n</details>", "<blockquote><p>%a</p></blockquote><details><summary>%g</summary><p>%b</p></details>"),
];

plain!(c23 C23);
pub static C23: &[T] = &[
    ("---", "<hr />"),
    ("***", "<hr />"),
    ("___", "<hr />"),
    ("---\n", "<hr />"),
    ("- - -", "<hr />"),
    ("*%B*%B*", "<hr />"),
    ("_ _%B_%B", "<hr />"),
    ("-%B-%B---", "<hr />"),
    ("----------------------------------------", "<hr />"),
    ("%B---", "<hr />"),
    ("***%L%L%a", "<hr /><p>%a</p>"),
    ("---%L%a", "<hr /><p>%a</p>"),
    ("%a\n\n---\n\n%b", "<p>%a</p><hr /><p>%b</p>"),
    ("%a\n***\n%b", "<p>%a</p><hr /><p>%b</p>"),
    ("***\n---\n___", "<hr /><hr /><hr />"),
    ("- %a\n***\n- %b", "<ul><li><p>%a</p></li></ul><hr /><ul><li><p>%b</p></li></ul>"),
    ("1. %a\n---\n%b", "<ol><li>%a</li></ol><hr /><p>%b</p>"),
    ("> %a\n---\n%b", "<blockquote><p>%a</p></blockquote><hr /><p>%b</p>"),
    ("> ---\n\n%a", "<blockquote><hr /></blockquote><p>%a</p>"),
    ("# %h\n***\n%a", "<h1>%h</h1><hr /><p>%a</p>"),
    ("|%r|\n|-|\n|%s|\n---\n%a", concat!(table!([th!("left", "%r")] [td!("left", "%s")]), "<hr /><p>%a</p>")),
    ("    ---", "<pre><code>---\n</code></pre>"),
    ("```\n---\n```", "<pre><code>---\n</code></pre>"),
    ("--", "<p>--</p>"),
    ("**", "<p>**</p>"),
    ("--*", "<p>--*</p>"),
    ("-_-", "<p>-_-</p>"),
    ("---%a", "<p>---%a</p>"),
    ("-- %a", "<p>-- %a</p>"),
    ("+++", "<p>+++</p>"),
    ("===", "<p>===</p>"),
    ("%a ---", "<p>%a ---</p>"),
    ("\\---", "<p>---</p>"),
    ("\\***", "<p>***</p>"),
    ("%{100|-%}", "<hr />"),
    ("%{12|---\n%}%a", "%{12|<hr />%}<p>%a</p>"),
    ("***\n\n***\n\n%a", "<hr /><hr /><p>%a</p>"),
    ("---%B\n%a", "<hr /><p>%a</p>"),
    ("%a\n___\n%b", "<p>%a</p><hr /><p>%b</p>"),
    ("- %a\n\n---\n\n- %b", "<ul><li><p>%a</p></li></ul><hr /><ul><li><p>%b</p></li></ul>"),
    ("- [ ] %a\n---\n%b", "<ul class=\"contains-task-list\"><li class=\"task-list-item\"><input type=\"checkbox\" class=\"task-list-item-checkbox\">%a</li></ul><hr /><p>%b</p>"),
    ("    %l\n---\n%a", "<pre><code>%l\n</code></pre><hr /><p>%a</p>"),
    ("<details>\n<summary>%K</summary>\n---\n</details>", "<details><summary>%K</summary><hr /></details>"),
    ("`---`", "<p><code>---</code></p>"),
    ("**%e**\n---", "<p><strong>%e</strong></p><hr />"),
    ("---\n# %h", "<hr /><h1>%h</h1>"),
    ("---\n- %a", "<hr /><ul><li><p>%a</p></li></ul>"),
    ("-%T-%T-", "<hr />"),
    ("*\t*%T*", "<hr />"),
    ("___%T", "<hr />"),
    ("---%T%T\n%a", "<hr /><p>%a</p>"),
    ("%R%R%R%K", "<p>%R%R%R%K</p>"),
    ("%{300|*%}", "<hr />"),
    ("%{70|- %}", "<hr />"),
    ("%{70|***\n%}", "%{70|<hr />%}"),
    ("- - -\n- %a", "<hr /><ul><li><p>%a</p></li></ul>"),
    ("*%e*\n***\n%a", "<p><em>%e</em></p><hr /><p>%a</p>"),
    ("- -", "<ul><li><p>-</p></li></ul>"),
    ("%R%R", "<p>%R%R</p>"),
    ("%a\n- - -\n%b", "<p>%a</p><hr /><p>%b</p>"),
    ("%a\n%B***\n%b", "<p>%a</p><hr /><p>%b</p>"),
];

// ------------------------------------------------------------------ line ends

/// A document reads the same with CRLF line ends, and with its last line ended
/// or not.
pub fn c24(j: u32, t: u32) {
    let src = match any_doc(j / 2, t) {
        Some(s) => s,
        None => return sym::reach(1),
    };
    let mut other = Vec::with_capacity(src.len() * 2 + 1);
    if j & 1 == 0 {
        let mut cr = false;
        for &c in &src {
            cr |= c == b'\r';
            if c == b'\n' {
                other.push(b'\r');
            }
            other.push(c);
        }
        if cr {
            return sym::reach(1);
        }
    } else {
        // ends with a line end already, or with a backslash that would change its meaning
        if matches!(src.last(), Some(b'\n' | b'\r' | b'\\')) {
            return sym::reach(1);
        }
        other.extend_from_slice(&src);
        other.push(b'\n');
    }
    sym::out(0, &src);
    let a = tpl::render(&src);
    sym::out(1, a.as_bytes());
    let b = tpl::render(&other);
    sym::out(2, b.as_bytes());
    if j & 1 == 0 {
        sym::assert_eq(b.as_bytes(), a.as_bytes(), 1);
    } else {
        sym::assert_eq(&html::canon(b.as_bytes(), false), &html::canon(a.as_bytes(), false), 2);
    }
    sym::reach(1);
}
pub fn c24_jobs(t: u32) -> u32 {
    2 * any_jobs(t)
}

// ------------------------------------------------------------------ nothing lost

fn count(s: &[u8], c: u8) -> usize {
    let mut n = 0;
    for &x in s {
        n += (x == c) as usize;
    }
    n
}
const TAGS: &[&[u8]] = &[b"<details>", b"</details>", b"<summary>", b"</summary>"];
/// every letter of the document comes out: at least once somewhere, at most
/// once as visible text
pub fn c25(j: u32, t: u32) {
    let src = match any_doc(j, t) {
        Some(s) => s,
        None => return sym::reach(1),
    };
    // the title of an image is not shown
    sym::assume(!src.starts_with(b"![") || count(&src, b' ') == 0);
    sym::out(0, &src);
    let r = tpl::render(&src);
    sym::out(1, r.as_bytes());
    let ev = match html::tokens(r.as_bytes(), false) {
        Some(e) => e,
        None => return sym::fail(1),
    };
    let seen = html::text(&ev);
    let hidden = html::hidden(&ev);
    let mut ok = true;
    for c in [b'a', b'b', b'c'] {
        let mut n = count(&src, c);
        let visible = count(&seen, c);
        ok &= visible <= n;
        // the tags of collapsible sections are markup
        for tag in TAGS {
            let k = count(tag, c);
            if k > 0 {
                n -= k * occurrences(&src, tag);
            }
        }
        ok &= n <= visible + count(&hidden, c);
    }
    sym::assert(ok, 2);
    sym::reach(1);
}
fn occurrences(s: &[u8], p: &[u8]) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i + p.len() <= s.len() {
        if &s[i..i + p.len()] == p {
            n += 1;
        }
        i += 1;
    }
    n
}
