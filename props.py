"""What the checks run: harness entry, stages and stated bounds per property."""

GFM_TAGS = {0: "document", 1: "html"}
GFM_ASSUME = [
    "the program is the LLVM IR rustc emits for the harness with the real gfm crate linked in (opt-level 2, fat LTO, overflow checks on)",
    "allocation does not fail; panics abort",
    "modelled instead of executed: malloc family, memcpy/memmove/memset/memcmp/strlen/memchr, core's word-wise memchr/memrchr/chars-count helpers (same contract, byte-wise)",
    "Z3 and the executor's IR semantics are trusted; sampled paths are replayed natively and compared byte for byte on every run",
]


NOTE = ("Every input within the stated bounds (evidence: coverage.bounds) is decided by the solver over the real compiled code; "
        "counterexamples are replayed natively. Assumes the modelled libc/core helpers and the executor's IR semantics. Outside: ")


def own_gfm(f):
    return "gfm" in f and "hgfm" not in f


def gfm(entry, quick, thorough, bound, outside, **kw):
    return dict(harness="gfm", entry=entry, quick=range(quick), thorough=range(thorough), bound=bound, outside=outside,
                note=NOTE + outside, tags=GFM_TAGS, assumptions=GFM_ASSUME + kw.pop("assume", []), own=own_gfm, **kw)


SMD_TAGS = {0: "input", 1: "document", 9: "world"}
SMD_ASSUME = GFM_ASSUME[:1] + GFM_ASSUME[1:3] + [
    "files, environment and browser are a model (harness/smd/src/vfs.rs, harness/chrome) behind the libc entry points the standard library calls; POSIX semantics of "
    "open/read/write/close/stat/rename/unlink/mkdir as modelled there",
] + GFM_ASSUME[3:]


def own_smd(f):
    return ("smd" in f or "gfm" in f) and "hsmd" not in f


def smd(entry, quick, thorough, bound, outside, **kw):
    return dict(harness="smd", entry=entry, quick=range(quick), thorough=range(thorough), bound=bound, outside=outside,
                note=NOTE + outside, tags=SMD_TAGS, assumptions=SMD_ASSUME, own=own_smd, **kw)


def own_cli(f):
    return ("smd" in f or "gfm" in f) and "hcli" not in f


def cli(entry, quick, thorough, bound, outside, **kw):
    return dict(harness="cli", entry=entry, quick=range(quick), thorough=range(thorough), bound=bound, outside=outside,
                note=NOTE + outside, tags={0: "input", 9: "world"}, own=own_cli, assumptions=SMD_ASSUME + [
                    "smd/src/main.rs is compiled as a module of the harness and its main called; the exit status is the argument of exit() or the one the value it returns stands for",
                ], **kw)


def free_bound(n):
    return ("every document made of one of 169 skeletons (each construct, whole, unfinished, nested, repeated) with up to %d free "
            "bytes in its hole (construct characters; all ASCII bytes for two skeletons)" % n)


def tpl_bound(what):
    return lambda st: ("%s; every hole holds all texts of its minimal length plus %d further symbolic byte(s) in total, "
                       "distributed arbitrarily over the holes%s" % (what, st, " (long documents: 1)" if st > 1 else ""))


def any_bound(st):
    k = [2, 0, 3, 0, 0, 0][st]
    return free_bound(1 + st) + ("; all sequences of %d lines over 25 line forms" % k if k else "")


FREE_OUT = "documents with more free bytes in one hole, and skeletons not listed in harness/gfm/src/tables.rs (FREE)"
TPL_OUT = "longer texts, and document shapes not listed in harness/gfm/src/tables.rs"

PROPS = {
    "C01": gfm("c01", 3, 5, lambda st: free_bound(1 + st), FREE_OUT, args=["--limit", "20000000"]),
    "C02": gfm("c02", 3, 5, lambda st: free_bound(1 + st), FREE_OUT),
    "C03": gfm("c03", 2, 4, lambda st: "every scheme spelling (each letter in either case) x 24 surroundings (prefix, suffix, '@', ':' "
               "placements, one arbitrary construct byte, up to %d arbitrary ASCII bytes before the scheme) x 14 link/image/autolink positions" % st,
               "longer prefixes before the scheme; other positions"),
    "C04": gfm("c04", 3, 6, lambda st: ["", "", ""][0] + (
        "all sequences of %d lines over 25 line forms; " % [2, 0, 3, 4, 0, 0, 0, 0][st] if [2, 0, 3, 4, 0, 0, 0, 0][st] else "") + (
        free_bound([1, 2, 3, 0, 4, 5, 6, 7][st]) if [1, 2, 3, 0, 4, 5, 6, 7][st] else ""), FREE_OUT + "; longer sequences of lines"),
    "C05": gfm("c05", 3, 6, tpl_bound("116 shapes of prose"), TPL_OUT),
    "C06": gfm("c06", 3, 6, tpl_bound("80 shapes with headings"), TPL_OUT),
    "C07": gfm("c07", 3, 6, tpl_bound("127 shapes with emphasis, strikethrough and escapes"), TPL_OUT),
    "C08": gfm("c08", 3, 6, lambda st: "all %s of 14 block kinds separated by a blank line, texts of minimal length plus %d symbolic byte(s)" % (
        ("pairs", (st + 1) // 2) if st == 0 or st % 2 else ("triples", (st - 2) // 2)), TPL_OUT + "; longer sequences of blocks"),
    "C09": gfm("c09", 3, 5, tpl_bound("77 shapes of lists"), TPL_OUT),
    "C10": gfm("c10", 3, 4, tpl_bound("62 shapes of tables (up to 70 columns, up to 301 rows)"), TPL_OUT + "; larger tables"),
    "C11": gfm("c11", 3, 6, tpl_bound("100 shapes of code"), TPL_OUT),
    "C12": gfm("c12", 3, 5, tpl_bound("57 shapes of quotes, depth up to 300"), TPL_OUT),
    "C13": gfm("c13", 3, 5, tpl_bound("104 shapes of links, images and autolinks"), TPL_OUT),
    "C14": gfm("c14", 3, 4, tpl_bound("41 shapes with footnotes (up to 70)"), TPL_OUT),
    "C22": gfm("c22", 2, 4, tpl_bound("49 shapes of collapsible sections, depth up to 20"), TPL_OUT),
    "C23": gfm("c23", 3, 5, tpl_bound("61 shapes with thematic breaks, or lines that resemble them"), TPL_OUT),
    "C24": gfm("c24", 2, 4, any_bound, FREE_OUT + "; longer sequences of lines"),
    "C25": gfm("c25", 2, 4, any_bound, FREE_OUT + "; longer sequences of lines; letters other than a, b, c (lower case)"),

    "C15": smd("c15", 3, 4, lambda st: "write_to_file and write_bytes, absolute and relative path, file absent or holding 5 arbitrary bytes; every text of up to "
               "%d characters; at every system call one failure (each errno the call documents), and up to %d short or interrupted transfers; contents of 1026 to 66000 bytes, two of them (at a buffer boundary) arbitrary" % (3 + st, 1 + st),
               "other long contents; more than one failing call"),
    "C16": smd("c16", 3, 4, lambda st: "read_to_string, decode_from_file and encode_to_string; every byte content of up to %d bytes and every text of up to %d characters, "
               "missing file, directory in its place; one failing call, up to %d short or interrupted reads; the size reported for the file arbitrary; files of 1026 to %d bytes with %d arbitrary "
               "bytes across a buffer boundary" % (3 + min(st, 1), 4 + st, 1 + st, 66000, 2 + min(st, 2)), "other long files; more than one failing call"),
    "C17": smd("c17", 2, 3, lambda st: "18 forms of input name plus every name of 1-4 characters out of 10 (not starting with two dots); output a symbolic or hard link to the input; 5 states of the configuration; documents of up to %d "
               "construct characters; non-UTF-8 and missing input; one failing call, up to %d short transfers" % (2 + st, max(1, st)),
               "longer names and documents (rendering itself: C01-C14); more than one failing call"),
    "C18": smd("c18", 3, 5, lambda st: "4 places of the input x every combination of 5 files in the way (and up to 120 at once); every browser step failing; up to %d failing system call(s), "
               "one short transfer" % (1 + st), "the real browser (headless_chrome is replaced by a model that reads the page it is told to open); more failing calls"),
    "C19": smd("c19", 3, 5, lambda st: "nothing / directories / an existing configuration of up to %d arbitrary bytes / a directory at the configuration path, HOME or "
               "XDG_CONFIG_HOME; up to %d failing call(s); another process creating the file before any call" % (2 + st, 1 + st), "more failing calls; larger existing files"),
    "C20": smd("c20", 1, 2, lambda st: "every action text of up to 9 characters (letters in both cases, space, 0, _, -)%s; every flag word of up to 7 lower-case letters; both "
               "key orders, comments, missing keys; file and environment values combined" % ("" if st == 0 else ", and of 10"),
               "other TOML spellings of the values (escapes, dotted keys, inline tables); the config and toml crates are executed as they are"),

    "C26": cli("c26", 2, 3, lambda st: "66 fixed argument lists; every word of up to %d characters (letters, blank, - = . 1) as format in two spellings; every %d-letter "
               "command, every neighbour (one character replaced) of parse, initialize and --output; every one-letter flag; every input name of 1-%d characters out of 12; "
               "~ and $ in six places; every RUST_LOG of %d letters" % (5 + st, 2 + st, 3 + st, 3 + st), "longer words; other argument lists"),
    "C27": cli("c27", 2, 3, lambda st: "22 kinds of work (html, pdf, verbose, not text, missing or a directory as input, unusable configuration, output a directory, equal to the input or a link to it, initialize with and without a "
               "configuration); %d failing system call(s) at any point, %d short or interrupted transfers, any browser step failing" % (1 + st // 2, st),
               "more failing calls; other documents (C17, C18)"),
}

NOT_APPLICABLE = {}
NOT_APPLICABLE["C21"] = ("the code is TypeScript run by node: no installed tool turns JavaScript into something an SMT solver can execute "
                         "symbolically, and rewriting it into another language would not be the real code")
