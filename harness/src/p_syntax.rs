//! Syntax: the reference decides acceptance, and the output when accepted.

use crate::env::{self, Outcome};
use crate::model;
use crate::p_total::{hole, CONTEXTS};
use crate::sym::{self, param};
use upon::{Engine, Syntax};

/// Compiles on both sides, then renders. Digits of `hole` are made concrete
/// before rendering because printing symbolic numbers is out of reach.
fn check_hole(e: &Engine<'_>, sx: &model::Syntax, menv: &model::Env<'_>, src: &str, hole: &[u8]) {
    note!(src);
    let ctx = env::context();
    let real = e.compile(src);
    let exp = model::parse(sx, src.as_bytes());
    match (real, exp) {
        (Err(err), Err(())) => {
            std::mem::drop(err);
            sym::observe(b"rejected");
            sym::reach(1)
        }
        (Ok(_), Err(())) => sym::fail(env::ACCEPTED_INVALID),
        (Err(_), Ok(_)) => sym::fail(env::REJECTED_VALID),
        (Ok(t), Ok(m)) => {
            sym::check(t.source() == src, 6);
            for b in hole {
                if b.is_ascii_digit() {
                    sym::conc(usize::from(*b));
                }
            }
            let real = match t.render_from(e, &ctx).to_string() {
                Ok(s) => Outcome::Ok(s),
                Err(err) => Outcome::Render(err),
            };
            let exp = Ok(menv.render(&m, model::Globals::Value(&ctx)));
            env::compare(&real, &exp);
        }
    }
}

/// Any text in a hole of a template. Non-ASCII text is only allowed outside of
/// tags here.
/// params: context, hole mode, hole length
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_hole() {
    let (c, mode, n) = (param(0), param(1), param(2));
    let (e, menv) = env::total(env::engine(), env::model_env());
    let (pre, post) = CONTEXTS[c];
    let h = hole(mode, n);
    let mut src = Vec::new();
    src.extend_from_slice(pre.as_bytes());
    src.extend_from_slice(&h);
    src.extend_from_slice(post.as_bytes());
    let src = env::utf8(&src);
    check_hole(&e, &model::Syntax::default(), &menv, src, &h);
}

/// Sequences of tags, each padded to the same width.
const TAGS: &[&str] = &[
    "{% if a       %}", // 0
    "{% if not n   %}",
    "{% else       %}",
    "{% else if a  %}",
    "{% endif      %}",
    "{% for x in l %}", // 5
    "{% endfor     %}",
    "{% with s as x%}",
    "{% endwith    %}",
    "{{ x          }}",
    "text\n text text ", // 10
    "{# endif      #}",
    "{% if n       %}",
    "{%- endfor   -%}",
    "{% include \"\" %}",
    "{% endfor x   %}", // 15
    "{% endif%} {{s}}",
    "{%for k,v in l%}",
];

fn pick(table: &[&str], set: &[usize], out: &mut Vec<u8>) {
    let i = sym::below(set.len());
    let w = table[set[0]].len();
    for k in 0..w {
        let col: Vec<u8> = set.iter().map(|s| table[*s].as_bytes()[k]).collect();
        out.push(col[i]);
    }
}

/// params: number of tags, tag set
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_blocks() {
    let (n, set) = (param(0), param(1));
    let set: &[usize] = match set {
        0 => &[0, 2, 3, 4, 5, 6, 7, 8, 9],
        1 => &[0, 2, 4, 5, 6, 10],
        2 => &[1, 2, 3, 4, 12, 10],
        3 => &[5, 6, 7, 8, 9],
        4 => &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17],
        _ => &[0, 2, 3, 4, 12, 9],
    };
    let (e, menv) = env::total(env::engine(), env::model_env());
    let mut src = Vec::new();
    for _ in 0..n {
        pick(TAGS, set, &mut src);
    }
    let src = env::utf8(&src);
    check_hole(&e, &model::Syntax::default(), &menv, src, b"");
}

const WORDS: [&[u8]; 14] = [
    b"if", b"not", b"else", b"endif", b"for", b"in", b"endfor", b"with", b"as", b"endwith", b"include", b"true", b"false", b"loop",
];

/// Words that are keywords, almost keywords, or short, in every place a word can
/// be written in.
/// params: place, kind of word
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_ident() {
    let (place, kind) = (param(0), param(1));
    let mut w: Vec<u8> = if kind < 6 { WORDS[sym::choose(WORDS.len())].to_vec() } else { Vec::new() };
    let part = || {
        let b = sym::u8();
        sym::assume(b == b'_' || b == b' ' || b.is_ascii_alphanumeric());
        b
    };
    match kind {
        // Followed or preceded by any byte.
        0 => {
            let b = sym::u8();
            sym::assume(b < 0x80);
            w.push(b)
        }
        1 => {
            let b = sym::u8();
            sym::assume(b < 0x80);
            w.insert(0, b)
        }
        // With one character replaced.
        2 => {
            let i = sym::choose(w.len());
            w[i] = part();
        }
        // In any case.
        3 => {
            for b in &mut w {
                if sym::bool() {
                    *b = b.to_ascii_uppercase();
                }
            }
        }
        // Twice, or with another one.
        4 => w.extend_from_slice(WORDS[sym::choose(WORDS.len())]),
        // Followed by two characters.
        5 => w.extend([part(), part()]),
        // Any word.
        n => {
            for _ in 5..n {
                w.push(part());
            }
        }
    }
    if [1, 2, 7].contains(&place) {
        // Which `loop` is meant in such a loop is not claimed.
        sym::assume(env::utf8(&w).trim() != "loop");
    }
    let t = [
        "{% with \"v\" as W %}[{{ W }}]{% endwith %}",
        "{% for W in l %}{{ W }}{% endfor %}",
        "{% for k, W in mp %}{{ W }}{{ k }}{% endfor %}",
        "{{ b?.W }}",
        "{{ a | W }}",
        "{% W %}",
        "{% if W %}y{% else %}n{% endif %}",
        "{% for W, v in mp %}{{ W }}{% endfor %}",
        "{{ W }}",
        "{{ s | g: W }}",
        "{% for x W l %}{{ x }}{% endfor %}",
        "{% with a W x %}{{ x }}{% endwith %}",
        "{% W a %}y{% else %}n{% endif %}",
        "{% if a %}y{% W %}n{% endif %}",
        "{% if W a %}y{% endif %}",
        "{% for x in l %}{% W %}",
    ][place];
    let mut src = Vec::new();
    for c in t.bytes() {
        match c {
            b'W' => src.extend_from_slice(&w),
            c => src.push(c),
        }
    }
    let src = env::utf8(&src);
    let (e, menv) = env::total(env::engine(), env::model_env());
    check_hole(&e, &model::Syntax::default(), &menv, src, b"");
}

const TOKS: &[&str] = &[
    "a    ", // 0
    "b.c  ",
    ".d   ",
    "?.c  ",
    "|f   ",
    "|g   ", // 5
    ":1   ",
    ",2   ",
    "\"s\"  ",
    "true ",
    "-1   ", // 10
    "+ 2  ",
    "not  ",
    "in   ",
    "as x ",
    "if   ", // 15
    "l.1  ",
    "|h: s",
    ": l  ",
    ",n.x ",
    "|m   ", // 20
    "false",
    "else ",
    "with ",
    "-   3",
    "1.5  ", // 25
    "for  ",
    "endif",
    "x    ",
    ", y  ",
    "\"\"   ", // 30
];

/// An expression or statement made of any tokens.
/// params: position, number of tokens, token set
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_tokens() {
    let (c, n, set) = (param(0), param(1), param(2));
    let set: &[usize] = match set {
        0 => &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 24],
        1 => &[0, 4, 5, 6, 7, 17, 18, 20, 8],
        2 => &[0, 1, 2, 3, 16, 4],
        3 => &[12, 13, 14, 15, 22, 23, 26, 27, 0, 28, 29, 30, 9],
        _ => &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 16, 17, 18, 19, 20, 23, 25, 28, 29],
    };
    let (pre, post) = [
        ("{{ ", "}}"),
        ("{% if ", "%}y{% else %}n{% endif %}"),
        ("{% if a %}{% else ", "%}n{% endif %}"),
        ("{% for ", "%}{{ x }}{% endfor %}"),
        ("{% for x in ", "%}{{ x }}{% endfor %}"),
        ("{% with ", "%}{{ x }}{% endwith %}"),
        ("{% with b as ", "%}{{ x }}{% endwith %}"),
        ("{% include \"t\"", "%}"),
        ("{% include ", "%}"),
        ("{% ", "%}"),
        ("{% if not ", "%}y{% endif %}"),
        ("{{ a", "}}"),
        ("{% for x, y in ", "%}{{ x }}{% endfor %}"),
        ("{% for x ", " mp %}{{ x }}{{ y }}{% endfor %}"),
    ][c];
    let (mut e, mut menv) = env::total(env::engine(), env::model_env());
    e.add_template("t", "[{{ c }}]").unwrap();
    let t = model::parse(&model::Syntax::default(), b"[{{ c }}]").unwrap_or_default();
    menv.templates.push(("t", &t));
    let mut src = pre.as_bytes().to_vec();
    for _ in 0..n {
        pick(TOKS, set, &mut src);
    }
    src.extend_from_slice(post.as_bytes());
    let src = env::utf8(&src);
    check_hole(&e, &model::Syntax::default(), &menv, src, b"");
}

////////////////////////////////////////////////////////////////////////////////
// Delimiters

type D = (Option<(&'static str, &'static str)>, Option<(&'static str, &'static str)>, Option<(&'static str, &'static str)>);

/// Delimiter sets with shared prefixes, suffixes and overlaps, and the symbols
/// that text is made of. No two delimiters, with `-` or without, are equal.
pub const SETS: &[(D, &str)] = &[
    ((Some(("{{", "}}")), Some(("{%", "%}")), Some(("{#", "#}"))), "{}%#-a "),   // 0
    ((Some(("<", ">")), Some(("<<", ">>")), Some(("<!", "!>"))), "<>!-a "),      // 1
    ((Some(("(", ")")), None, Some(("((", "))"))), "()-a "),                     // 2
    ((Some(("ab", "ba")), None, Some(("abc", "cba"))), "abc- "),                 // 3
    ((Some(("[[a", "]]")), None, Some(("[", "]"))), "[]a- "),                    // 4
    ((Some(("{", "}")), Some(("{%", "%}")), Some(("{{", "}}"))), "{}%-a "),      // 5
    ((None, None, Some(("<<", ">>"))), "<>-a"),                                  // 6
    ((None, None, Some(("<", ">"))), "<>-a "),                                   // 7
    ((Some(("<-", "->")), None, Some(("<-<", "->>"))), "<>-a"),                  // 8
    ((Some(("$", ";")), Some(("$$", ";;")), None), "$;-a "),                     // 9
    ((Some(("<<<", ">")), None, Some(("<<", ">>"))), "<>-a "),                   // 10
    ((Some(("aab", "b")), None, Some(("aac", "c"))), "abc- "),                   // 11
    ((Some(("((", ")) ")), None, Some(("(!", "!)\n"))), "()! \n-"),              // 12
    ((None, Some(("{%", "%}")), None), "{}%- "),                                 // 13
    ((None, None, None), "{}%#-a "),                                             // 14
    ((Some(("<%=", "%>")), Some(("<%", "%>\n")), Some(("<%#", "#%>"))), "<>%=#-\n"), // 15
    ((Some(("\u{ab}", "\u{bb}")), None, Some(("\u{aa}", "\u{ba}"))), ""),        // 16
    ((Some(("#{", "}")), Some(("#", "\n")), Some(("##", "\n\n"))), "#{}\na-"),   // 17
    ((Some(("-", "-a")), None, Some(("---", "a--"))), "-a "),                    // 18
    ((Some(("<<", ">>>")), None, Some(("<a", ">>"))), "<>a-"),                   // 19
    ((Some(("abcd", "d")), Some(("bcd", "e")), Some(("cd", "f"))), "abcdef"),    // 20
    ((Some(("abcx", "x")), Some(("b", "y")), Some(("bcy", "z"))), "abcxyz"),     // 21
    ((Some(("<", ">")), Some(("!-<=", "=>")), None), "!-<=>a"),                  // 22
    ((Some(("bc", "d")), Some(("abce", "e")), Some(("aabcb", "dd"))), "abcd "),  // 23
    ((Some(("ba", "yx")), Some(("aaba", "x")), Some(("cbaac", "xyx"))), "abcxy"), // 24
    ((Some(("!<<", ">>!")), Some(("<<?", "?>>")), Some(("<!", "!>"))), "!<?>a"),  // 25
    ((Some(("c", "d")), Some(("abcab", "cd")), Some(("bcabb", "abd"))), "abcd"),  // 26
    ((Some(("<{", "}>")), Some(("<{%<{", "}>%}>")), Some(("<{#", "#}>"))), "<{%}>a"), // 27
];

pub fn real_syntax(d: &D) -> Syntax<'static> {
    let mut b = Syntax::builder();
    if let Some((x, y)) = d.0 {
        b.expr(x, y);
    }
    if let Some((x, y)) = d.1 {
        b.block(x, y);
    }
    if let Some((x, y)) = d.2 {
        b.comment(x, y);
    }
    b.build()
}

pub fn model_syntax(d: &D) -> model::Syntax {
    let f = |p: Option<(&'static str, &'static str)>| p.map(|(a, b)| (a.as_bytes(), b.as_bytes()));
    model::Syntax::new(f(d.0), f(d.1), f(d.2))
}

/// Any text over the symbols of a delimiter set.
/// params: set, prefix shape, length
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_delims() {
    let (s, shape, n) = (param(0), param(1), param(2));
    let (d, sigma) = &SETS[s];
    let e = {
        let mut e = Engine::with_syntax(real_syntax(d));
        env::install(&mut e);
        e
    };
    let mut src = Vec::new();
    let begin = |k: usize| match k {
        1 => d.0.map(|p| (p.0, p.1)),
        2 => d.2.map(|p| (p.0, p.1)),
        _ => None,
    };
    if shape != 0 && begin(shape).is_none() {
        return;
    }
    if let Some((b, _)) = begin(shape) {
        src.extend_from_slice(b.as_bytes());
    }
    if s == 16 {
        // Two-byte symbols that share bytes with the delimiters.
        for _ in 0..n {
            src.push(0xC2);
            src.push(sym::of(&[0xAB, 0xBB, 0xAA, 0xBA, 0xB5]));
        }
    } else {
        for _ in 0..n {
            src.push(sym::of(sigma.as_bytes()));
        }
    }
    if let Some((_, x)) = begin(shape) {
        src.extend_from_slice(x.as_bytes());
    }
    let src = env::utf8(&src);
    check_hole(&e, &model_syntax(d), &env::model_env(), src, b"");
}

/// Symbolic delimiters of an expression-and-comment syntax over four symbols.
/// params: lengths of the four delimiters, length of the text
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sym_delims() {
    let lens = [param(0), param(1), param(2), param(3)];
    let n = param(4);
    let d: Vec<Vec<u8>> = lens
        .iter()
        .map(|k| {
            (0..*k)
                .map(|_| {
                    let b = sym::of(b"<>!$");
                    sym::conc(usize::from(b));
                    b
                })
                .collect()
        })
        .collect();
    for i in 0..4 {
        for j in 0..i {
            sym::assume(d[i] != d[j]);
        }
    }
    let s: Vec<&str> = d.iter().map(|b| env::utf8(b)).collect();
    let e = {
        let mut b = Syntax::builder();
        b.expr(s[0], s[1]).comment(s[2], s[3]);
        let mut e = Engine::with_syntax(b.build());
        env::install(&mut e);
        e
    };
    let sx = model::Syntax::new(Some((&d[0], &d[1])), None, Some((&d[2], &d[3])));
    let src: Vec<u8> = (0..n).map(|_| sym::of(b"<>!$a-")).collect();
    let src = env::utf8(&src);
    check_hole(&e, &sx, &env::model_env(), src, b"");
}

/// Symbolic begin delimiters over three symbols, of any structure (one inside
/// another at any place), with fixed ends.
/// params: lengths of the three delimiters, length of the text
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sym_begin() {
    let lens = [param(0), param(1), param(2)];
    let n = param(3);
    let d: Vec<&'static [u8]> = lens
        .iter()
        .map(|k| {
            let v: Vec<u8> = (0..*k)
                .map(|_| {
                    let b = sym::of(b"<!?");
                    sym::conc(usize::from(b));
                    b
                })
                .collect();
            &*v.leak()
        })
        .collect();
    for i in 0..3 {
        for j in 0..i {
            sym::assume(d[i].is_empty() || d[i] != d[j]);
        }
    }
    let s: Vec<&str> = d.iter().map(|b| env::utf8(b)).collect();
    let e = {
        let mut b = Syntax::builder();
        b.expr(s[0], ">");
        if !s[1].is_empty() {
            b.block(s[1], "]");
        }
        if !s[2].is_empty() {
            b.comment(s[2], "$");
        }
        let mut e = Engine::with_syntax(b.build());
        env::install(&mut e);
        e
    };
    let opt = |b: &'static [u8], e: &'static [u8]| if b.is_empty() { None } else { Some((b, e)) };
    let sx = model::Syntax::new(Some((d[0], b">")), opt(d[1], b"]"), opt(d[2], b"$"));
    // The text ends any tag that it began.
    let mut src: Vec<u8> = (0..n).map(|_| sym::of(b"<!?")).collect();
    src.extend_from_slice(match sym::choose(3) {
        0 => b"a>",
        1 => b"a$",
        _ => b"include \"t\"]",
    });
    let src = env::utf8(&src);
    check_hole(&e, &sx, &env::model_env(), src, b"");
}

////////////////////////////////////////////////////////////////////////////////
// Raw text and whitespace control

#[derive(Clone, Copy)]
enum Tag {
    /// An expression, a block or a comment, with its contents.
    E(&'static str),
    B(&'static str),
    C(&'static str),
    /// Without blanks.
    Tight(&'static Tag),
}
use Tag::*;

/// Tags, and the order in which raw segments (by index) and values are output.
const PATTERNS: &[(&[Tag], &[Result<usize, &'static str>])] = &[
    (&[E("a")], &[Ok(0), Err("1"), Ok(1)]),
    (&[E("s"), E("a")], &[Ok(0), Err("str"), Ok(1), Err("1"), Ok(2)]),
    (&[C("a"), C("x")], &[Ok(0), Ok(1), Ok(2)]),
    (&[E("a"), C("} ")], &[Ok(0), Err("1"), Ok(1), Ok(2)]),
    (&[C("-"), E("a")], &[Ok(0), Ok(1), Err("1"), Ok(2)]),
    (&[B("if a"), B("endif")], &[Ok(0), Ok(1), Ok(2)]),
    (&[B("if n"), B("endif")], &[Ok(0), Ok(2)]),
    (&[B("for x in l"), B("endfor")], &[Ok(0), Ok(1), Ok(1), Ok(2)]),
    (&[B("for x in e"), B("endfor")], &[Ok(0), Ok(2)]),
    (&[B("with a as y"), B("endwith")], &[Ok(0), Ok(1), Ok(2)]),
    (&[B("include \"t\"")], &[Ok(0), Err(" t "), Ok(1)]),
    (&[B("if a"), B("else"), B("endif")], &[Ok(0), Ok(1), Ok(3)]),
    (&[B("if n"), B("else"), B("endif")], &[Ok(0), Ok(2), Ok(3)]),
    (&[B("if n"), B("else if a"), B("endif")], &[Ok(0), Ok(2), Ok(3)]),
    (&[B("for x in l"), E("x"), B("endfor")], &[Ok(0), Ok(1), Err("10"), Ok(2), Ok(1), Err("20"), Ok(2), Ok(3)]),
    (&[B("include \"t\" with b"), C("c")], &[Ok(0), Err(" t "), Ok(1), Ok(2)]),
    (&[Tight(&E("1")), Tight(&C(""))], &[Ok(0), Err("1"), Ok(1), Ok(2)]),
    (&[Tight(&C("")), Tight(&E("a"))], &[Ok(0), Ok(1), Err("1"), Ok(2)]),
    (&[Tight(&B("if 1")), Tight(&B("endif"))], &[Ok(0), Ok(1), Ok(2)]),
    (&[Tight(&B("include \"t\" with 1.5")), Tight(&E("\"s\""))], &[Ok(0), Err(" t "), Ok(1), Err("s"), Ok(2)]),
    (&[Tight(&E("l.1")), Tight(&E("0x1f"))], &[Ok(0), Err("20"), Ok(1), Err("31"), Ok(2)]),
    (&[Tight(&B("for x in l")), Tight(&B("endfor"))], &[Ok(0), Ok(1), Ok(1), Ok(2)]),
];

fn segment(kind: usize, n: usize) -> Vec<u8> {
    match kind {
        // Any ASCII but braces.
        0 => {
            let v = sym::vec(n);
            for b in &v {
                sym::assume(*b < 0x80 && *b != b'{' && *b != b'}');
            }
            v
        }
        // Mostly whitespace.
        1 => (0..n).map(|_| sym::of(b" \n\tx-")).collect(),
        // A two-byte character between symbolic ASCII whitespace or not.
        2 => {
            let mut v = vec![sym::of(b" x\r")];
            v.push(0xC2);
            let c = sym::u8();
            sym::assume((0x80..0xC0).contains(&c));
            v.push(c);
            v.push(sym::of(b"\x0bx "));
            v
        }
        // Any three-byte character.
        3 => {
            let mut v = sym::vec(3);
            sym::assume(v[0] >= 0xE1 && v[0] <= 0xE3);
            env::utf8(&v);
            sym::conc(usize::from(v[0]));
            sym::conc(usize::from(v[1]));
            v.insert(0, b' ');
            v.push(sym::of(b"x "));
            v
        }
        // Any character of n bytes.
        5 => {
            let mut v = vec![b' '];
            v.extend(hole(2, n));
            v.push(sym::of(b"x "));
            v
        }
        // Nothing.
        _ => Vec::new(),
    }
}

/// params: pattern, segment kind, length, the only segment that is symbolic
/// (or 9 for all), delimiters
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_trim() {
    let (p, kind, n, only, dl) = (param(0), param(1), param(2), param(3), param(4));
    let (tags, order) = PATTERNS[p];
    let d: D = [
        SETS[0].0,
        (Some(("<?", "?> ")), Some(("<%", "%>\n")), Some(("\t#", "#\t\n"))),
        (Some(("((", "))")), Some((" (%", "%) ")), Some(("\x0c#", "#\x0c"))),
    ][dl];
    let mut e = Engine::with_syntax(real_syntax(&d));
    env::install(&mut e);
    e.add_template("t", " t ").unwrap();
    let mut segs = Vec::new();
    for i in 0..=tags.len() {
        segs.push(if only == 9 || only == i { segment(kind, n) } else { b" \n.\t ".to_vec() });
    }
    let mut src = Vec::new();
    let mut left = vec![false];
    let mut right = Vec::new();
    for (i, t) in tags.iter().enumerate() {
        src.extend_from_slice(&segs[i]);
        let (t, tight) = match t {
            Tight(t) => (*t, true),
            t => (t, false),
        };
        let (delims, body) = match t {
            E(b) => (d.0, b),
            B(b) => (d.1, b),
            C(b) => (d.2, b),
            Tight(_) => return,
        };
        let (b, x) = delims.unwrap();
        if tight {
            // Nothing but the tag itself between the delimiters.
            let (l, r) = (sym::bool(), sym::bool());
            // The hyphen belongs to the delimiter that begins first.
            sym::assume(!body.is_empty() || l || !r);
            src.extend_from_slice(b.as_bytes());
            if l {
                src.push(b'-');
            }
            src.extend_from_slice(body.as_bytes());
            if r {
                src.push(b'-');
            }
            src.extend_from_slice(x.as_bytes());
            right.push(l);
            left.push(r);
            continue;
        }
        let (l, r) = (sym::of(b"- "), sym::of(b"- "));
        src.extend_from_slice(b.as_bytes());
        src.push(l);
        if !body.is_empty() {
            src.push(b' ');
        }
        src.extend_from_slice(body.as_bytes());
        src.push(b' ');
        src.push(r);
        src.extend_from_slice(x.as_bytes());
        right.push(l == b'-');
        left.push(r == b'-');
    }
    right.push(false);
    src.extend_from_slice(&segs[tags.len()]);
    let src = env::utf8(&src);
    note!(src);
    let mut exp = Vec::new();
    for o in order {
        match o {
            Err(s) => exp.extend_from_slice(s.as_bytes()),
            Ok(i) => {
                let s = &segs[*i];
                let b = if right[*i] { model::trim_end(s, 0, s.len()) } else { s.len() };
                let a = if left[*i] { model::trim_start(s, 0, b) } else { 0 };
                exp.extend_from_slice(&s[a..b]);
            }
        }
    }
    match env::run(&e, src, &env::context()) {
        Outcome::Ok(s) => {
            sym::check(s.as_bytes() == &exp[..], env::OUTPUT_DIFFERS);
            sym::observe(s.as_bytes());
            sym::reach(0);
        }
        _ => sym::fail(env::REJECTED_VALID),
    }
}

/// Text without any delimiter is output as it is.
/// params: hole mode, length, syntax
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_raw() {
    let (mode, n, sx) = (param(0), param(1), param(2));
    let e = match sx {
        0 => Engine::new(),
        1 => Engine::with_syntax(Syntax::builder().build()),
        _ => Engine::with_syntax(Syntax::builder().expr("\u{e9}\u{e9}", "\u{ea}").build()),
    };
    let h = hole(mode, n);
    let src = env::utf8(&h);
    note!(src);
    let brace = h.iter().any(|b| *b == b'{' || *b == b'}');
    if sx == 0 && brace {
        // Only a pair makes a delimiter.
        let mut i = 0;
        while i + 1 < h.len() {
            let (a, b) = (h[i], h[i + 1]);
            sym::assume(!(a == b'{' && (b == b'{' || b == b'%' || b == b'#')));
            sym::assume(!(b == b'}' && (a == b'}' || a == b'%' || a == b'#')));
            i += 1;
        }
        sym::reach(1);
    }
    if sx == 2 {
        let mut i = 0;
        while i + 1 < h.len() {
            sym::assume(!(h[i] == 0xC3 && (h[i + 1] == 0xA9 || h[i + 1] == 0xAA)));
            i += 1;
        }
    }
    match env::run(&e, src, &upon::Value::None) {
        Outcome::Ok(s) => {
            sym::check(s == src, env::OUTPUT_DIFFERS);
            sym::observe(s.as_bytes());
            sym::reach(0);
        }
        _ => sym::fail(env::REJECTED_VALID),
    }
}

/// Long delimiters that share long beginnings, ends or periods.
/// params: set, length, parts
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_long_delims() {
    let (set, n, parts) = (param(0), param(1) + sym::choose(2), param(2));
    let r = |s: &str, n: usize| s.repeat(n);
    let d: [String; 6] = match set {
        // One begins like the other and differs at its end.
        0 => [r("<", n) + "(", ")".to_owned() + &r(">", n), r("<", n) + "[", "]".to_owned() + &r(">", n), r("<", n) + "#", "#".to_owned() + &r(">", n)],
        // One is the beginning or the end of the other.
        1 => [r("<", n), r(">", n), r("<", n - 1), r(">", n - 1), r("<", n + 1), r(">", n + 1)],
        // One is inside of the other.
        2 => [r("<!", n), r("!>", n), "!".to_owned() + &r("<!", n), r("!>", n) + "!", r("<!", n) + "<", ">".to_owned() + &r("!>", n)],
        // Bytes above 127.
        _ => [r("«", n), r("»", n), r("«", n) + "¿", r("»", n) + "¿", r("«", n) + "!", r("»", n) + "!"],
    };
    let mut b = Syntax::builder();
    b.expr(&*d[0], &*d[1]).block(&*d[2], &*d[3]).comment(&*d[4], &*d[5]);
    let mut e = Engine::with_syntax(b.build());
    env::install(&mut e);
    let y = |i: usize| Some((d[i].as_bytes(), d[i + 1].as_bytes()));
    let sx = model::Syntax::new(y(0), y(2), y(4));
    let first = |s: &str| s.chars().next().unwrap().to_string();
    let last = |s: &str| s.chars().last().unwrap().to_string();
    let front = |s: &str| s[..s.len() - last(s).len()].to_owned();
    let back = |s: &str| s[first(s).len()..].to_owned();
    let mut src = String::new();
    for i in 0..parts {
        let w = match sym::choose(if i == 0 || i + 1 == parts { 8 } else { 4 }) {
            0 => "a".to_owned(),
            1 => "-".to_owned(),
            2 => if i < 2 { first(&d[0]) } else { last(&d[1]) },
            3 => " include \"t\" ".to_owned(),
            4 => if i == 0 { d[0].clone() } else { d[1].clone() },
            5 => if i == 0 { d[2].clone() } else { d[3].clone() },
            6 => if i == 0 { d[4].clone() } else { d[5].clone() },
            _ => if i == 0 { front(&d[0]) + &d[2] } else { d[3].clone() + &back(&d[1]) },
        };
        src.push_str(&w);
    }
    let src: &'static str = src.leak();
    check_hole(&e, &sx, &env::model_env(), src, b"");
}
