//! Totality of compiling and rendering.

use crate::env::{self, Outcome};
use crate::sym::{self, param};
use upon::{Engine, Syntax, Value};

pub const CONTEXTS: &[(&str, &str)] = &[
    ("", ""),                                          // 0
    ("{{ ", " }}"),                                    // 1
    ("{{ a", "b }}"),                                  // 2
    ("{{ a | ", " }}"),                                // 3
    ("{{ a | g: ", " }}"),                             // 4
    ("{{ \"", "\" }}"),                                // 5
    ("{{ 1", " }}"),                                   // 6
    ("{% ", " %}"),                                    // 7
    ("{% if ", " %}y{% endif %}"),                     // 8
    ("{% for ", " in l %}y{% endfor %}"),              // 9
    ("{% for v in ", " %}y{% endfor %}"),              // 10
    ("{% with a as ", " %}y{% endwith %}"),            // 11
    ("{% include ", " %}"),                            // 12
    ("{# ", "#}"),                                     // 13
    ("a {{ a", ""),                                    // 14
    ("{% if a %}x", "y{% endif %}"),                   // 15
    ("{% include \"t\" with ", " %}"),                 // 16
    ("a\n\u{e9}\u{4e16} {{ ", "\n }}\n"),              // 17
    ("{% if a %}{% else ", " %}{% endif %}"),          // 18
    ("{{ b.", " }}"),                                  // 19
    ("{{ b?", ".c }}"),                                // 20
    ("{{ -0x", " }}"),                                 // 21
    ("{% for k, ", " in mp %}{{ k }}{{ w }}{% endfor %}"), // 22
    ("{% with ", " as v %}{{ v }}{% endwith %}"),      // 23
    ("{{ l.", " }}"),                                  // 24
    ("{% if a %}", ""),                                // 25
    ("{%- for v in l -%} ", " {%- endfor -%} z"),      // 26
    ("{{ a | h: 1, ", " | f }}"),                      // 27
    ("{{ \"", ""),                                     // 28
    ("{% include \"", "\" %}"),                        // 29
    ("{{ a -}}", "{{- a }}"),                          // 30
    ("{% for v in ll %}{{ v.", " }}{% endfor %}"),     // 31
    ("{% with b as v %}{{ v", " }}{% endwith %}"),     // 32
    ("{{ 9223372036854775", " }}"),                    // 33
    ("{{ \"\\", "\" }}"),                            // 34
    ("{{ 1 | g: \"x\\t", "\\\\\" }}"),             // 35
    ("{{ a?", "b }}"),                                 // 36
];

/// Characters of every length and class: a letter, a blank, a sign, a wide
/// blank, a wide letter, a combining mark and two beyond the basic plane.
pub const CHARS: [&str; 8] = [
    "\u{e9}", "\u{a0}", "\u{2026}", "\u{3000}", "\u{4e16}", "\u{301}", "\u{1f600}", "\u{1d49c}",
];

/// Symbols the lexer distinguishes.
pub const TOKENS: &[u8] = b"{}%#-. a|:,\"\\1?_\n+";

/// Splits on all but the last byte of every non-ASCII character, which makes
/// the lookups in the Unicode tables conditions over a single byte.
fn split(v: &[u8]) {
    for i in 1..v.len() {
        if v[i] >= 0x80 && v[i] < 0xC0 {
            sym::conc(usize::from(v[i - 1]));
        }
    }
}

pub fn hole(mode: usize, n: usize) -> Vec<u8> {
    match mode {
        // Any UTF-8 text of n bytes.
        0 => {
            let v = sym::vec(n);
            env::utf8(&v);
            split(&v);
            v
        }
        // Any ASCII text.
        1 => {
            let v = sym::vec(n);
            for b in &v {
                sym::assume(*b < 0x80);
            }
            v
        }
        // One character of n bytes (n = 2, 3, 4).
        2 => {
            let v = sym::vec(n);
            sym::assume(match n {
                2 => v[0] >= 0xC0 && v[0] < 0xE0,
                3 => v[0] >= 0xE0 && v[0] < 0xF0,
                _ => v[0] >= 0xF0,
            });
            env::utf8(&v);
            split(&v);
            v
        }
        // One of the characters between n / 10 and n % 10 lexer symbols.
        4 => {
            let mut v: Vec<u8> = (0..n / 10).map(|_| sym::of(TOKENS)).collect();
            v.extend_from_slice(CHARS[sym::choose(CHARS.len())].as_bytes());
            v.extend((0..n % 10).map(|_| sym::of(TOKENS)));
            v
        }
        // Lexer symbols only.
        _ => (0..n).map(|_| sym::of(TOKENS)).collect(),
    }
}

pub fn syntax<'a>(id: usize) -> Syntax<'a> {
    match id {
        0 => Syntax::default(),
        1 => Syntax::builder().expr("<?", "?>").build(),
        2 => Syntax::builder()
            .expr("${", "}")
            .block("# ", "\n")
            .comment("//", "\n ")
            .build(),
        3 => Syntax::builder().expr("((", ")) ").block("(%", "%)\t").build(),
        4 => Syntax::builder().expr("\u{ab}", "\u{bb}").block("\u{ab}%", "%\u{bb}").build(),
        5 => Syntax::builder().expr("a", "b").block("-", "--").build(),
        6 => Syntax::builder().block("{%", "%}").comment("{%#", "#%}").build(),
        _ => Syntax::builder().build(),
    }
}

pub const CUSTOM: &[(&str, &str)] = &[
    ("", ""),
    ("<? a", " ?> z"),
    ("# if a\n ${- b.c }", "\n# endif\n"),
    ("(( a )) ", "((- a )) "),
    ("\u{ab} a ", "\u{bb}\u{ab}% if a %\u{bb}"),
    ("a 1", "b"),
    ("{%# c", "#%}{% if a %}"),
    ("x", "y"),
];

/// `debug`: whether to print the `Debug` representation too, which goes through
/// the large Unicode tables of `core` for other than ASCII text.
fn show_error(err: &upon::Error, debug: bool) {
    let a = format!("{err}");
    let b = format!("{err:#}");
    sym::check(!a.is_empty() && !b.is_empty(), 1);
    if debug {
        let c = format!("{err:?}");
        sym::check(!c.is_empty(), 1);
    }
    sym::observe(b.as_bytes());
}

/// params: context, hole mode, hole length, syntax, render
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_total() {
    let (c, mode, n, sx, render) = (param(0), param(1), param(2), param(3), param(4));
    let mut e = Engine::with_syntax(syntax(sx));
    env::install(&mut e);
    let ctx = env::context();
    if render == 1 && sx == 0 {
        e.add_template("t", "[{{ a }}{{ c }}{{ loop }}]").unwrap();
        e.add_template("1", "1{% include \"1\" %}").unwrap();
    }
    let (pre, post) = if sx == 0 { CONTEXTS[c] } else { CUSTOM[sx] };
    let debug = mode == 1 || mode == 3 || mode == 4;
    let h = hole(mode, n);
    let mut src = Vec::new();
    src.extend_from_slice(pre.as_bytes());
    src.extend_from_slice(&h);
    src.extend_from_slice(post.as_bytes());
    let src = env::utf8(&src);
    match e.compile(src) {
        Err(err) => {
            show_error(&err, debug);
            sym::reach(1);
        }
        Ok(t) => {
            sym::check(t.source() == src, 2);
            sym::reach(0);
            if render == 1 {
                // Printing symbolic numbers is out of reach: split on digits.
                for b in &h {
                    if b.is_ascii_digit() {
                        sym::conc(usize::from(*b));
                    }
                }
                match t.render_from(&e, &ctx).to_string() {
                    Ok(s) => {
                        sym::observe(s.as_bytes());
                        sym::reach(2);
                    }
                    Err(err) => {
                        show_error(&err, debug);
                        sym::reach(3);
                    }
                }
            }
        }
    }
}

/// Any value of up to `depth` levels; scalars are fully symbolic.
pub fn value(depth: usize) -> Value {
    match sym::choose(if depth == 0 { 5 } else { 8 }) {
        0 => Value::None,
        1 => Value::Bool(sym::bool()),
        2 => Value::Integer(i64::from(sym::i8())),
        3 => Value::Float(if sym::bool() { f64::NAN } else { -0.5 }),
        4 => Value::String(match sym::choose(3) {
            0 => String::new(),
            1 => String::from("x"),
            _ => String::from("\u{e9}"),
        }),
        5 => Value::List(Vec::new()),
        6 => Value::List(vec![value(depth - 1), Value::from("tail")]),
        _ => {
            let k = ["c", "x", ""][sym::choose(3)];
            Value::from([(k, value(depth - 1))])
        }
    }
}

/// Programs whose rendering depends on the shape of `a`.
pub const PROGRAMS: &[&str] = &[
    "{{ a }}",
    "{{ a.c }}",
    "{{ a?.c }}",
    "{{ a.0 }}",
    "{{ a?.1.c }}",
    "{{ a.c?.c }}",
    "{% if a %}t{% else if not a %}e{% endif %}",
    "{% if a.c %}t{% endif %}",
    "{% for x in a %}{{ x }}{{ loop.index }}{% endfor %}",
    "{% for x, y in a %}{{ x }}{{ y }}{{ loop.last }}{% endfor %}",
    "{% for x in a.c %}{{ x.c }}{% endfor %}",
    "{% for x in a | id %}{{ x?.c }}{% for y in x %}{{ y }}{% endfor %}{% endfor %}",
    "{% for x, y in a | id %}{{ y.c }}{{ x.c }}{% endfor %}",
    "{% with a as b %}{{ b.c }}{{ a }}{% endwith %}",
    "{% with a | id as b %}{{ b?.c | id }}{% endwith %}",
    "{% include \"t\" with a %}",
    "{% for x in a %}{% include \"t\" with x %}{% endfor %}",
    "{% with a as c %}{% include \"t\" %}{% endwith %}",
    "{{ a | f | m }}",
    "{{ a | g: a.c }}",
    "{{ a | m }}{{ a | mbad }}",
    "{{ a | bad }}",
    "{{ a | nofn }}",
    "{{ a | u8f }}{{ a | strf }}",
    "{{ a | lenf }}",
    "{{ 1 | add: a }}",
    "{{ a | keysf: a?.c }}",
    "{% for x in a %}{{ x | strf }}{{ 1 | add: x }}{{ 1 | strarg: x }}{% endfor %}",
    "{% for x, y in a %}{{ 1 | strarg: x }}{% endfor %}",
    "{% for x in a %}{{ loop }}{% endfor %}",
    "{% for x in a %}{{ loop.x }}{% endfor %}",
    "{% for x in a %}{{ loop?.x.y }}{{ loop.index.x }}{% endfor %}",
    "{% for x in a %}{{ loop.0 }}{% endfor %}",
];

/// params: program, depth of the value
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_render_total() {
    let (p, depth) = (param(0), param(1));
    let mut e = env::engine();
    #[cfg(feature = "filters")]
    e.add_filter("u8f", |v: u8| i64::from(v));
    #[cfg(feature = "filters")]
    e.add_filter("strf", |v: String| v);
    #[cfg(feature = "filters")]
    e.add_filter("lenf", |v: &[Value]| v.len() as i64);
    #[cfg(feature = "filters")]
    e.add_filter("add", |v: i64, w: i16| v.wrapping_add(i64::from(w)));
    #[cfg(feature = "filters")]
    e.add_filter("strarg", |_: i64, s: &str| s.len() as i64);
    #[cfg(feature = "filters")]
    e.add_filter(
        "keysf",
        |m: &std::collections::BTreeMap<String, Value>, _: Value| m.len() as i64,
    );
    e.add_template("t", "{{ c }}").unwrap();
    let a = value(depth);
    let ctx = Value::from([("a", a), ("z", Value::from("zz"))]);
    e.add_template("main", PROGRAMS[p]).unwrap();
    match e.template("main").render_from(&ctx).to_string() {
        Ok(s) => {
            sym::observe(s.as_bytes());
            sym::reach(0);
        }
        Err(err) => {
            show_error(&err, true);
            sym::reach(1);
        }
    }
}

/// An included template that refers to everything, from every kind of scope.
/// params: none
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_include_total() {
    let e0 = param(0);
    let mut e = env::engine();
    let pad = ["", "                        ", "\u{e9}\n\u{e9}\n"][sym::choose(3)];
    let open = [
        ("{% with b as ", " %}", "{% endwith %}"),
        ("{% with b | id as ", " %}", "{% endwith %}"),
        ("{% for ", " in l %}", "{% endfor %}"),
        ("{% for k, ", " in b %}", "{% endfor %}"),
        ("{% for ", ", w in b | id %}", "{% endfor %}"),
        ("{% if b %}{# ", " #}", "{% endif %}"),
    ][e0];
    let name = match sym::choose(2) {
        0 => vec![sym::of(b"xyac")],
        _ => [&[sym::of(b"xl")][..], b"onger_name"].concat(),
    };
    let name = env::utf8(&name);
    let inc = ["{% include \"i\" %}", "{% include \"i\" with b %}", "{% include \"i\" with l %}"]
        [sym::choose(3)];
    let body = [
        "{{ x }}",
        "{{ x.c }}",
        "{{ longer_name?.c }}{{ a | g: longer_name }}",
        "                                 {{ loop_ | f }}",
        "{{ c | g: x }}",
        "{% for x in x %}{{ x }}{% endfor %}",
        "{% with x as y %}{{ y.c }}{{ loop.index }}{% endwith %}",
        "{{ loop.first }}{{ x | nofn }}",
        "\u{e9}\u{4e16}{{ a | bad }}",
        "{% include \"i\" %}",
        "{% include \"none\" %}",
        "{{ l | m }}",
    ][sym::choose(12)];
    let var = sym::of(b"xyzac");
    let body: Vec<u8> = body.bytes().map(|b| if b == b'x' { var } else { b }).collect();
    let body = env::utf8(&body);
    let main = format!("{pad}{}{name}{}{inc}{}", open.0, open.1, open.2);
    e.add_template("i", body.to_owned()).unwrap();
    e.add_template("main", main).unwrap();
    let ctx = env::context();
    let out = match e.template("main").render_from(&ctx).to_string() {
        Ok(s) => Outcome::Ok(s),
        Err(err) => Outcome::Render(err),
    };
    match &out {
        Outcome::Ok(s) => {
            sym::observe(s.as_bytes());
            sym::reach(0)
        }
        Outcome::Render(err) | Outcome::Compile(err) => {
            show_error(err, true);
            sym::reach(1)
        }
    }
}
