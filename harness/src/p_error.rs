//! Errors name the template, the line and the place they are about.

use crate::env;
use crate::sym::{self, param};
use upon::{fmt, Engine, Value};

/// The kind, the source with `§` around what the error is about and `~` where a
/// hole may be, and the reason.
struct Case(char, &'static str, &'static str);

const CASES: &[Case] = &[
    // Rejected when compiling.
    Case('S', "{{ a §$§ }}", "unexpected character"),
    Case('S', "{{ 0x1§g§ }}", "invalid digit for base 16 literal"),
    Case('S', "{{ -0b1§2§1 }}", "invalid digit for base 2 literal"),
    Case('S', "{{ a §b§ }}", "expected end expression, found identifier"),
    Case('S', "{{ \"~\\§q§\" }}", "unknown escape character"),
    Case('U', "{{ §\"abc§", "undelimited string"),
    Case('S', "§{% endif %}§", "unexpected `endif` block"),
    Case('S', "{% if a %}~§{% endfor %}§", "unexpected `endfor` block"),
    Case('S', "{{ a | §if§ }}", "expected identifier, found keyword"),
    Case('S', ".§}}§", "unexpected end expression"),
    Case('S', "§{% if a %}§~{% else %}b", "unclosed `if` block"),
    Case('S', "§{% for x in l %}§~", "unclosed `for` block"),
    Case('S', "{{ §}}§", "expected expression, found end expression"),
    Case('S', "{% §foo§ %}", "expected keyword, found identifier"),
    Case('S', "{% include §x§ %}", "expected string, found identifier"),
    Case('S', "{{ §1.5.5§ }}", "invalid float literal"),
    Case('S', "§{{§ a {{ b }}", "unclosed begin expression"),
    Case('S', "{{ a §%}§", "unexpected end block"),
    Case('S', "{% if a %}~{% else %}§{% else %}§{% endif %}", "unexpected `else` block"),
    Case('S', "{{ §0xfffffffffffffffff§ }}", "base 16 literal out of range for 64-bit integer"),
    Case('S', "{{ l.§99999999999999999999§ }}", "base 10 literal out of range for unsigned 64-bit integer"),
    Case('S', "{{ \"~\" | f: §as§ }}", "unexpected keyword `as`"),
    Case('S', "{# ~ #}§#}§", "unexpected end comment"),
    // Unexpected ends.
    Case('E', "{{ a ", "expected end expression, found EOF"),
    Case('E', "{% ", "expected keyword, found EOF"),
    Case('E', "{# ~", "expected end comment, found EOF"),
    Case('E', "~{% if a %}{{ a |", "expected identifier, found EOF"),
    // Fail when rendering.
    Case('R', "{{ §zz§ }}", "not found in this scope"),
    Case('R', "{{ §zz§.b.0 }}", "not found in this scope"),
    Case('R', "{{ m§.k§.y }}", "not found in map"),
    Case('R', "{{ m.x§.y§?.z }}", "integer does not support key-based access"),
    Case('R', "{{ l§.9§ }}", "index out of bounds, the length is 2"),
    Case('R', "{{ l | §nofn§: 1 }}", "unknown filter"),
    Case('R', "{{ \"~\" | §nofn§ }}", "unknown filter or formatter"),
    Case('F', "{{ a | §f§ }}", "the f"),
    Case('F', "{% if a | i | §f§ | i %}{% endif %}", "the f"),
    Case('R', "{{ s | §addi§: 1 }}", "filter expected i64 value, found string"),
    Case('R', "{{ a | addi: §m.l§ }}", "filter expected i64 argument, found list"),
    Case('R', "{{ a | addi: §\"s\"§ }}", "filter expected i64 argument, found string"),
    Case('R', "{{ a | addi: 1| addi: m§.zz§ }}", "not found in map"),
    Case('R', "{{ a | §addi§: 1, 2 }}", "filter expected 1 arguments"),
    Case('R', "{{ b | §u§ }}", "filter expected u8 value, but `300` is out of range"),
    Case('M', "{{ a | §mbad§ }}", "the m"),
    Case('R', "{{ a | §mbad§ | i }}", "expected filter, found formatter"),
    Case('M', "{{ §m§ }}", "expression evaluated to unformattable type map"),
    Case('M', "{{ §l | i§ }}", "expression evaluated to unformattable type list"),
    Case('R', "{% for x in §a§ %}{% endfor %}", "expected iterable, but expression evaluated to integer"),
    Case('R', "{% for §x§ in m %}{% endfor %}", "cannot unpack map item into one variable"),
    Case('R', "{% for §x, y§ in l %}{% endfor %}", "cannot unpack list item into two variables"),
    Case('R', "{% include §\"zz\"§ %}", "unknown template"),
    Case('R', "{% include §\"zz\"§ with m %}", "unknown template"),
    Case('R', "{% include \"zz\" with §q§ %}", "not found in this scope"),
    Case('R', "{% for x in l %}~{{ x§.y§ }}{% endfor %}", "integer does not support key-based access"),
    Case('R', "{% for x in l %}~{{ loop§.y§ }}{% endfor %}", "not found in map"),
    Case('R', "{% with m as w %}~{{ w§.q§ }}{% endwith %}", "not found in map"),
    Case('R', "{% for k, v in m %}{{ k }}~{{ k§.zz§.y }}{% endfor %}", "cannot index into string"),
    Case('R', "{% for k, v in m | i %}~{{ v§.zz§ }}{% endfor %}", "list does not support key-based access"),
    Case('R', "{% if a %}~{% else %}{% endif %}{% if not §zz§ %}{% endif %}", "not found in this scope"),
    // Rejected when compiling, continued.
    Case('S', "{{ a §?x§ }}", "unexpected character"),
    Case('S', "{{ a §? §}}", "unexpected character"),
    Case('S', "{{ a.§$§ }}", "unexpected character"),
    Case('S', "{{ \"~\" | f: a §b§ }}", "expected end expression, found identifier"),
    Case('S', "§{% else if a %}§", "unexpected `else if` block"),
    Case('S', "§{%- else -%}§", "unexpected `else` block"),
    Case('S', "{% if a %}{% else %}~§{%- else if b %}§{% endif %}", "unexpected `else if` block"),
    Case('S', "~§{%- endwith %}§", "unexpected `endwith` block"),
    Case('S', "§{%- endfor -%}§", "unexpected `endfor` block"),
    Case('S', "{% with a as b %}~§{% endif %}§", "unexpected `endif` block"),
    Case('S', "{% for x in l %}~§{%- else -%}§{% endfor %}", "unexpected `else` block"),
    Case('S', "{% if a %}{% else %}{% with a as b %}§{%- endfor %}§", "unexpected `endfor` block"),
    Case('S', "§{% with a as b -%}§~", "unclosed `with` block"),
    Case('S', "§{% if a %}§~{% else if b %}{% for x in l %}", "unclosed `if` block"),
    Case('S', "§{%- for x in l %}§~{% with a as b %}{% if a %}", "unclosed `for` block"),
    Case('S', "{% if a %}{% endif %}§{%- with a as b %}§~{% if a %}~{% endif %}", "unclosed `with` block"),
    Case('S', "{% for §in§ in l %}", "expected identifier, found keyword"),
    Case('S', "{% for x, §in§ l %}", "expected identifier, found keyword"),
    Case('S', "{% for x §as§ l %}", "expected keyword `in`, found keyword `as`"),
    Case('S', "{% for x §%}§", "expected keyword, found end block"),
    Case('S', "{% with a §in§ b %}", "expected keyword `as`, found keyword `in`"),
    Case('S', "{% with a as §if§ %}", "expected identifier, found keyword"),
    Case('S', "{% with a as §\"b\"§ %}", "expected identifier, found string"),
    Case('S', "{% §not§ a %}", "unexpected keyword `not`"),
    Case('S', "{% if a %}{% else §for§ x in l %}{% endif %}", "expected end block, found keyword"),
    Case('S', "{% if a §b§ %}", "expected end block, found identifier"),
    Case('S', "{% include \"~\" §a§ %}", "expected end block, found identifier"),
    Case('S', "{% include \"~\" with §%}§", "expected expression, found end block"),
    Case('S', "{{ §if§ }}", "unexpected keyword `if`"),
    Case('S', "{% if not §not§ a %}", "unexpected keyword `not`"),
    Case('S', "{{ a | f: §-}}§", "expected expression, found end expression"),
    Case('S', "{{ a | f: 1, §}}§", "expected expression, found end expression"),
    Case('S', "{{ \"~\" |§}}§", "expected identifier, found end expression"),
    Case('S', "{{ a.§}}§", "expected identifier or index, found end expression"),
    Case('S', "{{ a?.§-}}§", "expected identifier or index, found end expression"),
    Case('S', "{{ a.b?.§if§ }}", "expected identifier or index, found keyword"),
    Case('S', "{{ - §a§ }}", "expected number, found identifier"),
    Case('S', "{{ +§\"x\"§ }}", "expected number, found string"),
    Case('S', "{{ §|§ f }}", "expected expression, found pipe"),
    Case('S', "{{- §.§a }}", "expected expression, found member access operator"),
    Case('S', "{{ 1§e§ }}", "invalid digit for base 10 literal"),
    Case('S', "{{ -0o17§8§_ }}", "invalid digit for base 8 literal"),
    Case('S', "{{ §-0x8000000000000001§ }}", "base 16 literal out of range for 64-bit integer"),
    Case('S', "{{ §- 0b1__10000000000000000000000000000000000000000000000000000000000000000§ }}", "base 2 literal out of range for 64-bit integer"),
    Case('S', "{{ §+  1.2.3§ }}", "invalid float literal"),
    Case('S', "{{ a?.§18446744073709551616§.b }}", "base 10 literal out of range for unsigned 64-bit integer"),
    Case('S', "{% if a -%}~§{%-§ {{ a }}", "unclosed begin block"),
    Case('S', "§{{-§ a {{ b }}", "unclosed begin expression"),
    Case('S', "§{#-§ ~ {# b #}", "unclosed begin comment"),
    Case('S', "{# ~ §}}§ #}", "unexpected end expression"),
    Case('S', "{# ~ §-%}§ #}", "unexpected end block"),
    Case('S', "{% if a §}}§", "unexpected end expression"),
    Case('S', "{{ a §-%}§", "unexpected end block"),
    Case('S', "{% if a §#}§", "unexpected end comment"),
    Case('S', "~§-%}§", "unexpected end block"),
    Case('S', "{{ §\"abc§\n\" }}", "undelimited string"),
    Case('S', "{{ a | f: §\"abc\\\"§\n\" }}", "undelimited string"),
    Case('S', "{{ \"~\\n\\\\\\§q§\\\"\" }}", "unknown escape character"),
    Case('S', "{% include \"~\\§$§\" %}", "unknown escape character"),
    Case('S', "{{ a | f: \"~\", \"\\§é§\" }}", "unknown escape character"),
    Case('S', "{{ a §é§ }}", "expected end expression, found identifier"),
    Case('S', "{{ §€§ }}", "unexpected character"),
    Case('U', "{{ a | f: 1, §\"a\\\"bc§", "undelimited string"),
    Case('E', "{{ a | f:", "expected token, found EOF"),
    Case('E', "{{ a | f: 1,", "expected token, found EOF"),
    Case('E', "{% for x in ", "expected token, found EOF"),
    Case('E', "{% for x", "expected keyword, found EOF"),
    Case('E', "{% include \"zz\"", "expected end block, found EOF"),
    Case('E', "{% include \"zz\" with", "expected token, found EOF"),
    Case('E', "{{ a.", "expected token, found EOF"),
    Case('E', "{% if a %}~{% else", "expected end block, found EOF"),
    Case('E', "{{ -", "expected number, found EOF"),
    Case('E', "{% with a as", "expected identifier, found EOF"),
    Case('E', "{%- if not", "expected token, found EOF"),
    // Fail when rendering, continued.
    Case('R', "{{ l§.zz§ }}", "list does not support key-based access"),
    Case('R', "{{ a§?.b§ }}", "integer does not support key-based access"),
    Case('R', "{{ s§.0§ }}", "string does not support integer-based access"),
    Case('R', "{{ m§.0§.x }}", "map does not support integer-based access"),
    Case('R', "{{ m.l§.2§ }}", "index out of bounds, the length is 1"),
    Case('R', "{{ m?.l?.0§?.x§ }}", "integer does not support key-based access"),
    Case('R', "{% with l | i as q %}~{{ q§.7§ }}{% endwith %}", "index out of bounds, the length is 2"),
    Case('R', "{% with s | i as q %}~{{ q§.zz§ }}{% endwith %}", "string does not support key-based access"),
    Case('R', "{% for x in l | i %}~{{ x§.y§ }}{% endfor %}", "integer does not support key-based access"),
    Case('R', "{% for k, v in m | i %}{{ k }}~{{ k§.zz§ }}{% endfor %}", "cannot index into string"),
    Case('R', "{% for k, v in m %}{{ k }}~{{ k§.0§ }}{% endfor %}", "cannot index into string"),
    Case('R', "{{ §looped§.index }}", "not found in this scope"),
    Case('R', "{% for x in l %}{% endfor %}{{ §x§ }}", "not found in this scope"),
    Case('R', "{% for x in l %}~{{ loop.index§.y§ }}{% endfor %}", "cannot index into integer"),
    Case('R', "{% for x in l %}~{{ loop§.0§ }}{% endfor %}", "cannot index into map with integer"),
    Case('R', "{% for x in l | i %}~{% for y in l %}{{ loop?.last§?.z§ }}{% endfor %}{% endfor %}", "cannot index into bool"),
    Case('R', "{% for x in §a | i§ %}{% endfor %}", "expected iterable, but expression evaluated to integer"),
    Case('R', "{% for x in §a | ia: 1, 2§ %}{% endfor %}", "expected iterable, but expression evaluated to integer"),
    Case('R', "{% for x in §\"~\"§ %}{% endfor %}", "expected iterable, but expression evaluated to string"),
    Case('R', "{% for x in §-1§ %}{% endfor %}", "expected iterable, but expression evaluated to integer"),
    Case('R', "{% for x in §1.5§%}{% endfor %}", "expected iterable, but expression evaluated to float"),
    Case('R', "{% for x in §m.x§ %}{% endfor %}", "expected iterable, but expression evaluated to integer"),
    Case('R', "{% for x in m§.zz§ %}{% endfor %}", "not found in map"),
    Case('R', "{% for §x§ in m | i %}{% endfor %}", "cannot unpack map item into one variable"),
    Case('R', "{% for §x, y§ in l | i %}{% endfor %}", "cannot unpack list item into two variables"),
    Case('R', "{% if a %}{% if not a %}{% else if §zz§.x %}{% endif %}{% endif %}", "not found in this scope"),
    Case('R', "{% with §zz§ as q %}{% endwith %}", "not found in this scope"),
    Case('R', "{{ a | addi: §zz§.b }}", "not found in this scope"),
    Case('R', "{{ a | u2: §b§ }}", "filter expected u8 argument, but `300` is out of range"),
    Case('R', "{{ a | u2: §300§ }}", "filter expected u8 argument, but `300` is out of range"),
    Case('R', "{{ a | u2: §-1§ }}", "filter expected u8 argument, but `-1` is out of range"),
    Case('R', "{{ a | u2: §true§ }}", "filter expected u8 argument, found bool"),
    Case('R', "{{ s | §u§ }}", "filter expected u8 value, found string"),
    Case('R', "{{ a | §addi§ }}", "filter expected 1 arguments"),
    Case('R', "{% if a | §addi§ %}{% endif %}", "filter expected 1 arguments"),
    Case('R', "{% include \"zz\" with a§.b§ %}", "integer does not support key-based access"),
    Case('R', "{% include \"~\" with a | §nofn§ %}", "unknown filter"),
    Case('R', "{% include \"fine\" with a | §mbad§ %}", "expected filter, found formatter"),
    Case('F', "{{ l.0 | i | §f§ | i }}", "the f"),
    Case('F', "{% with a | §f§ as q %}{% endwith %}", "the f"),
    Case('F', "{% for x in l | §f§ %}{% endfor %}", "the f"),
    Case('F', "{% for x in l %}~{{ x | §f§ }}{% endfor %}", "the f"),
    Case('M', "{{ §m.l§ }}", "expression evaluated to unformattable type list"),
    Case('M', "{{ §l | i | ia: m.x, 1§ }}", "expression evaluated to unformattable type list"),
    Case('M', "{{ §m | i§ }}", "expression evaluated to unformattable type map"),
    Case('M', "{% for x in l %}~{{ x | i | §mbad§ }}{% endfor %}", "the m"),
    Case('M', "{% for x in l %}{{ x }}{% endfor %}{{ §m§ }}", "expression evaluated to unformattable type map"),
];

/// Text of `n` characters.
fn text(form: usize, n: usize) -> Vec<u8> {
    let mut out = Vec::new();
    for _ in 0..n {
        match form {
            // Spaces and newlines.
            0 => out.push(sym::of(b" \n")),
            // Printable ASCII without braces, percent, hash, quote and backslash.
            1 => {
                let b = sym::u8();
                sym::assume(b == b'\n' || (b >= b' ' && b < 0x7f));
                sym::assume(b != b'{' && b != b'}' && b != b'%' && b != b'#' && b != b'"' && b != b'\\');
                out.push(b);
            }
            // Blanks of no or unknown width.
            3 => out.push(sym::of(b"\t \n\r")),
            // Any character of three or four bytes, of any width.
            4 => out.extend(crate::p_total::hole(2, 3)),
            5 => out.extend(crate::p_total::hole(2, 4)),
            // Characters of every width.
            6 => {
                const W: [&str; 7] =
                    ["\u{4e16}", "\u{301}", "\u{1f600}", "\u{1d49c}", "\u{ff21}", "\u{200b}", "\u{a0}"];
                out.extend_from_slice(W[sym::choose(W.len())].as_bytes());
            }
            // Two-byte letters.
            _ => {
                let b = sym::u8();
                sym::assume(b >= 0x80 && b < 0xc0);
                out.extend_from_slice(&[0xc3, b]);
            }
        }
    }
    out
}

fn columns(b: &[u8]) -> usize {
    if cfg!(not(feature = "unicode")) {
        return env::utf8(b).chars().count();
    }
    unicode_width::UnicodeWidthStr::width(env::utf8(b))
}

/// What is displayed about `at..end` of `src`.
fn location(name: &str, src: &[u8], at: usize, end: usize, reason: &str) -> Vec<u8> {
    let ln = 1 + src[..at].iter().filter(|b| **b == b'\n').count();
    let start = (0..at).rev().find(|i| src[*i] == b'\n').map_or(0, |i| i + 1);
    let stop = (start..src.len()).find(|i| src[*i] == b'\n').unwrap_or(src.len());
    let col = columns(&src[start..at]);
    let width = columns(&src[at..end]);
    let width = if width == 0 { 1 } else { width };
    let num = ln.to_string();
    let pad = " ".repeat(num.len());
    let mut out = format!("\n\n {pad}--> {name}:{num}:{}\n {pad} |\n {num} | ", col + 1).into_bytes();
    out.extend_from_slice(&src[start..stop]);
    out.extend_from_slice(format!("\n {pad} | {}{}", " ".repeat(col), "^".repeat(width)).as_bytes());
    if width < 3 {
        out.extend_from_slice("-".repeat(3 - width).as_bytes());
    }
    out.extend_from_slice(format!("\n {pad} |\n {pad} = reason: {reason}\n").as_bytes());
    out
}

/// params: case, where the hole is or how values are bound (5 to 8), or how much text is before (3, 4, 9 to 12) or marked (13), its length and form, how the template is used
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_error() {
    let (case, place, n, form, wrap) = (param(0), param(1), param(2), param(3), param(4));
    let wrap = if wrap == 9 { 1 + sym::choose(5) } else { wrap };
    let Case(kind, t, why) = &CASES[case];
    let filtered = t.contains('|') && matches!(kind, 'R' | 'F' | 'M') && !t.contains("nofn") && !t.contains("a | §mbad§");
    if cfg!(not(feature = "filters")) && (filtered || (5..9).contains(&place)) {
        return sym::reach(0);
    }
    let mut src: Vec<u8> = Vec::new();
    let mut marks = Vec::new();
    if wrap == 5 {
        src.extend_from_slice(b"{% include \"fine\" %}{% include \"fine\" with m.l %}");
    }
    if place == 3 {
        src.extend_from_slice(b"\n\n\n\n\n\n\n\n");
    }
    if place == 4 {
        // The number of lines reaches another digit.
        src.extend([b'\n'; 98]);
    }
    if place == 9 {
        // Far into a line, but fewer columns.
        for _ in 0..130 {
            src.extend_from_slice(b"x\xc3\xa9");
        }
    }
    if place == 10 {
        // Many lines, and a long one before.
        src.extend([b'.'; 300]);
        src.extend([b'\n'; 1009]);
    }
    // Beyond what a narrower counter holds.
    if place == 11 || place == 12 {
        let size = 65535 + sym::choose(3);
        src.extend(std::iter::repeat(if place == 11 { b'x' } else { b'\n' }).take(size));
    }
    let t = &if place == 13 {
        t.replace("zz", &"z".repeat([255, 256, 65536][sym::choose(3)]))
    } else {
        String::from(*t)
    };
    if place == 13 && t.len() < 255 {
        return sym::reach(0);
    }
    if place == 0 || place >= 3 {
        src.extend(text(form, n));
    }
    // The same values, bound by statements, borrowed or computed.
    let rebind = (5..9).contains(&place);
    if rebind {
        if !matches!(kind, 'R' | 'F' | 'M') {
            return sym::reach(0);
        }
        for v in ["a", "b", "s", "m", "l"] {
            let t = match place {
                5 => format!("{{% with {v} | i as {v} %}}"),
                6 => format!("{{% with {v} as {v} %}}"),
                7 => format!("{{% for {v} in w{v} | i %}}"),
                _ => format!("{{% for k, {v} in v{v} | i %}}"),
            };
            src.extend_from_slice(t.as_bytes());
        }
        src.extend(text(form, n));
    }
    for c in t.chars() {
        match c {
            '§' => marks.push(src.len()),
            '~' => {
                if place == 1 {
                    src.extend(text(form, n));
                } else {
                    src.push(b' ');
                }
            }
            c => src.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
        }
    }
    if place == 1 && !t.contains('~') || *kind == 'E' && place == 2 {
        return sym::reach(0);
    }
    if form == 3 && (place != 2 || matches!(kind, 'U' | 'E')) {
        return sym::reach(0);
    }
    if *kind == 'E' {
        marks.extend([src.len(), src.len()]);
    } else if place == 2 {
        src.extend(text(form, n));
    }
    if rebind {
        for _ in 0..5 {
            src.extend_from_slice(if place < 7 { b"{% endwith %}" } else { b"{% endfor %}" });
        }
    }
    let (at, mut end) = (marks[0], marks[1]);
    if *kind == 'U' {
        while end < src.len() && src[end] != b'\n' {
            end += 1;
        }
    }
    // String literals end at the end of the line.
    if place == 1 && t.contains("\"~") {
        for b in &src {
            sym::assume(*b != b'\n');
        }
    }
    let s = env::utf8(&src).to_owned();
    note!(s);

    let mut e = Engine::new();
    #[cfg(feature = "filters")]
    e.add_filter("f", |_: Value| -> Result<Value, String> { Err(String::from("the f")) });
    #[cfg(feature = "filters")]
    e.add_filter("i", |v: Value| v);
    #[cfg(feature = "filters")]
    e.add_filter("addi", |a: i64, b: i64| a.wrapping_add(b));
    #[cfg(feature = "filters")]
    e.add_filter("u", |a: u8| i64::from(a));
    #[cfg(feature = "filters")]
    e.add_filter("u2", |a: u8, b: u8| i64::from(a.wrapping_add(b)));
    #[cfg(feature = "filters")]
    e.add_filter("ia", |v: Value, _: i64, _: i64| v);
    e.add_formatter("mbad", |_: &mut fmt::Formatter<'_>, _: &Value| -> fmt::Result {
        Err(fmt::Error::from("the m"))
    });
    let ctx = value! {
        a: 1, b: 300, s: "str", m: { x: 1, l: [1] }, l: [1, 2],
        wa: [1], wb: [300], ws: ["str"], wm: [{ x: 1, l: [1] }], wl: [[1, 2]],
        va: { x: 1 }, vb: { x: 300 }, vs: { x: "str" }, vm: { x: { x: 1, l: [1] } }, vl: { x: [1, 2] },
    };
    let letters = [sym::of(b"ab- ."), sym::of(b"xy0")];
    let (name, err) = match wrap {
        0 => (
            "<anonymous>",
            match e.compile(&s) {
                Err(err) => err,
                Ok(t) => match t.render_from(&e, &ctx).to_string() {
                    Err(err) => err,
                    Ok(_) => return sym::fail(1),
                },
            },
        ),
        _ => {
            let name = env::utf8(&letters);
            let err = e.add_template(name, s.clone());
            e.add_template("fine", "ok").unwrap();
            e.add_template("mid", format!("{{% include \"fine\" %}}{{% include \"{name}\" %}}")).unwrap();
            let main = match wrap {
                2 => format!("\n{{% include \"{name}\" %}}{{{{ zz }}}}"),
                3 => format!("{{% for y in l %}}{{% include \"fine\" %}}{{% include \"{name}\" %}}{{% endfor %}}"),
                4 => String::from("{% include \"mid\" %}"),
                _ => String::new(),
            };
            let main = e.compile(main).unwrap();
            let r = match (err, wrap) {
                (Err(err), _) => Err(err),
                (Ok(()), 1 | 5) => e.template(name).render_from(&ctx).to_string(),
                _ => main.render_from(&e, &ctx).to_string(),
            };
            match r {
                Err(err) => (name, err),
                Ok(_) => return sym::fail(2),
            }
        }
    };
    let short = format!("{err}");
    note!(short);
    let head = match kind {
        'S' | 'E' | 'U' => "invalid syntax",
        'R' => "render error",
        'F' => "filter error",
        _ => "format error",
    };
    let reason = match short.strip_prefix(head).and_then(|s| s.strip_prefix(": ")) {
        Some(r) if !r.is_empty() => r,
        _ => return sym::fail(3),
    };
    // The words may depend on where a value comes from.
    // Without the feature only ASCII letters make names.
    let why = if cfg!(not(feature = "unicode")) && t.contains("§é§ }}") { &"unexpected character" } else { why };
    sym::check(reason == *why || rebind && *kind == 'R', 4);
    let long = format!("{err:#}");
    let shown = match long.strip_prefix(head) {
        Some(s) => s.as_bytes(),
        None => return sym::fail(5),
    };
    let mut ok = shown == &location(name, &src, at, end, reason)[..];
    if *kind == 'E' && src.last() == Some(&b'\n') {
        // The end of the last line will do as well.
        ok = ok || shown == &location(name, &src[..at - 1], at - 1, at - 1, reason)[..];
    }
    sym::check(ok, 6);
    sym::observe(shown);
    // What `unwrap` shows.
    if !(4..6).contains(&form) {
        sym::check(format!("{err:?}").starts_with(&long), 7);
    }
    sym::reach(0);
}

/// Errors of programs that are rendered from a template with the given name are
/// attributed to it and not to templates that were included and done.
/// params: which template fails
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_error_name() {
    let form = param(0);
    // Three templates that include each other in a chain, before or after they fail.
    let names = ["one", "two", "tri"];
    let bad = sym::choose(3);
    let early = sym::choose(3);
    let fail = ["{{ zz }}", "{% include \"zz\" %}", "{{ a | f }}", "{{ a | mbad }}", "{{ m }}", "{{ a | i: 1 }}"][form];
    let with = sym::bool();
    let mut e = Engine::new();
    #[cfg(feature = "filters")]
    e.add_filter("f", |_: Value| -> Result<Value, &str> { Err("the f") });
    #[cfg(feature = "filters")]
    e.add_filter("i", |v: Value| v);
    e.add_formatter("mbad", |_: &mut fmt::Formatter<'_>, _: &Value| -> fmt::Result {
        Err(fmt::Error::from("the m"))
    });
    for i in 0..3 {
        let mut s = String::new();
        if early == i && bad == i {
            s.push_str(fail);
        }
        if i < 2 {
            s.push_str("{% include \"");
            s.push_str(names[i + 1]);
            s.push_str(if with { "\" with o %}" } else { "\" %}" });
        }
        if bad == i && early != i {
            s.push_str(fail);
        }
        e.add_template(names[i], s).unwrap();
    }
    let ctx = value! { a: 1, m: {}, o: { a: 1, m: {}, o: { a: 1, m: {} } } };
    let top = e.template("one");
    let err = match top.render_from(&ctx).to_string() {
        Err(err) => err,
        Ok(_) => return sym::fail(10),
    };
    let long = format!("{err:#}");
    note!(long);
    let mut want = String::from("\n\n  --> ");
    want.push_str(names[bad]);
    want.push_str(":1:");
    sym::check(long.contains(&want), 11);
    sym::observe(long.as_bytes());
    sym::reach(0);
}
