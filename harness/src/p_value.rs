//! Literals, lookup, conditionals and loops.

use crate::env::{self, Outcome};
use crate::model;
use crate::sym::{self, param};
use std::cell::UnsafeCell;
use upon::{Engine, Value};

struct Cell(UnsafeCell<Vec<Value>>);
unsafe impl Sync for Cell {}
static SEEN: Cell = Cell(UnsafeCell::new(Vec::new()));

pub fn seen() -> &'static mut Vec<Value> {
    unsafe { &mut *SEEN.0.get() }
}

/// Equality that distinguishes every bit of a float.
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::None, Value::None) => true,
        (Value::Bool(x), Value::Bool(y)) => x == y,
        (Value::Integer(x), Value::Integer(y)) => x == y,
        (Value::Float(x), Value::Float(y)) => x.to_bits() == y.to_bits(),
        (Value::String(x), Value::String(y)) => x.as_bytes() == y.as_bytes(),
        (Value::List(x), Value::List(y)) => {
            if x.len() != y.len() {
                return false;
            }
            for i in 0..x.len() {
                if !same(&x[i], &y[i]) {
                    return false;
                }
            }
            true
        }
        (Value::Map(x), Value::Map(y)) => {
            if x.len() != y.len() {
                return false;
            }
            for ((k, v), (l, w)) in x.iter().zip(y.iter()) {
                if k != l || !same(v, w) {
                    return false;
                }
            }
            true
        }
        _ => false,
    }
}

/// Captures what it is to format.
#[cfg(not(feature = "filters"))]
fn cap(_: &mut upon::fmt::Formatter<'_>, v: &Value) -> upon::fmt::Result {
    seen().push(v.clone());
    Ok(())
}

/// What a literal evaluates to, wherever it is written.
/// params: form (0 integer-like, 1 string, 2 signed), prefix, hole kind, length, place
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_literal() {
    let (form, pre, kind, n, place) = (param(0), param(1), param(2), param(3), param(4));
    // Without filters only the value of an expression can be seen.
    if cfg!(not(feature = "filters")) && ![0, 3, 6].contains(&place) {
        return;
    }
    let mut lit: Vec<u8> = Vec::new();
    let mut neg = false;
    if form == 2 {
        let s = sym::of(b"-+");
        sym::conc(usize::from(s));
        neg = s == b'-';
        lit.push(s);
        // Blanks are allowed between the sign and the digits.
        if sym::bool() {
            lit.push(b' ');
        }
    }
    let start = lit.len();
    if form == 1 {
        lit.push(b'"');
    }
    let p: &[u8] = [
        &b""[..],
        b"0x",
        b"0b",
        b"0o",
        b"922337203685477580",
        b"0x7fff_ffff_ffff_ff",
        b"0b11111111111111111111111111111111111111111111111111111111111111",
        b"0o77777777777777777777",
        b"1_0",
        b"00000000000000000000000",
        b"a\\n\xc3\xa9 ",
        b"0x800000000000000",
        b"0o7777777777777777777",
        b"18446744073709551",
        b"0xF",
        b"0b1",
    ][pre];
    lit.extend_from_slice(p);
    match kind {
        // Digits, letters and underscores that integer literals are made of.
        0 => {
            for _ in 0..n {
                let b = sym::u8();
                sym::assume(
                    b.is_ascii_digit() || (b'a'..=b'g').contains(&b) || (b'A'..=b'G').contains(&b) || b == b'_',
                );
                // Without a digit in front it is a name.
                sym::assume(lit.len() > start || b.is_ascii_digit());
                lit.push(b);
            }
        }
        // Digits.
        1 => {
            for _ in 0..n {
                let b = sym::u8();
                sym::assume(b.is_ascii_digit());
                lit.push(b);
            }
        }
        // Any ASCII text without a bare quote.
        2 => {
            let mut esc = false;
            for _ in 0..n {
                let b = sym::u8();
                sym::assume(b < 0x80 && b != b'\n' && b != b'\r');
                sym::assume(esc || b != b'"');
                esc = !esc && b == b'\\';
                lit.push(b);
            }
            sym::assume(!esc);
        }
        // Any UTF-8 text without quotes and backslashes.
        3 => {
            let v = crate::p_total::hole(0, n);
            for b in &v {
                sym::assume(*b != b'"' && *b != b'\\' && *b != b'\n' && *b != b'\r');
            }
            lit.extend_from_slice(&v);
        }
        // Escapes, quotes and delimiters.
        4 => {
            let mut esc = false;
            for _ in 0..n {
                let b = sym::of(b"\\\"nrt{}%x ");
                sym::assume(esc || b != b'"');
                esc = !esc && b == b'\\';
                lit.push(b);
            }
            sym::assume(!esc);
        }
        // Floats with any digits.
        6 => {
            const P: &[&str] = &[
                "?.?", "?e?", "0.0?", "?.?e-?", "1?.5E+?", "1?e1?", "0.?e30?", "1e-32?", "90071992547409?.?", "17976931348623157e29?",
                "9223372036854775?0?.", "?.?0", "1844674407370955161?.?", "?00?e0?", "1.?e", "1.?.?", "1e?.?", "5e??", "2.50e1??",
            ];
            for c in P[n].bytes() {
                lit.push(if c == b'?' { sym::of(b"0123456789") } else { c });
            }
        }
        // Floats.
        _ => {
            const F: &[&str] = &[
                "0.5", "1.0", "1.", "1e5", "1.5e-3", "0.1", "123456789.125", "9223372036854775808", "1e400", "5e-324",
                "0.30000000000000004", "00.5", "1E2", "2.5E+1", "99999999999999999999", "1_0.5", "0x1.8", "1e", "1.2.3", "0b2",
                "1.7976931348623157e308", "4.9e-324", "179769313486231580793.5",
            ];
            lit.extend_from_slice(F[sym::choose(F.len())].as_bytes());
        }
    }
    if form == 1 {
        lit.push(b'"');
    }
    let exp = if form == 1 {
        model::unescape(&lit[start..]).map(|b| Value::String(String::from_utf8(b).unwrap_or_default()))
    } else {
        model::number(&lit[start..], neg)
    };
    let (before, after) = [
        ("{{ ", " | cap }}"),
        ("{{ 7 | arg: ", " }}"),
        ("{% if ", " | cap %}{% endif %}"),
        ("{% with ", " as v %}{{ v | cap }}{% endwith %}"),
        ("{% for x in l | arg: ", " %}{% endfor %}"),
        ("{{ 7 | arg2: a, ", "}}"),
        ("{{", "| cap}}"),
        ("{% for x in ", "| list %}{% endfor %}"),
        ("{% for k,x in ", " | map %}{% endfor %}"),
        ("{% if a %}{% if not ", "| cap %}{% endif %}{% else if b %}{% endif %}"),
        ("{% if n %}{% else if not ", " | cap %}{% endif %}"),
        ("{{ l.0 | arg2: l.0,", "}}"),
        ("{% include \"t\" with ", "| cap %}"),
        ("{% with ll as b %}{{b.1?.0 | arg:", "}}{% endwith %}"),
    ][place];
    let mut src = before.as_bytes().to_vec();
    src.extend_from_slice(&lit);
    src.extend_from_slice(after.as_bytes());
    let src = env::utf8(&src);
    note!(src);
    let mut e = Engine::new();
    #[cfg(not(feature = "filters"))]
    e.add_formatter("cap", cap);
    #[cfg(feature = "filters")]
    e.add_filter("cap", |v: Value| {
        seen().push(v);
        Value::None
    });
    #[cfg(feature = "filters")]
    e.add_filter("arg", |w: Value, v: Value| {
        seen().push(v);
        if let Value::List(_) = w {
            w
        } else {
            Value::None
        }
    });
    #[cfg(feature = "filters")]
    e.add_filter("list", |v: Value| {
        seen().push(v);
        Value::List(Vec::new())
    });
    #[cfg(feature = "filters")]
    e.add_filter("map", |v: Value| {
        seen().push(v);
        value! {}
    });
    e.add_template("t", "").unwrap();
    #[cfg(feature = "filters")]
    e.add_filter("arg2", |_: Value, _: Value, v: Value| {
        seen().push(v);
        Value::None
    });
    seen().clear();
    let real = env::run(&e, src, &env::context());
    match (real, exp) {
        (Outcome::Ok(_), Ok(x)) => {
            let s = seen();
            sym::check(s.len() == 1, 10);
            sym::check(same(&s[0], &x), 11);
            match &s[0] {
                Value::Integer(i) => {
                    sym::observe(&i.to_le_bytes());
                    sym::reach(0)
                }
                Value::Float(f) => {
                    sym::observe(&f.to_bits().to_le_bytes());
                    sym::reach(1)
                }
                Value::String(s) => {
                    sym::observe(s.as_bytes());
                    sym::reach(2)
                }
                _ => sym::fail(12),
            }
        }
        (Outcome::Compile(_), Err(())) => {
            sym::observe(b"rejected");
            sym::reach(3)
        }
        (Outcome::Compile(_), Ok(_)) => sym::fail(env::REJECTED_VALID),
        (_, Err(())) => sym::fail(env::ACCEPTED_INVALID),
        (Outcome::Render(_), Ok(_)) => sym::fail(env::FAILED_VALID),
    }
}

////////////////////////////////////////////////////////////////////////////////
// Lookup

/// In these programs `A` to `F` become one-letter names chosen by the solver,
/// `#` becomes `.` or `?.`.
const LOOKUPS: &[&str] = &[
    "{{ A }}",
    "{{ A#B }}",
    "{{ A#B#C }}",
    "{{ A#0 }}{{ A?.1#B }}",
    "{% with A#B as C %}{{ D#E }}{% endwith %}",
    "{% with A as B %}{% with B#C as D %}{{ E }};{{ F }}{% endwith %}{% endwith %}",
    "{% for A in l %}{{ B#C }};{% endfor %}",
    "{% for A in u %}{{ B#C }};{{ loop.index }}{% endfor %}",
    "{% for A in l | id %}{{ B#C }}{% for D in B %}{{ E }}{% endfor %}{% endfor %}",
    "{% for A, B in m %}{{ C }}{{ D#E }}{% endfor %}",
    "{% for A, B in m | id %}{{ C }}{{ D#E }}{% endfor %}",
    "{% for A in l %}{% with A as B %}{{ C }}{% endwith %}{{ D }}{% endfor %}{{ E }}",
    "{% with 1 as A %}{% with 2 as B %}{{ C }}{% endwith %}{{ D }}{% endwith %}{{ E }}",
    "{% for A in l %}{% for B in l %}{{ C#x }};{{ loop.index }}{% endfor %}{{ D }}{% endfor %}",
    "{% include \"i\" %}",
    "{% include \"i\" with A %}",
    "{% with A as B %}{% include \"i\" %}{% endwith %}{{ C }}",
    "{% with A as B %}{% include \"i\" with C#D %}{{ E }}{% endwith %}",
    "{% for A in l %}{% include \"i\" %}{{ loop.last }}{% endfor %}",
    "{% for A in l %}{% include \"i\" with B %}{% endfor %}{{ C }}",
    "{% for A, B in m %}{% include \"i\" %}{% include \"i\" with C %}{{ D }}{% endfor %}",
    "{% if A#B %}{{ C }}{% else %}{{ D }}{% endif %}",
    "{{ A | g: B#C }}",
    "{% with A | g: B as C %}{{ D | g: E }}{% endwith %}",
    "{% with A | id as B %}{{ B#C }}{% with C as B %}{{ B#D }}{% endwith %}{{ B }}{% endwith %}",
    "{% for A in l %}{{ loop#B }}{% with loop as C %}{{ D#index }}{% endwith %}{% endfor %}",
    "{% with A as loop %}{{ loop }}{% for B in l %}{{ loop.index }}{{ C }}{% endfor %}{{ loop#D }}{% endwith %}",
    "{% with l as A %}{% include \"i\" with m %}{% include \"j\" %}{% endwith %}",
];

fn lookup_context() -> Value {
    value! {
        a: { a: "aa", b: { a: "aba", b: [] , x: "abx" } },
        b: "b",
        l: [{ a: "l0a", b: "l0b", x: "l0x" }, { a: "l1a", b: ["lb"], x: [1] }],
        m: { a: { a: "maa", x: "max" }, b: "mb" },
        u: [{ a: 1 }, { b: 2 }],
        n: None,
    }
}

/// Names one of which begins, ends or contains another.
const LONG: &[&str] = &["ab", "a", "bab"];

fn long_context() -> Value {
    value! {
        a: { a: "aa", ab: { a: "aaba", x: "aabx" }, bab: 1 },
        ab: { a: "aba", bab: { ab: "abbabab" }, abc: [] },
        abc: "abc",
        l: [{ a: "l0a", ab: "l0ab", x: "l0x" }, { abc: "l1abc", ab: ["lab"], x: [1] }],
        m: { ab: { a: "maba", ab: "mabab" }, a: "ma" },
        u: [{ a: 1 }, { ab: 2 }],
    }
}

/// params: program, names (0: a b c, 1: a b l m n x, 4: several letters),
/// included template
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_lookup() {
    let (p, names, inc) = (param(0), param(1), param(2));
    let long = names == 4;
    let set: &[u8] = [&b"abc"[..], b"ablmnx", b"abx", b"abcdlmnux", b""][names];
    let sub = |t: &str, vars: &mut [Option<u8>; 6]| {
        let mut out: Vec<u8> = Vec::new();
        let b = t.as_bytes();
        for c in b {
            match c {
                b'A'..=b'F' => {
                    let k = usize::from(c - b'A');
                    let v = match vars[k] {
                        Some(v) => v,
                        None => {
                            let v = if long { sym::choose(LONG.len()) as u8 } else { sym::of(set) };
                            vars[k] = Some(v);
                            v
                        }
                    };
                    if long {
                        out.extend_from_slice(LONG[usize::from(v)].as_bytes());
                    } else {
                        out.push(v);
                    }
                }
                b'#' => {
                    if sym::bool() {
                        out.push(b'?');
                    }
                    out.push(b'.');
                }
                c => out.push(*c),
            }
        }
        out
    };
    let mut vars = [None; 6];
    let main = sub(LOOKUPS[p], &mut vars);
    let main = env::respace(&main, if names == 0 { sym::choose(3) } else { 0 });
    let mut vars = [None; 6];
    let i = sub(
        [
            "<{{ E }}>",
            "<{{ E#F }}>",
            "{% for E in l %}{{ F }}{% endfor %}",
            "{% with E as F %}{{ F }}{% endwith %}",
            "{{ E }}{% include \"j\" %}",
            "{{ loop.index }}{{ E }}",
        ][inc],
        &mut vars,
    );
    let set = [
        ("main", env::utf8(&main).to_owned()),
        ("i", env::utf8(&i).to_owned()),
        ("j", String::from("({{ a | f }})")),
    ];
    note!(set);
    let (mut e, mut menv) = env::total(env::engine(), env::model_env());
    let ctx = if long { long_context() } else { lookup_context() };
    env::check_set(&mut e, &mut menv, &set, &ctx);
}

const WRAPS: &[(&str, &str)] = &[
    ("{% with A as B %}", "{% endwith %}"),
    ("{% with A | id as B %}", "{% endwith %}"),
    ("{% with A#B as C %}", "{% endwith %}"),
    ("{% for A in B %}", "{% endfor %}"),
    ("{% for A in B | id %}", "{% endfor %}"),
    ("{% for A, B in C %}", "{% endfor %}"),
    ("{% for A, B in C | id %}", "{% endfor %}"),
    ("{% include \"I\" %}", ""),
    ("{% include \"I\" with A %}", ""),
    ("{% include \"I\" with A | id %}", ""),
    ("{% for A, B in C %}{% with loop as B %}", "{% endwith %}{% endfor %}"),
    ("{% if A %}", "{% else %}-{% endif %}"),
];

const LEAVES: &[&str] = &["{{ A }}", "{{ A#B }}", "{{ A#B#C }}", "{{ loop#index }}", "{{ loop.first }}{{ loop?.last }}", "{{ loop }}", "{{ loop#A }}", "{{ loop#A#B }}"];

/// Any nesting of statements that bind names, around any access.
/// params: depth, outermost statement, next statement (99: any), names
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_nest() {
    let (n, w0, w1) = (param(0), param(1), param(2));
    let style = param(3);
    let names: &[u8] = [&b"alm"[..], b"almx", b"amx", b"al", b" al", b" al"][style];
    // Names that begin or end with others; a blank that is not part of the name
    // makes up for the length.
    let [a, l, m] = [["a", "l", "m"], ["a", "aa", "al"], ["a", "aa", "la"]][style.saturating_sub(3)];
    let mut texts: Vec<Vec<u8>> = vec![Vec::new(); 5];
    let mut ends: Vec<(usize, &str)> = Vec::new();
    let mut cur = 0;
    let fill = |out: &mut Vec<u8>, t: &str, inc: usize| {
        for c in t.bytes() {
            match c {
                b'A'..=b'C' => match style {
                    4 => out.extend_from_slice(&[b'a', sym::of(names)]),
                    5 => out.extend_from_slice(&[sym::of(names), b'a']),
                    _ => out.push(sym::of(names)),
                },
                b'I' => out.push(b'0' + inc as u8),
                b'#' => {
                    if sym::bool() {
                        out.push(b'?');
                    }
                    out.push(b'.');
                }
                c => out.push(c),
            }
        }
    };
    for i in 0..n {
        let w = match i {
            0 => w0,
            1 if w1 != 99 => w1,
            _ => sym::choose(WRAPS.len()),
        };
        let (open, close) = WRAPS[w];
        fill(&mut texts[cur], open, i + 1);
        ends.push((cur, close));
        if close.is_empty() {
            cur = i + 1;
        }
    }
    let leaf = LEAVES[sym::choose(LEAVES.len())];
    fill(&mut texts[cur], leaf, 0);
    texts[cur].push(b';');
    while let Some((t, close)) = ends.pop() {
        texts[t].extend_from_slice(close.as_bytes());
    }
    // What was bound is not bound any more.
    if n == 1 {
        fill(&mut texts[0], "{{ A }}", 0);
    }
    if style == 0 {
        let blanks = sym::choose(3);
        for t in &mut texts {
            *t = env::respace(t, blanks);
        }
    }
    let mut set = Vec::new();
    for (i, t) in texts.iter().enumerate() {
        set.push((["main", "1", "2", "3", "4"][i], env::utf8(t).to_owned()));
    }
    note!(set);
    let ctx = Value::from([
        (a, Value::from([
            (a, Value::from("aa")),
            (l, Value::from([Value::from("al"), Value::List(vec![])])),
            (m, Value::from([(a, "ama")])),
        ])),
        (l, Value::from([
            Value::from([
                (a, Value::from("l0a")),
                (l, Value::from([Value::from(1), Value::from([(a, 2)])])),
                (m, Value::from([("x", 2)])),
            ]),
            Value::from([(a, Value::from([(a, "l1aa")])), (m, Value::from("l1m"))]),
        ])),
        (m, Value::from([
            (a, Value::from([(a, "maa"), (l, "mal")])),
            ("x", Value::from([Value::from("mx"), Value::from(0)])),
        ])),
    ]);
    let (mut e, mut menv) = env::total(env::engine(), env::model_env());
    env::check_set(&mut e, &mut menv, &set, &ctx);
}

/// Member access on any shape of value against a direct definition.
/// params: depth of the value, number of accessors
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_access() {
    let (depth, n) = (param(0), param(1));
    let mut a = crate::p_total::value(depth);
    if let Value::Map(m) = &mut a {
        // A position is not a key.
        if sym::bool() {
            m.insert("0".to_owned(), Value::Integer(9));
        }
    }
    let ctx = Value::from([("a", a)]);
    let mut path = Vec::new();
    let mut src = String::from("{{ a");
    for _ in 0..n {
        let opt = sym::bool();
        let acc = match sym::choose(5) {
            0 => model::Acc::Key("c".into()),
            1 => model::Acc::Key("x".into()),
            2 => model::Acc::Index(0),
            3 => model::Acc::Index(1),
            _ => model::Acc::Index(usize::MAX),
        };
        src.push_str(if opt { "?." } else { "." });
        match &acc {
            model::Acc::Key(k) => src.push_str(k),
            model::Acc::Index(i) => src.push_str(&i.to_string()),
        }
        path.push((opt, acc));
    }
    src.push_str(" | cap }}");
    note!(src, ctx);
    let mut e = Engine::new();
    #[cfg(not(feature = "filters"))]
    e.add_formatter("cap", cap);
    #[cfg(feature = "filters")]
    e.add_filter("cap", |v: Value| {
        seen().push(v);
        Value::None
    });
    seen().clear();
    let Value::Map(m) = &ctx else { return };
    let exp = model::walk(&m["a"], &path);
    match (env::run(&e, &src, &ctx), exp) {
        (Outcome::Ok(_), Ok(x)) => {
            sym::check(seen().len() == 1 && same(&seen()[0], &x), env::OUTPUT_DIFFERS);
            sym::reach(0)
        }
        (Outcome::Render(_), Err(())) => sym::reach(1),
        (Outcome::Ok(_), Err(())) => sym::fail(env::RENDERED_INVALID),
        (Outcome::Render(_), Ok(_)) => sym::fail(env::FAILED_VALID),
        (Outcome::Compile(_), _) => sym::fail(env::REJECTED_VALID),
    }
}

////////////////////////////////////////////////////////////////////////////////
// Conditionals

/// Any value: all integers, all floats; collections of either emptiness.
fn any(wide: bool) -> (Value, bool) {
    match sym::choose(if wide { 9 } else { 3 }) {
        0 => (Value::None, false),
        1 => {
            let b = sym::bool();
            (Value::Bool(b), b)
        }
        2 => {
            let i = sym::i64();
            (Value::Integer(i), i != 0)
        }
        3 => {
            let f = sym::f64();
            // Zero has only sign bits; everything else, NaN too, is true.
            (Value::Float(f), f.to_bits() << 1 != 0)
        }
        4 => (Value::String(String::new()), false),
        5 => {
            let b = sym::u8();
            sym::assume(b < 0x80);
            (Value::String(env::utf8(&[b]).to_owned()), true)
        }
        6 => {
            let t = sym::bool();
            (Value::List(if t { vec![Value::None] } else { vec![] }), t)
        }
        7 => (Value::from([("k", Value::Bool(false))]), true),
        _ => (Value::Map(Default::default()), false),
    }
}

/// `if` takes the branch of the first true condition, `not` negates, and
/// nothing else is output.
/// params: number of conditions, else, nested, wide
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_if() {
    let (n, els, form, wide) = (param(0), param(1), param(2), param(3));
    let mut src = String::new();
    let mut map = std::collections::BTreeMap::new();
    let mut exp: Option<usize> = None;
    for i in 0..n {
        let (v, t) = any(wide == 1);
        let not = sym::bool();
        let k = ["a", "b", "c", "d"][i];
        map.insert(k.to_owned(), v);
        src.push_str(if i == 0 { "<{% if " } else { "{% else if " });
        if not {
            src.push_str("not ");
        }
        match form {
            // A path, a filtered value, a member, an argument.
            0 => src.push_str(k),
            1 => {
                src.push_str(k);
                src.push_str(" | id");
            }
            2 => {
                src.push_str("r.");
                src.push_str(k);
            }
            _ => {
                src.push_str("1 | second: ");
                src.push_str(k);
            }
        }
        src.push_str(" %}");
        src.push_str(["A", "B", "C", "D"][i]);
        if exp.is_none() && t != not {
            exp = Some(i);
        }
    }
    if els == 1 {
        src.push_str("{% else %}E");
    }
    src.push_str("{% endif %}>");
    let r = Value::Map(map.clone());
    map.insert("r".to_owned(), r);
    note!(src, map);
    let ctx = Value::Map(map);
    let mut e = env::engine();
    #[cfg(feature = "filters")]
    e.add_filter("second", |_: Value, v: Value| v);
    let want = match exp {
        Some(i) => ["<A>", "<B>", "<C>", "<D>"][i],
        None if els == 1 => "<E>",
        None => "<>",
    };
    match env::run(&e, &src, &ctx) {
        Outcome::Ok(s) => {
            sym::check(s.as_bytes() == want.as_bytes(), env::OUTPUT_DIFFERS);
            sym::observe(s.as_bytes());
            sym::reach(match exp {
                Some(_) => 0,
                None => 1,
            });
        }
        _ => sym::fail(env::FAILED_VALID),
    }
}

/// Nested conditionals and conditionals in other blocks.
/// params: program
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_if_nested() {
    let p = param(0);
    let src = [
        "{% if a %}{% if b %}1{% else %}2{% endif %}3{% else if c %}4{% if d %}5{% endif %}{% else %}{% if d %}6{% else if a %}7{% endif %}8{% endif %}9",
        "{% if a %}{% for x in l %}{% if x.t %}{% if b %}1{% endif %}{% else %}2{% endif %}{% endfor %}{% endif %}{% if not c %}3{% else %}4{% endif %}",
        "{% for x in l %}{% if a %}{% with x.t as b %}{% if b %}1{% else if c %}2{% else %}3{% endif %}{% endwith %}{% else if b %}{{ loop.index }}{% endif %}{% endfor %}{% if b %}4{% endif %}",
        "{% if not a %}{% if not b %}1{% else if not c %}2{% endif %}{% else %}{% if not d %}3{% endif %}{% endif %}",
        "{% if a %}{% else if b %}{% else if c %}1{% else %}{% endif %}{% if d %}{% endif %}2",
        "{% if a %}{% include \"i\" %}{% else %}{% include \"i\" with r %}{% endif %}{% if b %}2{% endif %}",
        "{% if a %}1{% if b %}2{% if c %}3{% if d %}4{% else %}5{% endif %}{% else %}6{% endif %}{% else %}7{% endif %}{% else %}8{% endif %}",
    ][p];
    let mut map = std::collections::BTreeMap::new();
    for k in ["a", "b", "c", "d"] {
        map.insert(k.to_owned(), any(false).0);
    }
    let mut l = Vec::new();
    for _ in 0..2 {
        l.push(Value::from([("t", Value::Bool(sym::bool()))]));
    }
    map.insert("l".to_owned(), Value::List(l));
    let mut r = std::collections::BTreeMap::new();
    r.insert("c".to_owned(), Value::Bool(sym::bool()));
    map.insert("r".to_owned(), Value::Map(r));
    note!(src, map);
    let set = [
        ("main", src.to_owned()),
        ("i", String::from("{% if c %}x{% else %}y{% endif %}")),
    ];
    let (mut e, mut menv) = env::total(env::engine(), env::model_env());
    env::check_set(&mut e, &mut menv, &set, &Value::Map(map));
}

////////////////////////////////////////////////////////////////////////////////
// Loops

/// The body is rendered once per item, in order, with the item bound, and with
/// the right `loop` variable.
/// params: form, maximum length
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_loop() {
    let (form, max) = (param(0), param(1));
    let n = sym::choose(max + 1);
    let map = form >= 4;
    let items: Vec<u8> = (0..n).map(|_| sym::of(b"pqrs")).collect();
    let src = [
        "[{% for x in c %}{{ x }}{{ loop.index }}{% if loop.first %}F{% endif %}{% if loop.last %}L{% endif %};{% endfor %}]",
        "[{% for x in c | id %}{{ x }}{{ loop.index }}{% if loop.first %}F{% endif %}{% if loop.last %}L{% endif %};{% endfor %}]",
        "[{% for x in w.c %}{% with loop as o %}{{ x }}{{ o.index }}{% if o.first %}F{% endif %}{% if o.last %}L{% endif %}{% endwith %};{% endfor %}]",
        "[{% for x in c %}{{ x }}{% for y in z %}{% endfor %}{{ loop.index }}{% if loop.first %}F{% endif %}{% if not loop.last %}{% else %}L{% endif %};{% endfor %}]",
        "[{% for k, x in c %}{{ k }}{{ x }}{{ loop.index }}{% if loop.first %}F{% endif %}{% if loop.last %}L{% endif %};{% endfor %}]",
        "[{% for k, x in c | id %}{{ k }}{{ x }}{{ loop.index }}{% if loop.first %}F{% endif %}{% if loop.last %}L{% endif %};{% endfor %}]",
        "[{% for k, x in w.c %}{% include \"i\" %}{% endfor %}]",
    ][form];
    let keys = ["k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7"];
    let vals: Vec<Value> = items.iter().map(|b| Value::from(env::utf8(&[*b]))).collect();
    let c = if map {
        // Inserted in reverse order: iteration is in order of the keys.
        let mut m = std::collections::BTreeMap::new();
        for i in (0..n).rev() {
            m.insert(keys[i].to_owned(), vals[i].clone());
        }
        Value::Map(m)
    } else {
        Value::List(vals)
    };
    let ctx = Value::from([
        ("c", c.clone()),
        ("w", Value::from([("c", c)])),
        ("z", Value::List(vec![Value::Integer(1), Value::Integer(2)])),
    ]);
    note!(src, ctx);
    let mut exp: Vec<u8> = vec![b'['];
    for i in 0..n {
        if map {
            exp.extend_from_slice(keys[i].as_bytes());
        }
        exp.push(items[i]);
        exp.extend_from_slice(i.to_string().as_bytes());
        if i == 0 {
            exp.push(b'F');
        }
        if i + 1 == n {
            exp.push(b'L');
        }
        exp.push(b';');
    }
    exp.push(b']');
    let mut e = env::engine();
    e.add_template("i", "{{ k }}{{ x }}{{ loop.index }}{% if loop.first %}F{% endif %}{% if loop.last %}L{% endif %};")
        .unwrap();
    match env::run(&e, src, &ctx) {
        Outcome::Ok(s) => {
            sym::check(s.as_bytes() == &exp[..], env::OUTPUT_DIFFERS);
            sym::observe(s.as_bytes());
            sym::reach(if n == 0 { 0 } else { 1 });
        }
        _ => sym::fail(env::FAILED_VALID),
    }
}

/// The same for items of every type.
/// params: form
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_loop_kinds() {
    let form = param(0);
    let n = sym::choose(4);
    let src = [
        "{% for x in c %}{{ x }}{{ loop.index }}{% if loop.first %}F{% endif %}{% if loop.last %}L{% endif %};{% endfor %}",
        "{% for x in c | id %}{{ x }}{{ loop.index }}{% if loop.first %}F{% endif %}{% if loop.last %}L{% endif %};{% endfor %}",
        "{% for k, x in c %}{{ x }}{{ loop.index }}{% if loop.first %}F{% endif %}{% if loop.last %}L{% endif %};{% endfor %}",
        "{% for k, x in c | id %}{{ x }}{{ loop.index }}{% if loop.first %}F{% endif %}{% if loop.last %}L{% endif %};{% endfor %}",
    ][form];
    let vals: Vec<Value> = (0..n)
        .map(|_| match sym::choose(6) {
            0 => Value::None,
            1 => Value::Bool(sym::bool()),
            2 => Value::Integer(0),
            3 => Value::from(""),
            4 => Value::List(vec![]),
            _ => Value::from([("x", Value::None)]),
        })
        .collect();
    let mut exp = String::new();
    for (i, v) in vals.iter().enumerate() {
        env::show(v, &mut exp);
        exp.push_str(&i.to_string());
        if i == 0 {
            exp.push('F');
        }
        if i + 1 == n {
            exp.push('L');
        }
        exp.push(';');
    }
    let c = if form >= 2 {
        Value::Map(vals.into_iter().enumerate().map(|(i, v)| (["", "k", "x"][i].to_owned(), v)).collect())
    } else {
        Value::List(vals)
    };
    let ctx = Value::from([("c", c)]);
    note!(src, ctx);
    let (e, _) = env::total(env::engine(), env::model_env());
    match env::run(&e, src, &ctx) {
        Outcome::Ok(s) => {
            sym::check(s == exp, env::OUTPUT_DIFFERS);
            sym::reach(0);
        }
        _ => sym::fail(env::FAILED_VALID),
    }
}

/// The same for longer collections, around the given length.
/// params: form, length
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_loop_long() {
    let (form, n) = (param(0), param(1));
    let n = n + sym::choose(3);
    let src = [
        "{% for x in c %}{{ x }}{{ loop.index }}{% if loop.first %}F{% endif %}{% if loop.last %}L{% endif %};{% endfor %}",
        "{% for x in c | id %}{{ x }}{{ loop.index }}{% if loop.first %}F{% endif %}{% if loop.last %}L{% endif %};{% endfor %}",
        "{% for k, x in c %}{{ x }}{{ loop.index }}{% if loop.first %}F{% endif %}{% if loop.last %}L{% endif %};{% endfor %}",
        "{% for k, x in c | id %}{{ x }}{{ loop.index }}{% if loop.first %}F{% endif %}{% if loop.last %}L{% endif %};{% endfor %}",
    ][form];
    let vals = (0..n).map(|i| Value::Bool(i & 4 == 0));
    let c = if form >= 2 {
        Value::Map(vals.enumerate().map(|(i, v)| (format!("k{i:05}"), v)).collect())
    } else {
        Value::List(vals.collect())
    };
    let ctx = Value::from([("c", c)]);
    note!(src, n);
    let mut exp = String::new();
    for i in 0..n {
        exp.push_str(if i & 4 == 0 { "true" } else { "false" });
        exp.push_str(&i.to_string());
        if i == 0 {
            exp.push('F');
        }
        if i + 1 == n {
            exp.push('L');
        }
        exp.push(';');
    }
    match env::run(&env::engine(), src, &ctx) {
        Outcome::Ok(s) => {
            sym::check(s == exp, env::OUTPUT_DIFFERS);
            sym::reach(0);
        }
        _ => sym::fail(env::FAILED_VALID),
    }
}

/// Nested loops over lists and maps of any small length, borrowed and owned.
/// params: program
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_loop_nested() {
    let p = param(0);
    let src = [
        "{% for x in o %}{{ loop.index }}:{% for y in x %}{{ y }}{{ loop.index }}{% if loop.last %}!{% endif %}{% endfor %}{% if loop.last %}.{% endif %}{% endfor %}",
        "{% for x in o | id %}{% for y in x %}{{ y }}{% for x in o %}{{ loop.index }}{% endfor %}{% endfor %}{{ loop.index }}{% endfor %}",
        "{% for x in o %}{% for k, v in m %}{{ k }}{{ v }}{% for z in x | id %}{{ z }}{{ k }}{% endfor %}{% endfor %}{% endfor %}",
        "{% for k, v in m | id %}{% for k in o %}{% for k in k %}{{ k }}{{ v }}{% endfor %}{% endfor %}{{ k }}{% endfor %}",
        "{% for x in o %}{% if loop.first %}{% for y in x %}{{ y }}{% if y %}{% for z in o %}{{ loop.index }}{% endfor %}{% endif %}{{ loop.index }}{% endfor %}{% else %}-{% endif %}{% endfor %}",
        "{% for x in o %}{% include \"i\" %}{% for y in x %}{% include \"i\" with m %}{% endfor %}{{ loop.index }}{% endfor %}",
    ][p];
    let list = |c: u8| {
        let mut v = Vec::new();
        for i in 0..sym::choose(3) {
            v.push(Value::from(env::utf8(&[c + i as u8])));
        }
        Value::List(v)
    };
    let mut o = Vec::new();
    for i in 0..sym::choose(3) {
        o.push(list([b'a', b'd'][i]));
    }
    let mut m = std::collections::BTreeMap::new();
    for i in 0..sym::choose(3) {
        m.insert(["p", "q"][i].to_owned(), Value::from(["1", "2"][i]));
    }
    let ctx = Value::from([("o", Value::List(o)), ("m", Value::Map(m))]);
    note!(src, ctx);
    let set = [
        ("main", src.to_owned()),
        ("i", String::from("{% for x in o %}{{ loop.index }}{% endfor %}{{ p }}")),
    ];
    let (mut e, mut menv) = env::total(env::engine(), env::model_env());
    env::check_set(&mut e, &mut menv, &set, &ctx);
}

/// One variable for lists, two for maps, nothing else is iterable.
/// params: depth
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_loop_type() {
    let v = crate::p_total::value(param(0));
    let two = sym::bool();
    let owned = cfg!(feature = "filters") && sym::bool();
    let n = match (&v, two) {
        (Value::List(l), false) => Some(l.len()),
        (Value::Map(m), true) => Some(m.len()),
        _ => None,
    };
    let src = format!(
        "{{% for {} in a{} %}}.{{% endfor %}}",
        if two { "x, y" } else { "x" },
        if owned { " | id" } else { "" }
    );
    note!(src, v);
    let ctx = Value::from([("a", v)]);
    match (env::run(&env::engine(), &src, &ctx), n) {
        (Outcome::Ok(s), Some(n)) => {
            sym::check(s.len() == n, env::OUTPUT_DIFFERS);
            sym::reach(0)
        }
        (Outcome::Render(_), None) => sym::reach(1),
        (Outcome::Ok(_), None) => sym::fail(env::RENDERED_INVALID),
        (Outcome::Render(_), Some(_)) => sym::fail(env::FAILED_VALID),
        (Outcome::Compile(_), _) => sym::fail(env::REJECTED_VALID),
    }
}
