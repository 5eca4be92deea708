//! The common engine configuration, built once for the real crate and once for
//! the reference model, and the comparison of their outcomes.

use crate::model::{self, Func};
use crate::sym;
use upon::{fmt, Engine, Value};

/// A total textual rendering of any value, used by the registered filters.
pub fn show(v: &Value, out: &mut String) {
    match v {
        Value::None => out.push_str("none"),
        Value::Bool(true) => out.push_str("true"),
        Value::Bool(false) => out.push_str("false"),
        Value::Integer(i) => out.push_str(&i.to_string()),
        Value::Float(f) => out.push_str(&f.to_string()),
        Value::String(s) => out.push_str(s),
        Value::List(l) => {
            out.push('[');
            for v in l {
                show(v, out);
                out.push(',');
            }
            out.push(']');
        }
        Value::Map(m) => {
            out.push('{');
            for (k, v) in m {
                out.push_str(k);
                out.push('=');
                show(v, out);
                out.push(',');
            }
            out.push('}');
        }
    }
}

fn call(name: &str, v: &Value, args: &[&Value]) -> String {
    let mut s = String::from(name);
    s.push('(');
    show(v, &mut s);
    for a in args {
        s.push(';');
        show(a, &mut s);
    }
    s.push(')');
    s
}

fn m_format(f: &mut fmt::Formatter<'_>, v: &Value) -> fmt::Result {
    use std::fmt::Write;
    f.write_char('<')?;
    fmt::default(f, v)?;
    f.write_str(">")?;
    Ok(())
}

fn mm_format(out: &mut Vec<u8>, v: &Value) -> Result<(), ()> {
    out.push(b'<');
    model::default_format(out, v)?;
    out.push(b'>');
    Ok(())
}

pub fn default_esc(f: &mut fmt::Formatter<'_>, v: &Value) -> fmt::Result {
    use std::fmt::Write;
    f.write_str("(")?;
    fmt::default(f, v)?;
    f.write_char(')')?;
    Ok(())
}

pub fn mdefault_esc(out: &mut Vec<u8>, v: &Value) -> Result<(), ()> {
    out.push(b'(');
    model::default_format(out, v)?;
    out.push(b')');
    Ok(())
}

/// Filters `f` (no arguments), `g` (one), `h` (two), `id`, the failing `bad`,
/// and the formatters `m` and `mbad`.
pub fn install(e: &mut Engine<'_>) {
    #[cfg(feature = "filters")]
    e.add_filter("f", |v: Value| call("f", &v, &[]));
    #[cfg(feature = "filters")]
    e.add_filter("g", |v: Value, a: Value| call("g", &v, &[&a]));
    #[cfg(feature = "filters")]
    e.add_filter("h", |v: Value, a: Value, b: Value| {
        call("h", &v, &[&a, &b])
    });
    #[cfg(feature = "filters")]
    e.add_filter("id", |v: Value| v);
    #[cfg(feature = "filters")]
    e.add_filter("bad", |_: Value| -> Result<Value, String> {
        Err(String::from("bad filter"))
    });
    e.add_formatter("m", m_format);
    e.add_formatter("mbad", |_: &mut fmt::Formatter<'_>, _: &Value| -> fmt::Result {
        Err(fmt::Error::from("bad formatter"))
    });
}

pub fn model_funcs() -> Vec<(&'static str, Func)> {
    let filters: Vec<(&'static str, Func)> = vec![
        ("f", Func::Filter(0, |v, _| Ok(Value::String(call("f", &v, &[]))))),
        ("g", Func::Filter(1, |v, a| Ok(Value::String(call("g", &v, &[&a[0]]))))),
        (
            "h",
            Func::Filter(2, |v, a| Ok(Value::String(call("h", &v, &[&a[0], &a[1]])))),
        ),
        ("id", Func::Filter(0, |v, _| Ok(v))),
        ("bad", Func::Filter(0, |_, _| Err(()))),
    ];
    let mut all: Vec<(&'static str, Func)> = vec![
        ("m", Func::Formatter(mm_format)),
        ("mbad", Func::Formatter(|_, _| Err(()))),
    ];
    if cfg!(feature = "filters") {
        all.extend(filters);
    }
    all
}

pub fn engine<'a>() -> Engine<'a> {
    let mut e = Engine::new();
    install(&mut e);
    e
}

pub fn show_format(f: &mut fmt::Formatter<'_>, v: &Value) -> fmt::Result {
    use std::fmt::Write;
    let mut s = String::new();
    show(v, &mut s);
    f.write_str(&s)?;
    Ok(())
}

fn mshow_format(out: &mut Vec<u8>, v: &Value) -> Result<(), ()> {
    let mut s = String::new();
    show(v, &mut s);
    out.extend_from_slice(s.as_bytes());
    Ok(())
}

/// Lets every value be formatted, so that values are told apart and not hidden
/// behind an error.
pub fn total<'a>(mut e: Engine<'a>, mut m: model::Env<'a>) -> (Engine<'a>, model::Env<'a>) {
    e.set_default_formatter(&show_format);
    m.default = mshow_format;
    (e, m)
}

pub fn model_env<'a>() -> model::Env<'a> {
    let mut e = model::Env::new();
    e.funcs = model_funcs();
    e
}

pub enum Outcome {
    Ok(String),
    Compile(upon::Error),
    Render(upon::Error),
}

pub fn run(e: &Engine<'_>, src: &str, ctx: &Value) -> Outcome {
    match e.compile(src) {
        Err(err) => Outcome::Compile(err),
        Ok(t) => match t.render_from(e, ctx).to_string() {
            Err(err) => Outcome::Render(err),
            Ok(s) => Outcome::Ok(s),
        },
    }
}

/// What the reference says: `Err(())` rejected, `Ok(Err(()))` a render error.
pub type Expected = Result<Result<Vec<u8>, ()>, ()>;

pub fn expect(sx: &model::Syntax, env: &model::Env<'_>, src: &[u8], ctx: &Value) -> Expected {
    let t = model::parse(sx, src)?;
    Ok(env.render(&t, model::Globals::Value(ctx)))
}

pub const ACCEPTED_INVALID: u32 = 1;
pub const REJECTED_VALID: u32 = 2;
pub const RENDERED_INVALID: u32 = 3;
pub const FAILED_VALID: u32 = 4;
pub const OUTPUT_DIFFERS: u32 = 5;

pub fn compare(real: &Outcome, exp: &Expected) {
    match (real, exp) {
        (Outcome::Compile(_), Err(())) => {
            sym::observe(b"rejected");
            sym::reach(1)
        }
        (_, Err(())) => sym::fail(ACCEPTED_INVALID),
        (Outcome::Compile(_), Ok(_)) => sym::fail(REJECTED_VALID),
        (Outcome::Ok(s), Ok(Ok(x))) => {
            sym::check(s.as_bytes() == &x[..], OUTPUT_DIFFERS);
            sym::observe(s.as_bytes());
            sym::reach(0)
        }
        (Outcome::Render(_), Ok(Err(()))) => {
            sym::observe(b"failed");
            sym::reach(2)
        }
        (Outcome::Ok(_), Ok(Err(()))) => sym::fail(RENDERED_INVALID),
        (Outcome::Render(_), Ok(Ok(_))) => sym::fail(FAILED_VALID),
    }
}

/// Compiles and renders `src` on both sides with the default syntax.
pub fn check_src(e: &Engine<'_>, env: &model::Env<'_>, src: &str, ctx: &Value) {
    let real = run(e, src, ctx);
    let exp = expect(&model::Syntax::default(), env, src.as_bytes(), ctx);
    compare(&real, &exp);
}

/// Same with named templates; renders `main`.
pub fn check_set(
    e: &mut Engine<'static>,
    env: &mut model::Env<'_>,
    set: &[(&'static str, String)],
    ctx: &Value,
) {
    let mut real = None;
    for (n, s) in set {
        if let Err(err) = e.add_template(*n, s.clone()) {
            real = Some(Outcome::Compile(err));
            break;
        }
    }
    let real = match real {
        Some(r) => r,
        None => match e.template("main").render_from(ctx).to_string() {
            Err(err) => Outcome::Render(err),
            Ok(s) => Outcome::Ok(s),
        },
    };
    let exp = expect_set(env, set, |env, t| env.render(t, model::Globals::Value(ctx)));
    compare(&real, &exp);
}

pub fn expect_set(
    env: &mut model::Env<'_>,
    set: &[(&'static str, String)],
    render: impl FnOnce(&model::Env<'_>, &[model::Stmt]) -> Result<Vec<u8>, ()>,
) -> Expected {
    let sx = model::Syntax::default();
    let mut parsed = Vec::new();
    for (n, s) in set {
        parsed.push((*n, model::parse(&sx, s.as_bytes())?));
    }
    let mut env = model::Env {
        included: Default::default(),
        funcs: std::mem::take(&mut env.funcs),
        default: env.default,
        templates: Vec::new(),
        max_depth: env.max_depth,
    };
    env.templates = parsed.iter().map(|(n, t)| (*n, &t[..])).collect();
    let main = env.templates.iter().find(|(n, _)| *n == "main").unwrap().1;
    Ok(render(&env, main))
}

/// The fixed context of the syntax harnesses.
pub fn context() -> Value {
    value! {
        a: 1,
        b: { c: 2, d: { e: "x" } },
        l: [10, 20],
        ll: [[1], [2, 3]],
        mp: { k: "v", q: 7 },
        s: "str",
        n: None,
        e: [],
    }
}

/// The same program with other blanks inside of its tags: as it is, without any
/// that can be left out, or with more.
pub fn respace(src: &[u8], style: usize) -> Vec<u8> {
    if style == 0 {
        return src.to_vec();
    }
    let word = |b: u8| b == b'_' || b == b'"' || b.is_ascii_alphanumeric();
    let mut out: Vec<u8> = Vec::new();
    let (mut tag, mut text) = (false, false);
    for (i, b) in src.iter().enumerate() {
        let next = src.get(i + 1).copied().unwrap_or(0);
        let prev = if i == 0 { 0 } else { src[i - 1] };
        if *b == b'"' && tag {
            text = !text;
        } else if !text && prev == b'{' && (*b == b'{' || *b == b'%') {
            tag = true;
        } else if !text && next == b'}' && (*b == b'}' || *b == b'%') {
            tag = false;
        }
        if tag && !text && *b == b' ' {
            if style == 1 {
                if word(prev) && (word(next) || next == b'-') {
                    out.push(b' ');
                }
            } else {
                out.extend_from_slice(b"\t ");
            }
            continue;
        }
        // Blanks around every operator.
        if style == 2 && tag && !text && (*b == b'|' || *b == b':' || *b == b',') {
            out.extend_from_slice(&[b' ', *b, b' ']);
            continue;
        }
        out.push(*b);
    }
    out
}

pub fn utf8(b: &[u8]) -> &str {
    match std::str::from_utf8(b) {
        Ok(s) => s,
        Err(_) => {
            sym::assume(false);
            ""
        }
    }
}
