//! Formatters, writers, includes, the registry and the entry points.

use crate::env;
use crate::model::{self, Func};
use crate::p_value::same;
use crate::sym::{self, param};
use std::cell::UnsafeCell;
use std::io;
use upon::{fmt, Engine, EngineFn, Value, ValueAccess, ValueAccessOp, ValueMember};

pub struct Log(UnsafeCell<Vec<String>>);
unsafe impl Sync for Log {}
impl Log {
    const fn new() -> Self {
        Log(UnsafeCell::new(Vec::new()))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut Vec<String> {
        unsafe { &mut *self.0.get() }
    }
    fn push(&self, name: &str, v: &Value, args: &[&Value]) -> String {
        let mut s = String::from(name);
        s.push('(');
        env::show(v, &mut s);
        for a in args {
            s.push(';');
            env::show(a, &mut s);
        }
        s.push(')');
        self.get().push(s.clone());
        s
    }
}
/// What was called by the crate and by the reference.
pub static REAL: Log = Log::new();
pub static MODEL: Log = Log::new();

/// Functions with one-letter names, all of which log their calls: filters `f`,
/// `g` (one argument), `i`, and `e` which fails; formatters `m` and `n`, which
/// fails half way.
fn install(e: &mut Engine<'_>) {
    use std::fmt::Write;
    e.add_filter("f", |v: Value| REAL.push("f", &v, &[]));
    e.add_filter("g", |v: Value, a: Value| REAL.push("g", &v, &[&a]));
    e.add_filter("i", |v: Value| {
        REAL.push("i", &v, &[]);
        v
    });
    e.add_filter("e", |v: Value| -> Result<Value, String> { Err(REAL.push("e", &v, &[])) });
    e.add_formatter("m", |f: &mut fmt::Formatter<'_>, v: &Value| {
        REAL.push("m", v, &[]);
        f.write_char('<')?;
        fmt::default(f, v)?;
        f.write_str(">")?;
        Ok(())
    });
    e.add_formatter("n", |f: &mut fmt::Formatter<'_>, v: &Value| {
        f.write_str("half")?;
        Err(failure(v, REAL.push("n", v, &[])))
    });
}

/// An error with a message, or without one for strings and integers.
fn failure(v: &Value, message: String) -> fmt::Error {
    match v {
        Value::String(_) | Value::Integer(_) => fmt::Error::from(std::fmt::Error),
        _ => fmt::Error::from(message),
    }
}

fn funcs() -> Vec<(&'static str, Func)> {
    vec![
        ("f", Func::Filter(0, |v, _| Ok(Value::String(MODEL.push("f", &v, &[]))))),
        ("g", Func::Filter(1, |v, a| Ok(Value::String(MODEL.push("g", &v, &[&a[0]]))))),
        (
            "i",
            Func::Filter(0, |v, _| {
                MODEL.push("i", &v, &[]);
                Ok(v)
            }),
        ),
        (
            "e",
            Func::Filter(0, |v, _| {
                MODEL.push("e", &v, &[]);
                Err(())
            }),
        ),
        (
            "m",
            Func::Formatter(|out, v| {
                MODEL.push("m", v, &[]);
                out.push(b'<');
                model::default_format(out, v)?;
                out.push(b'>');
                Ok(())
            }),
        ),
        (
            "n",
            Func::Formatter(|out, v| {
                out.extend_from_slice(b"half");
                MODEL.push("n", v, &[]);
                Err(())
            }),
        ),
    ]
}

fn log_default(f: &mut fmt::Formatter<'_>, v: &Value) -> fmt::Result {
    REAL.push("d", v, &[]);
    env::default_esc(f, v)
}
fn mlog_default(out: &mut Vec<u8>, v: &Value) -> Result<(), ()> {
    MODEL.push("d", v, &[]);
    env::mdefault_esc(out, v)
}
fn no_default(_: &mut fmt::Formatter<'_>, v: &Value) -> fmt::Result {
    Err(failure(v, REAL.push("d", v, &[])))
}
fn mno_default(_: &mut Vec<u8>, v: &Value) -> Result<(), ()> {
    MODEL.push("d", v, &[]);
    Err(())
}

/// `A` to `C` are functions, `V` and `W` values.
const FORMATS: &[&str] = &[
    "x{{ V | A }}y",
    "x{{ V | A | B }}y",
    "{{ V | A | B | C }}",
    "{{ V | A: W }}{{ W | A }}",
    "{{ V | A: W | B }}",
    "{% if V | A %}y{{ V | B }}{% else %}n{% endif %}",
    "{% for x in V | A %}{{ x | B }};{{ x }}{% endfor %}",
    "{% with V | A as x %}{{ x | B }}{{ x }}{% endwith %}{{ V | A }}",
    "{% include \"t\" with V | A %}{{ W }}",
    "{{ V }}y{{ W | A }}z{{ V }}",
    "{{ V | A }}{{ V | B }}{{ V | A }}",
    "{% for x in l %}{% if x | A %}{{ x | B }}{% endif %}{% endfor %}",
    "{{ \"q\" | A: V, W }}{{ -5 | B }}",
    "{% if not V | A: W | B %}{{ W | C }}{% endif %}{{ V | C }}",
    "{{ true }}{{ V | A }}{{ \"\" }}{{ 7 | B }}{{ 0.5 }}{{ false | B }}",
];

fn format_context() -> Value {
    upon::value! {
        a: 1, s: "str", n: None, l: [1, "two", None], b: { c: "bc" }, f: 1.5, t: true, e: "",
    }
}

fn sub(t: &str, vals: &[u8], fns: &[u8]) -> Vec<u8> {
    let mut v = [None; 128];
    t.bytes()
        .map(|c| {
            let set = match c {
                b'A'..=b'C' => fns,
                b'V' | b'W' => vals,
                c => return c,
            };
            *v[usize::from(c)].get_or_insert_with(|| sym::of(set))
        })
        .collect()
}

/// Every emitted value goes through the right formatter exactly once, and
/// functions are called in order, once.
/// params: program, default formatter, values
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_format() {
    let (p, d, vals) = (param(0), param(1), param(2));
    let src = sub(FORMATS[p], [&b"asnlbfte"[..], b"asl"][vals], b"fgiemnu");
    let src = env::respace(&src, sym::choose(3));
    let src = env::utf8(&src);
    note!(src);
    let ctx = format_context();
    let mut e = Engine::new();
    install(&mut e);
    let mut menv = model::Env::new();
    menv.funcs = funcs();
    match d {
        0 => {}
        1 => {
            e.set_default_formatter(&log_default);
            menv.default = mlog_default;
        }
        _ => {
            e.set_default_formatter(&no_default);
            menv.default = mno_default;
        }
    }
    REAL.get().clear();
    MODEL.get().clear();
    let set = [("main", src.to_owned()), ("t", String::from("[{{ c | m }}{{ c }}]"))];
    env::check_set(&mut e, &mut menv, &set, &ctx);
    let (r, m) = (REAL.get(), MODEL.get());
    sym::check(r.len() == m.len(), 20);
    for i in 0..r.len() {
        sym::check(r[i].as_bytes() == m[i].as_bytes(), 21);
    }
}

/// The default formatter on any scalar, as itself, through `fmt::default`, in
/// a loop and as a key.
/// params: form
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_default_format() {
    let form = param(0);
    let (v, exp) = match sym::choose(6) {
        0 => (Value::None, Vec::new()),
        1 => {
            let b = sym::bool();
            (Value::Bool(b), if b { b"true".to_vec() } else { b"false".to_vec() })
        }
        2 => {
            // Every three-digit integer, by its digits.
            let d = [sym::of(b"0123456789"), sym::of(b"0123456789"), sym::of(b"123456789")];
            let neg = sym::bool();
            let n = d.iter().rev().fold(0i64, |n, d| {
                sym::conc(usize::from(*d));
                n * 10 + i64::from(d - b'0')
            });
            let mut s: Vec<u8> = if neg { vec![b'-'] } else { vec![] };
            s.extend(d.iter().rev());
            (Value::Integer(if neg { -n } else { n }), s)
        }
        3 => {
            let (i, s) = [
                (i64::MAX, "9223372036854775807"),
                (i64::MIN, "-9223372036854775808"),
                (0, "0"),
                (-1, "-1"),
                (10_000_000_000, "10000000000"),
                (4_294_967_296, "4294967296"),
            ][sym::choose(6)];
            (Value::Integer(i), s.as_bytes().to_vec())
        }
        4 => {
            let (f, s) = [
                (0.5, "0.5"),
                (1.0, "1"),
                (-0.0, "-0"),
                (1e21, "1000000000000000000000"),
                (0.1, "0.1"),
                (f64::NAN, "NaN"),
                (f64::INFINITY, "inf"),
                (-1.5e-7, "-0.00000015"),
            ][sym::choose(8)];
            (Value::Float(f), s.as_bytes().to_vec())
        }
        _ => {
            let s = crate::p_total::hole(0, 2);
            (Value::String(env::utf8(&s).to_owned()), s)
        }
    };
    note!(v);
    let src = ["{{ a }}", "{{ a | p }}", "{% for x in l %}{{ x }}{% endfor %}", "{{ a | i }}", "{{ l.0 | i | p }}"][form];
    let mut e = Engine::new();
    install(&mut e);
    e.add_formatter("p", fmt::default);
    let ctx = Value::from([("l", Value::List(vec![v.clone()])), ("a", v)]);
    match env::run(&e, src, &ctx) {
        env::Outcome::Ok(s) => {
            sym::check(s.as_bytes() == &exp[..], env::OUTPUT_DIFFERS);
            sym::observe(s.as_bytes());
            sym::reach(0);
        }
        _ => sym::fail(env::FAILED_VALID),
    }
}

////////////////////////////////////////////////////////////////////////////////
// Writers

struct Faulty {
    out: Vec<u8>,
    calls: usize,
    from: usize,
    to: usize,
    failed: Option<io::ErrorKind>,
    simple: bool,
    os: bool,
    after: bool,
}

#[derive(Debug)]
struct Disk;
impl std::fmt::Display for Disk {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("disk")
    }
}
impl std::error::Error for Disk {}

impl io::Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.failed.is_some() {
            self.after = true;
        }
        let i = self.calls;
        self.calls += 1;
        if i >= self.from && i < self.to && !b.is_empty() && self.failed.is_none() {
            match sym::choose(7) {
                // A short write.
                1 => {
                    let mut n = 1 + sym::choose(if b.len() < 4 { b.len() } else { 4 });
                    // All but one of many.
                    if b.len() > 99 && n == 4 {
                        n = b.len() - 1;
                    }
                    let n = if n > b.len() { b.len() } else { n };
                    self.out.extend_from_slice(&b[..n]);
                    return Ok(n);
                }
                2 => return Err(io::Error::from(io::ErrorKind::Interrupted)),
                3 => {
                    self.failed = Some(io::ErrorKind::Other);
                    return Err(io::Error::new(io::ErrorKind::Other, Disk));
                }
                4 => {
                    self.failed = Some(io::ErrorKind::WriteZero);
                    return Ok(0);
                }
                5 => {
                    use io::ErrorKind::*;
                    const KINDS: &[io::ErrorKind] = &[
                        BrokenPipe, WouldBlock, TimedOut, UnexpectedEof, NotFound, PermissionDenied, ConnectionRefused,
                        ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, AlreadyExists,
                        InvalidInput, InvalidData, WriteZero, Unsupported, OutOfMemory, Other,
                    ];
                    let kind = KINDS[sym::choose(KINDS.len())];
                    self.failed = Some(kind);
                    self.simple = true;
                    return Err(io::Error::from(kind));
                }
                6 => {
                    // No space left on the device.
                    let err = io::Error::from_raw_os_error(28);
                    self.failed = Some(err.kind());
                    self.os = true;
                    return Err(err);
                }
                _ => {}
            }
        }
        self.out.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

const WRITES: &[&str] = &[
    "raw text only",
    "{{ a }}{{ s }}",
    "x{{ s | m }}y{{ a }}",
    "{% for x in l %}{{ x }},{% endfor %}end",
    "{% if a %}{% include \"t\" %}{% endif %}{% include \"t\" with b %}-",
    "{{ s | f }}{{ a | nofn }}z",
    "abc{{ b }}def",
    "{{ s | n }}z",
    "\u{e9}{{ u }}\u{4e16}{{ u | m }}",
    "{{ a | e }}",
    "a{% with s as x %}{{ x }}{{ x | i | m }}{% endwith %}{{ l.9 }}b",
    "{{ big }}BIG{{ big | m }}BIG{{ s }}",
    "{{ s | f }}",
    "{{ a | g: s }}{{ \"lit\" }}{{ 15 }}{{ true }}{{ s | i | f }}",
    "{% for k, v in b %}{{ k }}={{ v | i }};{% endfor %}{{ b?.zz }}{{ b.c }}",
    "{% if s %}{{ s | m }}{% else %}{{ a }}{% endif %}{% with l.1 as c %}{% include \"t\" %}{% endwith %}",
];

/// Whatever the writer does, what it received is a prefix of the text, all of
/// it exactly if rendering succeeds; its error is reported and ends the rendering.
/// params: program, first write that may fail, number of such writes, entry point
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_writer() {
    let (p, from, n, how) = (param(0), param(1), param(2), param(3));
    // Text beyond the size of any buffer.
    let big = "text \u{e9}".repeat(if p == 11 { 9000 } else { 0 });
    let ctx = upon::value! {
        a: 1, s: "str", l: [1, "two", None], b: { c: "bc" }, u: "\u{1F600}z", c: "C", big: big.as_str(),
    };
    let src = WRITES[p].replace("BIG", &big);
    let mut e = Engine::new();
    install(&mut e);
    e.add_template("t", "[{{ c }}]").unwrap();
    e.add_template("main", src.clone()).unwrap();
    note!(WRITES[p]);
    let mut menv = model::Env::new();
    menv.funcs = funcs();
    let sx = model::Syntax::default();
    let t = model::parse(&sx, b"[{{ c }}]").unwrap_or_default();
    menv.templates.push(("t", &t));
    let m = model::parse(&sx, src.as_bytes()).unwrap_or_default();
    let (full, ok) = menv.render_prefix(&m, model::Globals::Value(&ctx));
    let mut w = Faulty { out: Vec::new(), calls: 0, from, to: from + n, failed: None, simple: false, os: false, after: false };
    let res = match how {
        0 => e.template("main").render_from(&ctx).to_writer(&mut w),
        1 => e.template("main").render(&ctx).to_writer(&mut w),
        2 => {
            let t = e.compile(src.clone()).unwrap();
            t.render_from(&e, &ctx).to_writer(&mut w)
        }
        _ => e
            .template("main")
            .render_from_fn(|path| lookup_fn(&ctx, path))
            .to_writer(&mut w),
    };
    sym::observe(&w.out);
    sym::check(full.starts_with(&w.out[..]), 30);
    sym::check(!w.after, 31);
    match (res, w.failed) {
        (Ok(()), None) => {
            sym::check(ok.is_ok(), 32);
            sym::check(w.out == full, 33);
            sym::reach(0);
        }
        (Ok(()), Some(_)) => sym::fail(34),
        (Err(err), Some(kind)) => {
            sym::check(format!("{err}") == "io error", 35);
            match std::error::Error::source(&err).and_then(|s| s.downcast_ref::<io::Error>()) {
                Some(i) => {
                    sym::check(i.kind() == kind, 36);
                    sym::check(!w.os || i.raw_os_error() == Some(28), 41);
                    if kind == io::ErrorKind::Other && !w.simple {
                        sym::check(i.get_ref().map_or(false, |d| d.is::<Disk>()), 37);
                    }
                }
                None => sym::fail(38),
            }
            sym::reach(1);
        }
        (Err(err), None) => {
            sym::check(ok.is_err(), 39);
            sym::check(std::error::Error::source(&err).is_none(), 40);
            sym::reach(2);
        }
    }
}

////////////////////////////////////////////////////////////////////////////////
// Includes

/// The maximum is exact for large ones too.
/// params: maximum, form, who sets the maximum
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_include_deep() {
    let (max, form, who) = (param(0), param(1), param(2));
    // How many templates are nested.
    let k = max - 1 + sym::choose(3);
    let left = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(k - 1));
    let done = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let (l, d) = (left.clone(), done.clone());
    let mut e = Engine::new();
    use std::sync::atomic::Ordering::Relaxed;
    e.add_filter("more", move |_: Value| {
        let n = l.load(Relaxed);
        if n > 0 {
            l.store(n - 1, Relaxed);
        }
        n > 0
    });
    e.add_filter("done", move |v: Value| {
        d.store(d.load(Relaxed) + 1, Relaxed);
        v
    });
    e.add_filter("scope", |_: Value| upon::value! { c: "x", o: 1 });
    let src = [
        "{% if o | more %}{% include \"a\" %}{% endif %}{{ c | done }}",
        "{% if o | more %}{% include \"a\" with o | scope %}{% endif %}{{ c | done }}",
        "{% for x in l %}{% if o | more %}{% include \"b\" %}{% endif %}{% endfor %}{{ c | done }}",
    ][form];
    e.add_template("a", src).unwrap();
    e.add_template("b", src.replace("\"b\"", "\"a\"")).unwrap();
    if who == 0 {
        e.set_max_include_depth(max);
    }
    note!(src, k);
    let ctx = upon::value! { c: "x", l: [1], o: 1 };
    let t = e.template("a");
    let r = t.render_from(&ctx);
    let r = if who == 0 { r } else { r.with_max_include_depth(max) };
    match r.to_string() {
        Ok(s) => {
            sym::check(k <= max, 50);
            sym::check(s.len() == k && done.load(Relaxed) == k, 51);
            sym::reach(0);
        }
        Err(err) => {
            sym::check(k > max, 52);
            sym::check(format!("{err}").len() > 0 && done.load(Relaxed) == 0, 53);
            sym::reach(1);
        }
    }
}

const CHAIN: [&str; 6] = ["t0", "t1", "t2", "t3", "t4", "t5"];

/// Includes are allowed up to the configured depth, however they are written
/// and however often; includes that are not nested do not add up.
/// params: form, who sets the maximum
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_include_depth() {
    let (form, who) = (param(0), param(1));
    let k = 1 + sym::choose(5);
    let max = sym::choose(7);
    let (open, close, times) = [
        ("{% include \"", "\" %}", 1),
        ("{% include \"", "\" with o %}", 1),
        ("{% for x in l %}{% include \"", "\" %}{% endfor %}", 2),
        ("{% if o %}{% include \"", "\" with o %}{% endif %}", 1),
        ("{% with o as w %}{% include \"", "\" %}{% endwith %}", 1),
        ("{% for x in l %}{% include \"", "\" with o %}{% endfor %}", 2),
        // A scope that contains itself: only the depth bounds a cycle.
        ("{% with 1 as o %}{% include \"", "\" with o %}{% endwith %}", 1),
    ][form];
    let cycle = sym::bool();
    let mut e = Engine::new();
    let mut exp = String::new();
    for i in 0..k {
        let next = if i + 1 < k {
            CHAIN[i + 1]
        } else if cycle {
            CHAIN[sym::choose(k)]
        } else {
            ""
        };
        let src = if next.is_empty() {
            String::from("end")
        } else {
            format!("{i}{open}{next}{close};")
        };
        e.add_template(CHAIN[i], src).unwrap();
    }
    for i in (0..k).rev() {
        exp = if i + 1 == k {
            String::from("end")
        } else {
            format!("{i}{};", exp.repeat(times))
        };
    }
    note!(max, e);
    let ctx = upon::value! { o: { l: [1, 2], o: { l: [1, 2], o: { l: [3, 4], o: { l: [5, 6], o: { l: [7, 8], o: 1 } } } } }, l: [0, 0] };
    if who & 1 == 1 {
        e.set_max_include_depth(if who == 3 { 6 - max } else { max });
    }
    let r = e.template("t0").render_from(&ctx);
    let r = if who & 2 == 2 { r.with_max_include_depth(max) } else { r };
    let limit = if who == 0 { 64 } else { max };
    match r.to_string() {
        Ok(s) => {
            sym::check(!cycle && (k == 1 || k <= limit), 50);
            sym::check(s == exp, 51);
            sym::observe(s.as_bytes());
            sym::reach(0);
        }
        Err(err) => {
            // A cycle that runs out of scopes before it runs out of depth is an
            // error as well.
            sym::check(cycle || k > limit, 52);
            let d = format!("{err}");
            if !cycle {
                sym::check(d == format!("render error: reached maximum include depth ({limit})"), 53);
            }
            sym::reach(1);
        }
    }
}

/// Includes are resolved by the template function, if there is one, with the
/// exact name, each time they are rendered, in order.
/// params: program
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_template_fn() {
    let p = param(0);
    let with_fn = sym::bool();
    let t = [
        "{% include \"A\" %}{% include \"B\" %}",
        "{% for x in l %}{% include \"A\" %}{% endfor %}{% include \"B\" with b %}",
        "{% if a %}{% include \"A\" with b %}{% else %}{% include \"B\" %}{% endif %}",
        "{% with \"q\" as c %}{% include \"A\" %}{% endwith %}{% include \"BA\" %}",
        "{% include \"C\" %}{% include \"A\\n\" %}",
        "{% for k, c in w %}{% include \"A\" %}{% endfor %}{% include \"\" %}",
        "{% include \"xA\" %}{% include \"xAB\" %}",
        "{% include \"AB\" %}{% include \"A\" with b %}",
    ][p];
    let src = sub(t, b"", if p >= 6 { b"x ./X-" } else { b"xyzw" });
    let src = env::utf8(&src);
    note!(src, with_fn);
    // Different templates under the same names in the engine.
    let inner = [("x", "1x{{ c }}"), ("y", "1y{% include \"x\" %}"), ("xx", "1xx"), ("", "empty"), ("y\n", "nl"), ("x ", "sp"), ("x x", "xsx"), ("./x", "ds"), (" x", "ps")];
    let outer = [("x", "2x{{ c }}"), ("z", "2z{% include \"x\" with b %}"), ("y", "2y{% include \"z\" %}"), ("zx", "2zx"), ("x\n", "nl2"), (" ", "2sp"), ("x x", "2xsx"), ("x.x", "2xdx"), ("x.", "2xd"), ("X ", "2Xs"), ("/x", "2sx"), ("x-", "2xm")];
    let mut e = Engine::new();
    for (n, s) in outer {
        e.add_template(n, s).unwrap();
    }
    e.add_template("main", src.to_owned()).unwrap();
    let compiled: Vec<_> = inner.iter().map(|(n, s)| (*n, e.compile(*s).unwrap())).collect();
    let sx = model::Syntax::default();
    let parsed: Vec<_> = if with_fn { &inner[..] } else { &outer[..] }
        .iter()
        .map(|(n, s)| (*n, model::parse(&sx, s.as_bytes()).unwrap_or_default()))
        .collect();
    let mut menv = model::Env::new();
    for (n, t) in &parsed {
        menv.templates.push((n, t));
    }
    let ctx = upon::value! { a: 1, b: { c: "bc", b: { c: "bbc" } }, c: "C", l: [1, 2], w: { p: 1, q: 2 } };
    let main = model::parse(&sx, src.as_bytes()).unwrap_or_default();
    let exp = menv.render(&main, model::Globals::Value(&ctx));
    let mut names: Vec<String> = Vec::new();
    let r = e.template("main").render_from(&ctx);
    let real = if with_fn {
        r.with_template_fn(|n| {
            names.push(n.to_owned());
            match compiled.iter().find(|(m, _)| *m == n) {
                Some((_, t)) => Ok(t),
                None => Err(format!("no {n}")),
            }
        })
        .to_string()
    } else {
        r.to_string()
    };
    match (real, exp) {
        (Ok(s), Ok(x)) => {
            sym::check(s.as_bytes() == &x[..], env::OUTPUT_DIFFERS);
            sym::observe(s.as_bytes());
            sym::reach(0);
        }
        (Err(err), Err(())) => {
            let d = format!("{err}");
            if with_fn {
                let last = names.last().map(|s| s.as_str()).unwrap_or_default();
                let missing = !inner.iter().any(|(n, _)| *n == last);
                sym::check(!missing || d == format!("render error: no {last}"), 60);
            }
            sym::reach(1);
        }
        (Ok(_), Err(())) => sym::fail(env::RENDERED_INVALID),
        (Err(_), Ok(_)) => sym::fail(env::FAILED_VALID),
    }
    let want = menv.included.borrow();
    if with_fn {
        sym::check(names.len() == want.len(), 61);
        for i in 0..names.len() {
            sym::check(names[i].as_bytes() == want[i].as_bytes(), 62);
        }
    }
}

/// Any character of `n` bytes.
fn character(n: usize) -> Vec<u8> {
    let v = sym::vec(n);
    match n {
        0 => return v,
        1 => sym::assume(v[0] < 0x80),
        2 => sym::assume(v[0] >= 0xc2 && v[0] < 0xe0),
        // Without the ranges that need more care.
        3 => sym::assume(v[0] > 0xe0 && v[0] < 0xf0 && v[0] != 0xed),
        _ => sym::assume(v[0] > 0xf0 && v[0] < 0xf4),
    }
    for b in v.iter().skip(1) {
        sym::assume(*b & 0xc0 == 0x80);
    }
    v
}

/// An include finds the template of exactly the name that is written, whatever
/// characters it is made of.
/// params: bytes of the name included, of the registered name, with a function
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_include_name() {
    let (n, m, how) = (param(0), param(1), param(2));
    // One character with a letter before or after it.
    let one = |n: usize| -> Vec<u8> {
        let mut v = if sym::bool() { b"x".to_vec() } else { vec![] };
        v.extend(character(n));
        if sym::bool() {
            v.push(b'x');
        }
        v
    };
    let (a, b) = (one(n), one(m));
    for c in &a {
        sym::assume(*c != b'"' && *c != b'\\' && *c != b'\n' && *c != b'\r');
    }
    let mut src = b"{% include \"".to_vec();
    src.extend_from_slice(&a);
    src.extend_from_slice(if how == 2 { b"\" with m %}" } else { b"\" %}" });
    src.extend_from_slice(b"{{ 1 }};");
    let (a, b) = (env::utf8(&a), env::utf8(&b));
    let src = env::utf8(&src);
    note!(src, b);
    let mut e = Engine::new();
    e.add_template(b, "found").unwrap();
    let t = e.compile(src).unwrap();
    let other = e.compile("other").unwrap();
    let ctx = upon::value! { m: {} };
    let r = t.render_from(&e, &ctx);
    let mut calls = 0;
    let mut exact = true;
    let real = if how == 1 {
        r.with_template_fn(|name| {
            calls += 1;
            exact = exact && name.as_bytes() == a.as_bytes();
            if name.as_bytes() == b.as_bytes() {
                Ok(&other)
            } else {
                Err(String::from("none"))
            }
        })
        .to_string()
    } else {
        r.to_string()
    };
    if how == 1 {
        sym::check(calls == 1 && exact, 70);
    }
    match real {
        Ok(s) => {
            sym::check(a.as_bytes() == b.as_bytes(), 71);
            sym::check(s == if how == 1 { "other1;" } else { "found1;" }, 72);
            sym::reach(0);
        }
        Err(err) => {
            sym::check(a.as_bytes() != b.as_bytes(), 73);
            sym::check(format!("{err}").starts_with("render error: "), 74);
            sym::reach(1);
        }
    }
}

////////////////////////////////////////////////////////////////////////////////
// The registry

/// Any history of changes: what is registered is what was added last and not
/// removed, and a failed addition changes nothing.
/// params: number of operations, operations allowed
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_registry() {
    let (n, set) = (param(0), param(1));
    let mut e = Engine::new();
    let mut templates: [Option<&str>; 2] = [None; 2];
    let mut functions: [Option<(EngineFn, &str)>; 2] = [None; 2];
    let tnames = ["t", "tt"];
    let fnames = ["f", "ff"];
    let probe = e.compile("{{ 1 | f }}").unwrap();
    let probes = ["{{ 1 | f }}", "{{ 1 | ff }}"];
    for step in 0..n {
        let op = match set {
            0 => sym::choose(4),
            1 => [2, 4, 5, 6, 7][sym::choose(5)],
            _ => sym::choose(8),
        };
        let i = sym::choose(2);
        let odd = step % 2 == 1;
        match op {
            0 | 1 => {
                let src = if op == 0 { "zero{{ a }}" } else { "one" };
                let r = if odd {
                    e.add_template(tnames[i].to_owned(), src.to_owned())
                } else {
                    e.add_template(tnames[i], src)
                };
                sym::check(r.is_ok(), 70);
                templates[i] = Some(src);
            }
            2 => {
                let r = e.add_template(tnames[i], "bad {{ ");
                sym::check(r.is_err(), 71);
            }
            3 => {
                let was = e.remove_template(tnames[i]);
                sym::check(was == templates[i].is_some(), 72);
                templates[i] = None;
            }
            4 | 5 => {
                let (old, t) = if op == 4 {
                    (e.add_filter(fnames[i], |_: i64| "F4"), "F4")
                } else {
                    (e.add_filter(fnames[i].to_owned(), |_: i64| "F5"), "F5")
                };
                sym::check(old == functions[i].map(|f| f.0), 73);
                functions[i] = Some((EngineFn::Filter, t));
            }
            6 => {
                let old = e.add_formatter(fnames[i], |f: &mut fmt::Formatter<'_>, _: &Value| {
                    use std::fmt::Write;
                    f.write_str("FF")?;
                    Ok(())
                });
                sym::check(old == functions[i].map(|f| f.0), 74);
                functions[i] = Some((EngineFn::Formatter, "FF"));
            }
            _ => {
                let old = e.remove_function(fnames[i]);
                sym::check(old == functions[i].map(|f| f.0), 75);
                functions[i] = None;
            }
        }
        check_registry(&e, &templates, &functions, &tnames, &probes);
    }
    // Functions are resolved when rendering.
    match (probe.render_from(&e, &Value::None).to_string(), functions[0]) {
        (Ok(s), Some((_, t))) => {
            sym::check(s == t, 76);
            sym::reach(0)
        }
        (Err(_), None) => sym::reach(1),
        _ => sym::fail(77),
    }
    sym::observe(&[templates[0].is_some() as u8, templates[1].is_some() as u8]);
}

fn check_registry(
    e: &Engine<'_>,
    templates: &[Option<&str>; 2],
    functions: &[Option<(EngineFn, &str)>; 2],
    tnames: &[&str; 2],
    probes: &[&str; 2],
) {
    let ctx = Value::from([("a", 5)]);
    for i in 0..2 {
        match (e.get_template(tnames[i]), templates[i]) {
            (None, None) => {}
            (Some(t), Some(src)) => {
                sym::check(t.source() == src, 78);
                let want = if src == "one" { "one" } else { "zero5" };
                match t.render_from(&ctx).to_string() {
                    Ok(s) => sym::check(s == want, 79),
                    Err(_) => sym::fail(80),
                }
                let inc = e.compile(format!("<{{% include \"{}\" %}}>", tnames[i])).unwrap();
                match inc.render_from(e, &ctx).to_string() {
                    Ok(s) => sym::check(s == format!("<{want}>"), 81),
                    Err(_) => sym::fail(82),
                }
            }
            _ => sym::fail(83),
        }
        let t = e.compile(probes[i]).unwrap();
        match (t.render_from(e, &ctx).to_string(), functions[i]) {
            (Ok(s), Some((_, t))) => sym::check(s == t, 84),
            (Err(err), None) => {
                sym::check(format!("{err}") == "render error: unknown filter or formatter", 85)
            }
            _ => sym::fail(86),
        }
    }
}

////////////////////////////////////////////////////////////////////////////////
// Entry points

/// Resolves a path as the crate documents it for values.
fn lookup_fn(ctx: &Value, path: &[ValueMember<'_>]) -> Result<Value, String> {
    let p: Vec<(bool, model::Acc)> = path
        .iter()
        .map(|m| {
            (
                m.op == ValueAccessOp::Optional,
                match m.access {
                    ValueAccess::Index(i) => model::Acc::Index(i),
                    ValueAccess::Key(k) => model::Acc::Key(k.to_owned()),
                },
            )
        })
        .collect();
    model::walk(ctx, &p).map_err(|()| String::from("nope"))
}

const ENTRIES: &[&str] = &[
    "{{ A }}{{ B#C }}",
    "{% for A in l %}{{ A }}{{ B }}{{ loop.index }}{% endfor %}",
    "{% for A, B in m %}{{ C }}{{ B#D }}{% endfor %}",
    "{% with A as B %}{{ C#D }}{% if B %}{{ A }}{% endif %}{% endwith %}",
    "{% include \"i\" %}{{ A }}{% include \"i\" with B %}",
    "{% if A %}{{ B | f }}{% else if C#D %}{{ A | nofn }}{% endif %}",
    "{{ A | g: B#C }}{{ l.0.a | m }}",
    "{% for x in A %}{% include \"i\" with x %}{% endfor %}{{ u.B }}",
    "{% with A | id as l %}{{ l.1#B }}{{ C }}{% endwith %}",
    "{% with A as b %}{% include \"r\" %}{% endwith %}{{ B }}",
    "{% for A, B in u %}{{- A }}={{ B -}} {% if not loop.last %},{% endif %}{% endfor %}{{ C }}",
    "{% for A in x %}{% for B in l %}{{ A }}{{ loop.index }}{% endfor %}{{ loop.first }}{{ B }}{% endfor %}{% if C %}{{ loop.index }}{% endif %}",
    "{% if not A#B %}{% with C as D %}{% include \"j\" with D %}{% endwith %}{% endif %}",
    "{{ A | h: B, C | m }}{{ \"é\\n\" | g: -1.5 }}{{ D }}",
    "{% with m as A %}{% with A.B as C %}{{ C.D }}{% endwith %}{{ C }}{% endwith %}{{ A }}",
    "{{ A?.10 }}{{ B?.007 }}{{ C?.4294967296 }}{% if D %}{{ D.18446744073709551615?.x }}{% endif %}",
    "{% if A %}{{ 1 }}{% else %}{% include \"none\" %}{% endif %}{% if B %}{{ B | mbad }}{% endif %}",
    "{% for A in B %}{% with loop as C %}{{ C.index }}{{ D }}{% endwith %}{% endfor %}",
    "{% include \"k\" %}{% with A as x %}{% include \"k\" %}{% endwith %}{% if B %}{{ B | bad }}{% endif %}",
];
const INCLUDED: [(&str, &str); 4] =
    [("i", "({{ a }}{{ x.0 }})"), ("j", "{{ x }}{{ a?.b }}"), ("r", "r{% if b?.a %}{% include \"r\" %}{% endif %}"), ("k", "{% for a in x %}{{ a }}{{ b?.a }}{% endfor %}")];

/// All ways to compile and render a template agree, and rendering twice gives
/// the same.
/// params: program, names, with a formatter that formats everything
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_entry() {
    let (p, names) = (param(0), param(1));
    let names: &[u8] = [&b"abx"[..], b"albmnx", b"albmnxui", b"albmnxuijk_"][names];
    let mut vars = [None; 128];
    let mut src: Vec<u8> = Vec::new();
    for c in ENTRIES[p].bytes() {
        match c {
            b'A'..=b'D' => src.push(*vars[usize::from(c)].get_or_insert_with(|| sym::of(names))),
            // Any access: by name or by position, optional or not.
            b'#' => {
                if sym::bool() {
                    src.push(b'?');
                }
                src.push(b'.');
                if sym::bool() {
                    src.push(sym::of(b"01"));
                    if sym::bool() {
                        src.push(b'?');
                    }
                    src.push(b'.');
                }
            }
            c => src.push(c),
        }
    }
    let src = env::utf8(&src);
    note!(src);
    let ctx = upon::value! {
        a: "aa", b: { a: "ba", x: [{ a: 1 }, 2] }, l: [{ a: "l0", x: [3] }, { b: "l1", a: 0, x: [[]] }], m: { a: { x: 1 }, b: { x: 2 } },
        u: { a: 1.5, b: true }, x: [1, 2], n: { b: "nb" }, i: 0,
    };
    let before = ctx.clone();
    let mut e = env::engine();
    if param(2) == 1 {
        e.set_default_formatter(&env::show_format);
    }
    for (n, s) in INCLUDED {
        e.add_template(n, s).unwrap();
    }
    e.add_template("main", src.to_owned()).unwrap();
    let t = e.compile(src).unwrap();
    let mine: Vec<_> = INCLUDED.iter().map(|(_, s)| e.compile(*s).unwrap()).collect();
    let get = |n: &str| match INCLUDED.iter().position(|(m, _)| *m == n) {
        Some(i) => Ok(&mine[i]),
        None => Err(String::from("unknown template")),
    };
    sym::check(t.source() == src && e.template("main").source() == src, 90);
    let r = e.template("main");
    let mut w = [Vec::new(), Vec::new(), Vec::new(), Vec::new(), Vec::new()];
    let results: [upon::Result<String>; 13] = [
        r.render_from(&ctx).to_string(),
        t.render_from(&e, &ctx).to_string(),
        r.render(&ctx).to_string(),
        t.render(&e, &ctx).to_string(),
        r.render_from(&ctx).to_string(),
        to_string(r.render_from(&ctx).to_writer(&mut w[0]), &w[0]),
        to_string(t.render_from(&e, &ctx).to_writer(&mut w[1]), &w[1]),
        to_string(r.render(ctx.clone()).to_writer(&mut w[2]), &w[2]),
        to_string(t.render(&e, &ctx).to_writer(&mut w[3]), &w[3]),
        // As is by default.
        r.render_from(&ctx).with_max_include_depth(64).to_string(),
        t.render(&e, &ctx).with_template_fn(get).to_string(),
        r.render(&ctx).with_max_include_depth(64).with_template_fn(get).to_string(),
        to_string(r.render_from(&ctx).with_template_fn(get).with_max_include_depth(64).to_writer(&mut w[4]), &w[4]),
    ];
    for i in 1..results.len() {
        match (&results[0], &results[i]) {
            (Ok(a), Ok(b)) => sym::check(a.as_bytes() == b.as_bytes(), 91),
            (Err(a), Err(b)) => {
                let (x, y) = (format!("{a}"), format!("{b}"));
                sym::check(x.as_bytes() == y.as_bytes(), 92);
                if i == 2 || i == 4 || i == 5 || i == 7 || i == 9 {
                    let (x, y) = (format!("{a:#}"), format!("{b:#}"));
                    sym::check(x.as_bytes() == y.as_bytes(), 93);
                }
            }
            _ => sym::fail(94),
        }
    }
    sym::check(same(&ctx, &before), 95);
    sym::check(t.source() == src && r.source() == src, 96);
    match &results[0] {
        Ok(s) => {
            sym::observe(s.as_bytes());
            sym::reach(0)
        }
        Err(_) => sym::reach(1),
    }
}

fn to_string(r: upon::Result<()>, w: &[u8]) -> upon::Result<String> {
    r.map(|()| env::utf8(w).to_owned())
}

/// Values from a function: it is called with exactly the path that was written,
/// for every use of a name that is not bound in the template, and only then; its
/// error is the reason of a render error.
/// params: program, names
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_value_fn() {
    let (p, names) = (param(0), param(1));
    let names: &[u8] = [&b"abx"[..], b"albmnx", b"albmnxui", b"albmnxuijk_"][names];
    let mut vars = [None; 128];
    let mut src: Vec<u8> = Vec::new();
    for c in ENTRIES[p].bytes() {
        match c {
            b'A'..=b'D' => src.push(*vars[usize::from(c)].get_or_insert_with(|| sym::of(names))),
            // Any access: by name or by position, optional or not.
            b'#' => {
                if sym::bool() {
                    src.push(b'?');
                }
                src.push(b'.');
                if sym::bool() {
                    src.push(sym::of(b"01"));
                    if sym::bool() {
                        src.push(b'?');
                    }
                    src.push(b'.');
                }
            }
            c => src.push(c),
        }
    }
    let src = env::utf8(&src);
    note!(src);
    let ctx = upon::value! {
        a: "aa", b: { a: "ba", x: [{ a: 1 }, 2] }, l: [{ a: "l0", x: [3] }, { b: "l1", a: 0, x: [[]] }], m: { a: { x: 1 }, b: { x: 2 } },
        u: { a: 1.5, b: true }, x: [1, 2], n: { b: "nb" }, i: 0,
    };
    let (mut e, mut menv) = env::total(env::engine(), env::model_env());
    let mut set = vec![("main", src.to_owned())];
    set.extend(INCLUDED.iter().map(|(n, s)| (*n, s.to_string())));
    for (n, s) in &set {
        e.add_template(*n, s.clone()).unwrap();
    }
    let seen = std::cell::RefCell::new(Vec::new());
    let want = std::cell::RefCell::new(Vec::new());
    let failed = std::cell::Cell::new(None);
    let f = |path: &[ValueMember<'_>]| {
        let n = seen.borrow().len();
        seen.borrow_mut().push(spell(path));
        let r = lookup_fn(&ctx, path);
        if r.is_err() {
            failed.set(Some(n));
        }
        r.map_err(|s| format!("{s} {n}"))
    };
    let mine: Vec<_> = INCLUDED.iter().map(|(_, s)| e.compile(*s).unwrap()).collect();
    let get = |n: &str| match INCLUDED.iter().position(|(m, _)| *m == n) {
        Some(i) => Ok(&mine[i]),
        None => Err(String::from("unknown template")),
    };
    let mut w = Vec::new();
    let real = match sym::choose(4) {
        0 => e.template("main").render_from_fn(f).to_string(),
        1 => e.compile(src).unwrap().render_from_fn(&e, f).to_string(),
        2 => {
            let t = e.compile(src).unwrap();
            let r = t.render_from_fn(&e, f).with_template_fn(get).to_writer(&mut w);
            to_string(r, &w)
        }
        _ => {
            let r = e.template("main").render_from_fn(f).with_template_fn(get).to_writer(&mut w);
            to_string(r, &w)
        }
    };
    // The function's error ends the rendering and is what is reported.
    if let Some(n) = failed.get() {
        sym::check(n + 1 == seen.borrow().len(), 99);
        match &real {
            Ok(_) => sym::fail(99),
            Err(e) => sym::check(format!("{e}") == format!("render error: nope {n}"), 99),
        }
    }
    let mf = |path: &model::Path| {
        let mut s = String::new();
        for (opt, a) in path {
            s.push_str(if *opt { "?." } else { "." });
            match a {
                model::Acc::Key(k) => s.push_str(k),
                model::Acc::Index(i) => s.push_str(&i.to_string()),
            }
        }
        want.borrow_mut().push(s);
        model::walk(&ctx, path)
    };
    let exp = env::expect_set(&mut menv, &set, |env, t| env.render(t, model::Globals::Fn(&mf)));
    let (seen, want) = (seen.into_inner(), want.into_inner());
    sym::check(seen.len() == want.len(), 97);
    for i in 0..seen.len() {
        sym::check(seen[i].as_bytes() == want[i].as_bytes(), 98);
    }
    let real = match real {
        Ok(s) => env::Outcome::Ok(s),
        Err(err) => env::Outcome::Render(err),
    };
    env::compare(&real, &exp);
}

fn spell(path: &[ValueMember<'_>]) -> String {
    let mut s = String::new();
    for m in path {
        s.push_str(match m.op {
            ValueAccessOp::Optional => "?.",
            ValueAccessOp::Direct => ".",
        });
        match m.access {
            ValueAccess::Key(k) => s.push_str(k),
            ValueAccess::Index(i) => s.push_str(&i.to_string()),
        }
    }
    s
}

/// The same with any names: those used by the operations are symbolic, and so
/// is the one that is looked up in the end.
/// params: number of operations, templates or functions, length of names
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_registry_names() {
    let (n, kind, len) = (param(0), param(1), param(2));
    let mut e = Engine::new();
    let mut names: Vec<Vec<u8>> = Vec::new();
    let mut state: Vec<Option<usize>> = Vec::new();
    let name = || -> Vec<u8> {
        if kind == 2 {
            return character(len);
        }
        let l = if len == 0 { sym::choose(3) } else { len };
        (0..l)
            .map(|_| {
                let b = sym::u8();
                sym::assume(if kind == 0 { b < 0x80 } else { b.wrapping_sub(b'a') < 26 });
                b
            })
            .collect()
    };
    let outputs = ["O0", "O1", "O2", "O3"];
    for step in 0..n {
        let nm = name();
        let s = env::utf8(&nm).to_owned();
        note!(s);
        // The last operation on this name decides.
        let prev = (0..names.len()).rev().find(|i| names[*i] == nm).map(|i| state[i]);
        let had = prev.unwrap_or(None);
        let remove = sym::bool();
        if kind != 1 {
            if remove {
                sym::check(e.remove_template(&s) == had.is_some(), 100);
            } else {
                sym::check(e.add_template(s, outputs[step]).is_ok(), 101);
            }
        } else {
            let old = if remove {
                e.remove_function(&s)
            } else {
                match step {
                    0 => e.add_filter(s, |_: i64| "O0"),
                    1 => e.add_filter(s, |_: i64| "O1"),
                    2 => e.add_filter(s, |_: i64| "O2"),
                    _ => e.add_filter(s, |_: i64| "O3"),
                }
            };
            sym::check(old == had.map(|_| EngineFn::Filter), 102);
        }
        names.push(nm);
        state.push(if remove { None } else { Some(step) });
    }
    let q = name();
    let s = env::utf8(&q);
    note!(s);
    let want = (0..names.len()).rev().find(|i| names[*i] == q).and_then(|i| state[i]);
    if kind != 1 {
        match (e.get_template(s), want) {
            (Some(t), Some(i)) => {
                sym::check(t.source() == outputs[i], 103);
                sym::reach(0)
            }
            (None, None) => sym::reach(1),
            _ => sym::fail(104),
        }
    } else if !matches!(&q[..], b"if" | b"in" | b"as") {
        let t = e.compile(format!("{{{{ 1 | {s} }}}}")).unwrap();
        match (t.render_from(&e, &Value::None).to_string(), want) {
            (Ok(r), Some(i)) => {
                sym::check(r == outputs[i], 106);
                sym::reach(0)
            }
            (Err(_), None) => sym::reach(1),
            _ => sym::fail(107),
        }
    }
}

/// Any history of settings of an engine: a template that was compiled before
/// them, by this engine or another one, is rendered with what was set last.
/// params: number of operations
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_config() {
    use std::fmt::Write;
    let n = param(0);
    let which = sym::choose(5);
    let src = ["{{ a }}", "{{ l }}", "{{ a | fun }}", "{% include \"i\" %}", "{% if a %}{% include \"k\" %}{% endif %}"][which];
    let other = Engine::new();
    let mut e = Engine::new();
    e.add_template("main", src).unwrap();
    let own = e.compile(src).unwrap();
    let foreign = other.compile(src).unwrap();
    // The state that is expected.
    let (mut default, mut depth, mut i, mut k, mut fun) = (0, 64, 0, false, 0);
    for _ in 0..n {
        match sym::choose(if cfg!(feature = "filters") { 13 } else { 12 }) {
            0 => {
                e.set_default_formatter(&env::show_format);
                default = 1;
            }
            1 => {
                e.set_default_formatter(&env::default_esc);
                default = 2;
            }
            2 => {
                e.set_default_formatter(&fmt::default);
                default = 0;
            }
            d @ 3..=5 => {
                e.set_max_include_depth(d - 2);
                depth = d - 2;
            }
            6 => {
                e.add_template("i", "I{{ a }}").unwrap();
                i = 1;
            }
            7 => {
                e.add_template("i", "J{% include \"k\" %}").unwrap();
                i = 2;
            }
            8 => {
                e.add_template("k", "K").unwrap();
                k = true;
            }
            9 => {
                sym::check(e.remove_template("i") == (i != 0), 110);
                i = 0;
            }
            10 => {
                e.add_formatter("fun", |f: &mut fmt::Formatter<'_>, _: &Value| -> fmt::Result {
                    f.write_str("fmt")?;
                    Ok(())
                });
                fun = 1;
            }
            11 => {
                sym::check(e.remove_function("fun").is_some() == (fun != 0), 111);
                fun = 0;
            }
            _ => {
                #[cfg(feature = "filters")]
                e.add_filter("fun", |_: Value| "flt");
                fun = 2;
            }
        }
    }
    let show = |s: &str| match default {
        2 => format!("({s})"),
        _ => s.to_owned(),
    };
    let want: Option<String> = match which {
        0 => Some(show("v")),
        1 => (default == 1).then(|| String::from("[1,]")),
        2 => match fun {
            0 => None,
            1 => Some(String::from("fmt")),
            _ => Some(show("flt")),
        },
        3 => match i {
            0 => None,
            1 => (depth >= 2).then(|| format!("I{}", show("v"))),
            _ => (depth >= 3 && k).then(|| String::from("JK")),
        },
        _ => (depth >= 2 && k).then(|| String::from("K")),
    };
    let ctx = upon::value! { a: "v", l: [1] };
    let mut w = Vec::new();
    let got = match sym::choose(4) {
        0 => own.render_from(&e, &ctx).to_string(),
        1 => foreign.render_from(&e, &ctx).to_string(),
        2 => e.template("main").render_from(&ctx).to_string(),
        _ => {
            let r = foreign.render_from(&e, &ctx).to_writer(&mut w);
            to_string(r, &w)
        }
    };
    match (got, want) {
        (Ok(s), Some(x)) => {
            sym::check(s == x, 112);
            sym::reach(0);
        }
        (Err(_), None) => sym::reach(1),
        _ => sym::fail(113),
    }
}
