//! Calls of filters: conversion of their arguments and results.

use crate::env;
use crate::p_value::same;
use crate::sym::{self, param};
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, HashMap};
use upon::{Engine, Value};

/// What the filters were called with.
struct Calls(UnsafeCell<Vec<Got>>);
unsafe impl Sync for Calls {}
static CALLS: Calls = Calls(UnsafeCell::new(Vec::new()));
fn calls() -> &'static mut Vec<Got> {
    unsafe { &mut *CALLS.0.get() }
}

#[derive(Clone)]
enum Got {
    Unit,
    Bool(bool),
    Int(i128),
    F32(u32),
    Val(Value),
}

fn same_got(a: &Got, b: &Got) -> bool {
    match (a, b) {
        (Got::Unit, Got::Unit) => true,
        (Got::Bool(x), Got::Bool(y)) => x == y,
        (Got::Int(x), Got::Int(y)) => x == y,
        (Got::F32(x), Got::F32(y)) => x == y,
        (Got::Val(x), Got::Val(y)) => same(x, y),
        _ => false,
    }
}

fn text(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        let b = sym::u8();
        sym::assume(b < 0x80);
        s.push_str(env::utf8(&[b]));
    }
    s
}

/// Any value, numbers unconstrained.
fn any() -> Value {
    match sym::choose(8) {
        0 => Value::None,
        1 => Value::Bool(sym::bool()),
        2 => Value::Integer(sym::i64()),
        3 => Value::Float(sym::f64()),
        4 => Value::String(text(2)),
        5 => Value::List(vec![]),
        6 => Value::List(vec![Value::Integer(sym::i64()), Value::from("tail")]),
        _ => Value::from([("k", sym::i64())]),
    }
}

/// Filters `t`, whose value is of type `ty`, and `u`, whose argument is.
fn typed(e: &mut Engine<'static>, ty: usize) {
    macro_rules! both {
        ($t:ty, $x:ident => $got:expr) => {{
            e.add_filter("t", |$x: $t| {
                calls().push($got);
                1i64
            });
            e.add_filter("u", |_: Value, $x: $t| {
                calls().push($got);
                1i64
            });
        }};
    }
    macro_rules! first {
        ($t:ty, $x:ident => $got:expr) => {{
            e.add_filter("t", |$x: $t| {
                calls().push($got);
                1i64
            });
        }};
    }
    match ty {
        0 => both!((), x => { let () = x; Got::Unit }),
        1 => both!(bool, x => Got::Bool(x)),
        2 => both!(u8, x => Got::Int(x as i128)),
        3 => both!(u16, x => Got::Int(x as i128)),
        4 => both!(u32, x => Got::Int(x as i128)),
        5 => both!(u64, x => Got::Int(x as i128)),
        6 => both!(u128, x => Got::Int(x as i128)),
        7 => both!(usize, x => Got::Int(x as i128)),
        8 => both!(i8, x => Got::Int(x as i128)),
        9 => both!(i16, x => Got::Int(x as i128)),
        10 => both!(i32, x => Got::Int(x as i128)),
        11 => both!(i64, x => Got::Int(x as i128)),
        12 => both!(isize, x => Got::Int(x as i128)),
        13 => both!(i128, x => Got::Int(x)),
        14 => both!(f32, x => Got::F32(x.to_bits())),
        15 => both!(f64, x => Got::Val(Value::Float(x))),
        16 => both!(String, x => Got::Val(Value::String(x))),
        17 => both!(&str, x => Got::Val(Value::String(x.to_owned()))),
        18 => both!(Vec<Value>, x => Got::Val(Value::List(x))),
        19 => both!(BTreeMap<String, Value>, x => Got::Val(Value::Map(x))),
        20 => both!(Value, x => Got::Val(x)),
        21 => first!(&[Value], x => Got::Val(Value::List(x.to_vec()))),
        22 => first!(&BTreeMap<String, Value>, x => Got::Val(Value::Map(x.clone()))),
        _ => first!(&Value, x => Got::Val(x.clone())),
    }
}

/// What a filter whose parameter is of type `ty` must receive for `v`.
fn received(ty: usize, v: &Value) -> Option<Got> {
    let int = |min: i128, max: i128| match v {
        Value::Integer(i) if *i as i128 >= min && *i as i128 <= max => Some(Got::Int(*i as i128)),
        _ => None,
    };
    let val = |c: bool| if c { Some(Got::Val(v.clone())) } else { None };
    match ty {
        0 => match v {
            Value::None => Some(Got::Unit),
            _ => None,
        },
        1 => match v {
            Value::Bool(b) => Some(Got::Bool(*b)),
            _ => None,
        },
        2 => int(0, u8::MAX as i128),
        3 => int(0, u16::MAX as i128),
        4 => int(0, u32::MAX as i128),
        5 | 6 | 7 => int(0, u64::MAX as i128),
        8 => int(i8::MIN as i128, i8::MAX as i128),
        9 => int(i16::MIN as i128, i16::MAX as i128),
        10 => int(i32::MIN as i128, i32::MAX as i128),
        11..=13 => int(i64::MIN as i128, i64::MAX as i128),
        14 => match v {
            Value::Float(f) => Some(Got::F32((*f as f32).to_bits())),
            _ => None,
        },
        15 => val(matches!(v, Value::Float(_))),
        16 | 17 => val(matches!(v, Value::String(_))),
        18 | 21 => val(matches!(v, Value::List(_))),
        19 | 22 => val(matches!(v, Value::Map(_))),
        _ => val(true),
    }
}

const FIRST: &[&str] = &[
    "{{ x | t }}",                                              // 0
    "{{ x | id | t }}",                                         // 1
    "{% with x | id as y %}{{ y | t }}{% endwith %}",           // 2
    "{{ b.c | t }}",                                            // 3
    "{% for y in l %}{{ y | t }}{% endfor %}",                  // 4
    "{% for y in l | id %}{{ y | t }}{% endfor %}",             // 5
    "{% with b | id as y %}{{ y.c | t }}{% endwith %}",         // 6
    "{% for k, y in b %}{{ y | t }}{% endfor %}",               // 7
    "{% include \"inc\" with x %}",                             // 8
];
const EXTRA: &[&str] = &[
    "{{ 0 | u: x }}",                                           // 0
    "{{ 0 | u: b.c }}",                                         // 1
    "{% for y in l %}{{ 0 | u: y }}{% endfor %}",               // 2
    "{% with x as y %}{{ 0 | u: y }}{% endwith %}",             // 3
    "{{ 0 | u: l.0 }}",                                         // 4
    // Owned values, which cannot be passed by reference.
    "{% with x | id as y %}{{ 0 | u: y }}{% endwith %}",        // 5
    "{% for y in l | id %}{{ 0 | u: y }}{% endfor %}",          // 6
    "{% with b | id as y %}{{ 0 | u: y.c }}{% endwith %}",      // 7
    "{% for k, y in b | id %}{{ 0 | u: y }}{% endfor %}",       // 8
];
const LITERALS: &[&str] = &[
    "true", "false", "0", "-1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535",
    "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807",
    "-9223372036854775808", "1.5", "-0.25", "\"\"", "\"s\\\"\"",
];
fn literal(k: usize) -> Value {
    match LITERALS[k] {
        "true" => Value::Bool(true),
        "false" => Value::Bool(false),
        "1.5" => Value::Float(1.5),
        "-0.25" => Value::Float(-0.25),
        "\"\"" => Value::String(String::new()),
        "\"s\\\"\"" => Value::String(String::from("s\"")),
        s => match s.parse::<i64>() {
            Ok(i) => Value::Integer(i),
            Err(_) => Value::None,
        },
    }
}

/// params: type of the parameter, 0 first / 1 extra / 2 either with literals, values from a function
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_arg() {
    let (ty, extra, func) = (param(0), param(1), param(2) == 1);
    let mut e = Engine::new();
    typed(&mut e, ty);
    e.add_filter("id", |v: Value| v);
    if e.add_template("inc", "{{ c | t }}").is_err() {
        return sym::fail(1);
    }
    let mut lenient = false;
    let (src, v) = match extra {
        0 => {
            let p = sym::choose(FIRST.len());
            (String::from(FIRST[p]), any())
        }
        1 => {
            let p = sym::choose(EXTRA.len());
            lenient = ty == 17 && (p >= 5 || func);
            (String::from(EXTRA[p]), any())
        }
        _ => {
            let k = sym::choose(LITERALS.len());
            let form = if ty > 20 { 0 } else { sym::choose(2) };
            let l = LITERALS[k];
            (if form == 0 { format!("{{{{ {l} | t }}}}") } else { format!("{{{{ 0 | u: {l} }}}}") }, literal(k))
        }
    };
    note!(src, v);
    let ctx = Value::from([
        ("x", v.clone()),
        ("b", Value::from([("c", v.clone())])),
        ("l", Value::List(vec![v.clone()])),
    ]);
    // An included template sees the value itself as its globals.
    let inc = src.as_bytes()[1] == b'%' && src.as_bytes()[3] == b'i';
    let (ctx, v) = if inc {
        (Value::from([("x", Value::from([("c", v.clone())]))]), v)
    } else {
        (ctx, v)
    };
    let want = received(ty, &v);
    let t = match e.compile(&*src) {
        Ok(t) => t,
        Err(_) => return sym::fail(2),
    };
    calls().clear();
    let got = if func {
        let ctx = &ctx;
        t.render_from_fn(&e, move |path| {
            let mut v = ctx.clone();
            for m in path {
                v = match (m.access.clone(), v) {
                    (upon::ValueAccess::Key(k), Value::Map(mut m)) => m.remove(k).ok_or("no")?,
                    (upon::ValueAccess::Index(i), Value::List(mut l)) if i < l.len() => l.swap_remove(i),
                    _ => return Err(String::from("no")),
                };
            }
            Ok(v)
        })
        .to_string()
    } else {
        t.render_from(&e, &ctx).to_string()
    };
    match (got, want) {
        (Ok(s), Some(w)) => {
            sym::check(s == "1", 3);
            sym::check(calls().len() == 1, 4);
            sym::check(calls().len() == 1 && same_got(&calls()[0], &w), 5);
            sym::reach(0);
        }
        (Ok(_), None) => sym::fail(6),
        (Err(_), Some(_)) if lenient => sym::check(calls().is_empty(), 7),
        (Err(_), Some(_)) => sym::fail(8),
        (Err(err), None) => {
            let d = format!("{err}");
            sym::check(d.starts_with("render error: "), 9);
            sym::check(calls().is_empty(), 10);
            sym::reach(1);
        }
    }
}

trait Arg {
    fn value(self) -> Value;
}
impl Arg for i64 {
    fn value(self) -> Value {
        Value::Integer(self)
    }
}
impl Arg for &str {
    fn value(self) -> Value {
        Value::String(self.to_owned())
    }
}
impl Arg for &[Value] {
    fn value(self) -> Value {
        Value::List(self.to_vec())
    }
}
impl Arg for &BTreeMap<String, Value> {
    fn value(self) -> Value {
        Value::Map(self.clone())
    }
}
impl Arg for &Value {
    fn value(self) -> Value {
        self.clone()
    }
}

fn called(v: Value) {
    calls().push(Got::Val(v));
}

/// Registers `f`, a filter whose value is of type `v`, with `n` arguments which are strings where `mask` is set.
fn signature(e: &mut Engine<'static>, v: usize, n: usize, mask: usize) {
    macro_rules! go {
        ([$($x:ident: $t:ty,)+] []) => {
            { e.add_filter("f", |$($x: $t),+| { $(called($x.value());)+ 7i64 }); }
        };
        ([$($x:ident: $t:ty,)+] [$a:ident $i:literal $($rest:tt)*]) => {
            if n == $i {
                go!([$($x: $t,)+] [])
            } else if mask >> $i & 1 == 0 {
                go!([$($x: $t,)+ $a: i64,] [$($rest)*])
            } else {
                go!([$($x: $t,)+ $a: &str,] [$($rest)*])
            }
        };
    }
    match v {
        0 => go!([v: i64,] [a 0 b 1 c 2 d 3]),
        1 => go!([v: &str,] [a 0 b 1 c 2 d 3]),
        2 => go!([v: &[Value],] [a 0 b 1 c 2 d 3]),
        3 => go!([v: &BTreeMap<String, Value>,] [a 0 b 1 c 2 d 3]),
        _ => go!([v: &Value,] [a 0 b 1 c 2 d 3]),
    }
}

/// Every signature, called with every number of arguments of every type.
/// params: type of the value, number of parameters, 0 members / 1 literals / 2 strings computed
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_filter_call() {
    let (ty, n, form) = (param(0), param(1), param(2));
    let mask = sym::choose(1 << n);
    let given = sym::choose(6);
    let kinds = sym::choose(1 << given);
    let mut e = Engine::new();
    signature(&mut e, ty, n, mask);
    let names = ["p", "q", "r", "s", "t"];
    let mut m = BTreeMap::new();
    let v = match ty {
        0 => Value::Integer(sym::i64()),
        1 => Value::String(text(1)),
        2 => Value::List(vec![Value::Integer(sym::i64())]),
        3 => Value::from([("k", sym::i64())]),
        _ => Value::Float(sym::f64()),
    };
    m.insert(String::from("v"), v.clone());
    let mut want = vec![v];
    let mut src = String::from("{{ v | f");
    for i in 0..given {
        src.push_str(if i == 0 { ": " } else { ", " });
        let a = match (kinds >> i & 1 == 0, form) {
            (true, 0) => Value::Integer(sym::i64()),
            (false, 0) => Value::String(text(1)),
            (true, _) => Value::Integer(10 + i as i64),
            (false, _) => Value::String(String::from(names[i])),
        };
        match (&a, form) {
            (_, 0) => src.push_str(names[i]),
            (Value::Integer(i), _) => src.push_str(&i.to_string()),
            _ => {
                src.push('"');
                src.push_str(names[i]);
                src.push('"');
            }
        }
        m.insert(String::from(names[i]), a.clone());
        want.push(a);
    }
    src.push_str(" }}");
    note!(src, m, n, mask);
    let t = match e.compile(&*src) {
        Ok(t) => t,
        Err(_) => return sym::fail(20),
    };
    calls().clear();
    let ctx = Value::Map(m);
    let ok = given == n && kinds == mask;
    match t.render_from(&e, &ctx).to_string() {
        Ok(s) => {
            sym::check(ok, 21);
            sym::check(s == "7", 22);
            sym::check(calls().len() == want.len(), 23);
            for (c, w) in calls().iter().zip(&want) {
                sym::check(same_got(c, &Got::Val(w.clone())), 24);
            }
            sym::reach(0);
        }
        Err(err) => {
            sym::check(!ok, 25);
            sym::check(calls().is_empty(), 26);
            let d = format!("{err}");
            sym::check(d.starts_with("render error: "), 27);
            sym::reach(1);
        }
    }
}

/// What filters return is what comes out of them.
/// params: number of the filter
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_filter_return() {
    let k = param(0);
    let (i, j) = (sym::i64(), sym::i64());
    let fl = f64::from_bits(i as u64);
    let s = text(2);
    note!(i, j, s);
    let mut e = Engine::new();
    let st = s.clone();
    let leaked: &'static str = Box::leak(s.clone().into_boxed_str());
    let pick = sym::choose(2) == 0;
    let map = |k: &str, v: Value| Value::from([(k, v)]);
    let want: Result<Value, ()> = match k {
        0 => {
            e.add_filter("r", move |_: Value| i);
            Ok(Value::Integer(i))
        }
        1 => {
            e.add_filter("r", move |_: Value| fl);
            Ok(Value::Float(fl))
        }
        2 => {
            e.add_filter("r", move |_: Value| i < 0);
            Ok(Value::Bool(i < 0))
        }
        3 => {
            e.add_filter("r", move |_: Value| st.clone());
            Ok(Value::String(s.clone()))
        }
        4 => {
            e.add_filter("r", move |_: Value| leaked);
            Ok(Value::String(s.clone()))
        }
        5 => {
            e.add_filter("r", move |_: Value| vec![i, j]);
            Ok(Value::List(vec![Value::Integer(i), Value::Integer(j)]))
        }
        6 => {
            e.add_filter("r", move |_: Value| if pick { Some(i) } else { None });
            Ok(if pick { Value::Integer(i) } else { Value::None })
        }
        7 => {
            let v = Value::List(vec![map("a", Value::Float(fl)), Value::String(s.clone())]);
            let w = v.clone();
            e.add_filter("r", move |_: Value| w.clone());
            Ok(v)
        }
        8 => {
            e.add_filter("r", |_: Value| ());
            Ok(Value::None)
        }
        9 => {
            e.add_filter("r", move |_: Value| [i, j]);
            Ok(Value::List(vec![Value::Integer(i), Value::Integer(j)]))
        }
        10 => {
            e.add_filter("r", move |_: Value| BTreeMap::from([(String::from("a"), i)]));
            Ok(map("a", Value::Integer(i)))
        }
        11 => {
            e.add_filter("r", move |_: Value| HashMap::<String, i64>::from([(String::from("a"), i)]));
            Ok(map("a", Value::Integer(i)))
        }
        12 => {
            e.add_filter("r", move |_: Value| -> Result<i64, String> { if pick { Ok(i) } else { Err(st.clone()) } });
            if pick {
                Ok(Value::Integer(i))
            } else {
                Err(())
            }
        }
        13 => {
            e.add_filter("r", move |_: Value| -> Result<Value, &'static str> {
                if pick {
                    Ok(Value::Integer(i))
                } else {
                    Err(leaked)
                }
            });
            if pick {
                Ok(Value::Integer(i))
            } else {
                Err(())
            }
        }
        14 => {
            e.add_filter("r", move |_: Value| [i as i32, j as i32]);
            Ok(Value::List(vec![Value::Integer(i as i32 as i64), Value::Integer(j as i32 as i64)]))
        }
        _ => {
            e.add_filter("r", move |_: Value| Some(vec![Some(i as i16), None]));
            Ok(Value::List(vec![Value::Integer(i as i16 as i64), Value::None]))
        }
    };
    e.add_filter("p", |v: Value| {
        calls().push(Got::Val(v));
        ""
    });
    let srcs = [
        "{{ 0 | r | p }}",
        "{% with 0 | r as v %}{{ v | p }}{% endwith %}",
        "{% for x in l %}{{ x | r | p }}{% endfor %}",
        "{% if 0 | r %}{% endif %}{{ 0 | r | p }}",
    ];
    let src = srcs[sym::choose(srcs.len())];
    note!(src);
    let t = match e.compile(src) {
        Ok(t) => t,
        Err(_) => return sym::fail(40),
    };
    calls().clear();
    match (t.render_from(&e, &value! { l: [0] }).to_string(), want) {
        (Ok(out), Ok(v)) => {
            sym::check(out.is_empty(), 41);
            sym::check(calls().len() == 1, 42);
            sym::check(calls().len() == 1 && same_got(&calls()[0], &Got::Val(v)), 43);
            sym::reach(0);
        }
        (Ok(_), Err(())) => sym::fail(44),
        (Err(_), Ok(_)) => sym::fail(45),
        (Err(err), Err(())) => {
            let d = format!("{err}");
            sym::check(d.strip_prefix("filter error: ") == Some(&*s), 46);
            sym::check(calls().is_empty(), 47);
            sym::reach(1);
        }
    }
}

const STATE: &[(&str, &str)] = &[
    ("{{ x | grow | p }}{{ x | p }}", "gx"),
    ("{% with x as y %}{{ y | grow | p }}{{ y | p }}{{ x | p }}{% endwith %}{{ x | p }}", "gxxx"),
    ("{% with x | id as y %}{{ y | grow | p }}{{ y | p }}{{ x | p }}{% endwith %}", "gxx"),
    ("{% for y in l %}{{ y | grow | p }}{{ y | p }}{% endfor %}{{ l | p }}", "gxgxl"),
    ("{% for y in l | id %}{{ y | grow | p }}{{ y | p }}{% endfor %}{{ l | p }}", "gxgxl"),
    ("{% for y in l %}{{ x | grow | p }}{% endfor %}{{ x | p }}", "ggx"),
    ("{{ b.c | grow | p }}{{ b.c | p }}{{ b | p }}", "gxb"),
    ("{{ x | grow | grow | p }}{{ x | grow | id | p }}", "Gg"),
    ("{{ 0 | grow2: x | p }}{{ x | p }}{{ 0 | grow2: x | p }}", "gxg"),
    ("{% include \"t\" with b %}{{ b | p }}", "gxb"),
    ("{% for k, y in b %}{{ y | grow | p }}{{ k | growk }}{{ k | p }}{{ y | p }}{% endfor %}{{ b | p }}", "gkxb"),
    ("{% for k, y in b | id %}{{ y | grow | p }}{{ k | growk }}{{ k | p }}{{ y | p }}{% endfor %}{{ b | p }}", "gkxb"),
    ("{% if x | grow %}{{ x | p }}{% endif %}{{ x | p }}", "xx"),
    ("{% with b as y %}{{ y.c | grow | p }}{{ y | p }}{{ y.c | p }}{% endwith %}", "gbx"),
    ("{% with b | id as y %}{{ y.c | grow | p }}{{ y | p }}{{ y.c | p }}{% endwith %}", "gbx"),
    ("{% with l | id as y %}{{ y.1 | grow | p }}{{ y.0 | p }}{{ y.1 | p }}{{ y | p }}{% endwith %}{{ l | p }}", "gxxll"),
    ("{% with x | grow as y %}{{ y | grow | p }}{{ y | p }}{% for z in l %}{{ y | grow | p }}{% endfor %}{{ y | p }}{% endwith %}", "GgGGg"),
    ("{{ b | growb | p }}{{ b | p }}{{ b.c | p }}", "Bbx"),
    ("{% with b | id as y %}{{ y | growb | p }}{{ y | p }}{% endwith %}", "Bb"),
    ("{{ x | both: x | p }}{{ x | p }}", "gx"),
    ("{% with x | id as y %}{{ y | both: y | p }}{{ y | p }}{{ x | both: y | p }}{{ y | p }}{% endwith %}", "gxgx"),
    // Literals; only for strings.
    ("{% for y in l %}{{ \"lit\" | grow | p }}{{ 0 | grow2: \"lit\" | p }}{% endfor %}", "iiii"),
    ("{{ \"lit\" | grow | p }}{% with \"lit\" as y %}{{ y | grow | p }}{{ y | grow | p }}{% endwith %}", "iii"),
];

fn grown(v: &Value) -> Value {
    let mut v = v.clone();
    match &mut v {
        Value::String(s) => s.push('z'),
        Value::List(l) => l.push(Value::None),
        Value::Map(m) => {
            m.insert(String::from("z"), Value::None);
        }
        _ => {}
    }
    v
}

/// A filter that takes its value changes nothing else.
/// params: 0 string, 1 list, 2 map, 3 any by value; twice
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_filter_state() {
    let (ty, twice) = (param(0), param(1) == 1);
    let mut e = Engine::new();
    match ty {
        0 => {
            let f = |mut v: String| {
                v.push('z');
                v
            };
            e.add_filter("grow", f);
            e.add_filter("grow2", move |_: Value, v: String| f(v));
            e.add_filter("both", |mut v: String, mut w: String| {
                v.push('z');
                w.push('y');
                v
            });
        }
        1 => {
            let f = |mut v: Vec<Value>| {
                v.push(Value::None);
                v
            };
            e.add_filter("grow", f);
            e.add_filter("grow2", move |_: Value, v: Vec<Value>| f(v));
            e.add_filter("both", |mut v: Vec<Value>, mut w: Vec<Value>| {
                v.push(Value::None);
                w.clear();
                v
            });
        }
        2 => {
            let f = |mut v: BTreeMap<String, Value>| {
                v.insert(String::from("z"), Value::None);
                v
            };
            e.add_filter("grow", f);
            e.add_filter("grow2", move |_: Value, v: BTreeMap<String, Value>| f(v));
            e.add_filter("both", |mut v: BTreeMap<String, Value>, mut w: BTreeMap<String, Value>| {
                v.insert(String::from("z"), Value::None);
                w.clear();
                v
            });
        }
        _ => {
            e.add_filter("grow", |v: Value| grown(&v));
            e.add_filter("grow2", |_: Value, v: Value| grown(&v));
            e.add_filter("both", |v: Value, mut w: Value| {
                if let Value::List(l) = &mut w {
                    l.clear();
                }
                grown(&v)
            });
        }
    }
    e.add_filter("growb", |mut v: BTreeMap<String, Value>| {
        v.clear();
        v
    });
    e.add_filter("growk", |mut v: String| {
        v.clear();
        v
    });
    e.add_filter("id", |v: Value| v);
    e.add_filter("p", |v: &Value| {
        calls().push(Got::Val(v.clone()));
        ""
    });
    if e.add_template("t", "{{ c | grow | p }}{{ c | p }}").is_err() {
        return sym::fail(60);
    }
    let x = match ty {
        0 => Value::String(text(1)),
        1 => Value::List(vec![Value::Integer(sym::i64())]),
        2 => Value::from([("k", sym::i64())]),
        _ => match sym::choose(3) {
            0 => Value::String(text(1)),
            1 => Value::List(vec![Value::Float(sym::f64())]),
            _ => Value::from([("k", text(1))]),
        },
    };
    let (src, seq) = STATE[sym::choose(if ty == 0 { STATE.len() } else { STATE.len() - 2 })];
    note!(src, x);
    let b = Value::from([("c", x.clone())]);
    let l = Value::List(vec![x.clone(), x.clone()]);
    let ctx = Value::from([("x", x.clone()), ("b", b.clone()), ("l", l.clone())]);
    let before = ctx.clone();
    let t = match e.compile(src) {
        Ok(t) => t,
        Err(_) => return sym::fail(61),
    };
    for _ in 0..1 + usize::from(twice) {
        calls().clear();
        match t.render_from(&e, &ctx).to_string() {
            Err(_) => sym::fail(62),
            Ok(s) => sym::check(s.is_empty(), 63),
        }
        sym::check(calls().len() == seq.len(), 64);
        for (c, w) in calls().iter().zip(seq.bytes()) {
            let w = match w {
                b'x' => x.clone(),
                b'g' => grown(&x),
                b'G' => grown(&grown(&x)),
                b'l' => l.clone(),
                b'b' => b.clone(),
                b'B' => Value::Map(BTreeMap::new()),
                b'k' => Value::from("c"),
                _ => Value::from("litz"),
            };
            sym::check(same_got(c, &Got::Val(w)), 65);
        }
        sym::check(same(&ctx, &before), 66);
    }
    sym::reach(0);
}
