//! Conversion of Rust data to values.

use crate::env;
use crate::p_value::same;
use crate::sym::{self, param};
use serde::ser::{
    Error as _, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
    SerializeTupleStruct, SerializeTupleVariant, Serializer,
};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use upon::{to_value, Engine, Value};

/// Data that calls every method of a serializer.
#[derive(Debug)]
enum Shape {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Display(u8),
    None,
    Some(Box<Shape>),
    Unit,
    UnitStruct,
    UnitVariant(&'static str),
    NewtypeStruct(Box<Shape>),
    NewtypeVariant(&'static str, Box<Shape>),
    Seq(Option<usize>, Vec<Shape>),
    Tuple(Vec<Shape>),
    TupleStruct(Vec<Shape>),
    TupleVariant(&'static str, Vec<Shape>),
    Map(Vec<(Shape, Shape)>),
    Entries(Vec<(Shape, Shape)>),
    Struct(Vec<(&'static str, Shape)>),
    StructVariant(&'static str, Vec<(&'static str, Shape)>),
    Value(Value),
    Fail,
}
use Shape::*;

impl Serialize for Shape {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Bool(x) => s.serialize_bool(*x),
            I8(x) => s.serialize_i8(*x),
            I16(x) => s.serialize_i16(*x),
            I32(x) => s.serialize_i32(*x),
            I64(x) => s.serialize_i64(*x),
            I128(x) => s.serialize_i128(*x),
            U8(x) => s.serialize_u8(*x),
            U16(x) => s.serialize_u16(*x),
            U32(x) => s.serialize_u32(*x),
            U64(x) => s.serialize_u64(*x),
            U128(x) => s.serialize_u128(*x),
            F32(x) => s.serialize_f32(*x),
            F64(x) => s.serialize_f64(*x),
            Char(x) => s.serialize_char(*x),
            Str(x) => s.serialize_str(x),
            Bytes(x) => s.serialize_bytes(x),
            Display(x) => s.collect_str(&format_args!("<{}>", *x as char)),
            None => s.serialize_none(),
            Some(x) => s.serialize_some(&**x),
            Unit => s.serialize_unit(),
            UnitStruct => s.serialize_unit_struct("U"),
            UnitVariant(n) => s.serialize_unit_variant("E", 3, n),
            NewtypeStruct(x) => s.serialize_newtype_struct("N", &**x),
            NewtypeVariant(n, x) => s.serialize_newtype_variant("E", 3, n, &**x),
            Seq(len, v) => {
                let mut q = s.serialize_seq(*len)?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            TupleStruct(v) => {
                let mut q = s.serialize_tuple_struct("T", v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            TupleVariant(n, v) => {
                let mut q = s.serialize_tuple_variant("E", 3, n, v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Map(v) => {
                let mut q = s.serialize_map(Option::None)?;
                for (k, x) in v {
                    q.serialize_key(k)?;
                    q.serialize_value(x)?;
                }
                q.end()
            }
            Entries(v) => {
                let mut q = s.serialize_map(Option::Some(v.len()))?;
                for (k, x) in v {
                    q.serialize_entry(k, x)?;
                }
                q.end()
            }
            Struct(v) => {
                let mut q = s.serialize_struct("S", v.len())?;
                for (k, x) in v {
                    q.serialize_field(k, x)?;
                }
                q.end()
            }
            StructVariant(n, v) => {
                let mut q = s.serialize_struct_variant("E", 3, n, v.len())?;
                for (k, x) in v {
                    q.serialize_field(k, x)?;
                }
                q.end()
            }
            Value(v) => v.serialize(s),
            Fail => Err(S::Error::custom("the shape")),
        }
    }
}

fn int(i: i64) -> upon::Value {
    upon::Value::Integer(i)
}
fn string(s: &str) -> upon::Value {
    upon::Value::String(s.to_owned())
}

/// A map with one entry.
fn named(n: &str, v: upon::Value) -> upon::Value {
    let mut m = BTreeMap::new();
    m.insert(n.to_owned(), v);
    upon::Value::Map(m)
}

/// An error that comes from the shape itself, or one of the crate.
#[derive(PartialEq)]
enum Bad {
    User,
    Crate,
}

fn all(v: &[Shape]) -> Result<upon::Value, Bad> {
    let mut out = Vec::new();
    for x in v {
        out.push(expected(x)?);
    }
    Ok(upon::Value::List(out))
}

fn fields(v: &[(&'static str, Shape)]) -> Result<upon::Value, Bad> {
    let mut out = BTreeMap::new();
    for (k, x) in v {
        out.insert(String::from(*k), expected(x)?);
    }
    Ok(upon::Value::Map(out))
}

fn expected(s: &Shape) -> Result<upon::Value, Bad> {
    Ok(match s {
        Bool(x) => upon::Value::Bool(*x),
        I8(x) => int(*x as i64),
        I16(x) => int(*x as i64),
        I32(x) => int(*x as i64),
        I64(x) => int(*x),
        U8(x) => int(*x as i64),
        U16(x) => int(*x as i64),
        U32(x) => int(*x as i64),
        U64(x) if *x >> 63 == 0 => int(*x as i64),
        U64(_) | I128(_) | U128(_) => return Err(Bad::Crate),
        F32(x) => upon::Value::Float(*x as f64),
        F64(x) => upon::Value::Float(*x),
        Char(c) => upon::Value::String(c.to_string()),
        Str(x) => string(x),
        Bytes(b) => upon::Value::List(b.iter().map(|b| int(*b as i64)).collect()),
        Display(b) => upon::Value::String(format!("<{}>", *b as char)),
        None | Unit | UnitStruct => upon::Value::None,
        Some(x) | NewtypeStruct(x) => expected(x)?,
        UnitVariant(n) => string(n),
        NewtypeVariant(n, x) => named(n, expected(x)?),
        Seq(_, v) | Tuple(v) | TupleStruct(v) => all(v)?,
        TupleVariant(n, v) => named(n, all(v)?),
        Map(v) | Entries(v) => {
            let mut out = BTreeMap::new();
            for (k, x) in v {
                let k = key(k)?;
                out.insert(k, expected(x)?);
            }
            upon::Value::Map(out)
        }
        Struct(v) => fields(v)?,
        StructVariant(n, v) => named(n, fields(v)?),
        Value(v) => v.clone(),
        Fail => return Err(Bad::User),
    })
}

/// Map keys are strings or are displayed as such.
fn key(s: &Shape) -> Result<String, Bad> {
    Ok(match s {
        Str(x) => x.clone(),
        Char(c) => c.to_string(),
        UnitVariant(n) => String::from(*n),
        NewtypeStruct(x) => key(x)?,
        Display(b) => format!("<{}>", *b as char),
        I8(x) => x.to_string(),
        I16(x) => x.to_string(),
        I32(x) => x.to_string(),
        I64(x) => x.to_string(),
        U8(x) => x.to_string(),
        U16(x) => x.to_string(),
        U32(x) => x.to_string(),
        U64(x) => x.to_string(),
        Value(upon::Value::String(s)) => s.clone(),
        Value(upon::Value::Integer(i)) => i.to_string(),
        Fail => return Err(Bad::User),
        _ => return Err(Bad::Crate),
    })
}

const KINDS: usize = 34;
const LEAVES: [usize; 23] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 19, 20, 21, 32, 33];

fn ascii() -> u8 {
    let b = sym::u8();
    sym::assume(b < 0x80);
    b
}

fn pick(depth: usize) -> Shape {
    let k = if depth == 0 { LEAVES[sym::choose(LEAVES.len())] } else { sym::choose(KINDS) };
    shape(k, depth)
}

/// Any shape of kind `k` with parts of up to `depth` levels.
fn shape(k: usize, depth: usize) -> Shape {
    let d = depth.wrapping_sub(1);
    let one = || Box::new(pick(d));
    let many = || -> Vec<Shape> {
        match sym::choose(3) {
            0 => vec![],
            1 => vec![pick(d)],
            _ => vec![Str(String::from("first")), pick(d)],
        }
    };
    let pairs = |keys: &'static [&'static str]| -> Vec<(&'static str, Shape)> {
        match sym::choose(3) {
            0 => vec![],
            1 => vec![(keys[sym::choose(keys.len())], pick(d))],
            _ => vec![(keys[0], U8(7)), (keys[sym::choose(keys.len())], pick(d))],
        }
    };
    let names = ["V", "name"];
    match k {
        0 => Bool(sym::bool()),
        1 => I8(sym::i8()),
        2 => I16(sym::u64() as i16),
        3 => I32(sym::u64() as i32),
        4 => I64(sym::i64()),
        5 => I128(sym::i64() as i128),
        6 => U8(sym::u8()),
        7 => U16(sym::u64() as u16),
        8 => U32(sym::u64() as u32),
        9 => U64(sym::u64()),
        10 => U128(sym::u64() as u128),
        11 => F32(f32::from_bits(sym::u64() as u32)),
        12 => F64(sym::f64()),
        13 => {
            let c = sym::u64() as u32;
            match char::from_u32(c) {
                Option::Some(c) => Char(c),
                Option::None => {
                    sym::assume(false);
                    Unit
                }
            }
        }
        14 => Str(env::utf8(&[ascii(), ascii()]).to_owned()),
        15 => Bytes(sym::vec(2)),
        16 => Display(ascii()),
        17 => None,
        18 => Some(one()),
        19 => Unit,
        20 => UnitStruct,
        21 => UnitVariant(names[sym::choose(2)]),
        22 => NewtypeStruct(one()),
        23 => NewtypeVariant(names[sym::choose(2)], one()),
        24 => {
            let v = many();
            let len = [Option::None, Option::Some(v.len()), Option::Some(0), Option::Some(5)][sym::choose(4)];
            Seq(len, v)
        }
        25 => Tuple(many()),
        26 => TupleStruct(many()),
        27 => TupleVariant(names[sym::choose(2)], many()),
        28 => Map(vec![(Str(String::from("b")), U8(1)), (Char(env::utf8(&[ascii()]).chars().next().unwrap_or('x')), pick(d))]),
        29 => Entries(match sym::choose(2) {
            0 => vec![],
            _ => vec![(UnitVariant("V"), pick(d)), (Str(String::from("a")), Bool(true))],
        }),
        30 => Struct(pairs(&["b", "a", "c"])),
        31 => StructVariant(names[sym::choose(2)], pairs(&["b", "a", "c"])),
        32 => Value(crate::p_total::value(1)),
        _ => Fail,
    }
}

fn check(s: &Shape, want: &Result<upon::Value, Bad>, got: upon::Result<upon::Value>) {
    match (got, want) {
        (Ok(g), Ok(w)) => {
            sym::check(same(&g, w), 1);
            sym::reach(0);
        }
        (Err(e), Err(b)) => {
            let d = format!("{e}");
            sym::check(d.starts_with("serialize error: "), 2);
            sym::check(*b == Bad::Crate || d == "serialize error: the shape", 3);
            sym::reach(1);
        }
        (Ok(_), Err(_)) => sym::fail(4),
        (Err(_), Ok(_)) => sym::fail(5),
    }
    // Rendering converts in the same way.
    let e = Engine::new();
    let t = e.compile("x").unwrap();
    match (t.render(&e, s).to_string(), want) {
        (Err(err), Err(b)) => {
            let d = format!("{err}");
            sym::check(d.starts_with("serialize error: "), 6);
            sym::check(*b == Bad::Crate || d == "serialize error: the shape", 7);
        }
        (Ok(_), Err(_)) => sym::fail(8),
        (Ok(s), Ok(_)) => sym::check(s == "x", 9),
        (Err(_), Ok(_)) => sym::fail(10),
    }
}

/// params: kind, depth of its parts
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_to_value() {
    let (k, depth) = (param(0), param(1));
    let s = shape(k, depth);
    note!(s);
    check(&s, &expected(&s), to_value(&s));
}

/// Every kind of key, by itself, among others and wrapped.
/// params: kind, form
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_map_key() {
    let (k, form) = (param(0), param(1));
    let kind = match k {
        // The digits of integers are the standard library's business.
        1 => I8([0, 7, -1, i8::MIN, i8::MAX][sym::choose(5)]),
        2 => I16([0, 7, -1, i16::MIN, i16::MAX][sym::choose(5)]),
        3 => I32([0, 7, -1, i32::MIN, i32::MAX][sym::choose(5)]),
        4 => I64([0, 7, -1, i64::MIN, i64::MAX][sym::choose(5)]),
        6 => U8([0, 7, u8::MAX][sym::choose(3)]),
        7 => U16([0, 7, u16::MAX][sym::choose(3)]),
        8 => U32([0, 7, u32::MAX][sym::choose(3)]),
        9 => U64([0, 7, i64::MAX as u64, u64::MAX][sym::choose(4)]),
        14 => Str(env::utf8(&[ascii(), ascii()])[..sym::choose(3)].to_owned()),
        32 => Value(match sym::choose(3) {
            0 => int(-5),
            1 => upon::Value::String(env::utf8(&[ascii()]).to_owned()),
            _ => upon::Value::None,
        }),
        k => shape(k, 1),
    };
    let kind = match form {
        1 => NewtypeStruct(Box::new(kind)),
        2 => NewtypeStruct(Box::new(NewtypeStruct(Box::new(kind)))),
        _ => kind,
    };
    let v = F64(sym::f64());
    let s = match form {
        // Later entries win.
        3 => Map(vec![(Str(String::from("7")), Unit), (kind, v), (Str(String::from("-1")), U8(4))]),
        4 => Entries(vec![(Char('V'), U8(3)), (kind, v)]),
        _ => Map(vec![(kind, v)]),
    };
    note!(s);
    check(&s, &expected(&s), to_value(&s));
}

/// A value converts to itself.
/// params: depth
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_value_identity() {
    let v = crate::p_total::value(param(0));
    note!(v);
    match to_value(&v) {
        Ok(w) => sym::check(same(&v, &w), 20),
        Err(_) => sym::fail(21),
    }
    match to_value(vec![Option::Some(v.clone()), Option::None]) {
        Ok(w) => sym::check(same(&upon::Value::List(vec![v.clone(), upon::Value::None]), &w), 22),
        Err(_) => sym::fail(23),
    }
    sym::check(same(&upon::Value::from([("k", v.clone())]), &upon::value! { k: v.clone() }), 24);
    sym::reach(0);
}

/// The `From` conversions of values, and the `value!` macro.
/// params: form
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_from() {
    type V = upon::Value;
    let form = param(0);
    let (x, y) = (sym::u64(), sym::u64());
    note!(x, y);
    let (i, j) = (x as i64, y as i64);
    let chars = [x as u8 & 0x7f, y as u8 & 0x7f];
    let s = env::utf8(&chars);
    let (a, b) = (s[..1].to_owned(), s[1..].to_owned());
    let two = V::List(vec![V::Integer(i), V::Integer(j)]);
    let pair = |k: &str, v: V, l: &str, w: V| {
        let mut m = BTreeMap::new();
        m.insert(k.to_owned(), v);
        m.insert(l.to_owned(), w);
        V::Map(m)
    };
    let cases: Vec<(V, V)> = match form {
        0 => vec![
            (V::from(i), V::Integer(i)),
            (V::from(x as i32), V::Integer(x as i32 as i64)),
            (V::from(x as i16), V::Integer(x as i16 as i64)),
            (V::from(x as i8), V::Integer(x as i8 as i64)),
            (V::from(x as u32), V::Integer((x & 0xffff_ffff) as i64)),
            (V::from(x as u16), V::Integer((x & 0xffff) as i64)),
            (V::from(x as u8), V::Integer((x & 0xff) as i64)),
            (V::from(x & 1 == 1), V::Bool(x & 1 == 1)),
            (V::from(()), V::None),
            (V::default(), V::None),
        ],
        1 => vec![
            (V::from(f64::from_bits(x)), V::Float(f64::from_bits(x))),
            (V::from(Option::Some(f64::from_bits(x))), V::Float(f64::from_bits(x))),
            (V::from(f32::from_bits(x as u32)), V::Float(f32::from_bits(x as u32) as f64)),
        ],
        2 => vec![
            (V::from(s), V::String(s.to_owned())),
            (V::from(s.to_owned()), V::String(s.to_owned())),
            (V::from(Cow::Borrowed(s)), V::String(s.to_owned())),
            (V::from(Cow::<str>::Owned(s.to_owned())), V::String(s.to_owned())),
            (V::from(Option::Some(s)), V::String(s.to_owned())),
            (V::from(Option::<&str>::None), V::None),
        ],
        3 => vec![
            (V::from(vec![i, j]), two.clone()),
            (V::from([i, j]), two.clone()),
            (V::from([i; 0]), V::List(vec![])),
            (V::from_iter(vec![i, j]), two.clone()),
            (V::from(Option::Some(vec![Option::Some(i), Option::None])), V::List(vec![V::Integer(i), V::None])),
            (V::from(vec![vec![i, j], vec![]]), V::List(vec![two.clone(), V::List(vec![])])),
            ([i, j].into_iter().collect(), two.clone()),
            (V::from(vec![two.clone()]), V::List(vec![two.clone()])),
        ],
        4 => vec![
            (V::from([(a.clone(), i), (b.clone(), j)]), pair(&a, V::Integer(i), &b, V::Integer(j))),
            (V::from([(&*a, i), (&*b, j)]), pair(&a, V::Integer(i), &b, V::Integer(j))),
            (V::from(BTreeMap::from([(&*a, i), (&*b, j)])), pair(&a, V::Integer(i), &b, V::Integer(j))),
            (V::from_iter(vec![(a.clone(), i), (b.clone(), j)]), pair(&a, V::Integer(i), &b, V::Integer(j))),
            (vec![(&*a, two.clone())].into_iter().collect(), named(&a, two.clone())),
        ],
        5 => {
            // Keys of hash maps are concrete: hashing is not.
            let h: HashMap<&str, i64> = [("p", i), ("q", j)].into_iter().collect();
            vec![
                (V::from(h), pair("p", V::Integer(i), "q", V::Integer(j))),
                (V::from(HashMap::<String, i64>::new()), V::Map(BTreeMap::new())),
            ]
        }
        _ => {
            let f = f64::from_bits(y);
            let inner = || pair("v", V::None, "w", V::Float(f));
            vec![
                (
                    upon::value! { a: i, b: [i, j], c: None },
                    {
                        let V::Map(mut m) = pair("a", V::Integer(i), "b", two.clone()) else { return sym::fail(31) };
                        m.insert(String::from("c"), V::None);
                        V::Map(m)
                    },
                ),
                (
                    upon::value! { a: { v: None, w: f }, b: [None, { v: None, w: f }, [j, s,],], },
                    pair(
                        "a",
                        inner(),
                        "b",
                        V::List(vec![V::None, inner(), V::List(vec![V::Integer(j), string(s)])]),
                    ),
                ),
                (upon::value! { a: {}, b: [] }, pair("a", V::Map(BTreeMap::new()), "b", V::List(vec![]))),
                (upon::value! { a: 1, a: s, b: (i, s), }, pair("a", string(s), "b", V::List(vec![V::Integer(i), string(s)]))),
                (upon::value! {}, V::Map(BTreeMap::new())),
                (
                    upon::value! { a: true, b: [true, false, true, -1, [], {}, ()] },
                    pair(
                        "a",
                        V::Bool(true),
                        "b",
                        V::List(vec![
                            V::Bool(true),
                            V::Bool(false),
                            V::Bool(true),
                            V::Integer(-1),
                            V::List(vec![]),
                            V::Map(BTreeMap::new()),
                            V::None,
                        ]),
                    ),
                ),
                (upon::value! { a: false, b: { type_: -7, is: !false } }, pair("a", V::Bool(false), "b", pair("type_", V::Integer(-7), "is", V::Bool(true)))),
                (upon::value! { a: i.wrapping_add(1), b: Option::Some(f) }, pair("a", V::Integer(i.wrapping_add(1)), "b", V::Float(f))),
            ]
        }
    };
    for (k, (got, want)) in cases.iter().enumerate() {
        sym::check(same(got, want), 40 + k as u32);
    }
    sym::reach(0);
}
