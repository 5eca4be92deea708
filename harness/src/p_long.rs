//! Programs and data of great size: whatever the crate counts or measures must
//! not depend on the width of a narrower counter.

use crate::env;
use crate::sym::{self, param};
use upon::Value;

fn rep(s: &str, n: usize) -> String {
    s.repeat(n)
}

/// params: kind, size (and one or two more)
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_long() {
    let kind = param(0);
    // One size is enough where a path takes a minute.
    let k = param(1) + if kind < 25 { sym::choose(3) } else { 4 };
    let c = if kind < 25 { char::from(sym::of(b"xy")) } else { 'x' };
    let flag = kind < 25 && sym::choose(2) == 1;
    let mut set: Vec<(&'static str, String)> = Vec::new();
    let mut map = std::collections::BTreeMap::new();
    let mut def = |n: &str, v: Value| {
        map.insert(n.to_owned(), v);
    };
    def("a", Value::from("A"));
    def("s", Value::from("S"));
    def("c", Value::from(sym::bool()));
    def("l", Value::from(vec![Value::from("p"), Value::from("q")]));
    let main = match kind {
        // Text before, between and after tags.
        0 => {
            let b = char::from(sym::of(b"z \n"));
            let t = if flag { "{{- a -}}" } else { "{{ a }}" };
            format!("{}{b}{t}{b}{}{c}{t}", rep("r", k), rep("t", k))
        }
        1 => {
            let t = if flag { "{{- a -}}" } else { "{{ a }}" };
            format!("{c}{}{t}{}{c}{t}{}", rep(" ", k), rep(" \n", k), rep("\t", k))
        }
        2 => format!("{{# {}{c} #}}{{{{ a }}}}{}{{# {c} #}}", rep("r ", k), rep("t", k)),
        // Literals.
        3 => format!("{{{{ \"{}{c}\" }}}};{{{{ a }}}}", rep("q", k)),
        4 => format!("{{{{ \"{}\\\"{c}\" }}}};{{{{ a }}}}", rep("\\n", k)),
        5 => format!("{{{{ {}{}{} }}}}", rep("0", k), if c == 'x' { "7" } else { "12" }, if flag { "_" } else { "" }),
        // Names.
        6 => {
            let x = rep("n", k);
            def(&format!("{x}x"), Value::from("1"));
            def(&x, Value::from("3"));
            if flag {
                def(&format!("{x}y"), Value::from("2"));
            }
            format!("{{{{ {x} }}}}{{{{ {x}{c} }}}}")
        }
        // A path of many members.
        7 => {
            let mut v = Value::from([("x", "1"), ("z", "2")]);
            for i in 0..k {
                v = if i % 2 == 0 { Value::from([("m", v)]) } else { Value::from(vec![v]) };
            }
            def("o", v);
            let mut p = String::from("{{ o");
            for i in (0..k).rev() {
                p.push_str(if flag { "?" } else { "" });
                p.push_str(if i % 2 == 0 { ".m" } else { ".0" });
            }
            format!("{p}.{c} }}}}{p}?.{c} }}}}{{{{ a }}}}")
        }
        // Many scopes.
        8 => {
            let mut p = String::new();
            for i in 0..k {
                p.push_str(&match i % 3 {
                    0 => format!("{{% with {i} as v{i} %}}"),
                    1 => format!("{{% for v{i} in l %}}{{% if loop.first %}}"),
                    _ => format!("{{% if not zz?.y %}}{{% with v{} as v{i} %}}", i - 1),
                }
                .replace("zz?.y", "e"));
            }
            def("e", Value::None);
            let i = [0, 1, 2, k / 2, k - 2, k - 1, k][sym::choose(7)];
            p.push_str(&format!("{{{{ v{i} }}}}{{{{ a }}}}"));
            for i in (0..k).rev() {
                p.push_str(["{% endwith %}", "{% endif %}{% endfor %}", "{% endwith %}{% endif %}"][i % 3]);
            }
            p
        }
        // Conditionals.
        9 => {
            let mut p = rep("{% if c %}", k);
            p.push_str("{{ a }}");
            for i in 0..k {
                p.push_str(if i % 2 == 0 { "{% endif %}" } else { "{% else %}e{% endif %}" });
            }
            p
        }
        10 => {
            let mut p = String::from("{% if e %}0");
            for i in 1..k {
                p.push_str(&format!("{{% else if e %}}{i}"));
            }
            def("e", Value::None);
            p.push_str("{% else if c %}C{% else %}E{% endif %}.");
            p
        }
        11 => {
            let (x, y) = (rep("{{ a }}", k), rep("{{ s }}", k));
            format!("{{% if c %}}{x}{{% else if not a %}}{y}{{% else %}}{y}{{% endif %}}{c}")
        }
        // Loops.
        12 => format!("{{% for x in l %}}{}{{% if c %}}{}{{% endif %}};{{% endfor %}}{c}", rep("{{ x }}", k), rep("{{ a }}", k)),
        13 => {
            let mut p = rep("{% for x in l %}{% if loop.last %}", k);
            p.push_str("{{ x }}{{ loop.index }}");
            for _ in 0..k {
                p.push_str("{% endif %}{% endfor %}");
            }
            p
        }
        // Positions in lists.
        14 => {
            let big = (0..k).map(|i| if i == k - 1 { Value::from("last") } else { Value::from(i == 0) });
            def("big", Value::List(big.collect()));
            let i = [0, 1, k % 256, k - 1, k, k + 1, k + 255, k + 256][sym::choose(8)];
            format!("{{{{ big.{i} }}}};")
        }
        // Functions and arguments.
        15 => format!("{{{{ a{} | g: \"{c}\" }}}}", rep(" | id", k)),
        16 => {
            let f = if flag { "g" } else { "h" };
            format!("{{{{ a | {f}: 1{} }}}}", rep(", 1", k - 1))
        }
        // Names of templates, and how many there are.
        17 => {
            let n = rep("n", k);
            let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
            set.push((leak(format!("{n}x")), String::from("X{{ a }}")));
            set.push((leak(n.clone()), String::from("N{{ a }}")));
            if flag {
                set.push((leak(format!("{n}y")), String::from("Y{{ a }}")));
            }
            format!("{{% include \"{n}\" %}}{{% include \"{n}{c}\" %}}")
        }
        18 => {
            for i in 0..k {
                set.push((Box::leak(format!("t{i}").into_boxed_str()), format!("[{i}]")));
            }
            let i = [0, 1, k % 256, k - 1, k][sym::choose(5)];
            format!("{{% include \"t{i}\" %}}{{{{ a }}}}")
        }
        // Included one after the other, and in a loop.
        19 => {
            set.push(("t", String::from("{% include \"u\" with a %}")));
            set.push(("u", String::from(".")));
            rep(if flag { "{% include \"t\" %}" } else { "{% include \"t\" with s %}" }, k) + "{{ a }}"
        }
        20 => {
            set.push(("t", String::from("{% with x as y %}{{ y }}{% include \"u\" %}{% endwith %}")));
            set.push(("u", String::from("{{ loop.index }}")));
            def("big", Value::List(vec![Value::from(true); k]));
            format!("{{% for x in big %}}{}{{% endfor %}}", if flag { "{% include \"t\" %}" } else { "{% if x %}{% include \"t\" %}{% endif %}" })
        }
        // A long tag, and tags without anything between them.
        21 => format!("{{{{{}a{}|{}m{}}}}}{{{{{}{c}{}{}", rep(" ", k), rep("\t", k), rep(" ", k), rep(" ", k), rep(" ", k), rep("\t", k), if flag { "}}" } else { "%}" }),
        22 => format!("{}{{{{ {c} }}}}", rep("{{ a }}{# #}", k)),
        // Data that is formatted: the text of a value.
        23 => {
            def("big", Value::from(rep("v", k) + "é"));
            format!("{{{{ big }}}}{{{{ big | m }}}}{c}")
        }
        // Jumps over many instructions.
        25 => format!("{{% if c %}}{}{{% else %}}E{{% endif %}}{{{{ a }}}}", rep("r{##}", k)),
        26 => format!("{{% for x in l %}}{{% if c %}}{{{{ x }}}}{{% else %}}{}{{% endif %}}{{% endfor %}}{{{{ a }}}}", rep("r{##}", k)),
        _ => {
            def("big", Value::from(rep("v", k)));
            format!("{{% with big | f as b %}}{{{{ b | g: b }}}}{{{{ big | g: {c} }}}}{{% endwith %}}")
        }
    };
    if kind == 21 || kind == 22 || kind == 24 {
        def("x", Value::from("X"));
    }
    note!(kind, k);
    set.push(("main", main));
    let (mut e, mut menv) = (env::engine(), env::model_env());
    env::check_set(&mut e, &mut menv, &set, &Value::Map(map));
}

/// Data that contains itself to a depth.
#[cfg(feature = "serde")]
enum Deep {
    End(i64),
    Some(Box<Deep>),
    Seq(Box<Deep>),
    Map(Box<Deep>),
    Wrap(Box<Deep>),
}

#[cfg(feature = "serde")]
impl serde::Serialize for Deep {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{SerializeMap, SerializeTuple};
        match self {
            Deep::End(i) => s.serialize_i64(*i),
            Deep::Some(d) => s.serialize_some(d),
            Deep::Seq(d) => {
                let mut t = s.serialize_tuple(1)?;
                t.serialize_element(d)?;
                t.end()
            }
            Deep::Map(d) => {
                let mut m = s.serialize_map(None)?;
                m.serialize_entry("k", d)?;
                m.end()
            }
            Deep::Wrap(d) => s.serialize_newtype_struct("W", d),
        }
    }
}

#[cfg(feature = "serde")]
struct Bytes<'a>(&'a [u8]);

#[cfg(feature = "serde")]
impl serde::Serialize for Bytes<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}

/// Great data is converted as a whole.
/// params: kind, size
#[cfg(feature = "serde")]
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_long_value() {
    let kind = param(0);
    let k = param(1) + sym::choose(3);
    let last = sym::i64();
    let (got, exp) = match kind {
        0 => {
            let mut v = vec![3i64; k];
            v.push(last);
            let mut x = vec![Value::Integer(3); k];
            x.push(Value::Integer(last));
            (upon::to_value(&v), Value::List(x))
        }
        1 => {
            let m: std::collections::BTreeMap<String, i64> =
                (0..k).map(|i| (format!("k{i}"), if i == 9 { last } else { 1 })).collect();
            let x = (0..k).map(|i| (format!("k{i}"), Value::Integer(if i == 9 { last } else { 1 })));
            let x = Value::Map(x.collect());
            (upon::to_value(&m), x)
        }
        2 => {
            let s = "é".repeat(k) + if last > 0 { "a" } else { "b" };
            (upon::to_value(&s), Value::String(s))
        }
        3 => {
            let mut b = vec![200u8; k];
            b.push(last as u8);
            let x = b.iter().map(|b| Value::Integer(*b as i64)).collect();
            (upon::to_value(Bytes(&b)), Value::List(x))
        }
        4 => {
            // Keys of maps.
            let s = "k".repeat(k);
            let m: std::collections::BTreeMap<&str, i64> = [(&s[..], last), (&s[1..], 2)].into();
            (upon::to_value(&m), Value::from([(&s[..], Value::Integer(last)), (&s[1..], Value::Integer(2))]))
        }
        5 => {
            let (mut d, mut x) = (Deep::End(last), Value::Integer(last));
            for i in 0..k {
                match i % 4 {
                    0 => d = Deep::Some(Box::new(d)),
                    1 => (d, x) = (Deep::Seq(Box::new(d)), Value::List(vec![x])),
                    2 => (d, x) = (Deep::Map(Box::new(d)), Value::from([("k", x)])),
                    _ => d = Deep::Wrap(Box::new(d)),
                }
            }
            (upon::to_value(&d), x)
        }
        _ => {
            // Values themselves.
            let mut x: Vec<Value> = (0..k).map(|i| if i % 2 == 0 { Value::None } else { Value::from([("a", 1)]) }).collect();
            x.push(Value::Integer(last));
            (upon::to_value(&x), Value::List(x))
        }
    };
    note!(kind, k);
    match got {
        Ok(v) => {
            sym::check(crate::p_value::same(&v, &exp), 60);
            sym::reach(0);
        }
        Err(_) => sym::fail(61),
    }
}
#[cfg(not(feature = "serde"))]
pub extern "C" fn h_long_value() {}

/// Deeply nested blocks: params: kind, levels
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_deep() {
    let (kind, n) = (param(0), param(1));
    let (open, close) = match sym::choose(3) {
        0 => ("{% if a %}", "{% endif %}"),
        1 => ("{% for i in a %}", "{% endfor %}"),
        _ => ("{% with a as b %}", "{% endwith %}"),
    };
    let (text, ok) = match kind {
        0 => (rep(open, n) + &rep(close, n), true),
        1 => (rep(open, n) + &rep(close, n) + close, false),
        _ => (format!("{{% if a %}}{}{open}{close}{{% endif %}}", rep("{% else if a %}", n)), true),
    };
    let r = upon::Engine::new().compile(text);
    sym::check(r.is_ok() == ok, 1);
    sym::reach(u32::from(!ok));
}

/// Many of what is not nested: params: kind, number
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_flat() {
    let (kind, n) = (param(0), param(1));
    let one = match sym::choose(3) {
        0 => "{% if a %}",
        1 => "{% for i in a %}",
        _ => "{% with a as b %}",
    };
    let (text, ok) = match kind {
        // Blocks which are not closed.
        0 => (rep(one, n), false),
        1 => (format!("{one}{}", rep("{% endif %}", n)), false),
        2 => (format!("{}{{{{ a{} }}}}", rep("{# #}", n), rep(".b", n)), true),
        3 => (format!("{{{{ a{} }}}}", rep(" | f", n)), true),
        4 => (format!("{{{{ a | f: {}1 }}}}", rep("1, ", n)), true),
        _ => (rep("{% if a %}{% else %}{% endif %}", n) + &rep("{% include \"a\" %}", n), true),
    };
    let r = upon::Engine::new().compile(text);
    sym::check(r.is_ok() == ok, 1);
    sym::reach(u32::from(!ok));
}
