//! Functions and values in programs that do without the optional features.

use crate::env;
use crate::p_total::value;
use crate::sym::{self, param};
use upon::Value;

const PROGRAMS: &[&str] = &[
    "{{ a | X }}{{ a }}",
    "{{ a | X: 1 }}",
    "{{ a | X | Y }}",
    "{{ a | X: \"s\" | Y: a }}",
    "{% if a | X %}1{% else %}2{% endif %}",
    "{% if z %}{{ \"s\" | X }}{% else if a %}{{ -7 | Y }}{% else %}{{ true }}{% endif %}",
    "{% for x in l | X %}{{ x | Y }}{% endfor %}",
    "{% for x in l %}{{ x | X }}{{ loop.index | Y }}{% endfor %}",
    "{% with a as b %}{{ b | X }};{{ b?.c | Y }}{% endwith %}",
    "{% with a | X as b %}{{ b }}{% endwith %}",
    "{% include \"t\" %}{{ a | X }}",
    "{% include \"t\" with o %}{{ o.c | X }}",
    "{% include \"t\" with a | X %}",
    "{% for k, v in o %}{{ k | X }}{{ v | Y }}{% endfor %}",
];

/// params: program, default formatter
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_min_format() {
    let (p, d) = (param(0), param(1));
    let names = ["m", "mbad", "f", "nofn"];
    let (x, y) = (names[sym::choose(4)], if PROGRAMS[p].contains('Y') { names[sym::choose(4)] } else { "" });
    let main = PROGRAMS[p].replace('X', x).replace('Y', y);
    note!(main);
    let (mut e, mut menv) = (env::engine(), env::model_env());
    match d {
        0 => {}
        1 => {
            e.set_default_formatter(&env::default_esc);
            menv.default = env::mdefault_esc;
        }
        _ => (e, menv) = env::total(e, menv),
    }
    let a = value(1);
    let ctx = Value::from([
        ("a", a),
        ("z", Value::Bool(false)),
        ("l", Value::from(vec![Value::from(1), Value::from("two")])),
        ("o", Value::from([("a", Value::from("oa")), ("c", Value::from(2.5))])),
    ]);
    let set = [("t", String::from("[{{ a }}]")), ("main", main)];
    env::check_set(&mut e, &mut menv, &set, &ctx);
}

