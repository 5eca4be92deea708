#![allow(clippy::all)]
/// Records the input of a native replay for the report.
macro_rules! note {
    ($($e:expr),+) => {
        #[cfg(feature = "native")]
        { $(crate::native::note(&format!("{:?}", $e));)+ }
    };
}

/// A value, like `upon::value!` gives.
#[cfg(feature = "serde")]
macro_rules! value {
    ($($t:tt)*) => { upon::value!($($t)*) };
}
#[cfg(not(feature = "serde"))]
macro_rules! value {
    (@ None) => { upon::Value::None };
    (@ [$($v:tt),*]) => { upon::Value::List(vec![$(value!(@ $v)),*]) };
    (@ {$($t:tt)*}) => { value!($($t)*) };
    (@ $v:expr) => { upon::Value::from($v) };
    ($($k:ident: $v:tt),* $(,)?) => {{
        let mut m: std::collections::BTreeMap<String, upon::Value> = Default::default();
        $(m.insert(String::from(stringify!($k)), value!(@ $v));)*
        upon::Value::Map(m)
    }};
}

macro_rules! harnesses {
    ($t:ident: $($m:ident: $($h:ident)+;)+) => {
        pub const $t: &[(&str, extern "C" fn())] = &[
            $($((stringify!($h), $m::$h),)+)+
        ];
    };
}

mod env;
mod model;
#[cfg(feature = "native")]
mod native;
mod sym;
mod p_error;
mod p_long;
mod p_min;
mod p_syntax;
mod p_total;
mod p_value;
#[cfg(feature = "full")]
mod p_convert;
#[cfg(feature = "filters")]
mod p_filter;
#[cfg(feature = "full")]
mod p_render;

harnesses! { BASE:
    p_total: h_total h_render_total h_include_total;
    p_syntax: h_hole h_blocks h_ident h_tokens h_delims h_sym_delims h_sym_begin h_long_delims h_trim h_raw;
    p_error: h_error h_error_name;
    p_value: h_literal h_lookup h_access h_if h_if_nested h_loop h_loop_nested h_loop_type h_loop_kinds h_loop_long h_nest;
    p_min: h_min_format;
    p_long: h_long h_long_value h_deep h_flat;
}

#[cfg(feature = "full")]
harnesses! { FULL:
    p_render: h_format h_default_format h_writer h_include_depth h_include_deep h_include_name h_template_fn h_registry h_registry_names h_entry h_value_fn h_config;
    p_convert: h_to_value h_map_key h_value_identity h_from;
}
#[cfg(feature = "filters")]
harnesses! { FILTERS:
    p_filter: h_arg h_filter_call h_filter_return h_filter_state;
}
#[cfg(not(feature = "filters"))]
pub const FILTERS: &[(&str, extern "C" fn())] = &[];
#[cfg(not(feature = "full"))]
pub const FULL: &[(&str, extern "C" fn())] = &[];

#[cfg(feature = "native")]
fn main() {
    native::main(&[BASE, FILTERS, FULL].concat())
}

// Keeps every harness in the IR.
#[cfg(not(feature = "native"))]
fn main() {
    for (_, f) in BASE.iter().chain(FILTERS).chain(FULL) {
        f()
    }
}
