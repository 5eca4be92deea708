//! Concrete replay: runs a harness on the bytes of a solver model.
//!
//! Reads lines `harness params(,separated or -) hexbytes(or -)` and prints one
//! JSON object per line.

use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic;

struct State {
    bytes: Vec<u8>,
    pos: usize,
    params: Vec<u64>,
    hash: u64,
    len: u64,
    panic: Option<String>,
    notes: String,
}

thread_local! {
    static S: RefCell<State> = RefCell::new(State {
        bytes: vec![], pos: 0, params: vec![], hash: 0, len: 0, panic: None, notes: String::new(),
    });
}

pub struct Fail(u32);
pub struct Assume;

pub unsafe fn __symex_bytes(p: *mut u8, n: usize) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        for i in 0..n {
            let b = s.bytes.get(s.pos).copied().unwrap_or(0);
            s.pos += 1;
            *p.add(i) = b;
        }
    })
}
pub unsafe fn __symex_fail(code: u32) {
    panic::resume_unwind(Box::new(Fail(code)))
}
pub unsafe fn __symex_assume(c: bool) {
    if !c {
        panic::resume_unwind(Box::new(Assume))
    }
}
pub fn note(t: &str) {
    S.with(|s| {
        let n = &mut s.borrow_mut().notes;
        if n.len() < 2000 {
            n.push_str(" | ");
            n.push_str(t);
        }
    })
}
pub unsafe fn __symex_reach(_: u32) {}
pub unsafe fn __symex_param(i: u32) -> u64 {
    S.with(|s| s.borrow().params.get(i as usize).copied().unwrap_or(0))
}
pub unsafe fn __symex_conc(v: u64) -> u64 {
    v
}
pub unsafe fn __symex_observe(p: *const u8, n: usize) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let mut h = s.hash;
        let step = |h: u64, b: u8| (h ^ u64::from(b)).wrapping_mul(1099511628211);
        for i in 0..n {
            h = step(h, *p.add(i));
        }
        h = step(h, 0xff);
        h = step(h, n as u8);
        s.hash = h;
        s.len += n as u64 + 1;
    })
}

fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn main(table: &[(&str, extern "C" fn())]) {
    panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        S.with(|s| s.borrow_mut().panic = Some(format!("{loc}: {msg}")));
    }));
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut it = line.split_whitespace();
        let (Some(name), Some(params), Some(hex)) = (it.next(), it.next(), it.next()) else {
            continue;
        };
        let bytes = match hex {
            "-" => vec![],
            h => (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect(),
        };
        let params = match params {
            "-" => vec![],
            p => p.split(',').map(|x| x.parse().unwrap()).collect(),
        };
        S.with(|s| {
            *s.borrow_mut() = State {
                bytes,
                pos: 0,
                params,
                hash: 1469598103934665603,
                len: 0,
                panic: None,
                notes: String::new(),
            }
        });
        let Some((_, f)) = table.iter().find(|(n, _)| *n == name) else {
            println!("{{\"outcome\":\"unknown\"}}");
            continue;
        };
        // Announce the run first, so that a crash or a hang is attributed.
        {
            let mut o = out.lock();
            o.flush().unwrap();
        }
        let r = panic::catch_unwind(|| f());
        let (outcome, code) = match &r {
            Ok(()) => ("ok", 0),
            Err(p) => match (p.downcast_ref::<Fail>(), p.is::<Assume>()) {
                (Some(f), _) => ("fail", f.0),
                (_, true) => ("assume", 0),
                _ => ("panic", 0),
            },
        };
        S.with(|s| {
            let s = s.borrow();
            let detail = format!("{} {}", s.panic.clone().unwrap_or_default(), s.notes);
            let mut o = out.lock();
            writeln!(
                o,
                "{{\"outcome\":\"{outcome}\",\"code\":{code},\"hash\":\"{:016x}\",\"len\":{},\"detail\":{}}}",
                s.hash,
                s.len,
                quote(&detail)
            )
            .unwrap();
            o.flush().unwrap();
        });
    }
}
