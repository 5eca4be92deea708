//! An independent reference for the template language, written from SYNTAX.md
//! and the module documentation. It shares no code with the crate: a naive
//! leftmost-longest delimiter search, a recursive-descent parser and a direct
//! evaluator. It only uses `upon::Value` as its data type.

use std::collections::BTreeMap;
use upon::Value;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    BeginExpr,
    EndExpr,
    BeginBlock,
    EndBlock,
    BeginComment,
    EndComment,
}
use Kind::*;

pub struct Syntax {
    pats: Vec<(Kind, bool, Vec<u8>)>,
}

pub type Pair<'a> = Option<(&'a [u8], &'a [u8])>;

impl Syntax {
    pub fn new(expr: Pair, block: Pair, comment: Pair) -> Self {
        let mut pats = Vec::new();
        for (pair, b, e) in [
            (expr, BeginExpr, EndExpr),
            (block, BeginBlock, EndBlock),
            (comment, BeginComment, EndComment),
        ] {
            if let Some((begin, end)) = pair {
                pats.push((b, false, begin.to_vec()));
                pats.push((e, false, end.to_vec()));
                pats.push((b, true, [begin, b"-"].concat()));
                pats.push((e, true, [b"-", end].concat()));
            }
        }
        Self { pats }
    }
    pub fn default() -> Self {
        Self::new(
            Some((b"{{", b"}}")),
            Some((b"{%", b"%}")),
            Some((b"{#", b"#}")),
        )
    }
    /// The longest delimiter starting exactly at `i`.
    fn at(&self, s: &[u8], i: usize) -> Option<(Kind, bool, usize)> {
        let mut best: Option<(Kind, bool, usize)> = None;
        for (k, t, p) in &self.pats {
            let longer = match best {
                None => true,
                Some((_, _, n)) => p.len() > n,
            };
            if longer && has_at(s, i, p) {
                best = Some((*k, *t, p.len()));
            }
        }
        best
    }
    /// Leftmost, then longest.
    fn find(&self, s: &[u8], from: usize) -> Option<(Kind, bool, usize, usize)> {
        let mut i = from;
        while i < s.len() {
            if let Some((k, t, n)) = self.at(s, i) {
                return Some((k, t, i, i + n));
            }
            i += 1;
        }
        None
    }
}

fn has_at(s: &[u8], i: usize, p: &[u8]) -> bool {
    if i + p.len() > s.len() {
        return false;
    }
    let mut k = 0;
    while k < p.len() {
        if s[i + k] != p[k] {
            return false;
        }
        k += 1;
    }
    true
}

/// Length of the Unicode White_Space character that starts at `i`, else 0.
fn ws_at(s: &[u8], i: usize, end: usize) -> usize {
    let b = s[i];
    if b < 0x80 {
        return (b == b' ' || (9..=13).contains(&b)) as usize;
    }
    if b == 0xC2 && i + 1 < end && (s[i + 1] == 0x85 || s[i + 1] == 0xA0) {
        return 2;
    }
    if i + 2 < end {
        let (c, d) = (s[i + 1], s[i + 2]);
        let yes = match b {
            0xE1 => c == 0x9A && d == 0x80,
            0xE2 => {
                (c == 0x80 && ((0x80..=0x8A).contains(&d) || d == 0xA8 || d == 0xA9 || d == 0xAF))
                    || (c == 0x81 && d == 0x9F)
            }
            0xE3 => c == 0x80 && d == 0x80,
            _ => false,
        };
        if yes {
            return 3;
        }
    }
    0
}

pub fn trim_start(s: &[u8], mut i: usize, j: usize) -> usize {
    while i < j {
        let n = ws_at(s, i, j);
        if n == 0 {
            break;
        }
        i += n;
    }
    i
}

pub fn trim_end(s: &[u8], i: usize, mut j: usize) -> usize {
    while j > i {
        let mut k = j - 1;
        while k > i && s[k] & 0xC0 == 0x80 {
            k -= 1;
        }
        if ws_at(s, k, j) != j - k {
            break;
        }
        j = k;
    }
    j
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Tok {
    Raw,
    BExpr,
    EExpr,
    BBlock,
    EBlock,
    Dot,
    QDot,
    Pipe,
    Comma,
    Colon,
    Plus,
    Minus,
    Name,
    Word,
    Index,
    Number,
    Str,
}

type Token = (Tok, usize, usize);

const KEYWORDS: [&[u8]; 13] = [
    b"if", b"not", b"else", b"endif", b"for", b"in", b"endfor", b"with", b"as", b"endwith",
    b"include", b"true", b"false",
];

/// Whether an identifier can start, or go on, with the character at `i`:
/// letters and so on as Unicode defines them, and the underscore.
fn ident_at(s: &[u8], i: usize, start: bool) -> bool {
    let at = |k: usize| u32::from(s.get(i + k).copied().unwrap_or(0) & 0x3f);
    let b = s[i];
    let c = match b {
        0..=0x7f => {
            return b == b'_' || b.is_ascii_alphabetic() || (!start && b.is_ascii_digit());
        }
        // Without the feature names are ASCII.
        _ if cfg!(not(feature = "unicode")) => return false,
        // Part of a character that goes on.
        0x80..=0xbf => return !start,
        0xc0..=0xdf => u32::from(b & 0x1f) << 6 | at(1),
        0xe0..=0xef => u32::from(b & 0xf) << 12 | at(1) << 6 | at(2),
        _ => u32::from(b & 7) << 18 | at(1) << 12 | at(2) << 6 | at(3),
    };
    match char::from_u32(c) {
        Some(c) if start => unicode_ident::is_xid_start(c),
        Some(c) => unicode_ident::is_xid_continue(c),
        None => false,
    }
}

/// Tokenizes a whole template.
fn lex(sx: &Syntax, s: &[u8]) -> Result<Vec<Token>, ()> {
    let mut out = Vec::new();
    let mut i = 0;
    let mut ltrim = false;
    loop {
        let Some((kind, trim, j, k)) = sx.find(s, i) else {
            if i < s.len() {
                let a = if ltrim { trim_start(s, i, s.len()) } else { i };
                out.push((Tok::Raw, a, s.len()));
            }
            return Ok(out);
        };
        let end = match kind {
            BeginExpr => EndExpr,
            BeginBlock => EndBlock,
            BeginComment => EndComment,
            _ => return Err(()),
        };
        if i < j {
            let b = if trim { trim_end(s, i, j) } else { j };
            let a = if ltrim { trim_start(s, i, b) } else { i };
            out.push((Tok::Raw, a, b));
        }
        if kind == BeginComment {
            match sx.find(s, k) {
                Some((EndComment, t, _, n)) => {
                    ltrim = t;
                    i = n;
                }
                _ => return Err(()),
            }
            continue;
        }
        out.push((if kind == BeginExpr { Tok::BExpr } else { Tok::BBlock }, j, k));
        // Inside a tag.
        let mut p = k;
        let mut path = false;
        loop {
            if p >= s.len() {
                return Err(());
            }
            if let Some((kd, t, n)) = sx.at(s, p) {
                if kd != end {
                    return Err(());
                }
                out.push((if end == EndExpr { Tok::EExpr } else { Tok::EBlock }, p, p + n));
                ltrim = t;
                i = p + n;
                break;
            }
            let b = s[p];
            let mut q = p + 1;
            let tk = if b == b' ' || b == b'\t' {
                p = q;
                continue;
            } else if b == b'.' {
                Tok::Dot
            } else if b == b'|' {
                path = false;
                Tok::Pipe
            } else if b == b',' {
                path = false;
                Tok::Comma
            } else if b == b':' {
                path = false;
                Tok::Colon
            } else if b == b'+' {
                Tok::Plus
            } else if b == b'-' {
                Tok::Minus
            } else if b == b'?' {
                if q < s.len() && s[q] == b'.' {
                    q += 1;
                    Tok::QDot
                } else {
                    return Err(());
                }
            } else if b == b'"' {
                loop {
                    if q >= s.len() || s[q] == b'\n' || s[q] == b'\r' {
                        return Err(());
                    }
                    if s[q] == b'"' {
                        q += 1;
                        break;
                    }
                    if s[q] == b'\\' {
                        // The escaped character cannot end the literal.
                        q += 1;
                        if q >= s.len() || s[q] == b'\n' || s[q] == b'\r' {
                            return Err(());
                        }
                    }
                    q += 1;
                }
                Tok::Str
            } else if b.is_ascii_digit() {
                if path {
                    while q < s.len() && s[q].is_ascii_digit() {
                        q += 1;
                    }
                    Tok::Index
                } else {
                    while q < s.len() && is_number(s[q]) {
                        q += 1;
                    }
                    // The hyphen of an end delimiter.
                    if s[q - 1] == b'-' && sx.at(s, q - 1).is_some() {
                        q -= 1;
                    }
                    Tok::Number
                }
            } else if ident_at(s, p, true) {
                while q < s.len() && ident_at(s, q, false) {
                    q += 1;
                }
                let w = &s[p..q];
                if KEYWORDS.iter().any(|k| *k == w) {
                    path = false;
                    Tok::Word
                } else {
                    path = true;
                    Tok::Name
                }
            } else {
                return Err(());
            };
            out.push((tk, p, q));
            p = q;
        }
    }
}

fn is_number(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_' || b == b'-' || b == b'+' || b == b'.'
}

////////////////////////////////////////////////////////////////////////////////

#[derive(Clone, Debug)]
pub enum Acc {
    Key(String),
    Index(usize),
}

pub type Path = Vec<(bool, Acc)>;

#[derive(Clone, Debug)]
pub enum Base {
    Lit(Value),
    Path(Path),
}

#[derive(Clone, Debug)]
pub enum Expr {
    Base(Base),
    Call(Box<Expr>, String, Option<Vec<Base>>),
}

pub enum Stmt {
    Raw(Vec<u8>),
    Emit(Expr),
    If(Vec<(bool, Expr, Vec<Stmt>)>, Option<Vec<Stmt>>),
    For(String, Option<String>, Expr, Vec<Stmt>),
    With(Expr, String, Vec<Stmt>),
    Include(String, Option<Expr>),
}

struct Parser<'a> {
    s: &'a [u8],
    t: Vec<Token>,
    i: usize,
}

enum Stop {
    End,
    Else,
    ElseIf(bool, Expr),
    EndIf,
    EndFor,
    EndWith,
}

impl<'a> Parser<'a> {
    fn peek(&self) -> Option<Tok> {
        self.t.get(self.i).map(|t| t.0)
    }
    fn take(&mut self, k: Tok) -> Result<&'a [u8], ()> {
        match self.t.get(self.i) {
            Some(&(tk, a, b)) if tk == k => {
                self.i += 1;
                Ok(&self.s[a..b])
            }
            _ => Err(()),
        }
    }
    fn is_word(&self, w: &[u8]) -> bool {
        match self.t.get(self.i) {
            Some(&(Tok::Word, a, b)) => &self.s[a..b] == w,
            _ => false,
        }
    }
    fn word(&mut self, w: &[u8]) -> Result<(), ()> {
        if self.is_word(w) {
            self.i += 1;
            Ok(())
        } else {
            Err(())
        }
    }
    fn name(&mut self) -> Result<String, ()> {
        self.take(Tok::Name).map(text)
    }

    fn stmts(&mut self) -> Result<(Vec<Stmt>, Stop), ()> {
        let mut out = Vec::new();
        loop {
            match self.peek() {
                None => return Ok((out, Stop::End)),
                Some(Tok::Raw) => {
                    let r = self.take(Tok::Raw)?;
                    out.push(Stmt::Raw(r.to_vec()));
                }
                Some(Tok::BExpr) => {
                    self.i += 1;
                    let e = self.expr()?;
                    self.take(Tok::EExpr)?;
                    out.push(Stmt::Emit(e));
                }
                Some(Tok::BBlock) => {
                    self.i += 1;
                    let w = self.take(Tok::Word)?;
                    let stop = if w == b"if" {
                        let (not, e) = self.cond()?;
                        self.take(Tok::EBlock)?;
                        out.push(self.if_chain(not, e)?);
                        None
                    } else if w == b"for" {
                        let k = self.name()?;
                        let v = if self.peek() == Some(Tok::Comma) {
                            self.i += 1;
                            Some(self.name()?)
                        } else {
                            None
                        };
                        self.word(b"in")?;
                        let e = self.expr()?;
                        self.take(Tok::EBlock)?;
                        match self.stmts()? {
                            (body, Stop::EndFor) => out.push(Stmt::For(k, v, e, body)),
                            _ => return Err(()),
                        }
                        None
                    } else if w == b"with" {
                        let e = self.expr()?;
                        self.word(b"as")?;
                        let n = self.name()?;
                        self.take(Tok::EBlock)?;
                        match self.stmts()? {
                            (body, Stop::EndWith) => out.push(Stmt::With(e, n, body)),
                            _ => return Err(()),
                        }
                        None
                    } else if w == b"include" {
                        let raw = self.take(Tok::Str)?;
                        let n = text(&unescape(raw)?);
                        let g = if self.is_word(b"with") {
                            self.i += 1;
                            Some(self.expr()?)
                        } else {
                            None
                        };
                        self.take(Tok::EBlock)?;
                        out.push(Stmt::Include(n, g));
                        None
                    } else if w == b"else" {
                        Some(if self.is_word(b"if") {
                            self.i += 1;
                            let (not, e) = self.cond()?;
                            Stop::ElseIf(not, e)
                        } else {
                            Stop::Else
                        })
                    } else if w == b"endif" {
                        Some(Stop::EndIf)
                    } else if w == b"endfor" {
                        Some(Stop::EndFor)
                    } else if w == b"endwith" {
                        Some(Stop::EndWith)
                    } else {
                        return Err(());
                    };
                    if let Some(stop) = stop {
                        self.take(Tok::EBlock)?;
                        return Ok((out, stop));
                    }
                }
                Some(_) => return Err(()),
            }
        }
    }

    fn if_chain(&mut self, not: bool, e: Expr) -> Result<Stmt, ()> {
        let mut arms = Vec::new();
        let mut cur = (not, e);
        loop {
            let (body, stop) = self.stmts()?;
            arms.push((cur.0, cur.1, body));
            match stop {
                Stop::EndIf => return Ok(Stmt::If(arms, None)),
                Stop::ElseIf(n, c) => cur = (n, c),
                Stop::Else => match self.stmts()? {
                    (body, Stop::EndIf) => return Ok(Stmt::If(arms, Some(body))),
                    _ => return Err(()),
                },
                _ => return Err(()),
            }
        }
    }

    fn cond(&mut self) -> Result<(bool, Expr), ()> {
        if self.is_word(b"not") {
            self.i += 1;
            Ok((true, self.expr()?))
        } else {
            Ok((false, self.expr()?))
        }
    }

    fn expr(&mut self) -> Result<Expr, ()> {
        let mut e = Expr::Base(self.base()?);
        while self.peek() == Some(Tok::Pipe) {
            self.i += 1;
            let n = self.name()?;
            let args = if self.peek() == Some(Tok::Colon) {
                let mut v = Vec::new();
                loop {
                    self.i += 1;
                    v.push(self.base()?);
                    if self.peek() != Some(Tok::Comma) {
                        break;
                    }
                }
                Some(v)
            } else {
                None
            };
            e = Expr::Call(Box::new(e), n, args);
        }
        Ok(e)
    }

    fn base(&mut self) -> Result<Base, ()> {
        let (tk, a, b) = *self.t.get(self.i).ok_or(())?;
        self.i += 1;
        let w = &self.s[a..b];
        match tk {
            Tok::Word if w == b"true" => Ok(Base::Lit(Value::Bool(true))),
            Tok::Word if w == b"false" => Ok(Base::Lit(Value::Bool(false))),
            Tok::Minus => Ok(Base::Lit(number(self.take(Tok::Number)?, true)?)),
            Tok::Plus => Ok(Base::Lit(number(self.take(Tok::Number)?, false)?)),
            Tok::Number => Ok(Base::Lit(number(w, false)?)),
            Tok::Str => Ok(Base::Lit(Value::String(text(&unescape(w)?)))),
            Tok::Name => {
                let mut p = vec![(false, Acc::Key(text(w)))];
                loop {
                    let opt = match self.peek() {
                        Some(Tok::Dot) => false,
                        Some(Tok::QDot) => true,
                        _ => return Ok(Base::Path(p)),
                    };
                    self.i += 1;
                    let (tk, a, b) = *self.t.get(self.i).ok_or(())?;
                    self.i += 1;
                    let w = &self.s[a..b];
                    match tk {
                        Tok::Name => p.push((opt, Acc::Key(text(w)))),
                        Tok::Index => p.push((opt, Acc::Index(index(w)?))),
                        _ => return Err(()),
                    }
                }
            }
            _ => Err(()),
        }
    }
}

fn text(b: &[u8]) -> String {
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}

fn index(w: &[u8]) -> Result<usize, ()> {
    let mut n: u64 = 0;
    for d in w {
        let d = u64::from(d - b'0');
        if n > u64::MAX / 10 || (n == u64::MAX / 10 && d > u64::MAX % 10) {
            return Err(());
        }
        n = n * 10 + d;
    }
    Ok(n as usize)
}

/// The value of a number literal: an integer in base 2, 8, 10 or 16 if it is
/// one and it fits in an `i64`, else a float.
pub fn number(w: &[u8], neg: bool) -> Result<Value, ()> {
    if let Some(n) = integer(w, neg) {
        return Ok(Value::Integer(n));
    }
    let s = std::str::from_utf8(w).map_err(drop)?;
    let f: f64 = s.parse().map_err(drop)?;
    Ok(Value::Float(if neg { -f } else { f }))
}

fn integer(w: &[u8], neg: bool) -> Option<i64> {
    let (radix, digits): (u64, _) = if w.len() >= 2 && w[0] == b'0' && w[1] == b'b' {
        (2, &w[2..])
    } else if w.len() >= 2 && w[0] == b'0' && w[1] == b'o' {
        (8, &w[2..])
    } else if w.len() >= 2 && w[0] == b'0' && w[1] == b'x' {
        (16, &w[2..])
    } else {
        (10, w)
    };
    let limit = 1 << 63;
    let mut n: u64 = 0;
    for &b in digits {
        if b == b'_' {
            continue;
        }
        let d = match b {
            b'0'..=b'9' => b - b'0',
            b'a'..=b'f' => b - b'a' + 10,
            b'A'..=b'F' => b - b'A' + 10,
            _ => return None,
        };
        if u64::from(d) >= radix || n > limit / radix {
            return None;
        }
        n = n * radix + u64::from(d);
    }
    if neg && n <= limit {
        Some((n as i64).wrapping_neg())
    } else if !neg && n < limit {
        Some(n as i64)
    } else {
        None
    }
}

/// Contents of a string literal, given with its quotes.
pub fn unescape(w: &[u8]) -> Result<Vec<u8>, ()> {
    let w = &w[1..w.len() - 1];
    let mut out = Vec::new();
    let mut i = 0;
    while i < w.len() {
        if w[i] == b'\\' {
            i += 1;
            out.push(match w[i] {
                b'n' => b'\n',
                b'r' => b'\r',
                b't' => b'\t',
                b'\\' => b'\\',
                b'"' => b'"',
                _ => return Err(()),
            });
        } else {
            out.push(w[i]);
        }
        i += 1;
    }
    Ok(out)
}

pub fn parse(sx: &Syntax, s: &[u8]) -> Result<Vec<Stmt>, ()> {
    let t = lex(sx, s)?;
    let mut p = Parser { s, t, i: 0 };
    match p.stmts()? {
        (v, Stop::End) => Ok(v),
        _ => Err(()),
    }
}

////////////////////////////////////////////////////////////////////////////////

pub enum Func {
    Filter(usize, fn(Value, &[Value]) -> Result<Value, ()>),
    Formatter(fn(&mut Vec<u8>, &Value) -> Result<(), ()>),
}

pub struct Env<'a> {
    /// Names of the included templates, in order.
    pub included: std::cell::RefCell<Vec<String>>,
    pub funcs: Vec<(&'static str, Func)>,
    pub default: fn(&mut Vec<u8>, &Value) -> Result<(), ()>,
    pub templates: Vec<(&'a str, &'a [Stmt])>,
    pub max_depth: usize,
}

pub enum Globals<'a> {
    Value(&'a Value),
    Fn(&'a dyn Fn(&Path) -> Result<Value, ()>),
}

enum Frame<'a> {
    Globals(Globals<'a>),
    Scope(Value),
    Var(String, Value),
    Item(String, Value),
    Pair(String, Value, String, Value),
    Loop(usize, usize),
    Boundary,
}

pub fn default_format(out: &mut Vec<u8>, v: &Value) -> Result<(), ()> {
    match v {
        Value::None => {}
        Value::Bool(true) => out.extend_from_slice(b"true"),
        Value::Bool(false) => out.extend_from_slice(b"false"),
        Value::Integer(i) => out.extend_from_slice(i.to_string().as_bytes()),
        Value::Float(f) => out.extend_from_slice(f.to_string().as_bytes()),
        Value::String(s) => out.extend_from_slice(s.as_bytes()),
        Value::List(_) | Value::Map(_) => return Err(()),
    }
    Ok(())
}

pub fn truthy(v: &Value) -> bool {
    match v {
        Value::None => false,
        Value::Bool(b) => *b,
        Value::Integer(i) => *i != 0,
        Value::Float(f) => !(f.to_bits() << 1 == 0),
        Value::String(s) => s.len() != 0,
        Value::List(l) => l.len() != 0,
        Value::Map(m) => m.len() != 0,
    }
}

impl<'a> Env<'a> {
    pub fn new() -> Self {
        Self {
            included: Default::default(),
            funcs: Vec::new(),
            default: default_format,
            templates: Vec::new(),
            max_depth: 64,
        }
    }

    pub fn render(&self, t: &[Stmt], g: Globals) -> Result<Vec<u8>, ()> {
        let (out, r) = self.render_prefix(t, g);
        r.map(|()| out)
    }

    /// The output up to the first failure, if any.
    pub fn render_prefix(&self, t: &[Stmt], g: Globals) -> (Vec<u8>, Result<(), ()>) {
        let mut out = Vec::new();
        let mut frames = vec![Frame::Globals(g)];
        let r = self.stmts(t, &mut frames, &mut out, 1);
        (out, r)
    }

    fn stmts(
        &self,
        t: &[Stmt],
        fr: &mut Vec<Frame>,
        out: &mut Vec<u8>,
        depth: usize,
    ) -> Result<(), ()> {
        for s in t {
            match s {
                Stmt::Raw(r) => out.extend_from_slice(r),
                Stmt::Emit(e) => match e {
                    Expr::Call(inner, name, None) => {
                        let v = self.eval(inner, fr)?;
                        match self.func(name)? {
                            Func::Filter(n, f) => {
                                if *n != 0 {
                                    return Err(());
                                }
                                let r = f(v, &[])?;
                                (self.default)(out, &r)?
                            }
                            Func::Formatter(f) => f(out, &v)?,
                        }
                    }
                    e => {
                        let v = self.eval(e, fr)?;
                        (self.default)(out, &v)?
                    }
                },
                Stmt::If(arms, otherwise) => {
                    let mut done = false;
                    for (not, c, body) in arms {
                        let v = self.eval(c, fr)?;
                        if truthy(&v) != *not {
                            self.stmts(body, fr, out, depth)?;
                            done = true;
                            break;
                        }
                    }
                    if !done {
                        if let Some(body) = otherwise {
                            self.stmts(body, fr, out, depth)?;
                        }
                    }
                }
                Stmt::With(e, n, body) => {
                    let v = self.eval(e, fr)?;
                    fr.push(Frame::Var(n.clone(), v));
                    self.stmts(body, fr, out, depth)?;
                    fr.pop();
                }
                Stmt::For(k, v2, e, body) => match (self.eval(e, fr)?, v2) {
                    (Value::List(l), None) => {
                        let n = l.len();
                        for (i, x) in l.into_iter().enumerate() {
                            fr.push(Frame::Loop(i, n));
                            fr.push(Frame::Item(k.clone(), x));
                            self.stmts(body, fr, out, depth)?;
                            fr.pop();
                            fr.pop();
                        }
                    }
                    (Value::Map(m), Some(v)) => {
                        let n = m.len();
                        for (i, (x, y)) in m.into_iter().enumerate() {
                            fr.push(Frame::Loop(i, n));
                            fr.push(Frame::Pair(k.clone(), Value::String(x), v.clone(), y));
                            self.stmts(body, fr, out, depth)?;
                            fr.pop();
                            fr.pop();
                        }
                    }
                    _ => return Err(()),
                },
                Stmt::Include(name, with) => {
                    let g = match with {
                        Some(e) => Some(self.eval(e, fr)?),
                        None => None,
                    };
                    self.included.borrow_mut().push(name.clone());
                    let t = self
                        .templates
                        .iter()
                        .find(|(n, _)| *n == name.as_str())
                        .ok_or(())?
                        .1;
                    if depth + 1 > self.max_depth {
                        return Err(());
                    }
                    match g {
                        Some(g) => {
                            fr.push(Frame::Boundary);
                            fr.push(Frame::Scope(g));
                            self.stmts(t, fr, out, depth + 1)?;
                            fr.pop();
                            fr.pop();
                        }
                        None => self.stmts(t, fr, out, depth + 1)?,
                    }
                }
            }
        }
        Ok(())
    }

    fn func(&self, name: &str) -> Result<&Func, ()> {
        match self.funcs.iter().find(|(n, _)| *n == name) {
            Some((_, f)) => Ok(f),
            None => Err(()),
        }
    }

    fn eval(&self, e: &Expr, fr: &[Frame]) -> Result<Value, ()> {
        match e {
            Expr::Base(b) => self.base(b, fr),
            Expr::Call(inner, name, args) => {
                let v = self.eval(inner, fr)?;
                match self.func(name)? {
                    Func::Formatter(_) => Err(()),
                    Func::Filter(n, f) => {
                        let mut a = Vec::new();
                        for b in args.iter().flatten() {
                            a.push(self.base(b, fr)?);
                        }
                        if a.len() != *n {
                            return Err(());
                        }
                        f(v, &a)
                    }
                }
            }
        }
    }

    fn base(&self, b: &Base, fr: &[Frame]) -> Result<Value, ()> {
        let p = match b {
            Base::Lit(v) => return Ok(v.clone()),
            Base::Path(p) => p,
        };
        let Acc::Key(first) = &p[0].1 else {
            return Err(());
        };
        for f in fr.iter().rev() {
            match f {
                Frame::Globals(Globals::Fn(f)) => return f(p),
                Frame::Globals(Globals::Value(Value::Map(m))) | Frame::Scope(Value::Map(m)) => {
                    if let Some(v) = get(m, first) {
                        return walk(v, &p[1..]);
                    }
                }
                Frame::Globals(_) | Frame::Scope(_) => {}
                Frame::Var(n, v) | Frame::Item(n, v) => {
                    if n == first {
                        return walk(v, &p[1..]);
                    }
                }
                Frame::Pair(k, kv, v, vv) => {
                    if k == first {
                        return walk(kv, &p[1..]);
                    }
                    if v == first {
                        return walk(vv, &p[1..]);
                    }
                }
                Frame::Loop(i, n) => {
                    if first == "loop" {
                        let m = Value::from([
                            ("index", Value::Integer(*i as i64)),
                            ("first", Value::Bool(*i == 0)),
                            ("last", Value::Bool(*i + 1 == *n)),
                        ]);
                        return walk(&m, &p[1..]);
                    }
                }
                Frame::Boundary => return Err(()),
            }
        }
        Err(())
    }
}

fn get<'v>(m: &'v BTreeMap<String, Value>, k: &str) -> Option<&'v Value> {
    for (n, v) in m {
        if n == k {
            return Some(v);
        }
    }
    None
}

/// Follows the remaining accessors. A missing member is an error for `.` and
/// makes the whole expression `None` for `?.`.
pub fn walk(v: &Value, p: &[(bool, Acc)]) -> Result<Value, ()> {
    let mut v = v;
    for (opt, acc) in p {
        let next = match (v, acc) {
            (Value::Map(m), Acc::Key(k)) => get(m, k),
            (Value::List(l), Acc::Index(i)) => l.get(*i),
            _ => return Err(()),
        };
        v = match next {
            Some(v) => v,
            None if *opt => return Ok(Value::None),
            None => return Err(()),
        };
    }
    Ok(v.clone())
}
