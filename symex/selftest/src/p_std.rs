use crate::sym::{self, param};
use std::collections::*;
use std::cell::*;
use std::rc::Rc;
use std::sync::{atomic::*, Arc, Mutex, OnceLock, RwLock};
use std::borrow::Cow;
use std::fmt::Write;

fn st() -> String { // symbolic ascii string of 4 of "ab -."
    let b = sym::vec(3);
    for c in &b { sym::assume(*c < 128); }
    String::from_utf8(b).unwrap()
}
fn obs(s: &str) { sym::observe(s.as_bytes()); }
thread_local! { static TL: RefCell<Vec<u32>> = RefCell::new(Vec::new()); static TC: Cell<u32> = const { Cell::new(0) }; }
static AT: AtomicUsize = AtomicUsize::new(0);
static MX: Mutex<Vec<u8>> = Mutex::new(Vec::new());
static OL: OnceLock<String> = OnceLock::new();
struct D<'a>(&'a Cell<u32>);
impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1); } }
trait Shape { fn a(&self) -> u32; }
impl Shape for u8 { fn a(&self) -> u32 { *self as u32 * 2 } }
impl Shape for String { fn a(&self) -> u32 { self.len() as u32 } }
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum En { A, B(u8), C { x: String } }

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_std() {
    let s = st();
    let b = s.as_bytes();
    let mut o = String::new();
    match param(0) {
        0 => { for w in s.split_whitespace() { o.push_str(w); o.push('|'); } for w in s.split('a') { o += w; o.push('/'); } for w in s.splitn(2, "-") { o += w; } for w in s.rsplit('.') { o += w } }
        1 => { o = s.replace("a", "xyz"); o += &s.to_uppercase(); o += &s.to_ascii_lowercase(); o += &s.repeat(3); }
        2 => { write!(o, "{:?} {:?} {:?}", s.find("ab"), s.rfind('b'), s.find(|c: char| c.is_numeric())).unwrap(); write!(o, "{:?}", s.contains("aa")).unwrap(); }
        3 => { write!(o, "{:?} {} {} {:>6}|{:<6}|{:^6}|{:#?}", s, s.trim(), s.trim_start(), s, s, s, (1, "x")).unwrap(); }
        4 => { for (i, c) in s.char_indices().rev() { write!(o, "{i}{c}").unwrap(); } for l in s.lines() { o += l; o.push('L'); } }
        5 => { let mut v: Vec<u8> = b.to_vec(); v.sort(); v.dedup(); write!(o, "{:?}", v.len()).unwrap(); v.reverse(); v.retain(|c| *c > 50); v.extend_from_slice(b); v.drain(..1); v.insert(1, 7); v.swap(0, 1); v.rotate_left(1); o.push_str(&String::from_utf8(v).unwrap()); }
        6 => { let mut h: HashMap<String, u32> = HashMap::new(); for c in s.chars() { *h.entry(c.to_string()).or_insert(0) += 1; } let mut k: Vec<_> = h.iter().collect(); k.sort(); for (a, n) in k { o += a; o.push((b'0' + *n as u8) as char); } }
        7 => { let mut h = BTreeMap::new(); for (i, c) in b.iter().enumerate() { h.insert(*c, i); } for (a, n) in h.range(60..) { o.push(*a as char); o.push((b'0' + *n as u8) as char); } let st: BTreeSet<u8> = b.iter().copied().collect(); o.push((48 + st.len() as u8) as char); h.remove(&97); o.push((48 + h.len() as u8) as char); if let Some((k, _)) = h.first_key_value() { o.push(*k as char) } }
        8 => { let mut q: VecDeque<u8> = b.iter().copied().collect(); q.rotate_left(1); q.push_front(b'x'); q.pop_back(); for c in &q { o.push(*c as char) } let mut h: BinaryHeap<u8> = b.iter().copied().collect(); while let Some(c) = h.pop() { o.push(c as char) } let l: LinkedList<u8> = b.iter().copied().collect(); for c in l { o.push(c as char) } }
        9 => { for w in b.windows(2) { o.push(if w[0] < w[1] { '<' } else { '>' }) } for c in b.chunks(2) { o.push((48 + c.len() as u8) as char) } for (x, y) in b.iter().zip(b.iter().skip(1)) { o.push(if x == y { '=' } else { '!' }) } let m = b.iter().max().unwrap(); o.push(*m as char); let f = b.iter().fold(0u32, |a, c| a.wrapping_mul(31) + *c as u32); write!(o, "{}", f % 2).unwrap(); }
        10 => { let r = Rc::new(RefCell::new(Vec::new())); let r2 = Rc::clone(&r); for c in s.chars() { r2.borrow_mut().push(c); } drop(r2); o.extend(r.borrow().iter()); write!(o, "{}", Rc::strong_count(&r)).unwrap(); let a: Arc<str> = Arc::from(s.as_str()); o += &a; let c: Cow<str> = if b[0] == b'a' { Cow::Borrowed("q") } else { Cow::Owned(s.clone()) }; o += &c; }
        11 => { TL.with(|t| { for c in b { t.borrow_mut().push(*c as u32) } write!(o, "{}", t.borrow().len()).unwrap(); }); TC.with(|c| c.set(c.get() + 1)); AT.fetch_add(b.len(), Ordering::SeqCst); write!(o, "{} {}", AT.load(Ordering::Relaxed), TC.with(|c| c.get())).unwrap(); TL.with(|t| t.borrow_mut().clear()); TC.with(|c| c.set(0)); AT.store(0, Ordering::SeqCst); }
        12 => { MX.lock().unwrap().push(b[0]); let g = MX.lock().unwrap(); write!(o, "{}", g.len()).unwrap(); drop(g); MX.lock().unwrap().clear(); o += OL.get_or_init(|| String::from("init")); let rw = RwLock::new(1); *rw.write().unwrap() += 1; write!(o, "{}", *rw.read().unwrap()).unwrap(); }
        13 => { let c = Cell::new(0); { let _a = D(&c); let _b = D(&c); if b[0] == b'x' { std::mem::forget(_a) } } write!(o, "{}", c.get()).unwrap(); let v: Vec<Box<dyn Shape>> = vec![Box::new(b[0]), Box::new(s.clone())]; write!(o, "{}", v[1].a() + if v[0].a() > 50 { 1 } else { 0 }).unwrap(); }
        14 => { let e = match b[0] { b'a' => En::A, b'b' => En::B(b[1] & 1), _ => En::C { x: s.clone() } }; write!(o, "{:?}", e).unwrap(); let f = e.clone(); write!(o, "{} {:?}", f == e, f.cmp(&En::B(0))).unwrap(); let mut hs = HashSet::new(); hs.insert(e); write!(o, "{}", hs.contains(&f)).unwrap(); }
        15 => { let p: Result<i32, _> = s.parse::<i32>(); match p { Ok(n) => write!(o, "{}", n / 10).unwrap(), Err(e) => write!(o, "{e}").unwrap() } }
        16 => { match s.parse::<f64>() { Ok(_) => o.push('f'), Err(e) => write!(o, "{e}").unwrap() } }
        17 => { let x = i64::from(b[0]) << 3; write!(o, "{} {:?} {:?} {:?}", x.count_ones() + x.leading_zeros(), (x as i32).checked_rem(7), x.checked_mul(i64::MAX), (x as u8).saturating_sub(9)).unwrap(); write!(o, "{:x} {:08b} {:+}", b[1] & 3, b[1] & 7, b[1] & 1).unwrap(); }
        18 => { let w = [s.as_str(), "x", &s].join("--"); o += &w; o += &[&b[..1], &b[1..]].concat().len().to_string(); let (l, r) = s.split_at(1); o += r; o += l; if let Some((l, r)) = s.split_once('a') { o += l; o += r } if let Some(r) = s.strip_prefix("ab") { o += r } o += s.trim_matches('a'); o += s.trim_end_matches("b"); }
        19 => { let i = b.binary_search(&97); write!(o, "{}", i.is_ok()).unwrap(); write!(o, "{:?}", b.iter().position(|c| *c == 98)).unwrap(); write!(o, "{:?} {:?}", b.iter().any(|c| *c == 1), b.iter().all(|c| *c > 2)).unwrap(); write!(o, "{}", b.iter().filter(|c| c.is_ascii_digit()).count()).unwrap(); write!(o, "{:?}", b.iter().rev().step_by(2).take_while(|c| **c > 64).count()).unwrap(); write!(o, "{:?}", b.iter().map(|c| *c as usize).sum::<usize>() > 200).unwrap(); }
        20 => { let mut it = s.chars().peekable(); while let Some(c) = it.next() { if it.peek() == Some(&'a') { it.next(); o.push('A') } else { o.push(c) } } let v: Vec<String> = s.chars().flat_map(|c| c.to_uppercase()).map(String::from).collect(); o += &v.concat(); }
        21 => { let r: Result<Vec<u8>, String> = b.iter().map(|c| if *c > 32 { Ok(*c) } else { Err(format!("bad {}", c & 1)) }).collect(); match r { Ok(v) => o.push_str(std::str::from_utf8(&v).unwrap()), Err(e) => o += &e } let opt: Option<Vec<u8>> = b.iter().map(|c| c.checked_sub(65)).collect(); write!(o, "{}", opt.is_some()).unwrap(); }
        22 => { let mut v: Vec<(u8, usize)> = b.iter().copied().zip(0..).collect(); v.sort_by(|a, b| b.cmp(a)); v.sort_by_key(|x| x.1 % 2); v.sort_unstable(); for (c, i) in v { o.push(c as char); o += &i.to_string(); } let mut w: Vec<u16> = (0..60).map(|i| (i * 37 % 61) as u16).collect(); w.sort(); w.sort_unstable_by(|a, b| b.cmp(a)); write!(o, "{:?}", &w[..5]).unwrap(); }
        23 => { let mut a = [0u8; 16]; a[..3].copy_from_slice(b); a.fill(3); a[5..8].copy_from_slice(b); let n = u64::from_le_bytes(a[..8].try_into().unwrap()); write!(o, "{}", n > 5).unwrap(); let m = u128::from(n) * 3; write!(o, "{}", m > 1u128 << 60).unwrap(); let x = b[0] as f64 * 1.5; write!(o, "{} {}", x.floor() as i64 > 3, x.sqrt() > 2.0).unwrap(); }
        24 => { let f: Box<dyn Fn(&str) -> String> = if b[0] > 64 { Box::new(|x| x.to_string() + "!") } else { let y = s.clone(); Box::new(move |x| format!("{x}{y}")) }; o += &f("q"); let mut cnt = 0; let mut g = |n: i32| { cnt += n; cnt }; g(1); g(2); write!(o, "{cnt}").unwrap(); let fs: [fn(u8) -> u8; 2] = [|x| x ^ 1, |x| x & 1]; o.push((48 + fs[(b[1] > 64) as usize](1)) as char); }
        25 => { let x: Box<str> = s.clone().into_boxed_str(); o += &x; let y: Rc<[u8]> = b.into(); write!(o, "{}", y.len()).unwrap(); let z = std::mem::replace(&mut o, String::new()); o += &z; let t = std::mem::take(&mut o); o = t; let p = Some(3).filter(|x| *x > 1).and_then(|x| (b[0] > 3).then_some(x)).or(Some(4)).xor(None).map_or(0, |v| v); write!(o, "{p}").unwrap(); let oc: OnceCell<u8> = OnceCell::new(); oc.set(1).unwrap(); write!(o, "{:?}", oc.get()).unwrap(); }
        26 => { match std::str::from_utf8(&[0xc3, b[0]]) { Ok(x) => o += x, Err(e) => write!(o, "{e}").unwrap() } o += &String::from_utf8_lossy(&[b[0], 0xff]); match char::from_u32(b[0] as u32 + 0xd7f0) { Some(_) => o.push('c'), None => o.push('n') } write!(o, "{:?}", char::from_digit((b[1] & 15) as u32, 16)).unwrap(); write!(o, "{:?}", (b[2] as char).to_digit(16)).unwrap(); write!(o, "{}", (b[2] as char).is_alphanumeric()).unwrap(); write!(o, "{}", s.escape_debug()).unwrap(); }
        27 => { use std::io::{Write, Read, BufRead, Cursor, BufWriter}; let mut v = Vec::new(); { let mut w = BufWriter::new(&mut v); w.write_all(b).unwrap(); write!(w, "{}", 5).unwrap(); w.flush().unwrap(); } let mut c = Cursor::new(v); let mut l = String::new(); c.read_line(&mut l).unwrap(); o += &l; let mut r = Vec::new(); c.read_to_end(&mut r).unwrap(); o += &r.len().to_string(); let e = std::io::Error::new(std::io::ErrorKind::Other, "boo"); o += &e.to_string(); }
        28 => { let mut acc = Vec::new(); let mut stack = vec![(0usize, b.len())]; while let Some((l, r)) = stack.pop() { if r - l <= 1 { acc.push(b[l]); } else { let m = (l + r) / 2; stack.push((m, r)); stack.push((l, m)); } } o.push_str(std::str::from_utf8(&acc).unwrap()); let mut parts: Vec<&str> = s.split_inclusive(char::is_whitespace).collect(); parts.truncate(2); o += &parts.concat(); let m: Vec<_> = s.match_indices('a').map(|(i, _)| i).collect(); write!(o, "{m:?}").unwrap(); let bt: BTreeMap<String, Vec<u8>> = [(s.clone(), b.to_vec()), ("zz".into(), vec![])].into(); o += &bt.keys().cloned().collect::<String>(); }
        29 => { let big: Vec<u32> = (0..300).map(|i| i ^ b[0] as u32).collect(); write!(o, "{:?}", big.iter().position(|x| *x == 299)).unwrap(); let t = "x".repeat(200) + &s; write!(o, "{:?} {:?} {}", t.find("xa"), t.rfind('x'), t.contains(&s)).unwrap(); write!(o, "{:?}", memchr(b'a', t.as_bytes())).unwrap(); let c2 = t.bytes().filter(|c| *c == b'x').count(); write!(o, "{c2} {}", t.chars().count()).unwrap(); o += if t.is_ascii() { "A" } else { "N" }; }

        30 => { o = s.clone(); o.insert_str(1, "yy"); o.insert(0, 'z'); o.remove(2); o.retain(|c| c != 'b'); let t = o.split_off(1); o += &t; o.truncate(4); o.pop(); let d: String = t.clone().drain(..1).collect(); o += &d; let mut t2 = t.clone(); t2.replace_range(..1, "RR"); o += &t2; t2.make_ascii_uppercase(); o += &t2; o.shrink_to_fit(); o.reserve(100); }
        31 => { write!(o, "{:?} {:?} {:?}", s.chars().nth(1), s.chars().last(), s.bytes().rev().next()).unwrap(); write!(o, "{:?} {:?}", s.get(1..2), s.get(5..)).unwrap(); write!(o, "{:?} {}", s.cmp(&"aaa".to_string()), s.eq_ignore_ascii_case("ABC")).unwrap(); write!(o, "{:?}", s.char_indices().find(|(_, c)| c.is_whitespace())).unwrap(); write!(o, "{}", s.starts_with(['a', 'b'])).unwrap(); write!(o, "{}", s.ends_with(char::is_alphabetic)).unwrap(); }
        32 => { for c in b.chunks_exact(2) { o.push(c[1] as char) } for c in b.rchunks(2) { o.push(c[0] as char) } let mut v: Vec<String> = b.iter().map(|c| format!("{}", *c as char)).collect(); v.sort_by_cached_key(|x| x.to_string()); o += &v.concat(); let (p, q): (Vec<u8>, Vec<u8>) = b.iter().partition(|c| **c > 70); write!(o, "{}{}", p.len(), q.len()).unwrap(); let (p, q): (Vec<u8>, Vec<usize>) = b.iter().map(|c| (*c, 1usize)).unzip(); write!(o, "{}{}", p.len(), q.len()).unwrap(); }
        33 => { let mut n = 0; let it = std::iter::from_fn(|| { n += 1; (n < 4).then_some(n) }); write!(o, "{:?}", it.collect::<Vec<_>>()).unwrap(); write!(o, "{:?}", std::iter::successors(Some(1u32), |x| (*x < 50).then(|| x * 3)).collect::<Vec<_>>()).unwrap(); write!(o, "{:?}", b.iter().chain(b"xy").cycle().take(7).map(|c| *c as char).collect::<String>()).unwrap(); write!(o, "{:?}", b.iter().scan(0u8, |a, c| { *a ^= c; Some(*a > 9) }).collect::<Vec<_>>()).unwrap(); write!(o, "{:?}", b.iter().try_fold(0u8, |a, c| a.checked_add(*c)).is_some()).unwrap(); write!(o, "{:?}", b.iter().min_by(|a, c| c.cmp(a)).is_some()).unwrap(); write!(o, "{:?}", b.iter().max_by_key(|c| **c & 1).map(|c| c & 1)).unwrap(); write!(o, "{:?} {:?}", b.iter().eq(b"abc"), b.iter().lt(b"abc")).unwrap(); write!(o, "{:?}", b.iter().copied().reduce(|a, c| a | c).map(|x| x > 3)).unwrap(); }
        34 => { let a: Box<dyn std::any::Any> = if b[0] > 4 { Box::new(3u32) } else { Box::new(String::from("x")) }; write!(o, "{:?} {}", a.downcast_ref::<u32>(), a.is::<String>()).unwrap(); o += std::any::type_name::<u32>(); let w = std::num::Wrapping(b[0]) + std::num::Wrapping(250); write!(o, "{}", w.0 > 100).unwrap(); let z = std::num::NonZeroU8::new(b[1]); write!(o, "{}", z.is_some()).unwrap(); }
        35 => { let v: Vec<u8> = b.to_vec(); let p = v.as_ptr(); unsafe { o.push(*p.add(1) as char); o.push(*v.get_unchecked(2) as char); o += std::str::from_utf8_unchecked(&v); } let mut m = std::mem::MaybeUninit::<[u8; 4]>::uninit(); m.write([1, 2, 3, b[0]]); let m = unsafe { m.assume_init() }; write!(o, "{}", m[3] > 9).unwrap(); let mut arr = [[0u8; 3]; 3]; for (i, r) in arr.iter_mut().enumerate() { r[i] = b[i]; } write!(o, "{}", arr.iter().flatten().filter(|x| **x > 0).count()).unwrap(); let x = &mut [1, 2, 3, 4][..]; let (l, r) = x.split_at_mut(2); std::mem::swap(&mut l[0], &mut r[0]); write!(o, "{:?}", x).unwrap(); }
        36 => { let x = (b[0] as i128) << 70; let y = x / 7 + (b[1] as i128); write!(o, "{} {}", y > 5, (y % 3) == 0).unwrap(); write!(o, "{}", (x as u128).leading_zeros() > 50).unwrap(); let z = u64::MAX / (b[2] as u64 + 1); write!(o, "{}", z % 2).unwrap(); let f = b[0] as f32 / 3.0; write!(o, "{}", f > 4.0).unwrap(); write!(o, "{:.2} {:e} {:?} {}", 1.5f64, 123.0f64, 0.1f64, 1e21f64).unwrap(); write!(o, "{:?}", (b[0] as f64 * 1e300) as i64 > 3).unwrap(); write!(o, "{:?}", (b[0] as f64).rem_euclid(3.0) > 1.0).unwrap(); write!(o, "{:?}", f64::from(b[1]).total_cmp(&3.0)).unwrap(); }
        37 => { use std::rc::Weak; struct N { v: u8, p: RefCell<Weak<N>>, k: RefCell<Vec<Rc<N>>> } let root = Rc::new(N { v: b[0], p: RefCell::new(Weak::new()), k: RefCell::new(vec![]) }); let kid = Rc::new(N { v: b[1], p: RefCell::new(Rc::downgrade(&root)), k: RefCell::default() }); root.k.borrow_mut().push(kid.clone()); o.push(kid.p.borrow().upgrade().unwrap().v as char); o.push(root.k.borrow()[0].v as char); write!(o, "{}", kid.k.borrow().len()).unwrap(); }
        38 => { fn rec(n: u32, b: &[u8]) -> u32 { if n == 0 { return 0 } let mut x = [n; 10]; x[(n % 10) as usize] += b[0] as u32; rec(n - 1, b) ^ x[(n % 10) as usize] } write!(o, "{}", rec(300, b) & 1).unwrap(); eprintln!("err {}", 3); println!("out"); }
        39 => { let c = char::from(b[0]); write!(o, "{} {} {} {:?}", c.is_whitespace(), c.len_utf8(), c.to_lowercase(), c.escape_unicode().count()).unwrap(); let mut buf = [0; 4]; o += c.encode_utf8(&mut buf); let u: Vec<u16> = s.encode_utf16().collect(); o += &String::from_utf16(&u).unwrap(); let w = char::from_u32(0x2000 + (b[1] & 15) as u32).unwrap(); write!(o, "{} {}", w.is_whitespace(), w.is_control()).unwrap(); o.push(w); let l = char::from_u32(0xc0 + (b[2] & 31) as u32).unwrap(); write!(o, "{} {}", l.is_lowercase(), l.to_uppercase()).unwrap(); }
        40 => { #[derive(Clone, Copy, PartialEq)] enum K { A, B, C, D, E, F } impl K { fn n(self) -> &'static str { match self { K::A => "aye", K::B => "bee", K::C => "sea!", K::D => "dd", K::E => "e", K::F => "effff" } } fn x(self) -> Option<&'static str> { match self { K::A => Some("q"), K::B => None, K::C => Some("rr"), K::D => Some("ddd"), _ => None } } fn f(self) -> fn(u8) -> u8 { match self { K::A => |x| x + 1, K::B => |x| x / 2, K::C => |x| x ^ 3, K::D => |x| x | 1, K::E => |x| x & 7, K::F => |x| x % 5 } } } let k = match b[0] { 1 => K::A, 2 => K::B, 3 => K::C, 4 => K::D, 5 => K::E, _ => K::F }; let k = if b[1] == 3 && k == K::F { K::A } else { k }; o += k.n(); write!(o, "{:?} {}", k.x(), (k.f())(b[2] & 63) & 1).unwrap(); const T: [&str; 5] = ["one", "two", "three", "four", "five"]; o += T[(b[2] % 5) as usize]; const U: [(u8, &str); 3] = [(1, "x"), (2, "yy"), (3, "zzz")]; if let Some((_, v)) = U.iter().find(|(k, _)| *k == b[2]) { o += v } static M: &[&[u8]] = &[b"ab", b"c"]; write!(o, "{}", M[(b[1] & 1) as usize].len()).unwrap(); }
        41 => { let r: Result<u8, Box<dyn std::error::Error>> = (|| { let n: u8 = s.trim().parse()?; if n > 5 { return Err("big".into()) } Ok(n) })(); match r { Ok(_) => o.push('k'), Err(e) => write!(o, "{e} {:?}", e.source().is_some()).unwrap() } let b2: Result<bool, _> = s.parse::<bool>(); write!(o, "{b2:?}").unwrap(); let c: Result<char, _> = s.parse::<char>(); write!(o, "{c:?}").unwrap(); write!(o, "{:?}", u8::from_str_radix(&s, 16)).unwrap(); write!(o, "{:?}", u8::try_from(b[0] as i32 * 3).is_ok()).unwrap(); }
        _ => {}
    }
    obs(&o);
    sym::reach(0);
}
fn memchr(c: u8, b: &[u8]) -> Option<usize> { b.iter().position(|x| *x == c) }
