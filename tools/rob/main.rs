#![allow(clippy::all, dead_code, unused)]
mod sx;
use sx::*;
use std::collections::*;
use std::sync::*;
use std::sync::atomic::*;
use std::rc::*;
use std::cell::*;
macro_rules! ck { ($c:expr, $t:expr) => { check($c, line!(), $t) }; }
macro_rules! e { ($($n:ident $b:block)*) => { $(#[no_mangle] #[inline(never)] pub extern "C" fn $n() $b)* static ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*]; } }
static M: Mutex<Vec<String>> = Mutex::new(Vec::new());
static RW: RwLock<BTreeMap<u32, String>> = RwLock::new(BTreeMap::new());
static O: OnceLock<String> = OnceLock::new();
static LZ: LazyLock<Mutex<HashMap<String, u32>>> = LazyLock::new(|| Mutex::new(HashMap::new()));
static A: AtomicUsize = AtomicUsize::new(0);
static AB: AtomicBool = AtomicBool::new(false);
thread_local! { static TL: RefCell<Vec<u8>> = RefCell::new(vec![]); static TC: Cell<u32> = const { Cell::new(0) }; }
trait Tr { fn f(&self, x: u32) -> u32; }
struct P(u32); struct Q(String);
impl Tr for P { fn f(&self, x: u32) -> u32 { self.0.wrapping_add(x) } }
impl Tr for Q { fn f(&self, x: u32) -> u32 { self.0.len() as u32 ^ x } }
impl Drop for Q { fn drop(&mut self) { A.fetch_add(1, Ordering::SeqCst); } }
fn h(x: &impl std::hash::Hash) -> u64 { use std::hash::*; let mut s = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut s); s.finish() }
e! {
 t_mutex { let b = u8(); M.lock().unwrap().push(format!("a{b}")); M.lock().unwrap().push("b".into()); let g = M.lock().unwrap(); trace(g.join(",").as_bytes()); ck!(g.len() == 2, "x"); cover(1); }
 t_rw { let b = u8(); assume(b < 3); RW.write().unwrap().insert(b as u32, "q".into()); RW.write().unwrap().insert(1, "r".into()); for (k, v) in RW.read().unwrap().iter() { trace(format!("{k}{v}").as_bytes()); } cover(1); }
 t_once { trace(O.get_or_init(|| "x".repeat(3)).as_bytes()); *LZ.lock().unwrap().entry("k".into()).or_insert(3) += 1; trace(format!("{:?}", LZ.lock().unwrap()).as_bytes()); static I: Once = Once::new(); I.call_once(|| trace(b"once")); cover(1); }
 t_tls { let b = u8(); TL.with(|t| t.borrow_mut().push(b)); TC.set(TC.get() + 1); TL.with(|t| trace(&t.borrow())); trace(&[TC.get() as u8]); cover(1); }
 t_atomic { let b = u8(); A.store(b as usize, Ordering::SeqCst); A.fetch_max(7, Ordering::SeqCst); A.compare_exchange(7, 9, Ordering::SeqCst, Ordering::Relaxed).ok(); A.fetch_xor(1, Ordering::AcqRel); AB.swap(true, Ordering::SeqCst); let r = A.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |x| x.checked_mul(2)); trace(&[A.load(Ordering::SeqCst) as u8, AB.load(Ordering::SeqCst) as u8]); cover(1); }
 t_arc { let a = Arc::new(u8()); let w = Arc::downgrade(&a); let b = a.clone(); ck!(Arc::strong_count(&a) == 2, "c"); drop(a); drop(b); ck!(w.upgrade().is_none(), "w"); let r: Rc<str> = "abc".into(); let c = std::borrow::Cow::Borrowed("x"); trace(c.into_owned().as_bytes()); trace(r.as_bytes()); cover(1); }
 t_sort { let mut v = bytes(3); v.sort(); trace(&v); let mut w: Vec<String> = (0..30).map(|i| format!("{}", (i * 37) % 31)).collect(); w.sort_by(|a, b| b.cmp(a)); w.dedup(); trace(w.concat().as_bytes()); w.sort_unstable_by_key(|s| s.len()); w.retain(|s| s != "3"); w.reverse(); w.rotate_left(2); trace(w.concat().as_bytes()); cover(1); }
 t_btree { let mut m = BTreeMap::new(); for i in 0..40u32 { m.insert((i * 7) % 41, i); } m.remove(&5); let s: u32 = m.range(3..20).map(|(_, v)| *v).sum(); trace(s.to_string().as_bytes()); let s: BTreeSet<_> = m.values().copied().collect(); trace(format!("{:?}", s.iter().next_back()).as_bytes()); cover(1); }
 t_hash { let mut m = HashMap::new(); for i in 0..40u32 { m.insert(format!("k{i}"), i); } m.retain(|_, v| *v % 2 == 0); let mut k: Vec<_> = m.keys().cloned().collect(); k.sort(); trace(k.concat().as_bytes()); let b = u8(); assume(b < 4); let s: HashSet<u8> = [b, 1, 2].into_iter().collect(); trace(&[s.len() as u8]); trace(&h(&"abc").to_le_bytes()); cover(1); }
 t_deque { let mut d: VecDeque<u8> = VecDeque::new(); for b in bytes(3) { d.push_back(b); d.push_front(7); } d.rotate_left(1); d.extend([1, 2, 3]); d.drain(1..3); trace(d.make_contiguous()); let mut hp = BinaryHeap::from(vec![3, 9, 4]); trace(&[hp.pop().unwrap()]); let mut l = LinkedList::new(); l.push_back(1u8); trace(&[l.len() as u8]); cover(1); }
 t_str { let p = printable(3); let s = format!("ab{p}cd"); trace(s.to_lowercase().as_bytes()); trace(s.to_uppercase().as_bytes()); trace(s.trim().as_bytes()); trace(s.replace("b", "xx").as_bytes()); for w in s.split_whitespace() { trace(w.as_bytes()); } cover(1); }
 t_str2 { let p = printable(2); let s = format!("ab {p},cd"); for w in s.split(',') { trace(w.as_bytes()); } for w in s.rsplitn(2, ' ') { trace(w.as_bytes()); } if let Some((a, b)) = s.split_once(&p) { trace(a.as_bytes()); trace(b.as_bytes()); } trace(s.chars().rev().collect::<String>().as_bytes()); trace(&[s.matches("b").count() as u8, s.starts_with("ab ") as u8, s.contains(&p) as u8]); cover(1); }
 t_uni { let s = "Straße ΣΑΣ ǅ İ é\u{301}"; trace(s.to_lowercase().as_bytes()); trace(s.to_uppercase().as_bytes()); trace(s.escape_debug().to_string().as_bytes()); trace(s.escape_unicode().to_string().as_bytes()); trace(&s.encode_utf16().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()); trace(&s.char_indices().map(|(i, c)| i as u8 ^ c.is_alphanumeric() as u8 ^ c.is_whitespace() as u8).collect::<Vec<_>>()); cover(1); }
 t_uni2 { let c = any_chars(1); trace(c.to_lowercase().as_bytes()); trace(format!("{:?}", c).as_bytes()); cover(1); }
 t_parse { let p = bytes(3); if let Ok(s) = std::str::from_utf8(&p) { if let Ok(n) = s.parse::<u16>() { trace(&n.to_le_bytes()); cover(2); } else { cover(3) } } cover(1); }
 t_parse2 { trace(&"12345678901234567890".parse::<u128>().unwrap().to_le_bytes()); trace(format!("{:?}", "1.5e3".parse::<f64>()).as_bytes()); trace(format!("{:?} {:?}", "-5".parse::<i8>(), "x".parse::<i32>()).as_bytes()); trace(format!("{:?}", "::1".parse::<std::net::IpAddr>()).as_bytes()); trace(format!("{:?}", u64::from_str_radix("fF", 16)).as_bytes()); cover(1); }
 t_float { let x = u8() as f64; ck!(x >= 0.0, "f"); let y = x * 0.75; trace(&[(y as u32 & 255) as u8]); cover(1); }
 t_float2 { trace(format!("{:.2} {} {:e} {:?}", 3.14159f64, 1.0f32 / 3.0, 1e20, f64::NAN).as_bytes()); trace(&[(2.5f64).floor() as u8, (2.5f64).round() as u8, 2f64.powi(3) as u8, (9f64).sqrt() as u8]); cover(1); }
 t_int { let a = u64(); let b = u32(); trace(&a.rotate_left(b % 64).to_le_bytes()); trace(&a.leading_zeros().to_le_bytes()); trace(&a.swap_bytes().to_le_bytes()); trace(&a.count_ones().to_le_bytes()); trace(&a.saturating_sub(b as u64).to_le_bytes()); let (x, o) = a.overflowing_mul(3); trace(&[o as u8]); ck!(a.checked_add(1).is_some() || a == u64::MAX, "o"); trace(&(a as i64).saturating_add(5).to_le_bytes()); trace(&a.trailing_zeros().to_le_bytes()); trace(&a.reverse_bits().to_le_bytes()); trace(&(a.abs_diff(7)).to_le_bytes()); cover(1); }
 t_i128 { let a = u64() as u128; let b = a * 1000003 + 7; trace(&b.to_le_bytes()); trace(&(b >> 13).to_le_bytes()); cover(1); }
 t_i128b { let a = 123456789012345678901234567890u128; trace(&(a / 1000000007).to_le_bytes()); trace(&(a % 1000000007).to_le_bytes()); trace(a.to_string().as_bytes()); trace(&(-(a as i128) / 77).to_le_bytes()); cover(1); }
 t_div { let a = u8(); let b = u8(); assume(b > 0); trace(&[a / b, a % b, (a as i8).wrapping_div(b as i8) as u8, (a as i8).rem_euclid(3) as u8, a.pow(1), a.isqrt(), a.ilog2_()]); cover(1); }
 t_dyn { let v: Vec<Box<dyn Tr>> = vec![Box::new(P(3)), Box::new(Q("ab".into()))]; let x = u32(); let i = choice(2); trace(&v[i].f(x).to_le_bytes()); let f: Box<dyn Fn(u32) -> u32> = if choice(2) == 0 { Box::new(move |y| y ^ x) } else { Box::new(|y| y) }; trace(&f(1).to_le_bytes()); drop(v); trace(&[A.load(Ordering::SeqCst) as u8]); cover(1); }
 t_any { let v: Vec<Box<dyn std::any::Any>> = vec![Box::new(3u8), Box::new("x")]; trace(&[v[0].is::<u8>() as u8, v[1].downcast_ref::<&str>().is_some() as u8]); trace(std::any::type_name::<P>().as_bytes()); let e: Box<dyn std::error::Error + Send + Sync> = "boo".into(); trace(e.to_string().as_bytes()); let e = std::io::Error::new(std::io::ErrorKind::Other, e); trace(format!("{e:?} {e}").as_bytes()); cover(1); }
 t_fmt { let b = u8(); trace(format!("{b:03} {b:>5} {b:#x} {b:08b} {:?} {:+}", Some((1, "a\n")), 5).as_bytes()); trace(format!("{:?}", vec![Some(1u8), None]).as_bytes()); trace(format!("{:#?}", (1, "x")).as_bytes()); trace(format!("{:<10}|{:^7}|{:*>4}", "ab", "c", "d").as_bytes()); cover(1); }
 t_iter { let v = bytes(4); let (a, b): (Vec<u8>, Vec<u8>) = v.iter().partition(|x| **x > 100); trace(&a); trace(&b); trace(&v.chunks(3).map(|c| c.iter().fold(0u8, |a, b| a ^ b)).collect::<Vec<_>>()); trace(&v.windows(2).map(|w| w[0] ^ w[1]).collect::<Vec<_>>()); trace(&[v.iter().copied().max().unwrap(), v.iter().copied().min().unwrap()]); cover(1); }
 t_iter2 { let v: Vec<u32> = (0..20).collect(); let g: Vec<String> = v.iter().skip_while(|x| **x < 4).step_by(3).zip("abcdef".chars()).map(|(a, b)| format!("{a}{b}")).collect(); trace(g.join("-").as_bytes()); let mut p = v.iter().peekable(); while let Some(x) = p.next_if(|x| **x < 5) { trace(&[*x as u8]); } trace(&v.iter().rev().scan(0u32, |a, x| { *a += x; Some(*a as u8) }).collect::<Vec<_>>()); trace(&[v.binary_search(&7).unwrap() as u8, v.partition_point(|x| *x < 9) as u8]); let f: Vec<u8> = vec![vec![1, 2], vec![3]].into_iter().flatten().chain(std::iter::once(9)).cycle().take(7).collect(); trace(&f); cover(1); }
 t_panic { let b = u8(); let v = [1, 2, 3]; assume(b < 3); trace(&[v[b as usize]]); let r = std::panic::catch_unwind(|| 3); trace(&[r.unwrap()]); cover(1); }
 t_mem { let mut a = bytes(3); let b = std::mem::replace(&mut a, vec![1]); trace(&a); trace(&b); a.extend_from_within(..); a.insert(0, 9); a.splice(0..1, [4, 5, 6]); a.swap(0, 1); a.truncate(3); a.resize(5, 8); a.fill(1); a.copy_within(0..2, 3); trace(&a); trace(&[std::mem::size_of_val(&a) as u8]); let s: Box<[u8]> = a.into(); trace(&s); let x: [u8; 4] = [1u8, 2, 3, 4].map(|x| x + 1); trace(&x); cover(1); }
 t_big { let v = vec![b'x'; 100000]; let b = u8(); let mut w = v.clone(); w[50000] = b; trace(&[(w == v) as u8]); trace(&[w.iter().position(|x| *x == b'\n').map_or(0, |p| (p / 1000) as u8)]); let s = String::from_utf8_lossy(&w).into_owned(); trace(&[(s.len() % 251) as u8]); trace(&[memchr_(&w)]); cover(1); }
 t_ascii { let p = bytes(4); trace(&p.to_ascii_lowercase()); trace(&[p.is_ascii() as u8, p.eq_ignore_ascii_case(b"abcd") as u8, p[0].is_ascii_punctuation() as u8, p[1].is_ascii_hexdigit() as u8]); trace(p.escape_ascii().to_string().as_bytes()); cover(1); }
 t_async { use futures::future::*; use std::future::Future; let b = u8(); let f = async move { let (a, c) = join(async { 1u8 }, async { futures::pin_mut!(); ready(b).await }).await; let x = select(Box::pin(ready(a)), Box::pin(pending::<u8>())).await; poll_fn(|_| std::task::Poll::Ready(a ^ c)).await }; trace(&[f.now_or_never().unwrap()]); cover(1); }
 t_async2 { use futures::*; use futures::stream::*; let s = iter(1..5u8).map(|x| x * 2).collect::<Vec<_>>().now_or_never().unwrap(); trace(&s); let mut fu = FuturesUnordered::new(); fu.push(future::ready(1u8)); fu.push(future::ready(2)); let mut t = 0; while let Some(Some(x)) = fu.next().now_or_never() { t += x; } trace(&[t]); let (tx, rx) = futures::channel::oneshot::channel(); tx.send(3u8).ok(); trace(&[rx.now_or_never().unwrap().unwrap()]); cover(1); }
 t_async3 { let m = futures::lock::Mutex::new(3u8); use futures::FutureExt; *m.lock().now_or_never().unwrap() += 1; trace(&[*m.try_lock().unwrap()]); let (mut a, mut b) = futures::channel::mpsc::unbounded::<u8>(); a.unbounded_send(5).unwrap(); use futures::StreamExt; trace(&[b.next().now_or_never().unwrap().unwrap()]); cover(1); }
 t_tokio { use tokio::io::*; use futures::FutureExt; let b = u8(); let mut w = BufWriter::new(Vec::new()); async { w.write_all(&[b, 2, 3]).await.unwrap(); w.write_u16(7).await.unwrap(); w.flush().await.unwrap(); }.now_or_never().unwrap(); trace(w.get_ref()); let mut r = BufReader::with_capacity(4, &b"hello\r\nworld"[..]); let mut l = String::new(); async { r.read_line(&mut l).await.unwrap(); let mut v = vec![]; r.read_until(b'r', &mut v).await.unwrap(); l.push_str(std::str::from_utf8(&v).unwrap()); let mut t = (&mut r).take(1); t.read_to_end(&mut v).await.unwrap(); trace(&v); }.now_or_never().unwrap(); trace(l.as_bytes()); cover(1); }
 t_tokio2 { use tokio::io::*; use futures::FutureExt; let mut ls = BufReader::new(&b"a\nb\r\nc"[..]).lines(); async { while let Some(l) = ls.next_line().await.unwrap() { trace(l.as_bytes()); } }.now_or_never().unwrap(); let mut o = vec![]; async { copy(&mut &b"xyz"[..], &mut o).await.unwrap(); let mut b = [0u8; 2]; (&b"pq"[..]).read_exact(&mut b).await.unwrap(); trace(&b); let mut c = std::io::Cursor::new(vec![1u8, 2, 3]); c.seek(std::io::SeekFrom::Start(1)).await.unwrap(); trace(&[c.read_u8().await.unwrap()]); let (mut a, mut z) = duplex(16); a.write_all(b"dup").await.unwrap(); let mut q = [0u8; 3]; z.read_exact(&mut q).await.unwrap(); trace(&q); }.now_or_never().unwrap(); trace(&o); cover(1); }
 t_nom { use nom::{bytes::streaming::*, character::streaming::*, combinator::*, multi::*, sequence::*, branch::*, IResult}; let s = String::from_utf8(bytes_ascii()).unwrap(); fn p(i: &str) -> IResult<&str, (Vec<char>, &str)> { terminated(tuple((many0(one_of("0123")), take_until("!"))), tag("!"))(i) } match p(&s) { Ok((r, (a, b))) => { trace(r.as_bytes()); trace(&[a.len() as u8]); trace(b.as_bytes()); cover(2) } Err(_) => cover(3) } cover(1); }
 t_b64 { let b = bytes(3); let e = base64::encode_config(&b, base64::URL_SAFE_NO_PAD); trace(e.as_bytes()); trace(&base64::decode_config(&e, base64::URL_SAFE_NO_PAD).unwrap()); cover(1); }
 t_stdio { use std::io::{Write, Read, BufRead}; let mut v = Vec::new(); write!(v, "{}-{}", 1, "b").unwrap(); let mut b = std::io::BufWriter::new(&mut v); b.write_all(b"tail").unwrap(); drop(b); trace(&v); let mut s = String::new(); std::io::Cursor::new("l1\nl2").read_line(&mut s).unwrap(); trace(s.as_bytes()); for l in "q\nr".lines() { trace(l.as_bytes()); } let mut a = [0u8; 8]; let mut c = &mut a[..]; c.write_all(b"zz").unwrap(); trace(&a); cover(1); }
 t_env { trace(&[std::env::var("NOPE_X").is_ok() as u8]); cover(1); }
 t_eprint { eprintln!("x"); println!("y"); cover(1); }
 t_time { let a = std::time::Instant::now(); let d = a.elapsed(); ck!(d < std::time::Duration::from_secs(1000), "t"); let n = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap(); ck!(n.as_secs() > 0, "u"); cover(1); }
 t_dur { let d = std::time::Duration::from_millis(1500) * 3; trace(format!("{d:?} {}", d.as_secs_f64()).as_bytes()); cover(1); }
 t_thread { trace(&[(std::thread::current().name().is_some()) as u8]); std::thread::yield_now(); trace(&[std::thread::panicking() as u8]); cover(1); }
 t_waker { let w = futures::task::noop_waker(); let w2 = w.clone(); trace(&[w.will_wake(&w2) as u8]); struct W(AtomicUsize); impl std::task::Wake for W { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); } } let a = Arc::new(W(AtomicUsize::new(0))); let k: std::task::Waker = a.clone().into(); k.wake_by_ref(); k.wake(); trace(&[a.0.load(Ordering::SeqCst) as u8]); let aw = futures::task::AtomicWaker::new(); aw.register(&w); aw.wake(); cover(1); }
 t_cmp { let (a, b) = (bytes(2), bytes(2)); trace(&[(a.cmp(&b) as i8) as u8, (a == b) as u8, (a < b) as u8]); let p = (u8(), u16()); trace(&[(p > (3, 4)) as u8]); let s = String::from_utf8(vec![b'a', u8() & 127]).unwrap(); match s.as_str() { "ab" => cover(2), "ac" | "ad" => cover(3), x if x.starts_with('a') => cover(4), _ => cover(5) } let k: &[u8] = &a; match k { [b'x', rest @ ..] => trace(rest), [.., b'y'] => trace(b"y"), _ => {} } cover(1); }
 t_slice { let mut v: Vec<u8> = (0..50).collect(); let b = u8(); assume(b < 10); v.drain(..b as usize); trace(&v); let (l, r) = v.split_at(3); trace(l); trace(&[r.len() as u8]); trace(&v.iter().rposition(|x| *x == 20).unwrap().to_le_bytes()); let c = v.concat_(); trace(&c); trace(&[v.starts_with(&[1]) as u8, v.first().copied().unwrap_or(0), v.select_nth_unstable(4).1.clone()]); v.sort_by_cached_key(|x| 255 - *x); trace(&v); trace(&v.chunks_exact(4).flat_map(|c| c.to_vec()).collect::<Vec<_>>()); cover(1); }
 t_rand { use std::hash::{BuildHasher, Hasher, RandomState}; let x = RandomState::new().build_hasher().finish(); ck!(x != 1, "r"); cover(1); }
}
fn bytes_ascii() -> Vec<u8> { let v = bytes(3); for b in &v { assume(*b < 128); } v }
fn memchr_(w: &[u8]) -> u8 { w.iter().rposition(|b| *b == b'q').unwrap_or(3) as u8 }
trait Il { fn ilog2_(self) -> u8; }
impl Il for u8 { fn ilog2_(self) -> u8 { if self > 0 { self.ilog2() as u8 } else { 0 } } }
trait Cc { fn concat_(&self) -> Vec<u8>; }
impl Cc for Vec<u8> { fn concat_(&self) -> Vec<u8> { [&self[..2], &self[3..]].concat() } }
fn main() {
    let args: Vec<String> = std::env::args().collect();
    #[cfg(sx)]
    {
        let (_, f) = ENTRIES[args.len()];
        f();
    }
    #[cfg(not(sx))]
    native(&args);
}

#[cfg(not(sx))]
fn native(args: &[String]) {
    use std::io::Write;
    let run = |name: &str, tier: usize, inputs: Vec<u64>| {
        let Some((_, f)) = ENTRIES.iter().find(|e| e.0 == name) else { println!("NO-ENTRY"); std::process::exit(5) };
        sx::NAT.with(|n| *n.borrow_mut() = sx::Nat { inputs, tier, ..Default::default() });
        f();
        let n = sx::NAT.with(|n| std::mem::take(&mut *n.borrow_mut()));
        (n.trace, n.failed, n.pos == n.inputs.len())
    };
    if let Some(f) = args[1].strip_prefix('@') {
        // batch: print "index trace" per line; the first uncaught panic ends the process
        let text = std::fs::read_to_string(f).unwrap();
        let out = std::io::stdout();
        for (i, l) in text.lines().enumerate() {
            let mut w = l.split_whitespace();
            let (name, tier) = (w.next().unwrap(), w.next().unwrap().parse().unwrap());
            let (trace, failed, all) = run(name, tier, w.map(|x| x.parse().unwrap()).collect());
            let mut o = out.lock();
            let hex: String = trace.iter().map(|b| format!("{b:02x}")).collect();
            writeln!(o, "{i} {} {} t{hex}", failed.len(), all).unwrap();
        }
        return;
    }
    let (trace, failed, _) = run(&args[1], args[2].parse().unwrap(), args[3..].iter().map(|x| x.parse().unwrap()).collect());
    println!("TRACE {}", String::from_utf8_lossy(&trace));
    for (id, t) in &failed { println!("CHECK-FAILED {id} {t}"); }
    println!("END {}", failed.len());
}
