//! Executes operations (one JSON object per line of argv[1]) on the generated Rust code; one JSON result per line on stdout.
#![allow(dead_code, unused)]
mod json;
#[allow(warnings)]
mod p;
mod bind;
use json::*;
use p::Buffer;
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

// ---- allocation limit: one oversized request made by the code under test is recorded and refused (as a panic)
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
static BIG: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if l.size() > LIMIT.load(Relaxed) { over(l.size()) } System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if l.size() > LIMIT.load(Relaxed) { over(l.size()) } System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { if n > LIMIT.load(Relaxed) { over(n) } System.realloc(p, l, n) }
}
fn over(n: usize) -> ! {
    LIMIT.store(usize::MAX, Relaxed);
    panic!("allocation of {} bytes", n)
}
#[global_allocator]
static GLOBAL: A = A;

/// Runs `f` under the allocation limit; Err(text) when it panicked (or asked for too much).
fn guarded<T>(limit: usize, f: impl FnOnce() -> T) -> Result<T, String> {
    LIMIT.store(limit, Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f));
    LIMIT.store(usize::MAX, Relaxed);
    r.map_err(|e| if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "panic".to_string() })
}
fn lim(input: usize) -> usize { (1 << 20) + 64 * input }
fn s(x: &str) -> V { V::S(x.to_string()) }
fn obj(kv: Vec<(&str, V)>) -> V { V::O(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }
fn wrap<T>(r: Result<Result<T, String>, String>, f: impl Fn(T) -> V) -> V {
    match r { Ok(Ok(v)) => obj(vec![("ok", f(v))]), Ok(Err(e)) => obj(vec![("err", s(&e))]), Err(p) => obj(vec![("panic", s(&p))]) }
}
fn enc(ty: Ty, v: &V) -> V { let mut m = (ty.mk)(v); wrap(guarded(usize::MAX, || m.enc()), |b| s(&hex(&b))) }
fn pack(ty: Ty, v: &V, seq: u32) -> V { let mut m = (ty.mk)(v); wrap(guarded(usize::MAX, || m.pk(seq)), |b| s(&hex(&b))) }
fn dec(ty: Ty, b: Vec<u8>) -> V { let n = b.len(); wrap(guarded(lim(n), || (ty.dec)(b)), |m| m.jv()) }
fn ids(ty: Ty, v: &V) -> V {
    let m = (ty.mk)(v); let (i, g) = m.sid();
    obj(vec![("id", s(&i.to_string())), ("sig", s(&g.to_string())), ("static", match (ty.id)() { Some(i) => s(&i.to_string()), None => V::N })])
}
/// encode, decode, compare; and again through pack + reader
fn round(ty: Ty, v: &V, seq: u32) -> V {
    let r = guarded(usize::MAX, || -> Result<V, String> {
        let mut m = (ty.mk)(v);
        let before = m.jv();
        if &before != v { return Err(format!("harness: value {} read back as {}", v.text(), before.text())) }
        let b = m.enc().map_err(|e| format!("encode: {}", e))?;
        if m.jv() != before { return Err("encoding changed the value".to_string()) }
        let d = (ty.dec)(b.clone()).map_err(|e| format!("decode: {} (bytes {})", e, hex(&b)))?.jv();
        if &d != v { return Err(format!("decoded to {} (bytes {})", d.text(), hex(&b))) }
        let pkg = m.pk(seq).map_err(|e| format!("pack: {}", e))?;
        if pkg.len() < 26 || pkg[26..] != b[..] { return Err(format!("package {} does not carry body {}", hex(&pkg), hex(&b))) }
        let mut r: Buffer<p::AvailableMessages> = Buffer::new();
        r.chunk(&pkg, None).map_err(|e| format!("reader: {:?}", e))?;
        let m2 = r.next().ok_or_else(|| "reader: nothing".to_string())?;
        let (t, j) = bind::any(&m2.msg);
        if &j != v { return Err(format!("reader gave {} {}", t, j.text())) }
        if m2.header.sequence != seq || m2.header.id != m.sid().0 || m2.header.signature != m.sid().1 || m2.header.len as usize != b.len() { return Err(format!("header {:?}", m2.header)) }
        if r.next().is_some() || r.len() != 0 { return Err("reader: leftovers".to_string()) }
        Ok(V::O(vec![("b".to_string(), s(&hex(&b))), ("t".to_string(), s(t))]))
    });
    match r { Ok(Ok(v)) => obj(vec![("ok", v)]), Ok(Err(e)) => obj(vec![("err", s(&e))]), Err(p) => obj(vec![("err", s(&format!("panic: {}", p)))]) }
}
fn errkind(e: &p::ReadError) -> &'static str { match e { p::ReadError::Header(_) => "header", p::ReadError::Parsing(_) => "parsing", p::ReadError::Signature(_) => "signature" } }
fn message(m: &p::IncomeMessage<p::AvailableMessages>) -> V {
    let (t, j) = bind::any(&m.msg);
    obj(vec![("t", s(t)), ("v", j), ("id", s(&m.header.id.to_string())), ("seq", s(&m.header.sequence.to_string())), ("sig", s(&m.header.signature.to_string())), ("len", s(&m.header.len.to_string()))])
}
/// steps: "c<hex>" feed a chunk, "n" take the next message, "d" take all messages, "l" lengths
fn stream(steps: &Vec<V>) -> V {
    let mut r: Buffer<p::AvailableMessages> = Buffer::new();
    let mut out = vec![];
    for st in steps {
        let st = st.s();
        match &st[..1] {
            "c" => {
                let b = unhex(&st[1..]);
                let n = b.len() + r.len();
                match guarded(lim(n), || r.chunk(&b, None)) {
                    Ok(Ok(())) => out.push(s("ok")),
                    Ok(Err(e)) => out.push(obj(vec![("err", s(errkind(&e)))])),
                    Err(p) => { out.push(obj(vec![("panic", s(&p))])); break }
                }
            }
            "n" => out.push(match r.next() { Some(m) => message(&m), None => V::N }),
            "d" => { let mut a = vec![]; while let Some(m) = r.next() { a.push(message(&m)) } out.push(V::A(a)) }
            "l" => out.push(obj(vec![("len", s(&r.len().to_string())), ("pending", s(&r.pending().to_string()))])),
            o => panic!("step {}", o),
        }
    }
    V::A(out)
}
/// All listed cuts of one stream; the expected messages end at `ends`. Reports the first few disagreements.
/// mode 0: drain after every chunk; 1: drain only at the end; 2: take one message after every chunk.
fn cuts(data: &[u8], ends: &[usize], exp: &[V], cutsets: &mut dyn Iterator<Item = Vec<usize>>) -> (u64, u64, Vec<V>) {
    let (mut runs, mut chunks, mut bad) = (0u64, 0u64, vec![]);
    for cs in cutsets {
        for mode in 0..3 {
            runs += 1;
            let r = guarded(usize::MAX, || -> Result<u64, String> {
                let mut r: Buffer<p::AvailableMessages> = Buffer::new();
                let (mut fed, mut got, mut n) = (0usize, 0usize, 0u64);
                let mut bounds = cs.clone(); bounds.push(data.len());
                for e in bounds {
                    r.chunk(&data[fed..e].to_vec(), None).map_err(|x| format!("chunk ..{}: {:?}", e, x))?;
                    n += 1;
                    fed = e;
                    let complete = ends.iter().filter(|x| **x <= fed).count();
                    if r.pending() != complete - got { return Err(format!("after {} bytes: {} pending, expected {}", fed, r.pending(), complete - got)) }
                    let start = if complete == 0 { 0 } else { ends[complete - 1] };
                    if r.len() != fed - start { return Err(format!("after {} bytes: {} bytes kept, expected {}", fed, r.len(), fed - start)) }
                    let take = match mode { 0 => usize::MAX, 1 => if fed == data.len() { usize::MAX } else { 0 }, _ => if fed == data.len() { usize::MAX } else { 1 } };
                    let mut k = 0;
                    while k < take {
                        match r.next() {
                            Some(m) => { let m = message(&m); if got >= exp.len() || m != exp[got] { return Err(format!("message {} is {}", got, m.text())) } got += 1 }
                            None => break,
                        }
                        k += 1;
                    }
                    if take == usize::MAX && got != complete { return Err(format!("after {} bytes: {} messages delivered, expected {}", fed, got, complete)) }
                }
                if got != exp.len() { return Err(format!("{} of {} messages", got, exp.len())) }
                Ok(n)
            });
            match r {
                Ok(Ok(n)) => chunks += n,
                Ok(Err(e)) | Err(e) => { if bad.len() < 3 { bad.push(obj(vec![("cuts", V::A(cs.iter().map(|c| s(&c.to_string())).collect())), ("mode", s(&mode.to_string())), ("why", s(&e))])) } }
            }
        }
    }
    (runs, chunks, bad)
}
fn cut_op(o: &V) -> V {
    let data = unhex(o.get("data").s());
    let ends: Vec<usize> = o.get("ends").a().iter().map(|x| x.int() as usize).collect();
    let exp = o.get("exp").a().clone();
    let n = data.len();
    let depth = o.get("depth").int();
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    for i in 1..n { sets.push(vec![i]) }
    if depth >= 2 { for i in 1..n { for j in i..n { sets.push(vec![i, j]) } } }
    if depth >= 3 {
        // three cuts: all triples of positions near a boundary of a package or of its header
        let mut pts: Vec<usize> = vec![];
        for e in std::iter::once(0).chain(ends.iter().cloned()) { for d in [-1i64, 0, 1, 4, 6, 10, 18, 25, 26, 27].iter() { let x = e as i64 + d; if x > 0 && (x as usize) < n { pts.push(x as usize) } } }
        pts.sort(); pts.dedup();
        for a in 0..pts.len() { for b in a + 1..pts.len() { for c in b + 1..pts.len() { sets.push(vec![pts[a], pts[b], pts[c]]) } } }
    }
    for k in 1..=8 { sets.push((1..n).filter(|i| i % k == 0).collect()) }
    // every coalescing by message boundary
    let m = ends.len();
    for mask in 0..(1u32 << (m - 1)) { sets.push((0..m - 1).filter(|i| mask & (1 << i) != 0).map(|i| ends[i]).collect()) }
    let (runs, chunks, bad) = cuts(&data, &ends, &exp, &mut sets.into_iter());
    obj(vec![("runs", s(&runs.to_string())), ("chunks", s(&chunks.to_string())), ("bad", V::A(bad))])
}
/// Every truncation and every substitution of one byte, of every 16/32/64-bit window by boundary lengths, of one valid body.
fn hostile(ty: Ty, body: &[u8], deep: bool) -> V {
    let (mut n, mut accepted) = (0u64, 0u64);
    let mut bad: Vec<V> = vec![];
    let mut one = |b: Vec<u8>, what: String| {
        n += 1;
        let l = lim(b.len());
        let h = b.clone();
        match guarded(l, || (ty.dec)(b)) {
            Ok(Ok(mut m)) => {
                accepted += 1;
                // whatever was accepted is a value: it encodes and decodes to itself
                let j = m.jv();
                match guarded(usize::MAX, || m.enc().and_then(|x| (ty.dec)(x)).map(|x| x.jv())) {
                    Ok(Ok(k)) if k == j => {}
                    Ok(Ok(k)) => if bad.len() < 3 { bad.push(obj(vec![("what", s(&what)), ("hex", s(&hex(&h))), ("why", s(&format!("accepted as {} which re-encodes to {}", j.text(), k.text())))])) },
                    Ok(Err(e)) | Err(e) => if bad.len() < 3 { bad.push(obj(vec![("what", s(&what)), ("hex", s(&hex(&h))), ("why", s(&format!("accepted as {} which does not re-encode: {}", j.text(), e)))])) },
                }
            }
            Ok(Err(_)) => {}
            Err(p) => if bad.len() < 3 { bad.push(obj(vec![("what", s(&what)), ("hex", s(&hex(&h))), ("why", s(&format!("panic: {}", p)))])) },
        }
    };
    for k in 0..body.len() { one(body[..k].to_vec(), format!("first {} bytes", k)) }
    for k in 1..body.len() { one(body[k..].to_vec(), format!("without first {} bytes", k)) }
    let subs: &[u8] = if deep { &[0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 192, 224, 240, 247, 248, 253, 254, 255] } else { &[0, 1, 8, 16, 32, 64, 127, 128, 255] };
    for i in 0..body.len() {
        for x in subs { if body[i] != *x { let mut b = body.to_vec(); b[i] = *x; one(b, format!("byte {} = {}", i, x)) } }
        let mut b = body.to_vec(); b.remove(i); one(b, format!("byte {} removed", i));
        for x in &[0u8, 8, 64, 255] { let mut b = body.to_vec(); b.insert(i, *x); one(b, format!("{} inserted at {}", x, i)) }
    }
    for w in &[2usize, 4, 8] {
        if body.len() >= *w {
            for i in 0..=body.len() - w {
                let rest = (body.len() - i - w) as u64;
                let mask = if *w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
                for x in &[mask, mask >> 1, (mask >> 1) + 1, mask - 7, mask - 8, mask - 9, rest + 1, rest, rest.wrapping_sub(1), 1 << (8 * w - 9), 0u64.wrapping_sub(i as u64 + *w as u64)] {
                    let mut b = body.to_vec(); b[i..i + w].copy_from_slice(&x.to_le_bytes()[..*w]); one(b, format!("{} bytes at {} = {}", w, i, x & mask))
                }
            }
        }
    }
    obj(vec![("n", s(&n.to_string())), ("accepted", s(&accepted.to_string())), ("bad", V::A(bad))])
}
/// Every byte string up to `len` over an alphabet, given to one decoder.
fn words(ty: Ty, alphabet: &[u8], len: usize) -> V {
    let (mut n, mut accepted) = (0u64, 0u64);
    let mut bad: Vec<V> = vec![];
    let mut idx: Vec<usize> = vec![];
    loop {
        let b: Vec<u8> = idx.iter().map(|i| alphabet[*i]).collect();
        n += 1;
        match guarded(lim(b.len()), || (ty.dec)(b.clone()).map(|x| x.jv())) {
            Ok(Ok(_)) => accepted += 1,
            Ok(Err(_)) => {}
            Err(p) => if bad.len() < 3 { bad.push(obj(vec![("what", s("word")), ("hex", s(&hex(&b))), ("why", s(&format!("panic: {}", p)))])) },
        }
        let mut k = idx.len();
        loop {
            if k == 0 { idx = vec![0; idx.len() + 1]; break }
            k -= 1;
            if idx[k] + 1 < alphabet.len() { idx[k] += 1; for x in idx[k + 1..].iter_mut() { *x = 0 } break }
        }
        if idx.len() > len { break }
    }
    obj(vec![("n", s(&n.to_string())), ("accepted", s(&accepted.to_string())), ("bad", V::A(bad))])
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let f = std::fs::File::open(std::env::args().nth(1).unwrap()).unwrap();
    let stdout = std::io::stdout();
    let mut w = BufWriter::new(stdout.lock());
    let run = move || {
        for line in BufReader::new(f).lines() {
            let line = line.unwrap();
            let o = parse(&line);
            let t = o.opt("t").map(|x| x.s().to_string()).unwrap_or_default();
            let r = match o.get("op").s() {
                "enc" => enc(bind::find(&t), o.get("v")),
                "pack" => pack(bind::find(&t), o.get("v"), o.get("seq").int() as u32),
                "dec" => dec(bind::find(&t), unhex(o.get("b").s())),
                "round" => round(bind::find(&t), o.get("v"), o.get("seq").int() as u32),
                "ids" => ids(bind::find(&t), o.get("v")),
                "hostile" => hostile(bind::find(&t), &unhex(o.get("b").s()), o.opt("deep").is_some()),
                "words" => words(bind::find(&t), &unhex(o.get("alphabet").s()), o.get("len").int() as usize),
                "stream" => stream(o.get("steps").a()),
                "cuts" => cut_op(&o),
                "hash" => s(&p::hash()),
                x => panic!("op {}", x),
            };
            writeln!(w, "{}", r.text()).unwrap();
        }
        w.flush().unwrap();
    };
    run();
}
