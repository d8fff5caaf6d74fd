//! bits gen PROP TIER SEED PART NPARTS OUT       bit blocks, bit queues, primitives, for TraceBits.tla (C20)
//! bits replay PROP N WB FILE PART NPARTS        replay of MCBits.tla scripts (N words of WB bits)
use hibit_harness::json::{Raw, J};
use hibit_harness::obj;
use hibit_harness::rng::Rng;
use hibit_tree::bit_queue::{ArrayBitQueue, BitQueue, EmptyBitQueue, PrimitiveBitQueue};
use hibit_tree::config;
use hibit_tree::utils::{Array, Primitive};
use hibit_tree::{BitBlock, HibitTree, SparseTree};
use std::io::Write;
use std::ops::ControlFlow::{self, Break, Continue};
use std::panic::{catch_unwind, AssertUnwindSafe};

type M128 = <SparseTree<config::width_128::depth_2, u8> as HibitTree>::LevelMask;
type M256 = <SparseTree<config::width_256::depth_2, u8> as HibitTree>::LevelMask;

fn visit(k: usize, v: &mut Vec<usize>) -> impl FnMut(usize) -> ControlFlow<()> + '_ {
    move |i| { v.push(i); assert!(v.len() < 1000); if v.len() == k { Break(()) } else { Continue(()) } }
}

/* ------------------------------- queues -------------------------------- */
trait Queue {
    fn cap(&self) -> usize;
    fn next(&mut self) -> Option<usize>;
    fn trim(&mut self, n: usize);
    fn cur(&self) -> usize;
    fn trav(&self, k: usize) -> (Vec<usize>, bool);
    fn rest(&self, how: usize) -> Vec<usize>;
    fn count(&self) -> usize;
    fn last(&self) -> Option<usize>;
    fn nth(&mut self, n: usize) -> Option<usize>;
    fn dup(&self) -> Box<dyn Queue>;
}
struct Q<B>(B, usize);
const HOWS: usize = 6;
impl<B: BitQueue + 'static> Queue for Q<B> {
    fn cap(&self) -> usize { self.1 }
    fn next(&mut self) -> Option<usize> { self.0.next() }
    fn trim(&mut self, n: usize) { self.0.trim_to(n) }
    fn cur(&self) -> usize { self.0.current() }
    fn trav(&self, k: usize) -> (Vec<usize>, bool) {
        let mut v = vec![];
        let c = self.0.clone().traverse(visit(k, &mut v));
        (v, c.is_break())
    }
    fn rest(&self, how: usize) -> Vec<usize> {
        let q = self.0.clone();
        match how {
            0 => { let mut v = vec![]; q.for_each(|i| { v.push(i); assert!(v.len() < 1000) }); v }
            1 => q.take(1000).collect(),
            2 => q.fold(vec![], |mut v, i| { v.push(i); assert!(v.len() < 1000); v }),
            3 => { let mut v = vec![]; for i in q { v.push(i); assert!(v.len() < 1000) } v }
            4 => { let mut q = q; let mut v: Vec<usize> = q.by_ref().take(2).collect(); v.extend(q.take(1000)); v }
            _ => { let mut v = vec![]; let mut q = q; let a = q.next(); v.extend(a); q.for_each(|i| v.push(i)); v }
        }
    }
    fn count(&self) -> usize { self.0.clone().count() }
    fn last(&self) -> Option<usize> { self.0.clone().last() }
    fn nth(&mut self, n: usize) -> Option<usize> { self.0.nth(n) }
    fn dup(&self) -> Box<dyn Queue> { Box::new(Q(self.0.clone(), self.1)) }
}
fn words<P: Primitive, const N: usize>(s: &[usize]) -> [P; N] {
    let bits = std::mem::size_of::<P>() * 8;
    std::array::from_fn(|j| { let mut p = P::ZERO; for x in s { if x / bits == j { p |= P::ONE << (x % bits) } } p })
}
enum Start<'a> { Set(&'a [usize]), Empty, Filled }
fn prim<P: Primitive>(s: Start) -> Box<dyn Queue> {
    Box::new(Q(match s {
        Start::Set(s) => PrimitiveBitQueue::<P>::new(words::<P, 1>(s)[0]),
        Start::Empty => PrimitiveBitQueue::empty(), Start::Filled => PrimitiveBitQueue::filled(),
    }, std::mem::size_of::<P>() * 8))
}
fn arr<P: Primitive, const N: usize>(s: Start) -> Box<dyn Queue> {
    Box::new(Q(match s {
        Start::Set(s) => ArrayBitQueue::<P, N>::new(words(s)),
        Start::Empty => ArrayBitQueue::empty(), Start::Filled => ArrayBitQueue::filled(),
    }, std::mem::size_of::<P>() * 8 * N))
}
fn blk<B: BitBlock>(s: Start) -> Box<dyn Queue> {
    Box::new(Q(match s {
        Start::Set(s) => { let mut b = B::zero(); for i in s { b.set_bit::<true>(*i); } b.into_bits_iter() }
        Start::Empty => B::BitsIter::empty(), Start::Filled => B::BitsIter::filled(),
    }, B::SIZE))
}
type Mk = for<'a> fn(Start<'a>) -> Box<dyn Queue>;
fn queues() -> Vec<(&'static str, Mk)> {
    vec![
        ("u8", prim::<u8> as Mk), ("u16", prim::<u16>), ("u32", prim::<u32>), ("u64", prim::<u64>), ("usize", prim::<usize>),
        ("u8x1", arr::<u8, 1>), ("u8x2", arr::<u8, 2>), ("u8x3", arr::<u8, 3>), ("u8x7", arr::<u8, 7>),
        ("u16x2", arr::<u16, 2>), ("u16x5", arr::<u16, 5>), ("u32x3", arr::<u32, 3>), ("usizex2", arr::<usize, 2>),
        ("u64x1", arr::<u64, 1>), ("u64x2", arr::<u64, 2>), ("u64x3", arr::<u64, 3>), ("u64x4", arr::<u64, 4>),
        ("b64", blk::<u64>), ("b128", blk::<M128>), ("b256", blk::<M256>),
    ]
}

/* ------------------------------- blocks -------------------------------- */
trait Block {
    fn size(&self) -> usize;
    fn set(&mut self, on: bool, k: usize) -> bool;
    fn get(&self, k: usize) -> bool;
    fn nil(&self) -> bool;
    fn count(&self) -> usize;
    fn trav(&self, k: usize) -> (Vec<usize>, bool);
    fn iter(&self) -> Vec<usize>;
    fn array(&self) -> Vec<usize>;
    fn eq(&self, s: &[usize]) -> bool;
    fn and(&mut self, s: &[usize], how: usize);
    fn or(&mut self, s: &[usize], how: usize);
    fn load(&mut self, s: &[usize]);
    fn clear(&mut self);
}
fn mkb<B: BitBlock>(s: &[usize]) -> B { let mut b = B::zero(); for i in s { b.set_bit::<true>(*i); } b }
impl<B: BitBlock> Block for B {
    fn size(&self) -> usize { B::SIZE }
    fn set(&mut self, on: bool, k: usize) -> bool { if on { self.set_bit::<true>(k) } else { self.set_bit::<false>(k) } }
    fn get(&self, k: usize) -> bool { self.get_bit(k) }
    fn nil(&self) -> bool { self.is_zero() }
    fn count(&self) -> usize { self.count_ones() }
    fn trav(&self, k: usize) -> (Vec<usize>, bool) { let mut v = vec![]; let c = self.traverse_bits(visit(k, &mut v)); (v, c.is_break()) }
    fn iter(&self) -> Vec<usize> { self.clone().into_bits_iter().take(1000).collect() }
    fn array(&self) -> Vec<usize> {
        assert_eq!(self.as_array().as_ref().len(), <B::Array as Array>::CAP);
        let mut v = vec![];
        for (j, w) in self.as_array().as_ref().iter().enumerate() { for b in 0..64 { if w >> b & 1 == 1 { v.push(j * 64 + b) } } }
        v
    }
    fn eq(&self, s: &[usize]) -> bool { let o = mkb::<B>(s); let r = *self == o; assert_eq!(r, o == *self); assert_eq!(r, !(*self != o)); r }
    fn and(&mut self, s: &[usize], how: usize) {
        let o = mkb::<B>(s);
        match how { 0 => *self &= o, 1 => *self &= &o, 2 => *self = self.clone() & o, _ => *self = o & self.clone() }
    }
    fn or(&mut self, s: &[usize], how: usize) {
        let o = mkb::<B>(s);
        match how { 0 => *self |= o, 1 => *self |= &o, 2 => *self = self.clone() | o, _ => *self = o | self.clone() }
    }
    fn load(&mut self, s: &[usize]) { let w = self.as_array_mut().as_mut(); for x in w.iter_mut() { *x = 0 } for i in s { w[i / 64] |= 1 << (i % 64) } }
    fn clear(&mut self) { *self = B::zero() }
}
fn block(c: &str) -> Box<dyn Block> { match c { "b64" => Box::new(u64::zero()), "b128" => Box::new(M128::zero()), _ => Box::new(M256::zero()) } }

/* ----------------------------- primitives ------------------------------ */
fn bits_of<P: Primitive>(p: P) -> Vec<usize> {
    // told by shifting ones, not by what is under observation here
    let n = std::mem::size_of::<P>() * 8;
    (0..n).filter(|b| (p & (P::ONE << *b)) != P::ZERO).collect()
}
fn ubits(u: usize) -> Vec<usize> { (0..usize::BITS as usize).filter(|b| u >> b & 1 == 1).collect() }
fn primitive<P: Primitive>(a: &[usize], b: &[usize], n: usize) -> String {
    let (x, y) = (words::<P, 1>(a)[0], words::<P, 1>(b)[0]);
    obj!(o: "prim", a: a, b: b, n: n, tz: x.trailing_zeros(), z: x.is_zero(), neg: bits_of(x.wrapping_neg()), inv: bits_of(!x),
        us: ubits(x.as_usize()), fr: bits_of(P::from_usize(x.as_usize())), u8: ubits(x.as_u8() as usize),
        an: bits_of(x & y), uo: bits_of(x | y), xo: bits_of(x ^ y), sl: bits_of(x << n), sr: bits_of(x >> n),
        mx: bits_of(P::MAX), mn: bits_of(P::MIN), ze: bits_of(P::ZERO), on: bits_of(P::ONE))
}

/* ------------------------------ histories ------------------------------ */
fn subset(rng: &mut Rng, cap: usize) -> Vec<usize> {
    match rng.below(6) {
        0 => { let d = 1 + rng.below(8); (0..cap).filter(|_| rng.chance(1, d)).collect() }
        1 => { let d = cap / 2 + 1; (0..cap).filter(|_| rng.chance(2, d)).collect() }
        // borders of words
        2 => (0..cap).filter(|x| x % 8 == 0 || x % 8 == 7).filter(|_| rng.chance(1, 2)).collect(),
        3 => (0..cap).filter(|x| x % 64 == 0 || x % 64 == 63 || *x == cap - 1 || *x == 0).filter(|_| rng.chance(2, 3)).collect(),
        4 => { let a = rng.below(cap); let b = a + rng.below(cap - a) + 1; (a..b).collect() }
        _ => { let w = *rng.pick(&[8, 16, 32, 64]); let keep: Vec<bool> = (0..cap / 8 + 1).map(|_| rng.chance(1, 2)).collect();
               let d = 1 + rng.below(6); (0..cap).filter(|x| keep[x / w] && rng.chance(1, d)).collect() }
    }
}
fn r1(r: Option<usize>) -> i64 { r.map(|x| x as i64).unwrap_or(-1) }
fn watch(ev: &mut Vec<String>, q: &dyn Queue, rng: &mut Rng, all: bool) {
    ev.push(obj!(o: "cur", r: q.cur().min(1_000_000)));
    let n = if all { HOWS } else { 1 };
    for j in 0..n { let how = if all { j } else { rng.below(HOWS) }; ev.push(obj!(o: "rest", how: how, v: q.rest(how))) }
    let k = if rng.chance(1, 3) { 0 } else { if rng.chance(1, 2) { 1 + rng.below(4) } else { 1 + rng.below(q.cap()) } };
    let (v, b) = q.trav(k); ev.push(obj!(o: "trav", k: k, v: v, b: b));
    if all || rng.chance(1, 4) { ev.push(obj!(o: "count", r: q.count())); ev.push(obj!(o: "last", r: r1(q.last()))) }
}
fn trim_point(rng: &mut Rng, cap: usize) -> usize {
    match rng.below(8) {
        0 => cap + rng.below(3), 1 => *rng.pick(&[usize::MAX, usize::MAX - 1, 1 << 40, 2 * cap, cap + 64, cap + 63]),
        2 => (rng.below(cap / 8 + 1)) * 8, 3 => (rng.below(cap / 8 + 1)) * 8 + 7, 4 => cap - 1,
        _ => rng.below(cap),
    }
}
fn queue_history(ev: &mut Vec<String>, mk: Mk, rng: &mut Rng) {
    let cap = mk(Start::Empty).cap();
    for _ in 0..4 {
        let mut q = match rng.below(8) {
            0 => { ev.push(obj!(o: "empty")); mk(Start::Empty) }
            1 => { ev.push(obj!(o: "fill")); mk(Start::Filled) }
            _ => { let s = subset(rng, cap); ev.push(obj!(o: "new", s: s)); mk(Start::Set(&s)) }
        };
        let style = rng.below(4);
        if rng.chance(3, 4) { ev.push(obj!(o: "cur", r: q.cur().min(1_000_000))); let d = q.dup(); ev.push(obj!(o: "cur", r: d.cur().min(1_000_000))) }
        let mut at = 0;
        for _ in 0..6 + rng.below(20) {
            match if style == 0 { 0 } else { rng.below(6) } {
                // forward steps
                5 if style > 1 => { at = (at + rng.below(cap / 4 + 1)).min(cap + 1); q.trim(at); ev.push(obj!(o: "trim", n: at)) }
                5 => { let n = trim_point(rng, cap); q.trim(n); ev.push(obj!(o: "trim", n: n as u64)) }
                4 => { let n = rng.below(4); let mut r = q.dup(); for _ in 0..n { ev.push(obj!(o: "next", r: r1(r.next()))) } ev.push(obj!(o: "next", r: r1(q.nth(n)))) }
                _ => { for _ in 0..1 + rng.below(3) { ev.push(obj!(o: "next", r: r1(q.next()))) } }
            }
            if rng.chance(1, 3) { watch(ev, &*q, rng, false) }
            if rng.chance(1, 6) { q = q.dup() }
        }
        watch(ev, &*q, rng, true);
        if rng.chance(1, 2) {
            while let Some(i) = q.next() { ev.push(obj!(o: "next", r: i)); if rng.chance(1, 20) { watch(ev, &*q, rng, false) } if ev.len() > 3000 { break } }
            for _ in 0..2 { ev.push(obj!(o: "next", r: r1(None))); ev.push(obj!(o: "cur", r: q.cur().min(1_000_000))); ev.push(obj!(o: "next", r: r1(q.next()))) }
            q.trim(trim_point(rng, cap)); ev.push(obj!(o: "trim", n: 0)); watch(ev, &*q, rng, true);
        }
    }
}
fn block_history(ev: &mut Vec<String>, c: &str, rng: &mut Rng) {
    let mut b = block(c);
    let cap = b.size();
    ev.push(obj!(o: "size", r: cap)); ev.push(obj!(o: "empty"));
    let s = subset(rng, cap); b.load(&s); ev.push(obj!(o: "new", s: s));
    for _ in 0..60 {
        match rng.below(12) {
            0 | 1 | 2 => { let k = trim_point(rng, cap).min(cap - 1); let r = b.set(true, k); ev.push(obj!(o: "set", k: k, r: r)) }
            3 | 4 | 5 => { let v = b.array(); let k = if v.is_empty() || rng.chance(1, 3) { rng.below(cap) } else { *rng.pick(&v) }; let r = b.set(false, k); ev.push(obj!(o: "clr", k: k, r: r)) }
            6 => { let s = subset(rng, cap); b.and(&s, rng.below(4)); ev.push(obj!(o: "and", s: s)) }
            7 => { let s = subset(rng, cap); b.or(&s, rng.below(4)); ev.push(obj!(o: "or", s: s)) }
            8 => { let mut s = b.array(); if rng.chance(1, 2) { let k = rng.below(cap); if let Some(p) = s.iter().position(|x| *x == k) { s.remove(p); } else { s.push(k) } } ev.push(obj!(o: "eq", s: s, r: b.eq(&s))) }
            9 => { let k = if rng.chance(1, 2) { 0 } else { 1 + rng.below(6) }; let (v, st) = b.trav(k); ev.push(obj!(o: "trav", k: k, v: v, b: st)) }
            10 => { if rng.chance(1, 2) { b.clear(); ev.push(obj!(o: "empty")) } else { let s = subset(rng, cap); b.load(&s); ev.push(obj!(o: "new", s: s)) } }
            _ => {}
        }
        ev.push(obj!(o: "all", v: (0..cap).filter(|k| b.get(*k)).collect::<Vec<_>>()));
        ev.push(obj!(o: "rest", v: b.iter())); ev.push(obj!(o: "rest", v: b.array()));
        ev.push(obj!(o: "count", r: b.count())); ev.push(obj!(o: "zero", r: b.nil()));
    }
}
/// every value of a byte, every trim point
fn bytes(ev: &mut Vec<String>, mk: Mk, from: usize) {
    for x in from..from + 16 {
        let s = ubits(x);
        for n in 0..10 {
            ev.push(obj!(o: "new", s: s));
            let mut q = mk(Start::Set(&s));
            if n < 9 { q.trim(n); ev.push(obj!(o: "trim", n: n)) }
            ev.push(obj!(o: "cur", r: q.cur())); ev.push(obj!(o: "rest", v: q.rest(n % HOWS)));
            for k in 0..4 { let (v, b) = q.trav(k); ev.push(obj!(o: "trav", k: k, v: v, b: b)) }
            loop { let r = q.next(); ev.push(obj!(o: "next", r: r1(r))); ev.push(obj!(o: "cur", r: q.cur())); if r.is_none() { break } }
        }
    }
}

fn gen(a: &[String]) {
    let thorough = a[1] == "thorough";
    let seed: u64 = a[2].parse().unwrap();
    let (part, nparts): (usize, usize) = (a[3].parse().unwrap(), a[4].parse().unwrap());
    let mut out = std::fs::File::create(&a[5]).unwrap();
    let mult = if thorough { 40 } else { 6 };
    let qs = queues();
    let mut jobs: Vec<(String, usize)> = vec![("q:none".into(), 0)];
    for _ in 0..16 * mult { for (n, _) in &qs { jobs.push((format!("q:{n}"), 0)) } }
    for _ in 0..16 * mult { for n in ["b64", "b128", "b256"] { jobs.push((format!("m:{n}"), 0)) } }
    for x in (0..256).step_by(16) { for n in ["u8", "u8x1", "u8x2"] { jobs.push((format!("x:{n}"), x)) } }
    for _ in 0..4 * mult { for n in ["u8", "u16", "u32", "u64", "usize"] { jobs.push((format!("p:{n}"), 0)) } }
    for (n, (c, x)) in jobs.iter().enumerate() {
        if n % nparts != part { continue }
        let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(n as u64));
        std::fs::write(format!("{}.at", a[5]), format!("{{\"cfg\":\"{c}\",\"job\":{n}}}")).unwrap();
        let mut ev: Vec<String> = vec![];
        let (kind, name) = c.split_once(':').unwrap();
        let mk = qs.iter().find(|q| q.0 == name).map(|q| q.1);
        let cap = match (kind, name) { (_, "none") => 0, ("m", _) => block(name).size(), ("p", "usize") => usize::BITS as usize, ("p", u) => u[1..].parse().unwrap(), _ => mk.unwrap()(Start::Empty).cap() };
        let r = catch_unwind(AssertUnwindSafe(|| match (kind, name) {
            (_, "none") => {
                for s in [EmptyBitQueue::empty(), EmptyBitQueue::filled(), EmptyBitQueue::default(), EmptyBitQueue] {
                    ev.push(obj!(o: "empty"));
                    let mut q = Q(s, 0);
                    for _ in 0..3 { watch(&mut ev, &q, &mut rng, true); ev.push(obj!(o: "next", r: r1(q.next()))); q.trim(2); ev.push(obj!(o: "trim", n: 2)) }
                }
            }
            ("q", _) => queue_history(&mut ev, mk.unwrap(), &mut rng),
            ("x", _) => bytes(&mut ev, mk.unwrap(), *x),
            ("m", _) => block_history(&mut ev, name, &mut rng),
            _ => for _ in 0..40 {
                let (x, y, n) = (subset(&mut rng, cap), subset(&mut rng, cap), rng.below(cap));
                ev.push(match name { "u8" => primitive::<u8>(&x, &y, n), "u16" => primitive::<u16>(&x, &y, n), "u32" => primitive::<u32>(&x, &y, n), "u64" => primitive::<u64>(&x, &y, n), _ => primitive::<usize>(&x, &y, n) })
            },
        }));
        if r.is_err() { ev.push(obj!(o: "die")) }
        let ev: Vec<Raw> = ev.into_iter().map(Raw).collect();
        writeln!(out, "{}", obj!(cfg: c, cap: cap, ev: ev)).unwrap();
    }
    std::fs::write(format!("{}.at", a[5]), "done").unwrap();
}

/* ----------------------------- MCBits scripts --------------------------- */
fn run(mk: Mk, emb: &[usize], low: bool, s: &J) -> Result<(), String> {
    let set: Vec<usize> = s.get("s").ints().iter().map(|x| emb[*x]).collect();
    let mut q = mk(Start::Set(&set));
    let cap = q.cap();
    for o in s.get("h").arr() {
        let (n, want) = (o.arr()[0].int(), o.arr()[1].int());
        if n == -1 {
            let r = r1(q.next());
            let want = if want < 0 { -1 } else { emb[want as usize] as i64 };
            if r != want { return Err(format!("set {set:?}: next() is {r} instead of {want}")) }
        } else {
            // anything after the embedding of n-1 up to that of n removes the same members
            let n = n as usize;
            let at = |x: usize| if x >= emb.len() { cap + (x - emb.len()) } else { emb[x] };
            q.trim(if low && n > 0 && n != emb.len() { at(n - 1) + 1 } else { at(n) });
        }
    }
    let rest: Vec<usize> = s.get("rest").ints().iter().map(|x| emb[*x]).collect();
    let c = q.cur();
    if c > *rest.first().unwrap_or(&cap) || s.get("end").int() == 1 && c != cap { return Err(format!("set {set:?}: current() is {c}, remaining {rest:?}")) }
    for how in 0..HOWS { let r = q.rest(how); if r != rest { return Err(format!("set {set:?}: remaining {r:?} ({how}) instead of {rest:?}")) } }
    for k in 0..=rest.len() + 1 {
        let (v, b) = q.trav(k);
        let stop = k > 0 && k <= rest.len();
        if v != rest[..if stop { k } else { rest.len() }] || b != stop { return Err(format!("set {set:?}: traversal to visit {k} is {v:?}, {b} (remaining {rest:?})")) }
    }
    Ok(())
}
fn embeddings(cap: usize, bits: usize, n: usize, wb: usize) -> Vec<Vec<usize>> {
    let mut r = vec![];
    // words onto words: low bits, high bits, spread
    let words = cap / bits;
    if words >= n {
        for last in [false, true] {
            let word = |j: usize| if last { words - n + j } else { j };
            r.push((0..n * wb).map(|x| word(x / wb) * bits + x % wb).collect());
            r.push((0..n * wb).map(|x| word(x / wb) * bits + bits - wb + x % wb).collect());
            r.push((0..n * wb).map(|x| word(x / wb) * bits + (x % wb) * (bits - 1) / (wb - 1)).collect());
        }
    }
    // across words
    for k in 0..6 {
        let mut rng = Rng::new(k + 77);
        let mut all: Vec<usize> = (0..cap).collect(); rng.shuffle(&mut all);
        let mut e = all[..n * wb].to_vec(); e.sort(); r.push(e);
    }
    r
}
fn replay(a: &[String]) {
    let (n, wb): (usize, usize) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    let text = std::fs::read_to_string(&a[3]).unwrap();
    let (part, nparts): (usize, usize) = (a[4].parse().unwrap(), a[5].parse().unwrap());
    let scripts: Vec<J> = text.lines().map(J::parse).collect();
    let (mut runs, mut j) = (0u64, 0);
    for (name, mk) in queues() {
        let cap = mk(Start::Empty).cap();
        let bits = match name { "b64" | "b128" | "b256" => 64, u => { let u = u.split('x').next().unwrap(); if u.starts_with("usize") || name.starts_with("usize") { usize::BITS as usize } else { u[1..].parse().unwrap() } } };
        if cap < n * wb { continue }
        for (ei, e) in embeddings(cap, bits, n, wb).iter().enumerate() {
            j += 1;
            if j % nparts != part { continue }
            std::fs::write(format!("{}.at{part}", a[3]), format!("{name} {ei}")).unwrap();
            for (si, s) in scripts.iter().enumerate() { for low in [false, true] {
                runs += 1;
                let r = catch_unwind(AssertUnwindSafe(|| run(mk, e, low, s)));
                let msg = match r { Ok(Ok(())) => continue, Ok(Err(m)) => m, Err(_) => "panicked".into() };
                println!("MISMATCH {name} {ei} {si} {msg}");
                return
            } }
        }
    }
    println!("REPLAYED {runs}");
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a[0].as_str() { "gen" => gen(&a[1..]), "replay" => replay(&a[1..]), _ => panic!("usage") }
}
