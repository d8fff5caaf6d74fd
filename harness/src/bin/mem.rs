//! mem gen PROP TIER SEED PART NPARTS OUT      every heap block of the library, for TraceMem.tla (C19)
use hibit_harness::hist::{fanout_pool, interesting, pool};
use hibit_harness::json::Raw;
use hibit_harness::mat;
use hibit_harness::rng::Rng;
use hibit_harness::trees::*;
use hibit_harness::obj;
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::ptr::{addr_of, addr_of_mut};

/* ----------------------------- the allocator --------------------------- */
// Front zone (at least 64 bytes): fill, then [MAGIC, id, size, align]; back zone: fill.
// Blocks made while ON get an id, are logged, and are never given back before `flush`.
struct Guard;
#[global_allocator]
static GUARD: Guard = Guard;
const MAGIC: usize = 0x600d_b10c_600d_b10c;
const BACK: usize = 512;
static mut ON: bool = false;
static mut NEXT: usize = 0;
static mut LOG: [[usize; 5]; 1 << 16] = [[0; 5]; 1 << 16];
static mut LEN: usize = 0;
static mut KEPT: [(usize, usize, usize); 1 << 18] = [(0, 0, 0); 1 << 18];
static mut KEPTN: usize = 0;
fn front(align: usize) -> usize { align.max(64) }
unsafe fn log(e: [usize; 5]) { let n = addr_of_mut!(LEN).read(); if n < 1 << 16 { (*addr_of_mut!(LOG))[n] = e; LEN = n + 1 } }
unsafe fn intact(user: *mut u8, size: usize, align: usize) -> bool {
    let f = front(align);
    let a = std::slice::from_raw_parts(user.sub(f), f - 32).iter().all(|x| *x == 0xFA);
    let b = std::slice::from_raw_parts(user.add(size), BACK).iter().all(|x| *x == 0xFB);
    a && b
}
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let f = front(l.align());
        let raw = System.alloc(Layout::from_size_align_unchecked(f + l.size() + BACK, f));
        let user = raw.add(f);
        raw.write_bytes(0xFA, f - 32);
        user.write_bytes(0xA5, l.size());
        user.add(l.size()).write_bytes(0xFB, BACK);
        let id = if addr_of!(ON).read() { NEXT += 1; log([1, NEXT, l.size(), l.align(), 1]); NEXT } else { 0 };
        let h = user.sub(32) as *mut usize;
        h.write(MAGIC); h.add(1).write(id); h.add(2).write(l.size()); h.add(3).write(l.align());
        user
    }
    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        let h = user.sub(32) as *mut usize;
        if h.read() != MAGIC { log([0, 0, l.size(), l.align(), 0]); return }
        let (id, size, align) = (h.add(1).read(), h.add(2).read(), h.add(3).read());
        let f = front(align);
        if id == 0 {
            System.dealloc(user.sub(f), Layout::from_size_align_unchecked(f + size + BACK, f));
            return
        }
        // what the caller says it is; whether nothing around it was touched
        log([0, id, l.size(), l.align(), intact(user, size, align) as usize]);
        h.write(0);
        user.write_bytes(0xDD, size);
        let n = addr_of!(KEPTN).read();
        if n < 1 << 18 { (*addr_of_mut!(KEPT))[n] = (user as usize, size, align); KEPTN = n + 1 }
    }
    // realloc: alloc, copy, dealloc
}
/// gives kept blocks back; how many of them were written after they had been freed
fn flush() -> usize {
    unsafe {
        let mut bad = 0;
        for j in 0..addr_of!(KEPTN).read() {
            let (u, size, align) = (*addr_of!(KEPT))[j];
            let user = u as *mut u8; let f = front(align);
            if !intact(user, size, align) || std::slice::from_raw_parts(user, size).iter().any(|x| *x != 0xDD) { bad += 1 }
            System.dealloc(user.sub(f), Layout::from_size_align_unchecked(f + size + BACK, f));
        }
        KEPTN = 0; bad
    }
}
/// blocks are observed while the library runs
fn on<R>(f: impl FnOnce() -> R) -> R {
    struct Off; impl Drop for Off { fn drop(&mut self) { unsafe { ON = false } } }
    let _o = Off;
    unsafe { ON = true }
    f()
}
fn blocks() -> Vec<Vec<usize>> {
    let v = unsafe { (&(*addr_of!(LOG)))[..addr_of!(LEN).read()].iter().map(|x| x.to_vec()).collect() };
    unsafe { LEN = 0 }
    v
}

/* ------------------------------ histories ------------------------------ */
struct H { ev: Vec<String>, nv: u64 }
impl H {
    fn v(&mut self) -> u64 { self.nv += 1; self.nv }
    fn say(&mut self, o: &str) { let m = blocks(); if !m.is_empty() || o != "op" { self.ev.push(obj!(o: o, m: m)) } }
    fn ins(&mut self, t: &mut dyn Tree, i: usize) { let v = self.v(); on(|| t.insert(i, v)); self.say("op") }
    fn goi(&mut self, t: &mut dyn Tree, i: usize) { on(|| t.get_or_insert(i, None)); self.say("op") }
    fn rem(&mut self, t: &mut dyn Tree, i: usize) { on(|| t.remove(i)); self.say("op") }
    fn end(&mut self) { let b = flush(); self.ev.push(obj!(o: "end", m: blocks(), w: b)) }
}
fn churn(h: &mut H, t: &mut dyn Tree, pool: &[usize], rng: &mut Rng, n: usize) {
    let mut grow = 60;
    for j in 0..n {
        if j % 15 == 0 { grow = *rng.pick(&[10, 40, 60, 90, 100]) }
        let i = *rng.pick(pool);
        if rng.below(100) < grow { if rng.chance(3, 4) { h.ins(t, i) } else { h.goi(t, i) } } else { h.rem(t, i) }
        if rng.chance(1, 10) { on(|| t.get(i)); h.say("op") }
    }
}
/// One shape, repeated at different places.
fn rounds(h: &mut H, t: &mut dyn Tree, rng: &mut Rng, n: usize, thorough: bool) {
    let (w, d) = (t.width(), t.depth());
    let half = w / 2;
    // entries that stay: top digits in the lower half
    for _ in 0..rng.below(10) {
        let mut k: Vec<usize> = (0..d).map(|_| interesting(rng, w)).collect(); k[0] %= half;
        h.ins(t, undigits(&k, w));
    }
    // the shape: keys with top digits in the upper half
    let m = 1 + rng.below(12);
    let per: Vec<Vec<usize>> = (0..d).map(|_| (0..1 + rng.below(3)).map(|_| interesting(rng, w)).collect()).collect();
    let mut shape: Vec<Vec<usize>> = (0..m).map(|_| (0..d).map(|l| { let x = *rng.pick(&per[l]); if l == 0 { half + x % half } else { x } }).collect()).collect();
    shape.sort(); shape.dedup();
    let mut script: Vec<(usize, bool)> = vec![];        // (key of the shape, insert?)
    let mut inside: Vec<usize> = vec![];
    for _ in 0..shape.len() * 2 {
        if !inside.is_empty() && rng.chance(1, 3) { let j = inside.swap_remove(rng.below(inside.len())); script.push((j, false)) }
        else { let j = rng.below(shape.len()); if !inside.contains(&j) { inside.push(j) } script.push((j, true)) }
    }
    while !inside.is_empty() { let j = inside.swap_remove(rng.below(inside.len())); script.push((j, false)) }
    let moved = rng.chance(2, 3);
    let many = if thorough { 400 } else { n };
    for _ in 0..many {
        // digits of each level are permuted by an xor; the top digit stays in the upper half
        let x: Vec<usize> = (0..d).map(|l| if !moved { 0 } else if l == 0 { rng.below(half) } else { rng.below(w) }).collect();
        for (j, ins) in &script {
            let k: Vec<usize> = shape[*j].iter().zip(&x).map(|(a, b)| a ^ b).collect();
            // nothing can be stored at the largest word
            let k = undigits(&k, w); let k = if k == usize::MAX { usize::MAX - 1 } else { k };
            if *ins { h.ins(t, k) } else { h.rem(t, k) }
        }
        h.say("round");
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let thorough = a[2] == "thorough";
    let seed: u64 = a[3].parse().unwrap();
    let (part, nparts): (usize, usize) = (a[4].parse().unwrap(), a[5].parse().unwrap());
    let mut out = std::fs::File::create(&a[6]).unwrap();
    let mult = if thorough { 20 } else { 4 };
    let mut cfgs = configs(); cfgs.extend(default_configs()); cfgs.extend(other_configs());
    let mut jobs: Vec<(String, usize)> = vec![];
    for c in &cfgs { for k in 0..4 * mult { jobs.push((c.clone(), k % 4)) } }
    for k in 0..12 * mult { for d in 1..=9 { jobs.push((format!("d{d}"), 4 + k % 3)) } }
    // dense nodes are the ones with sizes of their own
    for k in 0..6 * mult { for d in 1..=9 { jobs.push((format!("d{d}"), k % 4)) } }
    for (n, (c, kind)) in jobs.iter().enumerate() {
        if n % nparts != part { continue }
        let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(n as u64));
        std::fs::write(format!("{}.at", a[6]), format!("{{\"cfg\":\"{c}\",\"job\":{n},\"kind\":{kind}}}")).unwrap();
        let (w, d) = { let t = make(c); (t.width(), t.depth()) };
        let np = 4 + rng.below(30);
        let p = if *kind == 3 || *kind == 6 { fanout_pool(&mut rng, w, d) } else { pool(&mut rng, w, d, np) };
        flush(); blocks();
        let mut h = H { ev: vec![], nv: 100 };
        let r = catch_unwind(AssertUnwindSafe(|| {
            if *kind >= 4 {
                // born by materialization
                let k = mat::KINDS[rng.below(mat::KINDS.len())];
                let k = if d == 9 && (k == "maps" || k == "ands") { "or" } else { k };
                let dens = 1 + rng.below(64);
                let src: Vec<KV> = (0..3).map(|j| p.iter().filter(|_| rng.chance(dens, 64)).map(|k| (*k, j * 1000 + 1)).collect()).collect();
                let mut t = on(|| mat::materialize(d, k, &src));
                h.say("op");
                if *kind == 6 {
                    let mut q = p.clone(); rng.shuffle(&mut q);
                    for i in &q { h.ins(&mut *t, *i) }
                    for i in &q[..q.len() / 2] { h.rem(&mut *t, *i) }
                } else { churn(&mut h, &mut *t, &p, &mut rng, 60) }
                on(|| drop(t)); h.say("op"); h.end();
                return
            }
            let mut t = on(|| make(c)); h.say("op");
            match kind {
                0 => churn(&mut h, &mut *t, &p, &mut rng, 120),
                1 | 2 => rounds(&mut h, &mut *t, &mut rng, 10, thorough),
                _ => {
                    let mut q = p.clone(); rng.shuffle(&mut q);
                    for i in &q { h.ins(&mut *t, *i) }
                    rng.shuffle(&mut q);
                    for i in &q[..q.len() / 2] { h.rem(&mut *t, *i) }
                    for i in &q[..q.len() / 3] { h.ins(&mut *t, *i) }
                    if rng.chance(1, 2) { for i in &q { h.rem(&mut *t, *i) } }
                }
            }
            on(|| drop(t)); h.say("op"); h.end();
        }));
        let died = r.err().map(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()));
        let mut ev: Vec<Raw> = h.ev.iter().map(|e| Raw(e.clone())).collect();
        if let Some(d) = died { ev.push(Raw(obj!(o: "die", why: d.replace(['"', '\\', '\n'], " ")))) }
        writeln!(out, "{}", obj!(cfg: c, kind: kind, ev: ev)).unwrap();
    }
    std::fs::write(format!("{}.at", a[6]), "done").unwrap();
}
