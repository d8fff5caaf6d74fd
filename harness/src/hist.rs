//! Random and systematic histories of one container, recorded as ndjson for TraceMap.tla,
//! and replay of scripts emitted by TLC from the structural models.
use crate::json::{Raw, J};
use crate::obj;
use crate::rng::Rng;
use crate::trees::*;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Hist {
    pub cfg: String,
    pub w: usize,
    pub d: usize,
    pub pool: Vec<usize>,            // sorted
    pos: BTreeMap<usize, usize>,     // key -> 1-based position
    pub ev: Vec<String>,
    pub t: Box<dyn Tree>,
    /// only used to decide which calls are legal (unchecked access)
    pub shadow: BTreeMap<usize, u64>,
    next_v: u64,
    pub replies: bool,
}

impl Hist {
    pub fn new(cfg: &str, t: Box<dyn Tree>, mut pool: Vec<usize>, replies: bool) -> Self {
        pool.sort(); pool.dedup();
        let pos = pool.iter().enumerate().map(|(i, k)| (*k, i + 1)).collect();
        Hist { cfg: cfg.into(), w: t.width(), d: t.depth(), pool, pos, ev: vec![], t, shadow: BTreeMap::new(), next_v: 10, replies }
    }
    pub fn k(&self, i: usize) -> usize { *self.pos.get(&i).unwrap_or(&0) }
    pub fn fresh(&mut self) -> u64 { self.next_v += 1; self.next_v }
    fn kvs(&self, e: &[(usize, u64)]) -> Vec<(usize, u64)> { e.iter().map(|(k, v)| (self.k(*k), *v)).collect() }
    fn reply(&self, r: Option<u64>) -> i64 { if self.replies { crate::json::clamp(r.unwrap_or(0)) } else { -1 } }

    pub fn ins(&mut self, i: usize) {
        let v = self.fresh();
        self.t.insert(i, v);
        self.ev.push(obj!(o: "ins", k: self.k(i), v: v));
        self.shadow.insert(i, v);
    }
    pub fn goi(&mut self, i: usize, write: bool) {
        let w = if write { Some(self.fresh()) } else { None };
        let r = self.t.get_or_insert(i, w);
        self.ev.push(obj!(o: "goi", k: self.k(i), r: self.reply(Some(r)), w: w));
        let e = self.shadow.entry(i).or_insert(DEF);
        if let Some(w) = w { *e = w }
    }
    pub fn rem(&mut self, i: usize) {
        let r = self.t.remove(i);
        self.ev.push(obj!(o: "rem", k: self.k(i), r: self.reply(r)));
        self.shadow.remove(&i);
    }
    pub fn get(&mut self, i: usize, ix: bool) {
        let r = if ix { self.t.get_index(i) } else { self.t.get(i) };
        self.ev.push(obj!(o: "get", k: self.k(i), r: r));
    }
    pub fn geu(&mut self, i: usize) {
        if !self.shadow.contains_key(&i) { return }
        let r = unsafe { self.t.get_unchecked(i) };
        self.ev.push(obj!(o: "get", k: self.k(i), r: r));
    }
    pub fn gmu(&mut self, i: usize, write: bool, unchecked: bool) {
        if !self.t.has_get_mut() { return }
        let w = if write { Some(self.fresh()) } else { None };
        let r = if unchecked {
            if !self.shadow.contains_key(&i) { return }
            Some(unsafe { self.t.get_mut_unchecked(i, w) })
        } else { self.t.get_mut(i, w) };
        self.ev.push(obj!(o: "gmu", k: self.k(i), r: r, w: w));
        if let (Some(w), Some(e)) = (w, self.shadow.get_mut(&i)) { *e = w }
    }
    pub fn all(&mut self) {
        let r: Vec<Option<u64>> = self.pool.iter().map(|k| self.t.get(*k)).collect();
        self.ev.push(obj!(o: "all", r: r));
    }
    pub fn god(&mut self, i: usize) {
        if !self.t.has_default() { return }
        let r = self.t.get_or_default(i);
        self.ev.push(obj!(o: "god", k: self.k(i), r: r));
    }
    pub fn alld(&mut self) {
        if !self.t.has_default() { return }
        let r: Vec<u64> = self.pool.iter().map(|k| self.t.get_or_default(*k)).collect();
        self.ev.push(obj!(o: "alld", r: r));
    }
    pub fn iter(&mut self, std: bool) {
        let (e, t) = self.t.iter(std, self.pool.len() + 8);
        self.ev.push(obj!(o: "it", x: std, e: self.kvs(&e), t: t));
    }
    pub fn kv(&mut self) {
        let (k, v) = self.t.kv();
        let k: Vec<usize> = k.iter().map(|k| self.k(*k)).collect();
        self.ev.push(obj!(o: "kv", k: k, v: v));
    }
    pub fn kvm(&mut self, rng: &mut Rng) {
        let mut writes: Vec<(usize, u64)> = vec![];
        let mut nv = self.next_v;
        let (k, v) = self.t.kvm(&mut |k, _| if rng.chance(1, 3) { nv += 1; writes.push((k, nv)); Some(nv) } else { None });
        self.next_v = nv;
        let kk: Vec<usize> = k.iter().map(|k| self.k(*k)).collect();
        self.ev.push(obj!(o: "kvm", k: kk, v: v, w: self.kvs(&writes)));
        for (k, v) in writes { if let Some(e) = self.shadow.get_mut(&k) { *e = v } }
    }
    fn exists(&self, path: &[usize]) -> bool {
        self.shadow.keys().any(|k| digits(*k, self.w, self.d)[..path.len()] == *path)
    }
    /// masks at some prefixes of pool keys, and next to them
    pub fn masks(&mut self, rng: &mut Rng, n: usize) {
        let mut e: Vec<(Vec<usize>, usize, Vec<usize>)> = vec![];
        let mut paths: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..n {
            let k = *rng.pick(&self.pool);
            let mut p = digits(k, self.w, self.d);
            p.truncate(rng.below(self.d));
            if !p.is_empty() && rng.chance(1, 4) { let j = rng.below(p.len()); p[j] = interesting(rng, self.w) }
            paths.push(p);
        }
        paths.sort(); paths.dedup();
        for p in paths {
            let b = self.t.mask(&p, false);
            if (p.is_empty() || self.exists(&p)) && rng.chance(1, 2) {
                let b = self.t.mask(&p, true);
                e.push((p.clone(), 1, b));
            }
            e.push((p, 0, b));
        }
        self.ev.push(obj!(o: "masks", e: e));
    }
    pub fn line(&self, died: Option<String>) -> String {
        let ks: Vec<Vec<usize>> = self.pool.iter().map(|k| digits(*k, self.w, self.d)).collect();
        let mut ev: Vec<Raw> = self.ev.iter().map(|e| Raw(e.clone())).collect();
        if let Some(d) = died { ev.push(Raw(obj!(o: "die", why: d.replace(['"', '\\', '\n'], " ")))) }
        obj!(cfg: self.cfg, W: self.w, D: self.d, def: DEF, K: ks, ev: ev)
    }
}

pub fn interesting(rng: &mut Rng, w: usize) -> usize {
    const C: &[usize] = &[0, 1, 2, 7, 8, 15, 16, 31, 32, 33, 61, 62, 63, 64, 65, 126, 127, 128, 129, 191, 192, 254, 255];
    loop {
        let x = if rng.chance(2, 3) { *rng.pick(C) } else { rng.below(w) };
        if x < w { return x }
    }
}

/// A key pool whose keys share paths at all levels.
pub fn pool(rng: &mut Rng, w: usize, d: usize, n: usize) -> Vec<usize> {
    let style = rng.below(4);
    let per_level: Vec<Vec<usize>> = (0..d).map(|l| {
        let c = match style { 0 => 2, 1 => if l + 1 == d { 6 } else { 2 }, 2 => if l == 0 { 6 } else { 2 }, _ => 1 + rng.below(4) };
        (0..c).map(|_| interesting(rng, w)).collect()
    }).collect();
    let mut out: Vec<usize> = vec![];
    for _ in 0..n * 3 {
        let k: Vec<usize> = (0..d).map(|l| *rng.pick(&per_level[l])).collect();
        out.push(undigits(&k, w));
    }
    if rng.chance(1, 2) { out.push(0) }
    if rng.chance(1, 2) { out.push(undigits(&vec![w - 1; d], w)); if !(w == 256 && d == 8) { } }
    out.sort(); out.dedup();
    // usize::MAX itself is outside of every index range
    out.retain(|k| *k != usize::MAX);
    rng.shuffle(&mut out);
    out.truncate(n.max(1));
    if out.is_empty() { out.push(1) }
    out
}

#[derive(Clone, Copy, PartialEq)]
pub enum Prof { C01, C02, C03, C04, C11, C12, C15, C16 }
impl Prof { pub fn parse(s: &str) -> Prof { match s { "C01" => Prof::C01, "C02" => Prof::C02, "C03" => Prof::C03, "C04" => Prof::C04, "C11" => Prof::C11, "C12" => Prof::C12, "C15" => Prof::C15, "C16" => Prof::C16, _ => panic!() } } }

fn observe(h: &mut Hist, rng: &mut Rng, p: Prof, full: bool) {
    match p {
        Prof::C01 | Prof::C15 => h.all(),
        Prof::C02 => { let s = rng.chance(1, 2); h.iter(s); if full { h.iter(!s); h.all() } }
        Prof::C03 => { if rng.chance(1, 3) { h.kvm(rng); h.all() } else { h.kv() } if full { h.kv(); h.kvm(rng); h.kv(); h.all(); h.iter(true) } }
        Prof::C04 => h.masks(rng, if full { 24 } else { 6 }),
        Prof::C16 => { h.alld(); if full { h.iter(true); h.kv(); h.masks(rng, 6) } }
        Prof::C11 | Prof::C12 => {
            match rng.below(4) { 0 => h.all(), 1 => h.iter(false), 2 => h.kv(), _ => h.masks(rng, 4) }
            if full { h.all(); h.iter(true); h.kv(); h.masks(rng, 16) }
        }
    }
}

pub fn step(h: &mut Hist, rng: &mut Rng, p: Prof, grow: usize) {
    let i = *rng.pick(&h.pool);
    match rng.below(100) {
        x if x < 70 => {
            if rng.below(100) < grow {
                if rng.chance(2, 3) { h.ins(i) } else { h.goi(i, rng.chance(1, 2)) }
            } else { h.rem(i) }
        }
        x if x < 80 => match p { Prof::C01 | Prof::C12 => { if rng.chance(1, 2) { h.get(i, rng.chance(1, 2)) } else { h.geu(i) } } Prof::C16 => h.god(i), _ => {} },
        x if x < 88 => match p { Prof::C01 | Prof::C12 | Prof::C16 => h.gmu(i, rng.chance(2, 3), rng.chance(1, 2)), _ => {} },
        _ => observe(h, rng, p, false),
    }
}

pub fn churn(h: &mut Hist, rng: &mut Rng, p: Prof, n: usize) {
    observe(h, rng, p, true);
    let mut left = n;
    while left > 0 {
        let len = (8 + rng.below(30)).min(left);
        let grow = *rng.pick(&[20, 35, 50, 65, 80, 90, 100, 0]);
        for _ in 0..len { step(h, rng, p, grow) }
        left -= len;
        observe(h, rng, p, false);
    }
    observe(h, rng, p, true);
    if rng.chance(1, 2) {
        // empty it completely, use it again
        let mut ks: Vec<usize> = h.pool.clone(); rng.shuffle(&mut ks);
        for k in ks.iter() { h.rem(*k) }
        observe(h, rng, p, true);
        rng.shuffle(&mut ks);
        for k in ks.iter().take(6) { h.ins(*k) }
        observe(h, rng, p, true);
    }
}

/// All digits at one level: a node growing through every occupancy.
pub fn fanout_pool(rng: &mut Rng, w: usize, d: usize) -> Vec<usize> {
    let l = rng.below(d);
    let base: Vec<usize> = (0..d).map(|_| interesting(rng, w)).collect();
    let mut v: Vec<usize> = (0..w).map(|x| { let mut k = base.clone(); k[l] = x; undigits(&k, w) }).collect();
    v.retain(|k| *k != usize::MAX);
    v
}
pub fn fanout(h: &mut Hist, rng: &mut Rng, p: Prof) {
    let mut ks = h.pool.clone();
    let order = rng.below(3);
    if order == 1 { ks.reverse() }
    if order == 2 { rng.shuffle(&mut ks) }
    let every = ks.len() / 8;
    for (n, k) in ks.iter().enumerate() { h.ins(*k); if n % every == every - 1 { observe(h, rng, p, false) } }
    observe(h, rng, p, true);
    rng.shuffle(&mut ks);
    let m = ks.len() / 2 + rng.below(ks.len() / 2);
    for (n, k) in ks[..m].iter().enumerate() { h.rem(*k); if n % every == every - 1 { observe(h, rng, p, false) } }
    observe(h, rng, p, true);
    for k in &ks[..m / 2] { h.goi(*k, true) }
    observe(h, rng, p, true);
}

/// out of range and boundary indices (C15)
pub fn range(h: &mut Hist, rng: &mut Rng) {
    let (w, d) = (h.w, h.d);
    let nd = (64 + w.trailing_zeros() as usize - 1) / w.trailing_zeros() as usize;
    h.ev.push(obj!(o: "rng", g: digits(h.t.range_end(), w, nd)));
    let b = w.trailing_zeros() as usize * d;
    let mut xs: Vec<usize> = vec![usize::MAX, usize::MAX - 1, 1 << 63];
    if b < 64 {
        let e = 1usize << b;
        xs.extend([e, e + 1, e.wrapping_mul(2), e.wrapping_mul(3) / 2, e | (1 << 63), e.wrapping_mul(w), e.wrapping_mul(w).wrapping_add(3), usize::MAX - e + 1, usize::MAX - e]);
        for _ in 0..8 { xs.push(e.wrapping_mul(1 + rng.below(usize::MAX / e)).wrapping_add(rng.below(e))) }
        for k in b..64 { xs.push(1 << k); xs.push((1usize << k) | rng.below(e)) }
        // in range: just converted, looked up
        xs.extend([e - 1, e / 2, 0, 1]);
    } else { xs.extend([usize::MAX / 2, 0, 1, 1 << 62]) }
    rng.shuffle(&mut xs);
    for x in xs {
        let ops: &[&str] = &["index", "get", "geti", "rem", "ins", "goi", "gmu", "god"];
        let inside = b >= 64 && x != usize::MAX || b < 64 && x < 1 << b;
        let op = *rng.pick(ops);
        if inside && (op == "ins" || op == "goi") { continue }
        if op == "rem" && h.pos.contains_key(&x) { continue }
        if op == "gmu" && !h.t.has_get_mut() || op == "god" && !h.t.has_default() { continue }
        let t = &mut h.t;
        let p = quiet(|| match op {
            "index" => { t.index(x); }
            "get" => { t.get(x); }
            "geti" => { t.get_index(x); }
            "rem" => { t.remove(x); }
            "ins" => { t.insert(x, 1_000_000); }
            "goi" => { t.get_or_insert(x, None); }
            "gmu" => { t.get_mut(x, None); }
            _ => { t.get_or_default(x); }
        });
        h.ev.push(obj!(o: "oor", f: op, g: digits(x, w, nd), r: p as usize));
    }
    h.all(); h.iter(true); h.kv();
}
/// true iff it panicked
pub fn quiet(f: impl FnOnce()) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }

/// a subtree that comes and goes many times (C01)
pub fn cycles(h: &mut Hist, rng: &mut Rng, rounds: usize) {
    let n = h.pool.len();
    // keys that share the first l digits with pool[a]
    let l = if h.d == 1 { 1 } else { 1 + rng.below(h.d - 1) };
    let dg: Vec<Vec<usize>> = h.pool.iter().map(|k| digits(*k, h.w, h.d)).collect();
    let a = rng.below(n);
    let same: Vec<usize> = (0..n).filter(|i| dg[*i][..l] == dg[a][..l]).collect();
    let few = if rounds > 1000 { 1 } else { same.len().min(3) };
    let (lo, hi) = (same[0], same[few - 1]);
    for i in 0..n { if !same.contains(&i) && rng.chance(2, 3) { let k = h.pool[i]; h.ins(k) } }
    h.all();
    let s = 5000;
    let mut r: Vec<Vec<u64>> = vec![vec![]; hi - lo + 1];
    for _ in 0..rounds {
        for i in lo..=hi { h.t.insert(h.pool[i], s + i as u64 + 1) }
        for i in lo..=hi { let x = h.t.remove(h.pool[i]).unwrap_or(0); if !r[i - lo].contains(&x) && r[i - lo].len() < 5 { r[i - lo].push(x) } }
    }
    for i in lo..=hi { h.shadow.remove(&h.pool[i]); }
    h.ev.push(obj!(o: "cyc", a: lo + 1, b: hi + 1, n: rounds, s: s, r: r));
    h.all();
    for i in 0..n { let k = h.pool[i]; if rng.chance(3, 4) { h.ins(k) } }
    h.all();
    churn(h, rng, Prof::C01, 40);
}

/// bulk fill of the whole pool
pub fn bulk(h: &mut Hist, rng: &mut Rng, p: Prof) {
    let look = |h: &mut Hist, rng: &mut Rng| match p {
        Prof::C15 => { h.all(); h.iter(true); h.kv() }
        Prof::C03 => { h.kv(); h.all() }        // without writing through the slice
        _ => observe(h, rng, p, true),
    };
    let n = h.pool.len();
    let order = rng.below(3);
    let perm = |rng: &mut Rng, order: usize, lo: usize, hi: usize| -> Vec<usize> {
        let mut v: Vec<usize> = (lo..hi).collect();
        if order == 1 { v.reverse() }
        if order == 2 { rng.shuffle(&mut v) }
        v
    };
    if p == Prof::C12 || p == Prof::C11 { look(h, rng) } else {
    for i in perm(rng, order, 0, n) { let k = h.pool[i]; h.t.insert(k, 1000 + i as u64 + 1); }
    h.ev.push(obj!(o: "insn", a: 1, b: n, s: 1000));
    h.shadow = h.pool.iter().map(|k| (*k, 1)).collect();
    }
    look(h, rng);
    let (lo, hi) = (n / 16, n - n / 16);
    // few, whose places in storage (whatever the order of insertion) are high and stay below its end; then most
    let b = n / 8 - n / 100;
    for (lo, hi) in [(b, n / 8), (n - n / 8, n - b), (lo, hi)] {
        let mut r = vec![None; hi - lo];
        for i in perm(rng, 2, lo, hi) { r[i - lo] = h.t.remove(h.pool[i]); h.shadow.remove(&h.pool[i]); }
        h.ev.push(obj!(o: "remn", a: lo + 1, b: hi, r: r));
        if lo != b { look(h, rng) }
    }
    for i in perm(rng, 2, lo, hi) { let k = h.pool[i]; h.t.insert(k, 200_000 + i as u64 + 1); h.shadow.insert(k, 1); }
    h.ev.push(obj!(o: "insn", a: lo + 1, b: hi, s: 200_000));
    look(h, rng);
}

/// Every (d0, .., d_{j-1}, c) for a fixed c: the deepest level in use gets as many nodes as it can address.
pub fn spread_pool(w: usize, d: usize, j: usize, c: usize) -> Vec<usize> {
    let b = w.trailing_zeros() as usize;
    // at most 76 000 of them, more than two bytes can number
    let n = 1usize << (b * j);
    (0..n.min(76_000)).map(|x| if n > 76_000 { x * (n / 76_000) } else { x }).map(|x| { let mut k = digits(x, w, j); k.extend(vec![c; d - j]); undigits(&k, w) }).collect()
}

/* ------------------------------ replay ------------------------------ */

pub struct Embed { pub levels: Vec<usize>, pub map: Vec<usize>, pub other: usize }
impl Embed {
    pub fn key(&self, k: &[usize], w: usize, d: usize) -> usize {
        let mut o = vec![self.other; d];
        for (j, x) in k.iter().enumerate() { o[self.levels[j]] = self.map[*x] }
        undigits(&o, w)
    }
}
pub fn embeddings(w: usize, d: usize, md: usize, mw: usize) -> Vec<Embed> {
    let mut maps: Vec<Vec<usize>> = vec![vec![0, 1, w - 1, 0], vec![31, 32, 63, 63], vec![61, 62, 63, 63]];
    if w >= 128 { maps.push(vec![63, 64, 127, 127]) }
    if w >= 256 { maps.push(vec![127, 128, 255, 255]); maps.push(vec![5, 191, 192, 255]) }
    if mw == 4 { for m in maps.iter_mut() { m[3] = w - 1; if m[2] == w - 1 { m[2] = w - 2; if m[1] == w - 2 { m[1] = w - 3; m[0] = w - 20 } } } }
    let mut out = vec![];
    for (i, m) in maps.iter().enumerate() {
        // model levels at the top, at the bottom, or spread
        let levels: Vec<usize> = match i % 3 {
            0 => (d - md..d).collect(),
            1 => (0..md).collect(),
            _ => (0..md).map(|j| if j + 1 == md { d - 1 } else { j }).collect(),
        };
        out.push(Embed { levels, map: m.clone(), other: if i % 2 == 0 { 0 } else { w / 2 + 1 } });
    }
    out
}

/// Runs one script. Err = what differs from what TLC demanded.
pub fn run_script(cfg: &str, e: &Embed, s: &J, prop: &str) -> Result<(), String> {
    let mut t = make(cfg);
    let (w, d) = (t.width(), t.depth());
    let h = s.get("h").arr();
    let mut reply = 0;
    for o in h {
        let a = o.arr();
        let k = e.key(&a[1].ints(), w, d);
        let v = a[2].us() as u64;
        reply = 0;
        match a[0].str() {
            "ins" => t.insert(k, v),
            "goi" => reply = t.get_or_insert(k, None),
            "rem" => reply = t.remove(k).unwrap_or(0),
            "mod" => if t.has_get_mut() { t.get_mut(k, Some(v)); } else { t.kvm(&mut |x, _| if x == k { Some(v) } else { None }); },
            x => panic!("unknown op {x}"),
        }
    }
    let expect: Vec<(usize, u64)> = s.get("it").arr().iter().map(|x| (e.key(&x.arr()[0].ints(), w, d), x.arr()[1].us() as u64)).collect();
    let cmp = |what: &str, got: String, want: String| if got == want { Ok(()) } else { Err(format!("{what}: code {got}, specification {want}")) };
    if prop == "C01" {
        cmp("reply", reply.to_string(), s.get("r").us().to_string())?;
        for k in s.get("ks").arr() {
            let k = e.key(&k.ints(), w, d);
            let want = expect.iter().find(|x| x.0 == k).map(|x| x.1);
            cmp(&format!("get {k}"), format!("{:?}", t.get(k)), format!("{want:?}"))?;
        }
    }
    if prop == "C02" {
        for std in [true, false] {
            let (g, n) = t.iter(std, expect.len() + 8);
            cmp("iteration", format!("{g:?} {n}"), format!("{expect:?} 3"))?;
        }
    }
    if prop == "C03" {
        let (k, v) = t.kv();
        let mut g: Vec<(usize, u64)> = k.iter().cloned().zip(v.iter().cloned()).collect();
        g.sort();
        cmp("key_values", format!("{} {} {g:?}", k.len(), v.len()), format!("{} {} {expect:?}", expect.len(), expect.len()))?;
    }
    if prop == "C04" {
        for x in s.get("mk").arr() {
            let p = x.arr()[0].ints();
            let mut path: Vec<usize> = vec![];
            let full = if p.len() < e.levels.len() { e.levels[p.len()] } else { d };
            for l in 0..full { path.push(match e.levels[..p.len()].iter().position(|y| *y == l) { Some(j) => e.map[p[j]], None => e.other }) }
            let want: Vec<usize> = x.arr()[1].ints().iter().map(|y| e.map[*y]).collect();
            cmp(&format!("mask at {path:?}"), format!("{:?}", t.mask(&path, false)), format!("{want:?}"))?;
        }
    }
    if prop == "C16" && t.has_default() {
        for k in s.get("ks").arr() {
            let k = e.key(&k.ints(), w, d);
            let want = expect.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(DEF);
            cmp(&format!("get_or_default {k}"), t.get_or_default(k).to_string(), want.to_string())?;
        }
    }
    Ok(())
}
