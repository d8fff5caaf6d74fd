//! ops gen PROP TIER SEED PART NPARTS OUT      record lazy trees for TraceLazy.tla
//! ops run PROP TIER SEED PART NPARTS OUT JOBS [WIDE]  the same for the trees and cursor walks of MCLazy.tla, placed in real trees
use hibit_harness::hist::{interesting, pool};
use hibit_harness::json::{Raw, J, W};
use hibit_harness::lazy::*;
use hibit_harness::rng::Rng;
use hibit_harness::trees::{bits, digits, undigits, Val};
use hibit_harness::obj;
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
use hibit_tree::utils::LendingIterator;
use hibit_tree::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Prof { C05, C06, C07, C08, C09, C10, C11, C17, C18, C21 }
use Prof::*;

type Mat = Box<dyn FnOnce() -> Mated>;
/// everything observed of a materialized container
struct Mated { it: Vec<(usize, Term)>, t: usize, all: Vec<Option<Term>>, kv: (Vec<usize>, Vec<Term>), m: Vec<(Vec<usize>, Vec<usize>)> }

struct Src { kv: Vec<(usize, u64)>, ph: Vec<usize>, loose: bool }
struct H<M: 'static> {
    cfg: String, w: usize, d: usize, pool: Vec<usize>, pos: BTreeMap<usize, usize>,
    src: Vec<Src>, ast: Ast, o: Option<&'static dyn Obj<M>>, ev: Vec<String>,
    rf: Vec<(Vec<usize>, Vec<usize>)>, spied: bool, calls: bool, only_calls: bool, hints: bool, what: String,
}
struct T(Option<Term>);
impl W for T { fn w(&self, s: &mut String) { match &self.0 { Some(t) => t.0.w(s), None => s.push_str("[]") } } }
impl<M: BitBlock> H<M> {
    fn k(&self, i: usize) -> usize { *self.pos.get(&i).unwrap_or(&0) }
    fn o(&self) -> &'static dyn Obj<M> { self.o.unwrap() }
    fn req(&mut self, r: String) { if self.spied { self.ev.push(r) } }
    fn after(&mut self, calls: String) {
        if self.spied { self.ev.extend(take_log()) } else { take_log(); }
        let c = take_calls();
        if self.calls { let c: Vec<Vec<i64>> = c; self.ev.push(format!("{{\"o\":\"calls\",{},\"c\":{}}}", calls, { let mut s = String::new(); c.w(&mut s); s })) }
        let h = take_hints();
        if self.hints && !h.is_empty() { self.ev.push(obj!(o: "hints", h: h)) }
    }
    fn none(&mut self) { self.after("\"f\":\"none\"".into()) }
    fn get(&mut self, i: usize) -> bool {
        let k = self.k(i);
        if k > 0 { self.req(obj!(o: "req", f: "key", k: k)) }
        let r = self.o().get(i);
        let some = r.is_some();
        if k > 0 { self.after(format!("\"f\":\"key\",\"k\":{k}")) } else { take_log(); self.after("\"f\":\"key\",\"k\":0".into()) }
        self.ev.push(obj!(o: "get", k: k, r: T(r)));
        some
    }
    fn geu(&mut self, i: usize) {
        let k = self.k(i);
        self.req(obj!(o: "req", f: "key", k: k));
        let r = unsafe { self.o().get_unchecked(i) };
        self.after(format!("\"f\":\"key\",\"k\":{k}"));
        self.ev.push(obj!(o: "geu", k: k, r: T(Some(r))));
    }
    fn all(&mut self, unchecked: bool) {
        let pool = self.pool.clone();
        if self.spied || self.calls { for k in pool.iter() { if self.get(*k) && unchecked { self.geu(*k) } } }
        else {
            let r: Vec<Option<Term>> = pool.iter().map(|k| self.o().get(*k)).collect();
            let p: Vec<bool> = r.iter().map(|x| x.is_some()).collect();
            self.none2();
            self.ev.push(obj!(o: "all", r: r.into_iter().map(T).collect::<Vec<_>>()));
            if unchecked { for (i, k) in pool.iter().enumerate() { if p[i] { self.geu(*k) } } }
        }
    }
    fn none2(&mut self) { take_log(); take_calls(); let h = take_hints(); if self.hints && !h.is_empty() { self.ev.push(obj!(o: "hints", h: h)) } }
    fn iter(&mut self, std: bool) {
        let std = std && self.o().has_std();
        self.req(obj!(o: "req", f: "visit"));
        let mut out: Vec<(usize, Term)> = vec![]; let mut ended = 0;
        let limit = self.pool.len() + 8;
        let calls = self.calls;
        let mut cl: Vec<String> = vec![];
        let mut pos = self.pos.clone(); pos.insert(usize::MAX, 0);
        self.o().iter(std, &mut |x| match x {
            Err(()) => { if calls { cl.push(obj!(o: "calls", f: "none", c: take_calls())) } true }
            Ok(Some((i, t))) => {
                if calls { cl.push(obj!(o: "calls", f: "key", k: *pos.get(&i).unwrap_or(&0), c: take_calls())) }
                if ended > 0 { ended = 0; out.push((usize::MAX, t)); return false }
                out.push((i, t)); out.len() < limit
            }
            Ok(None) => { if calls { cl.push(obj!(o: "calls", f: "none", c: take_calls())) } ended += 1; ended < 3 }
        });
        self.ev.extend(cl);
        self.none();
        let e: Vec<(usize, Raw)> = out.into_iter().map(|(i, t)| (self.k(i), { let mut s = String::new(); t.0.w(&mut s); Raw(s) })).collect();
        self.ev.push(obj!(o: "it", e: e, t: ended));
    }
    /// nodes reachable by the reported masks, breadth first
    fn refs(&mut self, limit: usize) {
        let o = self.o();
        let mut q = vec![vec![]]; let mut n = 0; let mut out = vec![];
        while n < q.len() && out.len() < limit {
            let p: Vec<usize> = q[n].clone(); n += 1;
            let b = mask_of(o, &p, false);
            if p.len() + 1 < self.d { for x in &b { let mut p = p.clone(); p.push(*x); q.push(p) } }
            out.push((p, b));
        }
        take_log(); take_calls();
        self.rf = out;
        self.ev.push(obj!(o: "ref"));
    }
    fn masks(&mut self, rng: &mut Rng, n: usize) {
        let o = self.o();
        let mut e = vec![];
        for _ in 0..n {
            let k = digits(*rng.pick(&self.pool), self.w, self.d);
            let mut p = k[..rng.below(self.d)].to_vec();
            if rng.chance(1, 4) && !p.is_empty() { let l = rng.below(p.len()); p[l] = interesting(rng, self.w) }
            if self.exists(&p) && rng.chance(1, 2) { e.push((p.clone(), mask_of(o, &p, true))) }
            e.push((p.clone(), mask_of(o, &p, false)));
        }
        take_log(); take_calls();
        self.ev.push(obj!(o: "masks", e: e));
    }
    fn rf(&self, p: &[usize]) -> Option<&Vec<usize>> { self.rf.iter().find(|x| x.0 == p).map(|x| &x.1) }
    fn exists(&self, p: &[usize]) -> bool {
        (0..p.len()).all(|l| self.rf(&p[..l]).map(|b| b.contains(&p[l])).unwrap_or(false))
    }
    fn walk(&mut self, rng: &mut Rng, ncur: usize, steps: usize) {
        let o = self.o();
        let d = self.d;
        let known: std::collections::HashSet<Vec<usize>> = self.rf.iter().map(|x| x.0.clone()).collect();
        let mut cs: Vec<(Box<dyn Cur<M>>, usize, Vec<usize>)> = vec![];
        for c in 0..ncur {
            self.req(obj!(o: "req", f: "none"));
            cs.push((o.cursor(), 0, vec![]));
            self.none();
            self.ev.push(obj!(o: "wn", c: c + 1));
        }
        let digs: Vec<Vec<usize>> = self.pool.iter().map(|k| digits(*k, self.w, d)).collect();
        for _ in 0..steps {
            let c = rng.below(ncur);
            let (cur, sel, path) = &mut cs[c];
            if *sel == d && rng.chance(2, 5) {
                // data
                let tm = self.rf.iter().find(|x| x.0 == *path).map(|x| x.1.clone()).unwrap_or_default();
                let x = if !tm.is_empty() && rng.chance(2, 3) { *rng.pick(&tm) } else if rng.chance(1, 2) { rng.pick(&digs)[d - 1] } else { interesting(rng, self.w) };
                let mut full = path.clone(); full.push(x);
                let un = self.exists(&full) && tm.contains(&x) && rng.chance(1, 2);
                if self.spied { self.ev.push(obj!(o: "req", f: "data", c: c + 1, x: x)) }
                let r = unsafe { cur.data(x, un) };
                let k = self.k(undigits(&full, self.w));
                self.after(format!("\"f\":\"key\",\"k\":{k}"));
                self.ev.push(obj!(o: "wd", c: c + 1, x: x, u: un, r: T(r)));
                continue
            }
            let l = if *sel == 0 { 0 } else if *sel < d && rng.chance(3, 4) { *sel } else { rng.below((*sel + 1).min(d)) };
            let mut p = if l == 0 { vec![] } else { path[..l - 1].to_vec() };
            let x = if l == 0 { 0 } else {
                match self.rf(&p) {
                    Some(b) if !b.is_empty() && rng.chance(3, 4) => *rng.pick(b),
                    _ => if rng.chance(2, 3) { rng.pick(&digs)[l - 1] } else { interesting(rng, self.w) },
                }
            };
            if l > 0 { p.push(x) }
            let un = self.exists(&p) && rng.chance(1, 2);
            // a node whose mask was not recorded cannot be judged
            if self.exists(&p) && !known.contains(&p) { continue }
            if l > 1 && !known.contains(&p[..l - 1]) && self.exists(&p[..l - 1]) { continue }
            if self.spied { self.ev.push(obj!(o: "req", f: "walk", c: c + 1, l: l, x: x)) }
            let b = unsafe { cur.select(l, x, un) };
            *sel = l + 1; *path = p;
            self.none();
            self.ev.push(obj!(o: "ws", c: c + 1, l: l, x: x, u: un, b: bits(&b)));
        }
    }
    /// the walks of the model: every transition of its cursor
    fn tour(&mut self, walks: &[J], emb: &[Vec<usize>]) {
        let o = self.o(); let d = self.d;
        for (n, wk) in walks.iter().enumerate() {
            let c = n + 1;
            self.req(obj!(o: "req", f: "none"));
            let mut cur = o.cursor();
            self.none();
            self.ev.push(obj!(o: "wn", c: c));
            let mut path: Vec<usize> = vec![];
            for s in wk.arr() {
                let s = s.arr();
                let (l, y, un) = (s[1].us(), s[2].us(), s[3].int() == 1);
                if s[0].str() == "s" {
                    let x = if l == 0 { 0 } else { emb[l - 1][y] };
                    let mut p = if l == 0 { vec![] } else { path[..l - 1].to_vec() };
                    if l > 0 { p.push(x) }
                    let un = un && self.exists(&p);
                    self.req(obj!(o: "req", f: "walk", c: c, l: l, x: x));
                    let b = unsafe { cur.select(l, x, un) };
                    path = p;
                    self.none();
                    self.ev.push(obj!(o: "ws", c: c, l: l, x: x, u: un, b: bits(&b)));
                } else {
                    let x = emb[d - 1][y];
                    let mut full = path.clone(); full.push(x);
                    let un = un && self.exists(&full);
                    self.req(obj!(o: "req", f: "data", c: c, x: x));
                    let r = unsafe { cur.data(x, un) };
                    let k = self.k(undigits(&full, self.w));
                    self.after(format!("\"f\":\"key\",\"k\":{k}"));
                    self.ev.push(obj!(o: "wd", c: c, x: x, u: un, r: T(r)));
                }
            }
        }
    }
    fn mat(&mut self, f: Mat) {
        self.req(obj!(o: "req", f: "visit"));
        take_calls();
        let m = f();
        self.after("\"f\":\"every\"".into());
        if self.only_calls { return }
        let it: Vec<(usize, T)> = m.it.into_iter().map(|(i, t)| (self.k(i), T(Some(t)))).collect();
        let k: Vec<usize> = m.kv.0.iter().map(|i| self.k(*i)).collect();
        self.ev.push(obj!(o: "mat", f: self.what, all: m.all.into_iter().map(T).collect::<Vec<_>>(), it: it, t: m.t, k: k, v: m.kv.1.into_iter().map(|t| T(Some(t))).collect::<Vec<_>>(), m: m.m));
    }
    fn line(&self, died: Option<String>) -> String {
        let ks: Vec<Vec<usize>> = self.pool.iter().map(|k| digits(*k, self.w, self.d)).collect();
        let src: Vec<Raw> = self.src.iter().map(|s| {
            let m: Vec<u64> = self.pool.iter().map(|k| s.kv.iter().find(|x| x.0 == *k).map(|x| x.1).unwrap_or(0)).collect();
            let ph: Vec<Vec<usize>> = s.ph.iter().map(|k| digits(*k, self.w, self.d)).collect();
            Raw(obj!(m: m, ph: ph, loose: s.loose))
        }).collect();
        let mut ev: Vec<Raw> = self.ev.iter().map(|e| Raw(e.clone())).collect();
        if let Some(d) = died { ev.push(Raw(obj!(o: "die", why: d.replace(['"', '\\', '\n'], " ")))) }
        obj!(cfg: self.cfg, what: self.what, W: self.w, D: self.d, K: ks, src: src, ex: Raw(self.ast.json()), exact: self.o.map(|o| o.exact()).unwrap_or(false), ref: Raw({ let mut s = String::new(); self.rf.w(&mut s); s }), ev: ev)
    }
}
fn mask_of<M: BitBlock>(o: &'static dyn Obj<M>, p: &[usize], un: bool) -> Vec<usize> {
    let mut c = o.cursor();
    unsafe {
        let mut m = c.select(0, 0, un);
        for (l, x) in p.iter().enumerate() { m = c.select(l + 1, *x, un) }
        bits(&m)
    }
}
fn look<const D: usize>(t: DenseTree<Term, D>, pool: &[usize], limit: usize) -> Mated
where ConstUsize<D>: ConstInteger
{
    let mut it = vec![]; let mut ended = 0;
    let mut i = t.iter();
    loop { match LendingIterator::next(&mut i) { Some((k, v)) => { it.push((k, v.clone())); if ended > 0 || it.len() > limit { break } } None => { ended += 1; if ended == 3 { break } } } }
    drop(i);
    let all = pool.iter().map(|k| t.get(*k).cloned()).collect();
    let kv = { let (k, v) = t.key_values(); (k.to_vec(), v.to_vec()) };
    // masks through a real cursor
    let o: &'static dyn Obj<u64> = erase_reg(t);
    let mut q = vec![vec![]]; let mut n = 0; let mut m = vec![];
    while n < q.len() && m.len() < 80 {
        let p: Vec<usize> = q[n].clone(); n += 1;
        let b = mask_of(o, &p, false);
        if p.len() + 1 < D { for x in &b { let mut p = p.clone(); p.push(*x); q.push(p) } }
        m.push((p, b));
    }
    for k in pool.iter().take(10) { for l in 0..D { let p = digits(*k, 64, D)[..l].to_vec(); let b = mask_of(o, &p, false); m.push((p, b)) } }
    Mated { it, t: ended, all, kv, m }
}

/* --------------------------- configurations --------------------------- */
struct Cfg<M: 'static, const D: usize> {
    name: &'static str,
    kinds: &'static [&'static str],
    leaf: fn(&str, &[(usize, u64)], &[usize], &mut Rng) -> &'static dyn Obj<M>,
    /// really nested types: (tree, expression); None past the end
    typed: fn(usize, &[Vec<(usize, u64)>]) -> Option<(&'static dyn Obj<M>, Ast, &'static str)>,
    mat: Option<fn(&'static dyn Obj<M>, Vec<usize>) -> Mat>,
    tmat: Option<fn(usize, &[Vec<(usize, u64)>], Vec<usize>) -> Option<(Mat, Ast, &'static str)>>,
}
trait Fill: Default { fn put(&mut self, k: usize, v: u64); fn del(&mut self, k: usize); }
fn fill<T: Fill>(kv: &[(usize, u64)]) -> T { let mut t = T::default(); for (k, v) in kv { t.put(*k, *v) } t }
/// contents reached by a history
fn churned<T: Fill>(kv: &[(usize, u64)], extra: &[usize], rng: &mut Rng) -> T {
    let mut t = T::default();
    let mut todo: Vec<(usize, u64)> = kv.to_vec(); rng.shuffle(&mut todo);
    let mut ex: Vec<usize> = extra.iter().filter(|k| !kv.iter().any(|x| x.0 == **k)).cloned().collect(); rng.shuffle(&mut ex);
    for k in &ex { t.put(*k, 99) }
    for (k, v) in &todo { t.put(*k, 98); if rng.chance(1, 3) { t.del(*k) } if let Some(x) = ex.pop() { t.del(x) } t.put(*k, *v) }
    for k in &ex { t.del(*k) }
    t
}
macro_rules! fill_impl { ($t:ty) => { impl Fill for $t { fn put(&mut self, k: usize, v: u64) { self.insert(k, Val(v)) } fn del(&mut self, k: usize) { self.remove(k); } } } }

/// The catalogue of nested types over containers A and B.
macro_rules! typed_fn { ($f:ident, $tm:ident, $a:ty, $b:ty, $m:ty, $d:literal, $mat:tt) => {
    #[allow(unused_mut)]
    fn $f(n: usize, kv: &[Vec<(usize, u64)>]) -> Option<(&'static dyn Obj<$m>, Ast, &'static str)> {
        typed_body!(n, kv, $a, $b, go_erase)
    }
    typed_mat!($mat, $tm, $a, $b, $d);
} }
macro_rules! leak { ($e:expr) => { &*Box::leak(Box::new($e)) } }
macro_rules! srcs { ($kv:expr, $t:ty) => { { let v: Vec<$t> = $kv.iter().map(|s| fill::<$t>(s)).collect(); &*Box::leak(v.into_boxed_slice()) } } }
macro_rules! typed_body { ($n:expr, $kv:expr, $A:ty, $B:ty, go_erase) => {{
    let a: &'static [$A] = srcs!($kv, $A);
    let b: &'static [$B] = srcs!($kv, $B);
    let la = |i: usize| xl(&a[i], i);
    let lb = |i: usize| xl(&b[i], i);
    let ls = |n: usize| (0..n).map(Ast::L).collect::<Vec<_>>();
    // multi over the containers themselves
    let ma = || X { t: multi_intersection(a.iter()), a: Ast::MI(ls(a.len())) };
    let mo = || X { t: multi_union(b.iter()), a: Ast::MU(ls(b.len())) };
    macro_rules! reg { ($e:expr, $s:literal) => {{ let x = $e; Some((erase_reg(x.t), x.a, $s)) }} }
    macro_rules! mul { ($e:expr, $s:literal) => {{ let x = $e; Some((erase(x.t), x.a, $s)) }} }
    match $n {
        0 => reg!(xand(la(0), lb(1)), "A&B"),
        1 => reg!(xor(la(0), lb(1)), "A|B"),
        2 => reg!(xand(lb(0), xor(la(1), lb(2))), "B&(A|B)"),
        3 => reg!(xor(xand(la(0), lb(1)), la(2)), "(A&B)|A"),
        4 => mul!(ma(), "mand[A]"),
        5 => mul!(mo(), "mor[B]"),
        6 => reg!(xfold(1, ma()), "fold mand[A]"),
        7 => reg!(xfold(1, mo()), "fold mor[B]"),
        8 => mul!(xmand(vec![xand(la(0), lb(1)), xand(la(1), lb(2))]), "mand[A&B]"),
        9 => mul!(xmor(vec![xor(la(0), lb(1)), xor(la(2), lb(3))]), "mor[A|B]"),
        10 => mul!(xmor(vec![xand(la(0), lb(1)), xand(la(2), lb(3)), xand(la(1), lb(2))]), "mor[A&B]"),
        11 => mul!(xmor(vec![ma(), ma()]), "mor[mand]"),
        12 => mul!(xmand(vec![mo(), mo()]), "mand[mor]"),
        13 => mul!(xor(ma(), lb(0)), "mand|B"),
        14 => mul!(xand(la(0), mo()), "A&mor"),
        15 => reg!(xmap(2, xand(la(0), lb(1))), "map(A&B)"),
        16 => reg!(xmap(2, xor(la(0), lb(1))), "map(A|B)"),
        17 => reg!(xfold(3, xmor(vec![xmap(1, xand(la(0), lb(1))), xmap(2, xand(la(2), lb(3)))])), "fold mor[map(A&B)]"),
        18 => mul!(xmor(vec![xfold(1, mo()), xfold(2, mo())]), "mor[fold mor]"),
        19 => mul!(xand(ma(), mo()), "mand&mor"),
        20 => reg!(xand(X { t: fill::<$A>(&$kv[0]), a: Ast::L(0) }, lb(1)), "owned A&B"),
        21 => reg!(xor(X { t: fill::<$B>(&$kv[0]), a: Ast::L(0) }, X { t: fill::<$A>(&$kv[1]), a: Ast::L(1) }), "owned B|owned A"),
        22 => reg!(xmap(1, X { t: fill::<$B>(&$kv[0]), a: Ast::L(0) }), "map(owned B)"),
        23 => mul!(X { t: multi_intersection(a[..0].iter()), a: Ast::MI(vec![]) }, "mand[]"),
        24 => mul!(X { t: multi_union(a[..0].iter()), a: Ast::MU(vec![]) }, "mor[]"),
        25 => mul!(X { t: multi_intersection(a[..1].iter()), a: Ast::MI(vec![Ast::L(0)]) }, "mand[A]"),
        26 => mul!(X { t: multi_union(b[..1].iter()), a: Ast::MU(vec![Ast::L(0)]) }, "mor[B]"),
        27 => reg!(xfold(4, xmand(vec![xfold(1, mo()), xfold(2, mo()), xfold(3, mo())])), "fold mand[fold mor]"),
        28 => mul!(xor(xor(xand(la(0), lb(1)), xand(la(2), lb(3))), ma()), "((A&B)|(A&B))|mand"),
        29 => mul!(xmor((0..32).map(|i| xand(la(i % 4), lb(i / 8))).collect()), "mor of 32"),
        30 => mul!(xmand((0..32).map(|i| xor(la(i % 4), lb(i / 8))).collect()), "mand of 32"),
        31 => reg!(xand(xand(la(0), lb(1)), xand(lb(2), la(1))), "(A&B)&(B&A)"),
        32 => reg!(xmap(2, xmap(1, la(0))), "map map A"),
        33 => reg!(X { t: fill::<$A>(&$kv[0]), a: Ast::L(0) }, "A"),
        34 => reg!(X { t: fill::<$B>(&$kv[0]), a: Ast::L(0) }, "B"),
        _ => None,
    }
}} }
macro_rules! typed_mat {
    (nomat, $tm:ident, $a:ty, $b:ty, $d:literal) => {};
    (mat, $tm:ident, $A:ty, $B:ty, $d:literal) => {
        fn $tm(n: usize, kv: &[Vec<(usize, u64)>], pool: Vec<usize>) -> Option<(Mat, Ast, &'static str)> {
            let a: &'static [$A] = srcs!(kv, $A);
            let b: &'static [$B] = srcs!(kv, $B);
            let la = |i: usize| xl(&a[i], i);
            let lb = |i: usize| xl(&b[i], i);
            let ls = |n: usize| (0..n).map(Ast::L).collect::<Vec<_>>();
            let ma = || X { t: multi_intersection(a.iter()), a: Ast::MI(ls(a.len())) };
            let mo = || X { t: multi_union(b.iter()), a: Ast::MU(ls(b.len())) };
            let limit = pool.len() + 8;
            macro_rules! m { ($e:expr, $s:literal) => {{ let x = $e; let t = x.t; let f: Mat = Box::new(move || look::<$d>(t.materialize(), &pool, limit)); Some((f, x.a, $s)) }} }
            match n {
                0 => m!(xmap(1, la(0)), "map A"),
                1 => m!(xmap(1, xand(la(0), lb(1))), "map(A&B)"),
                2 => m!(xmap(1, xor(lb(0), la(1))), "map(B|A)"),
                3 => m!(xfold(1, ma()), "fold mand"),
                4 => m!(xfold(1, mo()), "fold mor"),
                5 => m!(xfold(3, xmor(vec![xmap(1, xand(la(0), lb(1))), xmap(2, xand(la(2), lb(3)))])), "fold mor[map and]"),
                6 => m!(xmap(4, xor(xfold(1, ma()), xfold(2, mo()))), "map(fold mand|fold mor)"),
                7 => m!(xmap(4, xand(xor(la(0), lb(1)), xor(la(2), lb(3)))), "map((A|B)&(A|B))"),
                8 => m!(xfold(1, X { t: multi_union(a[..0].iter()), a: Ast::MU(vec![]) }), "fold mor[]"),
                9 => m!(xfold(1, X { t: multi_intersection(a[..0].iter()), a: Ast::MI(vec![]) }), "fold mand[]"),
                10 => m!(xmap(1, X { t: fill::<$A>(&kv[0]), a: Ast::L(0) }), "map(owned A)"),
                11 => m!(xmap(1, xor(xand(la(0), lb(1)), xand(la(2), lb(3)))), "map((A&B)|(A&B))"),
                _ => None,
            }
        }
    };
}
fn dyn_mat<const D: usize>(o: &'static dyn Obj<u64>, pool: Vec<usize>) -> Mat
where ConstUsize<D>: ConstInteger
{
    let limit = pool.len() + 8;
    Box::new(move || if o.exact() { look::<D>(Dyn::<u64, D, true>(o).materialize(), &pool, limit) } else { look::<D>(Dyn::<u64, D, false>(o).materialize(), &pool, limit) })
}
fn rematerialized<const D: usize>(kv: &[(usize, u64)]) -> DenseTree<Val, D>
where ConstUsize<D>: ConstInteger, DenseTree<Val, D>: Fill
{
    // through an intersection with itself: a non-exact source
    let t: DenseTree<Val, D> = fill(kv);
    intersection(&t, &t).map(|(a, _): (&Val, &Val)| a.clone()).materialize()
}

macro_rules! cfg64 { ($m:ident, $d:literal, $n:ident, $w:expr) => {
    mod $m { use super::*;
        pub type A = DenseTree<Val, $d>; pub type B = SparseTree<config::width_64::$n, Val>; pub type R = SparseTree<config::width_64::$n, Val, ReqDefault>;
        fill_impl!(A); fill_impl!(B); fill_impl!(R);
        typed_fn!(typed, tmat, A, B, u64, $d, mat);
        fn leaf(k: &str, kv: &[(usize, u64)], x: &[usize], rng: &mut Rng) -> &'static dyn Obj<u64> {
            match k {
                "d" => erase_reg(churned::<A>(kv, x, rng)), "dp" => erase_reg(fill::<A>(kv)), "dm" => erase_reg(rematerialized::<$d>(kv)),
                "s" => erase_reg(churned::<B>(kv, x, rng)), "r" => erase_reg(churned::<R>(kv, x, rng)), _ => leaf_spy::<u64, $d>(k, kv, x),
            }
        }
        pub fn cfg() -> Cfg<u64, $d> { Cfg { name: stringify!($m), kinds: &["d", "dp", "dm", "s", "r"], leaf, typed, mat: Some(dyn_mat::<$d>), tmat: Some(tmat) } }
    }
} }
macro_rules! cfgw { ($m:ident, $d:literal, $n:ident, $w:ident) => {
    mod $m { use super::*;
        pub type A = SparseTree<config::$w::$n, Val>; pub type B = SparseTree<config::$w::$n, Val, ReqDefault>;
        type M = <A as HibitTree>::LevelMask;
        fill_impl!(A); fill_impl!(B);
        typed_fn!(typed, tmat, A, B, M, $d, nomat);
        fn leaf(k: &str, kv: &[(usize, u64)], x: &[usize], rng: &mut Rng) -> &'static dyn Obj<M> {
            match k { "s" => erase_reg(churned::<A>(kv, x, rng)), "r" => erase_reg(churned::<B>(kv, x, rng)), _ => leaf_spy::<M, $d>(k, kv, x) }
        }
        pub fn cfg() -> Cfg<M, $d> { Cfg { name: stringify!($m), kinds: &["s", "r"], leaf, typed, mat: None, tmat: None } }
    }
} }
// "y<id>" exact, "z<id>" loose
fn leaf_spy<M: BitBlock, const D: usize>(k: &str, kv: &[(usize, u64)], x: &[usize]) -> &'static dyn Obj<M>
where ConstUsize<D>: ConstInteger
{
    let id: usize = k[1..].parse().unwrap();
    if k.starts_with('y') { erase_reg(Spy::<M, D, true>::new(id, kv, &[], true)) } else { erase_reg(Spy::<M, D, false>::new(id, kv, x, true)) }
}
cfg64!(w64d1, 1, depth_1, 64);
cfg64!(w64d2, 2, depth_2, 64);
cfg64!(w64d3, 3, depth_3, 64);
cfg64!(w64d4, 4, depth_4, 64);
cfg64!(w64d8, 8, depth_8, 64);
cfgw!(w128d1, 1, depth_1, width_128);
cfgw!(w128d2, 2, depth_2, width_128);
cfgw!(w128d4, 4, depth_4, width_128);
cfgw!(w256d1, 1, depth_1, width_256);
cfgw!(w256d2, 2, depth_2, width_256);
cfgw!(w256d3, 3, depth_3, width_256);

/* ------------------------------ generation ------------------------------ */
fn contents(rng: &mut Rng, pool: &[usize], n: usize, w: usize, d: usize) -> Vec<Vec<(usize, u64)>> {
    let style = rng.below(6);
    let cut = rng.below(d + 1);
    (0..n).map(|j| {
        let dens = match style { 0 => 9, 1 => 5, 2 => 2, 3 => *rng.pick(&[0, 3, 10]), _ => *rng.pick(&[2, 5, 8]) };
        let salt = rng.next();
        let mut v: Vec<(usize, u64)> = vec![];
        for (i, k) in pool.iter().enumerate() {
            let take = if style == 4 {
                // whole subtrees in or out: sources that share upper nodes only
                let p = digits(*k, w, d)[..cut].iter().fold(salt, |a, x| (a ^ *x as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23));
                p % 10 < 6 && rng.chance(2, 3)
            } else if style == 5 { (i + j) % n.max(1) != 0 || rng.chance(1, 9) } else { rng.chance(dens, 10) };
            if take { v.push((*k, (j as u64 + 1) * 1000 + i as u64)) }
        }
        v
    }).collect()
}
fn full_pool(rng: &mut Rng, w: usize, d: usize) -> Vec<usize> { hibit_harness::hist::fanout_pool(rng, w, d) }

struct G { next: i64, size: usize }
impl G {
    fn leaf(&mut self, rng: &mut Rng, n: usize) -> Ast { Ast::L(rng.below(n)) }
    /// a random expression; `reg`: must it be single-valued
    fn ex(&mut self, rng: &mut Rng, n: usize, depth: usize, reg: bool) -> Ast {
        self.size += 1;
        if depth == 0 || self.size > 26 || rng.chance(1, 6) { return self.leaf(rng, n) }
        match rng.below(if reg { 8 } else { 10 }) {
            0 | 1 => Ast::I(Box::new(self.ex(rng, n, depth - 1, reg)), Box::new(self.ex(rng, n, depth - 1, reg))),
            2 | 3 => Ast::U(Box::new(self.ex(rng, n, depth - 1, reg)), Box::new(self.ex(rng, n, depth - 1, reg))),
            4 => { self.next += 1; let c = self.next; Ast::M(c, Box::new(self.ex(rng, n, depth - 1, true))) }
            5 | 6 | 7 => { self.next += 1; let c = self.next; let m = self.multi(rng, n, depth, true); Ast::F(c, Box::new(m)) }
            _ => self.multi(rng, n, depth, false),
        }
    }
    fn multi(&mut self, rng: &mut Rng, n: usize, depth: usize, reg: bool) -> Ast {
        self.size += 1;
        let len = match rng.below(12) { 0 => 0, 1 => 1, 2 => 5, x if x < 7 => 2, _ => 3 };
        let v = (0..len).map(|_| self.ex(rng, n, depth.saturating_sub(1), reg)).collect();
        if rng.chance(1, 2) { Ast::MI(v) } else { Ast::MU(v) }
    }
}
fn expression(rng: &mut Rng, p: Prof, n: usize, it: usize) -> Ast {
    let mut g = G { next: 0, size: 0 };
    let sub = |g: &mut G, rng: &mut Rng, reg: bool| if rng.chance(1, 2) { g.leaf(rng, n) } else { let d = 1 + rng.below(2); g.ex(rng, n, d, reg) };
    match p {
        C05 => Ast::I(Box::new(sub(&mut g, rng, false)), Box::new(sub(&mut g, rng, false))),
        C06 => Ast::U(Box::new(sub(&mut g, rng, false)), Box::new(sub(&mut g, rng, false))),
        C07 | C08 => {
            let len = *[0, 1, 2, 3, 4, 2, 3, 8, 32, 31, 5, 17].get(it % 12).unwrap();
            let rich = len <= 4;
            let v = (0..len).map(|i| if rich { sub(&mut g, rng, false) } else { Ast::L(i % n) }).collect();
            if p == C07 { Ast::MI(v) } else { Ast::MU(v) }
        }
        C09 => {
            g.next = 1;
            if rng.chance(1, 2) { Ast::M(1, Box::new(sub(&mut g, rng, true))) }
            else { let m = g.multi(rng, n, 2, true); Ast::F(1, Box::new(m)) }
        }
        C17 => if rng.chance(1, 6) { g.leaf(rng, n) } else { g.ex(rng, n, 3, false) },
        C21 => { let d = 2 + rng.below(2); match rng.below(3) { 0 => { g.next = 1; Ast::M(1, Box::new(g.ex(rng, n, d, true))) } 1 => { g.next = 1; let m = g.multi(rng, n, d, true); Ast::F(1, Box::new(m)) } _ => g.ex(rng, n, d, false) } }
        _ => { let d = 2 + rng.below(3); g.ex(rng, n, d, false) }
    }
}

fn observe<M: BitBlock>(h: &mut H<M>, rng: &mut Rng, p: Prof) {
    let foreign: Vec<usize> = (0..3).map(|_| { let mut k = digits(*rng.pick(&h.pool), h.w, h.d); let l = rng.below(h.d); k[l] = interesting(rng, h.w); undigits(&k, h.w) })
        .filter(|k| !h.pos.contains_key(k) && *k != usize::MAX).collect();
    MODE.set(0);
    match p {
        C05 | C06 | C09 | C10 => {
            h.ev.push(obj!(o: "exact", r: h.o().exact()));
            h.all(true);
            if !h.spied && !h.calls { for k in foreign { h.get(k); } }
            h.iter(false); h.iter(true);
            h.refs(60); h.masks(rng, 6);
            if p == C10 || p == C09 || rng.chance(1, 3) { let n = 1 + rng.below(2); h.walk(rng, n, 25) }
        }
        C07 | C08 => {
            h.hints = true;
            h.refs(60);
            for m in 0..5 {
                if m > 0 && rng.chance(1, 3) { continue }
                MODE.set(m);
                h.all(true); h.iter(false); h.walk(rng, 1, 15);
            }
            MODE.set(0);
            for k in foreign { h.get(k); }
            h.masks(rng, 4);
        }
        C17 => {
            h.refs(70);
            for n in 1..4 { h.walk(rng, n, 60) }
        }
        C18 => {
            h.spied = true; take_log();
            h.refs(60);
            h.all(true); h.iter(false);
            let n = 1 + rng.below(2); h.walk(rng, n, 40);
        }
        C21 => {
            h.calls = true;
            h.none();
            h.refs(40);
            h.all(true); h.iter(false); h.iter(true); h.walk(rng, 1, 30);
        }
        C11 => {}
    }
}

fn one<M: BitBlock, const D: usize>(c: &Cfg<M, D>, p: Prof, rng: &mut Rng, it: usize, out: &mut std::fs::File)
where ConstUsize<D>: ConstInteger
{
    let w = M::SIZE;
    let small = it % 9 != 8;
    let mut ks = if small { let n = 6 + rng.below(16); pool(rng, w, D, n) } else { full_pool(rng, w, D) };
    ks.sort(); ks.dedup();
    let n = if matches!(p, C07 | C08) { 4 + rng.below(5) } else { 4 };
    let kv = if small { contents(rng, &ks, n, w, D) } else { (0..n).map(|j| ks.iter().enumerate().filter(|_| j == 0 || rng.clone().chance(9, 10)).map(|(i, k)| (*k, (j as u64 + 1) * 1000 + i as u64)).collect()).collect() };
    let pos: BTreeMap<usize, usize> = ks.iter().enumerate().map(|(i, k)| (*k, i + 1)).collect();
    let mut h = H::<M> { cfg: c.name.into(), w, d: D, pool: ks.clone(), pos, src: kv.iter().map(|s| Src { kv: s.clone(), ph: vec![], loose: false }).collect(),
        ast: Ast::L(0), o: None, ev: vec![], rf: vec![], spied: false, calls: p == C21, only_calls: p == C21, hints: false, what: String::new() };
    take_log(); take_calls(); take_hints(); INEXACT.set(false);
    let typed = it % 3 == 2 && p != C18;
    let mut r2 = rng.clone();
    let r = catch_unwind(AssertUnwindSafe(|| {
        if p == C11 && typed {
            let t = c.tmat.unwrap();
            let (f, a, s) = match t(it / 3 % 12, &kv, ks.clone()) { Some(x) => x, None => return };
            h.ast = a; h.what = s.into();
            h.calls = true;
            h.mat(f);
            return
        }
        if typed {
            let cat: &[usize] = match p {
                C05 => &[0, 20, 31, 2], C06 => &[1, 3, 21, 28], C07 => &[4, 8, 12, 23, 25, 30], C08 => &[5, 9, 10, 11, 18, 24, 26, 29],
                C09 => &[6, 7, 15, 16, 17, 22, 27, 32], C21 => &[6, 7, 15, 16, 17, 18, 22, 27, 32],
                _ => &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34],
            };
            let (o, a, s) = (c.typed)(cat[it / 3 % cat.len()], &kv).unwrap();
            h.ast = a; h.what = s.into(); h.o = Some(o);
            observe(&mut h, &mut r2, p);
            if let (C21, Some(m)) = (p, c.mat) { let f = m(o, ks.clone()); h.mat(f) }
            return
        }
        h.ast = expression(&mut r2, p, n, it / 3 * 2 + it % 3);
        let spies = p == C18 || (matches!(p, C06 | C10 | C17 | C11) && r2.chance(1, 3));
        let mut leaves = vec![];
        for j in 0..n {
            if spies && (p == C18 || r2.chance(2, 3)) {
                let loose = D > 1 && r2.chance(1, 2);
                if loose {
                    let ph: Vec<usize> = (0..1 + r2.below(4)).map(|_| { let mut k = digits(*r2.clone().pick(&ks), w, D); for l in 0..D { if r2.chance(1, 3) { k[l] = interesting(&mut r2, w) } } let _ = r2.next(); undigits(&k, w) }).collect();
                    h.src[j].ph = ph.clone(); h.src[j].loose = true;
                    leaves.push(Any::new((c.leaf)(&format!("z{}", j + 1), &kv[j], &ph, &mut r2)));
                } else { leaves.push(Any::new((c.leaf)(&format!("y{}", j + 1), &kv[j], &[], &mut r2))) }
            } else {
                let kind = *r2.pick(c.kinds);
                leaves.push(Any::new((c.leaf)(kind, &kv[j], &ks, &mut r2)));
            }
        }
        let mut r3 = r2.clone();
        let any = build::<M, D>(&h.ast, &leaves, &mut || r3.below(1000));
        h.o = Some(any.o());
        if p == C11 {
            let f = (c.mat.unwrap())(any.o(), ks.clone());
            h.calls = true;
            h.mat(f);
        } else {
            observe(&mut h, &mut r2, p);
            if let (C21, Some(m)) = (p, c.mat) { let f = m(any.o(), ks.clone()); h.mat(f) }
        }
    }));
    let died = r.err().map(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()));
    if h.ev.is_empty() && died.is_none() { return }
    writeln!(out, "{}", h.line(died)).unwrap();
    rng.next();
}

fn ast(j: &J) -> Ast {
    let a = j.arr();
    let v = |j: &J| j.arr().iter().map(ast).collect::<Vec<_>>();
    match a[0].str() {
        "L" => Ast::L(a[1].us() - 1),
        "I" => Ast::I(Box::new(ast(&a[1])), Box::new(ast(&a[2]))),
        "U" => Ast::U(Box::new(ast(&a[1])), Box::new(ast(&a[2]))),
        "MI" => Ast::MI(v(&a[1])), "MU" => Ast::MU(v(&a[1])),
        "M" => Ast::M(a[1].int(), Box::new(ast(&a[2]))),
        "F" => Ast::F(a[1].int(), Box::new(ast(&a[2]))),
        x => panic!("{x}"),
    }
}
fn run_job<M: BitBlock, const D: usize>(c: &Cfg<M, D>, p: Prof, rng: &mut Rng, job: &J, wide: usize, out: &mut std::fs::File)
where ConstUsize<D>: ConstInteger
{
    let w = M::SIZE;
    // where the digits of the model lie, level by level
    let emb: Vec<Vec<usize>> = (0..D).map(|_| { let mut v: Vec<usize> = vec![]; while v.len() < wide { let x = interesting(rng, w); if !v.contains(&x) { v.push(x) } } v.sort(); v }).collect();
    let n = wide.pow(D as u32);
    let at = |i: usize, len: usize| -> Vec<usize> { (0..len).map(|l| emb[l][i / wide.pow((D - 1 - l) as u32) % wide]).collect() };
    let ks: Vec<usize> = (0..n).map(|i| undigits(&at(i, D), w)).collect();
    let pos: BTreeMap<usize, usize> = ks.iter().enumerate().map(|(i, k)| (*k, i + 1)).collect();
    let mut src = vec![]; let mut leaves = vec![];
    take_log(); take_calls(); take_hints(); INEXACT.set(false);
    for (j, s) in job.get("s").arr().iter().enumerate() {
        let kv: Vec<(usize, u64)> = s.get("m").arr().iter().enumerate().filter(|x| x.1.int() != 0).map(|(i, _)| (ks[i], (j as u64 + 1) * 1000 + i as u64)).collect();
        let ph: Vec<usize> = s.get("ph").arr().iter().map(|q| { let mut q: Vec<usize> = q.ints().iter().enumerate().map(|(l, y)| emb[l][*y]).collect(); q.push(rng.below(w)); undigits(&q, w) }).collect();
        let ex = s.get("ex").int() == 1;
        let loose = !ex;
        let kind = if loose { format!("z{}", j + 1) } else if p == C18 || rng.chance(1, 3) { format!("y{}", j + 1) } else { rng.pick(c.kinds).to_string() };
        leaves.push(Any::new((c.leaf)(&kind, &kv, if loose { &ph } else { &ks }, rng)));
        src.push(Src { kv, ph, loose });
    }
    let mut h = H::<M> { cfg: c.name.into(), w, d: D, pool: ks.clone(), pos, src, ast: ast(job.get("x")), o: None, ev: vec![], rf: vec![],
        spied: false, calls: p == C21, only_calls: p == C21, hints: false, what: "model".into() };
    let mut r2 = rng.clone();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let any = build::<M, D>(&h.ast, &leaves, &mut || r2.below(1000));
        h.o = Some(any.o());
        let walks = job.get("w").arr();
        MODE.set(0);
        match p {
            C11 => { h.calls = true; if let Some(m) = c.mat { let f = m(any.o(), ks.clone()); h.mat(f) } }
            C18 => { h.spied = true; take_log(); h.refs(100); h.all(true); h.iter(false); h.tour(walks, &emb) }
            C21 => { h.calls = true; h.none(); h.refs(100); h.all(true); h.iter(true); h.tour(walks, &emb); if let Some(m) = c.mat { let f = m(any.o(), ks.clone()); h.mat(f) } }
            C17 => { h.refs(100); h.tour(walks, &emb) }
            C07 | C08 => {
                h.hints = true; h.refs(100);
                MODE.set(r2.below(5) as u8);
                h.all(true); h.iter(false); h.tour(walks, &emb);
                MODE.set(0);
            }
            _ => { h.ev.push(obj!(o: "exact", r: h.o().exact())); h.all(true); h.iter(false); h.iter(true); h.refs(100); h.tour(walks, &emb) }
        }
    }));
    MODE.set(0);
    let died = r.err().map(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()));
    if h.ev.is_empty() && died.is_none() { return }
    writeln!(out, "{}", h.line(died)).unwrap();
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let p = match a[1].as_str() { "C05" => C05, "C06" => C06, "C07" => C07, "C08" => C08, "C09" => C09, "C10" => C10, "C11" => C11, "C17" => C17, "C18" => C18, "C21" => C21, _ => panic!() };
    let thorough = a[2] == "thorough";
    let seed: u64 = a[3].parse().unwrap();
    let (part, nparts): (usize, usize) = (a[4].parse().unwrap(), a[5].parse().unwrap());
    let mut out = std::fs::File::create(&a[6]).unwrap();
    if a[0] == "run" {
        let wide: usize = a[8].parse().unwrap();
        for (n, line) in std::fs::read_to_string(&a[7]).unwrap().lines().enumerate() {
            if n % nparts != part { continue }
            let job = J::parse(line);
            std::fs::write(format!("{}.at", a[6]), line).unwrap();
            let mut rng = Rng::new(seed.wrapping_mul(1_000_003) ^ (n as u64) << 20 ^ (p as u64) ^ 77);
            let cfgs = if p == C11 { 1 } else { 3 };
            macro_rules! on { ($($m:ident)*) => { [$(|job: &J, rng: &mut Rng, wide: usize, out: &mut std::fs::File, p: Prof| run_job(&$m::cfg(), p, rng, job, wide, out)),*] } }
            let d = job.get("s").arr()[0].get("m").arr().len().ilog(wide);
            let f: [fn(&J, &mut Rng, usize, &mut std::fs::File, Prof); 3] = match d { 1 => on!(w64d1 w128d1 w256d1), 2 => on!(w64d2 w128d2 w256d2), 3 => on!(w64d3 w64d3 w256d3), _ => panic!() };
            f[n % cfgs](&job, &mut rng, wide, &mut out, p);
        }
        return
    }
    let base: usize = std::env::var("OPS_N").ok().and_then(|x| x.parse().ok()).unwrap_or(120);
    let n = base * if thorough { 12 } else { 1 };
    let mut num = 0;
    macro_rules! go { ($($m:ident)*) => { $(
        for it in 0..n {
            num += 1;
            if num % nparts != part { continue }
            std::fs::write(format!("{}.at", a[6]), format!("configuration {} history {it} seed {seed}", stringify!($m))).unwrap();
            let mut rng = Rng::new(seed.wrapping_mul(1_000_003) ^ (num as u64) << 20 ^ (p as u64));
            one(&$m::cfg(), p, &mut rng, it, &mut out);
        }
    )* } }
    go!(w64d1 w64d2 w64d3 w64d4 w64d8);
    if p != C11 { go!(w128d1 w128d2 w128d4 w256d1 w256d2 w256d3); }
}
