//! own gen PROP TIER SEED PART NPARTS OUT      who owns which value (C13), panics of user code (C14): TraceOwn.tla
use hibit_harness::hist::{interesting, pool};
use hibit_harness::json::Raw;
use hibit_harness::lazy::{erase, erase_reg, Obj, ToTerm, MODE};
use hibit_harness::rng::Rng;
use hibit_harness::trees::{bits, digits, Tree, Value, KV};
use hibit_harness::{default_impl, for_depths, get_mut_impl, obj, sel, tree};
use hibit_tree::utils::{Array, BinaryFunction, LendingIterator, NullaryFunction, UnaryFunction};
use hibit_tree::*;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

/* ------------------------------- tokens ------------------------------- */
const MAGIC: u64 = 0x7a11_5ca1_ab1e_0001;
const DEAD: u64 = 0xdead_dead_dead_dead;
thread_local! {
    static NEXT: Cell<u64> = Cell::new(0);
    static MADE: RefCell<Vec<u64>> = RefCell::new(vec![]);
    static GONE: RefCell<Vec<u64>> = RefCell::new(vec![]);
    static SEEN: RefCell<Vec<u64>> = RefCell::new(vec![]);
    /// (what panics: 0 default, 1 drop, 2 function; how many more calls until then)
    static FUSE: Cell<(u8, i64)> = Cell::new((9, 0));
    static FIRED: Cell<bool> = Cell::new(false);
}
fn tick(what: u8) {
    let (w, n) = FUSE.get();
    if w != what { return }
    if n > 1 { FUSE.set((w, n - 1)); return }
    FUSE.set((9, 0)); FIRED.set(true);
    panic!("injected")
}
fn fresh() -> u64 { NEXT.set(NEXT.get() + 1); NEXT.get() }
#[repr(C)]
pub struct Tok<const PAD: usize> { magic: u64, id: u64, pad: [u8; PAD] }
impl<const P: usize> Tok<P> {
    fn of(id: u64) -> Self { MADE.with(|m| m.borrow_mut().push(id)); Tok { magic: MAGIC, id, pad: [id as u8; P] } }
    /// 0: not a value at all
    fn real(&self) -> u64 { if self.magic == MAGIC && self.pad.iter().all(|x| *x == self.id as u8) { self.id } else { 0 } }
    fn dup(&self) -> Self { let _ = self.id(); Tok::of(fresh()) }
}
impl<const P: usize> Default for Tok<P> { fn default() -> Self { tick(0); Tok::of(fresh()) } }
impl<const P: usize> Clone for Tok<P> { fn clone(&self) -> Self { self.dup() } }
impl<const P: usize> Drop for Tok<P> {
    fn drop(&mut self) {
        GONE.with(|m| m.borrow_mut().push(self.real()));
        unsafe { std::ptr::write_volatile(&mut self.magic, DEAD) }
        tick(1)
    }
}
impl<const P: usize> Value for Tok<P> {
    fn mk(id: u64) -> Self { Tok::of(id) }
    fn id(&self) -> u64 { let r = self.real(); SEEN.with(|s| s.borrow_mut().push(r)); r }
}
impl<const P: usize> ToTerm for &Tok<P> { fn tt(self, o: &mut Vec<i64>) { o.push(self.id() as i64) } }
impl<const P: usize> ToTerm for Tok<P> { fn tt(self, o: &mut Vec<i64>) { (&self).tt(o) } }

/// no bytes at all: only counted
pub struct Zst;
thread_local! { static ZC: Cell<(i64, i64)> = Cell::new((0, 0)); }
fn z(c: i64, d: i64) { let (a, b) = ZC.get(); ZC.set((a + c, b + d)) }
impl Default for Zst { fn default() -> Self { z(1, 0); Zst } }
impl Drop for Zst { fn drop(&mut self) { z(0, 1) } }
impl Value for Zst { fn mk(_: u64) -> Self { z(1, 0); Zst } fn id(&self) -> u64 { 1 } }

/* ----------------------------- containers ----------------------------- */
pub struct Is<T>(pub T);
type T0 = Tok<0>;
type T5 = Tok<5>;
macro_rules! dense { ($d:literal, $_:ident, $l:tt, $v:ty) => { tree!(DenseTree<$v, $d>, $v, dense, no, $l); } }
macro_rules! sparse { ($d:literal, $n:ident, $l:tt, $w:ident, $v:ty) => {
    tree!(SparseTree<config::$w::$n, $v>, $v, sparse, no, $l);
    tree!(SparseTree<config::$w::$n, $v, ReqDefault>, $v, sparse, yes, $l);
} }
macro_rules! kinds { ($v:ty) => {
    dense!(1, _n, [0], $v); dense!(2, _n, [0, 1], $v); dense!(3, _n, [0, 1, 2], $v); dense!(4, _n, [0, 1, 2, 3], $v);
    sparse!(1, depth_1, [0], width_64, $v); sparse!(2, depth_2, [0, 1], width_64, $v);
    sparse!(3, depth_3, [0, 1, 2], width_64, $v); sparse!(4, depth_4, [0, 1, 2, 3], width_64, $v);
    sparse!(2, depth_2, [0, 1], width_256, $v);
} }
kinds!(T0);
dense!(2, _n, [0, 1], T5); sparse!(3, depth_3, [0, 1, 2], width_128, T5);
dense!(3, _n, [0, 1, 2], Zst); dense!(1, _n, [0], Zst); sparse!(2, depth_2, [0, 1], width_128, Zst);

trait Tr: Tree { fn any(&self) -> &dyn Any; fn take(self: Box<Self>) -> Box<dyn Any>; }
impl<T: Tree + 'static> Tr for T { fn any(&self) -> &dyn Any { self } fn take(self: Box<Self>) -> Box<dyn Any> { self } }

const CFGS: &[&str] = &["d1", "d2", "d3", "d4", "s64_1", "s64_2", "s64_3", "s64_4", "r64_1", "r64_2", "r64_3", "r64_4", "s256_2", "r256_2", "p:d2", "p:s128_3", "p:r128_3"];
const ZCFGS: &[&str] = &["d1", "d3", "s128_2", "r128_2"];
fn make(c: &str) -> Box<dyn Tr> {
    macro_rules! arms { ($($n:literal => $t:ty),* $(,)?) => { match c { $( $n => Box::new(Is(<$t>::default())), )* _ => panic!("{c}") } } }
    use config::{width_128 as w128, width_256 as w256, width_64 as w64};
    type S<L, V> = SparseTree<L, V>;
    type R<L, V> = SparseTree<L, V, ReqDefault>;
    arms! {
        "d1" => DenseTree<T0, 1>, "d2" => DenseTree<T0, 2>, "d3" => DenseTree<T0, 3>, "d4" => DenseTree<T0, 4>,
        "s64_1" => S<w64::depth_1, T0>, "s64_2" => S<w64::depth_2, T0>, "s64_3" => S<w64::depth_3, T0>, "s64_4" => S<w64::depth_4, T0>,
        "r64_1" => R<w64::depth_1, T0>, "r64_2" => R<w64::depth_2, T0>, "r64_3" => R<w64::depth_3, T0>, "r64_4" => R<w64::depth_4, T0>,
        "s256_2" => S<w256::depth_2, T0>, "r256_2" => R<w256::depth_2, T0>,
        "p:d2" => DenseTree<T5, 2>, "p:s128_3" => S<w128::depth_3, T5>, "p:r128_3" => R<w128::depth_3, T5>,
        "z:d1" => DenseTree<Zst, 1>, "z:d3" => DenseTree<Zst, 3>, "z:s128_2" => S<w128::depth_2, Zst>, "z:r128_2" => R<w128::depth_2, Zst>,
    }
}

/* ------------------------------- history ------------------------------ */
struct H {
    cfg: String, w: usize, d: usize, pool: Vec<usize>, pos: BTreeMap<usize, usize>,
    ts: Vec<Option<Box<dyn Tr>>>, ev: Vec<String>, panics: bool,
}
fn clear() { MADE.take(); GONE.take(); SEEN.take(); FUSE.set((9, 0)); FIRED.set(false); MODE.set(0) }
impl H {
    fn k(&self, i: usize) -> usize { *self.pos.get(&i).unwrap_or(&0) }
    /// Runs one call. None: the injected panic came out of it. Any other panic ends the history.
    fn run<R>(&mut self, fuse: Option<(u8, i64)>, f: impl FnOnce(&mut Self) -> R) -> Option<R> {
        clear();
        if let Some(x) = fuse { if self.panics { FUSE.set(x) } }
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        FUSE.set((9, 0));
        match r { Ok(x) => Some(x), Err(e) => if FIRED.get() { None } else { std::panic::resume_unwind(e) } }
    }
    fn push(&mut self, o: &str, pan: bool, fields: String) {
        let fields = if fields.is_empty() { fields } else { format!(",{fields}") };
        let (c, d) = (MADE.take(), GONE.take());
        let num = |v: Vec<u64>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        self.ev.push(format!("{{\"o\":\"{o}\",\"pan\":{}{fields},\"c\":[{}],\"d\":[{}]}}", pan as u8, num(c), num(d)));
    }
    fn new_tree(&mut self, c: &str, fuse: Option<(u8, i64)>) -> usize {
        let r = self.run(fuse, |_| make(c));
        let pan = r.is_none();
        let t = self.ts.len();
        self.ts.push(r);
        self.push("new", pan, format!("\"t\":{}", t + 1));
        t
    }
    fn ins(&mut self, t: usize, i: usize, fuse: Option<(u8, i64)>) {
        let v = fresh();
        let r = self.run(fuse, |h| h.ts[t].as_mut().unwrap().insert(i, v));
        self.push("ins", r.is_none(), format!("\"t\":{},\"k\":{},\"v\":{v}", t + 1, self.k(i)));
    }
    fn goi(&mut self, t: usize, i: usize, fuse: Option<(u8, i64)>) {
        let r = self.run(fuse, |h| h.ts[t].as_mut().unwrap().get_or_insert(i, None));
        self.push("goi", r.is_none(), format!("\"t\":{},\"k\":{},\"r\":{}", t + 1, self.k(i), r.unwrap_or(0)));
    }
    fn rem(&mut self, t: usize, i: usize) {
        let r = self.run(None, |h| h.ts[t].as_mut().unwrap().remove(i)).unwrap();
        self.push("rem", false, format!("\"t\":{},\"k\":{},\"r\":{}", t + 1, self.k(i), r.unwrap_or(0)));
    }
    /// a write through a reference
    fn set(&mut self, t: usize, i: usize, rng: &mut Rng) {
        let v = fresh();
        let how = rng.below(3);
        let r = self.run(None, |h| {
            let t = h.ts[t].as_mut().unwrap();
            if how == 0 || !t.has_get_mut() {
                let mut hit = false;
                t.kvm(&mut |k, _| if k == i { hit = true; Some(v) } else { None });
                hit
            } else if how == 1 && t.get(i).is_some() { unsafe { t.get_mut_unchecked(i, Some(v)) }; true }
            else { t.get_mut(i, Some(v)).is_some() }
        }).unwrap();
        self.push("set", false, format!("\"t\":{},\"k\":{},\"v\":{v},\"r\":{}", t + 1, self.k(i), r as u8));
    }
    /// everything a container shows
    fn see(&mut self, t: usize, rng: &mut Rng) {
        let std = rng.chance(1, 2);
        let (all, it, kv, def) = self.run(None, |h| {
            let pool = h.pool.clone();
            let t = h.ts[t].as_ref().unwrap();
            let all: Vec<Option<u64>> = pool.iter().map(|k| t.get(*k)).collect();
            let def: Vec<u64> = if t.has_default() { pool.iter().map(|k| t.get_or_default(*k)).collect() } else { vec![] };
            (all, t.iter(std, pool.len() + 4).0, t.kv(), def)
        }).unwrap();
        let e = |v: Vec<(usize, u64)>| v.iter().map(|(k, v)| (self.k(*k), *v)).collect::<Vec<_>>();
        let f = obj!(t: t + 1, all: all, it: e(it), kv: e(kv.0.into_iter().zip(kv.1).collect()), def: def);
        self.push("see", false, f[1..f.len() - 1].to_string());
    }
    fn drop_tree(&mut self, t: usize, fuse: Option<(u8, i64)>) {
        let x = self.ts[t].take();
        let r = self.run(fuse, |_| drop(x));
        self.push("drop", r.is_none(), format!("\"t\":{}", t + 1));
    }
    /// moves the container around; nothing may happen to its values
    fn mv(&mut self, t: usize) {
        let r = self.run(None, |h| { let x = h.ts[t].take().unwrap(); let mut v = vec![x]; v.reserve(7); h.ts[t] = v.pop(); });
        r.unwrap();
        self.push("lz", false, "\"s\":[]".into());
    }
    fn line(&self, died: Option<String>) -> String {
        let mut ev: Vec<Raw> = self.ev.iter().map(|e| Raw(e.clone())).collect();
        if let Some(d) = died { ev.push(Raw(obj!(o: "die", why: d.replace(['"', '\\', '\n'], " ")))) }
        obj!(cfg: self.cfg, N: self.pool.len(), ev: ev)
    }
}
fn fuse(rng: &mut Rng, what: u8, p: usize) -> Option<(u8, i64)> { if rng.chance(p, 10) { Some((what, 1 + rng.below(4) as i64)) } else { None } }

fn churn(h: &mut H, t: usize, rng: &mut Rng, n: usize) {
    let mut grow = 70;
    for j in 0..n {
        if j % 12 == 0 { grow = *rng.pick(&[30, 60, 85, 100, 10]) }
        let i = *rng.pick(&h.pool);
        match rng.below(10) {
            0 => h.set(t, i, rng),
            1 => h.see(t, rng),
            2 if rng.chance(1, 4) => h.mv(t),
            _ => if rng.below(100) < grow {
                // inserting drops at most one value, so only the first call of anything matters
                let f = if rng.chance(3, 10) { Some((rng.below(2) as u8, 1)) } else { None };
                if rng.chance(1, 2) { h.ins(t, i, f) } else { h.goi(t, i, f) }
            } else { h.rem(t, i) },
        }
    }
    h.see(t, rng);
}

/* ------------------------------ lazy trees ----------------------------- */
#[derive(Clone, Copy)] struct Dup;
impl<A: AsTok> UnaryFunction<A> for Dup { type Output = T0; fn exec(&self, a: A) -> T0 { tick(2); a.one() } }
/// makes a token of anything, consuming it
trait AsTok { fn one(self) -> T0; }
impl AsTok for &T0 { fn one(self) -> T0 { self.dup() } }
impl AsTok for T0 { fn one(self) -> T0 { self } }
impl<A: AsTok, B: AsTok> AsTok for (A, B) { fn one(self) -> T0 { let a = self.0.one(); let b = self.1.one(); drop(a); b } }
impl<A: AsTok> AsTok for Option<A> { fn one(self) -> T0 { self.map(|x| x.one()).unwrap_or_else(|| T0::of(fresh())) } }
#[derive(Clone, Copy)] struct Zero;
impl NullaryFunction for Zero { type Output = T0; fn exec(&self) -> T0 { tick(2); T0::of(fresh()) } }
#[derive(Clone, Copy)] struct Step;
impl<A: AsTok> BinaryFunction<T0, A> for Step { type Output = T0; fn exec(&self, acc: T0, a: A) -> T0 { tick(2); let x = a.one(); drop(acc); x } }

fn stat<T>(t: &T) -> &'static T { unsafe { &*(t as *const T) } }
fn leak<T>(v: Vec<T>) -> &'static [T] { Box::leak(v.into_boxed_slice()) }

/// what one does with a lazy tree; every value got is dropped at the latest at the end
fn consume(o: &'static dyn Obj<u64>, h: &H, rng: &mut Rng) {
    let d = h.d;
    match rng.below(4) {
        0 => for k in &h.pool { let x = o.get(*k); if x.is_some() && rng.chance(1, 2) { drop(unsafe { o.get_unchecked(*k) }) } },
        1 => { let stop = rng.below(12); let mut n = 0; o.iter(o.has_std() && rng.chance(1, 2), &mut |x| { n += 1; if let Ok(None) = x { false } else { n < stop } }) }
        2 => o.iter(false, &mut |x| !matches!(x, Ok(None))),
        _ => {
            // a cursor
            let mut c = o.cursor();
            for _ in 0..6 {
                let k = *rng.pick(&h.pool);
                let mut p = digits(k, h.w, d);
                if rng.chance(1, 4) { let l = rng.below(d); p[l] = interesting(rng, h.w) }
                unsafe {
                    c.select(0, 0, false);
                    for l in 1..d { c.select(l, p[l - 1], false); }
                    c.data(p[d - 1], false);
                }
            }
        }
    }
}

macro_rules! lz { ($d:literal, $n:ident, $l:tt,) => {
    if true {
        type A = DenseTree<T0, $d>;
        type S = SparseTree<config::width_64::$n, T0>;
        fn build(a: &[&'static A], s: &[&'static S], n: usize) -> &'static dyn Obj<u64> {
            match n {
                0 => erase_reg(map(a[0], Dup)),
                1 => erase_reg(intersection(a[0], s[0])),
                2 => erase_reg(union(a[0], s[0])),
                3 => erase_reg(intersection(map(a[0], Dup), s[0])),
                4 => erase_reg(union(map(a[0], Dup), map(s[0], Dup))),
                5 => erase_reg(map(union(a[0], intersection(a[1], s[0])), Dup)),
                6 => erase_reg(multi_map_fold(multi_intersection(leak(a.to_vec()).iter().copied()), Zero, Step)),
                7 => erase_reg(multi_map_fold(multi_union(leak(s.to_vec()).iter().copied()), Zero, Step)),
                8 => erase(multi_intersection(leak(a.iter().map(|x| map(*x, Dup)).collect()).iter())),
                9 => erase(multi_union(leak(a.iter().map(|x| map(*x, Dup)).collect()).iter())),
                10 => erase_reg(multi_map_fold(multi_intersection(leak(s.iter().map(|x| map(*x, Dup)).collect()).iter()), Zero, Step)),
                11 => erase_reg(multi_map_fold(multi_union(leak(a.iter().map(|x| map(*x, Dup)).collect()).iter()), Zero, Step)),
                12 => erase_reg(union(multi_map_fold(multi_union(leak(a.to_vec()).iter().copied()), Zero, Step), s[0])),
                13 => erase(multi_intersection(leak(a.iter().map(|x| union(map(*x, Dup), s[0])).collect()).iter())),
                _ => erase_reg(intersection(a[0], a[1])),
            }
        }
        fn mat(a: &[&'static A], s: &[&'static S], n: usize) -> Box<dyn Tr> {
            let t: A = match n {
                0 => map(a[0], Dup).materialize(),
                1 => map(s[0], Dup).materialize(),
                2 => map(intersection(a[0], s[0]), Dup).materialize(),
                3 => map(union(a[0], s[0]), Dup).materialize(),
                4 => multi_map_fold(multi_union(leak(a.iter().map(|x| map(*x, Dup)).collect()).iter()), Zero, Step).materialize(),
                5 => multi_map_fold(multi_intersection(leak(a.to_vec()).iter().copied()), Zero, Step).materialize(),
                6 => map(union(intersection(a[0], a[1]), s[0]), Dup).materialize(),
                _ => map(intersection(map(a[0], Dup), map(s[0], Dup)), Dup).materialize(),
            };
            Box::new(Is(t))
        }
        /// containers moved into the expression
        fn own(mut v: Vec<Box<dyn Tr>>, n: usize) -> Box<dyn Tr> {
            let a = |x: Box<dyn Tr>| x.take().downcast::<Is<A>>().ok().unwrap().0;
            let s = |x: Box<dyn Tr>| x.take().downcast::<Is<S>>().ok().unwrap().0;
            let t: A = match n {
                0 => map(a(v.pop().unwrap()), Dup).materialize(),
                1 => map(s(v.pop().unwrap()), Dup).materialize(),
                2 => { let x = a(v.pop().unwrap()); map(intersection(x, a(v.pop().unwrap())), Dup).materialize() }
                _ => { let x = a(v.pop().unwrap()); map(union(s(v.pop().unwrap()), x), Dup).materialize() }
            };
            Box::new(Is(t))
        }
        fn get<T: 'static>(h: &H, i: usize) -> &'static T { stat(&h.ts[i].as_ref().unwrap().any().downcast_ref::<Is<T>>().unwrap().0) }
        return (
            |h, n| build(&[get::<A>(h, 0), get::<A>(h, 1), get::<A>(h, 2)], &[get::<S>(h, 3), get::<S>(h, 4)], n),
            |h, n| mat(&[get::<A>(h, 0), get::<A>(h, 1), get::<A>(h, 2)], &[get::<S>(h, 3), get::<S>(h, 4)], n),
            own,
        )
    }
} }
type Fs = (fn(&H, usize) -> &'static dyn Obj<u64>, fn(&H, usize) -> Box<dyn Tr>, fn(Vec<Box<dyn Tr>>, usize) -> Box<dyn Tr>);
fn fs1() -> Fs { lz!(1, depth_1, [0],); unreachable!() }
fn fs2() -> Fs { lz!(2, depth_2, [0, 1],); unreachable!() }
fn fs3() -> Fs { lz!(3, depth_3, [0, 1, 2],); unreachable!() }
fn fs4() -> Fs { lz!(4, depth_4, [0, 1, 2, 3],); unreachable!() }

fn lazy_history(h: &mut H, rng: &mut Rng) {
    let f: Fs = match h.d { 1 => fs1(), 2 => fs2(), 3 => fs3(), _ => fs4() };
    let (dn, sn) = (format!("d{}", h.d), format!("s64_{}", h.d));
    for j in 0..5 { h.new_tree(if j < 3 { &dn } else { &sn }, None); }
    let dens = 2 + rng.below(8);
    for t in 0..5 { for k in h.pool.clone() { if rng.chance(dens, 10) { h.ins(t, k, None) } } }
    for _ in 0..14 {
        match rng.below(10) {
            0..=5 => {
                let n = rng.below(15);
                let o = (f.0)(h, n);
                for _ in 0..2 {
                    let fu = fuse(rng, 2, 4);
                    let mode = rng.below(5) as u8;
                    let r = h.run(fu, |h| { MODE.set(mode); consume(o, h, rng) });
                    let mut s = SEEN.take(); s.sort(); s.dedup();
                    let s = { let mut o = String::new(); hibit_harness::json::W::w(&s, &mut o); o };
                    h.push("lz", r.is_none(), format!("\"e\":{n},\"s\":{s}"));
                }
            }
            6 | 7 => {
                let n = rng.below(8);
                let fu = fuse(rng, 2, 4);
                let r = h.run(fu, |h| (f.1)(h, n));
                h.born(r, &[]);
            }
            8 => {
                let n = rng.below(4);
                let which: Vec<&String> = match n { 0 => vec![&dn], 1 => vec![&sn], 2 => vec![&dn, &dn], _ => vec![&sn, &dn] };
                let mut v = vec![]; let mut xs = vec![];
                for c in which {
                    let t = h.new_tree(c, None);
                    for k in h.pool.clone() { if rng.chance(6, 10) { h.ins(t, k, None) } }
                    xs.push(t);
                }
                for t in &xs { v.push(h.ts[*t].take().unwrap()) }
                let fu = fuse(rng, 2, 4);
                let r = h.run(fu, |_| (f.2)(v, n));
                h.born(r, &xs);
            }
            _ => { let t = rng.below(5); churn(h, t, rng, 8) }
        }
    }
    let ts: Vec<usize> = (0..h.ts.len()).filter(|t| h.ts[*t].is_some()).collect();
    for t in &ts[5..] { if rng.chance(2, 3) { churn(h, *t, rng, 10) } }
    for t in ts { if t < 5 { h.see(t, rng) } let f = fuse(rng, 1, 5); h.drop_tree(t, f) }
}
impl H {
    /// a materialized container (or the panic of making it); xs were consumed
    fn born(&mut self, r: Option<Box<dyn Tr>>, xs: &[usize]) {
        let (c, d) = (MADE.take(), GONE.take());
        let e: Vec<(usize, u64)> = match &r { Some(t) => { let (k, v) = t.kv(); k.into_iter().zip(v).map(|(k, v)| (self.k(k), v)).collect() } None => vec![] };
        let t = self.ts.len() + 1;
        let pan = r.is_none();
        self.ts.push(r);
        MADE.set(c); GONE.set(d);
        let xs: Vec<usize> = xs.iter().map(|x| x + 1).collect();
        let f = obj!(t: t, x: xs, e: e);
        self.push("mat", pan, f[1..f.len() - 1].to_string());
    }
}

fn zst_history(h: &mut H, c: &str, rng: &mut Rng) {
    let take = || { let r = ZC.get(); ZC.set((0, 0)); r };
    take();
    let mut t = make(&format!("z:{c}"));
    let (a, b) = take();
    h.ev.push(obj!(o: "znew", c: a, d: b));
    for _ in 0..60 {
        let i = *rng.pick(&h.pool); let k = h.k(i);
        let (o, r) = match rng.below(8) {
            0..=2 => { t.insert(i, 1); ("zins", 0) }
            3 => { t.get_or_insert(i, None); ("zins", 0) }
            4 => ("zsee", t.get(i).is_some() as usize),
            _ => ("zrem", t.remove(i).is_some() as usize),
        };
        let (a, b) = take();
        h.ev.push(obj!(o: o, k: k, r: r, c: a, d: b));
    }
    let n = t.kv().0.len();
    drop(t);
    let (a, b) = take();
    h.ev.push(obj!(o: "zdrop", n: n, c: a, d: b));
}

/* ----------------------- scripts of MCOwn.tla --------------------------- */
fn four_keys(w: usize, d: usize, n: usize) -> Vec<usize> {
    let (a, b, m) = ([3, 0, w - 1, 31][n % 4], [7, w - 1, 0, 32][n % 4], [1, 5, 62, w - 2][n / 4 % 4]);
    let at = |l: usize, x: usize, last: usize| { let mut k = vec![a; d]; k[l] = x; if l + 1 < d { k[d - 1] = last } hibit_harness::trees::undigits(&k, w) };
    let mut v = match n % 5 {
        0 => vec![at(d - 1, 0, 0), at(d - 1, m, 0), at(d - 1, w - 1, 0), at(d - 1, 30, 0)],
        1 => { let l = d.saturating_sub(2); vec![at(l, a, 8), at(l, a, 9), at(l, b, 8), at(l, b, 9)] }
        2 => vec![at(0, 10, 0), at(0, 11, 0), at(0, 12, 0), at(0, 13, w - 1)],
        3 => vec![at(d - 1, a, a), at(d - 1, b, b), at(d / 2, b, 0), at(0, b, 4)],
        _ => (0..4).map(|j| at(j % d, [m, b, 20, 40][j], 50 - j)).collect(),
    };
    v.sort(); v.dedup();
    let mut x = 14; while v.len() < 4 { let k = at(d - 1, x, x); if !v.contains(&k) { v.push(k) } x += 1 }
    v.sort(); v
}
fn script(h: &mut H, c: &str, s: &hibit_harness::json::J, n: usize, rng: &mut Rng) {
    let ops = s.get("h").arr();
    let last = ops.last().unwrap().arr();
    let mat = last[0].str() == "mat";
    let mut perm: Vec<usize> = (0..h.pool.len()).collect(); rng.shuffle(&mut perm);
    let mut t = 0;
    if mat {
        let (dn, sn) = (format!("d{}", h.d), format!("s64_{}", h.d));
        for j in 0..5 { h.new_tree(if j < 3 { &dn } else { &sn }, None); }
        if c.starts_with('s') { t = 3 }
    } else { h.new_tree(c, None); }
    for o in ops {
        let o = o.arr();
        let i = o[1].us(); let i = if i > 0 { h.pool[perm[i - 1]] } else { 0 };
        let f = o[2].us() as i64;
        let fu = |what| if f > 0 { Some((what, f)) } else { None };
        match o[0].str() {
            "ins" => h.ins(t, i, fu(1)),
            "goi" => h.goi(t, i, fu(0)),
            "rem" => h.rem(t, i),
            "set" => h.set(t, i, rng),
            "drop" => { h.drop_tree(t, fu(1)); return }
            _ => {
                let fs: Fs = match h.d { 1 => fs1(), 2 => fs2(), 3 => fs3(), _ => fs4() };
                let k = if t == 0 { [0, 3, 4, 6][n % 4] } else { [1, 3][n % 2] };
                let r = h.run(fu(2), |h| (fs.1)(h, k));
                h.born(r, &[]);
                if h.ts[5].is_some() { h.see(5, rng) }
            }
        }
    }
    h.see(t, rng);
    if mat && h.ts[5].is_some() { churn(h, 5, rng, 6); h.drop_tree(5, None) }
    let (x, y) = (h.pool[n % 4], h.pool[(n + 1) % 4]);
    h.goi(t, x, None); h.rem(t, y); h.see(t, rng); h.ins(t, y, None); h.rem(t, x); h.see(t, rng);
    for j in (0..h.ts.len()).filter(|j| h.ts[*j].is_some()).collect::<Vec<_>>() { let f = if n % 2 == 0 { Some((1, 1 + (n / 2 % 4) as i64)) } else { None }; h.drop_tree(j, f) }
}
/// own run PROP TIER SEED PART NPARTS OUT JOBS
fn scripts(a: &[String]) {
    let panics = a[2] == "C14";
    let seed: u64 = a[4].parse().unwrap();
    let (part, nparts): (usize, usize) = (a[5].parse().unwrap(), a[6].parse().unwrap());
    let mut out = std::fs::File::create(&a[7]).unwrap();
    let text = std::fs::read_to_string(&a[8]).unwrap();
    let mut n = 0;
    for (si, l) in text.lines().enumerate() {
        let s = hibit_harness::json::J::parse(l);
        let faulty = s.get("h").arr().iter().any(|o| o.arr()[2].us() > 0);
        if faulty && !panics { continue }
        let mat = s.get("h").arr().last().unwrap().arr()[0].str() == "mat";
        for c in CFGS {
            let ph = c.contains('r');
            if (s.get("ph").us() == 1) != ph { continue }
            if mat && !(c.starts_with('d') || c.starts_with("s64")) { continue }
            n += 1;
            if n % nparts != part { continue }
            std::fs::write(format!("{}.at", a[7]), format!("{{\"cfg\":\"{c}\",\"script\":{si}}}")).unwrap();
            let mut rng = Rng::new(seed.wrapping_mul(900_007).wrapping_add(n as u64));
            let (w, d) = { let t = make(c); (t.width(), t.depth()) };
            let pool = four_keys(w, d, n);
            let pos = pool.iter().enumerate().map(|(i, k)| (*k, i + 1)).collect();
            NEXT.set(0); clear();
            let mut h = H { cfg: c.to_string(), w, d, pool, pos, ts: vec![], ev: vec![], panics };
            let r = catch_unwind(AssertUnwindSafe(|| script(&mut h, c, &s, si + n, &mut rng)));
            let died = r.err().map(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()));
            for t in h.ts.drain(..) { if died.is_some() { std::mem::forget(t) } }
            h.ts = vec![];
            writeln!(out, "{}", h.line(died)).unwrap();
        }
    }
    std::fs::write(format!("{}.at", a[7]), "done").unwrap();
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a[0] == "run" { return scripts(&[vec!["own".to_string()], a].concat()) }
    let panics = a[1] == "C14";
    let thorough = a[2] == "thorough";
    let seed: u64 = a[3].parse().unwrap();
    let (part, nparts): (usize, usize) = (a[4].parse().unwrap(), a[5].parse().unwrap());
    let mut out = std::fs::File::create(&a[6]).unwrap();
    let mult = if thorough { 12 } else { 1 };
    let mut jobs: Vec<(String, u8)> = vec![];
    for _ in 0..60 * mult { for c in CFGS { jobs.push((c.to_string(), 0)) } }
    for _ in 0..150 * mult { for d in 1..=4 { jobs.push((format!("d{d}"), 1)) } }
    if !panics { for _ in 0..20 * mult { for c in ZCFGS { jobs.push((format!("z:{c}"), 2)) } } }
    for (n, (c, kind)) in jobs.iter().enumerate() {
        if n % nparts != part { continue }
        let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(n as u64));
        std::fs::write(format!("{}.at", a[6]), format!("{{\"cfg\":\"{c}\",\"job\":{n}}}")).unwrap();
        let (w, d) = { let t = make(c); (t.width(), t.depth()) };
        let np = 4 + rng.below(14);
        let pool = pool(&mut rng, w, d, np);
        let pos = { let mut p = pool.clone(); p.sort(); p.iter().enumerate().map(|(i, k)| (*k, i + 1)).collect() };
        let mut pool = pool; pool.sort();
        NEXT.set(0); clear();
        let mut h = H { cfg: c.clone(), w, d, pool, pos, ts: vec![], ev: vec![], panics };
        let r = catch_unwind(AssertUnwindSafe(|| match kind {
            0 => {
                for _ in 0..2 {
                    let f = fuse(&mut rng, 0, 2);
                    let t = h.new_tree(c, f);
                    if h.ts[t].is_none() { continue }
                    churn(&mut h, t, &mut rng, 60);
                    let len = h.pool.len() as i64;
                    let f = if rng.chance(7, 10) { Some((1, 1 + rng.below(len as usize + 1) as i64)) } else { None };
                    h.drop_tree(t, f);
                }
            }
            1 => lazy_history(&mut h, &mut rng),
            _ => zst_history(&mut h, &c[2..], &mut rng),
        }));
        let died = r.err().map(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()));
        for t in h.ts.drain(..) { if died.is_some() { std::mem::forget(t) } }
        h.ts = vec![];
        writeln!(out, "{}", h.line(died)).unwrap();
    }
    std::fs::write(format!("{}.at", a[6]), "done").unwrap();
}
