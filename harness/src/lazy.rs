//! Lazy trees: values as terms, type erasure, instrumented sources and user functions.
use crate::obj;
use crate::trees::{bits, Val, DEF};
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
use hibit_tree::ops::{multi_intersection as mi, multi_union as mu};
use hibit_tree::utils::{Borrowable, LendingIterator};
use hibit_tree::utils::{BinaryFunction, NullaryFunction, UnaryFunction};
use hibit_tree::*;
use hibit_tree::Iter;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};

/* ------------------------------- terms ------------------------------- */
// A value as a flat sequence of integers:
//   v | -1 a b | -2 | -3 a | -4 n a1..an | -5 c a | -6 c n a1..an
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Term(pub Vec<i64>);

pub trait ToTerm { fn tt(self, o: &mut Vec<i64>); }
pub fn term(t: impl ToTerm) -> Term { let mut o = vec![]; t.tt(&mut o); Term(o) }

impl ToTerm for &Val { fn tt(self, o: &mut Vec<i64>) { o.push(crate::json::clamp(self.0)) } }
impl ToTerm for Val { fn tt(self, o: &mut Vec<i64>) { (&self).tt(o) } }
impl ToTerm for Term { fn tt(self, o: &mut Vec<i64>) { o.extend(self.0) } }
impl ToTerm for &Term { fn tt(self, o: &mut Vec<i64>) { o.extend(self.0.iter()) } }
impl<A: ToTerm, B: ToTerm> ToTerm for (A, B) { fn tt(self, o: &mut Vec<i64>) { o.push(-1); self.0.tt(o); self.1.tt(o) } }
impl<A: ToTerm> ToTerm for Option<A> { fn tt(self, o: &mut Vec<i64>) { match self { None => o.push(-2), Some(a) => { o.push(-3); a.tt(o) } } } }

thread_local! {
    /// how multi-values are consumed: 0 next, 1 fold, 2 next then fold, 3 fold a clone, 4 original after a partly consumed clone
    pub static MODE: Cell<u8> = Cell::new(0);
    /// [must be exact, size_hint.0, size_hint.1 (-1 none), len() (-1 none), what was really left]
    pub static HINTS: RefCell<Vec<Vec<i64>>> = RefCell::new(vec![]);
    /// calls of user functions: node -> (inits, calls)
    pub static CALLS: RefCell<BTreeMap<i64, (i64, i64)>> = RefCell::new(BTreeMap::new());
    /// accesses of instrumented sources
    pub static LOG: RefCell<Vec<String>> = RefCell::new(vec![]);
    pub static CURSORS: Cell<usize> = Cell::new(0);
    /// some sequence of trees is an iterator that does not know its length
    pub static INEXACT: Cell<bool> = Cell::new(false);
    /// user functions panic when this reaches 0
    pub static FUSE: Cell<i64> = Cell::new(i64::MAX);
}
pub fn take_calls() -> Vec<Vec<i64>> { CALLS.with(|c| c.replace(BTreeMap::new())).into_iter().map(|(c, (i, n))| vec![c, i, n]).collect() }
pub fn take_log() -> Vec<String> { LOG.with(|c| c.replace(vec![])) }
pub fn take_hints() -> Vec<Vec<i64>> { HINTS.with(|c| c.replace(vec![])) }

fn eat<I: Iterator>(mut it: I, exact: Option<&dyn Fn(&I) -> usize>, o: &mut Vec<i64>) where I::Item: ToTerm {
    let at = o.len() + 1;
    o.push(-4); o.push(0);
    let mut hints = vec![];
    let mut hint = |it: &I, n: i64| {
        let (lo, hi) = it.size_hint();
        let c = |x: usize| crate::json::clamp(x as u64);
        hints.push((n, vec![exact.is_some() as i64, c(lo), hi.map(c).unwrap_or(-1), exact.map(|f| c(f(it))).unwrap_or(-1)]));
    };
    match MODE.get() {
        1 => { hint(&it, 0); let mut n = 0; it.fold(&mut *o, |o, x| { n += 1; x.tt(o); o }); o[at] = n; }
        2 => {
            hint(&it, 0);
            if let Some(x) = it.next() { o[at] += 1; x.tt(o); hint(&it, 1); let mut n = 0; it.fold(&mut *o, |o, x| { n += 1; x.tt(o); o }); o[at] += n; }
        }
        _ => {
            loop {
                hint(&it, o[at]);
                match it.next() { Some(x) => { o[at] += 1; x.tt(o) } None => break }
                if o[at] > 1000 { break }
            }
        }
    }
    let total = o[at];
    HINTS.with(|h| { let mut h = h.borrow_mut(); for (n, mut v) in hints { v.push(total - n); if !h.contains(&v) { h.push(v) } } });
}
fn eat_clone<I: Iterator + Clone>(it: I, exact: Option<&dyn Fn(&I) -> usize>, o: &mut Vec<i64>) where I::Item: ToTerm {
    match MODE.get() {
        3 => {
            let c = it.clone(); drop(it);
            MODE.set(1); eat(c, exact, o); MODE.set(3);
        }
        4 => {
            let mut it = it;
            let mut c = it.clone();
            // both interleaved: the original must not notice
            let mut junk = vec![];
            if let Some(x) = c.next() { x.tt(&mut junk) }
            let at = o.len() + 1;
            o.push(-4); o.push(0);
            if let Some(x) = it.next() { o[at] += 1; x.tt(o); }
            if let Some(x) = c.next() { x.tt(&mut junk) }
            let mut d = it.clone();
            if let Some(x) = d.next() { x.tt(&mut junk) }
            while let Some(x) = it.next() { o[at] += 1; x.tt(o); }
        }
        _ => eat(it, exact, o),
    }
}
impl<T: ToTerm + Clone, const CAP: usize> ToTerm for arrayvec::IntoIter<T, CAP> { fn tt(self, o: &mut Vec<i64>) { eat_clone(self, Some(&|i: &Self| i.len()), o) } }
impl<'t, I, T> ToTerm for mi::DataUnchecked<I>
where I: Iterator<Item = &'t T> + Clone, T: HibitTree + 't, <T as HibitTreeTypes<'t>>::DataUnchecked: ToTerm
{ fn tt(self, o: &mut Vec<i64>) {
    // exact whenever the sequence of trees is
    let inexact = INEXACT.get();
    eat(self, if inexact { None } else { Some(&|i: &Self| i.size_hint().0) }, o)
} }
impl<'c, 't, I, T> ToTerm for mi::CursorData<'c, 't, I>
where I: Iterator<Item = &'t T> + Clone, T: HibitTree + 't, <<T as HibitTreeTypes<'t>>::Cursor as HibitTreeCursorTypes<'c>>::Data: ToTerm
{ fn tt(self, o: &mut Vec<i64>) { eat_clone(self, Some(&|i: &Self| i.len()), o) } }
impl<'t, I, T> ToTerm for mu::DataUnchecked<I>
where I: Iterator<Item = &'t T> + Clone, T: HibitTree + 't, <T as HibitTreeTypes<'t>>::Data: ToTerm
{ fn tt(self, o: &mut Vec<i64>) { eat(self, None, o) } }
impl<'c, 't, I, T> ToTerm for mu::CursorData<'c, 't, I>
where I: Iterator<Item = &'t T> + Clone, T: HibitTree + 't, <<T as HibitTreeTypes<'t>>::Cursor as HibitTreeCursorTypes<'c>>::Data: ToTerm
{ fn tt(self, o: &mut Vec<i64>) { eat(self, None, o) } }

/* --------------------------- user functions --------------------------- */
fn tick() { FUSE.set(FUSE.get() - 1); if FUSE.get() == 0 { panic!("injected") } }
#[derive(Clone, Copy)] pub struct Fun(pub i64);
#[derive(Clone, Copy)] pub struct Zero(pub i64);
#[derive(Clone, Copy)] pub struct Step(pub i64);
impl<A: ToTerm> UnaryFunction<A> for Fun {
    type Output = Term;
    fn exec(&self, a: A) -> Term {
        CALLS.with(|c| c.borrow_mut().entry(self.0).or_default().1 += 1);
        tick();
        let mut o = vec![-5, self.0]; a.tt(&mut o); Term(o)
    }
}
impl NullaryFunction for Zero {
    type Output = Term;
    fn exec(&self) -> Term { CALLS.with(|c| c.borrow_mut().entry(self.0).or_default().0 += 1); tick(); Term(vec![-6, self.0, 0]) }
}
impl<A: ToTerm> BinaryFunction<Term, A> for Step {
    type Output = Term;
    fn exec(&self, mut acc: Term, a: A) -> Term {
        CALLS.with(|c| c.borrow_mut().entry(self.0).or_default().1 += 1);
        tick();
        acc.0[2] += 1; a.tt(&mut acc.0); acc
    }
}

/* ------------------------------ erasure ------------------------------ */
pub trait Cur<M> {
    unsafe fn select(&mut self, l: usize, i: usize, un: bool) -> M;
    unsafe fn data(&self, i: usize, un: bool) -> Option<Term>;
}
pub trait Obj<M>: 'static {
    fn exact(&self) -> bool;
    unsafe fn data(&self, i: usize, li: &[usize], un: bool) -> Option<Term>;
    fn cursor<'a>(&'a self) -> Box<dyn Cur<M> + 'a>;
    fn get(&self, i: usize) -> Option<Term>;
    unsafe fn get_unchecked(&self, i: usize) -> Term;
    /// `step` is called right after creation of the iterator (Err) and then with every `next` (Ok); returns false to stop
    fn iter(&self, std: bool, step: &mut dyn FnMut(Result<Option<(usize, Term)>, ()>) -> bool);
    fn has_std(&self) -> bool;
}
type Stepper<'s> = &'s mut dyn FnMut(Result<Option<(usize, Term)>, ()>) -> bool;
pub struct Er<T> { t: T, std: Option<fn(&T, Stepper)> }
pub struct ErCur<'a, T: HibitTree> { t: &'a T, c: <T as HibitTreeTypes<'a>>::Cursor }

#[macro_export]
macro_rules! terms { () => { for<'x> hibit_tree::HibitTreeTypes<'x, Data: $crate::lazy::ToTerm, DataUnchecked: $crate::lazy::ToTerm,
    Cursor: for<'y> hibit_tree::HibitTreeCursorTypes<'y, Data: $crate::lazy::ToTerm>> } }

impl<'a, T> Cur<T::LevelMask> for ErCur<'a, T>
where T: HibitTree + 'static,
      T: for<'x> HibitTreeTypes<'x, Cursor: for<'y> HibitTreeCursorTypes<'y, Data: ToTerm>>
{
    unsafe fn select(&mut self, l: usize, i: usize, un: bool) -> T::LevelMask {
        macro_rules! lv { ($($n:literal)*) => { match l { $(
            $n if const { <T::LevelCount as ConstInteger>::VALUE > $n } =>
                if un { self.c.select_level_node_unchecked(self.t, ConstUsize::<$n>, i) } else { self.c.select_level_node(self.t, ConstUsize::<$n>, i) },
        )* _ => unreachable!() } } }
        lv!(0 1 2 3 4 5 6 7 8)
    }
    unsafe fn data(&self, i: usize, un: bool) -> Option<Term> {
        if un { Some(term(self.c.data_unchecked(self.t, i))) } else { self.c.data(self.t, i).map(term) }
    }
}
impl<T> Obj<T::LevelMask> for Er<T>
where T: HibitTree + 'static,
      T: for<'x> HibitTreeTypes<'x, Data: ToTerm, DataUnchecked: ToTerm, Cursor: for<'y> HibitTreeCursorTypes<'y, Data: ToTerm>>
{
    fn exact(&self) -> bool { T::EXACT_HIERARCHY }
    unsafe fn data(&self, i: usize, li: &[usize], un: bool) -> Option<Term> {
        if un { Some(term(self.t.data_unchecked(i, li))) } else { self.t.data(i, li).map(term) }
    }
    fn cursor<'a>(&'a self) -> Box<dyn Cur<T::LevelMask> + 'a> { Box::new(ErCur::<'a, T> { t: &self.t, c: HibitTreeCursor::new(&self.t) }) }
    fn get(&self, i: usize) -> Option<Term> { self.t.get(i).map(term) }
    unsafe fn get_unchecked(&self, i: usize) -> Term { term(HibitTree::get_unchecked(&self.t, i)) }
    fn iter(&self, std: bool, step: Stepper) {
        if std { return self.std.unwrap()(&self.t, step) }
        let mut it = self.t.iter();
        if !step(Err(())) { return }
        while step(Ok(LendingIterator::next(&mut it).map(|(i, x)| (i, term(x))))) {}
    }
    fn has_std(&self) -> bool { self.std.is_some() }
}
pub trait Pair { fn pair(self) -> (usize, Term); }
impl<A: ToTerm> Pair for (usize, A) { fn pair(self) -> (usize, Term) { (self.0, term(self.1)) } }
fn std_iter<T>(t: &T, step: Stepper)
where T: HibitTree + 'static, for<'i> Iter<'i, T>: Iterator<Item: Pair>
{
    let mut it: Iter<T> = t.iter();
    if !step(Err(())) { return }
    while step(Ok(Iterator::next(&mut it).map(|x| x.pair()))) {}
}

/// A type erased lazy tree of 64*.. wide nodes M, depth D; a real `HibitTree` itself. Everything is leaked.
pub struct Dyn<M: 'static, const D: usize, const E: bool>(pub &'static dyn Obj<M>);
impl<M, const D: usize, const E: bool> Clone for Dyn<M, D, E> { fn clone(&self) -> Self { *self } }
impl<M, const D: usize, const E: bool> Copy for Dyn<M, D, E> {}
pub struct DynCur<'a, M: 'static, const D: usize, const E: bool>(Box<dyn Cur<M> + 'a>);

impl<'t, M: BitBlock, const D: usize, const E: bool> HibitTreeTypes<'t> for Dyn<M, D, E> where ConstUsize<D>: ConstInteger {
    type Data = Term; type DataUnchecked = Term; type Cursor = DynCur<'t, M, D, E>;
}
impl<M: BitBlock, const D: usize, const E: bool> HibitTree for Dyn<M, D, E> where ConstUsize<D>: ConstInteger {
    const EXACT_HIERARCHY: bool = E;
    type LevelCount = ConstUsize<D>; type LevelMask = M;
    unsafe fn data(&self, i: usize, li: &[usize]) -> Option<Term> { self.0.data(i, li, false) }
    unsafe fn data_unchecked(&self, i: usize, li: &[usize]) -> Term { self.0.data(i, li, true).unwrap() }
}
impl<M: BitBlock, const D: usize, const E: bool> LazyHibitTree for Dyn<M, D, E> where ConstUsize<D>: ConstInteger {}
impl<M, const D: usize, const E: bool> Borrowable for Dyn<M, D, E> { type Borrowed = Self; }
impl<'t, 's, M: BitBlock, const D: usize, const E: bool> HibitTreeCursorTypes<'t> for DynCur<'s, M, D, E> { type Data = Term; }
impl<'s, M: BitBlock, const D: usize, const E: bool> HibitTreeCursor<'s> for DynCur<'s, M, D, E> where ConstUsize<D>: ConstInteger {
    type Src = Dyn<M, D, E>;
    fn new(t: &'s Self::Src) -> Self { DynCur(t.0.cursor()) }
    unsafe fn select_level_node<N: ConstInteger>(&mut self, _: &'s Self::Src, _: N, i: usize) -> M { self.0.select(N::VALUE, i, false) }
    unsafe fn select_level_node_unchecked<N: ConstInteger>(&mut self, _: &'s Self::Src, _: N, i: usize) -> M { self.0.select(N::VALUE, i, true) }
    unsafe fn data<'a>(&'a self, _: &'s Self::Src, i: usize) -> Option<Term> { self.0.data(i, false) }
    unsafe fn data_unchecked<'a>(&'a self, _: &'s Self::Src, i: usize) -> Term { self.0.data(i, true).unwrap() }
}

/// any lazy tree, with its exactness as a type
pub enum Any<M: 'static, const D: usize> { E(Dyn<M, D, true>), N(Dyn<M, D, false>) }
impl<M, const D: usize> Clone for Any<M, D> { fn clone(&self) -> Self { match self { Any::E(x) => Any::E(*x), Any::N(x) => Any::N(*x) } } }
impl<M, const D: usize> Any<M, D> {
    pub fn new(o: &'static dyn Obj<M>) -> Self { if o.exact() { Any::E(Dyn(o)) } else { Any::N(Dyn(o)) } }
    pub fn o(&self) -> &'static dyn Obj<M> { match self { Any::E(x) => x.0, Any::N(x) => x.0 } }
}
/// multi-valued tree
pub fn erase<T>(t: T) -> &'static dyn Obj<T::LevelMask>
where T: HibitTree + 'static,
      T: for<'x> HibitTreeTypes<'x, Data: ToTerm, DataUnchecked: ToTerm, Cursor: for<'y> HibitTreeCursorTypes<'y, Data: ToTerm>>
{ Box::leak(Box::new(Er { t, std: None })) }
pub fn erase_reg<T>(t: T) -> &'static dyn Obj<T::LevelMask>
where T: HibitTree + 'static, for<'i> Iter<'i, T>: Iterator<Item: Pair>,
      T: for<'x> HibitTreeTypes<'x, Data: ToTerm, DataUnchecked: ToTerm, Cursor: for<'y> HibitTreeCursorTypes<'y, Data: ToTerm>>
{ Box::leak(Box::new(Er { t, std: Some(std_iter::<T>) })) }

/* ------------------------------ sources ------------------------------ */
/// An instrumented user-defined tree. Its masks may advertise phantom nodes above the lowest level.
pub struct Spy<M, const D: usize, const E: bool> {
    pub id: usize,
    pub vals: HashMap<usize, Val>,
    pub masks: HashMap<Vec<usize>, M>,
    pub log: bool,
}
impl<M: BitBlock, const D: usize, const E: bool> Spy<M, D, E> {
    pub fn new(id: usize, kv: &[(usize, u64)], phantoms: &[usize], log: bool) -> Self {
        let mut masks: HashMap<Vec<usize>, M> = HashMap::new();
        let mut add = |k: usize, upto: usize| {
            let dg = crate::trees::digits(k, M::SIZE, D);
            for l in 0..upto { masks.entry(dg[..l].to_vec()).or_insert(M::zero()).set_bit::<true>(dg[l]); }
        };
        for (k, _) in kv { add(*k, D) }
        for k in phantoms { add(*k, D - 1) }
        Spy { id, vals: kv.iter().map(|(k, v)| (*k, Val(*v))).collect(), masks, log }
    }
    fn note(&self, e: String) { if self.log { LOG.with(|l| l.borrow_mut().push(e)) } }
}
pub struct SpyCur { c: usize, path: Vec<usize> }
impl<'t, M: BitBlock, const D: usize, const E: bool> HibitTreeTypes<'t> for Spy<M, D, E> where ConstUsize<D>: ConstInteger {
    type Data = Term; type DataUnchecked = Term; type Cursor = SpyCurOf<'t, M, D, E>;
}
pub struct SpyCurOf<'a, M, const D: usize, const E: bool>(RefCell<SpyCur>, &'a Spy<M, D, E>);
impl<M: BitBlock, const D: usize, const E: bool> HibitTree for Spy<M, D, E> where ConstUsize<D>: ConstInteger {
    const EXACT_HIERARCHY: bool = E;
    type LevelCount = ConstUsize<D>; type LevelMask = M;
    unsafe fn data(&self, i: usize, li: &[usize]) -> Option<Term> {
        self.note(obj!(o: "D", s: self.id, k: crate::trees::digits(i, M::SIZE, D), li: li.to_vec(), u: 0));
        self.vals.get(&i).map(|v| term(v))
    }
    unsafe fn data_unchecked(&self, i: usize, li: &[usize]) -> Term {
        self.note(obj!(o: "D", s: self.id, k: crate::trees::digits(i, M::SIZE, D), li: li.to_vec(), u: 1));
        self.vals.get(&i).map(|v| term(v)).unwrap_or(Term(vec![-99]))
    }
}
impl<M: BitBlock, const D: usize, const E: bool> LazyHibitTree for Spy<M, D, E> where ConstUsize<D>: ConstInteger {}
impl<M, const D: usize, const E: bool> Borrowable for Spy<M, D, E> { type Borrowed = Self; }
impl<'t, 's, M: BitBlock, const D: usize, const E: bool> HibitTreeCursorTypes<'t> for SpyCurOf<'s, M, D, E> { type Data = Term; }
impl<'s, M: BitBlock, const D: usize, const E: bool> SpyCurOf<'s, M, D, E> where ConstUsize<D>: ConstInteger {
    fn sel(&self, l: usize, i: usize, un: bool) -> M {
        let mut c = self.0.borrow_mut();
        self.1.note(obj!(o: "S", s: self.1.id, c: c.c, l: l, x: i, u: un));
        if l > 0 { c.path.truncate(l - 1); c.path.push(i) } else { c.path.clear() }
        self.1.masks.get(&c.path).cloned().unwrap_or(M::zero())
    }
    fn dat(&self, i: usize, un: bool) -> Option<Term> {
        let c = self.0.borrow();
        self.1.note(obj!(o: "d", s: self.1.id, c: c.c, x: i, u: un));
        let mut p = c.path.clone(); p.push(i);
        if p.len() != D { return None }
        let r = self.1.vals.get(&crate::trees::undigits(&p, M::SIZE)).map(|v| term(v));
        if un && r.is_none() { return Some(Term(vec![-99])) }
        r
    }
}
impl<'s, M: BitBlock, const D: usize, const E: bool> HibitTreeCursor<'s> for SpyCurOf<'s, M, D, E> where ConstUsize<D>: ConstInteger {
    type Src = Spy<M, D, E>;
    fn new(t: &'s Self::Src) -> Self {
        let n = CURSORS.get() + 1; CURSORS.set(n);
        t.note(obj!(o: "N", s: t.id, c: n));
        SpyCurOf(RefCell::new(SpyCur { c: n, path: vec![] }), t)
    }
    unsafe fn select_level_node<N: ConstInteger>(&mut self, _: &'s Self::Src, _: N, i: usize) -> M { self.sel(N::VALUE, i, false) }
    unsafe fn select_level_node_unchecked<N: ConstInteger>(&mut self, _: &'s Self::Src, _: N, i: usize) -> M { self.sel(N::VALUE, i, true) }
    unsafe fn data<'a>(&'a self, _: &'s Self::Src, i: usize) -> Option<Term> { self.dat(i, false) }
    unsafe fn data_unchecked<'a>(&'a self, _: &'s Self::Src, i: usize) -> Term { self.dat(i, true).unwrap_or(Term(vec![-98])) }
}

/* --------------------------- expressions --------------------------- */
#[derive(Clone, Debug)]
pub enum Ast { L(usize), I(Box<Ast>, Box<Ast>), U(Box<Ast>, Box<Ast>), MI(Vec<Ast>), MU(Vec<Ast>), M(i64, Box<Ast>), F(i64, Box<Ast>) }
impl Ast {
    pub fn json(&self) -> String {
        let l = |v: &Vec<Ast>| v.iter().map(|a| a.json()).collect::<Vec<_>>().join(",");
        match self {
            Ast::L(i) => format!("[\"L\",{}]", i + 1),
            Ast::I(a, b) => format!("[\"I\",{},{}]", a.json(), b.json()),
            Ast::U(a, b) => format!("[\"U\",{},{}]", a.json(), b.json()),
            Ast::MI(v) => format!("[\"MI\",[{}]]", l(v)),
            Ast::MU(v) => format!("[\"MU\",[{}]]", l(v)),
            Ast::M(c, a) => format!("[\"M\",{},{}]", c, a.json()),
            Ast::F(c, a) => format!("[\"F\",{},{}]", c, a.json()),
        }
    }
}
fn leak<T>(t: T) -> &'static T { Box::leak(Box::new(t)) }

fn bin<M: BitBlock, const D: usize, const A: bool, const B: bool>(and: bool, a: Dyn<M, D, A>, b: Dyn<M, D, B>, how: usize) -> Any<M, D>
where ConstUsize<D>: ConstInteger
{
    Any::new(match (and, how % 2) {
        (true, 0) => erase_reg(intersection(a, b)),
        (true, _) => erase_reg(intersection(leak(a), b)),
        (false, 0) => erase_reg(union(a, b)),
        (false, _) => erase_reg(union(a, leak(b))),
    })
}
fn multi<M: BitBlock, const D: usize, const E: bool>(and: bool, v: Vec<Dyn<M, D, E>>, fold: Option<i64>, how: usize) -> Any<M, D>
where ConstUsize<D>: ConstInteger
{
    if how % 3 == 2 && v.len() < 32 {
        // an iterator that does not know its length
        INEXACT.set(true);
        let dud = v.last().cloned();
        let mut v: Vec<(bool, Dyn<M, D, E>)> = v.into_iter().map(|x| (true, x)).collect();
        if let Some(x) = dud { v.insert(how / 3 % v.len(), (false, x)); v.push((false, x)) }
        let v: &'static [(bool, Dyn<M, D, E>)] = Box::leak(v.into_boxed_slice());
        let it = v.iter().filter(|x| x.0).map(|x| &x.1);
        return Any::new(match (and, fold) {
            (true, None) => erase(multi_intersection(it)),
            (false, None) => erase(multi_union(it)),
            (true, Some(c)) => erase_reg(multi_intersection(it).map_fold(Zero(c), Step(c))),
            (false, Some(c)) => erase_reg(multi_map_fold(multi_union(it), Zero(c), Step(c))),
        })
    }
    if how % 2 == 1 {
        // another iterator type
        let v: &'static [Dyn<M, D, E>] = Box::leak(v.into_iter().rev().collect::<Vec<_>>().into_boxed_slice());
        return Any::new(match (and, fold) {
            (true, None) => erase(multi_intersection(v.iter().rev())),
            (false, None) => erase(multi_union(v.iter().rev())),
            (true, Some(c)) => erase_reg(multi_intersection(v.iter().rev()).map_fold(Zero(c), Step(c))),
            (false, Some(c)) => erase_reg(multi_map_fold(multi_union(v.iter().rev()), Zero(c), Step(c))),
        })
    }
    let v: &'static [Dyn<M, D, E>] = Box::leak(v.into_boxed_slice());
    Any::new(match (and, fold) {
        (true, None) => erase(multi_intersection(v.iter())),
        (false, None) => erase(multi_union(v.iter())),
        (true, Some(c)) => erase_reg(multi_map_fold(multi_intersection(v.iter()), Zero(c), Step(c))),
        (false, Some(c)) => erase_reg(multi_union(v.iter()).map_fold(Zero(c), Step(c))),
    })
}
pub fn build<M: BitBlock, const D: usize>(e: &Ast, leaves: &[Any<M, D>], how: &mut dyn FnMut() -> usize) -> Any<M, D>
where ConstUsize<D>: ConstInteger
{
    let mut many = |and: bool, v: &Vec<Ast>, f: Option<i64>, how: &mut dyn FnMut() -> usize| {
        let v: Vec<Any<M, D>> = v.iter().map(|a| build(a, leaves, how)).collect();
        let n = how();
        if v.iter().all(|x| matches!(x, Any::E(_))) { multi::<M, D, true>(and, v.iter().map(|x| Dyn(x.o())).collect(), f, n) }
        else { multi::<M, D, false>(and, v.iter().map(|x| Dyn(x.o())).collect(), f, n) }
    };
    match e {
        Ast::L(i) => leaves[*i].clone(),
        Ast::I(a, b) | Ast::U(a, b) => {
            let and = matches!(e, Ast::I(..));
            let (a, b) = (build(a, leaves, how), build(b, leaves, how));
            let n = how();
            match (a, b) {
                (Any::E(a), Any::E(b)) => bin(and, a, b, n),
                (Any::E(a), Any::N(b)) => bin(and, a, b, n),
                (Any::N(a), Any::E(b)) => bin(and, a, b, n),
                (Any::N(a), Any::N(b)) => bin(and, a, b, n),
            }
        }
        Ast::MI(v) => many(true, v, None, how),
        Ast::MU(v) => many(false, v, None, how),
        Ast::M(c, a) => {
            let n = how();
            Any::new(match (build(a, leaves, how), n % 2) {
                (Any::E(a), 0) => erase_reg(map(a, Fun(*c))),
                (Any::E(a), _) => erase_reg(leak(a).map_ref(Fun(*c))),
                (Any::N(a), 0) => erase_reg(a.map(Fun(*c))),
                (Any::N(a), _) => erase_reg(map(leak(a), Fun(*c))),
            })
        }
        Ast::F(c, m) => match &**m {
            Ast::MI(v) => many(true, v, Some(*c), how),
            Ast::MU(v) => many(false, v, Some(*c), how),
            _ => panic!("fold of a non-multi tree"),
        },
    }
}

/* ---------------- really nested types (nothing erased inside) ---------------- */
pub struct X<T> { pub t: T, pub a: Ast }
pub fn xl<T>(t: T, i: usize) -> X<T> { X { t, a: Ast::L(i) } }
pub fn xand<A, B>(a: X<A>, b: X<B>) -> X<ops::Intersection<A, B>>
where A: Borrowable<Borrowed: HibitTree>, B: Borrowable<Borrowed: HibitTree<LevelCount = <A::Borrowed as HibitTree>::LevelCount, LevelMask = <A::Borrowed as HibitTree>::LevelMask>>
{ X { t: intersection(a.t, b.t), a: Ast::I(Box::new(a.a), Box::new(b.a)) } }
pub fn xor<A, B>(a: X<A>, b: X<B>) -> X<ops::Union<A, B>>
where A: Borrowable<Borrowed: HibitTree>, B: Borrowable<Borrowed: HibitTree<LevelCount = <A::Borrowed as HibitTree>::LevelCount, LevelMask = <A::Borrowed as HibitTree>::LevelMask>>
{ X { t: union(a.t, b.t), a: Ast::U(Box::new(a.a), Box::new(b.a)) } }
pub fn xmap<A>(c: i64, a: X<A>) -> X<ops::Map<A, Fun>>
where A: Borrowable<Borrowed: RegularHibitTree>, Fun: for<'x> ops::MapFunction<'x, <A::Borrowed as HibitTreeTypes<'x>>::Data>
{ X { t: map(a.t, Fun(c)), a: Ast::M(c, Box::new(a.a)) } }
fn unzip<T>(v: Vec<X<T>>) -> (&'static [T], Vec<Ast>) {
    let (t, a): (Vec<T>, Vec<Ast>) = v.into_iter().map(|x| (x.t, x.a)).unzip();
    (Box::leak(t.into_boxed_slice()), a)
}
pub type SI<T> = std::slice::Iter<'static, T>;
pub fn xmand<T: HibitTree + 'static>(v: Vec<X<T>>) -> X<ops::MultiIntersection<SI<T>>> { let (t, a) = unzip(v); X { t: multi_intersection(t.iter()), a: Ast::MI(a) } }
pub fn xmor<T: HibitTree + 'static>(v: Vec<X<T>>) -> X<ops::MultiUnion<SI<T>>> { let (t, a) = unzip(v); X { t: multi_union(t.iter()), a: Ast::MU(a) } }
pub fn xfold<T>(c: i64, x: X<T>) -> X<ops::MultiMapFold<T, Zero, Step>>
where T: MultiHibitTree, Step: for<'a> BinaryFunction<Term, <T as MultiHibitTreeTypes<'a>>::IterItem, Output = Term>
{ X { t: multi_map_fold(x.t, Zero(c), Step(c)), a: Ast::F(c, Box::new(x.a)) } }

pub fn mask_bits<M: BitBlock>(m: &M) -> Vec<usize> { bits(m) }
pub const _D: u64 = DEF;
