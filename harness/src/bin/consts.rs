//! consts gen PROP TIER SEED PART NPARTS OUT      compile-time loops and integers, for TraceConst.tla (C22)
use hibit_harness::json::Raw;
use hibit_harness::obj;
use hibit_tree::const_utils::*;
use hibit_tree::utils::Array;
use std::cell::Cell;
use std::io::Write;
use std::ops::ControlFlow::{self, Break, Continue};

struct V<'a> { v: &'a mut Vec<usize>, w: &'a mut Vec<usize>, stop: usize }
impl<'a> ConstIntVisitor for V<'a> {
    type Out = usize;
    fn visit<I: ConstInteger>(&mut self, i: I) -> ControlFlow<usize> {
        self.v.push(I::VALUE); self.w.push(i.value());
        assert!(self.v.len() < 100);
        if self.v.len() == self.stop { Break(i.value()) } else { Continue(()) }
    }
}
fn loops<A: ConstInteger, B: ConstInteger>(ev: &mut Vec<String>, a: A, b: B) {
    for rev in [false, true] { for stop in 0..11 {
        let (mut v, mut w) = (vec![], vec![]);
        let vis = V { v: &mut v, w: &mut w, stop };
        let r = if rev { const_for_rev(a, b, vis) } else { const_for(a, b, vis) };
        ev.push(obj!(o: "for", a: A::VALUE, b: B::VALUE, rev: rev, stop: stop, v: v, w: w, brk: r.is_break(), out: match r { Break(x) => x, Continue(()) => 0 }))
    } }
}
fn ints<I: ConstInteger>(ev: &mut Vec<String>, n: usize, i: I) {
    // what lies beyond the natural numbers in range is not asked for
    let (dec, dect) = if n > 0 { (i.dec().value(), <I::Dec as ConstInteger>::VALUE) } else { (0, 0) };
    let (inc, inct) = if n < 9 { (i.inc().value(), <I::Inc as ConstInteger>::VALUE) } else { (0, 0) };
    ev.push(obj!(o: "int", n: n, val: i.value(), vt: I::VALUE, dv: I::default().value(), sat: i.sat_dec().value(), satt: <I::SatDec as ConstInteger>::VALUE,
        dec: dec, dect: dect, inc: inc, inct: inct, eq: i == I::DEFAULT))
}
thread_local! { static DROPS: Cell<usize> = Cell::new(0) }
struct D(usize);
impl Drop for D { fn drop(&mut self) { DROPS.with(|d| d.set(d.get() + 1)) } }
type Split = (Vec<usize>, usize);
fn split<I: ConstInteger>(a: ConstArrayType<D, I>) -> Split { let (i, l) = a.split_last(); (i.as_ref().iter().map(|x| x.0).collect(), l.0) }
// there is no array of predecessor-of-zero many elements
fn no_split(a: [D; 0]) -> Split { drop(a); (vec![], 0) }
fn arrays<I: ConstInteger>(ev: &mut Vec<String>, n: usize, split: fn(ConstArrayType<D, I>) -> Split) {
    DROPS.with(|d| d.set(0));
    let mut a = <ConstArrayType<D, I> as Array>::from_fn(D);
    let c = <ConstCopyArrayType<u16, I> as Array>::from_fn(|x| x as u16);
    let d = c;
    let x: Vec<usize> = a.as_ref().iter().map(|x| x.0).collect();
    for y in a.as_mut() { y.0 += 0 }
    let (len, cap) = (a.as_ref().len(), <ConstArrayType<D, I> as Array>::CAP);
    let ccap = <<ConstArrayType<D, I> as ConstArray>::Cap as ConstInteger>::VALUE;
    let (init, last) = split(a);
    ev.push(obj!(o: "arr", n: n, len: len, cap: cap, ccap: ccap, size: std::mem::size_of::<ConstArrayType<D, I>>() / std::mem::size_of::<usize>(),
        x: x, c: d.as_ref().iter().map(|x| *x as usize).collect::<Vec<_>>(), init: init, last: last, drops: DROPS.with(|d| d.get())))
}
fn cond<B: ConstBool<Conditional<u8, u16> = T>, T>(b: B) -> (usize, usize, usize) {
    (b.value() as usize, std::mem::size_of::<T>(), <B::ConditionalInt<ConstUsize<3>, ConstUsize<4>> as ConstInteger>::VALUE)
}
macro_rules! all { ($f:ident; $($n:literal)*) => { $( $f!($n); )* } }

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let (part, nparts): (usize, usize) = (a[4].parse().unwrap(), a[5].parse().unwrap());
    let mut out = std::fs::File::create(&a[6]).unwrap();
    let mut n = 0;
    macro_rules! say { ($cfg:expr, $f:expr) => {
        n += 1;
        if n % nparts == part {
            std::fs::write(format!("{}.at", a[6]), format!("{{\"cfg\":\"{}\"}}", $cfg)).unwrap();
            let mut ev: Vec<String> = vec![];
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| $f(&mut ev)));
            if r.is_err() { ev.push(obj!(o: "die")) }
            let ev: Vec<Raw> = ev.into_iter().map(Raw).collect();
            writeln!(out, "{}", obj!(cfg: $cfg, ev: ev)).unwrap();
        }
    } }
    macro_rules! from { ($x:literal) => {
        say!(format!("loops from {}", $x), |ev: &mut Vec<String>| {
            macro_rules! to { ($y:literal) => { loops(ev, ConstUsize::<$x>, ConstUsize::<$y>) } }
            all!(to; 0 1 2 3 4 5 6 7 8 9);
        });
        say!(format!("integer {}", $x), |ev: &mut Vec<String>| { ints(ev, $x, ConstUsize::<$x>) });
    } }
    macro_rules! array { ($x:literal) => { say!(format!("array {}", $x), |ev: &mut Vec<String>| arrays::<ConstUsize<$x>>(ev, $x, split::<ConstUsize<$x>>)); } }
    say!("array 0", |ev: &mut Vec<String>| arrays::<ConstUsize<0>>(ev, 0, no_split));
    all!(array; 1 2 3 4 5 6 7 8 9);
    all!(from; 0 1 2 3 4 5 6 7 8 9);
    say!("bools", |ev: &mut Vec<String>| {
        let (t, f) = (cond(ConstTrue), cond(ConstFalse));
        ev.push(obj!(o: "cond", t: t.0, f: f.0, ty: vec![t.1, f.1], in: vec![t.2, f.2]))
    });
    std::fs::write(format!("{}.at", a[6]), "done").unwrap();
}
