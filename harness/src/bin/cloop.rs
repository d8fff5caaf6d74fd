//! cloop gen PROP TIER SEED PART NPARTS OUT      the library's crate-private loop macro, for TraceConst.tla (C22)
#[path = "/repo/src/const_utils/const_loop.rs"]
mod const_loop;
use const_loop::const_loop;
use hibit_harness::json::Raw;
use hibit_harness::obj;
use std::io::Write;

macro_rules! fwd { ($ev:ident, $a:tt, $b:tt) => { for stop in 0..10usize {
    let mut v: Vec<usize> = vec![]; let mut brk = false;
    const_loop!(N in $a..$b => 'out: { v.push(N); if v.len() == stop { brk = true; break 'out } });
    $ev.push(obj!(o: "for", a: $a as usize, b: $b as usize, rev: false, stop: stop, v: v, w: v, brk: brk, out: *v.last().unwrap_or(&0)));
} } }
macro_rules! rev { ($ev:ident, $a:tt, $b:tt) => { for stop in 0..10usize {
    let mut v: Vec<usize> = vec![]; let mut brk = false;
    const_loop!(N in $a..$b rev => 'out: { v.push(N); if v.len() == stop { brk = true; break 'out } });
    $ev.push(obj!(o: "for", a: $a as usize, b: $b as usize, rev: true, stop: stop, v: v, w: v, brk: brk, out: *v.last().unwrap_or(&0)));
} } }
macro_rules! plain { ($ev:ident, $a:tt, $b:tt) => {
    let mut v: Vec<usize> = vec![]; let mut w: Vec<usize> = vec![];
    const_loop!(N in $a..$b => { v.push(N) });
    $ev.push(obj!(o: "for", a: $a as usize, b: $b as usize, rev: false, stop: 0, v: v, w: v, brk: false, out: 0));
    const_loop!(N in $a..$b rev => { w.push(N) });
    $ev.push(obj!(o: "for", a: $a as usize, b: $b as usize, rev: true, stop: 0, v: w, w: w, brk: false, out: 0));
} }
macro_rules! from { ($ev:ident, $a:tt; $($b:tt)*) => { $( fwd!($ev, $a, $b); rev!($ev, $a, $b); plain!($ev, $a, $b); )* } }

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut out = std::fs::File::create(&a[6]).unwrap();
    if a[4] == "0" {
        let mut ev: Vec<String> = vec![];
        from!(ev, 0; 0 1 2 3 4 5 6 7 8); from!(ev, 1; 1 2 3 4 5 6 7 8); from!(ev, 2; 2 3 4 5 6 7 8); from!(ev, 3; 3 4 5 6 7 8);
        from!(ev, 4; 4 5 6 7 8); from!(ev, 5; 5 6 7 8); from!(ev, 6; 6 7 8); from!(ev, 7; 7 8); from!(ev, 8; 8);
        let ev: Vec<Raw> = ev.into_iter().map(Raw).collect();
        writeln!(out, "{}", obj!(cfg: "const_loop!", ev: ev)).unwrap();
    }
    std::fs::write(format!("{}.at", a[6]), "done").unwrap();
}
