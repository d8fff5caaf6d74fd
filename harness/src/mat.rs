//! Containers born by materialization.
use crate::hist::Hist;
use crate::obj;
use crate::rng::Rng;
use crate::trees::*;
use hibit_tree::{config, intersection, multi_intersection, multi_union, union, DenseTree, LazyHibitTree, MultiHibitTree, RegularHibitTree, SparseTree};

pub const KINDS: &[&str] = &["map", "maps", "and", "or", "mand", "mor", "nand", "ands"];

fn clone_val(v: &Val) -> Val { v.clone() }
fn second(v: (&Val, &Val)) -> Val { v.1.clone() }
fn second2(v: (Val, &Val)) -> Val { v.1.clone() }
fn either(v: (Option<&Val>, Option<&Val>)) -> Val { v.0.or(v.1).unwrap().clone() }
fn either2(v: (Option<Val>, Option<&Val>)) -> Val { v.0.unwrap_or_else(|| v.1.unwrap().clone()) }
fn zero() -> Val { Val(0) }
fn add(a: Val, b: &Val) -> Val { Val(a.0 + b.0) }

macro_rules! mats { ($d:literal, $n:ident, $_l:tt, $kind:expr, $src:expr, $depth:expr) => {
    if $depth == $d {
        type D = DenseTree<Val, $d>;
        type S = SparseTree<config::width_64::$n, Val>;
        let ds: Vec<D> = $src.iter().map(|s| { let mut t = D::default(); for (k, v) in s { t.insert(*k, Val(*v)) } t }).collect();
        let ss: Vec<S> = $src.iter().map(|s| { let mut t = S::default(); for (k, v) in s { t.insert(*k, Val(*v)) } t }).collect();
        let t: D = match $kind {
            "map" => ds[0].map_ref(clone_val).materialize(),
            "maps" => ss[0].map_ref(clone_val).materialize(),
            "and" => intersection(&ds[0], &ds[1]).map(second).materialize(),
            "ands" => intersection(intersection(&ds[0], &ss[1]).map(second), &ds[1]).map(second2).materialize(),
            "or" => union(&ds[0], &ss[1]).map(either).materialize(),
            "mand" => multi_intersection(ds.iter()).map_fold(zero, add).materialize(),
            "mor" => multi_union(ss.iter()).map_fold(zero, add).materialize(),
            "nand" => union(intersection(&ds[0], &ds[1]).map(second), &ds[2]).map(either2).materialize(),
            _ => unreachable!(),
        };
        return Box::new(Is(t));
    }
} }
macro_rules! mat9 { ($kind:expr, $src:expr, $depth:expr) => {
    if $depth == 9 {
        type D = DenseTree<Val, 9>;
        let ds: Vec<D> = $src.iter().map(|s| { let mut t = D::default(); for (k, v) in s { t.insert(*k, Val(*v)) } t }).collect();
        let t: D = match $kind {
            "map" => ds[0].map_ref(clone_val).materialize(),
            "and" => intersection(&ds[0], &ds[1]).map(second).materialize(),
            "or" => union(&ds[0], &ds[1]).map(either).materialize(),
            "mand" => multi_intersection(ds.iter()).map_fold(zero, add).materialize(),
            "mor" => multi_union(ds.iter()).map_fold(zero, add).materialize(),
            "nand" => union(intersection(&ds[0], &ds[1]).map(second), &ds[2]).map(either2).materialize(),
            _ => intersection(intersection(&ds[0], &ds[1]).map(second), &ds[1]).map(second2).materialize(),
        };
        return Box::new(Is(t));
    }
} }

pub fn materialize(depth: usize, kind: &str, src: &[KV]) -> Box<dyn Tree> {
    for_depths!(mats, kind, src, depth);
    mat9!(kind, src, depth);
    unreachable!()
}

/// Makes h.t by materialization, records the sources, which have `density` tenths of the keys.
pub fn start(h: &mut Hist, rng: &mut Rng, n: usize, density: usize) {
    let mut kind = KINDS[n % KINDS.len()];
    if h.d == 9 && (kind == "maps" || kind == "ands") { kind = "and" }
    let src: Vec<KV> = (0..3).map(|j| {
        let mut v = vec![];
        for k in h.pool.clone() { if rng.chance(density, 10) { v.push((k, (j * 1000) as u64 + h.fresh())) } }
        v
    }).collect();
    // contents as the specification's tuples
    let e: Vec<Vec<u64>> = src.iter().map(|s| { let m: std::collections::BTreeMap<usize, u64> = s.iter().cloned().collect(); h.pool.iter().map(|k| m.get(k).cloned().unwrap_or(0)).collect() }).collect();
    h.ev.push(obj!(o: "mat", f: kind, s: e));
    h.t = materialize(h.d, kind, &src);
    // only for deciding which unchecked calls are legal
    h.shadow = h.pool.iter().filter_map(|k| h.t.get(*k).map(|v| (*k, v))).collect();
}

/* --------------------- scripts of MCNode.tla (C12) ---------------------- */
/// Where the node under observation lies, and which digits its children are.
pub struct Place { pub d: usize, pub level: usize, pub groups: Vec<Vec<usize>>, pub at: usize, pub below: usize }
impl Place {
    fn key(&self, x: usize) -> usize {
        let mut k = vec![self.at; self.level]; k.push(x); k.resize(self.d, self.below);
        undigits(&k, 64)
    }
}
pub fn places(width: usize) -> Vec<Place> {
    let spread = |f: &dyn Fn(usize) -> Vec<usize>| -> Vec<Vec<usize>> { (0..width).map(f).collect() };
    let embeddings: Vec<Vec<Vec<usize>>> = vec![
        spread(&|x| vec![x]), spread(&|x| vec![64 - width + x]), spread(&|x| vec![x * 63 / (width - 1)]), spread(&|x| vec![28 + x]),
        // whole ranges of children come and go together: nodes up to completely full
        spread(&|x| (x * 64 / width..(x + 1) * 64 / width).collect()),
        spread(&|x| (0..64).filter(|y| y % width == x).collect()),
        spread(&|x| (1 << x..(2 << x).min(64)).collect()),
    ];
    let mut out = vec![];
    for (n, e) in embeddings.iter().enumerate() { for d in [1, 2, 3, 4, 9] {
        for level in 0..d {
            if d == 9 && ![0, 4, 8].contains(&level) { continue }
            out.push(Place { d, level, groups: e.clone(), at: [0, 63, 31, 7, 32, 1, 62][n], below: [63, 0, 5, 33, 0, 63, 31][n] });
        }
    } }
    out
}
/// Err = what differs from what the specification demands
pub fn run_node(p: &Place, n: usize, start: (&str, Vec<usize>), ops: &[(usize, usize)], end: &[usize]) -> Result<(), String> {
    use std::collections::BTreeMap;
    let mut next = 100u64;
    let mut want: BTreeMap<usize, u64> = BTreeMap::new();
    let mut fresh = || { next += 1; next };
    // another branch
    let mut path = vec![p.at; p.level]; path.push(0); path.resize(p.d, p.below);
    let other = if p.level > 0 { path[0] = (p.at + 1) % 64; Some(undigits(&path, 64)) } else { None };
    for x in &start.1 { for y in &p.groups[*x] { want.insert(p.key(*y), fresh()); } }
    if let Some(o) = other { want.insert(o, fresh()); }
    let base: KV = want.iter().map(|x| (*x.0, *x.1)).collect();
    let mut t: Box<dyn Tree> = if start.0 == "new" {
        let mut t = crate::trees::make(&format!("d{}", p.d));
        for (k, v) in &base { t.insert(*k, *v) }
        t
    } else {
        let kinds: &[&str] = if start.0 == "parts" { &["and", "nand", "ands", "mand"] } else { &["map", "maps", "or", "mor"] };
        let mut kind = kinds[n % 4];
        if p.d == 9 && kind == "ands" { kind = "and" }
        if p.d == 9 && kind == "maps" { kind = "map" }
        let mut src = match kind { "and" | "ands" => vec![base.clone(), base.clone(), vec![]], "nand" => vec![base.clone(), base.clone(), vec![]],
            "mand" => vec![base.iter().map(|x| (x.0, 1)).collect(), base.iter().map(|x| (x.0, 2)).collect(), base.iter().map(|x| (x.0, x.1 - 3)).collect()],
            "or" => vec![base.iter().cloned().filter(|x| x.0 % 2 == 0).collect(), base.iter().cloned().filter(|x| x.0 % 2 == 1).collect(), vec![]],
            "mor" => vec![base.iter().cloned().filter(|x| x.0 % 3 == 0).collect(), base.iter().cloned().filter(|x| x.0 % 3 == 1).collect(), base.iter().cloned().filter(|x| x.0 % 3 == 2).collect()],
            _ => vec![base.clone(), vec![], vec![]] };
        // children that both sources have, without a common entry below
        if start.0 == "parts" && p.level + 1 < p.d {
            let used: Vec<usize> = start.1.iter().flat_map(|x| p.groups[*x].clone()).collect();
            for x in 0..64 { if !used.contains(&x) && x % 5 == n % 5 {
                let k = p.key(x); let sib = k ^ 1;
                src[0].push((k, 1)); src[1].push((sib, 1)); if kind == "mand" { src[2].push((k, 1)) }
            } }
        }
        materialize(p.d, kind, &src)
    };
    for (n, (add, x)) in ops.iter().enumerate() { for y in &p.groups[*x] {
        let k = p.key(*y);
        if *add == 1 {
            let v = fresh();
            if n % 3 == 2 { t.get_or_insert(k, Some(v)); } else { t.insert(k, v) }
            want.insert(k, v);
        } else {
            let (r, w) = (t.remove(k), want.remove(&k));
            if r != w { return Err(format!("remove({k}) returned {r:?} instead of {w:?}")) }
        }
    } }
    let mut mask: Vec<usize> = end.iter().flat_map(|x| p.groups[*x].clone()).collect(); mask.sort();
    let have = t.mask(&vec![p.at; p.level], false);
    if have != mask { return Err(format!("children {have:?} instead of {mask:?}")) }
    for x in 0..64 {
        let k = p.key(x);
        if t.get(k) != want.get(&k).cloned() { return Err(format!("get({k}) is {:?} instead of {:?}", t.get(k), want.get(&k))) }
        if k < usize::MAX - 1 && t.get(k ^ 1) != want.get(&(k ^ 1)).cloned() { return Err(format!("get({}) is {:?}", k ^ 1, t.get(k ^ 1))) }
    }
    let all: KV = want.iter().map(|x| (*x.0, *x.1)).collect();
    let (it, more) = t.iter(n % 2 == 0, all.len() + 8);
    if it != all || more != 3 { return Err(format!("iteration yields {it:?} instead of {all:?}")) }
    let (k, v) = t.kv();
    let mut kv: KV = k.into_iter().zip(v).collect(); kv.sort();
    if kv != all { return Err(format!("storage holds {kv:?} instead of {all:?}")) }
    Ok(())
}
