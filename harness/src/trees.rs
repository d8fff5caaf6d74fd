//! Every container configuration behind one object-safe trait.
use hibit_tree::config;
use hibit_tree::utils::{Array, LendingIterator};
use hibit_tree::{BitBlock, DenseTree, HibitTree, HibitTreeCursor, HibitTreeTypes, Index, ReqDefault, SparseTree};

/// What `Default` of every value type denotes.
pub const DEF: u64 = 7;

pub trait Value: Default + 'static {
    fn mk(id: u64) -> Self;
    fn id(&self) -> u64;
    fn set(&mut self, id: u64) { *self = Self::mk(id) }
}
#[derive(Clone, PartialEq, Debug)]
pub struct Val(pub u64);
impl Default for Val { fn default() -> Self { Val(DEF) } }
impl Value for Val { fn mk(id: u64) -> Self { Val(id) } fn id(&self) -> u64 { self.0 } fn set(&mut self, id: u64) { self.0 = id } }
/// heap-allocated, large, odd sized
#[derive(Clone, Debug)]
pub struct Heap(Box<u64>);
impl Default for Heap { fn default() -> Self { Heap(Box::new(DEF)) } }
impl Value for Heap { fn mk(id: u64) -> Self { Heap(Box::new(id)) } fn id(&self) -> u64 { *self.0 } }
#[derive(Clone, Debug)]
#[repr(align(32))]
pub struct Big([u64; 7]);
impl Default for Big { fn default() -> Self { Self::mk(DEF) } }
impl Value for Big { fn mk(id: u64) -> Self { Big([id; 7]) } fn id(&self) -> u64 { if self.0.iter().all(|x| *x == self.0[0]) { self.0[0] } else { 1_999_999_999 } } }
#[derive(Clone, Debug)]
#[repr(packed)]
pub struct Odd([u8; 3]);
impl Default for Odd { fn default() -> Self { Self::mk(DEF) } }
impl Value for Odd {
    fn mk(id: u64) -> Self { Odd([id as u8, (id >> 8) as u8, (id >> 16) as u8]) }
    fn id(&self) -> u64 { self.0[0] as u64 | (self.0[1] as u64) << 8 | (self.0[2] as u64) << 16 }
}

pub type KV = Vec<(usize, u64)>;

pub trait Tree {
    fn width(&self) -> usize;
    fn depth(&self) -> usize;
    fn range_end(&self) -> usize;
    fn insert(&mut self, i: usize, v: u64);
    /// returns what it yielded; then writes w through the reference
    fn get_or_insert(&mut self, i: usize, w: Option<u64>) -> u64;
    fn remove(&mut self, i: usize) -> Option<u64>;
    fn get(&self, i: usize) -> Option<u64>;
    fn get_index(&self, i: usize) -> Option<u64>;
    unsafe fn get_unchecked(&self, i: usize) -> u64;
    fn has_get_mut(&self) -> bool;
    fn get_mut(&mut self, i: usize, w: Option<u64>) -> Option<u64>;
    unsafe fn get_mut_unchecked(&mut self, i: usize, w: Option<u64>) -> u64;
    fn has_default(&self) -> bool;
    fn get_or_default(&self, i: usize) -> u64;
    /// all items, and how many further `next`s returned None (stops at the first that does not)
    fn iter(&self, std: bool, limit: usize) -> (KV, usize);
    fn kv(&self) -> (Vec<usize>, Vec<u64>);
    fn kvm(&mut self, write: &mut dyn FnMut(usize, u64) -> Option<u64>) -> (Vec<usize>, Vec<u64>);
    /// mask of the node at `path`, selected level by level with a fresh cursor
    fn mask(&self, path: &[usize], unchecked: bool) -> Vec<usize>;
    /// index conversion `Index::from`
    fn index(&self, i: usize) -> usize;
}

pub fn bits<M: BitBlock>(m: &M) -> Vec<usize> {
    let mut out = vec![];
    for (n, w) in m.as_array().as_ref().iter().enumerate() {
        for b in 0..64 { if w >> b & 1 == 1 { out.push(n * 64 + b) } }
    }
    out
}

#[macro_export]
macro_rules! sel {
    ($c:expr, $src:expr, $l:expr, $i:expr, $un:expr, [$($n:literal),*]) => {
        match $l {
            $( $n => if $un { $c.select_level_node_unchecked($src, hibit_tree::const_utils::ConstUsize::<$n>, $i) }
                     else { $c.select_level_node($src, hibit_tree::const_utils::ConstUsize::<$n>, $i) }, )*
            _ => unreachable!(),
        }
    };
}

#[macro_export]
macro_rules! get_mut_impl {
    (sparse) => {
        fn has_get_mut(&self) -> bool { true }
        fn get_mut(&mut self, i: usize, w: Option<u64>) -> Option<u64> {
            let r = self.0.get_mut(i)?; let o = r.id();
            if let Some(w) = w { r.set(w) }
            Some(o)
        }
        unsafe fn get_mut_unchecked(&mut self, i: usize, w: Option<u64>) -> u64 {
            let r = self.0.get_mut_unchecked(i); let o = r.id();
            if let Some(w) = w { r.set(w) }
            o
        }
    };
    (dense) => {
        fn has_get_mut(&self) -> bool { false }
        fn get_mut(&mut self, _: usize, _: Option<u64>) -> Option<u64> { unimplemented!() }
        unsafe fn get_mut_unchecked(&mut self, _: usize, _: Option<u64>) -> u64 { unimplemented!() }
    };
}
#[macro_export]
macro_rules! default_impl {
    (yes) => { fn has_default(&self) -> bool { true } fn get_or_default(&self, i: usize) -> u64 { self.0.get_or_default(i).id() } };
    (no) => { fn has_default(&self) -> bool { false } fn get_or_default(&self, _: usize) -> u64 { unimplemented!() } };
}

/// Wraps a container.
pub struct Is<T>(pub T);

#[macro_export]
macro_rules! tree {
    ($ty:ty, $v:ty, $kind:ident, $def:ident, $levels:tt) => {
        impl Tree for Is<$ty> {
            fn width(&self) -> usize { <<$ty as HibitTree>::LevelMask as BitBlock>::SIZE }
            fn depth(&self) -> usize { use hibit_tree::const_utils::ConstInteger; <<$ty as HibitTree>::LevelCount as ConstInteger>::VALUE }
            fn range_end(&self) -> usize { <$ty as HibitTree>::index_range().end }
            fn insert(&mut self, i: usize, v: u64) { self.0.insert(i, <$v>::mk(v)) }
            fn get_or_insert(&mut self, i: usize, w: Option<u64>) -> u64 {
                let r = self.0.get_or_insert(i); let o = r.id();
                if let Some(w) = w { r.set(w) }
                o
            }
            fn remove(&mut self, i: usize) -> Option<u64> { self.0.remove(i).map(|v| v.id()) }
            fn get(&self, i: usize) -> Option<u64> { self.0.get(i).map(|v| v.id()) }
            fn get_index(&self, i: usize) -> Option<u64> {
                let ix: Index<<$ty as HibitTree>::LevelMask, <$ty as HibitTree>::LevelCount> = Index::from(i);
                self.0.get(ix).map(|v| v.id())
            }
            unsafe fn get_unchecked(&self, i: usize) -> u64 { HibitTree::get_unchecked(&self.0, i).id() }
            get_mut_impl!($kind);
            default_impl!($def);
            fn iter(&self, std: bool, limit: usize) -> (KV, usize) {
                let mut out = vec![];
                let mut it = self.0.iter();
                let mut ended = 0;
                loop {
                    let x = if std { Iterator::next(&mut it).map(|(k, v)| (k, v.id())) }
                            else { LendingIterator::next(&mut it).map(|(k, v)| (k, v.id())) };
                    match x {
                        Some(x) => { if ended > 0 { break } out.push(x); if out.len() > limit { break } }
                        None => { ended += 1; if ended == 3 { break } }
                    }
                }
                (out, ended)
            }
            fn kv(&self) -> (Vec<usize>, Vec<u64>) {
                let (k, v) = self.0.key_values();
                (k.to_vec(), v.iter().map(|v| v.id()).collect())
            }
            fn kvm(&mut self, write: &mut dyn FnMut(usize, u64) -> Option<u64>) -> (Vec<usize>, Vec<u64>) {
                let (k, v) = self.0.key_values_mut();
                let before = v.iter().map(|v| v.id()).collect();
                for (k, v) in k.iter().zip(v.iter_mut()) { if let Some(w) = write(*k, v.id()) { v.set(w) } }
                (k.to_vec(), before)
            }
            fn mask(&self, path: &[usize], un: bool) -> Vec<usize> {
                type C<'a> = <$ty as HibitTreeTypes<'a>>::Cursor;
                let t = &self.0;
                unsafe {
                    let mut c = C::new(t);
                    let mut m = sel!(c, t, 0, 0, un, $levels);
                    for (l, d) in path.iter().enumerate() { m = sel!(c, t, l + 1, *d, un, $levels); }
                    bits(&m)
                }
            }
            fn index(&self, i: usize) -> usize {
                let ix: Index<<$ty as HibitTree>::LevelMask, <$ty as HibitTree>::LevelCount> = Index::from(i);
                ix.into()
            }
        }
    };
}
#[macro_export]
macro_rules! for_depths {
    // $m!(depth, [levels], sparse type or dense)
    ($m:ident, $($extra:tt)*) => {
        $m!(1, depth_1, [0], $($extra)*);
        $m!(2, depth_2, [0, 1], $($extra)*);
        $m!(3, depth_3, [0, 1, 2], $($extra)*);
        $m!(4, depth_4, [0, 1, 2, 3], $($extra)*);
        $m!(5, depth_5, [0, 1, 2, 3, 4], $($extra)*);
        $m!(6, depth_6, [0, 1, 2, 3, 4, 5], $($extra)*);
        $m!(7, depth_7, [0, 1, 2, 3, 4, 5, 6], $($extra)*);
        $m!(8, depth_8, [0, 1, 2, 3, 4, 5, 6, 7], $($extra)*);
    };
}
macro_rules! dense { ($d:literal, $_:ident, $l:tt, $v:ty) => { tree!(DenseTree<$v, $d>, $v, dense, no, $l); } }
macro_rules! sparse { ($d:literal, $n:ident, $l:tt, $w:ident, $v:ty) => {
    tree!(SparseTree<config::$w::$n, $v>, $v, sparse, no, $l);
    tree!(SparseTree<config::$w::$n, $v, ReqDefault>, $v, sparse, yes, $l);
} }
for_depths!(dense, Val);
dense!(9, _n, [0, 1, 2, 3, 4, 5, 6, 7, 8], Val);
for_depths!(sparse, width_64, Val);
for_depths!(sparse, width_128, Val);
for_depths!(sparse, width_256, Val);

// other value types on some configurations
macro_rules! other { ($v:ty) => {
    tree!(DenseTree<$v, 2>, $v, dense, no, [0, 1]);
    tree!(DenseTree<$v, 4>, $v, dense, no, [0, 1, 2, 3]);
    tree!(SparseTree<config::width_64::depth_3, $v>, $v, sparse, no, [0, 1, 2]);
    tree!(SparseTree<config::width_128::depth_2, $v, ReqDefault>, $v, sparse, yes, [0, 1]);
    tree!(SparseTree<config::width_256::depth_2, $v>, $v, sparse, no, [0, 1]);
} }
other!(Heap);
other!(Big);
other!(Odd);

/// All 33 container configurations.
pub fn configs() -> Vec<String> {
    let mut v: Vec<String> = (1..=9).map(|d| format!("d{d}")).collect();
    for w in [64, 128, 256] { for d in 1..=8 { v.push(format!("s{w}_{d}")) } }
    v
}
/// ReqDefault variants
pub fn default_configs() -> Vec<String> {
    let mut v = vec![];
    for w in [64, 128, 256] { for d in 1..=8 { v.push(format!("r{w}_{d}")) } }
    v
}
/// other value types
pub fn other_configs() -> Vec<String> {
    let mut v = vec![];
    for t in ["h", "b", "o"] { for c in ["d2", "d4", "s64_3", "r128_2", "s256_2"] { v.push(format!("{t}:{c}")) } }
    v
}

pub fn make(name: &str) -> Box<dyn Tree> {
    macro_rules! arms { ($($n:literal => $t:ty),* $(,)?) => { match name { $( $n => Box::new(Is(<$t>::default())), )* _ => panic!("unknown configuration {name}") } } }
    use config::{width_128 as w128, width_256 as w256, width_64 as w64};
    type S<L, V> = SparseTree<L, V>;
    type R<L, V> = SparseTree<L, V, ReqDefault>;
    arms! {
        "d1" => DenseTree<Val, 1>, "d2" => DenseTree<Val, 2>, "d3" => DenseTree<Val, 3>, "d4" => DenseTree<Val, 4>,
        "d5" => DenseTree<Val, 5>, "d6" => DenseTree<Val, 6>, "d7" => DenseTree<Val, 7>, "d8" => DenseTree<Val, 8>,
        "d9" => DenseTree<Val, 9>,
        "s64_1" => S<w64::depth_1, Val>, "s64_2" => S<w64::depth_2, Val>, "s64_3" => S<w64::depth_3, Val>, "s64_4" => S<w64::depth_4, Val>,
        "s64_5" => S<w64::depth_5, Val>, "s64_6" => S<w64::depth_6, Val>, "s64_7" => S<w64::depth_7, Val>, "s64_8" => S<w64::depth_8, Val>,
        "s128_1" => S<w128::depth_1, Val>, "s128_2" => S<w128::depth_2, Val>, "s128_3" => S<w128::depth_3, Val>, "s128_4" => S<w128::depth_4, Val>,
        "s128_5" => S<w128::depth_5, Val>, "s128_6" => S<w128::depth_6, Val>, "s128_7" => S<w128::depth_7, Val>, "s128_8" => S<w128::depth_8, Val>,
        "s256_1" => S<w256::depth_1, Val>, "s256_2" => S<w256::depth_2, Val>, "s256_3" => S<w256::depth_3, Val>, "s256_4" => S<w256::depth_4, Val>,
        "s256_5" => S<w256::depth_5, Val>, "s256_6" => S<w256::depth_6, Val>, "s256_7" => S<w256::depth_7, Val>, "s256_8" => S<w256::depth_8, Val>,
        "r64_1" => R<w64::depth_1, Val>, "r64_2" => R<w64::depth_2, Val>, "r64_3" => R<w64::depth_3, Val>, "r64_4" => R<w64::depth_4, Val>,
        "r64_5" => R<w64::depth_5, Val>, "r64_6" => R<w64::depth_6, Val>, "r64_7" => R<w64::depth_7, Val>, "r64_8" => R<w64::depth_8, Val>,
        "r128_1" => R<w128::depth_1, Val>, "r128_2" => R<w128::depth_2, Val>, "r128_3" => R<w128::depth_3, Val>, "r128_4" => R<w128::depth_4, Val>,
        "r128_5" => R<w128::depth_5, Val>, "r128_6" => R<w128::depth_6, Val>, "r128_7" => R<w128::depth_7, Val>, "r128_8" => R<w128::depth_8, Val>,
        "r256_1" => R<w256::depth_1, Val>, "r256_2" => R<w256::depth_2, Val>, "r256_3" => R<w256::depth_3, Val>, "r256_4" => R<w256::depth_4, Val>,
        "r256_5" => R<w256::depth_5, Val>, "r256_6" => R<w256::depth_6, Val>, "r256_7" => R<w256::depth_7, Val>, "r256_8" => R<w256::depth_8, Val>,
        "h:d2" => DenseTree<Heap, 2>, "h:d4" => DenseTree<Heap, 4>, "h:s64_3" => S<w64::depth_3, Heap>, "h:r128_2" => R<w128::depth_2, Heap>, "h:s256_2" => S<w256::depth_2, Heap>,
        "b:d2" => DenseTree<Big, 2>, "b:d4" => DenseTree<Big, 4>, "b:s64_3" => S<w64::depth_3, Big>, "b:r128_2" => R<w128::depth_2, Big>, "b:s256_2" => S<w256::depth_2, Big>,
        "o:d2" => DenseTree<Odd, 2>, "o:d4" => DenseTree<Odd, 4>, "o:s64_3" => S<w64::depth_3, Odd>, "o:r128_2" => R<w128::depth_2, Odd>, "o:s256_2" => S<w256::depth_2, Odd>,
    }
}

/// digits of `i` in base w (a power of two), most significant first, exactly n of them
pub fn digits(i: usize, w: usize, n: usize) -> Vec<usize> {
    let b = w.trailing_zeros() as usize;
    (0..n).map(|j| { let sh = b * (n - 1 - j); if sh >= 64 { 0 } else { (i >> sh) & (w - 1) } }).collect()
}
pub fn undigits(d: &[usize], w: usize) -> usize {
    let b = w.trailing_zeros() as usize;
    d.iter().fold(0usize, |a, x| (a << b) | x)
}
