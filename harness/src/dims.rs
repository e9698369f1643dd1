//! Dimensions of a user's own: the storage layouts and the default methods of the traits for trees of 2, 4, .. 256 cells per node

use crate::engine::{catch, Src, Stop, R};
use crate::gen::{cells, deep_depth, dyn_depth, upto_cap};
use morton_index::dimensions::Dimension;
use morton_index::helper::make_displayable;
use morton_index::number::Bits;
use morton_index::{DynamicStorage, FixedDepthStorage, MortonIndex, MortonIndexNaming, StaticStorage, Storage, StorageType, VariableDepthMortonIndex};
use std::num::NonZeroUsize;

#[cfg(ints)]
type U40 = crate::custom::U<5>;
#[cfg(not(ints))]
type U40 = u32;

/// A dimension of 2^K cells per node
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Dim<const K: usize>;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Hypercube<const K: usize>(u8);
#[derive(Clone, Copy, Default)]
pub struct Axes;

impl<const K: usize> Dimension for Dim<K> {
    type Cell = Hypercube<K>;
    type GridIndex = Vec<usize>;
    type CellOrdering = Axes;
    const DIMENSIONALITY: usize = K;
}
impl<const K: usize> TryFrom<usize> for Hypercube<K> {
    type Error = morton_index::Error;
    fn try_from(n: usize) -> Result<Self, Self::Error> {
        if n < 1 << K {
            Ok(Hypercube(n as u8))
        } else {
            Err(morton_index::Error::CellIndexOutOfRange)
        }
    }
}
impl<const K: usize> From<Hypercube<K>> for usize {
    fn from(c: Hypercube<K>) -> usize {
        c.0 as usize
    }
}

/// Bits and a depth, with a layout of the crate's
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Kept<B, T: Layout<B>> {
    bits: B,
    depth: usize,
    layout: std::marker::PhantomData<T>,
}

/// A layout of the crate's and the integers or bytes it is meant for
trait Layout<B>: StorageType + std::fmt::Debug + Ord + std::hash::Hash + Clone {
    const VARIABLE: bool;
    const LIMIT: Option<usize>;
    fn room(depth: usize) -> B;
}
macro_rules! layout {
    ($w:ident, $inner:ident, $variable:literal) => {
        /// The crate's layout, which derives nothing, with what a member of a storage needs
        #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
        struct $w<const K: usize, B>(std::marker::PhantomData<B>);
        impl<const K: usize, B: morton_index::FixedStorageType> StorageType for $w<K, B> {
            type Dimension = Dim<K>;
            const MAX_LEVELS: usize = <$inner<Dim<K>, B> as StorageType>::MAX_LEVELS;
            const DIMENSIONALITY: usize = <$inner<Dim<K>, B> as StorageType>::DIMENSIONALITY;
            fn max_depth() -> Option<usize> {
                <$inner<Dim<K>, B> as StorageType>::max_depth()
            }
            unsafe fn get_cell_at_level_unchecked<T: Bits>(bits: &T, level: usize) -> Hypercube<K> {
                <$inner<Dim<K>, B> as StorageType>::get_cell_at_level_unchecked(bits, level)
            }
            unsafe fn set_cell_at_level_unchecked<T: Bits>(bits: &mut T, level: usize, cell: Hypercube<K>) {
                <$inner<Dim<K>, B> as StorageType>::set_cell_at_level_unchecked(bits, level, cell)
            }
        }
        impl<const K: usize, B: morton_index::FixedStorageType> Layout<B> for $w<K, B> {
            const VARIABLE: bool = $variable;
            const LIMIT: Option<usize> = Some(B::BITS / K);
            fn room(_: usize) -> B {
                B::default()
            }
        }
    };
}
layout!(Fixed, FixedDepthStorage, false);
layout!(Limited, StaticStorage, true);

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Unlimited<const K: usize>;
impl<const K: usize> StorageType for Unlimited<K> {
    type Dimension = Dim<K>;
    const MAX_LEVELS: usize = <DynamicStorage<Dim<K>> as StorageType>::MAX_LEVELS;
    const DIMENSIONALITY: usize = <DynamicStorage<Dim<K>> as StorageType>::DIMENSIONALITY;
    fn max_depth() -> Option<usize> {
        <DynamicStorage<Dim<K>> as StorageType>::max_depth()
    }
    unsafe fn get_cell_at_level_unchecked<T: Bits>(bits: &T, level: usize) -> Hypercube<K> {
        <DynamicStorage<Dim<K>> as StorageType>::get_cell_at_level_unchecked(bits, level)
    }
    unsafe fn set_cell_at_level_unchecked<T: Bits>(bits: &mut T, level: usize, cell: Hypercube<K>) {
        <DynamicStorage<Dim<K>> as StorageType>::set_cell_at_level_unchecked(bits, level, cell)
    }
}
impl<const K: usize> Layout<Vec<u8>> for Unlimited<K> {
    const VARIABLE: bool = true;
    const LIMIT: Option<usize> = None;
    fn room(depth: usize) -> Vec<u8> {
        vec![0; (K * depth + 7) / 8]
    }
}

impl<B: Bits + Clone + Ord + std::hash::Hash + std::fmt::Debug, T: Layout<B>> Default for Kept<B, T> {
    fn default() -> Self {
        let depth = if T::VARIABLE { 0 } else { T::LIMIT.expect("limit") };
        Self::zeros(depth)
    }
}
impl<B, T: Layout<B>> Kept<B, T> {
    fn zeros(depth: usize) -> Self {
        Kept { bits: T::room(depth), depth, layout: std::marker::PhantomData }
    }
}
impl<const K: usize, B, T> Storage<Dim<K>> for Kept<B, T>
where
    B: Bits + Clone + Ord + std::hash::Hash + std::fmt::Debug,
    T: Layout<B, Dimension = Dim<K>>,
{
    type StorageType = T;
    type Bits = B;
    fn bits(&self) -> &B {
        &self.bits
    }
    fn bits_mut(&mut self) -> &mut B {
        &mut self.bits
    }
    fn depth(&self) -> usize {
        self.depth
    }
}

/// An index of the user's, which leaves to the traits what they offer to do
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Node<const K: usize, B, T: Layout<B>>(Kept<B, T>);

impl<const K: usize, B, T> MortonIndex for Node<K, B, T>
where
    B: Bits + Clone + Ord + std::hash::Hash + std::fmt::Debug,
    T: Layout<B, Dimension = Dim<K>>,
{
    type Dimension = Dim<K>;
    fn get_cell_at_level(&self, level: usize) -> Hypercube<K> {
        assert!(level < self.0.depth);
        unsafe { Storage::<Dim<K>>::get_cell_at_level_unchecked(&self.0, level) }
    }
    unsafe fn get_cell_at_level_unchecked(&self, level: usize) -> Hypercube<K> {
        Storage::<Dim<K>>::get_cell_at_level_unchecked(&self.0, level)
    }
    fn set_cell_at_level(&mut self, level: usize, c: Hypercube<K>) {
        assert!(level < self.0.depth);
        unsafe { Storage::<Dim<K>>::set_cell_at_level_unchecked(&mut self.0, level, c) }
    }
    unsafe fn set_cell_at_level_unchecked(&mut self, level: usize, c: Hypercube<K>) {
        Storage::<Dim<K>>::set_cell_at_level_unchecked(&mut self.0, level, c)
    }
    fn depth(&self) -> usize {
        self.0.depth
    }
    fn to_string(&self, naming: MortonIndexNaming) -> String {
        let name: Vec<_> = (0..self.0.depth).map(|l| self.get_cell_at_level(l).0.to_string()).collect();
        match naming {
            MortonIndexNaming::CellConcatenation => name.join("."),
            MortonIndexNaming::CellConcatenationWithRoot => format!("r{}", name.join(".")),
            MortonIndexNaming::GridIndex => format!("{}", self.0.depth),
        }
    }
    fn to_grid_index(&self, _: Axes) -> Vec<usize> {
        (0..K)
            .map(|axis| (0..self.0.depth).fold(0usize, |g, l| g << 1 | (self.get_cell_at_level(l).0 as usize >> axis & 1)))
            .collect()
    }
}
impl<const K: usize, B, T> VariableDepthMortonIndex for Node<K, B, T>
where
    B: Bits + Clone + Ord + std::hash::Hash + std::fmt::Debug,
    T: Layout<B, Dimension = Dim<K>>,
{
    fn ancestor(&self, generations: NonZeroUsize) -> Option<Self> {
        // whoever asks has made sure of it; the traits' methods may not make up a zero
        assert!(generations.get() > 0, "{}zero generations", crate::engine::MISUSE);
        let depth = self.0.depth.checked_sub(generations.get())?;
        Some(Self::of((0..depth).map(|l| self.get_cell_at_level(l))))
    }
    fn descendant(&self, more: &[Hypercube<K>]) -> Option<Self> {
        if T::LIMIT.map_or(false, |n| self.0.depth + more.len() > n) {
            return None;
        }
        Some(Self::of((0..self.0.depth).map(|l| self.get_cell_at_level(l)).chain(more.iter().copied())))
    }
}
impl<const K: usize, B, T> Node<K, B, T>
where
    B: Bits + Clone + Ord + std::hash::Hash + std::fmt::Debug,
    T: Layout<B, Dimension = Dim<K>>,
{
    fn of(c: impl Iterator<Item = Hypercube<K>>) -> Self {
        let c: Vec<_> = c.collect();
        let mut ret = Node(Kept::zeros(if T::VARIABLE { c.len() } else { T::LIMIT.expect("limit") }));
        for (l, c) in c.into_iter().enumerate() {
            unsafe { Storage::<Dim<K>>::set_cell_at_level_unchecked(&mut ret.0, l, c) };
        }
        ret
    }
}

#[derive(Debug, PartialEq, Eq)]
pub struct Said {
    max_levels: usize,
    max_depth: [Option<usize>; 2],
    dimensionality: usize,
}

/// A node of any dimension and layout
trait Any {
    fn said(&self) -> Said;
    fn numbers(&self) -> Vec<u8>;
    fn depth(&self) -> usize;
    fn get(&self, level: usize) -> u8;
    fn set(&mut self, level: usize, c: u8);
    fn dup(&self) -> Box<dyn Any>;
    fn inverted(&self) -> Box<dyn Any>;
    fn parent(&self) -> Option<Box<dyn Any>>;
    fn with_depth(&self, depth: usize) -> Option<Box<dyn Any>>;
    fn ancestor(&self, generations: usize) -> Option<Box<dyn Any>>;
    fn child(&self, c: u8) -> Option<Box<dyn Any>>;
    /// as a slice of copies, displayed
    fn shown(&self, n: usize, naming: MortonIndexNaming) -> [String; 3];
    /// whether one made from the same cells anew is the same, bit by bit
    fn like_new(&self) -> bool;
}

impl<const K: usize, B, T> Any for Node<K, B, T>
where
    B: Bits + Clone + Ord + std::hash::Hash + std::fmt::Debug + 'static,
    T: Layout<B, Dimension = Dim<K>> + 'static,
{
    fn said(&self) -> Said {
        Said {
            max_levels: T::MAX_LEVELS,
            max_depth: [T::max_depth(), <Kept<B, T> as Storage<Dim<K>>>::max_depth()],
            dimensionality: T::DIMENSIONALITY,
        }
    }
    fn numbers(&self) -> Vec<u8> {
        (0..self.0.depth).map(|l| self.get_cell_at_level(l).0).collect()
    }
    fn depth(&self) -> usize {
        self.0.depth
    }
    fn get(&self, level: usize) -> u8 {
        self.get_cell_at_level(level).0
    }
    fn set(&mut self, level: usize, c: u8) {
        self.set_cell_at_level(level, Hypercube(c))
    }
    fn dup(&self) -> Box<dyn Any> {
        Box::new(self.clone())
    }
    fn inverted(&self) -> Box<dyn Any> {
        Box::new(MortonIndex::inverted(self))
    }
    fn parent(&self) -> Option<Box<dyn Any>> {
        VariableDepthMortonIndex::parent(self).map(|v| Box::new(v) as Box<dyn Any>)
    }
    fn with_depth(&self, depth: usize) -> Option<Box<dyn Any>> {
        VariableDepthMortonIndex::with_depth(self, depth).map(|v| Box::new(v) as Box<dyn Any>)
    }
    fn ancestor(&self, generations: usize) -> Option<Box<dyn Any>> {
        VariableDepthMortonIndex::ancestor(self, NonZeroUsize::new(generations)?).map(|v| Box::new(v) as Box<dyn Any>)
    }
    fn child(&self, c: u8) -> Option<Box<dyn Any>> {
        VariableDepthMortonIndex::child(self, Hypercube(c)).map(|v| Box::new(v) as Box<dyn Any>)
    }
    fn shown(&self, n: usize, naming: MortonIndexNaming) -> [String; 3] {
        let v = vec![self.clone(); n];
        let d = make_displayable(&v, naming);
        [format!("{}", d), format!("{:?}", d), MortonIndex::to_string(self, naming)]
    }
    fn like_new(&self) -> bool {
        let new = Self::of((0..self.0.depth).map(|l| self.get_cell_at_level(l)));
        new == *self && new.cmp(self) == std::cmp::Ordering::Equal
    }
}

pub struct Kind {
    name: &'static str,
    k: usize,
    limit: Option<usize>,
    variable: bool,
    make: fn(&[u8]) -> Box<dyn Any>,
}

fn make<const K: usize, B, T>(c: &[u8]) -> Box<dyn Any>
where
    B: Bits + Clone + Ord + std::hash::Hash + std::fmt::Debug + 'static,
    T: Layout<B, Dimension = Dim<K>> + 'static,
{
    Box::new(Node::<K, B, T>::of(c.iter().map(|c| Hypercube(*c))))
}

macro_rules! kinds {
    ($($k:literal)*) => { &[$(
        kinds!(@ $k, Fixed, false, u8 u16 u32 u64 u128 usize U40),
        kinds!(@ $k, Limited, true, u8 u16 u32 u64 u128 usize U40),
        &[Kind { name: concat!(stringify!($k), "D dynamic"), k: $k, limit: None, variable: true, make: make::<$k, Vec<u8>, Unlimited<$k>> }],
    )*] };
    (@ $k:literal, $l:ident, $v:literal, $($b:ty)*) => {
        &[$(Kind { name: concat!(stringify!($k), "D ", stringify!($l), "<", stringify!($b), ">"), k: $k, limit: Some(<$b as Bits>::BITS / $k), variable: $v, make: make::<$k, $b, $l<$k, $b>> }),*]
    };
}
static KINDS: &[&[Kind]] = kinds!(1 2 3 4 5 6 7 8);

fn shows(k: &Kind, v: &dyn Any, m: &[u8], what: &str) -> R {
    ensure!(v.depth() == m.len(), "{}: {} has depth {}, expected {}", k.name, what, v.depth(), m.len());
    let n = v.numbers();
    ensure!(n == m, "{}: {} has the cells {:?}, expected {:?}", k.name, what, n, m);
    Ok(())
}
fn made(k: &Kind, v: Option<Box<dyn Any>>, m: Option<&[u8]>, what: &str) -> R {
    match (v, m) {
        (Some(v), Some(m)) => shows(k, v.as_ref(), m, what),
        (None, None) => Ok(()),
        (v, _) => Err(Stop::Fail(format!("{}: {} is {}, expected the opposite", k.name, what, if v.is_some() { "an index" } else { "none" }))),
    }
}

pub fn c27(src: &mut Src) -> R {
    if src.small() {
        return Err(Stop::Discard("not enumerated"));
    }
    // dynamic ones are one in fifteen
    let group = src.below(8);
    let row = src.weighted(&[7, 7, 4]);
    let row = KINDS[3 * group + row];
    let k = &row[src.below(row.len())];
    src.label(k.name);
    let full = |m: &mut Vec<u8>| {
        if !k.variable {
            m.resize(k.limit.expect("limit"), 0);
        }
    };
    let depth = match k.limit {
        Some(n) => upto_cap(src, n),
        None if src.chance(1, 500) => deep_depth(src, 3),
        None => dyn_depth(src, 2).min(300),
    };
    let mut m = cells(src, k.k, depth);
    let mut v = (k.make)(&m);
    full(&mut m);
    src.note(|| format!("{} of {} cells {:?}", k.name, m.len(), &m[..m.len().min(200)]));
    shows(k, v.as_ref(), &m, "a new index")?;
    let expected = Said { max_levels: k.limit.unwrap_or(0), max_depth: [k.limit; 2], dimensionality: k.k };
    ensure!(v.said() == expected, "{}: limits are {:?}, expected {:?}", k.name, v.said(), expected);
    let steps = 1 + src.below(8);
    let mut writes = 0;
    for _ in 0..steps {
        match src.below(8) {
            0..=3 => {
                if m.is_empty() {
                    continue;
                }
                // next to the last one written, more often
                let l = src.below(m.len());
                let c = src.upto((1 << k.k) - 1) as u8;
                src.note(|| format!("set level {} to {}", l, c));
                writes += (m[l] != c) as usize;
                v.set(l, c);
                m[l] = c;
                ensure!(v.get(l) == c, "{}: level {} is {}, just set to {}", k.name, l, v.get(l), c);
                shows(k, v.as_ref(), &m, "after a write, it")?;
            }
            4 => {
                src.note(|| "inverted".into());
                let w = v.inverted();
                let mut r = m.clone();
                r.reverse();
                shows(k, w.as_ref(), &r, "the inverted index")?;
                shows(k, v.as_ref(), &m, "after inverting, it")?;
                let back = w.inverted();
                shows(k, back.as_ref(), &m, "the index inverted twice")?;
            }
            5 if k.variable => {
                src.note(|| "parent".into());
                made(k, v.parent(), if m.is_empty() { None } else { Some(&m[..m.len() - 1]) }, "the parent")?;
                let c = src.upto((1 << k.k) - 1) as u8;
                let mut deeper = m.clone();
                deeper.push(c);
                let fits = k.limit.map_or(true, |n| deeper.len() <= n);
                made(k, v.child(c), if fits { Some(&deeper) } else { None }, "the child")?;
            }
            6 if k.variable => {
                let d = if src.chance(1, 4) { m.len() + src.below(3) } else { src.below(m.len() + 1) };
                src.note(|| format!("with_depth {}", d));
                let w = match catch(|| v.with_depth(d)) {
                    Ok(w) => w,
                    Err(p) => return Err(Stop::Fail(format!("{}: with_depth({}) of {} levels panics: {}", k.name, d, m.len(), p.msg))),
                };
                let keep = w.as_ref().map_or(false, |w| w.depth() == d);
                made(k, w, m.get(..d), "the index with another depth")?;
                if keep && src.chance(1, 2) {
                    v = v.with_depth(d).expect("as before");
                    m.truncate(d);
                }
                let g = 1 + src.below(m.len() + 2);
                made(k, v.ancestor(g), m.len().checked_sub(g).map(|d| &m[..d]), "the ancestor")?;
            }
            _ => {
                let n = src.below(4);
                let naming = [MortonIndexNaming::CellConcatenation, MortonIndexNaming::CellConcatenationWithRoot, MortonIndexNaming::GridIndex][src.below(3)];
                let [a, b, one] = v.dup().shown(n, naming);
                let want = format!("[{}]", vec![one; n].join(", "));
                ensure!(a == want && b == want, "{}: a slice is displayed as {} and {}, expected {}", k.name, a, b, want);
            }
        }
    }
    // the bits of levels which do not exist have not been touched: the user's derived equality and order hold
    ensure!(v.like_new(), "{}: an index is not equal to a new one of the same cells {:?}", k.name, m);
    src.label(if writes > 0 { "written" } else { "only read" });
    src.nontrivial = m.len() > 1 && m.iter().any(|c| *c != m[0]);
    Ok(())
}
