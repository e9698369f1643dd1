//! Storage of a user's own: unsigned integers of other widths, and storages that do not pack bits at all.

use crate::engine::{Src, Stop, R};

/// What `from_raw_index` takes
pub trait Raw {
    fn raw(r: u128) -> Self;
}
macro_rules! raw {
    ($($t:ty)*) => { $(impl Raw for $t { fn raw(r: u128) -> Self { r as $t } })* };
}
raw!(u8 u16 u32 u64 u128 usize);
/// Integers that the crate does not know
#[cfg(ints)]
mod ints {
    use super::Raw;
    use crate::engine::MISUSE;
    use morton_index::number::{Bits, Endianness};
    use std::cmp::Ordering;
    use std::ops::Range;

    /// An unsigned integer of N bytes in the platform's order; some have unused bytes at the end
    #[derive(Clone, Copy, PartialEq, Eq, Hash)]
    #[repr(align(4))]
    pub struct U<const N: usize>([u8; N]);

    impl<const N: usize> Default for U<N> {
        fn default() -> Self {
            U([0; N])
        }
    }
    impl<const N: usize> std::fmt::Debug for U<N> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{:#x}", self.value())
        }
    }
    impl<const N: usize> PartialOrd for U<N> {
        fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
            Some(self.cmp(o))
        }
    }
    impl<const N: usize> Ord for U<N> {
        fn cmp(&self, o: &Self) -> Ordering {
            self.value().cmp(&o.value())
        }
    }

    impl<const N: usize> U<N> {
        fn value(&self) -> u128 {
            (0..N).fold(0, |a, i| a | (self.0[Self::place(i)] as u128) << (8 * i))
        }
        /// cut off to the width, as `as` does
        fn of(v: u128) -> Self {
            U(std::array::from_fn(|i| (v >> (8 * Self::place(i))) as u8))
        }
        /// where the byte of a significance is, and the significance of the byte in a place
        fn place(i: usize) -> usize {
            if cfg!(target_endian = "big") {
                N - 1 - i
            } else {
                i
            }
        }
        fn mask(r: &Range<usize>) -> u128 {
            assert!(r.start <= r.end && r.end <= 8 * N, "{}bits {:?} of an integer of {} bits", MISUSE, r, 8 * N);
            if r.len() >= 128 {
                u128::MAX
            } else {
                (1 << r.len()) - 1
            }
        }
    }

    impl<const N: usize> Raw for U<N> {
        fn raw(r: u128) -> Self {
            U::of(r)
        }
    }

    impl<const N: usize> Bits for U<N> {
        const BITS: usize = 8 * N;

        unsafe fn get_bits(&self, r: Range<usize>) -> Self {
            let m = Self::mask(&r);
            U::of(self.value().checked_shr(r.start as u32).unwrap_or(0) & m)
        }
        unsafe fn get_bits_as_usize(&self, r: Range<usize>) -> usize {
            self.get_bits(r).value() as usize
        }
        unsafe fn set_bits(&mut self, r: Range<usize>, new: Self) {
            let m = Self::mask(&r);
            assert!(new.value() & !m == 0, "{}{:?} does not fit bits {:?}", MISUSE, new, r);
            if !r.is_empty() {
                *self = U::of(self.value() & !(m << r.start) | new.value() << r.start);
            }
        }
        unsafe fn set_bits_from_usize(&mut self, r: Range<usize>, new: usize) {
            self.set_bits(r, U::of(new as u128))
        }
        unsafe fn as_u8(self) -> u8 {
            self.value() as u8
        }
        unsafe fn as_u16(self) -> u16 {
            self.value() as u16
        }
        unsafe fn as_u32(self) -> u32 {
            self.value() as u32
        }
        unsafe fn as_u64(self) -> u64 {
            self.value() as u64
        }
        unsafe fn as_u128(self) -> u128 {
            self.value()
        }
        unsafe fn as_usize(self) -> usize {
            self.value() as usize
        }
        unsafe fn as_u8_slice(&self) -> &[u8] {
            &self.0
        }
        unsafe fn as_u8_slice_mut(&mut self) -> &mut [u8] {
            &mut self.0
        }
        unsafe fn from_u8(v: u8) -> Self {
            U::of(v as u128)
        }
        unsafe fn from_u16(v: u16) -> Self {
            U::of(v as u128)
        }
        unsafe fn from_u32(v: u32) -> Self {
            U::of(v as u128)
        }
        unsafe fn from_u64(v: u64) -> Self {
            U::of(v as u128)
        }
        unsafe fn from_u128(v: u128) -> Self {
            U::of(v)
        }
        unsafe fn from_usize(v: usize) -> Self {
            U::of(v as u128)
        }
        unsafe fn from_u8_slice(bytes: &[u8], e: Endianness) -> Self {
            let mut b = [0; N];
            let n = bytes.len().min(N);
            b[..n].copy_from_slice(&bytes[..n]);
            if (e == Endianness::BigEndian) != cfg!(target_endian = "big") {
                b.reverse();
            }
            U(b)
        }
        fn size(&self) -> usize {
            N
        }
    }
}
#[cfg(ints)]
pub use ints::U;

/// Storages with a layout of their own
#[cfg(storages)]
mod storages {
    use crate::engine::MISUSE;
    use morton_index::dimensions::{Dim2D, Dim3D, Dimension, Octant, Quadrant};
    use morton_index::number::Bits;
    use morton_index::{Storage, StorageType, VariableDepthStorage};
    use std::cmp::Ordering;
    use std::marker::PhantomData;
    use std::num::NonZeroUsize;
    use std::ops::Range;

    /// How a storage of the user's lays out its cells
    pub trait Shape: 'static {
        type Bits: Bits + Clone + Default;
        const LIMIT: Option<usize>;
        const FIXED: bool;
        /// Where a cell is depends on the depth, which only the storage knows, not the `StorageType`
        const LEAF_FIRST: bool = false;
        fn bits_of(level: usize, dim: usize) -> Range<usize>;
        fn room(levels: usize) -> Self::Bits;
    }

    /// A byte per cell, the first level first
    pub struct Loose;
    impl Shape for Loose {
        type Bits = Vec<u8>;
        const LIMIT: Option<usize> = None;
        const FIXED: bool = false;
        fn bits_of(level: usize, dim: usize) -> Range<usize> {
            8 * level + 2..8 * level + 2 + dim
        }
        fn room(levels: usize) -> Vec<u8> {
            vec![0; levels]
        }
    }
    /// Four bits per cell, the first level in the lowest bits
    pub struct Low;
    impl Shape for Low {
        type Bits = u64;
        const LIMIT: Option<usize> = Some(16);
        const FIXED: bool = false;
        fn bits_of(level: usize, dim: usize) -> Range<usize> {
            4 * level..4 * level + dim
        }
        fn room(_: usize) -> u64 {
            0
        }
    }
    /// Ten levels, neither more nor fewer
    pub struct Ten;
    impl Shape for Ten {
        type Bits = u32;
        const LIMIT: Option<usize> = Some(10);
        const FIXED: bool = true;
        fn bits_of(level: usize, dim: usize) -> Range<usize> {
            level * dim..(level + 1) * dim
        }
        fn room(_: usize) -> u32 {
            0
        }
    }

    /// Three bits per cell, the last level first, at most 42 levels
    pub struct Leaf;
    impl Shape for Leaf {
        type Bits = Vec<u8>;
        const LIMIT: Option<usize> = Some(42);
        const FIXED: bool = false;
        const LEAF_FIRST: bool = true;
        fn bits_of(level: usize, dim: usize) -> Range<usize> {
            3 * level..3 * level + dim
        }
        fn room(levels: usize) -> Vec<u8> {
            vec![0; (3 * levels + 7) / 8]
        }
    }

    pub struct Layout<D, S>(PhantomData<(D, S)>);

    impl<D: Dimension, S: Shape> StorageType for Layout<D, S> {
        type Dimension = D;
        const MAX_LEVELS: usize = match S::LIMIT {
            Some(n) => n,
            None => 0,
        };
        const DIMENSIONALITY: usize = D::DIMENSIONALITY;
        fn max_depth() -> Option<usize> {
            S::LIMIT
        }
        unsafe fn get_cell_at_level_unchecked<T: Bits>(bits: &T, level: usize) -> D::Cell {
            assert!(!S::LEAF_FIRST, "{}only the storage knows where its cells are", MISUSE);
            D::Cell::try_from(bits.get_bits_as_usize(S::bits_of(level, D::DIMENSIONALITY))).expect("a cell")
        }
        unsafe fn set_cell_at_level_unchecked<T: Bits>(bits: &mut T, level: usize, cell: D::Cell) {
            assert!(!S::LEAF_FIRST, "{}only the storage knows where its cells are", MISUSE);
            bits.set_bits_from_usize(S::bits_of(level, D::DIMENSIONALITY), cell.into())
        }
    }

    pub struct Own<D, S: Shape> {
        bits: S::Bits,
        depth: usize,
        _p: PhantomData<D>,
    }

    impl<D: Dimension, S: Shape> Own<D, S> {
        fn zeros(depth: usize) -> Self {
            Own { bits: S::room(depth), depth, _p: PhantomData }
        }
        fn numbers(&self) -> Vec<usize> {
            (0..self.depth).map(|l| unsafe { self.get_cell_at_level_unchecked(l) }.into()).collect()
        }
        fn of(cells: impl Iterator<Item = D::Cell> + ExactSizeIterator) -> Result<Self, morton_index::Error> {
            if let Some(n) = S::LIMIT.filter(|n| cells.len() > *n) {
                return Err(morton_index::Error::DepthLimitedExceeded { max_depth: n });
            }
            let mut ret = Self::zeros(if S::FIXED { S::LIMIT.expect("limit") } else { cells.len() });
            for (l, c) in cells.enumerate() {
                unsafe { ret.set_cell_at_level_unchecked(l, c) };
            }
            Ok(ret)
        }
    }

    impl<D: Dimension, S: Shape> Storage<D> for Own<D, S> {
        type StorageType = Layout<D, S>;
        type Bits = S::Bits;
        fn bits(&self) -> &S::Bits {
            &self.bits
        }
        fn bits_mut(&mut self) -> &mut S::Bits {
            &mut self.bits
        }
        fn depth(&self) -> usize {
            self.depth
        }
        unsafe fn get_cell_at_level_unchecked(&self, level: usize) -> D::Cell {
            assert!(level < self.depth, "{}level {} of {}", MISUSE, level, self.depth);
            if S::LEAF_FIRST {
                cell::<D>(self.bits.get_bits_as_usize(S::bits_of(self.depth - 1 - level, D::DIMENSIONALITY)))
            } else {
                Layout::<D, S>::get_cell_at_level_unchecked(&self.bits, level)
            }
        }
        unsafe fn set_cell_at_level_unchecked(&mut self, level: usize, cell: D::Cell) {
            assert!(level < self.depth, "{}level {} of {}", MISUSE, level, self.depth);
            if S::LEAF_FIRST {
                self.bits.set_bits_from_usize(S::bits_of(self.depth - 1 - level, D::DIMENSIONALITY), cell.into())
            } else {
                Layout::<D, S>::set_cell_at_level_unchecked(&mut self.bits, level, cell)
            }
        }
    }

    fn cell<D: Dimension>(n: usize) -> D::Cell {
        D::Cell::try_from(n).expect("a cell")
    }

    impl<D: Dimension, S: Shape> VariableDepthStorage<D> for Own<D, S>
    where
        D::Cell: Copy,
    {
        fn ancestor(&self, generations: NonZeroUsize) -> Option<Self> {
            let depth = self.depth.checked_sub(generations.get())?;
            let cells = self.numbers();
            Self::of(cells[..depth].iter().map(|n| cell::<D>(*n))).ok()
        }
        fn descendant(&self, cells: &[D::Cell]) -> Option<Self> {
            if S::LIMIT.map_or(false, |n| self.depth + cells.len() > n) {
                return None;
            }
            let mut ret = Self::zeros(self.depth + cells.len());
            for (l, n) in self.numbers().into_iter().enumerate() {
                unsafe { ret.set_cell_at_level_unchecked(l, cell::<D>(n)) };
            }
            for (l, c) in cells.iter().enumerate() {
                unsafe { ret.set_cell_at_level_unchecked(self.depth + l, *c) };
            }
            Some(ret)
        }
    }

    impl<D: Dimension, S: Shape> Default for Own<D, S> {
        fn default() -> Self {
            Self::zeros(if S::FIXED { S::LIMIT.expect("limit") } else { 0 })
        }
    }
    impl<D: Dimension, S: Shape> Clone for Own<D, S> {
        fn clone(&self) -> Self {
            Own { bits: self.bits.clone(), depth: self.depth, _p: PhantomData }
        }
    }
    impl<D: Dimension, S: Shape> std::fmt::Debug for Own<D, S> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{:?}", self.numbers())
        }
    }
    impl<D: Dimension, S: Shape> PartialEq for Own<D, S> {
        fn eq(&self, o: &Self) -> bool {
            self.numbers() == o.numbers()
        }
    }
    impl<D: Dimension, S: Shape> Eq for Own<D, S> {}
    impl<D: Dimension, S: Shape> PartialOrd for Own<D, S> {
        fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
            Some(self.cmp(o))
        }
    }
    impl<D: Dimension, S: Shape> Ord for Own<D, S> {
        fn cmp(&self, o: &Self) -> Ordering {
            self.numbers().cmp(&o.numbers())
        }
    }
    impl<D: Dimension, S: Shape> std::hash::Hash for Own<D, S> {
        fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
            self.numbers().hash(h)
        }
    }
    impl<'a, D: Dimension, S: Shape> TryFrom<&'a [D::Cell]> for Own<D, S>
    where
        D::Cell: Copy,
    {
        type Error = morton_index::Error;
        fn try_from(c: &'a [D::Cell]) -> Result<Self, Self::Error> {
            Self::of(c.iter().copied())
        }
    }
    macro_rules! arrays {
        ($d:ty, $c:ty) => {
            impl<S: Shape, const N: usize> TryFrom<[$c; N]> for Own<$d, S> {
                type Error = morton_index::Error;
                fn try_from(c: [$c; N]) -> Result<Self, Self::Error> {
                    Self::of(c.into_iter())
                }
            }
        };
    }
    arrays!(Dim2D, Quadrant);
    arrays!(Dim3D, Octant);
    impl<D: Dimension, S: Shape> IntoIterator for &Own<D, S> {
        type Item = D::Cell;
        type IntoIter = std::vec::IntoIter<D::Cell>;
        fn into_iter(self) -> Self::IntoIter {
            self.numbers().into_iter().map(cell::<D>).collect::<Vec<_>>().into_iter()
        }
    }
}
#[cfg(storages)]
pub use storages::{Leaf, Loose, Low, Own, Ten};

/// A case of one of the other properties over integers of other widths, or over storages of other kinds
pub fn c26(src: &mut Src) -> R {
    if src.small() {
        return Err(Stop::Discard("not enumerated"));
    }
    let (ints, storages) = (cfg!(ints), cfg!(storages));
    let own = storages && (src.chance(1, 4) || !ints);
    if !ints && !storages {
        return Err(Stop::Discard("neither integers nor storages of our own fit the traits"));
    }
    let props = crate::PROPS;
    let w: Vec<usize> = props
        .iter()
        .map(|p| match p.id {
            "C04" => 1,
            "C01" | "C02" | "C03" | "C07" | "C10" | "C11" | "C20" if own => 4,
            _ if own => 0,
            "C16" => 1,
            "C05" | "C06" | "C08" | "C09" | "C17" | "C18" => 6,
            "C01" | "C02" | "C03" | "C07" | "C10" | "C11" | "C20" => 4,
            _ => 0,
        })
        .collect();
    let i = src.weighted(&w);
    src.custom = 1 + own as u8;
    let r = (props[i].f)(src);
    src.custom = 0;
    src.label(if own { "storage of our own" } else { "bits of our own" });
    src.label(props[i].id);
    match r {
        Err(Stop::Fail(m)) => Err(Stop::Fail(format!("({} over a storage of the user's) {}", props[i].id, m))),
        r => r,
    }
}
