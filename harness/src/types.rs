//! Type erasure: every concrete Morton index type of the crate behind one object-safe trait, with cells as plain numbers, so that the
//! properties are written once. Conversions between numbers and the crate's cell enums use tables of our own, not the crate's.

#[cfg(storages)]
use crate::custom::{Leaf, Loose, Low, Own, Ten};
use crate::custom::Raw;
#[cfg(ints)]
use crate::custom::U;
use crate::mem::{Plan, Reading, Readings};
use morton_index::dimensions::{Dim2D, Dim3D, Dimension, Octant, OctantOrdering, Quadrant, QuadrantOrdering};
use morton_index::nalgebra::{Vector2, Vector3};
use morton_index::*;
use std::any::Any;
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};
use std::hash::Hasher;
use std::num::NonZeroUsize;
use std::result::Result;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Flavour {
    Fixed,
    Static,
    Dynamic,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Refused {
    Depth(usize, String),
    Other(String),
}

impl From<morton_index::Error> for Refused {
    fn from(e: morton_index::Error) -> Self {
        let text = e.to_string();
        match e {
            morton_index::Error::DepthLimitedExceeded { max_depth } => Refused::Depth(max_depth, text),
            _ => Refused::Other(text),
        }
    }
}
impl From<std::convert::Infallible> for Refused {
    fn from(e: std::convert::Infallible) -> Self {
        match e {}
    }
}

pub type V = Box<dyn Val>;

pub struct Announced {
    pub max_depth: Option<usize>,
    pub max_levels: usize,
    pub storage_type_max_depth: Option<usize>,
    pub dimensionality: [usize; 2],
    pub inherent_max: Option<usize>,
    pub inherent_mask: Option<usize>,
}

/// What the storage type (not the index) built from the same cells shows
pub struct StorageProbe {
    pub depth: usize,
    pub iter: Vec<u8>,
    pub unchecked: Vec<u8>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct IterProbe {
    pub all: Vec<u8>,
    pub after_end: Vec<bool>,
    pub count: usize,
    pub last: Option<u8>,
    pub nth: Option<u8>,
    pub after_nth: Vec<u8>,
    pub step: Vec<u8>,
    pub interleaved: bool,
    pub hint_ok: bool,
}

pub struct Many {
    pub sorted: Vec<Vec<u8>>,
    pub sorted_unstable: Vec<Vec<u8>>,
    pub btree: Vec<Vec<u8>>,
    pub hashset: usize,
    pub max: Option<Vec<u8>>,
    pub min: Option<Vec<u8>>,
    pub is_sorted_search_ok: bool,
}

pub struct SliceProbe {
    pub display: String,
    /// written to something with little room: whether it was reported as done, and what arrived
    pub cramped: [(bool, String); 2],
    pub debug: String,
}

pub struct SliceCmp {
    pub wrapped_eq: bool,
    pub wrapped_ne: bool,
    pub wrapped_cmp: Ordering,
    pub wrapped_partial: Option<Ordering>,
    pub wrapped_lt_le_gt_ge: [bool; 4],
    pub slice_eq: bool,
    pub slice_cmp: Ordering,
}

pub struct Ty {
    pub id: usize,
    pub name: &'static str,
    pub dim: usize,
    pub flavour: Flavour,
    /// storage width in bits, 0 for dynamic
    pub bits: usize,
    /// whether its values may be sent to and shared with other threads
    pub shareable: bool,
    pub from_slice: fn(&[u8]) -> Result<V, Refused>,
    pub from_array: fn(&[u8]) -> Option<Result<V, Refused>>,
    pub default: fn() -> V,
    /// outer None: the type has no such constructor, or the argument does not fit its parameter
    pub zeroed: fn(usize) -> Option<Option<V>>,
    pub from_grid: fn([usize; 3], usize, u8) -> Result<V, Refused>,
    pub from_grid_fast: fn([usize; 3], u8) -> Option<V>,
    pub from_raw: fn(u128, usize) -> Option<V>,
    pub announced: fn() -> Announced,
    pub storage_probe: fn(&[u8]) -> Result<StorageProbe, Refused>,
    pub many: fn(&[V]) -> Many,
    pub display: fn(&[V], u8, usize) -> SliceProbe,
    pub slice_cmp: fn(&[V], &[V], u8, u8) -> SliceCmp,
    /// bytes of a value, and of the alignment that its bits need
    pub size: usize,
    pub align_of_bits: usize,
    /// the second argument: whether the grid depth is one that the type has
    pub costs: fn(&Plan, bool) -> Vec<Reading>,
    pub tree: fn(&[crate::tree::Op]) -> Vec<crate::tree::Entry>,
}

impl Ty {
    /// What the capacity has to be, computed independently of the crate
    pub fn max(&self) -> Option<usize> {
        if self.flavour == Flavour::Dynamic {
            None
        } else {
            Some(self.bits / self.dim)
        }
    }
    pub fn cap(&self) -> usize {
        self.max().unwrap_or(usize::MAX)
    }
    /// Whether `from_grid_index` is defined for this depth: a grid deeper than the word size is refused
    /// by fixed-depth indices, dynamic ones go up to half a word (both documented panics)
    pub fn grids(&self, depth: usize) -> bool {
        match self.flavour {
            Flavour::Fixed => self.cap() <= usize::BITS as usize,
            Flavour::Static => true,
            Flavour::Dynamic => depth <= usize::BITS as usize / 2,
        }
    }
    pub fn variable(&self) -> bool {
        self.flavour != Flavour::Fixed
    }
    pub fn cells(&self) -> u8 {
        1 << self.dim
    }
    pub fn has_raw(&self) -> bool {
        self.dim == 3 && self.flavour != Flavour::Dynamic
    }
    /// 0: shipped with the crate, 1: over integers of our own, 2: over storages of our own
    pub fn custom(&self) -> u8 {
        (self.id >= SHIPPED) as u8 + (self.id >= SHIPPED + 16) as u8
    }
    pub fn fixed_twin(&self) -> &'static Ty {
        if self.custom() > 0 {
            &TYS[self.id - (self.id - SHIPPED) % 2]
        } else {
            &TYS[self.id - self.id % 13 + self.id % 13 % 6]
        }
    }
    pub fn static_twin(&self) -> &'static Ty {
        if self.custom() > 0 {
            &TYS[self.id - (self.id - SHIPPED) % 2 + 1]
        } else {
            &TYS[self.id - self.id % 13 + 6 + self.id % 13 % 6]
        }
    }
    pub fn dynamic_twin(&self) -> &'static Ty {
        &TYS[13 * self.dim - 14]
    }
    /// all types that this type can be converted into
    pub fn targets(&self, custom: u8) -> Vec<&'static Ty> {
        if self.custom() == 2 {
            return vec![];
        }
        match self.flavour {
            Flavour::Fixed => vec![self.static_twin(), self.dynamic_twin()],
            Flavour::Static => vec![self.fixed_twin(), self.dynamic_twin()],
            Flavour::Dynamic => TYS.iter().filter(|t| t.dim == self.dim && t.flavour != Flavour::Dynamic && t.custom() == custom).collect(),
        }
    }
}

pub trait Val {
    fn ty(&self) -> &'static Ty;
    fn any(&self) -> &dyn Any;
    fn depth(&self) -> usize;
    fn get(&self, level: usize) -> u8;
    /// # Safety: level < depth
    unsafe fn get_un(&self, level: usize) -> u8;
    fn set(&mut self, level: usize, cell: u8);
    /// # Safety: level < depth
    unsafe fn set_un(&mut self, level: usize, cell: u8);
    fn iter(&self) -> Vec<u8>;
    fn iter_probe(&self, k: usize) -> IterProbe;
    fn dup(&self) -> V;
    fn copy(&self) -> Option<V>;
    fn clone_from_other(&mut self, o: &dyn Val);
    fn eq(&self, o: &dyn Val) -> bool;
    fn ne(&self, o: &dyn Val) -> bool;
    fn cmp(&self, o: &dyn Val) -> Ordering;
    fn pcmp(&self, o: &dyn Val) -> Option<Ordering>;
    fn ops(&self, o: &dyn Val) -> [bool; 4];
    fn hashes(&self) -> [u64; 2];
    fn ancestor(&self, g: usize) -> Option<V>;
    fn parent(&self) -> Option<V>;
    fn with_depth(&self, d: usize) -> Option<V>;
    fn descendant(&self, c: &[u8]) -> Option<V>;
    fn child(&self, c: u8) -> Option<V>;
    fn inverted(&self) -> V;
    fn to_grid(&self, ord: u8) -> [usize; 3];
    fn name(&self, naming: u8) -> String;
    fn convert(&self, to: &'static Ty) -> Option<Result<V, Refused>>;
    fn debug(&self) -> String;
}

pub trait DimX: Dimension + 'static {
    fn c(v: u8) -> Self::Cell;
    fn u(c: Self::Cell) -> u8;
    fn ord(o: u8) -> Self::CellOrdering;
    fn mk(g: [usize; 3]) -> Self::GridIndex;
    fn grid(g: Self::GridIndex) -> [usize; 3];
}

pub const QUADS: [Quadrant; 4] = [Quadrant::Zero, Quadrant::One, Quadrant::Two, Quadrant::Three];
pub const OCTS: [Octant; 8] = [
    Octant::Zero,
    Octant::One,
    Octant::Two,
    Octant::Three,
    Octant::Four,
    Octant::Five,
    Octant::Six,
    Octant::Seven,
];

pub fn quad_u(c: Quadrant) -> u8 {
    match c {
        Quadrant::Zero => 0,
        Quadrant::One => 1,
        Quadrant::Two => 2,
        Quadrant::Three => 3,
    }
}
pub fn oct_u(c: Octant) -> u8 {
    match c {
        Octant::Zero => 0,
        Octant::One => 1,
        Octant::Two => 2,
        Octant::Three => 3,
        Octant::Four => 4,
        Octant::Five => 5,
        Octant::Six => 6,
        Octant::Seven => 7,
    }
}
pub fn quad_ord(o: u8) -> QuadrantOrdering {
    match o {
        0 => QuadrantOrdering::XY,
        _ => QuadrantOrdering::YX,
    }
}
pub fn oct_ord(o: u8) -> OctantOrdering {
    match o {
        0 => OctantOrdering::XYZ,
        1 => OctantOrdering::XZY,
        2 => OctantOrdering::YXZ,
        3 => OctantOrdering::YZX,
        4 => OctantOrdering::ZXY,
        _ => OctantOrdering::ZYX,
    }
}

impl DimX for Dim2D {
    fn c(v: u8) -> Quadrant {
        QUADS[v as usize]
    }
    fn u(c: Quadrant) -> u8 {
        quad_u(c)
    }
    fn ord(o: u8) -> QuadrantOrdering {
        quad_ord(o)
    }
    fn mk(g: [usize; 3]) -> Vector2<usize> {
        Vector2::new(g[0], g[1])
    }
    fn grid(g: Vector2<usize>) -> [usize; 3] {
        [g.x, g.y, 0]
    }
}
impl DimX for Dim3D {
    fn c(v: u8) -> Octant {
        OCTS[v as usize]
    }
    fn u(c: Octant) -> u8 {
        oct_u(c)
    }
    fn ord(o: u8) -> OctantOrdering {
        oct_ord(o)
    }
    fn mk(g: [usize; 3]) -> Vector3<usize> {
        Vector3::new(g[0], g[1], g[2])
    }
    fn grid(g: Vector3<usize>) -> [usize; 3] {
        [g.x, g.y, g.z]
    }
}

pub fn naming(n: u8) -> MortonIndexNaming {
    match n {
        0 => MortonIndexNaming::CellConcatenation,
        1 => MortonIndexNaming::CellConcatenationWithRoot,
        _ => MortonIndexNaming::GridIndex,
    }
}

pub type Cell<T> = <<T as MortonIndex>::Dimension as Dimension>::Cell;
pub type Res<T> = std::result::Result<T, morton_index::Error>;

/// Concrete side of the erasure
pub trait Ix: MortonIndex<Dimension = Self::D> + Clone + Default + 'static {
    type D: DimX;
    type St: Storage<Self::D> + 'static;
    const ID: usize;
    fn x_slice(c: &[Cell<Self>]) -> Res<Self>;
    fn x_array(c: &[u8]) -> Option<Res<Self>>;
    fn x_zeroed(d: usize) -> Option<Option<Self>>;
    fn x_grid(g: <Self::D as Dimension>::GridIndex, d: usize, o: <Self::D as Dimension>::CellOrdering) -> Res<Self>;
    fn x_grid_fast(_g: <Self::D as Dimension>::GridIndex, _o: <Self::D as Dimension>::CellOrdering) -> Option<Self> {
        None
    }
    fn x_raw(_r: u128, _d: usize) -> Option<Self> {
        None
    }
    fn x_inherent_max() -> Option<usize> {
        None
    }
    fn x_inherent_mask() -> Option<usize> {
        None
    }
    fn x_storage(c: &[Cell<Self>]) -> Res<StorageProbe>;
    fn x_iter(&self) -> Vec<u8>;
    fn x_walk(&self) -> usize;
    fn x_iter_probe(&self, k: usize) -> IterProbe;
    fn x_copy(&self) -> Option<Self>;
    fn x_ancestor(&self, _g: NonZeroUsize) -> Option<Self> {
        None
    }
    fn x_parent(&self) -> Option<Self> {
        None
    }
    fn x_with_depth(&self, _d: usize) -> Option<Self> {
        None
    }
    fn x_descendant(&self, _c: &[Cell<Self>]) -> Option<Self> {
        None
    }
    fn x_child(&self, _c: Cell<Self>) -> Option<Self> {
        None
    }
    fn x_convert(&self, to: usize) -> Option<Result<V, Refused>>;
}

pub struct W<T>(pub T);

fn down<T: 'static>(v: &dyn Val) -> &T {
    &v.any().downcast_ref::<W<T>>().expect("same type").0
}
fn bx<T: Ix>(t: T) -> V {
    Box::new(W(t))
}

pub fn collect_capped<D: DimX>(it: impl Iterator<Item = D::Cell>, depth: usize) -> Vec<u8> {
    it.take(depth + 8).map(D::u).collect()
}

pub fn probe_iter<D: DimX, I: Iterator<Item = D::Cell>>(mk: impl Fn() -> I, depth: usize, k: usize) -> IterProbe {
    let cap = depth + 8;
    let mut it = mk();
    let mut all = Vec::new();
    let mut hint_ok = true;
    loop {
        let (lo, hi) = it.size_hint();
        let left = depth.saturating_sub(all.len());
        hint_ok &= lo <= left && hi.map_or(true, |h| h >= left);
        match it.next() {
            Some(c) if all.len() < cap => all.push(D::u(c)),
            _ => break,
        }
    }
    let runaway = all.len() > depth;
    let after_end = (0..3).map(|_| it.next().is_none()).collect();
    let mut it = mk();
    let nth = it.nth(k).map(D::u);
    let after_nth = if runaway { vec![] } else { it.take(cap).map(D::u).collect() };
    let (count, last) = if runaway { (cap, None) } else { (mk().count(), mk().last().map(D::u)) };
    let step = mk().step_by(k % 7 + 1).take(cap).map(D::u).collect();
    let (mut a, mut b) = (mk(), mk());
    let mut interleaved = true;
    for _ in 0..3.min(depth) {
        let x = a.next().map(D::u);
        let y = b.next().map(D::u);
        interleaved &= x == y;
    }
    IterProbe { all, after_end, count, last, nth, after_nth, step, interleaved, hint_ok }
}

#[derive(Default)]
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_add(1).wrapping_mul(0x100_0000_01b3);
        }
    }
}

impl<T: Ix> Val for W<T> {
    fn ty(&self) -> &'static Ty {
        &TYS[T::ID]
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn depth(&self) -> usize {
        MortonIndex::depth(&self.0)
    }
    fn get(&self, level: usize) -> u8 {
        T::D::u(self.0.get_cell_at_level(level))
    }
    unsafe fn get_un(&self, level: usize) -> u8 {
        T::D::u(self.0.get_cell_at_level_unchecked(level))
    }
    fn set(&mut self, level: usize, cell: u8) {
        self.0.set_cell_at_level(level, T::D::c(cell))
    }
    unsafe fn set_un(&mut self, level: usize, cell: u8) {
        self.0.set_cell_at_level_unchecked(level, T::D::c(cell))
    }
    fn iter(&self) -> Vec<u8> {
        self.0.x_iter()
    }
    fn iter_probe(&self, k: usize) -> IterProbe {
        self.0.x_iter_probe(k)
    }
    fn dup(&self) -> V {
        bx(self.0.clone())
    }
    fn copy(&self) -> Option<V> {
        self.0.x_copy().map(bx)
    }
    fn clone_from_other(&mut self, o: &dyn Val) {
        self.0.clone_from(down::<T>(o))
    }
    fn eq(&self, o: &dyn Val) -> bool {
        self.0 == *down::<T>(o)
    }
    fn ne(&self, o: &dyn Val) -> bool {
        self.0 != *down::<T>(o)
    }
    fn cmp(&self, o: &dyn Val) -> Ordering {
        Ord::cmp(&self.0, down::<T>(o))
    }
    fn pcmp(&self, o: &dyn Val) -> Option<Ordering> {
        PartialOrd::partial_cmp(&self.0, down::<T>(o))
    }
    fn ops(&self, o: &dyn Val) -> [bool; 4] {
        let b = down::<T>(o);
        [self.0 < *b, self.0 <= *b, self.0 > *b, self.0 >= *b]
    }
    fn hashes(&self) -> [u64; 2] {
        let mut a = std::collections::hash_map::DefaultHasher::new();
        self.0.hash(&mut a);
        let mut b = Fnv::default();
        self.0.hash(&mut b);
        [a.finish(), b.finish()]
    }
    fn ancestor(&self, g: usize) -> Option<V> {
        self.0.x_ancestor(NonZeroUsize::new(g).expect("generations > 0")).map(bx)
    }
    fn parent(&self) -> Option<V> {
        self.0.x_parent().map(bx)
    }
    fn with_depth(&self, d: usize) -> Option<V> {
        self.0.x_with_depth(d).map(bx)
    }
    fn descendant(&self, c: &[u8]) -> Option<V> {
        let c: Vec<_> = c.iter().map(|c| T::D::c(*c)).collect();
        self.0.x_descendant(&c).map(bx)
    }
    fn child(&self, c: u8) -> Option<V> {
        self.0.x_child(T::D::c(c)).map(bx)
    }
    fn inverted(&self) -> V {
        bx(MortonIndex::inverted(&self.0))
    }
    fn to_grid(&self, ord: u8) -> [usize; 3] {
        T::D::grid(self.0.to_grid_index(T::D::ord(ord)))
    }
    fn name(&self, n: u8) -> String {
        MortonIndex::to_string(&self.0, naming(n))
    }
    fn convert(&self, to: &'static Ty) -> Option<Result<V, Refused>> {
        self.0.x_convert(to.id)
    }
    fn debug(&self) -> String {
        format!("{:?}", self.0)
    }
}

pub fn cellv<T: Ix>(c: &[u8]) -> Vec<Cell<T>> {
    c.iter().map(|c| T::D::c(*c)).collect()
}
fn g_slice<T: Ix>(c: &[u8]) -> Result<V, Refused> {
    T::x_slice(&cellv::<T>(c)).map(bx).map_err(Into::into)
}
fn g_array<T: Ix>(c: &[u8]) -> Option<Result<V, Refused>> {
    T::x_array(c).map(|r| r.map(bx).map_err(Into::into))
}
fn g_default<T: Ix>() -> V {
    bx(T::default())
}
fn g_zeroed<T: Ix>(d: usize) -> Option<Option<V>> {
    T::x_zeroed(d).map(|r| r.map(bx))
}
fn g_grid<T: Ix>(g: [usize; 3], d: usize, o: u8) -> Result<V, Refused> {
    T::x_grid(T::D::mk(g), d, T::D::ord(o)).map(bx).map_err(Into::into)
}
fn g_grid_fast<T: Ix>(g: [usize; 3], o: u8) -> Option<V> {
    T::x_grid_fast(T::D::mk(g), T::D::ord(o)).map(bx)
}
fn g_raw<T: Ix>(r: u128, d: usize) -> Option<V> {
    T::x_raw(r, d).map(bx)
}
fn g_announced<T: Ix>() -> Announced {
    Announced {
        max_depth: <T::St as Storage<T::D>>::max_depth(),
        max_levels: <<T::St as Storage<T::D>>::StorageType as StorageType>::MAX_LEVELS,
        storage_type_max_depth: <<T::St as Storage<T::D>>::StorageType as StorageType>::max_depth(),
        dimensionality: [
            <<T::St as Storage<T::D>>::StorageType as StorageType>::DIMENSIONALITY,
            <T::D as Dimension>::DIMENSIONALITY,
        ],
        inherent_max: T::x_inherent_max(),
        inherent_mask: T::x_inherent_mask(),
    }
}
fn g_storage<T: Ix>(c: &[u8]) -> Result<StorageProbe, Refused> {
    T::x_storage(&cellv::<T>(c)).map_err(Into::into)
}
pub fn obs<T: Ix>(t: &T) -> Vec<u8> {
    (0..t.depth()).map(|l| T::D::u(t.get_cell_at_level(l))).collect()
}
fn own<T: Ix>(vs: &[V]) -> Vec<T> {
    vs.iter().map(|v| down::<T>(v.as_ref()).clone()).collect()
}
fn g_many<T: Ix>(vs: &[V]) -> Many {
    let v: Vec<T> = own(vs);
    let mut s = v.clone();
    s.sort();
    let mut su = v.clone();
    su.sort_unstable();
    let bt: BTreeSet<T> = v.iter().cloned().collect();
    let hs: HashSet<T> = v.iter().cloned().collect();
    let ok = v.iter().all(|x| s.binary_search(x).is_ok() && bt.contains(x) && hs.contains(x));
    Many {
        sorted: s.iter().map(obs).collect(),
        sorted_unstable: su.iter().map(obs).collect(),
        btree: bt.iter().map(obs).collect(),
        hashset: hs.len(),
        max: v.iter().max().map(obs),
        min: v.iter().cloned().reduce(|a, b| a.min(b)).map(|x| obs(&x)),
        is_sorted_search_ok: ok,
    }
}
/// A writer that has room for a number of bytes and refuses whatever does not fit; and all after that, if it is strict
struct Cramped {
    room: usize,
    strict: bool,
    full: bool,
    text: String,
}
impl std::fmt::Write for Cramped {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.full = self.strict && self.full || self.text.len() + s.len() > self.room;
        if self.full {
            return Err(std::fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}
fn cramped(room: usize, strict: bool, args: std::fmt::Arguments) -> (bool, String) {
    let mut w = Cramped { room, strict, full: false, text: String::new() };
    let done = std::fmt::Write::write_fmt(&mut w, args).is_ok();
    (done, w.text)
}

fn g_display<T: Ix>(vs: &[V], n: u8, room: usize) -> SliceProbe {
    let v: Vec<T> = own(vs);
    let d = helper::make_displayable(&v, naming(n));
    SliceProbe { display: format!("{}", d), debug: format!("{:?}", d), cramped: [cramped(room, false, format_args!("{}", d)), cramped(room, true, format_args!("{:?}", d))] }
}
fn g_slice_cmp<T: Ix>(a: &[V], b: &[V], na: u8, nb: u8) -> SliceCmp {
    let (a, b): (Vec<T>, Vec<T>) = (own(a), own(b));
    let (wa, wb) = (helper::make_displayable(&a, naming(na)), helper::make_displayable(&b, naming(nb)));
    SliceCmp {
        wrapped_eq: wa == wb,
        wrapped_ne: wa != wb,
        wrapped_cmp: wa.cmp(&wb),
        wrapped_partial: wa.partial_cmp(&wb),
        wrapped_lt_le_gt_ge: [wa < wb, wa <= wb, wa > wb, wa >= wb],
        slice_eq: a == b,
        slice_cmp: a.cmp(&b),
    }
}

fn g_costs<T: Ix>(p: &Plan, grids: bool) -> Vec<Reading> {
    let ty = &TYS[T::ID];
    let (cs, others, ext) = (cellv::<T>(&p.cells), cellv::<T>(&p.other), cellv::<T>(&p.ext));
    let order = || T::D::ord(p.ord);
    let depth = |t: &T| MortonIndex::depth(t);
    let mut o = Readings {
        list: Vec::with_capacity(64),
        dynamic: ty.flavour == Flavour::Dynamic,
        involved: p.cells.len() + p.other.len() + p.ext.len(),
        from: 0,
    };
    o.made("default()", depth, || Some(T::default()));
    o.made("zeroed(..)", depth, || T::x_zeroed(p.cells.len()).flatten());
    o.made("try_from(slice)", depth, || T::x_slice(&cs).ok());
    o.made("try_from(array)", depth, || T::x_array(&p.cells).and_then(|r| r.ok()));
    if grids {
        o.made("from_grid_index", depth, || T::x_grid(T::D::mk(p.grid), p.grid_depth, order()).ok());
        o.made("from_grid_index_fast", depth, || T::x_grid_fast(T::D::mk(p.grid), order()));
    }
    o.made("from_raw_index", depth, || T::x_raw(p.raw, p.cells.len()));
    let (Ok(mut v), Ok(w)) = (T::x_slice(&cs), T::x_slice(&others)) else {
        return o.list;
    };
    o.from = p.cells.len();
    if p.level < MortonIndex::depth(&v) {
        o.done("get_cell_at_level", true, || v.get_cell_at_level(p.level));
        o.done("set_cell_at_level", true, || v.set_cell_at_level(p.level, T::D::c(p.cells[p.level])));
        o.done("get_cell_at_level_unchecked", true, || unsafe { v.get_cell_at_level_unchecked(p.level) });
        o.done("set_cell_at_level_unchecked", true, || unsafe { v.set_cell_at_level_unchecked(p.level, T::D::c(p.cells[p.level])) });
    }
    o.done("iteration", true, || v.x_walk());
    o.done("==", false, || v == w);
    o.done("cmp", false, || Ord::cmp(&v, &w));
    o.done("<", false, || v < w);
    o.done("hash", false, || {
        let mut h = Fnv::default();
        v.hash(&mut h);
        h.finish()
    });
    o.made("clone", depth, || Some(v.clone()));
    o.made("copy", depth, || v.x_copy());
    o.made("inverted", depth, || Some(MortonIndex::inverted(&v)));
    if p.to_grid {
        o.done("to_grid_index", false, || v.to_grid_index(order()));
    }
    o.made("ancestor", depth, || v.x_ancestor(NonZeroUsize::new(p.up).expect("generations")));
    o.made("parent", depth, || v.x_parent());
    o.made("with_depth", depth, || v.x_with_depth(p.depth));
    o.made("descendant", depth, || v.x_descendant(&ext));
    if let Some(c) = p.cells.first() {
        o.made("child", depth, || v.x_child(T::D::c(*c)));
    }
    for to in ty.targets(0) {
        o.boxed("conversion", to, || v.x_convert(to.id).and_then(|r| r.ok()));
    }
    o.done("to_string", false, || MortonIndex::to_string(&v, naming(0)));
    if p.to_grid {
        o.done("to_string with grid", false, || MortonIndex::to_string(&v, naming(2)));
    }
    for r in o.list.iter_mut().filter(|r| r.what.starts_with("to_string")) {
        r.heap = true;
    }
    o.list
}

/// Whether a type is Send and Sync: the inherent constant exists only then, and is preferred to that of the trait
struct Threads<T>(std::marker::PhantomData<T>);
trait Unshared {
    const YES: bool = false;
}
impl<T> Unshared for Threads<T> {}
impl<T: Send + Sync> Threads<T> {
    const YES: bool = true;
}

const _: () = assert!(!<Threads<std::rc::Rc<u8>>>::YES && !<Threads<std::cell::Cell<u8>>>::YES && <Threads<Vec<u8>>>::YES);

macro_rules! ty {
    ($t:ty, $($arg:expr),*) => { ty_of::<$t>($($arg),*, <Threads<$t>>::YES) };
}

const fn ty_of<T: Ix>(name: &'static str, dim: usize, flavour: Flavour, bits: usize, shareable: bool) -> Ty {
    Ty {
        id: T::ID,
        name,
        dim,
        flavour,
        bits,
        shareable,
        from_slice: g_slice::<T>,
        from_array: g_array::<T>,
        default: g_default::<T>,
        zeroed: g_zeroed::<T>,
        from_grid: g_grid::<T>,
        from_grid_fast: g_grid_fast::<T>,
        from_raw: g_raw::<T>,
        announced: g_announced::<T>,
        storage_probe: g_storage::<T>,
        many: g_many::<T>,
        display: g_display::<T>,
        slice_cmp: g_slice_cmp::<T>,
        size: std::mem::size_of::<T>(),
        align_of_bits: match bits {
            8 => 1,
            16 => 2,
            32 => 4,
            64 => std::mem::align_of::<u64>(),
            128 => std::mem::align_of::<u128>(),
            _ => 0,
        },
        costs: g_costs::<T>,
        tree: crate::tree::g_tree::<T>,
    }
}

macro_rules! arrays {
    ($d:ty, $c:ident; $($n:literal)*) => {
        match $c.len() {
            $($n => {
                let a: [<$d as Dimension>::Cell; $n] = std::array::from_fn(|i| <$d as DimX>::c($c[i]));
                Some(Self::try_from(a))
            })*
            _ => None,
        }
    };
}

macro_rules! common {
    ($d:ty, $st:ty, $id:expr $(, $extra:literal)*) => {
        type D = $d;
        type St = $st;
        const ID: usize = $id;
        fn x_slice(c: &[Cell<Self>]) -> Res<Self> {
            Self::try_from(c)
        }
        fn x_array(c: &[u8]) -> Option<Res<Self>> {
            arrays!($d, c; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 15 16 17 20 21 22 24 31 32 33 40 42 43 48 63 64 65 66 85 86 100 127 128 129 200 255 256 257 300 512 1000 $($extra)*)
        }
        fn x_storage(c: &[Cell<Self>]) -> Res<StorageProbe> {
            let s = <$st>::try_from(c)?;
            let depth = Storage::depth(&s);
            Ok(StorageProbe {
                depth,
                iter: collect_capped::<$d>((&s).into_iter(), depth),
                unchecked: (0..depth).map(|l| <$d>::u(unsafe { s.get_cell_at_level_unchecked(l) })).collect(),
            })
        }
        fn x_iter(&self) -> Vec<u8> {
            collect_capped::<$d>(self.cells(), MortonIndex::depth(self))
        }
        fn x_walk(&self) -> usize {
            let depth = MortonIndex::depth(self);
            self.cells().take(depth + 8).map(|c| <$d>::u(c) as usize).sum()
        }
        fn x_iter_probe(&self, k: usize) -> IterProbe {
            probe_iter::<$d, _>(|| self.cells(), MortonIndex::depth(self), k)
        }
    };
}
macro_rules! variable {
    () => {
        fn x_ancestor(&self, g: NonZeroUsize) -> Option<Self> {
            self.ancestor(g)
        }
        fn x_parent(&self) -> Option<Self> {
            self.parent()
        }
        fn x_with_depth(&self, d: usize) -> Option<Self> {
            self.with_depth(d)
        }
        fn x_descendant(&self, c: &[Cell<Self>]) -> Option<Self> {
            self.descendant(c)
        }
        fn x_child(&self, c: Cell<Self>) -> Option<Self> {
            self.child(c)
        }
    };
}
macro_rules! zeroed_static {
    () => {
        fn x_zeroed(d: usize) -> Option<Option<Self>> {
            if d > 255 {
                None
            } else {
                Some(Self::zeroed(d as u8))
            }
        }
    };
}
macro_rules! conv_fs {
    ($fid:expr, $other:ty, $oid:expr, $dyn:ty, $did:expr) => {
        fn x_convert(&self, to: usize) -> Option<Result<V, Refused>> {
            if to == $oid {
                Some(Ok(bx(<$other>::from(self.clone()))))
            } else if to == $did {
                Some(Ok(bx(<$dyn>::from(self.clone()))))
            } else {
                None
            }
        }
    };
}

type F2<B> = MortonIndex2D<FixedDepthStorage2D<B>>;
type S2<B> = MortonIndex2D<StaticStorage2D<B>>;
type D2 = DynamicMortonIndex2D;
type F3<B> = MortonIndex3D<FixedDepthStorage3D<B>>;
type S3<B> = MortonIndex3D<StaticStorage3D<B>>;
type D3 = DynamicMortonIndex3D;

macro_rules! fast {
    (u64) => {
        fn x_grid_fast(g: Vector3<usize>, o: OctantOrdering) -> Option<Self> {
            Some(Self::from_grid_index_fast(g, o))
        }
    };
    ($b:ident) => {};
}

macro_rules! width {
    ($b:ident, $f2:expr, $s2:expr, $f3:expr, $s3:expr) => {
        impl Ix for F2<$b> {
            common!(Dim2D, FixedDepthStorage2D<$b>, $f2);
            conv_fs!($f2, S2<$b>, $s2, D2, 12);
            fn x_zeroed(_: usize) -> Option<Option<Self>> {
                None
            }
            fn x_grid(g: Vector2<usize>, _d: usize, o: QuadrantOrdering) -> Res<Self> {
                Ok(Self::from_grid_index(g, o))
            }
            fn x_copy(&self) -> Option<Self> {
                let c = *self;
                Some(c)
            }
        }
        impl Ix for S2<$b> {
            common!(Dim2D, StaticStorage2D<$b>, $s2);
            variable!();
            zeroed_static!();
            conv_fs!($s2, F2<$b>, $f2, D2, 12);
            fn x_grid(g: Vector2<usize>, d: usize, o: QuadrantOrdering) -> Res<Self> {
                Self::from_grid_index(g, d, o)
            }
            fn x_copy(&self) -> Option<Self> {
                let c = *self;
                Some(c)
            }
        }
        impl Ix for F3<$b> {
            common!(Dim3D, FixedDepthStorage3D<$b>, $f3);
            conv_fs!($f3, S3<$b>, $s3, D3, 25);
            fast!($b);
            fn x_zeroed(_: usize) -> Option<Option<Self>> {
                None
            }
            fn x_grid(g: Vector3<usize>, _d: usize, o: OctantOrdering) -> Res<Self> {
                Ok(Self::from_grid_index(g, o))
            }
            fn x_raw(r: u128, _d: usize) -> Option<Self> {
                Some(Self::from_raw_index(<$b as Raw>::raw(r)))
            }
            fn x_inherent_max() -> Option<usize> {
                Some(Self::MAX_LEVELS)
            }
            fn x_inherent_mask() -> Option<usize> {
                Some(Self::MAX_LEVELS_BITMASK)
            }
            fn x_copy(&self) -> Option<Self> {
                let c = *self;
                Some(c)
            }
        }
        impl Ix for S3<$b> {
            common!(Dim3D, StaticStorage3D<$b>, $s3);
            variable!();
            zeroed_static!();
            conv_fs!($s3, F3<$b>, $f3, D3, 25);
            fn x_grid(g: Vector3<usize>, d: usize, o: OctantOrdering) -> Res<Self> {
                Self::from_grid_index(g, d, o)
            }
            fn x_raw(r: u128, d: usize) -> Option<Self> {
                Some(Self::from_raw_index(<$b as Raw>::raw(r), d as u8))
            }
            fn x_inherent_max() -> Option<usize> {
                Some(Self::MAX_LEVELS)
            }
            fn x_copy(&self) -> Option<Self> {
                let c = *self;
                Some(c)
            }
        }
    };
}
width!(u8, 0, 6, 13, 19);
width!(u16, 1, 7, 14, 20);
width!(u32, 2, 8, 15, 21);
width!(u64, 3, 9, 16, 22);
width!(u128, 4, 10, 17, 23);
width!(usize, 5, 11, 18, 24);

/// Number of types that the crate defines; the others have bits of our own
pub const SHIPPED: usize = 26;
#[cfg(ints)]
mod ints {
    use super::*;
    pub type U24 = U<3>;
    pub type U40 = U<5>;
    pub type U72 = U<9>;
    pub type W128 = U<16>;
    width!(U24, 26, 27, 28, 29);
    width!(U40, 30, 31, 32, 33);
    width!(U72, 34, 35, 36, 37);
    width!(W128, 38, 39, 40, 41);
}
#[cfg(ints)]
use ints::*;

macro_rules! dynamic {
    ($t:ty, $d:ty, $st:ty, $id:expr, $g:ty, $o:ty, $f:ident, $s:ident) => {
        impl Ix for $t {
            // unlimited: arrays of nearly every length up to where a second word begins
            common!($d, $st, $id, 14, 18, 19, 23, 25, 26, 27, 28, 29, 30, 34, 35, 36, 37, 38, 39, 41, 44, 45, 46, 47, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 130, 131, 132, 133, 134, 135, 136, 171, 680, 1021);
            variable!();
            fn x_zeroed(d: usize) -> Option<Option<Self>> {
                Some(Some(Self::zeroed(d)))
            }
            fn x_grid(g: $g, d: usize, o: $o) -> Res<Self> {
                Ok(Self::from_grid_index(g, d, o))
            }
            fn x_copy(&self) -> Option<Self> {
                None
            }
            fn x_convert(&self, to: usize) -> Option<Result<V, Refused>> {
                macro_rules! go {
                    ($target:ty) => {
                        Some(<$target>::try_from(self.clone()).map(bx).map_err(Into::into))
                    };
                }
                #[cfg(ints)]
                if to >= SHIPPED {
                    // in the order of the types of this dimension
                    return match (to - SHIPPED) / 4 * 2 + (to - SHIPPED) % 2 {
                        0 => go!($f<U24>),
                        1 => go!($s<U24>),
                        2 => go!($f<U40>),
                        3 => go!($s<U40>),
                        4 => go!($f<U72>),
                        5 => go!($s<U72>),
                        6 => go!($f<W128>),
                        _ => go!($s<W128>),
                    };
                }
                match to + 12 - $id {
                    0 => go!($f<u8>),
                    1 => go!($f<u16>),
                    2 => go!($f<u32>),
                    3 => go!($f<u64>),
                    4 => go!($f<u128>),
                    5 => go!($f<usize>),
                    6 => go!($s<u8>),
                    7 => go!($s<u16>),
                    8 => go!($s<u32>),
                    9 => go!($s<u64>),
                    10 => go!($s<u128>),
                    11 => go!($s<usize>),
                    _ => None,
                }
            }
        }
    };
}
dynamic!(D2, Dim2D, DynamicStorage2D, 12, Vector2<usize>, QuadrantOrdering, F2, S2);
dynamic!(D3, Dim3D, DynamicStorage3D, 25, Vector3<usize>, OctantOrdering, F3, S3);

use Flavour::*;
#[cfg(storages)]
macro_rules! own {
    ($ix:ident, $d:ty, $s:ty, $id:expr, $g:ty, $o:ty; $($more:tt)*) => {
        impl Ix for $ix<Own<$d, $s>> {
            common!($d, Own<$d, $s>, $id);
            fn x_zeroed(_: usize) -> Option<Option<Self>> {
                None
            }
            fn x_grid(_: $g, _: usize, _: $o) -> Res<Self> {
                Err(morton_index::Error::CellIndexOutOfRange)
            }
            fn x_copy(&self) -> Option<Self> {
                None
            }
            fn x_convert(&self, _: usize) -> Option<Result<V, Refused>> {
                None
            }
            $($more)*
        }
    };
}
#[cfg(storages)]
mod storages {
    use super::*;
    own!(MortonIndex2D, Dim2D, Loose, 42, Vector2<usize>, QuadrantOrdering; variable!(););
    own!(MortonIndex2D, Dim2D, Low, 43, Vector2<usize>, QuadrantOrdering; variable!(););
    own!(MortonIndex2D, Dim2D, Ten, 44, Vector2<usize>, QuadrantOrdering;);
    own!(MortonIndex3D, Dim3D, Loose, 45, Vector3<usize>, OctantOrdering; variable!(););
    own!(MortonIndex3D, Dim3D, Low, 46, Vector3<usize>, OctantOrdering; variable!(););
    own!(MortonIndex3D, Dim3D, Ten, 47, Vector3<usize>, OctantOrdering;);
    own!(MortonIndex2D, Dim2D, Leaf, 48, Vector2<usize>, QuadrantOrdering; variable!(););
    own!(MortonIndex3D, Dim3D, Leaf, 49, Vector3<usize>, OctantOrdering; variable!(););
}

pub static TYS: Types = Types;
pub struct Types;

impl Types {
    pub fn iter(&self) -> impl Iterator<Item = &'static Ty> {
        CRATES.iter().chain(INTS).chain(STORAGES)
    }
}
impl std::ops::Index<usize> for Types {
    type Output = Ty;
    fn index(&self, id: usize) -> &Ty {
        if id < SHIPPED {
            &CRATES[id]
        } else if id < SHIPPED + 16 {
            &INTS[id - SHIPPED]
        } else {
            &STORAGES[id - SHIPPED - 16]
        }
    }
}

static CRATES: [Ty; SHIPPED] = [
    ty!(FixedDepthMortonIndex2D8, "FixedDepthMortonIndex2D8", 2, Fixed, 8),
    ty!(FixedDepthMortonIndex2D16, "FixedDepthMortonIndex2D16", 2, Fixed, 16),
    ty!(FixedDepthMortonIndex2D32, "FixedDepthMortonIndex2D32", 2, Fixed, 32),
    ty!(FixedDepthMortonIndex2D64, "FixedDepthMortonIndex2D64", 2, Fixed, 64),
    ty!(FixedDepthMortonIndex2D128, "FixedDepthMortonIndex2D128", 2, Fixed, 128),
    ty!(F2<usize>, "FixedDepth2D<usize>", 2, Fixed, usize::BITS as usize),
    ty!(StaticMortonIndex2D8, "StaticMortonIndex2D8", 2, Static, 8),
    ty!(StaticMortonIndex2D16, "StaticMortonIndex2D16", 2, Static, 16),
    ty!(StaticMortonIndex2D32, "StaticMortonIndex2D32", 2, Static, 32),
    ty!(StaticMortonIndex2D64, "StaticMortonIndex2D64", 2, Static, 64),
    ty!(StaticMortonIndex2D128, "StaticMortonIndex2D128", 2, Static, 128),
    ty!(S2<usize>, "Static2D<usize>", 2, Static, usize::BITS as usize),
    ty!(D2, "DynamicMortonIndex2D", 2, Dynamic, 0),
    ty!(FixedDepthMortonIndex3D8, "FixedDepthMortonIndex3D8", 3, Fixed, 8),
    ty!(FixedDepthMortonIndex3D16, "FixedDepthMortonIndex3D16", 3, Fixed, 16),
    ty!(FixedDepthMortonIndex3D32, "FixedDepthMortonIndex3D32", 3, Fixed, 32),
    ty!(FixedDepthMortonIndex3D64, "FixedDepthMortonIndex3D64", 3, Fixed, 64),
    ty!(FixedDepthMortonIndex3D128, "FixedDepthMortonIndex3D128", 3, Fixed, 128),
    ty!(F3<usize>, "FixedDepth3D<usize>", 3, Fixed, usize::BITS as usize),
    ty!(StaticMortonIndex3D8, "StaticMortonIndex3D8", 3, Static, 8),
    ty!(StaticMortonIndex3D16, "StaticMortonIndex3D16", 3, Static, 16),
    ty!(StaticMortonIndex3D32, "StaticMortonIndex3D32", 3, Static, 32),
    ty!(StaticMortonIndex3D64, "StaticMortonIndex3D64", 3, Static, 64),
    ty!(StaticMortonIndex3D128, "StaticMortonIndex3D128", 3, Static, 128),
    ty!(S3<usize>, "Static3D<usize>", 3, Static, usize::BITS as usize),
    ty!(D3, "DynamicMortonIndex3D", 3, Dynamic, 0),
];
#[cfg(not(ints))]
static INTS: &[Ty] = &[];
#[cfg(ints)]
static INTS: &[Ty] = &[
    ty!(F2<U24>, "FixedDepth2D<U24>", 2, Fixed, 24),
    ty!(S2<U24>, "Static2D<U24>", 2, Static, 24),
    ty!(F3<U24>, "FixedDepth3D<U24>", 3, Fixed, 24),
    ty!(S3<U24>, "Static3D<U24>", 3, Static, 24),
    ty!(F2<U40>, "FixedDepth2D<U40>", 2, Fixed, 40),
    ty!(S2<U40>, "Static2D<U40>", 2, Static, 40),
    ty!(F3<U40>, "FixedDepth3D<U40>", 3, Fixed, 40),
    ty!(S3<U40>, "Static3D<U40>", 3, Static, 40),
    ty!(F2<U72>, "FixedDepth2D<U72>", 2, Fixed, 72),
    ty!(S2<U72>, "Static2D<U72>", 2, Static, 72),
    ty!(F3<U72>, "FixedDepth3D<U72>", 3, Fixed, 72),
    ty!(S3<U72>, "Static3D<U72>", 3, Static, 72),
    ty!(F2<W128>, "FixedDepth2D<W128>", 2, Fixed, 128),
    ty!(S2<W128>, "Static2D<W128>", 2, Static, 128),
    ty!(F3<W128>, "FixedDepth3D<W128>", 3, Fixed, 128),
    ty!(S3<W128>, "Static3D<W128>", 3, Static, 128),
];
#[cfg(not(storages))]
static STORAGES: &[Ty] = &[];
#[cfg(storages)]
static STORAGES: &[Ty] = &[
    ty!(MortonIndex2D<Own<Dim2D, Loose>>, "2D<own loose>", 2, Dynamic, 0),
    ty!(MortonIndex2D<Own<Dim2D, Low>>, "2D<own low>", 2, Static, 32),
    ty!(MortonIndex2D<Own<Dim2D, Ten>>, "2D<own ten>", 2, Fixed, 20),
    ty!(MortonIndex3D<Own<Dim3D, Loose>>, "3D<own loose>", 3, Dynamic, 0),
    ty!(MortonIndex3D<Own<Dim3D, Low>>, "3D<own low>", 3, Static, 48),
    ty!(MortonIndex3D<Own<Dim3D, Ten>>, "3D<own ten>", 3, Fixed, 30),
    ty!(MortonIndex2D<Own<Dim2D, Leaf>>, "2D<own leaf>", 2, Static, 84),
    ty!(MortonIndex3D<Own<Dim3D, Leaf>>, "3D<own leaf>", 3, Static, 126),
];
