//! C28: what the crate is for. Indices as the keys of a tree: points put in by their grid cells, nodes split and merged, subtrees,
//! neighbours and enclosing nodes looked up, the whole kept sorted. Every step against a map keyed by lists of cells.

use crate::engine::{catch, Src, Stop, R};
use crate::gen::{any_ty, cells, coords, fit_depth, mask_coords, ord, related, show};
use crate::model::{self, cells_from_grid, grid_from_cells, preorder};
use crate::types::{cellv, obs, DimX, Flavour, Ix, Ty};
use std::cmp::{Ordering, Reverse};
use std::collections::{BTreeMap, BinaryHeap, HashMap};
use std::num::NonZeroUsize;
use std::ops::Bound;

type Cells = Vec<u8>;

pub enum Op {
    /// an index made from cells
    Insert(Cells),
    /// the cell of a point in a grid
    Point([usize; 3], usize, u8),
    Remove(Cells),
    /// a node's children are put in, and it is taken out
    Split(Cells),
    /// a node's children are taken out, and it is put in
    Merge(Cells),
    /// the nearest node of the tree from this one upwards
    Enclosing(Cells),
    /// all nodes below and including this one
    Subtree(Cells),
    /// all nodes on the way to the root
    Path(Cells),
    /// the next cell of the same grid along an axis
    Neighbour(Cells, usize, bool, u8),
    /// the entries before and after it
    Around(Cells),
    /// entries from one node to another, both included
    Between(Cells, Cells),
    /// sort, search and merge all keys, after a shuffle
    Shuffle(u64),
}

#[derive(Debug, PartialEq, Clone)]
pub enum Entry {
    Was(Option<u64>),
    Keys(Vec<Cells>),
    Found(Vec<(Cells, u64)>),
    Grid(Option<[usize; 3]>, Option<u64>),
    Fails(&'static str),
}

fn shuffled<T>(v: &mut [T], mut seed: u64) {
    for i in (1..v.len()).rev() {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        v.swap(i, (seed >> 33) as usize % (i + 1));
    }
}

fn next_to(g: [usize; 3], axis: usize, up: bool, depth: usize) -> Option<[usize; 3]> {
    let mut n = g;
    let last = if depth >= model::WORD { usize::MAX } else { (1 << depth) - 1 };
    n[axis] = if up { g[axis].checked_add(1)? } else { g[axis].checked_sub(1)? };
    (n[axis] <= last).then_some(n)
}

/// The tree as a user would write it, over one index type
pub fn g_tree<T: Ix>(ops: &[Op]) -> Vec<Entry> {
    let mut tree: BTreeMap<T, u64> = BTreeMap::new();
    let mut table: HashMap<T, u64> = HashMap::new();
    let mut log = Vec::new();
    let node = |c: &Cells| T::x_slice(&cellv::<T>(c)).ok().expect("an index");
    let children = |n: &T| (0..1 << <T::D as morton_index::dimensions::Dimension>::DIMENSIONALITY).map(|c| n.x_child(T::D::c(c))).collect::<Option<Vec<T>>>();
    for (time, op) in ops.iter().enumerate() {
        let time = time as u64;
        match op {
            Op::Insert(c) => {
                let n = node(c);
                table.insert(n.clone(), time);
                log.push(Entry::Was(tree.insert(n, time)));
            }
            Op::Point(g, d, o) => {
                let n = T::x_grid(T::D::mk(*g), *d, T::D::ord(*o)).ok().expect("an index");
                table.insert(n.clone(), time);
                log.push(Entry::Was(tree.insert(n, time)));
            }
            Op::Remove(c) => {
                let n = node(c);
                table.remove(&n);
                log.push(Entry::Was(tree.remove(&n)));
            }
            Op::Split(c) => {
                let n = node(c);
                if let Some(children) = children(&n) {
                    table.remove(&n);
                    log.push(Entry::Was(tree.remove(&n)));
                    for c in children {
                        table.insert(c.clone(), time);
                        log.push(Entry::Was(tree.insert(c, time)));
                    }
                }
            }
            Op::Merge(c) => {
                let n = node(c);
                if let Some(children) = children(&n) {
                    let mut up = n.clone();
                    for c in children {
                        if table.remove(&c) != tree.get(&c).copied() {
                            log.push(Entry::Fails("the hash table has what the tree has"));
                        }
                        log.push(Entry::Was(tree.remove(&c)));
                        // a child knows its parent
                        match c.x_parent() {
                            Some(p) if p == n => up = p,
                            _ => log.push(Entry::Fails("parent of a child")),
                        }
                    }
                    // the key is one that the children gave
                    table.insert(up.clone(), time);
                    log.push(Entry::Was(tree.insert(up, time)));
                }
            }
            Op::Enclosing(c) => {
                let mut at = Some(node(c));
                while let Some(n) = at.take_if(|n| !tree.contains_key(n)) {
                    if table.contains_key(&n) {
                        log.push(Entry::Fails("the hash table has what the tree has"));
                    }
                    at = n.x_parent();
                }
                log.push(Entry::Found(at.into_iter().map(|n| (obs(&n), table.get(&n).copied().unwrap_or(u64::MAX))).collect()));
            }
            Op::Subtree(c) => {
                let n = node(c);
                let below = |x: &T| x.depth() >= n.depth() && x.x_with_depth(n.depth()).as_ref() == Some(&n);
                // pre-order: they are next to each other
                let run: Vec<_> = tree.range(&n..).take_while(|(x, _)| below(x)).map(|(x, t)| (obs(x), *t)).collect();
                if tree.keys().filter(|x| below(x)).count() != run.len() {
                    log.push(Entry::Fails("a subtree is not contiguous"));
                }
                log.push(Entry::Found(run));
            }
            Op::Path(c) => {
                let n = node(c);
                let up = (1..=n.depth()).filter_map(|g| n.x_ancestor(NonZeroUsize::new(g).expect("generations")));
                let up: Vec<T> = up.collect();
                if up.iter().any(|a| tree.get(a) != table.get(a)) {
                    log.push(Entry::Fails("the hash table has what the tree has"));
                }
                log.push(Entry::Found(up.iter().filter_map(|a| tree.get_key_value(a)).map(|(x, t)| (obs(x), *t)).collect()));
            }
            Op::Neighbour(c, axis, up, o) => {
                let n = node(c);
                let g = next_to(T::D::grid(n.to_grid_index(T::D::ord(*o))), *axis, *up, n.depth());
                let found = g.and_then(|g| T::x_grid(T::D::mk(g), n.depth(), T::D::ord(*o)).ok()).and_then(|m| tree.get(&m).filter(|t| table.get(&m) == Some(*t)).copied());
                log.push(Entry::Grid(g, found));
            }
            Op::Around(c) => {
                let n = node(c);
                let before = tree.range(..&n).next_back();
                let after = tree.range((Bound::Excluded(&n), Bound::Unbounded)).next();
                log.push(Entry::Found(before.into_iter().chain(after).map(|(x, t)| (obs(x), *t)).collect()));
            }
            Op::Between(a, b) => {
                let (a, b) = (node(a), node(b));
                let (a, b) = if a <= b { (a, b) } else { (b, a) };
                log.push(Entry::Found(tree.range(a..=b).map(|(x, t)| (obs(x), *t)).collect()));
            }
            Op::Shuffle(seed) => {
                let mut keys: Vec<T> = tree.keys().cloned().collect();
                shuffled(&mut keys, *seed);
                let mut heap: BinaryHeap<Reverse<T>> = keys.iter().cloned().map(Reverse).collect();
                // two halves with something in common
                let (a, b) = (&keys[..keys.len() * 2 / 3], &keys[keys.len() / 3..]);
                let mut both: Vec<T> = a.iter().chain(b).cloned().collect();
                both.sort();
                both.dedup();
                if !keys.iter().all(|k| both.binary_search(k).is_ok()) || both.windows(2).any(|w| w[0] >= w[1]) {
                    log.push(Entry::Fails("sorted keys"));
                }
                log.push(Entry::Keys(both.iter().map(obs).collect()));
                keys.sort_unstable_by(|a, b| b.cmp(a));
                log.push(Entry::Keys(keys.iter().map(obs).collect()));
                let mut all = Vec::new();
                while let Some(Reverse(k)) = heap.pop() {
                    all.push(obs(&k));
                }
                log.push(Entry::Keys(all));
            }
        }
        if table.len() != tree.len() {
            log.push(Entry::Fails("the hash table and the tree have the same number of entries"));
        }
    }
    if !tree.iter().all(|(k, t)| table.get(k) == Some(t)) {
        log.push(Entry::Fails("the hash table has the entries of the tree"));
    }
    log.push(Entry::Found(tree.iter().map(|(k, t)| (obs(k), *t)).collect()));
    log
}

/// Keys of the reference: cells in pre-order
#[derive(Clone, PartialEq, Eq)]
struct Key(Cells);
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Self) -> Ordering {
        preorder(&self.0, &o.0)
    }
}

struct Reference {
    dim: usize,
    variable: bool,
    cap: usize,
    map: BTreeMap<Key, u64>,
    log: Vec<Entry>,
}

impl Reference {
    fn children(&self, c: &Cells) -> Option<Vec<Cells>> {
        if !self.variable || c.len() >= self.cap {
            return None;
        }
        Some((0..1u8 << self.dim).map(|n| c.iter().copied().chain([n]).collect()).collect())
    }
    fn put(&mut self, c: Cells, time: u64) {
        let e = Entry::Was(self.map.insert(Key(c), time));
        self.log.push(e);
    }
    fn take(&mut self, c: &Cells) {
        let e = Entry::Was(self.map.remove(&Key(c.clone())));
        self.log.push(e);
    }
    fn found(&mut self, f: impl Fn(&Cells) -> bool) {
        let e = Entry::Found(self.map.iter().filter(|(k, _)| f(&k.0)).map(|(k, t)| (k.0.clone(), *t)).collect());
        self.log.push(e);
    }
    fn step(&mut self, op: &Op, time: u64) {
        match op {
            Op::Insert(c) => self.put(c.clone(), time),
            Op::Point(g, d, o) => self.put(cells_from_grid(self.dim, *g, *d, *o), time),
            Op::Remove(c) => self.take(c),
            Op::Split(c) => {
                if let Some(children) = self.children(c) {
                    self.take(c);
                    children.into_iter().for_each(|c| self.put(c, time));
                }
            }
            Op::Merge(c) => {
                if let Some(children) = self.children(c) {
                    children.iter().for_each(|c| self.take(c));
                    self.put(c.clone(), time);
                }
            }
            Op::Enclosing(c) => {
                let shortest = if self.variable { 0 } else { c.len() };
                let d = (shortest..=c.len()).rev().find(|d| self.map.contains_key(&Key(c[..*d].to_vec())));
                self.found(|k| d.map_or(false, |d| k[..] == c[..d]));
            }
            Op::Subtree(c) => self.found(|k| k.starts_with(c)),
            Op::Path(c) => {
                let up: Vec<_> = (0..c.len()).rev().filter_map(|d| self.map.get_key_value(&Key(c[..d].to_vec()))).map(|(k, t)| (k.0.clone(), *t)).collect();
                self.log.push(Entry::Found(up));
            }
            Op::Neighbour(c, axis, up, o) => {
                let g = grid_from_cells(self.dim, c, *o).and_then(|g| next_to(g, *axis, *up, c.len()));
                let found = g.and_then(|g| self.map.get(&Key(cells_from_grid(self.dim, g, c.len(), *o))).copied());
                self.log.push(Entry::Grid(g, found));
            }
            Op::Around(c) => {
                let before = self.map.iter().filter(|(k, _)| preorder(&k.0, c) == Ordering::Less).last();
                let after = self.map.iter().find(|(k, _)| preorder(&k.0, c) == Ordering::Greater);
                let e = before.into_iter().chain(after).map(|(k, t)| (k.0.clone(), *t)).collect();
                self.log.push(Entry::Found(e));
            }
            Op::Between(a, b) => {
                let (a, b) = if preorder(a, b) == Ordering::Greater { (b, a) } else { (a, b) };
                self.found(|k| preorder(a, k) != Ordering::Greater && preorder(k, b) != Ordering::Greater);
            }
            Op::Shuffle(_) => {
                let up: Vec<_> = self.map.keys().map(|k| k.0.clone()).collect();
                let down: Vec<_> = up.iter().rev().cloned().collect();
                self.log.push(Entry::Keys(up.clone()));
                self.log.push(Entry::Keys(down));
                self.log.push(Entry::Keys(up));
            }
        }
    }
}

fn describe(op: &Op, dim: usize) -> String {
    match op {
        Op::Insert(c) => format!("insert {}", show(c)),
        Op::Point(g, d, o) => format!("insert the point {:?} of depth {} {}", &g[..dim], d, model::ord_name(dim, *o)),
        Op::Remove(c) => format!("remove {}", show(c)),
        Op::Split(c) => format!("split {}", show(c)),
        Op::Merge(c) => format!("merge {}", show(c)),
        Op::Enclosing(c) => format!("enclosing node of {}", show(c)),
        Op::Subtree(c) => format!("subtree of {}", show(c)),
        Op::Path(c) => format!("path from {} to the root", show(c)),
        Op::Neighbour(c, a, u, o) => format!("neighbour of {} along axis {} {} ({})", show(c), a, if *u { "upwards" } else { "downwards" }, model::ord_name(dim, *o)),
        Op::Around(c) => format!("entries before and after {}", show(c)),
        Op::Between(a, b) => format!("entries between {} and {}", show(a), show(b)),
        Op::Shuffle(_) => "shuffle and sort the keys".into(),
    }
}

fn brief(e: &Entry) -> String {
    let mut s = format!("{:?}", e);
    if s.len() > 400 {
        s.truncate(400);
        s.push_str(" ...");
    }
    s
}

/// A node: one of the tree, one related to it, or any
fn pick(src: &mut Src, ty: &'static Ty, r: &Reference) -> Cells {
    let base = if r.map.is_empty() || src.chance(1, 12) {
        let n = if src.chance(2, 3) { fit_depth(src, ty).min(12) } else { fit_depth(src, ty) };
        let n = if ty.variable() { n } else { ty.cap() };
        cells(src, ty.dim, n)
    } else {
        let i = src.below(r.map.len());
        r.map.keys().nth(i).expect("a key").0.clone()
    };
    let mut c = if src.chance(1, 2) { base } else { related(src, ty, &base) };
    if ty.variable() {
        // a path to the root takes the square of the depth
        c.truncate(300);
    } else {
        c.resize(ty.cap(), 0);
    }
    c
}

pub fn c28(src: &mut Src) -> R {
    if src.small() {
        return Err(Stop::Discard("not enumerated"));
    }
    let ty = any_ty(src);
    let variable = ty.flavour != Flavour::Fixed;
    let mut r = Reference { dim: ty.dim, variable, cap: ty.cap(), map: BTreeMap::new(), log: Vec::new() };
    let mut ops = Vec::new();
    let mut ends = Vec::new();
    let long = src.chance(1, 20);
    let steps = 3 + src.below(if long { 60 } else { 14 });
    let o = ord(src, ty.dim);
    for time in 0..steps {
        // a tree first
        let w = if time < 3 { [4, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0] } else { [3, 3, 2, 3, 2, 3, 3, 2, 3, 2, 2, 2] };
        let op = match src.weighted(&w) {
            0 => Op::Insert(pick(src, ty, &r)),
            1 => {
                // near another point, more often
                let near = pick(src, ty, &r);
                let d = if variable { near.len().min(if ty.flavour == Flavour::Dynamic { model::WORD / 2 } else { model::WORD }) } else { ty.cap() };
                if !ty.grids(d) {
                    Op::Insert(near)
                } else {
                    let mut g = coords(src, ty.dim, d);
                    if src.chance(1, 2) {
                        if let Some(n) = grid_from_cells(ty.dim, &near[..d.min(near.len())], o) {
                            let axis = src.below(ty.dim);
                            g = n;
                            g[axis] = g[axis].wrapping_add(src.below(5)).wrapping_sub(2);
                        }
                    }
                    Op::Point(mask_coords(g, d), d, o)
                }
            }
            2 => Op::Remove(pick(src, ty, &r)),
            3 => Op::Split(pick(src, ty, &r)),
            4 => {
                let mut c = pick(src, ty, &r);
                if variable && src.chance(1, 2) {
                    c.pop();
                }
                Op::Merge(c)
            }
            5 => Op::Enclosing(pick(src, ty, &r)),
            6 => {
                let mut c = pick(src, ty, &r);
                if variable {
                    c.truncate(c.len().saturating_sub(src.below(4)));
                }
                if variable {
                    Op::Subtree(c)
                } else {
                    Op::Around(c)
                }
            }
            7 => Op::Path(pick(src, ty, &r)),
            8 => {
                let c = pick(src, ty, &r);
                if ty.grids(c.len()) && c.len() <= model::WORD {
                    Op::Neighbour(c, src.below(ty.dim), src.chance(1, 2), o)
                } else {
                    Op::Enclosing(c)
                }
            }
            9 => Op::Around(pick(src, ty, &r)),
            10 => {
                let a = pick(src, ty, &r);
                let b = pick(src, ty, &r);
                Op::Between(a, b)
            }
            _ => Op::Shuffle(src.upto(u64::MAX)),
        };
        src.note(|| format!("{}: {}", ty.name, describe(&op, ty.dim)));
        // the path of a fixed-depth index is empty, and it has no children
        if let (Op::Path(_), false) = (&op, variable) {
            r.log.push(Entry::Found(vec![]));
        } else {
            r.step(&op, time as u64);
        }
        ops.push(op);
        ends.push(r.log.len());
    }
    r.found(|_| true);
    let entries = r.map.len();
    src.nontrivial = entries >= 3;
    src.label(if entries > 20 { "more than 20 entries" } else { "up to 20 entries" });
    let got = match catch(|| (ty.tree)(&ops)) {
        Ok(l) => l,
        Err(p) => return Err(Stop::Fail(format!("{}: a tree of {} entries panics: {} at {}", ty.name, entries, p.msg, p.loc))),
    };
    if got != r.log {
        let i = got.iter().zip(&r.log).position(|(a, b)| a != b).unwrap_or(got.len().min(r.log.len()));
        let step = ends.iter().position(|e| i < *e);
        let what = step.map_or("the whole tree".to_string(), |s| describe(&ops[s], ty.dim));
        let (g, w) = (got.get(i).map_or("nothing".into(), brief), r.log.get(i).map_or("nothing".into(), brief));
        return Err(Stop::Fail(format!("{}: {}: {}, expected {}", ty.name, what, g, w)));
    }
    Ok(())
}
