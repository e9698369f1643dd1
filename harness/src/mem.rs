//! What indices and operations on them cost in memory: counted by the allocator of the process.

use crate::engine::{catch, Src, Stop, R};
use crate::gen::{any_ty, cells, coords, ord, related, show, slice, value};
use crate::model;
use crate::types::{Flavour, Ty, V};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

#[derive(Debug, Clone, Copy, Default, PartialEq)]
pub struct Cost {
    /// requests for memory
    pub requests: u64,
    /// bytes requested and not given back
    pub held: i64,
    /// the most that was held at one time
    pub peak: i64,
}

thread_local! {
    static NOW: Cell<Cost> = const { Cell::new(Cost { requests: 0, held: 0, peak: 0 }) };
}

fn count(requests: u64, bytes: i64) {
    NOW.with(|n| {
        let mut c = n.get();
        c.requests += requests;
        c.held += bytes;
        c.peak = c.peak.max(c.held);
        n.set(c);
    });
}

/// What `f` costs on this thread
pub fn meter<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    let before = NOW.with(|n| n.replace(Cost::default()));
    let r = f();
    let mine = NOW.with(|n| {
        let c = n.get();
        n.set(Cost { requests: before.requests + c.requests, held: before.held + c.held, peak: before.peak.max(before.held + c.peak) });
        c
    });
    (r, mine)
}

pub struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(1, l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(1, l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(0, -(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(1, n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALL: Counting = Counting;

/// The arguments of the operations whose cost is taken
pub struct Plan {
    pub cells: Vec<u8>,
    pub other: Vec<u8>,
    pub ext: Vec<u8>,
    pub level: usize,
    pub up: usize,
    pub depth: usize,
    pub grid: [usize; 3],
    pub grid_depth: usize,
    /// the index has coordinates that fit
    pub to_grid: bool,
    pub ord: u8,
    pub raw: u128,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Reading {
    pub what: &'static str,
    pub cost: Cost,
    /// given back when the result is dropped
    pub freed: i64,
    /// levels of the result, if it is an index
    pub levels: Option<usize>,
    /// levels of everything that goes in or comes out
    pub involved: usize,
    /// levels of the index it starts from
    pub from: usize,
    /// whether it may ask for memory at all
    pub heap: bool,
    /// bytes of the box in which the harness keeps the result
    pub boxed: i64,
}

/// Room for the bits of so many levels, with what a growing vector keeps in reserve
fn room(ty: &Ty, levels: usize) -> i64 {
    64 + 2 * ((levels * ty.dim + 7) / 8) as i64
}

fn judge(ty: &Ty, r: &Reading) -> Result<(), String> {
    let kept = r.cost.held - r.boxed;
    let requests = r.cost.requests - (r.boxed > 0) as u64;
    let at = format!("{} of {}", r.what, ty.name);
    if r.cost.held + r.freed != 0 {
        return Err(format!("{} does not give back {} of {} bytes", at, r.cost.held + r.freed, r.cost.held));
    }
    if !r.heap && requests > 0 {
        return Err(format!("{} asks {} times for memory", at, requests));
    }
    if let Some(n) = r.levels {
        // an operation may leave its result in memory of the size of what it started from
        if kept > room(ty, n.max(r.from)) {
            return Err(format!("{} keeps {} bytes for {} levels, made from {}", at, kept, n, r.from));
        }
    }
    if r.cost.peak - r.boxed > 4096 + 64 * r.involved as i64 {
        return Err(format!("{} takes {} bytes at a time for {} levels", at, r.cost.peak, r.involved));
    }
    Ok(())
}

pub fn c25(src: &mut Src) -> R {
    let ty = any_ty(src);
    let bytes = ty.bits / 8;
    match ty.flavour {
        Flavour::Fixed => ensure!(ty.size == bytes, "{}: an index takes {} bytes, its bits {}", ty.name, ty.size, bytes),
        // the depth, and what its alignment asks for
        Flavour::Static => ensure!(ty.size <= bytes + ty.align_of_bits, "{}: an index takes {} bytes, its bits {}", ty.name, ty.size, bytes),
        Flavour::Dynamic => ensure!(ty.size <= 16 * std::mem::size_of::<usize>(), "{}: an index takes {} bytes beside its bits", ty.name, ty.size),
    }
    let (v, m) = value(src, ty)?;
    if !src.small() {
        crate::gen::depth_bucket(src, m.len());
    }
    src.nontrivial = crate::props::varied(&m);
    // other values of the same shape, so that nothing can be kept from one to the next
    let related_cells = related(src, ty, &m);
    let other = slice(ty, &related_cells).map(|_| related_cells).unwrap_or_else(|_| m.clone());
    let k = src.below(ty.cap().saturating_sub(m.len()).min(9) + 1);
    let gd = match ty.flavour {
        Flavour::Fixed => ty.cap(),
        _ => src.below(ty.cap().min(model::WORD / 2) + 1),
    };
    let mut plan = Plan {
        ext: cells(src, ty.dim, k),
        level: src.below(m.len().max(1)),
        up: 1 + src.below(m.len().max(1)),
        depth: src.below(m.len() + 1),
        grid: coords(src, ty.dim, gd),
        grid_depth: gd,
        to_grid: m.len() <= model::WORD,
        ord: ord(src, ty.dim),
        raw: src.int(u64::MAX) as u128 | (src.int(u64::MAX) as u128) << 64,
        cells: m.clone(),
        other,
    };
    let grids = ty.grids(gd);
    let turns = 1 + src.below(7) as u8;
    src.note(|| format!("{} {} / {}, +{}, up {}, depth {}, grid {:?} {}", ty.name, show(&m), show(&plan.other), show(&plan.ext), plan.up, plan.depth, plan.grid, gd));
    // What is built once and then kept would look like a loss the first time: only what happens every time counts
    let mut last: Option<String> = None;
    for turn in 0..3 {
        let turned = |c: &[u8]| c.iter().map(|x| x ^ (turn * turns & (ty.cells() - 1))).collect::<Vec<u8>>();
        let p = Plan {
            cells: turned(&plan.cells),
            other: turned(&plan.other),
            ext: turned(&plan.ext),
            grid: [plan.grid[0] ^ turn as usize, plan.grid[1] ^ turn as usize, plan.grid[2] ^ turn as usize],
            raw: plan.raw ^ turn as u128,
            ..plan
        };
        let readings = match catch(|| (ty.costs)(&p, grids)) {
            Ok(r) => r,
            // what it should have done is for another property
            Err(_) => return Err(Stop::Discard("an operation panicked")),
        };
        last = readings.iter().find_map(|r| judge(ty, r).err());
        if last.is_none() {
            break;
        }
        // a smaller plan has to fail as well
        plan.raw = plan.raw.rotate_left(1);
    }
    if let Some(m) = last {
        return Err(Stop::Fail(m));
    }
    // an index with a history of its own
    let (_, c) = meter(|| drop(v));
    let kept = -c.held - ty.size as i64;
    ensure!(ty.flavour == Flavour::Dynamic || kept == 0, "{}: an index owns {} bytes", ty.name, kept);
    ensure!(kept <= room(ty, m.len()), "{}: an index of {} levels keeps {} bytes", ty.name, m.len(), kept);
    Ok(())
}

/// Takes the costs of the operations of one type
pub struct Readings {
    pub list: Vec<Reading>,
    pub dynamic: bool,
    pub involved: usize,
    pub from: usize,
}

impl Readings {
    /// an operation that makes an index
    pub fn made<T>(&mut self, what: &'static str, depth: impl Fn(&T) -> usize, f: impl FnOnce() -> Option<T>) {
        let (r, cost) = meter(f);
        let levels = r.as_ref().map(depth);
        let (_, d) = meter(|| drop(r));
        self.list.push(Reading { what, cost, freed: d.held, levels, from: self.from, involved: self.involved + levels.unwrap_or(0), heap: self.dynamic, boxed: 0 });
    }
    /// a conversion; its result is boxed for the harness
    pub fn boxed(&mut self, what: &'static str, to: &Ty, f: impl FnOnce() -> Option<V>) {
        let (r, cost) = meter(f);
        let levels = r.as_ref().map(|v| v.depth());
        let boxed = if r.is_some() { to.size as i64 } else { 0 };
        let (_, d) = meter(|| drop(r));
        let heap = self.dynamic || to.flavour == Flavour::Dynamic;
        self.list.push(Reading { what, cost, freed: d.held, levels, from: self.from, involved: self.involved + levels.unwrap_or(0), heap, boxed });
    }
    /// an operation that makes no index; in place: it looks at or changes single cells only
    pub fn done<T>(&mut self, what: &'static str, in_place: bool, f: impl FnOnce() -> T) {
        let (r, cost) = meter(f);
        let (_, d) = meter(|| drop(r));
        self.list.push(Reading { what, cost, freed: d.held, levels: None, from: self.from, involved: self.involved, heap: self.dynamic && !in_place, boxed: 0 });
    }
}
