//! The properties about indices, one function each. A function draws a case from `Src`, runs the real code, and compares with the model.

use crate::engine::{catch, Src, Stop, R};
use crate::gen::*;
use crate::model;
use crate::types::*;
use std::cmp::Ordering;

fn flip(o: Ordering) -> Ordering {
    o.reverse()
}

/// `v` shows exactly `want` on every way of reading it
pub fn shows(v: &V, want: &[u8], what: &str) -> R {
    let d = v.depth();
    ensure!(d == want.len(), "{} ({}): depth is {}, expected {} [{}]", what, v.ty().name, d, want.len(), show(want));
    let got: Vec<u8> = (0..d).map(|l| v.get(l)).collect();
    ensure!(got == want, "{} ({}): cells are {}, expected {}", what, v.ty().name, show(&got), show(want));
    let un: Vec<u8> = (0..d).map(|l| unsafe { v.get_un(l) }).collect();
    ensure!(un == want, "{} ({}): unchecked reads give {}, expected {}", what, v.ty().name, show(&un), show(want));
    let it = v.iter();
    ensure!(it == want, "{} ({}): the cell iterator gives {}, expected {}", what, v.ty().name, show(&it), show(want));
    Ok(())
}

fn built(ty: &'static Ty, c: &[u8]) -> Result<V, Stop> {
    match (ty.from_slice)(c) {
        Ok(v) => Ok(v),
        Err(_) => Err(Stop::Discard("reference index cannot be built")),
    }
}

/// equal in every observable respect of comparison: ==, !=, cmp, partial_cmp, operators, hash
fn identical(a: &V, b: &V, what: &str) -> R {
    let (a, b) = (a.as_ref(), b.as_ref());
    ensure!(a.eq(b) && b.eq(a), "{} ({}): not equal to the same index [{} / {}]", what, a.ty().name, a.debug(), b.debug());
    ensure!(!a.ne(b) && !b.ne(a), "{} ({}): != holds between equal indices", what, a.ty().name);
    ensure!(a.cmp(b) == Ordering::Equal && b.cmp(a) == Ordering::Equal, "{} ({}): equal indices do not compare Equal", what, a.ty().name);
    ensure!(a.pcmp(b) == Some(Ordering::Equal), "{} ({}): partial_cmp of equal indices is not Equal", what, a.ty().name);
    ensure!(a.ops(b) == [false, true, false, true], "{} ({}): operators on equal indices", what, a.ty().name);
    ensure!(a.hashes() == b.hashes(), "{} ({}): equal indices hash differently", what, a.ty().name);
    Ok(())
}

pub fn varied(c: &[u8]) -> bool {
    c.len() >= 2 && c.iter().any(|x| *x != c[0])
}

fn describe(src: &mut Src, ty: &Ty, c: &[u8]) {
    if !src.small() {
        depth_bucket(src, c.len());
    }
    src.note(|| format!("{} cells {}", ty.name, show(c)));
}

// --------------------------------------------------------------------------------------------------------- C01

pub fn c01(src: &mut Src) -> R {
    let ty = any_ty(src);
    let route = src.below(5);
    let n = fit_depth(src, ty);
    let c = if route < 3 { cells(src, ty.dim, n) } else { vec![0; n] };
    let mut want = c.clone();
    if ty.flavour == Flavour::Fixed {
        want.resize(ty.cap(), 0);
    }
    describe(src, ty, &c);
    src.nontrivial = varied(&want) || route >= 3;
    let v = match route {
        0 => (ty.from_slice)(&c).map_err(|e| Stop::Fail(format!("{}: slice of {} cells refused: {:?}", ty.name, n, e)))?,
        1 => match (ty.from_array)(&c) {
            None => return Err(Stop::Discard("no array of this length")),
            Some(r) => r.map_err(|e| Stop::Fail(format!("{}: array of {} cells refused: {:?}", ty.name, n, e)))?,
        },
        2 => {
            // the storage types themselves
            let p = (ty.storage_probe)(&c)
                .map_err(|e| Stop::Fail(format!("{}: storage from {} cells refused: {:?}", ty.name, n, e)))?;
            ensure!(
                p.depth == want.len() && p.iter == want && p.unchecked == want,
                "storage of {}: depth {} iterator {} reads {}, expected {}",
                ty.name, p.depth, show(&p.iter), show(&p.unchecked), show(&want)
            );
            return Ok(());
        }
        3 => {
            let v = (ty.default)();
            if ty.variable() {
                want.clear();
            }
            v
        }
        _ => match (ty.zeroed)(n) {
            None => return Err(Stop::Discard("no such constructor")),
            Some(None) => fail!("{}: zeroed({}) refused", ty.name, n),
            Some(Some(v)) => v,
        },
    };
    shows(&v, &want, ["slice", "array", "", "default", "zeroed"][route])?;
    let k = src.below(want.len() + 2);
    let p = v.iter_probe(k);
    let d = want.len();
    ensure!(p.all == want, "{}: iterator gives {}, expected {}", ty.name, show(&p.all), show(&want));
    ensure!(p.after_end.iter().all(|x| *x), "{}: iterator yields again after its end", ty.name);
    ensure!(p.count == d, "{}: iterator counts {} cells, expected {}", ty.name, p.count, d);
    ensure!(p.last == want.last().copied(), "{}: last cell of the iterator is {:?}", ty.name, p.last);
    ensure!(p.nth == want.get(k).copied(), "{}: nth({}) of the iterator is {:?}", ty.name, k, p.nth);
    let rest: &[u8] = if k < d { &want[k + 1..] } else { &[] };
    ensure!(p.after_nth == rest, "{}: iterator after nth({}) gives {}, expected {}", ty.name, k, show(&p.after_nth), show(rest));
    let step: Vec<u8> = want.iter().copied().step_by(k % 7 + 1).collect();
    ensure!(p.step == step, "{}: iterator with step {} gives {}", ty.name, k % 7 + 1, show(&p.step));
    ensure!(p.interleaved, "{}: two iterators over one index disturb each other", ty.name);
    ensure!(p.hint_ok, "{}: size hint of the iterator is wrong", ty.name);
    shows(&v.dup(), &want, "clone")?;
    if let Some(w) = v.copy() {
        shows(&w, &want, "copy")?;
    }
    shows(&v, &want, "after reading")
}

// --------------------------------------------------------------------------------------------------------- C02

pub fn beyond(src: &mut Src, d: usize) -> usize {
    match src.below(6) {
        0 => d,
        1 => d + 1,
        2 => d + src.below(70),
        3 => usize::MAX - src.below(3),
        4 => (1usize << (6 + src.below(model::WORD - 6))).max(d),
        _ => huge(src, d).max(d),
    }
}

pub fn c02(src: &mut Src) -> R {
    let ty = any_ty(src);
    let (mut v, mut m) = value(src, ty)?;
    let d = m.len();
    if !src.small() {
        depth_bucket(src, d);
    }
    let steps = if src.small() { 2 } else { 1 + src.below(if d > 300 { 4 } else { 16 }) };
    let mut snaps: Vec<(V, Vec<u8>)> = Vec::new();
    let mut changed = 0;
    for _ in 0..steps {
        let op = if src.small() { src.below(3) } else { src.weighted(&[8, 4, 1, 1, 1, 2]) };
        match op {
            0 | 1 => {
                if d == 0 {
                    continue;
                }
                let l = match src.below(3) {
                    0 => src.below(d),
                    1 => d - 1 - src.below(d.min(5)),
                    _ => src.below(d.min(5)),
                };
                let c = cell(src, ty.dim);
                src.note(|| format!("{}({}, {})", if op == 0 { "set_cell_at_level" } else { "set_cell_at_level_unchecked" }, l, c));
                if op == 0 {
                    v.set(l, c);
                } else {
                    unsafe { v.set_un(l, c) };
                }
                changed += (m[l] != c) as usize;
                m[l] = c;
            }
            2 => {
                let l = if src.small() { d + src.below(2) } else { beyond(src, d) };
                src.note(|| format!("read beyond the depth at level {}", l));
                ensure!(catch(|| v.get(l)).is_err(), "{}: reading level {} of an index of depth {} does not panic", ty.name, l, d);
            }
            3 | 4 => {
                let l = beyond(src, d);
                let c = cell(src, ty.dim);
                let before = v.dup();
                src.note(|| format!("write {} beyond the depth at level {}", c, l));
                ensure!(catch(|| v.set(l, c)).is_err(), "{}: writing level {} of an index of depth {} does not panic", ty.name, l, d);
                shows(&v, &m, "after a refused write")?;
                ensure!(v.eq(before.as_ref()), "{}: a refused write changed the index", ty.name);
            }
            _ => {
                let s = match src.below(3) {
                    0 => v.dup(),
                    1 => v.copy().unwrap_or_else(|| v.dup()),
                    _ => {
                        // over an index of about the same depth
                        let n = (d + src.below(7)).saturating_sub(3).min(ty.cap());
                        let c = cells(src, ty.dim, n);
                        let mut s = slice(ty, &c)?;
                        s.clone_from_other(v.as_ref());
                        s
                    }
                };
                snaps.push((s, m.clone()));
            }
        }
        shows(&v, &m, "after a write")?;
    }
    for (s, sm) in &snaps {
        shows(s, sm, "clone taken before later writes")?;
    }
    // writing into a clone does not reach the original either
    if d > 0 {
        let mut w = v.dup();
        let l = src.below(d);
        let c = cell(src, ty.dim);
        w.set(l, c);
        shows(&v, &m, "after writing into its clone")?;
        m[l] = c;
        shows(&w, &m, "written clone")?;
    }
    src.nontrivial = changed >= 2;
    Ok(())
}

// --------------------------------------------------------------------------------------------------------- C03

pub fn c03(src: &mut Src) -> R {
    let ty = any_ty(src);
    let n = fit_depth(src, ty);
    let want = cells(src, ty.dim, n);
    let (a, ca) = value_with(src, ty, &want)?;
    let other = if src.small() || src.chance(1, 3) { related(src, ty, &ca) } else { ca.clone() };
    let (b, cb) = value_with(src, ty, &other)?;
    if !src.small() {
        depth_bucket(src, ca.len());
    }
    let same = ca == cb;
    src.nontrivial = !ca.is_empty() && !cb.is_empty();
    src.label(if same { "pair equal" } else { "pair different" });
    if same {
        identical(&a, &b, "two routes to the same node")?;
    } else {
        let (x, y) = (a.as_ref(), b.as_ref());
        ensure!(!x.eq(y) && !y.eq(x), "{}: different indices {} and {} compare equal", ty.name, show(&ca), show(&cb));
        ensure!(x.ne(y) && y.ne(x), "{}: != does not hold between different indices", ty.name);
        ensure!(
            x.cmp(y) != Ordering::Equal && y.cmp(x) != Ordering::Equal && x.pcmp(y) != Some(Ordering::Equal),
            "{}: different indices {} and {} compare as Equal", ty.name, show(&ca), show(&cb)
        );
        ensure!(x.pcmp(y).is_some(), "{}: partial_cmp gives None", ty.name);
    }
    identical(&a, &a.dup(), "clone")?;
    if let Some(c) = b.copy() {
        identical(&b, &c, "copy")?;
    }
    // reading leaves the value alone
    let again = observe(&a)?;
    ensure!(again == ca, "{}: cells changed by comparing", ty.name);
    Ok(())
}

// --------------------------------------------------------------------------------------------------------- C04

fn check_pair(a: &V, b: &V, want: Ordering, ca: &[u8], cb: &[u8]) -> R {
    let (x, y) = (a.as_ref(), b.as_ref());
    let name = x.ty().name;
    let got = x.cmp(y);
    ensure!(got == want, "{}: {} compared with {} gives {:?}, expected {:?}", name, show(ca), show(cb), got, want);
    let got = y.cmp(x);
    ensure!(got == flip(want), "{}: {} compared with {} gives {:?}, expected {:?}", name, show(cb), show(ca), got, flip(want));
    ensure!(x.pcmp(y) == Some(want) && y.pcmp(x) == Some(flip(want)), "{}: partial_cmp disagrees with cmp for {} / {}", name, show(ca), show(cb));
    let ops = [want == Ordering::Less, want != Ordering::Greater, want == Ordering::Greater, want != Ordering::Less];
    ensure!(x.ops(y) == ops, "{}: operators <, <=, >, >= on {} / {} give {:?}", name, show(ca), show(cb), x.ops(y));
    if want == Ordering::Equal {
        ensure!(x.eq(y), "{}: {} compares Equal but is not equal", name, show(ca));
    } else {
        ensure!(!x.eq(y), "{}: {} and {} are ordered but equal", name, show(ca), show(cb));
    }
    Ok(())
}

pub fn c04(src: &mut Src) -> R {
    let ty = any_ty(src);
    let k = if src.small() { 2 } else { 2 + src.below(6) };
    let mut vals: Vec<V> = Vec::new();
    let mut cs: Vec<Vec<u8>> = Vec::new();
    for i in 0..k {
        let want = if i == 0 {
            let n = fit_depth(src, ty);
            cells(src, ty.dim, n)
        } else {
            let base = cs[src.below(cs.len())].clone();
            related(src, ty, &base)
        };
        let (v, c) = if src.small() || src.chance(1, 2) {
            let v = slice(ty, &want)?;
            let c = observe(&v)?;
            src.note(|| format!("{} {}", ty.name, show(&c)));
            (v, c)
        } else {
            value_with(src, ty, &want)?
        };
        vals.push(v);
        cs.push(c);
    }
    let mut differ = false;
    for i in 0..k {
        for j in i..k {
            let want = model::preorder(&cs[i], &cs[j]);
            differ |= want != Ordering::Equal && cs[i].first() == cs[j].first();
            check_pair(&vals[i], &vals[j], want, &cs[i], &cs[j])?;
        }
    }
    src.nontrivial = differ;
    if !src.small() {
        depth_bucket(src, cs[0].len());
        src.label(if cs.iter().any(|c| c.len() != cs[0].len()) { "different depths" } else { "one depth" });
    }
    let mut sorted = cs.clone();
    sorted.sort_by(|a, b| model::preorder(a, b));
    let mut unique = sorted.clone();
    unique.dedup();
    let m = (ty.many)(&vals);
    ensure!(m.sorted == sorted, "{}: sort does not give tree pre-order: {:?}", ty.name, m.sorted.iter().map(|c| show(c)).collect::<Vec<_>>());
    ensure!(m.sorted_unstable == sorted, "{}: sort_unstable does not give tree pre-order", ty.name);
    ensure!(m.btree == unique, "{}: a BTreeSet does not iterate in tree pre-order", ty.name);
    ensure!(m.max.as_ref() == sorted.last() && m.min.as_ref() == sorted.first(), "{}: max/min are wrong", ty.name);
    ensure!(m.is_sorted_search_ok, "{}: lookup of a member fails (binary search, BTreeSet or HashSet)", ty.name);
    // the other flavours order the same nodes in the same way
    let (i, j) = (0, k - 1);
    let want = model::preorder(&cs[i], &cs[j]);
    for t in types(src.custom).into_iter().filter(|t| t.dim == ty.dim && t.id != ty.id) {
        if src.small() && t.bits > 16 {
            continue;
        }
        if cs[i].len() > t.cap() || cs[j].len() > t.cap() || (t.flavour == Flavour::Fixed && (cs[i].len() != t.cap() || cs[j].len() != t.cap())) {
            continue;
        }
        let (x, y) = (slice(t, &cs[i])?, slice(t, &cs[j])?);
        check_pair(&x, &y, want, &cs[i], &cs[j])?;
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------------------- C05

fn grid_depth(src: &mut Src, ty: &Ty) -> usize {
    match ty.flavour {
        Flavour::Fixed => ty.cap(),
        Flavour::Static => upto_cap(src, ty.cap()),
        Flavour::Dynamic => {
            if src.small() {
                src.below(4)
            } else {
                upto_cap(src, model::WORD / 2)
            }
        }
    }
}

pub fn c05(src: &mut Src) -> R {
    let ty = any_ty(src);
    let o = ord(src, ty.dim);
    if !src.small() && ty.variable() && src.chance(1, 8) {
        return c05_refused(src, ty, o);
    }
    let d = grid_depth(src, ty);
    let g = coords(src, ty.dim, d);
    if !ty.grids(d) {
        src.label("grid deeper than the word");
        ensure!(catch(|| (ty.from_grid)(g, d, o).is_ok()).is_err(), "{}: a grid of depth {} is accepted although no word holds its coordinates", ty.name, d);
        return Ok(());
    }
    src.note(|| format!("{}::from_grid_index({:?}, depth {}, {})", ty.name, &g[..ty.dim], d, model::ord_name(ty.dim, o)));
    if !src.small() {
        depth_bucket(src, d);
        src.label(model::ord_name(ty.dim, o));
    }
    let want = model::cells_from_grid(ty.dim, g, d, o);
    src.nontrivial = varied(&want);
    let v = (ty.from_grid)(g, d, o).map_err(|e| Stop::Fail(format!("{}: grid depth {} refused: {:?}", ty.name, d, e)))?;
    let what = "from_grid_index";
    shows(&v, &want, what)?;
    if d < model::WORD {
        let gm = mask_coords(g, d);
        let w = (ty.from_grid)(gm, d, o).map_err(|e| Stop::Fail(format!("{}: grid depth {} refused: {:?}", ty.name, d, e)))?;
        shows(&w, &want, "from_grid_index without the bits above the depth")?;
        ensure!(v.eq(w.as_ref()), "{}: coordinate bits above the depth change the index", ty.name);
    }
    let r = built(ty, &want)?;
    ensure!(v.eq(r.as_ref()), "{}: from_grid_index differs from the index built from the interleaved cells {}", ty.name, show(&want));
    if let Some(f) = (ty.from_grid_fast)(g, o) {
        src.label("fast routine");
        shows(&f, &want, "from_grid_index_fast")?;
        ensure!(f.eq(v.as_ref()), "{}: fast and general grid conversion disagree on {:?}", ty.name, g);
    }
    Ok(())
}

fn c05_refused(src: &mut Src, ty: &'static Ty, o: u8) -> R {
    let g = coords(src, ty.dim, model::WORD);
    let cap = ty.max().unwrap_or(model::WORD / 2);
    let d = match src.below(3) {
        0 => cap + 1 + src.below(4),
        1 => (cap + 1 + src.below(70)).max(64),
        _ => huge(src, 3).max(cap + 1),
    };
    src.note(|| format!("{}::from_grid_index({:?}, depth {}) beyond the limit", ty.name, &g[..ty.dim], d));
    src.label("depth beyond the limit");
    src.nontrivial = true;
    if ty.flavour == Flavour::Dynamic && d > 100_000 {
        // may legitimately panic or exhaust memory; nothing to learn
        let r = catch(|| if d > 1 << (model::WORD - 24) { (ty.from_grid)(g, d, o).is_ok() } else { false });
        ensure!(!matches!(r, Ok(true)), "{}: an index for grid depth {} was made", ty.name, d);
        return Ok(());
    }
    match catch(|| (ty.from_grid)(g, d, o)) {
        Err(_) => ensure!(ty.flavour == Flavour::Dynamic, "{}: grid depth {} panics instead of returning an error", ty.name, d),
        Ok(Err(e)) => ensure!(matches!(e, Refused::Depth(l, _) if Some(l) == ty.max()), "{}: wrong error for grid depth {}: {:?}", ty.name, d, e),
        Ok(Ok(v)) => {
            ensure!(ty.flavour == Flavour::Dynamic, "{}: grid depth {} accepted", ty.name, d);
            shows(&v, &model::cells_from_grid(ty.dim, g, d, o), "from_grid_index beyond half a word of levels")?;
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------------------- C06

pub fn c06(src: &mut Src) -> R {
    let ty = any_ty(src);
    let (v, c) = if src.chance(1, 8) && !src.small() {
        // few low bits in a deep index: coordinates fit although the depth exceeds the coordinate width
        let n = fit_depth(src, ty);
        let mut c = cells(src, ty.dim, n);
        let keep = src.below(66);
        for l in 0..c.len().saturating_sub(keep) {
            c[l] = 0;
        }
        value_with(src, ty, &c)?
    } else {
        value(src, ty)?
    };
    let o = ord(src, ty.dim);
    if !src.small() {
        depth_bucket(src, c.len());
        src.label(model::ord_name(ty.dim, o));
    }
    src.nontrivial = varied(&c);
    let want = match model::grid_from_cells(ty.dim, &c, o) {
        None => {
            src.label("coordinates do not fit");
            if let Ok(g) = catch(|| v.to_grid(o)) {
                fail!("{}: grid coordinates of a depth {} index do not fit, but {:?} is returned", ty.name, c.len(), g);
            }
            return Ok(());
        }
        Some(w) => w,
    };
    let got = v.to_grid(o);
    ensure!(got == want, "{}: grid index of {} under {} is {:?}, expected {:?}", ty.name, show(&c), model::ord_name(ty.dim, o), got, want);
    shows(&v, &c, "after to_grid_index")?;
    let can = ty.grids(c.len());
    if can {
        // index -> grid -> index
        let w = (ty.from_grid)(got, c.len(), o).map_err(|e| Stop::Fail(format!("{}: grid depth {} refused: {:?}", ty.name, c.len(), e)))?;
        shows(&w, &c, "grid and back")?;
        ensure!(w.eq(v.as_ref()), "{}: {} is not equal to itself after a trip over the grid", ty.name, show(&c));
        if c.len() <= model::WORD {
            // grid -> index -> grid
            let g = mask_coords(coords(src, ty.dim, c.len()), c.len());
            let x = (ty.from_grid)(g, c.len(), o).map_err(|e| Stop::Fail(format!("{}: grid depth {} refused: {:?}", ty.name, c.len(), e)))?;
            let back = x.to_grid(o);
            ensure!(back == g, "{}: grid coordinates {:?} come back as {:?} (depth {}, {})", ty.name, g, back, c.len(), model::ord_name(ty.dim, o));
        }
    }
    // another index of the same depth has other coordinates
    if !c.is_empty() {
        let mut c2 = c.clone();
        let l = src.below(c2.len());
        c2[l] = (c2[l] + 1 + src.upto(ty.cells() as u64 - 2) as u8) % ty.cells();
        if model::grid_from_cells(ty.dim, &c2, o).is_some() {
            let y = slice(ty, &c2)?;
            ensure!(y.to_grid(o) != got, "{}: {} and {} have the same coordinates", ty.name, show(&c), show(&c2));
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------------------- C07

pub fn c07(src: &mut Src) -> R {
    let ty = ty_where(src, |t| t.variable());
    let (v, c) = value(src, ty)?;
    let d = c.len();
    if !src.small() {
        depth_bucket(src, d);
    }
    src.nontrivial = varied(&c);
    let before = v.dup();
    // upwards
    let g = match if src.small() { src.below(2) } else { src.weighted(&[6, 2, 2, 2]) } {
        0 => 1 + src.below(d.max(1)),
        1 => d + 1,
        2 => d + 1 + src.below(300),
        _ => huge(src, src_low(d)).max(1),
    };
    src.note(|| format!("ancestor({})", g));
    let up = v.ancestor(g);
    if g <= d {
        let a = up.ok_or_else(|| Stop::Fail(format!("{}: depth {} has no ancestor {} generations up", ty.name, d, g)))?;
        shows(&a, &c[..d - g], "ancestor")?;
        ensure!(a.eq(built(ty, &c[..d - g])?.as_ref()), "{}: ancestor({}) of {} is not equal to that node", ty.name, g, show(&c));
        // and down again
        let back = a.descendant(&c[d - g..]).ok_or_else(|| Stop::Fail(format!("{}: going down again is refused", ty.name)))?;
        shows(&back, &c, "up and down again")?;
        ensure!(back.eq(v.as_ref()), "{}: up {} and down again is not equal to {}", ty.name, g, show(&c));
        identical(&back, &v, "up and down again")?;
    } else {
        ensure!(up.is_none(), "{}: an index of depth {} has an ancestor {} generations up", ty.name, d, g);
    }
    let p = v.parent();
    if d > 0 {
        let p = p.ok_or_else(|| Stop::Fail(format!("{}: no parent at depth {}", ty.name, d)))?;
        shows(&p, &c[..d - 1], "parent")?;
        ensure!(p.eq(built(ty, &c[..d - 1])?.as_ref()), "{}: parent of {} is not equal to that node", ty.name, show(&c));
    } else {
        ensure!(p.is_none(), "{}: the root has a parent", ty.name);
    }
    // to a depth
    let nd = match if src.small() { 0 } else { src.weighted(&[5, 2, 1]) } {
        0 => src.below(d + 2),
        1 => d + src.below(300),
        _ => huge(src, src_low(d)),
    };
    src.note(|| format!("with_depth({})", nd));
    match v.with_depth(nd) {
        Some(w) => {
            ensure!(nd <= d, "{}: with_depth({}) of a depth {} index exists", ty.name, nd, d);
            shows(&w, &c[..nd], "with_depth")?;
            ensure!(w.eq(built(ty, &c[..nd])?.as_ref()), "{}: with_depth({}) of {} is not equal to that node", ty.name, nd, show(&c));
        }
        None => ensure!(nd > d, "{}: with_depth({}) of a depth {} index does not exist", ty.name, nd, d),
    }
    // downwards
    let room = ty.cap() - d;
    let k = if src.small() { src.below(3) } else { src.weighted(&[3, 1, 1, 1]) };
    let k = match k {
        0 => src.below(room.min(12) + 1),
        1 => room.min(70),
        2 => room.min(200) + 1 + src.below(8),
        _ => src.below(70),
    };
    let ext = cells(src, ty.dim, k);
    src.note(|| format!("descendant({})", show(&ext)));
    match v.descendant(&ext) {
        Some(w) => {
            ensure!(k <= room, "{}: descendant of depth {} exists", ty.name, d + k);
            let mut full = c.clone();
            full.extend_from_slice(&ext);
            shows(&w, &full, "descendant")?;
            ensure!(w.eq(built(ty, &full)?.as_ref()), "{}: descendant {} is not equal to that node", ty.name, show(&full));
            if k > 0 {
                let back = w.ancestor(k).ok_or_else(|| Stop::Fail(format!("{}: no way up again", ty.name)))?;
                shows(&back, &c, "down and up again")?;
                identical(&back, &v, "down and up again")?;
            } else {
                identical(&w, &v, "descendant by no cells")?;
            }
            let back = w.with_depth(d).ok_or_else(|| Stop::Fail(format!("{}: no way up again", ty.name)))?;
            identical(&back, &v, "down and with_depth again")?;
        }
        None => ensure!(k > room, "{}: descendant of depth {} + {} is refused", ty.name, d, k),
    }
    let cc = cell(src, ty.dim);
    match v.child(cc) {
        Some(w) => {
            ensure!(room >= 1, "{}: child at depth {} exists", ty.name, d + 1);
            let mut full = c.clone();
            full.push(cc);
            shows(&w, &full, "child")?;
            ensure!(w.eq(built(ty, &full)?.as_ref()), "{}: child {} is not equal to that node", ty.name, show(&full));
            let back = w.parent().ok_or_else(|| Stop::Fail(format!("{}: a child has no parent", ty.name)))?;
            shows(&back, &c, "parent of child")?;
            identical(&back, &v, "parent of child")?;
        }
        None => ensure!(room == 0, "{}: child at depth {} is refused", ty.name, d + 1),
    }
    shows(&v, &c, "after navigation")?;
    identical(&v, &before, "after navigation")
}

fn src_low(d: usize) -> usize {
    d & 0xFF
}

// --------------------------------------------------------------------------------------------------------- C08

pub fn c08(src: &mut Src) -> R {
    let ty = any_ty(src);
    let (mut v, mut m) = if !src.small() && src.chance(1, 2) {
        let n = fit_depth(src, ty);
        let c = cells(src, ty.dim, n);
        let v = slice(ty, &c)?;
        let c = observe(&v)?;
        src.note(|| format!("{} {}", ty.name, show(&c)));
        (v, c)
    } else {
        value(src, ty)?
    };
    src.nontrivial = varied(&m);
    if !src.small() {
        depth_bucket(src, m.len());
    }
    let hops = if src.small() { 2 } else { 1 + src.below(4) };
    let mut exact = true;
    let start = v.dup();
    for h in 0..hops {
        let mut targets = v.ty().targets(src.custom);
        if src.small() {
            targets.retain(|t| t.bits <= 16);
        }
        // one hop to each target first, then follow one of them
        if h == 0 {
            for t in &targets {
                one_conversion(&v, t, &m)?;
            }
        }
        let t = targets[src.below(targets.len())];
        src.note(|| format!("convert to {}", t.name));
        match one_conversion(&v, t, &m)? {
            None => {
                src.label("conversion refused");
                break;
            }
            Some((w, wm)) => {
                exact &= wm == m;
                v = w;
                m = wm;
            }
        }
        if v.ty().id == start.ty().id && exact {
            identical(&v, &start, "converted there and back")?;
        }
    }
    Ok(())
}

fn one_conversion(v: &V, t: &'static Ty, m: &[u8]) -> Result<Option<(V, Vec<u8>)>, Stop> {
    let from = v.ty().name;
    let r = match v.convert(t) {
        None => return Err(Stop::Discard("no conversion")),
        Some(r) => r,
    };
    match r {
        Err(e) => {
            ensure!(m.len() > t.cap(), "{} of depth {} is refused by {}: {:?}", from, m.len(), t.name, e);
            ensure!(matches!(e, Refused::Depth(l, _) if l == t.cap()), "{} to {}: wrong error {:?}", from, t.name, e);
            Ok(None)
        }
        Ok(w) => {
            ensure!(m.len() <= t.cap(), "{} of depth {} is accepted by {}", from, m.len(), t.name);
            let mut want = m.to_vec();
            if t.flavour == Flavour::Fixed {
                want.resize(t.cap(), 0);
            }
            shows(&w, &want, &format!("converted from {}", from))?;
            let direct = built(t, &want)?;
            ensure!(w.eq(direct.as_ref()), "{} to {}: not equal to the index with the same cells {}", from, t.name, show(&want));
            shows(v, m, "after conversion of a copy")?;
            Ok(Some((w, want)))
        }
    }
}

// --------------------------------------------------------------------------------------------------------- C09

pub fn c09(src: &mut Src) -> R {
    let ty = any_ty(src);
    let a = (ty.announced)();
    ensure!(
        a.max_depth == ty.max() && a.storage_type_max_depth == ty.max(),
        "{}: announced maximum depth is {:?}/{:?}, expected {:?}", ty.name, a.max_depth, a.storage_type_max_depth, ty.max()
    );
    ensure!(a.max_levels == ty.max().unwrap_or(0), "{}: MAX_LEVELS is {}", ty.name, a.max_levels);
    ensure!(a.dimensionality == [ty.dim; 2], "{}: DIMENSIONALITY is {:?}", ty.name, a.dimensionality);
    if let Some(m) = a.inherent_max {
        ensure!(m == ty.cap(), "{}: MAX_LEVELS of the index type is {}", ty.name, m);
    }
    if let Some(m) = a.inherent_mask {
        ensure!(m == mask_coords([usize::MAX; 3], ty.cap())[0], "{}: MAX_LEVELS_BITMASK is {:b}", ty.name, m);
    }
    let cap = ty.max();
    let n = match (cap, if src.small() { 0 } else { src.weighted(&[5, 2, 1, 1, 1]) }) {
        (Some(m), 0) => (m + src.below(5)).saturating_sub(2),
        (Some(m), 1) => src.below(2 * m + 20),
        (None, 0) | (None, 1) => dyn_depth(src, ty.dim),
        (_, 2) => 253 + src.below(8),
        // looks like a small number when reduced to 8 bits
        (m, 3) => 256 * (1 + src.below(3)) + src.below(m.unwrap_or(64) + 2),
        (m, _) => [if cfg!(miri) { 1 << 8 } else { 1 << 16 }, 1 << 8][src.below(2)] + src.below(m.unwrap_or(20) + 2),
    };
    let route = src.below(8);
    let fits = n <= ty.cap();
    src.label(["slice", "array", "zeroed", "grid", "descendant", "child", "conversion", "raw bits"][route]);
    src.label(if fits { "fits" } else { "exceeds" });
    src.note(|| format!("{} route {} with {} levels", ty.name, route, n));
    src.nontrivial = n > 0;
    let verdict = |ok: bool, what: &str| -> R {
        ensure!(ok == fits, "{}: {} of {} levels is {}, the limit is {:?}", ty.name, what, n, if ok { "accepted" } else { "refused" }, ty.max());
        Ok(())
    };
    let named = |e: &Refused| -> R {
        match e {
            Refused::Depth(l, text) => {
                ensure!(Some(*l) == ty.max(), "{}: the error names the limit {} instead of {:?}", ty.name, l, ty.max());
                ensure!(text.contains(&l.to_string()), "{}: the error message does not name the limit: {}", ty.name, text);
                Ok(())
            }
            o => fail!("{}: exceeding the capacity gives {:?}", ty.name, o),
        }
    };
    let full = |c: &[u8]| {
        let mut w = c.to_vec();
        if ty.flavour == Flavour::Fixed {
            w.resize(ty.cap(), 0);
        }
        w
    };
    match route {
        0 | 1 => {
            let c = cells(src, ty.dim, n);
            let r = if route == 0 {
                (ty.from_slice)(&c)
            } else {
                match (ty.from_array)(&c) {
                    None => return Err(Stop::Discard("no array of this length")),
                    Some(r) => r,
                }
            };
            verdict(r.is_ok(), "a list")?;
            match r {
                Err(e) => named(&e)?,
                Ok(v) => shows(&v, &full(&c), "list")?,
            }
        }
        2 if ty.flavour == Flavour::Dynamic && !src.small() && src.chance(1, 4) => {
            // so deep that the number of bits overflows: there is no memory for it, the only right answer is a refusal
            let d = if ty.dim == 2 {
                usize::MAX - src.below(3)
            } else {
                let wraps = src.below(2) as u128 + 1;
                ((wraps << model::WORD) / 3) as usize - 1 + src.below(3000)
            };
            src.label("overflowing depth");
            src.note(|| format!("depth {}", d));
            if ty.dim == 2 || (d as u128 * 3 + 7) & (usize::MAX as u128) < 1 << 20 {
                let r = catch(|| (ty.zeroed)(d));
                ensure!(!matches!(r, Ok(Some(Some(_)))), "{}: zeroed({}) is accepted", ty.name, d);
            }
        }
        2 => {
            match (ty.zeroed)(n) {
                None => return Err(Stop::Discard("no such constructor")),
                Some(r) => {
                    verdict(r.is_some(), "zeroed")?;
                    if let Some(v) = r {
                        shows(&v, &vec![0; n], "zeroed")?;
                    }
                }
            }
        }
        3 => {
            if ty.flavour == Flavour::Fixed || !ty.grids(n) && ty.flavour == Flavour::Dynamic {
                return Err(Stop::Discard("no such constructor"));
            }
            let d = if !fits && src.chance(1, 2) { huge(src, n & 0xFF).max(ty.cap() + 1) } else { n };
            let g = coords(src, ty.dim, d.min(model::WORD));
            let o = ord(src, ty.dim);
            match (ty.from_grid)(g, d, o) {
                Err(e) => {
                    verdict(false, "a grid depth")?;
                    named(&e)?;
                }
                Ok(v) => {
                    verdict(true, "a grid depth")?;
                    ensure!(v.depth() == d, "{}: grid depth {} gives depth {}", ty.name, d, v.depth());
                }
            }
        }
        4 | 5 => {
            if !ty.variable() {
                return Err(Stop::Discard("no such constructor"));
            }
            let (c, k) = if route == 5 {
                if n == 0 {
                    return Err(Stop::Discard("no such constructor"));
                }
                (cells(src, ty.dim, (n - 1).min(ty.cap())), 1)
            } else {
                let first = src.below(n.min(ty.cap()) + 1);
                (cells(src, ty.dim, first), n - first)
            };
            let n = c.len() + k;
            let fits = n <= ty.cap();
            let ext = cells(src, ty.dim, k);
            let v = slice(ty, &c)?;
            let r = if route == 5 { v.child(ext[0]) } else { v.descendant(&ext) };
            ensure!(r.is_some() == fits, "{}: a descendant of depth {} is {}", ty.name, n, if r.is_some() { "accepted" } else { "refused" });
            if let Some(w) = r {
                let mut all = c.clone();
                all.extend_from_slice(&ext);
                shows(&w, &all, "descendant")?;
            }
            shows(&v, &c, "after descendant")?;
        }
        7 => {
            if ty.flavour != Flavour::Static || !ty.has_raw() || n > 255 {
                return Err(Stop::Discard("no such constructor"));
            }
            let raw = src.int128(ty.bits as u32);
            let r = catch(|| (ty.from_raw)(raw, n));
            verdict(r.is_ok(), "raw bits")?;
            if let Ok(Some(v)) = r {
                shows(&v, &model::cells_from_raw(3, ty.bits, raw, n), "raw bits")?;
            }
        }
        _ => {
            if ty.flavour == Flavour::Dynamic {
                return Err(Stop::Discard("no such constructor"));
            }
            let c = cells(src, ty.dim, n);
            let v = slice(ty.dynamic_twin(), &c)?;
            match v.convert(ty) {
                None => return Err(Stop::Discard("no conversion")),
                Some(Ok(w)) => {
                    verdict(true, "a dynamic index")?;
                    shows(&w, &full(&c), "conversion")?;
                }
                Some(Err(e)) => {
                    verdict(false, "a dynamic index")?;
                    named(&e)?;
                }
            }
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------------------- C10

pub fn c10(src: &mut Src) -> R {
    let ty = any_ty(src);
    let (v, c) = value(src, ty)?;
    if !src.small() {
        depth_bucket(src, c.len());
    }
    src.nontrivial = varied(&c);
    let plain = v.name(0);
    ensure!(plain == model::name(&c), "{}: name of {} is {:?}", ty.name, show(&c), plain);
    let parsed: Vec<u8> = plain.bytes().map(|b| b.wrapping_sub(b'0')).collect();
    ensure!(parsed == c, "{}: the name {:?} does not lead back to {}", ty.name, plain, show(&c));
    let rooted = v.name(1);
    ensure!(rooted == format!("r{}", plain), "{}: rooted name of {} is {:?}", ty.name, show(&c), rooted);
    if let Some(g) = model::grid_from_cells(ty.dim, &c, 0) {
        let name = v.name(2);
        let mut want = c.len().to_string();
        for x in g.iter().take(ty.dim) {
            want.push('-');
            want.push_str(&x.to_string());
        }
        ensure!(name == want, "{}: grid name of {} is {:?}, expected {:?}", ty.name, show(&c), name, want);
        src.note(|| format!("{:?} {:?} {:?}", plain, rooted, name));
        // parse it back with the crate
        if ty.grids(c.len()) {
            let parts: Vec<usize> = name.split('-').filter_map(|p| p.parse().ok()).collect();
            ensure!(parts.len() == ty.dim + 1, "{}: grid name {:?} does not parse", ty.name, name);
            let mut g = [0; 3];
            g[..ty.dim].copy_from_slice(&parts[1..]);
            if let Ok(Ok(w)) = catch(|| (ty.from_grid)(g, parts[0], 0)) {
                let back = observe(&w)?;
                ensure!(back == c, "{}: the grid name {:?} leads back to {} instead of {}", ty.name, name, show(&back), show(&c));
            }
        }
    }
    shows(&v, &c, "after naming")
}

// --------------------------------------------------------------------------------------------------------- C11

pub fn c11(src: &mut Src) -> R {
    let ty = any_ty(src);
    let (v, c) = value(src, ty)?;
    if !src.small() {
        depth_bucket(src, c.len());
        src.label(if c.len() % 2 == 0 { "even depth" } else { "odd depth" });
    }
    let mut rev = c.clone();
    rev.reverse();
    src.nontrivial = rev != c;
    let before = v.dup();
    let i = v.inverted();
    shows(&i, &rev, "inverted")?;
    shows(&v, &c, "after inverting")?;
    ensure!(v.eq(before.as_ref()), "{}: inverting changed the index", ty.name);
    let direct = built(ty, &rev)?;
    identical(&i, &direct, "inverted index and the one built from the reversed cells")?;
    let o = related(src, ty, &rev);
    let o = slice(ty, &o)?;
    ensure!(i.cmp(o.as_ref()) == direct.cmp(o.as_ref()) && o.cmp(i.as_ref()) == o.cmp(direct.as_ref()), "{}: inverted index is ordered differently", ty.name);
    ensure!(i.eq(o.as_ref()) == direct.eq(o.as_ref()), "{}: inverted index compares differently", ty.name);
    let ii = i.inverted();
    shows(&ii, &c, "inverted twice")?;
    identical(&ii, &v, "inverted twice")?;
    // it can be used like any other index
    if !rev.is_empty() {
        let l = src.below(rev.len());
        let cc = cell(src, ty.dim);
        let mut w = i.dup();
        w.set(l, cc);
        let mut m = rev.clone();
        m[l] = cc;
        shows(&w, &m, "written inverted index")?;
        shows(&i, &rev, "inverted index after writing into its clone")?;
    }
    if ty.variable() {
        if let Some(p) = i.parent() {
            shows(&p, &rev[..rev.len() - 1], "parent of inverted index")?;
            ensure!(p.eq(built(ty, &rev[..rev.len() - 1])?.as_ref()), "{}: parent of an inverted index is not equal to that node", ty.name);
        }
        let cc = cell(src, ty.dim);
        if let Some(p) = i.child(cc) {
            let mut m = rev.clone();
            m.push(cc);
            shows(&p, &m, "child of inverted index")?;
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------------------- C16

pub fn c16(src: &mut Src) -> R {
    let dim = if src.chance(1, 2) { 3 } else { 2 };
    src.label(if dim == 2 { "2D" } else { "3D" });
    let types: Vec<&'static Ty> = types(src.custom).into_iter().filter(|t| t.dim == dim && t.variable()).filter(|t| !src.small() || t.bits <= 16).collect();
    let mut held: Vec<Option<V>> = types.iter().map(|t| Some((t.default)())).collect();
    let mut m: Vec<u8> = Vec::new();
    // snapshots of earlier states, per type
    let mut snaps: Vec<(Vec<Option<V>>, Vec<u8>)> = Vec::new();
    let steps = if src.small() { 3 } else { 1 + src.below(14) };
    let mut writes = 0;
    let mut moves = 0;
    for _ in 0..steps {
        let op = if src.small() { src.below(6) } else { src.weighted(&[6, 4, 6, 4, 3, 2, 2, 2, 2, 2, 1, 1, 1, 2, 2]) };
        match op {
            0 => {
                let c = cell(src, dim);
                src.note(|| format!("child({})", c));
                let full = m.len() + 1;
                for (t, h) in types.iter().zip(held.iter_mut()) {
                    if let Some(v) = h {
                        let r = v.child(c);
                        ensure!(r.is_some() == (full <= t.cap()), "{}: child at depth {} {}", t.name, full, if r.is_some() { "exists" } else { "is refused" });
                        *h = r;
                    }
                }
                m.push(c);
                moves += 1;
            }
            1 => {
                if m.is_empty() {
                    continue;
                }
                let l = src.below(m.len());
                let c = cell(src, dim);
                let un = src.chance(1, 3);
                src.note(|| format!("set({}, {})", l, c));
                for h in held.iter_mut().flatten() {
                    if un {
                        unsafe { h.set_un(l, c) }
                    } else {
                        h.set(l, c)
                    }
                }
                m[l] = c;
                writes += 1;
            }
            2 => {
                let most = if src.chance(1, 3) { m.len() + 2 } else { 3 };
                let g = 1 + src.below(most);
                let by_parent = g == 1 && src.chance(1, 2);
                src.note(|| format!("ancestor({})", g));
                for (t, h) in types.iter().zip(held.iter_mut()) {
                    if let Some(v) = h {
                        let r = if by_parent { v.parent() } else { v.ancestor(g) };
                        ensure!(r.is_some() == (g <= m.len()), "{}: ancestor({}) at depth {}: {}", t.name, g, m.len(), r.is_some());
                        if r.is_some() {
                            *h = r;
                        }
                    }
                }
                if g <= m.len() {
                    m.truncate(m.len() - g);
                    moves += 1;
                }
            }
            3 => {
                let k = if src.small() { src.below(3) } else { [src.below(5), src.below(40)][src.weighted(&[5, 1])] };
                let ext = cells(src, dim, k);
                src.note(|| format!("descendant({})", show(&ext)));
                for (t, h) in types.iter().zip(held.iter_mut()) {
                    if let Some(v) = h {
                        let r = v.descendant(&ext);
                        ensure!(r.is_some() == (m.len() + k <= t.cap()), "{}: descendant at depth {} + {}: {}", t.name, m.len(), k, r.is_some());
                        *h = r;
                    }
                }
                m.extend(ext);
                moves += 1;
            }
            4 => {
                let nd = src.below(m.len() + 2);
                src.note(|| format!("with_depth({})", nd));
                for (t, h) in types.iter().zip(held.iter_mut()) {
                    if let Some(v) = h {
                        let r = v.with_depth(nd);
                        ensure!(r.is_some() == (nd <= m.len()), "{}: with_depth({}) at depth {}: {}", t.name, nd, m.len(), r.is_some());
                        if r.is_some() {
                            *h = r;
                        }
                    }
                }
                if nd <= m.len() {
                    m.truncate(nd);
                }
            }
            5 => {
                src.note(|| "inverted".to_string());
                for h in held.iter_mut().flatten() {
                    *h = h.inverted();
                }
                m.reverse();
            }
            6 => {
                src.note(|| "snapshot".to_string());
                snaps.push((held.iter().map(|h| h.as_ref().map(|v| v.dup())).collect(), m.clone()));
            }
            7 => {
                // conversion to the other flavour and back
                src.note(|| "convert there and back".to_string());
                for (t, h) in types.iter().zip(held.iter_mut()) {
                    if let Some(v) = h {
                        let mid = if t.flavour == Flavour::Static {
                            t.dynamic_twin()
                        } else {
                            types[src.below(types.len() - 1)]
                        };
                        if mid.cap() < m.len() {
                            let r = v.convert(mid);
                            ensure!(matches!(r, Some(Err(_))), "{} of depth {} converts into {}", t.name, m.len(), mid.name);
                            continue;
                        }
                        let w = conv(v, mid)?;
                        shows(&w, &m, "converted")?;
                        *h = Some(conv(&w, t)?);
                    }
                }
            }
            8 => {
                // through the fixed-depth flavour and back to this depth
                src.note(|| "convert through fixed depth".to_string());
                for (t, h) in types.iter().zip(held.iter_mut()) {
                    if let Some(v) = h {
                        if t.flavour != Flavour::Static {
                            continue;
                        }
                        let f = conv(v, t.fixed_twin())?;
                        let mut want = m.clone();
                        want.resize(t.cap(), 0);
                        shows(&f, &want, "converted")?;
                        let back = if src.chance(1, 2) {
                            conv(&f, t)?
                        } else {
                            conv(&conv(&f, t.dynamic_twin())?, t)?
                        };
                        shows(&back, &want, "converted")?;
                        *h = back.with_depth(m.len());
                        ensure!(h.is_some(), "{}: with_depth({}) of a full index is refused", t.name, m.len());
                    }
                }
            }
            9 => {
                let o = ord(src, dim);
                if m.len() > model::WORD / 2 {
                    continue;
                }
                src.note(|| "grid round trip".to_string());
                for (t, h) in types.iter().zip(held.iter_mut()) {
                    if let Some(v) = h {
                        let g = v.to_grid(o);
                        match (t.from_grid)(g, m.len(), o) {
                            Ok(w) => *h = Some(w),
                            Err(e) => fail!("{}: grid depth {} refused: {:?}", t.name, m.len(), e),
                        }
                    }
                }
            }
            10 => {
                let n = src.below(40);
                src.note(|| format!("zeroed({})", n));
                for (t, h) in types.iter().zip(held.iter_mut()) {
                    let r = (t.zeroed)(n).flatten();
                    ensure!(r.is_some() == (n <= t.cap()), "{}: zeroed({}): {}", t.name, n, r.is_some());
                    *h = r;
                }
                m = vec![0; n];
            }
            11 => {
                src.note(|| "default".to_string());
                for (t, h) in types.iter().zip(held.iter_mut()) {
                    *h = Some((t.default)());
                }
                m.clear();
            }
            12 => {
                let n = if src.chance(1, 60) { deep_depth(src, dim) } else { src.below(70) };
                let c = cells(src, dim, n);
                let array = src.chance(1, 2);
                src.note(|| format!("from cells {}", show(&c)));
                for (t, h) in types.iter().zip(held.iter_mut()) {
                    let r = match (t.from_array)(&c) {
                        Some(r) if array => r,
                        _ => (t.from_slice)(&c),
                    };
                    ensure!(r.is_ok() == (n <= t.cap()), "{}: {} cells: {}", t.name, n, r.is_ok());
                    *h = r.ok();
                }
                m = c;
            }
            13 => {
                // take over another state, of about this depth or an earlier one
                let (vals, sm) = if !snaps.is_empty() && src.chance(1, 2) {
                    let (vals, sm) = &snaps[src.below(snaps.len())];
                    (vals.iter().map(|v| v.as_ref().map(|v| v.dup())).collect::<Vec<_>>(), sm.clone())
                } else {
                    let n = (m.len() + src.below(7)).saturating_sub(3);
                    let c = cells(src, dim, n);
                    (types.iter().map(|t| slice(t, &c).ok()).collect(), c)
                };
                src.note(|| format!("clone_from an index with the cells {}", show(&sm)));
                for (h, v) in held.iter_mut().zip(&vals) {
                    match (h.as_mut(), v) {
                        (Some(h), Some(v)) => h.clone_from_other(v.as_ref()),
                        _ => *h = v.as_ref().map(|v| v.dup()),
                    }
                }
                m = sm;
            }
            _ => {
                let l = m.len() + src.below(3) * src.below(200);
                let c = cell(src, dim);
                src.note(|| format!("access beyond the depth at {}", l));
                for h in held.iter_mut().flatten() {
                    ensure!(catch(|| h.get(l)).is_err(), "{}: reading level {} of depth {} does not panic", h.ty().name, l, m.len());
                    ensure!(catch(|| h.set(l, c)).is_err(), "{}: writing level {} of depth {} does not panic", h.ty().name, l, m.len());
                }
            }
        }
        // all observations after every step
        let o = ord(src, dim);
        let grid = model::grid_from_cells(dim, &m, o);
        let dgrid = model::grid_from_cells(dim, &m, 0);
        for (t, h) in types.iter().zip(held.iter()) {
            if let Some(v) = h {
                ensure!(m.len() <= t.cap(), "{}: still there at depth {}", t.name, m.len());
                shows(v, &m, "after the step")?;
                ensure!(v.name(0) == model::name(&m), "{}: name is {:?}", t.name, v.name(0));
                ensure!(v.name(1) == format!("r{}", model::name(&m)), "{}: name is {:?}", t.name, v.name(1));
                if let Some(g) = grid {
                    ensure!(v.to_grid(o) == g, "{}: grid coordinates of {} are {:?}, expected {:?}", t.name, show(&m), v.to_grid(o), g);
                }
                if let Some(g) = dgrid {
                    let want = format!("{}-{}", m.len(), g[..dim].iter().map(|x| x.to_string()).collect::<Vec<_>>().join("-"));
                    ensure!(v.name(2) == want, "{}: grid name is {:?}, expected {:?}", t.name, v.name(2), want);
                }
            }
        }
    }
    snaps.push((types.iter().map(|t| slice(t, &m).ok()).collect(), m.clone()));
    for (vals, sm) in &snaps {
        let want = model::preorder(&m, sm);
        for (s, h) in vals.iter().zip(held.iter()) {
            if let (Some(s), Some(h)) = (s, h) {
                shows(s, sm, "snapshot")?;
                check_pair(h, s, want, &m, sm)?;
                if want == Ordering::Equal {
                    identical(h, s, "same node after different histories")?;
                }
            }
        }
    }
    src.nontrivial = writes + moves >= 3;
    if !src.small() {
        depth_bucket(src, m.len());
    }
    Ok(())
}

fn conv(v: &V, t: &'static Ty) -> Result<V, Stop> {
    match v.convert(t) {
        Some(Ok(w)) => Ok(w),
        Some(Err(e)) => Err(Stop::Fail(format!("{} of depth {} does not convert into {}: {:?}", v.ty().name, v.depth(), t.name, e))),
        None => Err(Stop::Discard("no conversion")),
    }
}

// --------------------------------------------------------------------------------------------------------- C17

pub fn c17(src: &mut Src) -> R {
    let ty = any_ty(src);
    let o = ord(src, ty.dim);
    let d = grid_depth(src, ty);
    if !ty.grids(d) {
        return Err(Stop::Discard("no grid of this depth"));
    }
    let cut = if d < model::WORD { (1usize << d) - 1 } else { usize::MAX };
    let g = coords(src, ty.dim, d).map(|x| x & cut);
    let oname = model::ord_name(ty.dim, o);
    if !src.small() {
        depth_bucket(src, d);
        src.label(oname);
    }
    src.note(|| format!("{} grid {:?} depth {} {}", ty.name, &g[..ty.dim], d, oname));
    src.nontrivial = d >= 2 && g[..ty.dim].iter().any(|x| *x != 0);
    let make = |g: [usize; 3], d: usize| (ty.from_grid)(g, d, o).map_err(|e| Stop::Fail(format!("{}: grid depth {} refused: {:?}", ty.name, d, e)));
    let v = make(g, d)?;
    // order of two grid cells of one depth
    let mut h = [0; 3];
    for i in 0..ty.dim {
        h[i] = match if src.small() { 0 } else { src.below(4) } {
            0 => coord(src, d) & cut,
            1 => g[i],
            2 => (g[i] ^ (1usize << src.below(d.max(1)))) & cut,
            _ => g[i].wrapping_add(1) & cut,
        };
    }
    let w = make(h, d)?;
    let ax = model::axes(ty.dim, o);
    let mut want = Ordering::Equal;
    'bits: for pos in (0..d).rev() {
        for b in (0..ty.dim).rev() {
            let (x, y) = (model::bit(g[ax[b]], pos), model::bit(h[ax[b]], pos));
            if x != y {
                want = x.cmp(&y);
                break 'bits;
            }
        }
    }
    ensure!(
        v.cmp(w.as_ref()) == want && w.cmp(v.as_ref()) == flip(want) && v.ops(w.as_ref())[0] == (want == Ordering::Less),
        "{}: grid cells {:?} and {:?} at depth {} ({}) are ordered {:?}, expected {:?}", ty.name, g, h, d, oname, v.cmp(w.as_ref()), want
    );
    ensure!(v.eq(w.as_ref()) == (want == Ordering::Equal), "{}: grid cells {:?} and {:?}: equality is wrong", ty.name, g, h);
    if !ty.variable() {
        return Ok(());
    }
    // halving
    let k = src.below(d + 1);
    let coarse = make(g.map(|x| if k >= model::WORD { 0 } else { x >> k }), d - k)?;
    let up = if k == 0 { v.dup() } else { v.ancestor(k).ok_or_else(|| Stop::Fail(format!("{}: no ancestor({}) at depth {}", ty.name, k, d)))? };
    ensure!(up.eq(coarse.as_ref()), "{}: {} generations above grid cell {:?} of depth {} ({}) is {}, not {}", ty.name, k, g, d, oname, up.name(0), coarse.name(0));
    let reduced = v.with_depth(d - k).ok_or_else(|| Stop::Fail(format!("{}: no with_depth({}) at depth {}", ty.name, d - k, d)))?;
    ensure!(reduced.eq(coarse.as_ref()), "{}: grid cell {:?} reduced to depth {} is not the coarser grid cell", ty.name, g, d - k);
    // children tile the cell
    if d < ty.cap() && d < model::WORD && ty.grids(d + 1) {
        let mut seen = Vec::new();
        let mut last: Option<V> = None;
        for c in 0..ty.cells() {
            let child = v.child(c).ok_or_else(|| Stop::Fail(format!("{}: no child at depth {}", ty.name, d + 1)))?;
            let cg = child.to_grid(o);
            ensure!((0..ty.dim).all(|i| cg[i] >> 1 == g[i]), "{}: child {} of grid cell {:?} lies at {:?} ({})", ty.name, c, g, cg, oname);
            ensure!(!seen.contains(&cg), "{}: two children of {:?} share the grid cell {:?}", ty.name, g, cg);
            seen.push(cg);
            let direct = make(cg, d + 1)?;
            ensure!(direct.eq(child.as_ref()), "{}: grid cell {:?} of depth {} is not the child {} of {:?}", ty.name, cg, d + 1, c, g);
            ensure!(v.cmp(child.as_ref()) == Ordering::Less, "{}: a node does not sort before its child", ty.name);
            if let Some(l) = &last {
                ensure!(l.cmp(child.as_ref()) == Ordering::Less, "{}: children are not in order", ty.name);
            }
            last = Some(child);
        }
        let mut expect: Vec<[usize; 3]> = Vec::new();
        for n in 0..ty.cells() as usize {
            let mut e = [0; 3];
            for i in 0..ty.dim {
                e[i] = g[i] * 2 + ((n >> i) & 1);
            }
            expect.push(e);
        }
        seen.sort();
        expect.sort();
        ensure!(seen == expect, "{}: the children of {:?} cover {:?}", ty.name, g, seen);
    }
    // descendants are one run: no outsider sorts between the first and the last of them
    let room = (ty.cap() - d).min(4);
    let t = src.below(room + 1);
    let first = v.descendant(&vec![0; t]).ok_or_else(|| Stop::Fail(format!("{}: no descendant", ty.name)))?;
    let lastd = v.descendant(&vec![ty.cells() - 1; t]).ok_or_else(|| Stop::Fail(format!("{}: no descendant", ty.name)))?;
    let mine = model::cells_from_grid(ty.dim, g, d, o);
    let other = related(src, ty, &mine);
    let x = slice(ty, &other)?;
    if observe(&x)? == other {
        let inside = other.len() >= d && other[..d] == mine[..];
        let (lo, hi) = (v.cmp(x.as_ref()), x.cmp(lastd.as_ref()));
        if inside {
            ensure!(lo != Ordering::Greater, "{}: descendant {} sorts before its ancestor {}", ty.name, show(&other), show(&mine));
            if other.len() <= d + t {
                ensure!(hi != Ordering::Greater, "{}: descendant {} sorts after the last one", ty.name, show(&other));
            }
        } else {
            ensure!(
                x.cmp(v.as_ref()) == x.cmp(first.as_ref()) && x.cmp(first.as_ref()) == x.cmp(lastd.as_ref()),
                "{}: {} sorts in between the descendants of {}", ty.name, show(&other), show(&mine)
            );
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------------------- C18

pub fn c18(src: &mut Src) -> R {
    let ty = ty_where(src, |t| t.has_raw());
    let depth = if ty.flavour == Flavour::Fixed { ty.cap() } else { upto_cap(src, ty.cap()) };
    let raw = src.int128(ty.bits as u32);
    src.note(|| format!("{}::from_raw_index({:#x}, depth {})", ty.name, raw, depth));
    if !src.small() {
        depth_bucket(src, depth);
    }
    let unused = ty.bits - 3 * depth;
    let want = model::cells_from_raw(3, ty.bits, raw, depth);
    src.nontrivial = varied(&want);
    let v = (ty.from_raw)(raw, depth).ok_or(Stop::Discard("no such constructor"))?;
    shows(&v, &want, "from_raw_index")?;
    let direct = built(ty, &want)?;
    identical(&v, &direct, "raw bits and the index with the same cells")?;
    // other unused bits, same index
    let junk = src.int128(ty.bits as u32) & model::low_mask(unused);
    let raw2 = (raw & !model::low_mask(unused)) | junk;
    let w = (ty.from_raw)(raw2, depth).ok_or(Stop::Discard("no such constructor"))?;
    shows(&w, &want, "from_raw_index with other unused bits")?;
    identical(&v, &w, "raw bits that differ only in unused bits")?;
    if raw != raw2 {
        src.label("unused bits differ");
    }
    // order of two raw values
    let raw3 = match if src.small() { 0 } else { src.below(3) } {
        0 => src.int128(ty.bits as u32),
        1 => raw ^ (1u128 << src.below(ty.bits)),
        _ => raw.wrapping_add(1u128.checked_shl(unused as u32).unwrap_or(0)) & model::low_mask(ty.bits),
    };
    let x = (ty.from_raw)(raw3, depth).ok_or(Stop::Discard("no such constructor"))?;
    let (a, b) = (raw >> unused.min(127) >> (unused - unused.min(127)), raw3 >> unused.min(127) >> (unused - unused.min(127)));
    let ord = a.cmp(&b);
    check_pair(&v, &x, ord, &want, &model::cells_from_raw(3, ty.bits, raw3, depth))?;
    if ord == Ordering::Equal {
        identical(&v, &x, "raw bits that differ only in unused bits")?;
    }
    // what follows behaves like the direct index
    if ty.variable() {
        let k = src.below(ty.cap() - depth + 1);
        let ext = cells(src, 3, k);
        let (p, q) = (w.descendant(&ext), direct.descendant(&ext));
        if let (Some(p), Some(q)) = (p, q) {
            identical(&p, &q, "descendants of a raw index and of the direct one")?;
        }
        if let (Some(p), Some(q)) = (w.parent(), direct.parent()) {
            identical(&p, &q, "parents of a raw index and of the direct one")?;
        }
    }
    for t in ty.targets(src.custom) {
        if let (Some(Ok(p)), Some(Ok(q))) = (w.convert(t), direct.convert(t)) {
            ensure!(p.eq(q.as_ref()), "{} converted to {}: raw and direct index differ", ty.name, t.name);
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------------------- C20

pub fn c20(src: &mut Src) -> R {
    let ty = any_ty(src);
    let long = !src.small() && !cfg!(miri) && src.chance(1, 100);
    let n = if long { src.label("long slice"); 7 + src.below(300) } else { src.below(if src.small() { 3 } else { 7 }) };
    let mut vals = Vec::new();
    let mut names: [Vec<String>; 3] = Default::default();
    let mut cs = Vec::new();
    for _ in 0..n {
        let k = if src.small() || long { src.below(2) } else { fit_depth(src, ty).min(90) };
        let c = cells(src, ty.dim, k);
        let v = slice(ty, &c)?;
        names[0].push(v.name(0));
        names[1].push(v.name(1));
        let fits = model::grid_from_cells(ty.dim, &observe(&v)?, 0).is_some();
        names[2].push(if fits { v.name(2) } else { String::new() });
        cs.push((c, fits));
        vals.push(v);
    }
    let naming = src.below(3) as u8;
    src.nontrivial = n >= 2;
    src.label(["plain names", "rooted names", "grid names"][naming as usize]);
    if naming != 2 || cs.iter().all(|c| c.1) {
        let want = format!("[{}]", names[naming as usize].join(", "));
        let room = [src.below(want.len() + 3), want.len() + src.below(3) - 1][src.below(2)];
        let p = (ty.display)(&vals, naming, room);
        src.note(|| want.clone());
        ensure!(p.display == want, "{}: displayed slice is {:?}, expected {:?}", ty.name, p.display, want);
        ensure!(p.debug == want, "{}: debug form is {:?}, expected {:?}", ty.name, p.debug, want);
        // a writer that fails on the way: the failure is handed on, and what arrived is a part of the whole
        if room < want.len() {
            src.label("writer fails");
        }
        for (done, text) in &p.cramped {
            ensure!(*done == (room >= want.len()), "{}: displaying {:?} where {} bytes fit is reported as {}", ty.name, want, room, if *done { "done" } else { "failed" });
            ensure!(want.starts_with(text.as_str()) && (!done || text == &want), "{}: displaying {:?} where {} bytes fit leaves {:?}", ty.name, want, room, text);
        }
    }
    // comparison with another slice
    let mut other: Vec<V> = vals.iter().map(|v| v.dup()).collect();
    match src.below(5) {
        0 => {}
        1 => {
            if !other.is_empty() {
                let i = src.below(other.len());
                let c = related(src, ty, &cs[i].0);
                other[i] = slice(ty, &c)?;
            }
        }
        2 => {
            other.pop();
        }
        3 => {
            let k = fit_depth(src, ty).min(20);
            let c = cells(src, ty.dim, k);
            other.push(slice(ty, &c)?);
        }
        _ => {
            if other.len() >= 2 {
                other.swap(0, 1);
            }
        }
    }
    let nb = src.below(3) as u8;
    let r = (ty.slice_cmp)(&vals, &other, naming, nb);
    ensure!(r.wrapped_eq == r.slice_eq && r.wrapped_ne != r.slice_eq, "{}: wrapped slices are {}, the slices {}", ty.name, r.wrapped_eq, r.slice_eq);
    ensure!(r.wrapped_cmp == r.slice_cmp && r.wrapped_partial == Some(r.slice_cmp), "{}: wrapped slices compare {:?}, the slices {:?}", ty.name, r.wrapped_cmp, r.slice_cmp);
    let o = r.slice_cmp;
    ensure!(
        r.wrapped_lt_le_gt_ge == [o == Ordering::Less, o != Ordering::Greater, o == Ordering::Greater, o != Ordering::Less],
        "{}: operators on wrapped slices are wrong", ty.name
    );
    Ok(())
}
