//! Generators: types, depths, cells, grid coordinates, and index values obtained by many different routes.

use crate::engine::{catch, Panicked, Src, Stop};
use crate::model;
use crate::types::{Flavour, Ty, TYS, V};

/// Types small enough to be enumerated completely
const SMALL: [usize; 6] = [0, 6, 12, 13, 19, 25];

/// The types that cases are drawn from, dynamic ones last
pub fn types(custom: u8) -> Vec<&'static Ty> {
    let mut v: Vec<_> = TYS.iter().filter(|t| t.custom() == custom || custom == 1 && t.flavour == Flavour::Dynamic && t.custom() == 0).collect();
    v.sort_by_key(|t| t.flavour == Flavour::Dynamic);
    v
}

pub fn any_ty(src: &mut Src) -> &'static Ty {
    if src.custom > 0 {
        return ty_where(src, |_| true);
    }
    if src.small() {
        &TYS[SMALL[src.below(SMALL.len())]]
    } else {
        // dynamic types have as many draws as four others
        let w = src.below(34);
        let t = if w < 26 {
            &TYS[w]
        } else if w < 30 {
            &TYS[12]
        } else {
            &TYS[25]
        };
        src.label(t.name);
        t
    }
}

pub fn ty_where(src: &mut Src, f: impl Fn(&Ty) -> bool) -> &'static Ty {
    let v: Vec<&'static Ty> = if src.small() {
        SMALL.iter().map(|i| &TYS[*i]).filter(|t| f(t)).collect()
    } else {
        let mut v: Vec<_> = types(src.custom).into_iter().filter(|t| f(t)).collect();
        v.sort_by_key(|t| t.id);
        let dynamic: Vec<_> = v.iter().copied().filter(|t| t.flavour == Flavour::Dynamic).collect();
        for _ in 0..v.len() / 8 {
            v.extend_from_slice(&dynamic);
        }
        v
    };
    let t = v[src.below(v.len())];
    if !src.small() {
        src.label(t.name);
    }
    t
}

/// Depth of a dynamic index
pub fn dyn_depth(src: &mut Src, dim: usize) -> usize {
    if src.small() {
        return src.below(if dim == 2 { 5 } else { 4 });
    }
    match src.weighted(&[160, 160, 60, 40, 20, 4, 1]) {
        0 => src.below(10),
        1 => src.below(41),
        2 => (8 * (1 + src.below(12)) + src.below(3)).saturating_sub(1),
        3 => 60 + src.below(14),
        4 => 120 + src.below(14),
        5 => 250 + src.below(16),
        _ => deep_depth(src, dim),
    }
}

/// Depths at which numbers of levels, bits or bytes of a dynamic index outgrow 8 or 16 bits
pub fn deep_depth(src: &mut Src, dim: usize) -> usize {
    if cfg!(miri) {
        // the interpreter is some thousand times slower
        return 253 + src.below(8);
    }
    let bits = if dim == 2 { [1021, 32764] } else { [680, 21842] };
    [509, 253, bits[0], bits[1], 65533][src.weighted(&[5, 2, 5, 3, 2])] + src.below(8)
}

/// Number of cells in `0..=cap`, biased to both ends
pub fn upto_cap(src: &mut Src, cap: usize) -> usize {
    if src.small() {
        return src.below(cap + 1);
    }
    match src.weighted(&[4, 2, 3, 2]) {
        0 => src.below(cap + 1),
        1 => src.below(cap.min(4) + 1),
        2 => cap - src.below(cap.min(4) + 1),
        _ => cap,
    }
}

/// Depth of a slice that fits the type
pub fn fit_depth(src: &mut Src, ty: &Ty) -> usize {
    match ty.max() {
        Some(m) => upto_cap(src, m),
        None => dyn_depth(src, ty.dim),
    }
}

pub fn depth_bucket(src: &mut Src, d: usize) {
    src.label(match d {
        0 => "depth 0",
        1..=4 => "depth 1-4",
        5..=16 => "depth 5-16",
        17..=32 => "depth 17-32",
        33..=64 => "depth 33-64",
        65..=128 => "depth 65-128",
        129..=300 => "depth 129-300",
        _ => "depth >300",
    });
}

pub fn cell(src: &mut Src, dim: usize) -> u8 {
    src.upto((1 << dim) - 1) as u8
}

pub fn cells(src: &mut Src, dim: usize, n: usize) -> Vec<u8> {
    let top = (1u64 << dim) - 1;
    if src.small() || n <= 2 {
        return (0..n).map(|_| src.upto(top) as u8).collect();
    }
    match src.weighted(&[6, 1, 2, 2, 2, 1]) {
        // independent cells; long ones from few draws
        0 => {
            if n <= 160 {
                let mut out = Vec::with_capacity(n);
                let per = 60 / dim;
                while out.len() < n {
                    let k = (n - out.len()).min(per);
                    let mut v = src.upto((1u64 << (k * dim)) - 1);
                    for _ in 0..k {
                        out.push((v & top) as u8);
                        v >>= dim;
                    }
                }
                out
            } else {
                let mut x = src.upto(u64::MAX) | 1;
                (0..n)
                    .map(|_| {
                        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        ((x >> 33) & top) as u8
                    })
                    .collect()
            }
        }
        1 => vec![src.upto(top) as u8; n],
        // nearly all equal to one cell
        2 => {
            let mut v = vec![if src.chance(1, 2) { top as u8 } else { 0 }; n];
            for _ in 0..1 + src.below(3) {
                let i = src.below(n);
                v[i] = src.upto(top) as u8;
            }
            v
        }
        // few distinct cells
        3 => {
            let (a, b) = (src.upto(top) as u8, src.upto(top) as u8);
            let mut bits = src.upto(u64::MAX);
            (0..n)
                .map(|_| {
                    bits = bits.rotate_left(7).wrapping_add(0x9E37_79B9);
                    if bits & 16 == 0 {
                        a
                    } else {
                        b
                    }
                })
                .collect()
        }
        // periodic
        4 => {
            let p = 1 + src.below(5);
            let pat: Vec<u8> = (0..p).map(|_| src.upto(top) as u8).collect();
            (0..n).map(|i| pat[i % p]).collect()
        }
        // ramp: every level different from its neighbours
        _ => {
            let s = src.upto(top) as usize;
            let st = 1 + src.below(top as usize);
            (0..n).map(|i| ((s + i * st) & top as usize) as u8).collect()
        }
    }
}

pub fn coord(src: &mut Src, bits: usize) -> usize {
    // `bits` bits are significant; sometimes higher ones are set as well
    if src.small() {
        return src.upto((1u64 << bits.min(6)) - 1) as usize;
    }
    let max = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
    if src.chance(1, 4) {
        src.int(u64::MAX) as usize
    } else {
        src.int(max) as usize
    }
}

pub fn coords(src: &mut Src, dim: usize, bits: usize) -> [usize; 3] {
    let mut c = [0; 3];
    for i in 0..dim {
        c[i] = coord(src, bits);
    }
    c
}

pub fn mask_coords(c: [usize; 3], bits: usize) -> [usize; 3] {
    let m = if bits >= model::WORD { usize::MAX } else { (1usize << bits) - 1 };
    [c[0] & m, c[1] & m, c[2] & m]
}

pub fn ord(src: &mut Src, dim: usize) -> u8 {
    src.below(model::ord_count(dim)) as u8
}

/// A "very large" argument: huge values and values that look harmless in their low bits
pub fn huge(src: &mut Src, low: usize) -> usize {
    let base = low.wrapping_add(src.below(5)).wrapping_sub(2) & 0xFFFF;
    match src.below(8) {
        0 => usize::MAX - src.below(4),
        1 => 256 + base % 256,
        2 => 512 + base % 256,
        3 => (1 << 16) + base,
        4 => (1usize << (model::WORD / 2)) + base,
        5 => (1usize << (model::WORD - 1)) + base,
        6 => 256 * (1 + src.below(255)) + base % 256,
        _ => 1usize << (8 + src.below(model::WORD - 8)),
    }
}

// ------------------------------------------------------------------------------------------------ observation

/// The cells of an index by checked reads, or the panic that got in the way
pub fn try_observe(v: &V) -> Result<Vec<u8>, Panicked> {
    catch(|| (0..v.depth()).map(|l| v.get(l)).collect())
}

/// As above; a failure to read is somebody else's property
pub fn observe(v: &V) -> Result<Vec<u8>, Stop> {
    try_observe(v).map_err(|_| Stop::Discard("value cannot be read"))
}

pub fn show(c: &[u8]) -> String {
    if c.len() <= 140 {
        format!("{}:{}", c.len(), model::name(c))
    } else {
        format!("{}:{}...{}", c.len(), model::name(&c[..60]), model::name(&c[c.len() - 60..]))
    }
}

// ------------------------------------------------------------------------------------------------------ routes

pub const ROUTES: [&str; 14] = [
    "slice",
    "array",
    "writes over zeroed/default",
    "writes over garbage",
    "grid index",
    "raw bits",
    "descendant chain",
    "ancestor of deeper",
    "conversion",
    "conversion there and back",
    "inversion",
    "double inversion",
    "clone/copy",
    "write in ancestor/descendant",
];

fn lift(r: Result<Result<V, crate::types::Refused>, Panicked>) -> Result<V, Stop> {
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(_)) => Err(Stop::Discard("route refused")),
        Err(_) => Err(Stop::Discard("route panicked")),
    }
}
fn lift_opt(r: Result<Option<V>, Panicked>) -> Result<V, Stop> {
    match r {
        Ok(Some(v)) => Ok(v),
        Ok(None) => Err(Stop::Discard("route refused")),
        Err(_) => Err(Stop::Discard("route panicked")),
    }
}
fn lift_v(r: Result<V, Panicked>) -> Result<V, Stop> {
    r.map_err(|_| Stop::Discard("route panicked"))
}

pub fn slice(ty: &Ty, c: &[u8]) -> Result<V, Stop> {
    lift(catch(|| (ty.from_slice)(c)))
}

fn writes(src: &mut Src, v: &mut V, c: &[u8]) -> Result<(), Stop> {
    let n = c.len();
    let order = src.below(3);
    let stride = if n > 0 && order == 2 { 1 + src.below(n) } else { 1 };
    let unchecked = src.chance(1, 3);
    let mut done = vec![false; n];
    let mut put = |l: usize| -> Result<(), Stop> {
        if done[l] {
            return Ok(());
        }
        done[l] = true;
        catch(|| if unchecked { unsafe { v.set_un(l, c[l]) } } else { v.set(l, c[l]) })
            .map_err(|_| Stop::Discard("route panicked"))
    };
    match order {
        0 => (0..n).try_for_each(&mut put)?,
        1 => (0..n).rev().try_for_each(&mut put)?,
        _ => {
            for i in 0..n {
                put((i * stride) % n)?;
            }
            (0..n).try_for_each(&mut put)?
        }
    }
    Ok(())
}

fn zeroed_of(ty: &Ty, d: usize) -> Result<V, Stop> {
    match ty.flavour {
        Flavour::Fixed => lift_v(catch(|| (ty.default)())),
        _ => match catch(|| (ty.zeroed)(d)) {
            Ok(Some(Some(v))) => Ok(v),
            Ok(_) => Err(Stop::Discard("route refused")),
            Err(_) => Err(Stop::Discard("route panicked")),
        },
    }
}

/// An index of type `ty` meant to have the given cells (for a fixed-depth type: at most its depth, the rest being zero), obtained by a
/// route of the given number. Whether the route delivers those cells is not assumed by anybody: callers observe the value.
pub fn by_route(src: &mut Src, ty: &'static Ty, want: &[u8], route: usize) -> Result<V, Stop> {
    let dim = ty.dim;
    let full: Vec<u8> = match ty.flavour {
        Flavour::Fixed => {
            let mut f = want.to_vec();
            f.resize(ty.cap(), 0);
            f
        }
        _ => want.to_vec(),
    };
    match route {
        1 => match catch(|| (ty.from_array)(want)) {
            Ok(None) => slice(ty, want),
            Ok(Some(r)) => lift(Ok(r)),
            Err(p) => lift(Err(p)),
        },
        2 => {
            let mut v = zeroed_of(ty, want.len())?;
            if v.depth() < full.len() {
                return Err(Stop::Discard("route refused"));
            }
            writes(src, &mut v, &full)?;
            Ok(v)
        }
        3 => {
            let g = cells(src, dim, full.len());
            let mut v = slice(ty, &g)?;
            if v.depth() < full.len() {
                return Err(Stop::Discard("route refused"));
            }
            writes(src, &mut v, &full)?;
            Ok(v)
        }
        4 => {
            if !ty.grids(full.len()) {
                return slice(ty, want);
            }
            let o = ord(src, dim);
            match model::grid_from_cells(dim, &full, o) {
                None => slice(ty, want),
                Some(mut g) => {
                    // coordinate bits at or above the depth do not count
                    if full.len() < model::WORD && src.chance(1, 3) {
                        for x in g.iter_mut().take(dim) {
                            *x |= (src.int(u64::MAX) as usize) << full.len();
                        }
                    }
                    lift(catch(|| (ty.from_grid)(g, full.len(), o)))
                }
            }
        }
        5 => {
            if !ty.has_raw() {
                return slice(ty, want);
            }
            let mut raw = model::raw_from_cells(dim, ty.bits, &full);
            let used = full.len() * dim;
            let junk = src.int128(ty.bits as u32) & model::low_mask(ty.bits - used);
            raw |= junk;
            lift_opt(catch(|| (ty.from_raw)(raw, full.len())))
        }
        6 => {
            if !ty.variable() {
                return slice(ty, want);
            }
            let first = src.below(want.len() + 1);
            let mut v = slice(ty, &want[..first])?;
            let mut at = first;
            while at < want.len() {
                // not too many steps to a deep index: each one copies it
                let left = want.len() - at;
                let k = if left > 300 { left / 8 } else { 1 + src.below(left.min(9)) };
                let next = catch(|| if k == 1 { v.child(want[at]) } else { v.descendant(&want[at..at + k]) });
                v = lift_opt(next)?;
                at += k;
            }
            Ok(v)
        }
        7 | 13 => {
            if !ty.variable() {
                return slice(ty, want);
            }
            let room = (ty.cap() - want.len()).min(if src.chance(1, 8) { 40 } else { 9 });
            if room == 0 {
                return slice(ty, want);
            }
            let extra = 1 + src.below(room);
            let mut deep = want.to_vec();
            deep.extend(cells(src, dim, extra));
            let mut v = slice(ty, &deep)?;
            if route == 13 {
                // reach the deeper node by writes, and write in the ancestor
                let mut o = deep.clone();
                o.iter_mut().for_each(|c| *c = ty.cells() - 1 - *c);
                v = slice(ty, &o)?;
                writes(src, &mut v, &deep)?;
            }
            let how = src.below(3);
            v = match how {
                0 => lift_opt(catch(|| v.ancestor(extra)))?,
                1 => lift_opt(catch(|| v.with_depth(want.len())))?,
                _ => {
                    for _ in 0..extra {
                        v = lift_opt(catch(|| v.parent()))?;
                    }
                    v
                }
            };
            if route == 13 && !want.is_empty() && v.depth() >= want.len() {
                writes(src, &mut v, want)?;
            }
            Ok(v)
        }
        8 => {
            // a source type that converts into ty
            let custom = src.custom;
            let sources: Vec<&'static Ty> = types(custom)
                .into_iter()
                .filter(|s| s.dim == dim && s.targets(custom).iter().any(|t| t.id == ty.id) && s.cap() >= want.len())
                .filter(|s| s.flavour != Flavour::Fixed || s.cap() == full.len())
                .collect();
            if sources.is_empty() {
                return slice(ty, want);
            }
            let s = sources[src.below(sources.len())];
            let v = slice(s, want)?;
            match catch(|| v.convert(ty)) {
                Ok(Some(r)) => lift(Ok(r)),
                Ok(None) => Err(Stop::Discard("no conversion")),
                Err(p) => lift(Err(p)),
            }
        }
        9 => {
            let v = slice(ty, want)?;
            let mids: Vec<&'static Ty> = ty
                .targets(src.custom)
                .into_iter()
                .filter(|m| m.cap() >= full.len() && (m.flavour != Flavour::Fixed || m.cap() == full.len()))
                .filter(|m| m.targets(src.custom).iter().any(|t| t.id == ty.id))
                .collect();
            if mids.is_empty() {
                return Ok(v);
            }
            let m = mids[src.below(mids.len())];
            let w = match catch(|| v.convert(m)) {
                Ok(Some(r)) => lift(Ok(r))?,
                _ => return Err(Stop::Discard("no conversion")),
            };
            match catch(|| w.convert(ty)) {
                Ok(Some(r)) => lift(Ok(r)),
                _ => Err(Stop::Discard("no conversion")),
            }
        }
        10 => {
            let mut r = full.clone();
            r.reverse();
            let v = slice(ty, &r)?;
            lift_v(catch(|| v.inverted()))
        }
        11 => {
            let v = slice(ty, want)?;
            lift_v(catch(|| v.inverted().inverted()))
        }
        12 => {
            let v = slice(ty, want)?;
            match src.below(3) {
                0 => lift_v(catch(|| v.dup())),
                1 => lift_v(catch(|| v.copy().unwrap_or_else(|| v.dup()))),
                _ => {
                    let junk_len = if src.chance(1, 2) {
                        fit_depth(src, ty).min(80)
                    } else {
                        (want.len() + src.below(7)).saturating_sub(3).min(ty.cap())
                    };
                    let junk = cells(src, dim, junk_len);
                    let mut w = slice(ty, &junk)?;
                    catch(|| w.clone_from_other(v.as_ref())).map_err(|_| Stop::Discard("route panicked"))?;
                    Ok(w)
                }
            }
        }
        _ => slice(ty, want),
    }
}

/// A value of type `ty` by any route, with the cells it shows. `want` is what the route aimed for.
pub fn value_with(src: &mut Src, ty: &'static Ty, want: &[u8]) -> Result<(V, Vec<u8>), Stop> {
    let route = if src.small() { 0 } else { src.below(ROUTES.len()) };
    let v = by_route(src, ty, want, route)?;
    let seen = observe(&v)?;
    if !src.small() {
        src.label(ROUTES[route]);
    }
    src.note(|| format!("{} via {}: cells {}", ty.name, ROUTES[route], show(&seen)));
    Ok((v, seen))
}

pub fn value(src: &mut Src, ty: &'static Ty) -> Result<(V, Vec<u8>), Stop> {
    let n = fit_depth(src, ty);
    let c = cells(src, ty.dim, n);
    value_with(src, ty, &c)
}

/// Cells related to given ones: same, one cell changed, prefix, extension, tail changed, unrelated
pub fn related(src: &mut Src, ty: &Ty, base: &[u8]) -> Vec<u8> {
    let dim = ty.dim;
    if src.small() {
        let n = fit_depth(src, ty);
        return cells(src, dim, n);
    }
    let mut c = base.to_vec();
    match src.weighted(&[4, 4, 2, 2, 2, 2, 1]) {
        0 => {}
        1 => {
            if !c.is_empty() {
                let i = match src.below(3) {
                    0 => src.below(c.len()),
                    1 => c.len() - 1 - src.below(c.len().min(4)),
                    _ => src.below(c.len().min(4)),
                };
                c[i] = cell(src, dim);
            }
        }
        2 => {
            let n = src.below(c.len() + 1);
            c.truncate(n);
        }
        3 => {
            // extension, mostly by zero cells or by the highest cells
            let room = (ty.cap() - c.len()).min(5);
            let k = src.below(room + 1);
            match src.below(3) {
                0 => c.extend(vec![0; k]),
                1 => c.extend(vec![ty.cells() - 1; k]),
                _ => c.extend(cells(src, dim, k)),
            }
        }
        4 => {
            let n = src.below(c.len() + 1);
            let m = c.len() - n;
            c.truncate(n);
            c.extend(cells(src, dim, m));
        }
        5 => {
            // same prefix, other tail of other length
            let n = src.below(c.len() + 1);
            c.truncate(n);
            let room = (ty.cap() - n).min(9);
            let k = src.below(room + 1);
            c.extend(cells(src, dim, k));
        }
        _ => {
            let n = fit_depth(src, ty);
            c = cells(src, dim, n);
        }
    }
    c
}
