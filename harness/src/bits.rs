//! Properties about bit storage, helpers, alignment, cell numbers and orderings, and memory safety.

use crate::engine::{catch, run_quiet, Rng, Src, Stop, R};
use crate::gen::{any_ty, huge, try_observe, value};
use crate::props::beyond;
use crate::model::{self, low_mask};
use crate::types::{oct_ord, oct_u, quad_ord, quad_u, OCTS, QUADS};
use morton_index::align::Alignable;
use morton_index::dimensions::{Dim2D, Dim3D, Dimension, Octant, OctantOrdering, Quadrant, QuadrantOrdering};
use morton_index::number::{
    add_two_zeroes_before_every_bit_u32, add_two_zeroes_before_every_bit_u8, add_zero_before_every_bit_u16,
    add_zero_before_every_bit_u8, add_zero_behind_every_bit_u8, Bits, Endianness,
};

// --------------------------------------------------------------------------------------------------------- C12

/// start..end with 0 <= start <= end <= width
fn bit_range(src: &mut Src, width: usize, nonempty: bool, maxlen: usize) -> (usize, usize) {
    let lo = nonempty as usize;
    if src.small() {
        let start = src.below(width + 1 - lo);
        let len = lo + src.below((width - start).min(maxlen) + 1 - lo);
        return (start, start + len);
    }
    match src.below(5) {
        0 => {
            let len = lo + src.below(width.min(maxlen) + 1 - lo);
            let start = src.below(width - len + 1);
            (start, start + len)
        }
        1 => {
            // ends at the top
            let len = lo + src.below(width.min(maxlen) + 1 - lo);
            (width - len, width)
        }
        2 => {
            // short ranges
            let len = lo + src.below(width.min(maxlen).min(4) + 1 - lo);
            let start = src.below(width - len + 1);
            (start, start + len)
        }
        3 => {
            // byte-aligned ends
            let start = 8 * src.below(width / 8);
            let len = (8 * (1 + src.below((width - start) / 8))).min(maxlen);
            (start, start + len)
        }
        _ => {
            let start = src.below(width + 1 - lo);
            let len = lo + src.below((width - start).min(maxlen) + 1 - lo);
            (start, start + len)
        }
    }
}

fn int_bits<B: Bits + Copy + PartialEq>(src: &mut Src, name: &'static str, to: fn(u128) -> B, back: fn(B) -> u128) -> R {
    let width = std::mem::size_of::<B>() * 8;
    src.label(name);
    ensure!(B::BITS == width, "{}::BITS is {}", name, B::BITS);
    let x = src.int128(width as u32);
    let op = src.below(5);
    unsafe {
        match op {
            0 => {
                let (s, e) = bit_range(src, width, false, width);
                src.note(|| format!("{}: {:#x}.get_bits({}..{})", name, x, s, e));
                src.nontrivial = e > s && e - s < width;
                let want = if e == s { 0 } else { (x >> s) & low_mask(e - s) };
                let got = back(to(x).get_bits(s..e));
                ensure!(got == want, "{}: {:#x}.get_bits({}..{}) = {:#x}, expected {:#x}", name, x, s, e, got, want);
                if e - s <= model::WORD {
                    let got = to(x).get_bits_as_usize(s..e);
                    ensure!(got as u128 == want, "{}: {:#x}.get_bits_as_usize({}..{}) = {:#x}, expected {:#x}", name, x, s, e, got, want);
                }
            }
            1 | 2 => {
                let native = op == 2;
                let (s, e) = bit_range(src, width, true, if native { model::WORD } else { width });
                let v = src.int128((e - s) as u32);
                src.nontrivial = e - s < width;
                let want = (x & !(low_mask(e - s) << s)) | (v << s);
                let mut y = to(x);
                src.note(|| format!("{}: {:#x}.set_bits{}({}..{}, {:#x})", name, x, if native { "_from_usize" } else { "" }, s, e, v));
                if native {
                    y.set_bits_from_usize(s..e, v as usize);
                } else {
                    y.set_bits(s..e, to(v));
                }
                let got = back(y);
                ensure!(got == want, "{}: {:#x} with bits {}..{} set to {:#x} (native {}) is {:#x}, expected {:#x}", name, x, s, e, v, native, got, want);
                let read = back(y.get_bits(s..e));
                ensure!(read == v, "{}: bits {}..{} set to {:#x} read back as {:#x}", name, s, e, v, read);
            }
            3 => {
                src.nontrivial = x > 0xFF;
                let b = to(x);
                let got = [b.as_u8() as u128, b.as_u16() as u128, b.as_u32() as u128, b.as_u64() as u128, b.as_usize() as u128, b.as_u128()];
                let want = [x & 0xFF, x & 0xFFFF, x & 0xFFFF_FFFF, x & low_mask(64), x & low_mask(usize::BITS as usize), x];
                src.note(|| format!("{}: {:#x} narrowed and widened", name, x));
                ensure!(got == want, "{}: {:#x} becomes {:x?} as u8, u16, u32, u64, usize, u128", name, x, got);
            }
            _ => {
                let x = src.int128(if src.small() { 8 } else { 128 });
                src.nontrivial = x > 0xFF;
                let got = [
                    back(B::from_u8(x as u8)),
                    back(B::from_u16(x as u16)),
                    back(B::from_u32(x as u32)),
                    back(B::from_u64(x as u64)),
                    back(B::from_usize(x as usize)),
                    back(B::from_u128(x)),
                ];
                let m = low_mask(width);
                let want = [x & 0xFF & m, x & 0xFFFF & m, x & 0xFFFF_FFFF & m, x & low_mask(64) & m, x & low_mask(usize::BITS as usize) & m, x & m];
                src.note(|| format!("{} from {:#x}", name, x));
                ensure!(got == want, "{} from the parts of {:#x} gives {:x?}", name, x, got);
            }
        }
    }
    Ok(())
}

pub fn c12(src: &mut Src) -> R {
    match if src.small() { 0 } else { src.below(6) } {
        0 => int_bits::<u8>(src, "u8", |x| x as u8, |b| b as u128),
        1 => int_bits::<u16>(src, "u16", |x| x as u16, |b| b as u128),
        2 => int_bits::<u32>(src, "u32", |x| x as u32, |b| b as u128),
        3 => int_bits::<u64>(src, "u64", |x| x as u64, |b| b as u128),
        4 => int_bits::<u128>(src, "u128", |x| x, |b| b),
        _ => int_bits::<usize>(src, "usize", |x| x as usize, |b| b as u128),
    }
}

// --------------------------------------------------------------------------------------------------------- C13

fn bytes(src: &mut Src, n: usize) -> Vec<u8> {
    if src.small() {
        return (0..n).map(|_| [0u8, 0xFF, 0xA5][src.below(3)]).collect();
    }
    match src.below(4) {
        0 => vec![0; n],
        1 => vec![0xFF; n],
        _ if n > 100 => {
            // all from one choice
            let mut r = Rng::new(src.upto(u32::MAX as u64));
            (0..n).map(|_| r.next() as u8).collect()
        }
        _ => (0..n).map(|_| src.int(255) as u8).collect(),
    }
}

/// Rarely a length around the limit of a one-byte count, or (not in the interpreter) far beyond, up to that of a two-byte count
fn long(src: &mut Src, usual: usize) -> usize {
    if src.small() || !src.chance(1, 400) {
        return usual;
    }
    src.label("long vector");
    match if cfg!(miri) { 0 } else { src.weighted(&[8, 4, 4, 1]) } {
        0 => 250 + src.below(20),
        1 => 510 + src.below(10),
        2 => 8185 + src.below(20),
        _ => 65530 + src.below(20),
    }
}

/// Bytes for messages
fn hx(v: &[u8]) -> String {
    if v.len() <= 100 {
        format!("{:02x?}", v)
    } else {
        format!("{} bytes {:02x?}...{:02x?}", v.len(), &v[..20], &v[v.len() - 20..])
    }
}

/// The smallest allocation holding exactly these bytes, so that an access beyond them leaves the allocation
fn tight(v: Vec<u8>) -> Vec<u8> {
    v.into_boxed_slice().into_vec()
}

fn vbit(v: &[u8], i: usize) -> bool {
    v.get(i / 8).map_or(false, |b| (b >> (i % 8)) & 1 == 1)
}

fn vec_of(n: usize, f: impl Fn(usize) -> bool) -> Vec<u8> {
    let mut out = vec![0u8; (n + 7) / 8];
    for i in 0..n {
        if f(i) {
            out[i / 8] |= 1 << (i % 8);
        }
    }
    out
}

pub fn c13(src: &mut Src) -> R {
    let n = if src.small() {
        1 + src.below(2)
    } else {
        match src.below(3) {
            0 => 1 + src.below(4),
            1 => 1 + src.below(24),
            _ => 1 + src.below(80),
        }
    };
    let n = long(src, n);
    let v = tight(bytes(src, n));
    let width = 8 * n;
    let op = src.below(4);
    let native = op >= 2;
    let (s, e) = bit_range(src, width, op % 2 == 1, if native { model::WORD } else { width });
    src.nontrivial = e > s && (s % 8 != 0 || e % 8 != 0);
    src.label(["get_bits", "set_bits", "get_bits_as_usize", "set_bits_from_usize"][op]);
    src.label(if s % 8 == 0 { "aligned start" } else { "unaligned start" });
    src.label(if e % 8 == 0 { "aligned end" } else { "unaligned end" });
    unsafe {
        match op {
            0 => {
                src.note(|| format!("{}.get_bits({}..{})", hx(&v), s, e));
                let want = vec_of(e - s, |i| vbit(&v, s + i));
                let got = v.get_bits(s..e);
                ensure!(got == want, "{}.get_bits({}..{}) = {}, expected {}", hx(&v), s, e, hx(&got), hx(&want));
                if e - s <= model::WORD {
                    let u = v.get_bits_as_usize(s..e);
                    let w = (0..e - s).fold(0usize, |a, i| a | ((vbit(&got, i) as usize) << i));
                    ensure!(u == w, "{}: bits {}..{} are {:#x} as a native word, but {:#x} as bytes", hx(&v), s, e, u, w);
                }
            }
            2 => {
                src.note(|| format!("{}.get_bits_as_usize({}..{})", hx(&v), s, e));
                let want = (0..e - s).fold(0usize, |a, i| a | ((vbit(&v, s + i) as usize) << i));
                let got = v.get_bits_as_usize(s..e);
                ensure!(got == want, "{}.get_bits_as_usize({}..{}) = {:#x}, expected {:#x}", hx(&v), s, e, got, want);
            }
            1 => {
                let min = (e - s + 7) / 8;
                let more = if src.small() { 0 } else { src.weighted(&[4, 1, 1]) * 2 };
                let val = tight(bytes(src, min + more));
                src.note(|| format!("{}.set_bits({}..{}, {})", hx(&v), s, e, hx(&val)));
                let mut y = tight(v.clone());
                y.set_bits(s..e, val.clone());
                let want = vec_of(width, |i| if i >= s && i < e { vbit(&val, i - s) } else { vbit(&v, i) });
                ensure!(y == want, "{} with bits {}..{} set to {} is {}, expected {}", hx(&v), s, e, hx(&val), hx(&y), hx(&want));
                let back = y.get_bits_as_usize(s..e.min(s + model::WORD));
                let w = (0..(e - s).min(model::WORD)).fold(0usize, |a, i| a | ((vbit(&val, i) as usize) << i));
                ensure!(back == w, "bits {}..{} set to {} read back as {:#x}", s, e, hx(&val), back);
            }
            _ => {
                let val = src.int(u64::MAX) as usize;
                src.note(|| format!("{}.set_bits_from_usize({}..{}, {:#x})", hx(&v), s, e, val));
                let mut y = tight(v.clone());
                y.set_bits_from_usize(s..e, val);
                let want = vec_of(width, |i| if i >= s && i < e { (val >> (i - s)) & 1 == 1 } else { vbit(&v, i) });
                ensure!(y == want, "{} with bits {}..{} set to the word {:#x} is {}, expected {}", hx(&v), s, e, val, hx(&y), hx(&want));
                let mut z = tight(v.clone());
                z.set_bits(s..e, val.to_le_bytes().to_vec());
                ensure!(y == z, "set_bits_from_usize and set_bits disagree on {}, {}..{}, {:#x}", hx(&v), s, e, val);
            }
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------------------- C14

fn spread(v: u64, bits: usize, step: usize, off: usize) -> u64 {
    (0..bits).fold(0, |a, i| a | (((v >> i) & 1) << (i * step + off)))
}

pub fn c14(src: &mut Src) -> R {
    match src.below(3) {
        0 => {
            let v = src.upto(255) as u8;
            src.nontrivial = v.count_ones() >= 2;
            src.note(|| format!("helpers for u8 on {:#010b}", v));
            let got = add_zero_before_every_bit_u8(v);
            ensure!(got as u64 == spread(v as u64, 4, 2, 0), "add_zero_before_every_bit_u8({:#b}) = {:#b}", v, got);
            let got = add_zero_behind_every_bit_u8(v);
            ensure!(got as u64 == spread(v as u64, 4, 2, 1), "add_zero_behind_every_bit_u8({:#b}) = {:#b}", v, got);
            let got = add_two_zeroes_before_every_bit_u8(v);
            ensure!(got as u64 == spread(v as u64, 8, 3, 0), "add_two_zeroes_before_every_bit_u8({:#b}) = {:#b}", v, got);
        }
        1 => {
            let v = src.upto(65535) as u16;
            src.nontrivial = v.count_ones() >= 2;
            src.note(|| format!("helper for u16 on {:#b}", v));
            let got = add_zero_before_every_bit_u16(v);
            ensure!(got as u64 == spread(v as u64, 8, 2, 0), "add_zero_before_every_bit_u16({:#b}) = {:#b}", v, got);
        }
        _ => {
            // in small mode: every value with at most three bits
            let v = if src.small() {
                let n = src.below(4);
                (0..n).fold(0u32, |a, _| a | 1 << src.below(32))
            } else {
                src.int(u32::MAX as u64) as u32
            };
            src.nontrivial = v.count_ones() >= 2;
            src.note(|| format!("helper for u32 on {:#b}", v));
            let got = add_two_zeroes_before_every_bit_u32(v);
            ensure!(got == spread(v as u64, 21, 3, 0), "add_two_zeroes_before_every_bit_u32({:#b}) = {:#b}", v, got);
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------------------- C15

fn align<A: Alignable + Copy>(src: &mut Src, name: &'static str, width: u32, to: fn(u128) -> A, back: fn(A) -> u128) -> R {
    src.label(name);
    let a = src.int128(width);
    let v = match if src.small() { 0 } else { src.below(4) } {
        0 => src.int128(width),
        1 if a > 0 => {
            // close to a multiple
            let k = src.int128(width) / a;
            let m = k * a;
            m.wrapping_add(src.below(3) as u128).wrapping_sub(1) & low_mask(width as usize)
        }
        2 => low_mask(width as usize) - (src.below(70) as u128 & low_mask(width as usize)),
        _ => src.int128(width).min(a),
    };
    src.note(|| format!("{}: {}.align_to({})", name, v, a));
    src.nontrivial = a > 1 && v > 0;
    let want: Option<u128> = if a == 0 {
        Some(v)
    } else if v % a == 0 {
        Some(v)
    } else {
        (v / a + 1).checked_mul(a).filter(|m| *m <= low_mask(width as usize))
    };
    let got = catch(|| back(to(v).align_to(to(a))));
    match (want, got) {
        (Some(w), Ok(g)) => ensure!(g == w, "{}: {}.align_to({}) = {}, expected {}", name, v, a, g, w),
        (Some(w), Err(p)) => fail!("{}: {}.align_to({}) panics ({}), expected {}", name, v, a, p.msg, w),
        (None, Ok(g)) => {
            src.label("no such multiple");
            ensure!(!cfg!(debug_assertions), "{}: {}.align_to({}) = {} although no multiple fits", name, v, a, g);
        }
        (None, Err(_)) => src.label("no such multiple"),
    }
    Ok(())
}

pub fn c15(src: &mut Src) -> R {
    match if src.small() { 0 } else { src.below(6) } {
        0 => align::<u8>(src, "u8", 8, |x| x as u8, |b| b as u128),
        1 => align::<u16>(src, "u16", 16, |x| x as u16, |b| b as u128),
        2 => align::<u32>(src, "u32", 32, |x| x as u32, |b| b as u128),
        3 => align::<u64>(src, "u64", 64, |x| x as u64, |b| b as u128),
        4 => align::<u128>(src, "u128", 128, |x| x, |b| b),
        _ => align::<usize>(src, "usize", usize::BITS, |x| x as usize, |b| b as u128),
    }
}

// --------------------------------------------------------------------------------------------------------- C19

fn number(src: &mut Src) -> usize {
    if src.small() {
        return src.below(600);
    }
    match src.below(4) {
        0 => src.below(20),
        1 => 256 * src.below(257) + src.below(12),
        2 => huge(src, 4),
        _ => src.int(u64::MAX) as usize,
    }
}

pub fn c19(src: &mut Src) -> R {
    let dim = 2 + src.below(2);
    let n = 1usize << dim;
    match src.below(3) {
        0 => {
            let k = number(src);
            src.nontrivial = true;
            src.note(|| format!("{}D cell number {}", dim, k));
            if dim == 2 {
                match Quadrant::try_from(k) {
                    Ok(q) => {
                        ensure!(k < n, "the number {} became {:?}", k, q);
                        ensure!(q == QUADS[k] && quad_u(q) as usize == k, "the number {} became {:?}", k, q);
                        let (a, b): (usize, usize) = (q.into(), (&q).into());
                        ensure!(q.index() == k && a == k && b == k, "{:?} has the numbers {}, {}, {}", q, q.index(), a, b);
                    }
                    Err(e) => {
                        ensure!(k >= n, "quadrant number {} is refused", k);
                        ensure!(matches!(e, morton_index::Error::CellIndexOutOfRange), "quadrant number {} gives {:?}", k, e);
                    }
                }
            } else {
                match Octant::try_from(k) {
                    Ok(q) => {
                        ensure!(k < n, "the number {} became {:?}", k, q);
                        ensure!(q == OCTS[k] && oct_u(q) as usize == k, "the number {} became {:?}", k, q);
                        let (a, b): (usize, usize) = (q.into(), (&q).into());
                        ensure!(q.index() == k && a == k && b == k, "{:?} has the numbers {}, {}, {}", q, q.index(), a, b);
                    }
                    Err(e) => {
                        ensure!(k >= n, "octant number {} is refused", k);
                        ensure!(matches!(e, morton_index::Error::CellIndexOutOfRange), "octant number {} gives {:?}", k, e);
                    }
                }
            }
        }
        1 => {
            let (a, b) = (src.below(n), src.below(n));
            src.nontrivial = a != b;
            src.note(|| format!("{}D cells {} and {}", dim, a, b));
            let (o, e, h) = if dim == 2 {
                (QUADS[a].cmp(&QUADS[b]), QUADS[a] == QUADS[b], hash(&QUADS[a]) == hash(&QUADS[b]))
            } else {
                (OCTS[a].cmp(&OCTS[b]), OCTS[a] == OCTS[b], hash(&OCTS[a]) == hash(&OCTS[b]))
            };
            let p = if dim == 2 { QUADS[a].partial_cmp(&QUADS[b]) } else { OCTS[a].partial_cmp(&OCTS[b]) };
            ensure!(o == a.cmp(&b) && p == Some(o) && e == (a == b) && (!e || h), "{}D cells {} and {} compare {:?}, equal {}", dim, a, b, o, e);
        }
        _ => {
            let o = src.below(model::ord_count(dim)) as u8;
            let c = src.below(n);
            let (c2, _) = (src.below(n), ());
            src.nontrivial = c != 0 && c != n - 1;
            let name = model::ord_name(dim, o);
            src.note(|| format!("cell {} under {}", c, name));
            let ax = model::axes(dim, o);
            let mut want = [0usize; 3];
            for b in 0..dim {
                want[ax[b]] = (c >> b) & 1;
            }
            if dim == 2 {
                let g = quad_ord(o).to_index(QUADS[c]);
                ensure!([g.x, g.y, 0] == want, "{}: quadrant {} lies at {:?}, expected {:?}", name, c, g, want);
                let g2 = quad_ord(o).to_index(QUADS[c2]);
                ensure!((g == g2) == (c == c2), "{}: quadrants {} and {} share an offset", name, c, c2);
                let d = QuadrantOrdering::default();
                let e = <<Dim2D as Dimension>::CellOrdering as Default>::default();
                ensure!(matches!(d, QuadrantOrdering::XY) && matches!(e, QuadrantOrdering::XY), "default ordering is {:?}", d);
                ensure!(Dim2D::DIMENSIONALITY == 2, "dimensionality of 2D is {}", Dim2D::DIMENSIONALITY);
            } else {
                let g = oct_ord(o).to_index(OCTS[c]);
                ensure!([g.x, g.y, g.z] == want, "{}: octant {} lies at {:?}, expected {:?}", name, c, g, want);
                let g2 = oct_ord(o).to_index(OCTS[c2]);
                ensure!((g == g2) == (c == c2), "{}: octants {} and {} share an offset", name, c, c2);
                let (x, y, z) = oct_ord(o).get_bit_shifts_for_xyz();
                let mut sh = [0; 3];
                for b in 0..3 {
                    sh[ax[b]] = b;
                }
                ensure!([x, y, z] == sh, "{}: announced bit shifts are {:?}, expected {:?}", name, (x, y, z), sh);
                ensure!((g.x << x) | (g.y << y) | (g.z << z) == c, "{}: bit shifts and offsets of octant {} disagree", name, c);
                let copy = oct_ord(o);
                let again = copy;
                ensure!(again.to_index(OCTS[c]) == g, "{}: a copy of the ordering disagrees", name);
                let d = OctantOrdering::default();
                let e = <<Dim3D as Dimension>::CellOrdering as Default>::default();
                ensure!(matches!(d, OctantOrdering::XYZ) && matches!(e, OctantOrdering::XYZ), "default ordering is {:?}", d);
                ensure!(Dim3D::DIMENSIONALITY == 3, "dimensionality of 3D is {}", Dim3D::DIMENSIONALITY);
            }
        }
    }
    Ok(())
}

fn hash(t: &impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// --------------------------------------------------------------------------------------------------------- C21

fn int_bytes<B: Bits + Copy>(src: &mut Src, name: &'static str, to: fn(u128) -> B, back: fn(B) -> u128) -> R {
    let size = std::mem::size_of::<B>();
    src.label(name);
    if src.chance(1, 3) {
        let x = src.int128(8 * size as u32);
        src.note(|| format!("{} {:#x} as bytes", name, x));
        src.nontrivial = x > 0xFF;
        let mut b = to(x);
        ensure!(b.size() == size && B::BITS == 8 * size, "{}: size {} and width {}", name, b.size(), B::BITS);
        let s = unsafe { b.as_u8_slice() }.to_vec();
        let want = x.to_le_bytes()[..size].to_vec();
        let want: Vec<u8> = if cfg!(target_endian = "little") { want } else { want.into_iter().rev().collect() };
        ensure!(s == want, "{}: bytes of {:#x} are {:02x?}", name, x, s);
        let m = unsafe { b.as_u8_slice_mut() };
        ensure!(*m == want[..], "{}: mutable bytes of {:#x} are {:02x?}", name, x, m);
        let native = if cfg!(target_endian = "little") { Endianness::LittleEndian } else { Endianness::BigEndian };
        let r = back(unsafe { B::from_u8_slice(&tight(s.clone()), native) });
        ensure!(r == x, "{}: {:#x} becomes {:#x} by its bytes", name, x, r);
        let i = src.below(size);
        let v = src.upto(255) as u8;
        let view = unsafe { b.as_u8_slice_mut() };
        view[i] = v;
        let p = if cfg!(target_endian = "little") { i } else { size - 1 - i };
        let want = (x & !(0xFFu128 << (8 * p))) | ((v as u128) << (8 * p));
        ensure!(back(b) == want, "{}: writing byte {} of {:#x} gives {:#x}", name, i, x, back(b));
        return Ok(());
    }
    let n = if src.small() { src.below(4) } else { src.below(size + 4) };
    let n = long(src, n);
    let data = tight(bytes(src, n));
    let big = src.chance(1, 2);
    src.note(|| format!("{} from {}, {} endian", name, hx(&data), if big { "big" } else { "little" }));
    src.label(if n < size { "padded" } else { "complete" });
    src.nontrivial = n >= 1 && data.iter().any(|b| *b != data[0]);
    let mut want = 0u128;
    for i in 0..size {
        let b = data.get(i).copied().unwrap_or(0) as u128;
        want |= b << (8 * if big { size - 1 - i } else { i });
    }
    let got = back(unsafe { B::from_u8_slice(&data, if big { Endianness::BigEndian } else { Endianness::LittleEndian }) });
    ensure!(got == want, "{} from {} ({} endian) is {:#x}, expected {:#x}", name, hx(&data), if big { "big" } else { "little" }, got, want);
    Ok(())
}

fn vec_bytes(src: &mut Src) -> R {
    src.label("Vec<u8>");
    let n = if src.small() { src.below(4) } else { src.below(40) };
    let n = long(src, n);
    let data = tight(bytes(src, n));
    src.nontrivial = n >= 2;
    ensure!(<Vec<u8> as Bits>::BITS == 0, "Vec<u8>::BITS is {}", <Vec<u8> as Bits>::BITS);
    match src.below(3) {
        0 => {
            let big = src.chance(1, 2);
            src.note(|| format!("byte vector from {}, {} endian", hx(&data), if big { "big" } else { "little" }));
            let got = unsafe { <Vec<u8> as Bits>::from_u8_slice(&data, if big { Endianness::BigEndian } else { Endianness::LittleEndian }) };
            let mut want = data.clone();
            if big == cfg!(target_endian = "little") {
                want.reverse();
            }
            ensure!(got == want, "byte vector from {} ({} endian) is {}", hx(&data), if big { "big" } else { "little" }, hx(&got));
        }
        1 => {
            src.note(|| format!("views of {}", hx(&data)));
            let mut v = data.clone();
            ensure!(v.size() == n, "byte vector of {} bytes announces the size {}", n, v.size());
            ensure!(unsafe { v.as_u8_slice() } == &data[..], "bytes of {} differ", hx(&data));
            ensure!(unsafe { v.as_u8_slice_mut() } == &data[..], "mutable bytes of {} differ", hx(&data));
            if n > 0 {
                let i = src.below(n);
                let view = unsafe { v.as_u8_slice_mut() };
                view[i] ^= 0x5A;
                let mut want = data.clone();
                want[i] ^= 0x5A;
                ensure!(v == want, "writing through the byte view of {}", hx(&data));
            }
        }
        _ => {
            let x = src.int128(128);
            src.note(|| format!("byte vector from the word {:#x} and back", x));
            unsafe {
                let vs: [Vec<u8>; 6] = [
                    Bits::from_u8(x as u8),
                    Bits::from_u16(x as u16),
                    Bits::from_u32(x as u32),
                    Bits::from_u64(x as u64),
                    Bits::from_usize(x as usize),
                    Bits::from_u128(x),
                ];
                let want: [Vec<u8>; 6] = [
                    (x as u8).to_ne_bytes().to_vec(),
                    (x as u16).to_ne_bytes().to_vec(),
                    (x as u32).to_ne_bytes().to_vec(),
                    (x as u64).to_ne_bytes().to_vec(),
                    (x as usize).to_ne_bytes().to_vec(),
                    x.to_ne_bytes().to_vec(),
                ];
                ensure!(vs == want, "byte vectors from the parts of {:#x} are {:02x?}", x, vs);
                let [a, b, c, d, e, f] = vs;
                let got = [a.as_u8() as u128, b.as_u16() as u128, c.as_u32() as u128, d.as_u64() as u128, e.as_usize() as u128, f.as_u128()];
                let want = [x as u8 as u128, x as u16 as u128, x as u32 as u128, x as u64 as u128, x as usize as u128, x];
                ensure!(got == want, "byte vectors from the parts of {:#x} go back to {:x?}", x, got);
            }
        }
    }
    Ok(())
}

pub fn c21(src: &mut Src) -> R {
    match if src.small() { [0, 1, 6][src.below(3)] } else { src.below(8) } {
        0 => int_bytes::<u8>(src, "u8", |x| x as u8, |b| b as u128),
        1 => int_bytes::<u16>(src, "u16", |x| x as u16, |b| b as u128),
        2 => int_bytes::<u32>(src, "u32", |x| x as u32, |b| b as u128),
        3 => int_bytes::<u64>(src, "u64", |x| x as u64, |b| b as u128),
        4 => int_bytes::<u128>(src, "u128", |x| x, |b| b),
        5 => int_bytes::<usize>(src, "usize", |x| x as usize, |b| b as u128),
        _ => vec_bytes(src),
    }
}

// --------------------------------------------------------------------------------------------------------- C22

/// Requests outside of the range through checked interfaces end in a refusal or a panic, and the value stays usable
fn refusals(src: &mut Src) -> R {
    src.label("refusals");
    src.nontrivial = true;
    if src.below(8) == 7 {
        let k = huge(src, 6).max(4);
        src.note(|| format!("cells numbered {}", k));
        ensure!(Quadrant::try_from(k).is_err(), "quadrant number {} is accepted", k);
        ensure!(k < 8 || Octant::try_from(k).is_err(), "octant number {} is accepted", k);
        return Ok(());
    }
    let ty = any_ty(src);
    let (mut v, m) = value(src, ty)?;
    let d = v.depth();
    let l = beyond(src, d);
    src.note(|| format!("level {} of an index of depth {}", l, d));
    if src.chance(1, 2) {
        let c = src.below(1 << ty.dim) as u8;
        ensure!(catch(|| v.set(l, c)).is_err(), "{}: writing level {} of an index of depth {} is accepted", ty.name, l, d);
    } else {
        ensure!(catch(|| v.get(l)).is_err(), "{}: reading level {} of an index of depth {} is accepted", ty.name, l, d);
    }
    let got = try_observe(&v).map_err(|p| Stop::Fail(format!("{}: after a refused access: {}", ty.name, p.msg)))?;
    ensure!(d != m.len() || got.len() == d, "{}: a refused access changed the depth", ty.name);
    Ok(())
}

/// Runs the other properties' cases for their memory behaviour only: a wrong answer or a panic is not judged here, an access outside the
/// values involved is caught by the sanitizer, the interpreter or the standard library's own precondition checks.
pub fn c22(src: &mut Src) -> R {
    let props = crate::PROPS;
    let w: Vec<usize> = props
        .iter()
        .map(|p| match p.id {
            "C26" if cfg!(any(ints, storages)) => 1,
            "C27" if cfg!(dims) => 1,
            id if !crate::conc::functional(id) => 0,
            // the interpreter has time for many cheap cases
            "C13" | "C21" if cfg!(miri) => 24,
            "C05" | "C12" if cfg!(miri) => 8,
            "C01" | "C06" | "C09" | "C10" | "C14" | "C17" | "C18" if cfg!(miri) => 3,
            "C16" if cfg!(miri) => 1,
            "C13" => 6,
            "C02" | "C03" | "C07" | "C08" | "C16" => 3,
            _ => 1,
        })
        .collect();
    if !src.small() && src.below(8) == 7 {
        return refusals(src);
    }
    let i = if src.small() { return Err(Stop::Discard("not enumerated")) } else { src.weighted(&w) };
    src.label(props[i].id);
    let before = src.labels.len();
    run_quiet(props[i].f, src);
    src.labels.truncate(before);
    Ok(())
}

// --------------------------------------------------------------------------------------------------------- C23

/// A case of any of the functional properties, judged as there; what matters is the platform it is run for
pub fn c23(src: &mut Src) -> R {
    let props = crate::PROPS;
    // costly ones less often, above all under the interpreter
    let w: Vec<usize> = props
        .iter()
        .map(|p| match p.id {
            "C26" if cfg!(any(ints, storages)) => 6,
            "C27" if cfg!(dims) => 6,
            id if !crate::conc::functional(id) => 0,
            "C04" | "C16" => 1,
            "C13" | "C21" if cfg!(miri) => 60,
            "C12" if cfg!(miri) => 30,
            "C05" | "C14" if cfg!(miri) => 20,
            "C01" | "C09" | "C15" | "C19" if cfg!(miri) => 10,
            "C07" | "C11" | "C20" if cfg!(miri) => 3,
            "C05" | "C06" | "C08" | "C13" | "C17" | "C18" => 8,
            _ => 4,
        })
        .collect();
    let i = if src.small() { return Err(Stop::Discard("not enumerated")) } else { src.weighted(&w) };
    let before = src.labels.len();
    let r = (props[i].f)(src);
    src.labels.truncate(before);
    src.label(props[i].id);
    match r {
        Err(Stop::Fail(m)) => Err(Stop::Fail(format!("({} on a {}-bit {}-endian platform) {}", props[i].id, usize::BITS, if cfg!(target_endian = "big") { "big" } else { "little" }, m))),
        r => r,
    }
}
