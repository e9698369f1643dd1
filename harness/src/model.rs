//! The reference model: a Morton index is a plain list of small cell numbers, root first. Nothing here uses the crate.

use std::cmp::Ordering;

/// `axes(dim, ord)[b]` is the axis (0 = x, 1 = y, 2 = z) that bit `b` of a cell number belongs to. Orderings are numbered in the order of
/// their names: XY, YX and XYZ, XZY, YXZ, YZX, ZXY, ZYX; the first-named axis owns the lowest bit (documentation of the ordering enums).
pub fn axes(dim: usize, ord: u8) -> [usize; 3] {
    if dim == 2 {
        [[0, 1, 2], [1, 0, 2]][ord as usize]
    } else {
        [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][ord as usize]
    }
}

pub fn ord_count(dim: usize) -> usize {
    if dim == 2 {
        2
    } else {
        6
    }
}

/// Bits of a grid coordinate
pub const WORD: usize = usize::BITS as usize;

pub fn ord_name(dim: usize, ord: u8) -> &'static str {
    if dim == 2 {
        ["XY", "YX"][ord as usize]
    } else {
        ["XYZ", "XZY", "YXZ", "YZX", "ZXY", "ZYX"][ord as usize]
    }
}

pub fn bit(v: usize, i: usize) -> usize {
    if i >= WORD {
        0
    } else {
        (v >> i) & 1
    }
}

/// The cells of the grid cell `coords` in a grid with 2^depth cells per axis
pub fn cells_from_grid(dim: usize, coords: [usize; 3], depth: usize, ord: u8) -> Vec<u8> {
    let ax = axes(dim, ord);
    (0..depth)
        .map(|level| {
            let pos = depth - 1 - level;
            let mut c = 0u8;
            for b in 0..dim {
                c |= (bit(coords[ax[b]], pos) as u8) << b;
            }
            c
        })
        .collect()
}

/// Grid coordinates of a list of cells; `None` if a coordinate does not fit into a usize
pub fn grid_from_cells(dim: usize, cells: &[u8], ord: u8) -> Option<[usize; 3]> {
    let ax = axes(dim, ord);
    let mut out = [0usize; 3];
    for (level, c) in cells.iter().enumerate() {
        let pos = cells.len() - 1 - level;
        for b in 0..dim {
            if (c >> b) & 1 == 1 {
                if pos >= WORD {
                    return None;
                }
                out[ax[b]] |= 1 << pos;
            }
        }
    }
    Some(out)
}

/// Pre-order: first differing cell decides, a node comes before its descendants
pub fn preorder(a: &[u8], b: &[u8]) -> Ordering {
    let mut i = 0;
    loop {
        match (a.get(i), b.get(i)) {
            (None, None) => return Ordering::Equal,
            (None, Some(_)) => return Ordering::Less,
            (Some(_), None) => return Ordering::Greater,
            (Some(x), Some(y)) if x != y => return if x < y { Ordering::Less } else { Ordering::Greater },
            _ => i += 1,
        }
    }
}

/// Cells of raw storage bits (width in bits), from the most significant bits down
pub fn cells_from_raw(dim: usize, width: usize, raw: u128, depth: usize) -> Vec<u8> {
    (0..depth)
        .map(|l| ((raw >> (width - dim * (l + 1))) & ((1 << dim) - 1)) as u8)
        .collect()
}

pub fn raw_from_cells(dim: usize, width: usize, cells: &[u8]) -> u128 {
    let mut r = 0u128;
    for (l, c) in cells.iter().enumerate() {
        r |= (*c as u128) << (width - dim * (l + 1));
    }
    r
}

pub fn low_mask(width: usize) -> u128 {
    if width >= 128 {
        u128::MAX
    } else {
        (1u128 << width) - 1
    }
}

pub fn name(cells: &[u8]) -> String {
    cells.iter().map(|c| (b'0' + c) as char).collect()
}
