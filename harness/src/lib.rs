#[macro_use]
pub mod engine;
pub mod bits;
pub mod conc;
pub mod custom;
#[cfg(dims)]
pub mod dims;
#[cfg(not(dims))]
pub mod dims {
    pub fn c27(_: &mut crate::engine::Src) -> crate::engine::R {
        Err(crate::engine::Stop::Discard("dimensions of our own do not fit the traits"))
    }
}
pub mod gen;
pub mod mem;
pub mod model;
pub mod props;
pub mod tree;
pub mod types;

pub struct Prop {
    pub id: &'static str,
    pub f: engine::PropFn,
    pub rule: &'static str,
    /// random cases of the quick tier (both build profiles together run twice this number)
    pub quick: u64,
    pub thorough: u64,
    /// limit of the bounded-exhaustive enumeration per value of the first choice, 0: none
    pub enum_limit: u64,
}

const fn p(id: &'static str, f: engine::PropFn, rule: &'static str, quick: u64, thorough: u64, enum_limit: u64) -> Prop {
    Prop { id, f, rule, quick, thorough, enum_limit }
}

pub const PROPS: &[Prop] = &[
    p("C01", props::c01, "a type, a route (slice, array, storage, default, zeroed) and cells that fit; non-trivial: at least two levels with different cells, or a default/zeroed construction", 5_000_000, 300_000_000, 60_000),
    p("C02", props::c02, "an index by any of 14 routes, then up to 16 reads, writes, refused accesses and clones; non-trivial: at least two writes changed a cell", 1_500_000, 90_000_000, 60_000),
    p("C03", props::c03, "two indices of one type by two of 14 routes, aimed at the same or at neighbouring nodes; non-trivial: both deeper than the root", 3_000_000, 180_000_000, 60_000),
    p("C04", props::c04, "2 to 7 related indices of one type, all pairs, sorting, and the other flavours; non-trivial: two different ones share their first cell", 600_000, 36_000_000, 60_000),
    p("C05", props::c05, "a type, axis ordering, grid depth and coordinates with and without bits above the depth; non-trivial: at least two levels with different cells", 6_000_000, 360_000_000, 60_000),
    p("C06", props::c06, "an index by any route and an axis ordering, to the grid and back, and coordinates to an index and back; non-trivial: at least two levels with different cells", 3_200_000, 192_000_000, 60_000),
    p("C07", props::c07, "a variable-depth index by any route, one move of each kind (ancestor, parent, with_depth, descendant, child) and its reversal; non-trivial: at least two levels with different cells", 1_500_000, 90_000_000, 60_000),
    p("C08", props::c08, "an index and a chain of up to 4 conversions between flavours; non-trivial: at least two levels with different cells", 1_800_000, 108_000_000, 60_000),
    p("C09", props::c09, "a type, one of 7 ways of producing an index and a number of levels around the limit, around 256 and around 65536; non-trivial: more than zero levels", 1_500_000, 90_000_000, 60_000),
    p("C10", props::c10, "an index by any route, its three names and the way back; non-trivial: at least two levels with different cells", 2_500_000, 150_000_000, 60_000),
    p("C11", props::c11, "an index by any route, inverted once and twice and used afterwards; non-trivial: the reversed cells differ from the cells", 1_600_000, 96_000_000, 60_000),
    p("C12", bits::c12, "an integer type, a value, a bit range and a new value; non-trivial: the range is neither empty nor the whole word, or the value exceeds a byte", 8_000_000, 480_000_000, 400_000),
    p("C13", bits::c13, "a byte vector of 1 to 80 bytes, a bit range and a new value; non-trivial: the non-empty range starts or ends inside a byte", 8_000_000, 480_000_000, 400_000),
    p("C14", bits::c14, "a helper and an input word; non-trivial: at least two bits set", 12_000_000, 720_000_000, 100_000),
    p("C15", bits::c15, "an integer type, a value and an alignment; non-trivial: alignment above one, value above zero", 8_000_000, 480_000_000, 100_000),
    p("C16", props::c16, "a history of up to 14 operations run in lock-step on six static widths, the dynamic flavour and a list of cells; non-trivial: at least three writes or moves", 400_000, 24_000_000, 30_000),
    p("C17", props::c17, "a type, ordering, depth and two grid cells: halving, children, order; non-trivial: depth at least 2 and not the origin", 2_400_000, 144_000_000, 60_000),
    p("C18", props::c18, "raw bits of a 3D index, a depth, and other raw bits that differ in unused or in used bits; non-trivial: at least two levels with different cells", 4_000_000, 240_000_000, 60_000),
    p("C19", bits::c19, "cell numbers, pairs of cells, or a cell under an axis ordering; non-trivial: two different cells, a cell off the diagonal, or any number", 3_000_000, 180_000_000, 10_000),
    p("C20", props::c20, "a slice of up to 6 indices, a naming, and a related slice; non-trivial: at least two indices", 1_600_000, 96_000_000, 30_000),
    p("C21", bits::c21, "bytes and an endianness, or a value and its byte view; non-trivial: bytes that are not all equal, or a value beyond one byte", 9_000_000, 540_000_000, 100_000),
    p("C22", bits::c22, "a case of one of the properties C01 to C21, C26 and C27, run for its memory behaviour; non-trivial as defined there", 900_000, 18_000_000, 0),
    p("C23", bits::c23, "a case of one of the properties C01 to C21, C26 and C27, judged as there, on this platform and under an interpreter of a big-endian and of a 32-bit platform; non-trivial as defined there", 2_500_000, 100_000_000, 0),
    p("C24", conc::c24, "up to 3 cases of the properties C01 to C21, alone and then on up to 3 threads at once, or up to 6 met by up to 6 threads at the same time, or one index read in 14 ways by up to 3 threads; non-trivial: as defined there, met at the same time, or at least two levels with different cells", 90_000, 6_000_000, 0),
    p("C25", mem::c25, "a type, two indices of the same shape by slices, one by any route and arguments for every operation, whose requests for memory are counted; non-trivial: at least two levels with different cells", 3_000_000, 180_000_000, 60_000),
    p("C26", custom::c26, "a case of one of the properties C01 to C11, C16 to C18 and C20 over integers of 24, 40, 72 and 128 bits that the crate does not know, or of C01 to C04, C07, C10, C11 and C20 over storages with a layout of their own; non-trivial as defined there", 3_000_000, 120_000_000, 0),
    p("C27", dims::c27, "a dimension of 1 to 8, a layout (fixed, static, dynamic) over 7 integer types or bytes, cells, then up to 8 writes and moves by the traits' default methods; non-trivial: at least two levels with different cells", 3_000_000, 180_000_000, 0),
    p("C28", tree::c28, "a type and a history of up to 17, at times 63 steps on a tree keyed by its indices (points, splits, merges, lookups of subtrees, paths, neighbours, ranges, sorting); non-trivial: at least three entries at the end", 400_000, 24_000_000, 0),
];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}
