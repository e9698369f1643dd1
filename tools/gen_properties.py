#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for property texts)."""
import json, os
D2="src/indices/morton_index_2d.rs"; D3="src/indices/morton_index_3d.rs"; ST="src/indices/storage.rs"
NU="src/number.rs"; MO="src/morton.rs"; IM="src/indices/mod.rs"; HE="src/helper.rs"; AL="src/align.rs"
DI2="src/dimensions/dim_2d.rs"; DI3="src/dimensions/dim_3d.rs"; ER="src/error.rs"
ALL=("every dimension (2D, 3D), every storage flavour (fixed depth, static, dynamic), every storage width (u8..u128, usize)")
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("C01","An index holds exactly the cells it was built from",
 "Building an index from a slice or array of cells that fits its capacity yields an index whose depth is the number of cells given (a fixed-depth index always has its full depth, with the missing levels zero), and every way of reading it (checked access, unchecked access, the cell iterator) returns exactly those cells from the root downwards. The cell iterator yields exactly depth-many cells and then ends for good. A default variable-depth index is the root (depth 0), a default fixed-depth index and a zeroed index of depth d have every cell zero and the expected depth.",
 ["inputs","configurations"],
 "all cell sequences of every length 0..capacity (dynamic: any length), for "+ALL,
 "The unit tests build a handful of random sequences at full depth or two fixed shorter depths; the random 3D helper never draws octants 4..7, arrays are only tried with 4 cells, so most depths, most bit patterns and most array lengths are never built.",
 [D2,D3,ST,IM,NU],
 [("TryFrom<&[Cell]> / TryFrom<[Cell; N]> of each storage",D2+", "+D3),("get/set_cell_at_level_unchecked of FixedDepthStorage, StaticStorage, DynamicStorage",ST),("CellIter::next",IM)],
 ["try_from(slice)","try_from(array)","Default","zeroed","depth()","get_cell_at_level","get_cell_at_level_unchecked","cells()"])

p("C02","Writing one cell changes that level and nothing else",
 "After any sequence of cell writes at levels below the depth, every level reads back the last cell written to it and all other levels and the depth keep their previous value; clones or copies taken earlier are unaffected. A checked read or write at a level at or beyond the depth panics, in every build profile, and leaves the index exactly as it was.",
 ["inputs","histories","configurations"],
 "all write histories (checked and unchecked writes interleaved with clones and out-of-range accesses) on indices of every depth, for "+ALL,
 "Tests write each level once, in ascending order, into a zeroed index at one depth per type, so overwriting a non-zero cell, neighbours straddling byte boundaries, other depths and release-mode behaviour are never exercised.",
 [D2,D3,ST,NU],
 [("set_cell_at_level depth check",D2+", "+D3),("set_bits / set_bits_from_usize read-modify-write masks",NU),("start_bit computation per level",ST)],
 ["set_cell_at_level","set_cell_at_level_unchecked","get_cell_at_level","depth()","clone()"])

p("C03","Equality and hash depend only on depth and cells, never on history",
 "Two indices of the same type compare equal exactly when they have the same depth and the same cell at every level, no matter by which route each was obtained (from cells, arrays, zeroed plus writes, grid indices, raw bits, parents/ancestors, descendants, conversions, inversion, cloning). Equal indices hash equally, comparing them as ordered values gives Equal exactly when they are equal, and an index equals its clone.",
 ["inputs","histories","configurations"],
 "all pairs of construction histories that lead to equal or to different cell sequences, for "+ALL,
 "Tests compare only results of the same one or two constructors at a couple of depths; leftover bits below the depth, surplus storage bytes or stale cells after going up and down the tree only show for specific histories and depths.",
 [D2,D3],
 [("PartialEq/Hash over raw bits and depth, relying on unused bits and bytes always being zero/absent",D2+", "+D3),("ancestor() clearing of cells below the new depth",D2+", "+D3),("DynamicStorage zeroed()/descendant() byte counts",D2+", "+D3)],
 ["==","!=","Hash","cmp","HashSet/BTreeSet behaviour"],
 state=[dict(name="unused bits",meaning="bits of the storage below the last stored cell; must be zero in every reachable index",where="bits field of each storage struct")])

p("C04","Sorting indices gives tree pre-order, for every flavour alike",
 "Indices of one type are totally ordered by the first level at which their cells differ (lower cell first), and a node sorts before all of its descendants; so sorting any collection yields the pre-order traversal of the quadtree/octree. All comparison operators agree with this order, and fixed-depth, static and dynamic indices of the same nodes sort in the same order.",
 ["inputs","configurations"],
 "all pairs, triples and collections of indices of equal or different depths, including shared prefixes, ancestor/descendant pairs and neighbours differing only in the last level, for "+ALL,
 "The ordering tests only look at adjacent cells of a sorted random list and break at the first smaller cell, so they accept a descendant sorting before its ancestor and rarely contain long shared prefixes or equal-prefix pairs.",
 [D2,D3],
 [("Ord for StaticStorage2D/3D (prefix comparison by depth)",D2+", "+D3),("Ord for DynamicStorage2D/3D (cell-wise)",D2+", "+D3),("derived Ord on FixedDepthStorage bits and on MortonIndex2D/3D",D2+", "+D3)],
 ["cmp","partial_cmp","<, <=, >, >=","sort()","max/min","BTreeSet order"])

p("C05","Grid index to Morton index is exact bit interleaving",
 "Creating an index from grid coordinates at a grid depth d yields depth d, and its cell at each level is formed from the coordinate bits of that level (most significant of the d bits first), placed according to the chosen axis ordering; coordinate bits at or above d are ignored. This holds for every axis ordering, every d within the capacity (fixed-depth indices use their full depth), and the fast 64-bit 3D routine agrees with the general one on all coordinates. Depths the flavour cannot take are refused (an error, or a panic where documented), never answered with a wrong index.",
 ["inputs","configurations"],
 "all grid coordinates (full coordinate range), all grid depths, all 2 + 6 axis orderings, for "+ALL,
 "The tests round-trip random indices at full depth, full depth minus one or three, and depth one; every other grid depth, coordinates with bits above the depth, the fast 3D routine and octants 4..7 are untested.",
 [D2,D3,NU,DI2,DI3],
 [("from_grid_index chunked interleaving per storage",D2+", "+D3),("from_grid_index_fast",D3),("add_zero*/add_two_zeroes* bit spreading",NU),("OctantOrdering::get_bit_shifts_for_xyz",DI3)],
 ["from_grid_index","from_grid_index_fast","cells()","depth()"])

p("C06","Morton index to grid index is exact and inverts the encoding",
 "Converting an index of depth d to grid coordinates gives, on each axis, the d-bit number whose bits are that axis' bits of the cells from the root down under the chosen ordering, whenever these coordinates fit the coordinate type; if they do not fit, the call panics instead of returning wrong coordinates. Converting to the grid and back at the same depth and ordering returns the same index, and converting grid coordinates below 2^d to an index and back returns the same coordinates; different indices of one depth have different coordinates.",
 ["inputs","configurations"],
 "all indices of every depth (including depth 0, depth 64 and, for dynamic indices, depths above the coordinate width), all axis orderings, for "+ALL,
 "Tests only check round-trips, in which compensating errors cancel, at a few depths; decoding is compared to an explicit expected coordinate nowhere but in two examples.",
 [D2,D3,DI2,DI3],
 [("to_grid_index",D2+", "+D3),("QuadrantOrdering::to_index / OctantOrdering::to_index",DI2+", "+DI3)],
 ["to_grid_index","from_grid_index"])

p("C07","Tree navigation: ancestors, parents and descendants are exact",
 "For variable-depth indices, the ancestor g generations up keeps exactly the first depth-g cells and exists exactly when 1 <= g <= depth; parent is the ancestor one generation up; reducing to a given depth exists exactly when that depth does not exceed the current one. A descendant consists of the original cells followed by the given cells and exists exactly when the result fits the capacity (always, for dynamic indices); child is the one-cell descendant. Navigation never changes the index it starts from, and going down and up again returns an equal index.",
 ["inputs","histories","configurations"],
 "all indices, all generation counts and target depths (including counts far beyond the depth), all lists of child cells including empty ones, and all chains of such steps, for 2D and 3D, static of every width and dynamic",
 "Tests start from full-depth indices and go up one, three or all levels, or down one or two levels; other depths (partial bytes in dynamic storage), chained navigation, oversized arguments and with_depth are not covered.",
 [D2,D3,MO],
 [("ancestor/descendant of StaticStorage and DynamicStorage",D2+", "+D3),("parent/with_depth/child defaults",MO)],
 ["ancestor","parent","with_depth","descendant","child"])

p("C08","Converting between storage flavours preserves the node",
 "Converting an index to another storage flavour keeps depth and cells; converting to a fixed-depth index keeps the cells and fills the remaining levels with zero. A conversion from dynamic fails exactly when the depth exceeds the target's capacity, and converting back and forth returns an index equal to the original (extended by zero cells when it went through a fixed-depth index).",
 ["inputs","configurations"],
 "all indices of every depth up to and beyond the target capacity, all six conversion directions and chains of them, for 2D and 3D and every storage width",
 "Tests convert at full depth, half depth and full depth minus three (2D) or one (3D); dynamic to fixed with at least one whole storage byte missing, conversions of indices that were not built directly from cells, and too deep inputs are not covered.",
 [D2,D3,NU],
 [("From/TryFrom impls between MortonIndex2D/3D storages",D2+", "+D3),("Bits::from_u8_slice / as_u8_slice",NU)],
 ["From/Into","TryFrom/TryInto","cells()","depth()","=="])

p("C09","Capacity limits are announced truthfully and enforced everywhere",
 "The announced maximum depth of every flavour equals floor(storage bits / dimensions) (none for dynamic), and every way of producing an index (from a slice, an array, a zeroed depth, a grid depth, raw bits with a depth, a descendant, a conversion) succeeds exactly up to that depth and is refused beyond it, with an error that names the limit where an error is returned. No input, however large, is truncated or wrapped into a shallower or different index.",
 ["inputs","configurations"],
 "all requested depths from 0 to far beyond the capacity (including values whose low 8, 16 or 32 bits look valid), all producing operations, for "+ALL,
 "Tests try exactly one level too many for two constructors and one level beyond a full index; conversions, grid depths, zeroed, arrays and depths above 255 (where a narrowing cast wraps) are not tried, nor is the limit inside the error.",
 [D2,D3,ST,ER],
 [("MAX_LEVELS checks in constructors, descendant, from_grid_index, conversions",D2+", "+D3),("StorageType::max_depth / MAX_LEVELS",ST)],
 ["Storage::max_depth","Err(DepthLimitedExceeded{max_depth})","None results","depth()"])

p("C10","String forms are faithful and unambiguous",
 "The cell-concatenation name of an index is the sequence of its cell numbers from the root down, one digit per level; the rooted name is the same with a leading r; the grid name (of an index whose grid coordinates fit the coordinate type) is the depth followed by the grid coordinates in the default ordering, joined by dashes. Parsing a name back recovers the index, so different indices of one type never share a name.",
 ["inputs","configurations"],
 "all indices of every depth (grid name: whose coordinates fit the coordinate type), three naming schemes, for "+ALL,
 "No unit test checks any string; only two examples (never asserted by the test suite) do, for one index each.",
 [D2,D3,MO],
 [("to_string",D2+", "+D3),("MortonIndexNaming",MO)],
 ["to_string"])

p("C11","Inversion reverses the cells and is its own inverse",
 "The inverted index has the same depth and the cells in reverse order, the original is unchanged, and inverting twice returns an index equal to the original. The result is a fully valid index: it equals, hashes and compares like an index built directly from the reversed cells.",
 ["inputs","configurations"],
 "all indices of every depth and of every construction history, for "+ALL,
 "Tests invert sixteen random indices per type built directly from cells (octants 0..3 only).",
 [MO],
 [("MortonIndex::inverted default method",MO)],
 ["inverted"])

p("C12","Integer bit-range access reads and writes exactly the range",
 "For every unsigned integer type, reading a bit range returns the value of those bits; writing a value that fits a non-empty range makes exactly those bits equal to it and leaves every other bit unchanged. The variants working through the native word agree with these wherever the range fits a native word, and narrowing or widening conversions between unsigned integers keep the low bits.",
 ["inputs","configurations"],
 "all integers of u8, u16, u32, u64, u128, usize, all in-bounds bit ranges, all values that fit the range",
 "Tests use a dozen hand-picked ranges on u8 and u16 starting from zero; wider types, overwriting set bits and ranges touching both ends are not covered.",
 [NU],
 [("impl_bits! get_bits/set_bits shift-and-mask with checked_shr",NU)],
 ["Bits::get_bits","Bits::set_bits","Bits::get_bits_as_usize","Bits::set_bits_from_usize","as_*/from_*"])

p("C13","Byte-vector bit-range access reads and writes exactly the range",
 "On a byte vector, seen as a little-endian number, reading a bit range returns exactly the bits of that range (unused high bits of the last returned byte are zero), and writing a value of sufficient length to a non-empty range makes exactly those bits equal to the value's low bits, leaving every other bit and the length unchanged. The native-word variants agree with the byte-vector variants for ranges that fit a native word.",
 ["inputs"],
 "all byte vectors, all in-bounds bit ranges at any alignment, all values long enough for the range",
 "Tests use eight hand-picked ranges of a four-byte vector, never one that ends inside a byte after an unaligned start, and never a write over non-zero bytes.",
 [NU],
 [("Bits for Vec<u8>::get_bits carry loop",NU),("set_vec_u8_bits two-byte combination",NU),("get_bits_as_usize loop",NU)],
 ["Bits::get_bits","Bits::set_bits","Bits::get_bits_as_usize","Bits::set_bits_from_usize"])

p("C14","Bit-spreading helpers place each bit exactly",
 "Each bit-spreading helper takes the documented number of low bits of its input (4 or 8 for the helpers inserting one zero per bit, 8 or 21 for those inserting two zeroes) and moves bit i to position 2i (or 2i+1 for the zero-behind variant) or 3i, with every other output bit zero. Input bits above the documented number have no effect.",
 ["inputs"],
 "all inputs of each helper: exhaustively for the 8- and 16-bit helpers, generated over the full 32-bit range for the widest",
 "Tests check ten values below 16 and runs of low one-bits; inputs with isolated bits or bits above the documented number are never tried.",
 [NU],
 [("add_zero_behind_every_bit_u8, add_zero_before_every_bit_u8/u16, add_two_zeroes_before_every_bit_u8/u32",NU)],
 ["return values of the five functions"])

p("C15","Aligning gives the smallest sufficient multiple",
 "Aligning a value to a non-zero alignment returns the smallest multiple of the alignment that is not below the value, whenever that multiple fits the integer type; alignment zero returns the value unchanged. If the multiple does not fit, no smaller number is silently returned by a build with overflow checks (it panics).",
 ["inputs","configurations"],
 "all values and alignments of u8 (exhaustively), u16, u32, u64, u128 and usize, including values near the type's maximum",
 "There are no tests for alignment at all.",
 [AL],
 [("Alignable::align_to for each integer type",AL)],
 ["align_to"])

p("C16","All flavours and routes behave identically under any operation history",
 "Running the same history of operations (writes, reads, child/descendant, parent/ancestor, reduce depth, inversion, cloning, conversion between flavours, grid round trips, default/zeroed) on static indices of every sufficient width and on dynamic indices gives the same observable depth, cells, success/refusal, names, grid coordinates and mutual order after every step, equal to what the same history gives on a plain list of cells. The only permitted difference is a refusal when the flavour's capacity is exceeded.",
 ["histories","inputs","configurations"],
 "all operation sequences from the root or from any constructed index, in 2D and 3D, over static storage of every width and dynamic storage in lock-step",
 "Every unit test performs a single operation on a freshly built index of one type; multi-step histories and comparisons between flavours do not occur.",
 [D2,D3,ST,MO],
 [("VariableDepthMortonIndex and MortonIndex implementations",D2+", "+D3),("Storage bookkeeping of depth, bytes and unused bits across operations",D2+", "+D3)],
 ["depth()","cells()","==","cmp","to_string","to_grid_index"])

p("C17","Grid refinement and tree structure agree",
 "The index of a grid cell at depth d+k has, k generations up, the index of the grid cell obtained by halving each coordinate k times; conversely the children of a node cover exactly the 2 (per axis) finer grid cells inside it, each exactly once. For two grid cells at the same depth the order of their indices is the order of their interleaved coordinate bits, so a node's descendants form one contiguous run of the sorted order.",
 ["inputs","configurations"],
 "all grid cells, all depths and refinement steps within capacity, all axis orderings, for 2D and 3D, static of every width and dynamic (ordering part also fixed depth)",
 "No test relates grid coordinates at different depths or relates grid coordinates to the sort order.",
 [D2,D3],
 [("from_grid_index, to_grid_index, ancestor, descendant, Ord in combination",D2+", "+D3)],
 ["from_grid_index","to_grid_index","ancestor","child","cmp"])

p("C18","Raw 3D index bits map to cells from the most significant bits down",
 "A 3D index created from raw storage bits has as its cells the consecutive 3-bit groups of those bits starting at the most significant one (fixed depth: all of them; static: the first depth-many); bits not belonging to any cell have no effect, so the result equals the index built from those cells in equality, hash and order. For bits whose unused part is zero, the order of fixed-depth indices is the numeric order of their raw bits.",
 ["inputs","configurations"],
 "all raw bit patterns of u8..u128 and usize, all depths up to the capacity",
 "from_raw_index has no test.",
 [D3,ST],
 [("from_raw_index for FixedDepthStorage3D and StaticStorage3D",D3)],
 ["from_raw_index","cells()","==","cmp"])

p("C19","Cell numbers and axis orderings are consistent bijections",
 "Every number below the cell count converts to the cell with that number and back, every other number is refused, and cells are ordered by number. For every axis ordering the mapping from cells to unit offsets is a bijection that assigns the lowest bit of the cell number to the ordering's first-named axis and so on, agrees with the announced bit shifts, and the default orderings are XY and XYZ.",
 ["inputs","configurations"],
 "all cells, all axis orderings, all numbers of the native word type",
 "Tests cover the cell-to-offset tables but derive the 3D expectation from the crate's own shift table, and never try numbers outside the cell range, ordering or hashing of cells, or defaults.",
 [DI2,DI3],
 [("Quadrant/Octant TryFrom<usize>, Into<usize>, index()",DI2+", "+DI3),("QuadrantOrdering/OctantOrdering to_index, get_bit_shifts_for_xyz",DI2+", "+DI3)],
 ["try_from","index","to_index","get_bit_shifts_for_xyz","Default"])

p("C20","A displayable slice shows exactly its indices, in order",
 "Wrapping a slice of indices for display prints an opening bracket, the names of all indices in slice order under the chosen naming separated by comma and blank, and a closing bracket; the debug form is the same text, and an empty slice prints an empty pair of brackets. When the writer fails on the way, that failure is reported and what arrived is a beginning of that text. Comparing two wrapped slices for equality and order gives the same result as comparing the slices.",
 ["inputs","configurations"],
 "all slices (any length including 0 and 1) of indices, all naming schemes, for "+ALL,
 "The helper module has no tests.",
 [HE],
 [("Display/Debug/PartialEq/Ord for DisplayableMortonIndexSlice",HE)],
 ["format!({}) and format!({:?}) of make_displayable","==, cmp on the wrapper"])

p("C21","Byte-slice and native-word conversions of bit storage are exact",
 "Building an integer from a byte slice in a given endianness uses the first bytes up to the integer's size, appends zero bytes when there are fewer, and interprets them in that endianness; building a byte vector keeps all bytes, in platform order (reversed for the other endianness). Viewing a value as bytes and building it back in native endianness returns the same value, and size/width announcements match the type.",
 ["inputs","configurations"],
 "all byte slices of length 0 to beyond the type's size, both endiannesses, u8..u128, usize and byte vectors",
 "There are no tests of these conversions; the crate itself uses them only through one conversion path.",
 [NU],
 [("Bits::from_u8_slice, as_u8_slice, as_u8_slice_mut, size, BITS",NU)],
 ["return values"])

p("C22","Safe use never touches memory it should not",
 "No sequence of calls to the library that respects its documented preconditions reads or writes outside the memory owned by the values involved, uses uninitialised memory, or otherwise performs undefined behaviour, for any input; out-of-range requests made through checked interfaces end in a refusal or a clean panic.",
 ["inputs","histories","configurations"],
 "all operation histories and inputs of the other properties, executed under a memory-error detector",
 "The test suite runs without any memory-error detector; an out-of-bounds read of one byte returns plausible data and goes unnoticed.",
 [NU,ST,MO,D2,D3],
 [("set_vec_u8_bits unaligned two-byte pointer read",NU),("NonZeroUsize::new_unchecked in parent/with_depth",MO),("get/set_*_unchecked callers' depth reasoning",D2+", "+D3+", "+IM)],
 ["AddressSanitizer and Miri reports, abnormal process termination"])

p("C23","Results do not depend on the platform's byte order or word size",
 "The same calls with the same arguments give the same indices, cells, order, names, coordinates, conversions and refusals on little-endian and big-endian platforms and on 64-bit and 32-bit platforms, and they are the results described by the other properties. The only differences are the documented ones that follow from the size of the native word itself: which coordinates and bit ranges fit it, how deep a dynamic or fixed-depth index may be made from a grid, and the byte order of raw byte views.",
 ["inputs","histories","configurations"],
 "all inputs and operation histories of properties C01 to C21, C26 and C27, on every combination of byte order and word size the library announces to support",
 "The test suite only ever runs on the 64-bit little-endian machine it is started on; the code branches on byte order and pointer width and reinterprets native words as bytes, none of which that machine can expose.",
 [NU,D2,D3,ST],
 [("target_endian branches in the conversions to and from dynamic indices",D2+", "+D3),("set_bits_from_usize / set_vec_u8_bits through native words",NU),("target_pointer_width branches, usize coordinates shifted to the storage width",NU+", "+D2+", "+D3)],
 ["depth, cells, order, names, grid coordinates and refusals of the public API, run by an interpreter of the other platform"])

p("C24","Calls do not influence each other, be they earlier or on other threads",
 "What a call returns, and what it does to the value it is called on, depends only on its arguments: not on which calls were made before on other values, by the same thread or by another, and not on calls that other threads make at the same time. Indices of every flavour can be sent to and shared between threads, any number of threads may read the same index at once and all see the same, and no use of the library from several threads that the compiler accepts as safe is a data race.",
 ["inputs","histories","schedules"],
 "all operation histories of the other properties on one thread or on several at once, any interleaving, all flavours and storage widths, including the first calls of a process",
 "Every test makes a few calls on one thread and compares constants; state that is carried from one call to the next, or shared by threads without synchronisation, shows only in a particular order or interleaving of calls.",
 [D2,D3,ST,NU,MO,IM,HE,DI2,DI3],
 [("no static or thread-local state; every operation works on its arguments",D2+", "+D3+", "+ST+", "+NU+", "+HE),("interior mutability nowhere: reads through & do not write",ST+", "+D2+", "+D3),("auto traits Send and Sync of the index types",D2+", "+D3+", "+ST)],
 ["results on several threads at once and after other calls, compared with the lone call and the reference model","ThreadSanitizer and Miri data race reports under random schedules"])

p("C25","Storage flavours take the memory they promise",
 "An index of fixed depth takes exactly the bytes of its bit storage, a static one at most that and one more unit of its alignment. Fixed-depth and static indices own no heap memory and no operation on them allocates any, except those whose result is a string or a dynamic index. A dynamic index keeps memory in proportion to its levels or those of the index it was derived from (at most twice the bytes the cells need, plus a small constant), and whatever was written to it; reading or writing single cells and iterating over cells allocates nothing, and every operation works within memory proportional to the levels involved. Everything that was allocated is given back when the values are dropped: repeating calls does not make the process grow.",
 ["inputs","histories","configurations"],
 "all operations, all depths and histories, "+ALL,
 "Tests compare values, never what they occupy: a leak, a reserve that is never released, a padded type or a temporary on the heap gives the right answers.",
 [ST,D2,D3,NU,IM],
 [("FixedDepthStorage / StaticStorage / DynamicStorage fields and derives",D2+", "+D3),("ancestor, descendant, zeroed and conversions of dynamic indices build their byte vector",D2+", "+D3),("Bits for Vec<u8>",NU)],
 ["size of the index types","requests to the global allocator, bytes held and given back, per operation"])

p("C26","User-defined integers and storages plug in with the same guarantees",
 "The fixed-depth and static flavours are generic over their bit storage, and indices are generic over their storage. With any unsigned integer type of whole bytes, up to 128 bits, that a user defines by implementing Bits (24, 40, 72 bits and so on), every guarantee of the shipped widths holds, with the capacity that width gives: construction, access, order, grid coordinates, navigation, conversion, capacity errors, names, inversion, raw bits. With a Storage / StorageType a user defines, which may lay out its cells in any way it chooses (not packed, not root-first, any Bits type, limited or not), indices still hold exactly the cells they were given, compare, navigate, name and invert by those cells, because the index types reach them through the storage's own methods only. The user's Bits are only ever asked for ranges inside them and given values which fit.",
 ["inputs","histories","configurations"],
 "every width of whole bytes up to 128 bits, every layout of cells, 2D and 3D, with the cells, operations and histories of the other properties",
 "No test implements Bits, Storage or StorageType: code that assumes a shipped width (size_of, a power of two, a native cast) or the shipped bit layout behaves perfectly in all of them.",
 [IM,ST,D2,D3,NU,MO],
 [("FixedStorageType: unsigned integer types with an arbitrary number of bits",IM),("Storage: implementors can store the cells in any way they choose",ST),("generic impls over B: FixedStorageType and S: Storage",D2+", "+D3)],
 ["all public operations of MortonIndex2D / 3D over the user's types","calls made on the user's Bits"])

p("C27","Other dimensions plug in: layouts and default methods hold beyond 2D and 3D",
 "The storage layouts (fixed, static, dynamic) and the default methods of the index traits are generic over the dimension. For a dimension of up to eight axes that a user defines, with cells of their own, over any integer type or a byte vector: the layout announces its dimensionality and as many levels as cells fit into its bits (none announced if unlimited); writing the cell of a level changes that cell only, reading gives back what was written, and bits of levels that do not exist stay untouched; inverted, parent, child and with_depth of a user's index type act as on a list of cells, and ask ancestor and descendant for nothing but what the traits allow; slices of such indices are displayed as the joined names.",
 ["inputs","histories","configurations"],
 "every dimension from one to eight, every layout, integer width and depth, and every history of writes and moves",
 "The tests know dimensions two and three only, through the index types of the crate; the traits' default methods are never used by another type.",
 [ST,MO,HE,"src/dimensions/mod.rs"],
 [("impl StorageType for FixedDepthStorage / StaticStorage / DynamicStorage, generic over Dimension",ST),("default methods inverted, parent, with_depth, child",MO),("make_displayable",HE)],
 ["StorageType of the three layouts over the user's dimension","default methods of MortonIndex and VariableDepthMortonIndex"])

p("C28","Sorted indices are a tree: points, splits, subtrees, neighbours, lookups",
 "Indices of one type, used as the keys of an ordered map, are a quadtree or octree, whatever has been put in and taken out: iteration is in pre-order, a node comes before all of its descendants and these are next to each other, so a range starting at a node finds its subtree; ranges, binary search, sorting, heaps and the entries before and after a node agree with that order; the same holds for a hash map under the same keys; a point's key is the cell of its grid that encloses it, and the key of the next grid cell is the neighbour's; the nearest enclosing entry, the path to the root, splitting a node into its children and merging them back find exactly the entries that a map keyed by lists of cells would find, however the key looked up was derived.",
 ["inputs","histories","configurations"],
 "every index type, every set of nodes and every history of insertions, removals, splits, merges and lookups",
 "The tests sort a few indices at most and never look one up in a tree or a table that others share.",
 [D2,D3,MO,"README.md"],
 [("Ord / PartialEq / Hash of the three layouts",D2),("Ord / PartialEq / Hash of the three layouts",D3),("child / parent / ancestor / with_depth",MO)],
 ["BTreeMap / HashMap / BinaryHeap / sort keyed by indices","child / parent / ancestor / with_depth","from_grid_index / to_grid_index"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
