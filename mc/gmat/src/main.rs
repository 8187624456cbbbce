mod apart;
mod arith;
mod capi;
mod header;
mod invert;
mod model;

#[global_allocator]
static A: mc_core::alloc::Checking = mc_core::alloc::Checking;

fn main() {
    mc_core::main(&[
        mc_core::Property {
            id: "G01",
            space: "every shape up to 5x5 (8x8 thorough) x 6 element types x every operation and every argument; every pair of shapes up to 4x4 (6x6); every pair of 2x2 matrices over a small value set; products and row operations on shapes up to 65 (129); every sequence of row operations, scalings, assignments and transpositions of length 5 (7) on 2x2 and 4 (5) on 3x3 matrices",
            assumptions: &["integer element values small enough to be exact in every element type, plus 0, 1, inf and nan for products and row operations"],
            run: arith::g01,
        },
        mc_core::Property {
            id: "G02",
            space: "every 1x1, 2x2, 3x3 matrix over a range of integers, every 4x4 matrix over {0,1} ({-1,0,1} thorough), every 5x5 matrix over {0,1} (thorough), row permutations of full matrices, permuted triangular matrices of size 5 (6) and their singular variants, full matrices of 5 to 24 and up to 100 rows, matrices with rows or columns scaled by powers of two, Pascal matrices of 5 and 6 rows with every pattern of scales of rows and columns, up to determinants of 2^-1000 and 2^980; matrices of i8, i32 and i64 over small ranges up to 4x4 and families of up to 8 rows, of which only those with an inverse of whole numbers may succeed; matrices of 1 to 6 rows scaled as a whole, or in a row or column, by every power of two (every sixth quick)",
            assumptions: &["singularity is decided by exact integer elimination", "for singular matrices larger than 4x4 an error is demanded when a row or column is zero or two rows are equal; other singular ones may leave a rounding residue"],
            run: invert::g02,
        },
        mc_core::Property {
            id: "G03",
            space: "every index, row, pair of rows and range from inside to far outside every shape up to 4x4 (6x6 thorough), every pair of operand shapes, every vector length and column count, pairs of sizes around every power of two whose product no memory can hold; each explored with and without arithmetic overflow checks compiled in",
            assumptions: &["at least one row and one column"],
            run: arith::g03,
        },
        mc_core::Property {
            id: "G04",
            space: "every sequence of up to 3 (4 thorough) calls of the C interface from a fixed alphabet over a store of up to 3 matrices, plus every index and shape for each entry point, long shapes (up to 65537 elements), each followed by freeing every live handle; memory is watched by a checking allocator",
            assumptions: &["handles are used as the C interface documents: only live ones are passed, each is freed once"],
            run: capi::g04,
        },
        mc_core::Property {
            id: "G05",
            space: "the header compiled by two compilers as C99, C11, C17 and C++11 to C++20; every sequence of up to 3 (4 thorough, of fewer calls) operations of the C++ class and of the C functions over three matrices, from creation, copies, assignments and expressions to printing and destruction, run by a program built with the header and linked with the library; every operation with every argument on every shape up to 4x4 (6x6 thorough) and every pair of shapes; the live handles are watched at the calls of the library",
            assumptions: &["at least one row and one column", "printed elements have six digits"],
            run: header::g05,
        },
        mc_core::Property {
            id: "G06",
            space: "every ordered pair of 11 tasks (products, sums, row operations, parts, inverses of 2 to 7 rows, refused inverses, plain numbers, the C interface, integers; with the same or with other values): every interleaving of their steps in one thread with up to 5 (9 thorough) changes, fewer where there are more than 20000, one nested into the other at every operation on elements that can be interrupted, one after a failure of the other at each of them, every schedule of two threads with up to 1 (2) preemptions at these points; three threads with one preemption",
            assumptions: &["a library that waits inside one thread until another one is ready is not a violation"],
            run: apart::g06,
        },
    ])
}
