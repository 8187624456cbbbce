mod apart;
mod capi;
mod errors;
mod expr;
mod header;
mod newton;
mod reference;
mod solve;
mod system;
mod var;

#[global_allocator]
static A: mc_core::alloc::Checking = mc_core::alloc::Checking;

fn main() {
    mc_core::main(&[
        mc_core::Property {
            id: "E01",
            space: "every sequence of up to 5 (6 thorough) tokens over numbers, names, operators, commas, parentheses and functions, 6 (7) over two smaller alphabets, every character string up to 5 (7) over digits, '.', 'e' and signs, operator chains with every placement of signs and one pair of parentheses, every function at every sample point, comparisons of if(), nesting depth up to 1000 (10000), every operator on every pair of operands of very different size, functions of up to 40 arguments, long names and names that replace built-in ones",
            assumptions: &["a function name that is not followed by parentheses has no specified meaning", "reference: an independent recursive descent evaluator"],
            run: expr::e01,
        },
        mc_core::Property {
            id: "E02",
            space: "the token sequences of E01 that are not expressions, every character string up to 4 (6 thorough) over a mixed alphabet, every sequence of up to 5 (6) tokens as an equation given to each entry point, every function with every number of arguments up to 20 and around 256 and 65536",
            assumptions: &["a function name that is not followed by parentheses has no specified meaning"],
            run: expr::e02,
        },
        mc_core::Property {
            id: "E03",
            space: "pairs of compiled expressions sharing one context, every history of 2 (3 thorough) calls and the first one again with every subset of variables, with and without domains; functions of one number; functions of up to 1000 variables; contexts that do not fit",
            assumptions: &[],
            run: expr::e03,
        },
        mc_core::Property {
            id: "E04",
            space: "every history of assignments and compound assignments up to depth 3 (4 thorough) from every start value on every domain over a value grid that includes infinities, directly and through a context",
            assumptions: &["no NaN, lower bound not above upper bound"],
            run: var::e04,
        },
        mc_core::Property {
            id: "E05",
            space: "20 functions x starting points x margins x iteration limits, limits of up to 300000 (3000000) that are used up, an error at every evaluation, histories of evaluations",
            assumptions: &["convergence is only demanded inside known basins of attraction"],
            run: newton::e05,
        },
        mc_core::Property {
            id: "E06",
            space: "systems of 1 to 6 equations and linear ones of up to 20 x order of the equations x every iteration order of the variables (up to 3 variables; 8 orders above) x margins x limits x starting points, an error at every evaluation, wrong numbers of variables, linear systems with rows and solutions of very different size, limits of up to 100000 (1000000) that are used up",
            assumptions: &["convergence is only demanded for regular linear systems and known basins of attraction"],
            run: newton::e06,
        },
        mc_core::Property {
            id: "E07",
            space: "14 equations x names of the unknown x guesses x domains x margins x limits; every pair of sides by unknowns; every history of 4 solves over 5 chained equations; retries after failures; linear equations with every combination of 14 slopes, 13 roots and 3 offsets; equations with three roots; 7 curved equations with the root at the end of the domain x guesses x margins; names of up to 5000 letters; failing attempts in contexts that know next to nothing",
            assumptions: &["convergence is only demanded on unbounded domains and inside known basins of attraction"],
            run: solve::e07,
        },
        mc_core::Property {
            id: "E08",
            space: "every history of up to 3 (4 thorough) equations from an alphabet of 16 added to every first equation in 3 contexts, each built and solved; every list of up to 4 (5) different equations in every order; chains, stars and rings of up to 130 equations",
            assumptions: &["a malformed equation may be reported as over-constraining a full system or as having too many unknowns"],
            run: system::e08,
        },
        mc_core::Property {
            id: "E09",
            space: "13 systems and chains, stars and rings of up to 33 equations x every order of their equations (several of the long ones) x hash seeds x margins x limits x every assignment of guesses and domains to the variables; linear systems with rows of every combination of 6 sizes; three roots; variables specified twice; 7 curved equations in a system with the root at the end of the domain x guesses x margins",
            assumptions: &["convergence is only demanded for regular linear systems with the solution inside the domains and for known basins of attraction"],
            run: system::e09,
        },
        mc_core::Property {
            id: "E10",
            space: "every history of up to 4 of 48 calls (thorough: also of 5 of 32) of the C interface over contexts, builders, systems and strings from 3 initial stores, iteration limits of every size, texts that are no texts, systems of up to 33 unknowns, names of up to 70000 letters, values of every size, followed by freeing what is left; memory is watched by a checking allocator",
            assumptions: &["handles are used as documented: building consumes the builder, solving consumes the system, everything else is freed once"],
            run: capi::e10,
        },
        mc_core::Property {
            id: "E11",
            space: "the header compiled by two compilers as C99, C11, C17 and C++11 to C++20; every sequence of up to 3 (4 thorough, of fewer calls) operations of the C++ classes and of the C functions over two contexts, two builders and two systems from 4 initial stores, run by a program built with the header and linked with the library, followed by destruction of what is left; systems of up to 17 equations; every of 7 values with 12 limits of up to 4294967295 and 3 guesses, domains and margins each, names and texts of up to 5000 characters; the live handles are watched at the calls of the library",
            assumptions: &["C programs use handles as documented; C++ programs may also use objects that are used up"],
            run: header::e11,
        },
        mc_core::Property {
            id: "E12",
            space: "every sequence of up to 5 (6 thorough) tokens as an expression given to every entry point with each kind of context, 6 (7) over a smaller alphabet; every sequence of up to 5 (6) tokens as an equation, 6 (8) over a smaller alphabet, with good and bad margins and limits; one fault at every place of texts of up to 100 (1000) terms; a failure of the caller's functions at every one of the first 40 (200) evaluations under every other fault; every history of 3 (4) of 12 solves",
            assumptions: &["where several things are wrong, any of them may be named", "a function name that is not followed by parentheses has no specified meaning"],
            run: errors::e12,
        },
        mc_core::Property {
            id: "E13",
            space: "every ordered pair of 8 tasks (expressions, compiled functions, Newton's method for one and several unknowns, single equations, systems, the C interface; with the same names and other values): every interleaving of their steps in one thread with up to 5 (9 thorough) changes, fewer where there are more than 20000, one nested into the other at every evaluation of a function of the caller that can be interrupted, one after an error or panic of the other at each of them, every schedule of two threads with up to 1 (2) preemptions at these points; three threads with one preemption",
            assumptions: &["a library that waits inside one thread until another one is ready is not a violation"],
            run: apart::e13,
        },
    ])
}
