mod apart;
mod common;
mod capi;
mod cli;
mod cond;
mod consts;
mod decl;
mod errors;
mod procedure;
mod solver;
mod units;

#[global_allocator]
static A: mc_core::alloc::Checking = mc_core::alloc::Checking;

fn main() {
    mc_core::main(&[
        mc_core::Property {
            id: "N01",
            space: "every ordered pair of 230 units of the same quantity, every derived unit (areas, volumes, works, velocities, frequencies, flows, pressures, powers, viscosities, spring rates) against others of its quantity, pairs of units of different quantities, names that are no units; as a call and inside of a text; conversions beside numbers, names and other conversions",
            assumptions: &["units that two quantities share (oz, ton, minute) are not converted to themselves", "MBtu, mev, league and mcndl have no agreed meaning"],
            run: units::n01,
        },
        mc_core::Property {
            id: "N02",
            space: "12 comments at every position of 5 systems, alone and in pairs, with both line ends; every text of up to 5 (7 thorough) pieces over an alphabet of slashes and line ends; every engineering constant in 9 forms and every pair of them in 4; const declarations of 9 names x 15 values x 8 spellings x 9 uses, every order of declarations and equations whose names begin with each other; up to 20 (100) constants at once in 6 forms; constants beside numbers, names and other constants",
            assumptions: &["engineering constants are the known ones up to 0.1 percent"],
            run: consts::n02,
        },
        mc_core::Property {
            id: "N03",
            space: "21 spellings of numbers x 7 spellings of declarations x names; every pair of bounds with a solution inside and outside of them; 6 equations x 15 guesses x every domain on a grid x orders of the lines; both solutions of a coupled system asked for by 5 (7 thorough) kinds of declarations per variable x 7 pairs of names x orders x hash seeds; chains; up to 20 (40) declared variables in 5 kinds and several orders; white space of 12 kinds at every place of 7 declarations; variables named like declarations; declarations that make no sense",
            assumptions: &["convergence is only demanded close to a root"],
            run: decl::n03,
        },
        mc_core::Property {
            id: "N04",
            space: "if blocks: every condition of 10 operands x 6 operators x 10 operands, every pair of 19 bodies, 6 layouts; every shape of nested blocks up to depth 3 (4 thorough) with up to 3 (5) blocks x operators x outcomes; pairs of blocks with names that contain the keywords in several orders; chains of blocks on solved values in every order; ladders of up to 16 (33) blocks in 3 directions that end at every rung; up to 20 (40) blocks in a text; 46 malformed blocks, 600 with keywords in other spellings and 768 with names or numbers beside each other",
            assumptions: &["a body is one equation or one block", "equality is only decided for constants, as solved values are approximate"],
            run: cond::n04,
        },
        mc_core::Property {
            id: "N05",
            space: "every structure of dependencies between 1 to 5 (6 thorough) variables up to their names (which variables each of the different equations has), in every order of the lines (every 6th for 5; thorough: all for 5, every 60th for 6); every regular system of 3 linear equations in 3 variables with coefficients -1..2 (-2..2 thorough) and of 4 equations with 0 and 1 (-1..1 thorough); 16 structures of blocks of up to 6 variables that depend on each other x links x orders (all orders up to 4 variables, every third of 5 and 17th of 6; thorough: all) x hash seeds; 16 nonlinear texts in every order of their lines (150 orders of the longest ones quick) x hash seeds; margins and limits; texts of up to 100 lines in 4 structures; rings of up to 21 (29) equations in 6 orders for which groups grow slowly; linear groups whose rows are of very different size; texts that have no solution; every order of 4 stages on one context",
            assumptions: &["convergence is only demanded for regular linear systems and guesses near a solution", "systems in which every equation would add two or more unknowns are out of the solver's reach"],
            run: solver::n05,
        },
        mc_core::Property {
            id: "N06",
            space: "runs of the program on 7 texts with every sequence of up to 2 (3 thorough) of 18 options, 16 file names x 6 states of the folder x options, absolute and relative, folders in the way, nothing to read, help, long files and lines, options repeated up to 40 times; the whole scratch folder is compared before and after",
            assumptions: &["what the library solves is the reference for what the program prints; it is decided by N01 to N05"],
            run: cli::n06,
        },
        mc_core::Property {
            id: "N07",
            space: "every history of up to 3 (4 thorough) calls of the C interface over contexts, maps of declared variables, systems, texts and solution strings from 3 initial stores, iteration limits of every size, texts of up to 200 unknowns, names of up to 5000 letters, values of every size, followed by freeing what is left; memory is watched by a checking allocator",
            assumptions: &["handles are used as documented: everything is freed once, nothing is used afterwards"],
            run: capi::n07,
        },
        mc_core::Property {
            id: "N08",
            space: "66 faults of every kind at every line of 13 texts x margins and limits x line ends, every pair of them at 4 (36 thorough) pairs of lines; each at 5 lines of texts of up to 60 (150) lines; the single steps of compiling; unit names; what the program prints for each of them and for bad options",
            assumptions: &["where several things are wrong, any of them may be named"],
            run: errors::n08,
        },
        mc_core::Property {
            id: "N09",
            space: "every pair of 7 pieces of work (texts with and without faults, units and constants, systems on contexts that are interrupted inside of the solver one equation at a time and as groups, texts compiled first and solved later, the steps of compiling, the C interface) in two variants of values: every interleaving of their steps with up to 5 (9 thorough) switches in one thread, one nested into the other at every interruption, one after an error or panic of the other at every interruption, every schedule of two threads with 1 (2) preemptions, and of three threads with 1",
            assumptions: &["threads are switched at interruptions and between steps only"],
            run: apart::n09,
        },
        mc_core::Property {
            id: "N10",
            space: "every set of up to 5 different equations in up to 4 variables, and of up to 6 in 5, by which equation has which variable, up to the names of variables, in every order of the lines (some of the orders of the largest), with too few, enough and surplus equations; 10 texts with comments, constants, units, blocks, duplicates and names that contain each other in every order x 3 layouts x hash seeds; 16 nonlinear texts in up to 100 (1000) orders x hash seeds; every order of 5 stages on one context; texts of up to 100 lines in 4 structures",
            assumptions: &["a variable that several roots are possible for is declared with a guess or domain near one of them"],
            run: procedure::n10,
        },
    ])
}
