mod apart;
mod cli;
mod common;
mod direct;
mod errors;
mod models;
mod networks;

#[global_allocator]
static A: mc_core::alloc::Checking = mc_core::alloc::Checking;

fn main() {
    mc_core::main(&[
        mc_core::Property {
            id: "A01",
            space: "every circuit of up to 3 (4 thorough) elements between 2 nodes, 3 (and 4; 5 thorough) between 3 nodes and 4 (5 thorough) between 4 nodes over resistors, voltage and current sources in both directions, loops onto the same node included, times every way to lock or configure the nodes, loaded from text and built by calls; one circuit with values and margins of very different size; up to 300 nodes of which all but a few are locked, numbered up to 70000",
            assumptions: &["resistances are not zero", "a voltage source needs a node whose potential nothing fixes yet, in the order in which the sources are listed", "networks are exact to 1e-6, as solved with a margin of 1e-8"],
            run: networks::a01,
        },
        mc_core::Property {
            id: "A02",
            space: "10 circuits of up to 6 elements: every order of the elements x every pattern of turned elements x 2 (6 thorough) hash seeds; every numbering of the nodes x 8 (24) hash seeds; further nodes; ladders of up to 12 (24) sections; rings, stars, grids, parallel elements and rows of sources on up to 25 (40) nodes",
            assumptions: &["orders in which a voltage source finds both of its nodes determined are refused by design"],
            run: networks::a02,
        },
        mc_core::Property {
            id: "A03",
            space: "two models with every single change out of some 200 (fields removed, of another type, out of range, unknown names, wrong numbers of values, harmless additions) and every pair of them; every truncation and every missing structural character; margins and limits; builders over 4 types x 0..3 nodes x 25 node configurations x 10 element names x 0..3 values x all nodes x a second element",
            assumptions: &["further values of a resistor are ignored"],
            run: models::a03,
        },
        mc_core::Property {
            id: "A04",
            space: "every history of up to 5 (6 thorough) steps of building, saving and loading a model out of 15, saved and compared after each step; every pair of 22 special numbers; models of up to 2^63 nodes, 300 elements and 300 configured nodes; solving before and after",
            assumptions: &["numbers are finite, as the file format has no others"],
            run: models::a04,
        },
        mc_core::Property {
            id: "A05",
            space: "runs of the program on 5 models with every sequence of up to 2 (3 thorough) of 22 options, 16 file names x 7 states of the folder x options, absolute and relative, folders in the way, broken models, nothing to read, large models, options repeated up to 40 times; the whole scratch folder is compared before and after",
            assumptions: &["what the library solves is the reference for what the program writes; it is decided by A01 to A03"],
            run: cli::a05,
        },
        mc_core::Property {
            id: "A06",
            space: "every heat transfer network of up to 3 elements between 2 and 3 nodes over conductors by ratio and by length and conductivity, convection interfaces, temperature differences and heat fluxes times every way to lock the nodes; walls of up to 4 (6 thorough) layers between two fluids, turned in every way, with sources; rings, stars, grids, parallel elements and rows of sources on up to 25 (40) nodes; up to 300 nodes of which all but a few are locked, numbered up to 70000",
            assumptions: &["a temperature difference needs a node whose temperature nothing fixes yet, in the order in which they are listed"],
            run: networks::a06,
        },
        mc_core::Property {
            id: "A07",
            space: "every history of up to 4 (5 thorough) operations out of 37 on 3 nodes with 1 component and up to 3 (4 thorough) on nodes with 2: potentials set, nodes locked and dropped, every kind of element made; chains of sources in every direction and order; histories on large numbers of nodes; wrong numbers of values; all potentials, fluxes, balances and leaked memory compared after every operation",
            assumptions: &["what a source drives is up to date after its flux was read"],
            run: direct::a07,
        },
        mc_core::Property {
            id: "A08",
            space: "studies of one's own with 1 to 3 components per node: every list of up to 3 (4 thorough) of 18 elements x 4 ways to ground x 2 hash seeds; every set of up to 3 (4) of 30 linear, cubic and one-sided elements; up to 33 components and ladders of them; elements that fail; every sequence of up to 4 names of element types",
            assumptions: &["nonlinear networks without sources of potential are solvable when every node is tied to the ground"],
            run: direct::a08,
        },
        mc_core::Property {
            id: "A09",
            space: "builders over 5 study types x 0 to 3 (5 thorough) nodes x 33 configurations of nodes x 10 element names x 0 to 3 values x all nodes x margins and limits, by calls and from text; every pair of 32 elements with 0 to 3 values x nodes x configurations, alone and with a third; one fault at every place of ladders of up to 33 (65) sections; elements made directly on nodes locked or dropped in every way; every list of up to 4 (6) of 7 elements of one's own that fail in different ways; element types defined twice; what the program prints for 40 models and options",
            assumptions: &["where several things are wrong, any of them may be named", "further values of a resistor are ignored"],
            run: errors::a09,
        },
        mc_core::Property {
            id: "A10",
            space: "every pair of 6 pieces of work (circuits and heat transfer built, saved, solved and loaded call by call, models refused at every stage, studies of one's own with 1 and 2 components that are interrupted inside of the solver, nodes and elements used directly) in two variants of values: every interleaving of their steps with up to 5 (9 thorough) switches in one thread, one nested into the other at every interruption, one after an error or panic of the other at every interruption, every schedule of two threads with 1 (2) preemptions, and of three threads with 1",
            assumptions: &["threads are switched at interruptions and between steps only"],
            run: apart::a10,
        },
    ])
}
