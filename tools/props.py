NOT_APPLICABLE = {}

PROPS = [
 dict(id="G01", title="Matrix arithmetic equals textbook linear algebra for every shape",
  statement="Every matrix operation (construction, indexing, sums, differences, products, scaling, transposition, trace, augmentation, sub-matrices, row operations, element-wise conversion and equality) gives exactly the result the textbook definition gives, for every shape, every element type and every legal argument. Operands that are not meant to be modified stay as they were.",
  over=["inputs", "histories"], quant="all shapes x element types x operations x arguments; all sequences of in-place operations",
  why="The tests use a handful of square 2x2 and 3x3 matrices, where mixing up rows and columns or row and column counts often goes unnoticed.",
  files=["gmatlib/src/lib.rs"], mech=[("row-major element vector with index arithmetic", "gmatlib/src/lib.rs Matrix"), ("operator implementations", "gmatlib/src/lib.rs impl Add/Sub/Mul/Index")],
  observe=["gmatlib::Matrix public methods and operators"],
  note="Exhaustive within the bounds written into the evidence file: shapes up to 5x5 (8x8 thorough), 6 element types, all arguments, operation sequences of length 5 (7); exact integer reference."),
 dict(id="G02", title="Matrix inversion is exact or refused",
  statement="If inverting a matrix succeeds, the product of the matrix and its inverse is the identity up to rounding, whatever its size and the order of its rows. A matrix that is not square, has no inverse, or has one that the type of its elements cannot hold is refused with an error and left exactly as it was.",
  over=["inputs"], quant="all small integer matrices, permuted and scaled larger ones, all singular ones among them",
  why="The tests invert one or two matrices per size; a wrong cofactor or a missing row exchange only shows for particular entries.",
  files=["gmatlib/src/lib.rs"], mech=[("closed-form inverses up to 4x4", "gmatlib/src/lib.rs try_inplace_invert"), ("Gauss-Jordan elimination with row exchange above", "gmatlib/src/lib.rs try_inplace_invert_n")],
  observe=["gmatlib::Matrix::try_inplace_invert"],
  note="Exhaustive over every matrix of the stated integer ranges up to 4x4 (5x5 thorough) with an exact reference; larger sizes by enumerated families up to 12x12 (24x24)."),
 dict(id="G03", title="Matrix bounds and shape errors are reported and touch nothing",
  statement="An access outside of a matrix, a size that no memory can hold, or an operation on matrices whose shapes do not fit, is reported (as an error, an absent value or a panic with a message, as documented for the operation) in builds with and without overflow checks. It never returns a value, reads or changes another element, or allocates an absurd amount of memory.",
  over=["inputs", "configurations"], quant="all indices and ranges inside and far outside of every small shape; all pairs of operand shapes; both build configurations",
  why="The tests probe a few indices just outside and only run with overflow checks on.",
  files=["gmatlib/src/lib.rs"], mech=[("index checks", "gmatlib/src/lib.rs Index, IndexMut, subset, inplace_row_*"), ("shape checks", "gmatlib/src/lib.rs multiply, augment_with, from_vec")],
  observe=["gmatlib::Matrix"],
  note="Exhaustive over every index, row pair and range around every shape up to 4x4 (6x6), and pairs of sizes around every power of two whose product overflows; run in both build profiles."),
 dict(id="G04", title="The matrix C interface behaves like the matrices and never corrupts memory",
  statement="Over any sequence of calls of the matrix C interface, every handle holds exactly the matrix the calls so far describe, status codes and null pointers report exactly the failures, and a failing call changes and frees nothing. Once the caller has freed each handle it was given, no memory is left and none was freed twice.",
  over=["histories", "inputs"], quant="all sequences of calls up to the depth over a store of matrices; all arguments of every entry point",
  why="The tests never call the C interface; ownership mistakes need a sequence of calls and a checking allocator to be seen.",
  files=["gmatlib/src/ffi.rs"], mech=[("handles are leaked boxes that a call borrows and only free consumes", "gmatlib/src/ffi.rs"), ("panics are caught and turned into status codes", "gmatlib/src/ffi.rs")],
  observe=["extern C functions of gmatlib"],
  note="Every history of 3 (4) calls from an 85-letter alphabet over 2 initial matrices, model comparison after each call, memory watched by a checking global allocator."),
 dict(id="G05", title="C and C++ programs can use the matrix library through its header",
  statement="A program in C or C++ that includes the header of the matrix library and is linked with the library builds, and every sequence of operations on its matrices (creation, copies, assignments, expressions, element access, printing, inversion, destruction) gives what the same operations on matrices give. Failures come as the documented status or as an exception with a message that says why, and no matrix is freed twice, used after it was freed, or left behind.",
  over=["histories", "inputs"], quant="all sequences of up to 3 (4) operations over three matrices in both languages; all arguments of every operation on every small shape",
  why="No test includes the header; copies, temporaries and wrong pointers only show in programs of several steps.",
  files=["gmatlib/gmatlib.h", "gmatlib/src/ffi.rs"], mech=[("declarations and error codes for C", "gmatlib/gmatlib.h"), ("class that owns a handle", "gmatlib/gmatlib.h ngineer::Matrix")],
  observe=["gmatlib/gmatlib.h with libgmatlib.so"],
  note="Every script of up to 3 (4) operations, generated and judged with a reference model, is executed by a program compiled against the header and linked with the library built from the tree; handles are watched at the calls of the library."),
 dict(id="G06", title="Work on separate matrices does not interfere",
  statement="Whatever is computed with some matrices comes out the same whether it runs alone, or alternates with work on other matrices, or other work runs while one of its operations on elements is under way, or after such an operation failed in other work, or in parallel on several threads.",
  over=["schedules", "histories", "crash_points"], quant="all interleavings of the steps of two tasks, all points of nesting and failure, all schedules of two and three threads up to the bounds",
  why="The tests do one thing at a time; shared tables, buffers or counters only show when two computations meet in the middle.",
  files=["gmatlib/src/lib.rs", "gmatlib/src/ffi.rs"], mech=[("elements of any type with operators of their own", "gmatlib/src/lib.rs"), ("matrices behind handles", "gmatlib/src/ffi.rs")],
  observe=["gmatlib::Matrix with an element type of one's own", "exported C functions of gmatlib"],
  note="Controlled scheduler: threads hand over at the operations of an element type; results are compared with those of the task alone."),
 dict(id="E01", title="Expressions evaluate to their mathematical value",
  statement="Every well-formed expression has the value that the usual rules give it: precedence, left associativity (right for powers), signs, parentheses, function calls with their arguments in written order, constants and variables of the context, however it is spaced. A division by zero is reported instead of giving a value.",
  over=["inputs"], quant="all token sequences and character strings up to the bounds, all operator chains",
  why="The tests evaluate some twenty expressions; wrong precedence or argument handling shows only for particular combinations of operators, signs and calls.",
  files=["geqslib/src/shunting.rs", "geqslib/src/context.rs"], mech=[("shunting yard with precedence check", "geqslib/src/shunting.rs rpnify"), ("postfix evaluation", "geqslib/src/shunting.rs eval_rpn_expression"), ("default functions", "geqslib/src/context.rs")],
  observe=["geqslib::shunting::eval_str, eval_str_with_context"],
  note="1.8 million texts in the quick tier; every sequence of up to 6 (7) tokens over three alphabets, compared with an independent recursive descent evaluator."),
 dict(id="E02", title="Malformed expressions and equations are rejected",
  statement="Text that is not a well-formed expression (missing or surplus operands, unmatched parentheses, wrong argument counts, unknown names) never evaluates to a value and never panics. An equation without exactly two well-formed sides is refused by every entry point and leaves the context and the system it was given to unchanged.",
  over=["inputs"], quant="all token sequences and character strings up to the bounds, as expressions and as equations",
  why="The tests contain almost no malformed input, and a permissive parser accepts it silently.",
  files=["geqslib/src/shunting.rs", "geqslib/src/lib.rs", "geqslib/src/system.rs"], mech=[("operand/operator state while parsing", "geqslib/src/shunting.rs rpnify"), ("each side is compiled on its own", "geqslib/src/lib.rs compile_equation_to_fn_of_hashmap")],
  observe=["geqslib::shunting::eval_str_with_context", "geqslib::solve_equation_from_str", "geqslib::system::SystemBuilder"],
  note="1.8 million texts in the quick tier, decided by the same reference grammar as E01."),
 dict(id="E03", title="Compiled functions agree with evaluating the text",
  statement="A function compiled from an expression returns, on every call, what evaluating the expression with the given values would; variables that are not given keep the value of the last call, and values are limited to the domain of their variable. Names that are not variables of the context are refused.",
  over=["histories", "inputs"], quant="all pairs of expressions over a shared context, all call histories up to the depth with every subset of the variables",
  why="The tests call a compiled function once or twice; the shared mutable variables make the result depend on the history of calls to all functions of a context.",
  files=["geqslib/src/shunting.rs", "geqslib/src/context.rs", "geqslib/src/variable.rs"], mech=[("variables are shared cells between context and compiled functions", "geqslib/src/shunting.rs compile_to_fn_of_hashmap, compile_to_fn")],
  observe=["geqslib::shunting::compile_to_fn, compile_to_fn_of_hashmap"],
  note="Every history of 2 (3) calls over pairs of 12 expressions, two domain settings."),
 dict(id="E04", title="A variable never leaves its domain",
  statement="Whatever is assigned to, added to, subtracted from, multiplied with or divided into a variable, its value afterwards is the mathematical result limited to its domain. This holds from its creation on and also for variables kept in a context.",
  over=["histories"], quant="all histories of assignments up to the depth on all domains over a grid that includes infinities",
  why="The tests assign a few values to one domain.",
  files=["geqslib/src/variable.rs", "geqslib/src/context.rs"], mech=[("clamping setter used by every operator", "geqslib/src/variable.rs Variable::set")],
  observe=["geqslib::variable::Variable"],
  note="Every history of depth 3 (4) over 55 operations from every start on every domain of the grid (17 million operations quick)."),
 dict(id="E05", title="One-dimensional root finding returns roots only, within its limits",
  statement="If root finding for a function of one number succeeds, the function is within the margin of zero at the result and the result is within the margin of a root; functions without a root, illegal margins and an exhausted iteration limit give an error. Errors of the function are passed on, simple functions are solved from anywhere in their basin, and the function is called a bounded number of times per iteration.",
  over=["inputs", "fault_sequences"], quant="functions x starting points x margins x limits; an error injected at every evaluation",
  why="The tests solve one or two functions from a good guess; wrong acceptance needs particular slopes and step signs.",
  files=["geqslib/src/newton.rs"], mech=[("Newton step with finite differences and a two-sided acceptance test", "geqslib/src/newton.rs newton_raphson")],
  observe=["geqslib::newton::newton_raphson"],
  note="128 thousand runs quick, with a fault at every evaluation; convergence demanded only in known basins."),
 dict(id="E06", title="Multivariate root finding is right for every order of variables and equations",
  statement="If root finding for a system of functions succeeds, the vector of function values at the result has a magnitude within the margin, in whatever order the variables are stored and the functions are listed. Regular linear systems are always solved; singular systems, wrong numbers of variables, illegal margins and exhausted limits give an error, and errors of a function are passed on.",
  over=["schedules", "inputs", "fault_sequences"], quant="every iteration order of the variables, every order of the functions, margins, limits, starting points, an error at every evaluation",
  tech="explicit-state model checking of the implementation: exhaustive exploration of hash-map iteration orders (hash seed under control of the explorer), equation orders and injected faults",
  why="The iteration order of the variables is random from run to run, so a test passes or fails by chance; the tests use two equations.",
  files=["geqslib/src/newton.rs", "gmatlib/src/lib.rs"], mech=[("Jacobian columns and steps use one copy of the variable order", "geqslib/src/newton.rs multivariate_newton_raphson"), ("matrix inversion", "gmatlib/src/lib.rs try_inplace_invert")],
  observe=["geqslib::newton::multivariate_newton_raphson"],
  note="The hash seed is controlled, so every variable order (up to 3 variables) is visited and counted."),
 dict(id="E07", title="Single equations are solved for their unknown, or left unsolved",
  statement="Solving an equation with exactly one unknown gives the name of that unknown and a value that satisfies the equation and lies in the given domain, starting from the given guess (1 if none is given); that value is known from then on and everything else known stays as it was. Equations with another number of unknowns and failed attempts give an error and change nothing, so the attempt can be repeated.",
  over=["inputs", "histories"], quant="equations x names x guesses x domains x margins x limits; all histories of chained solves; retries",
  why="The tests solve a few equations in a fresh context with an unbounded domain.",
  files=["geqslib/src/lib.rs"], mech=[("unknowns are names missing from the context", "geqslib/src/lib.rs solve_equation_with_context"), ("the unknown is removed again on failure", "geqslib/src/lib.rs solve_equation_with_context")],
  observe=["geqslib::solve_equation_with_context, solve_equation_from_str"],
  note="43 thousand solves quick including every history of 4 chained equations."),
 dict(id="E08", title="Building a system accepts exactly the equations that constrain it",
  statement="Adding an equation to a system is accepted when it brings at most one new unknown and the system is not yet full, and otherwise refused with the documented answer; a refused or malformed equation leaves the system as it was. A system can be built exactly when it has as many equations as variables, listing several equations at once reaches that whenever some order of adding them does, and a built system is solved for exactly its variables and its accepted equations.",
  over=["histories"], quant="all histories of up to 3 (4) equations from an alphabet of 16 after every first equation; all lists in all orders",
  why="The tests add two or three equations in one order; partial effects of refused equations show only later in a history.",
  files=["geqslib/src/system.rs", "geqslib/src/lib.rs"], mech=[("unknowns are names missing from the builder's context", "geqslib/src/system.rs try_constrain_with"), ("repeated passes over the list", "geqslib/src/system.rs try_fully_constrain_with")],
  observe=["geqslib::system::SystemBuilder"],
  note="275 thousand histories quick, each compared with a reference state machine after every step and solved at the end."),
 dict(id="E09", title="A solved system satisfies its equations on its domains, in any order",
  statement="If solving a system succeeds, the solution names exactly its variables, each value lies in the domain specified for it, and the equations hold within the margin, in whatever order equations were added and variables are stored; a variable starts at its specified guess, or at 1. Regular linear systems whose solution lies inside the domains are solved from any guess; systems without a solution are refused.",
  over=["inputs", "schedules"], quant="systems x equation orders x hash seeds x guesses and domains per variable x margins x limits",
  why="The tests solve two small systems with default guesses; orders of variables vary randomly between runs.",
  files=["geqslib/src/system.rs", "geqslib/src/newton.rs"], mech=[("all equations share the variables of the context", "geqslib/src/system.rs System::solve"), ("values are limited to domains on the way and at the end", "geqslib/src/system.rs System::solve")],
  observe=["geqslib::system::System"],
  note="Every equation order and every assignment of 15 guess/domain kinds to the variables, several hash seeds each."),
 dict(id="E10", title="The equation-solver C interface keeps its objects intact over any lifecycle",
  statement="Over any sequence of calls of the equation-solver C interface, contexts, builders and systems behave as their descriptions say, return codes, null pointers and solution strings report exactly what happened, and objects only end when the caller frees, builds or solves them. After the caller has released everything, no memory is left and none was freed twice.",
  over=["histories"], quant="all histories of up to 4 (5) calls from an alphabet of 52 over three initial stores",
  why="The tests never call the C interface; ownership mistakes need a sequence of calls and a checking allocator to be seen.",
  files=["geqslib/src/ffi.rs"], mech=[("contexts are cloned, builders and systems consumed", "geqslib/src/ffi.rs"), ("panics are caught", "geqslib/src/ffi.rs")],
  observe=["extern C functions of geqslib"],
  note="Every applicable history of 4 (5) calls; each is compared with a model after every call and watched by a checking allocator."),
 dict(id="E11", title="C and C++ programs can use the equation solver through its header",
  statement="A program in C or C++ that includes the header of the equation solver and is linked with the library builds, and every sequence of operations on contexts, builders and systems behaves as their descriptions say, with the statuses, solutions and failures (a status, a null pointer or an exception with a message) that belong to the equations given. Objects that are used up refuse further use, and none is freed twice, used after it was freed, or left behind.",
  over=["histories"], quant="all sequences of up to 3 (4) operations over contexts, builders and systems in both languages from four initial stores",
  why="No test includes the header; ownership across building, solving and destruction only shows in programs of several steps.",
  files=["geqslib/geqslib.h", "geqslib/src/ffi.rs"], mech=[("declarations and statuses for C", "geqslib/geqslib.h"), ("classes that own a handle until it is used up", "geqslib/geqslib.h ngineer::SystemBuilder, ConstrainedSystem")],
  observe=["geqslib/geqslib.h with libgeqslib.so"],
  note="Every script of up to 3 (4) operations, generated and judged with a reference model, is executed by a program compiled against the header and linked with the library built from the tree; handles are watched at the calls of the library."),

 dict(id="E12", title="What the equation solver refuses, it refuses for a reason that is there",
  statement="Whatever expression, equation or system the equation solver refuses, the error it reports is the one for something that is really wrong with it: malformed text, an unknown name, a division by zero, no equals sign or several, not exactly one unknown, not as many functions as variables, a margin that is not positive, a limit that is used up, or the failure of the caller's own function. Input in which nothing is wrong is not refused.",
  over=["inputs"], quant="all texts up to a length x contexts x entry points x margins x limits; one fault at every place of long texts; a failure at every evaluation",
  why="The tests only look at whether there is an error; which one is named depends on the order in which the faults are looked for.",
  files=["geqslib/src/errors.rs", "geqslib/src/shunting.rs", "geqslib/src/newton.rs", "geqslib/src/lib.rs", "geqslib/src/system.rs"], mech=[("kinds of errors", "geqslib/src/errors.rs"), ("order of the checks before solving", "geqslib/src/lib.rs, geqslib/src/newton.rs")],
  observe=["errors of eval_str_with_context, compile_to_fn, solve_equation_with_context, newton_raphson, multivariate_newton_raphson, SystemBuilder"],
  note="The set of faults of every generated input is known from its structure; the reported error must be in it, and there must be none if it is empty."),

 dict(id="E13", title="Work on separate expressions and systems does not interfere",
  statement="Evaluating, compiling and solving with one context comes out the same whether it runs alone, or alternates with work on other contexts that give other values to the same names, or other work runs while one of its functions is being evaluated, or after such a function failed in other work, or in parallel on several threads.",
  over=["schedules", "histories", "crash_points"], quant="all interleavings of the steps of two tasks, all points of nesting and failure, all schedules of two and three threads up to the bounds",
  why="The tests solve one thing at a time; caches by name or text, shared stacks and shared cells only show when two computations with the same names meet.",
  files=["geqslib/src/shunting.rs", "geqslib/src/context.rs", "geqslib/src/newton.rs", "geqslib/src/system.rs", "geqslib/src/ffi.rs"], mech=[("contexts and the cells of variables", "geqslib/src/context.rs"), ("evaluation on a stack", "geqslib/src/shunting.rs")],
  observe=["evaluation and compilation with contexts", "newton_raphson, multivariate_newton_raphson", "solve_equation_with_context", "SystemBuilder, System", "exported C functions of geqslib"],
  note="Controlled scheduler: threads hand over at calls of functions of the context; results are compared with those of the task alone."),
 dict(id="N01", title="Unit conversions have the right size for every pair of units",
  statement="Converting between two units of the same physical quantity multiplies by the ratio of their sizes, for simple and derived units (areas, volumes, velocities, pressures, works and so on), so converting there and back gives one, and going by way of a third unit changes nothing. Conversions between units of different quantities or names that are not units are refused, and inside of a text a conversion stands for its factor.",
  over=["inputs"], quant="all ordered pairs of units of a quantity, derived units, pairs of different quantities, unknown names",
  why="The tests convert two pairs of units; a mistyped size or exponent in the table shows only for its own unit.",
  files=["nexsys/src/units/mod.rs", "nexsys/src/units/units.json", "nexsys/src/parsing/mod.rs"], mech=[("table of unit sizes per quantity", "nexsys/src/units/units.json"), ("lookup of the ratio", "nexsys/src/units/mod.rs convert"), ("replacement in a text", "nexsys/src/parsing/mod.rs conversions")],
  observe=["nexsys::units::convert", "nexsys::parsing::conversions"],
  note="Every ordered pair of 230 units against an independent table, and derived units; rounding of 0.1 percent is tolerated."),
 dict(id="N02", title="Comments, constants and const declarations mean exactly what they say",
  statement="A comment never changes what a text means and nothing but the comment disappears. Every engineering constant stands for its value wherever it is used, also when its name contains or begins another, unknown ones are refused, and a declared constant has the value of its whole right-hand side in every equation, wherever in the text it is declared.",
  over=["inputs"], quant="all comments at all positions and texts of slashes and line ends up to a length; all constants and pairs of them; names x values x spellings x orders of const declarations",
  why="The tests strip one comment and use two constants; textual replacement goes wrong for particular names, signs and neighbours.",
  files=["nexsys/src/parsing/mod.rs", "nexsys/src/lib.rs"], mech=[("comments are cut line by line", "nexsys/src/parsing/mod.rs comments"), ("constants are replaced by their values", "nexsys/src/parsing/mod.rs consts"), ("const declarations are evaluated into the context", "nexsys/src/parsing/mod.rs const_values")],
  observe=["nexsys::solve_with_preprocessors", "nexsys::parsing"],
  note="Every comment position (and pairs), every text of up to 5 (7) pieces over slashes and line ends, every constant and pair of constants, every declaration form and order."),
 dict(id="N03", title="Guesses and domains lead to the root that was asked for",
  statement="A guess declaration makes the solver start there and a keep declaration limits the variable to its domain, in every accepted spelling of numbers, keywords and spaces and wherever in the text they stand; together they select among several roots, and a domain without a root makes the text fail. A declaration that cannot be understood is reported, never ignored.",
  over=["inputs", "schedules"], quant="spellings of numbers x declarations x names; bounds x guesses x equations x orders of lines; pairs of variables x hash seeds; malformed declarations",
  why="The tests declare one guess and one domain in one spelling.",
  files=["nexsys/src/parsing/mod.rs", "nexsys/src/lib.rs", "geqslib/src/lib.rs"], mech=[("patterns for guess and keep lines", "nexsys/src/parsing/mod.rs guess_values, domains"), ("guess and domain are handed to the single equation and the system solver", "nexsys/src/lib.rs basic_solve")],
  observe=["nexsys::solve_with_preprocessors"],
  note="Exhaustive over the stated grids; convergence is only demanded close to a root."),
 dict(id="N04", title="Conditional blocks contribute exactly the branch whose condition holds",
  statement="An if block stands for its first body when its condition holds and for its other body when it does not, for all comparisons, operands, layouts and nestings, also when the operands are solved from equations anywhere in the text and when names contain the keywords. A malformed block, body or condition makes the text fail and is never ignored or taken for something else.",
  over=["inputs"], quant="conditions x bodies x layouts; all shapes of nested blocks up to a depth; pairs and chains of blocks in all orders; malformed blocks",
  why="The tests contain one block with one outcome; nesting, spacing and names that contain keywords each break a textual parser in their own way.",
  files=["nexsys/src/parsing/conditionals.rs", "nexsys/src/lib.rs"], mech=[("a block becomes an equation that selects between residuals", "nexsys/src/parsing/conditionals.rs")],
  observe=["nexsys::solve_with_preprocessors"],
  note="Exhaustive over the stated operands, operators, layouts and nesting shapes; equality only for constants."),
 dict(id="N05", title="A text of equations is solved whatever the order of its lines",
  statement="Texts whose equations can be solved one after another or in square groups are solved whatever the order of their lines and of the variables in memory: every variable gets its value and every equation is satisfied within the margin. Variables that the equations leave undetermined get no value while the others still do, and texts whose equations have no solution, are malformed, or need more iterations than allowed are refused.",
  over=["inputs", "schedules"], quant="all small regular linear systems; all structures of dependencies between up to 5 variables; structures of dependent blocks x orders of lines x hash seeds; nonlinear texts x orders; margins and limits",
  tech="explicit-state model checking of the implementation: exhaustive exploration of line orders and hash-map iteration orders (hash seed under control of the explorer) with an independent dependency model as the oracle",
  why="The tests solve texts of two or three lines in one order; finding groups of equations depends on the order of the lines and on hash-map order that changes from run to run.",
  files=["nexsys/src/lib.rs", "geqslib/src/system.rs", "geqslib/src/lib.rs"], mech=[("equations with one unknown first, then groups of coupled equations", "nexsys/src/lib.rs basic_solve"), ("construction of a group from each equation", "nexsys/src/lib.rs try_solve_subsystem_of_equations")],
  observe=["nexsys::solve_with_preprocessors", "nexsys::basic_solve"],
  note="Every order of the lines up to 4 (5) variables and several hash seeds; a surplus equation that contradicts the others is ignored by the solver, recorded as a known finding."),
 dict(id="N06", title="The nxc program prints and writes the solution and touches nothing else",
  statement="The nxc program reads the named file, applies its options in any order, writes the solution to the named or derived output file and reports failures on the terminal with a failing exit code. It never overwrites its input, and no other file is created, changed or removed, whatever the names, options and the state of the folder.",
  over=["inputs", "histories"], quant="texts x sequences of options x file names x states of the folder",
  why="No test runs the program.",
  files=["nexsys/src/main.rs"], mech=[("argument loop", "nexsys/src/main.rs"), ("output name derived from the input name", "nexsys/src/main.rs")],
  observe=["the nxc program: exit code, terminal and the files of a scratch folder"],
  note="Every sequence of up to 2 (3) of 15 options on 7 texts; 16 file names in 6 states of the folder."),
 dict(id="N07", title="The nexsys C interface reports what was solved and keeps its objects intact",
  statement="Over any sequence of calls of the nexsys C interface, contexts and maps of declared variables hold what the calls put in, solving uses and keeps them as documented, and the returned string holds exactly the solved values, or a null pointer reports the failure. After the caller has released everything, no memory is left and none was freed twice.",
  over=["histories"], quant="all histories of up to 3 (4) calls from three initial stores",
  why="The tests never call the C interface; ownership mistakes need a sequence of calls and a checking allocator to be seen.",
  files=["nexsys/src/ffi.rs"], mech=[("raw pointers to boxed maps are borrowed or consumed", "nexsys/src/ffi.rs")],
  observe=["extern C functions of nexsys"],
  note="Every applicable history of 3 (4) calls, compared with a model after every call and watched by a checking allocator."),

 dict(id="N08", title="What is refused as a text of equations is refused for a fault it has",
  statement="If a text cannot be solved, the error that is reported is the one for a fault which that text has: a malformed constant, units that do not convert, a malformed declaration or conditional block, an unknown comparison, an equation that cannot be read, an illegal margin or limit. A text without faults is not refused, and the nexsys program prints the same words as the library.",
  over=["inputs"], quant="every fault at every line of texts in several orders x margins x limits x line ends; every pair of faults",
  why="The tests only look at whether there is an error, and every step of the translation could report another one for a fault it did not expect.",
  files=["nexsys/src/errors.rs", "nexsys/src/parsing/mod.rs", "nexsys/src/units/mod.rs", "nexsys/src/lib.rs", "nexsys/src/main.rs"], mech=[("kinds of errors", "nexsys/src/errors.rs"), ("steps of the translation", "nexsys/src/parsing/mod.rs compile")],
  observe=["solve_with_preprocessors, consts, conversions, const_values, conditionals, convert", "the nexsys program"],
  note="Every fault of a list of 66 at every line, every pair of them at some; the error must name one of the faults put in."),

 dict(id="N09", title="Separate texts of equations do not interfere",
  statement="Compiling and solving a text comes out the same whether it runs alone, or alternates with other texts that use the same names for other values or are refused, or other texts are solved while one of its functions is being evaluated or after that function failed, or in parallel on several threads. Compiling a text and solving it later gives what doing both at once does.",
  over=["schedules", "histories", "crash_points"], quant="all interleavings of the steps of two tasks, all points of nesting and failure, all schedules of two and three threads up to the bounds",
  why="The tests solve each text once in a process of tests whose order is not fixed; what one text leaves behind only shows in the next one with the same names.",
  files=["nexsys/src/lib.rs", "nexsys/src/parsing/mod.rs", "nexsys/src/parsing/conditionals.rs", "nexsys/src/units/mod.rs", "nexsys/src/ffi.rs"], mech=[("tables of units and constants", "nexsys/src/units/mod.rs"), ("solved values are added to a context", "nexsys/src/lib.rs")],
  observe=["nexsys::solve_with_preprocessors, basic_solve", "nexsys::parsing", "nexsys::units::convert", "exported C functions of nexsys"],
  note="Controlled scheduler: threads hand over at calls of functions of the context and between steps; results are compared with those of the task alone."),
 dict(id="N10", title="The reported procedure can be followed by hand",
  statement="The procedure that is reported with the values of a text can be followed: every step names one equation of the text in which exactly one name has no value yet, and that name, or a group of as many equations as names without a value. No equation is used twice, the steps lead to every value that is reported and to no other, and they only end when no equation is left that has a single unknown. Taking a step on its own, with the values of the steps before it, gives the values that are reported for it.",
  over=["inputs", "schedules"], quant="all structures of up to 5 equations in up to 5 variables x orders of the lines; texts with every construct of the language x orders x hash seeds; stages on one context",
  why="No test looks at the procedure, and whether its steps fit together depends on the order of the lines and on which equations are surplus or out of reach.",
  files=["nexsys/src/lib.rs", "geqslib/src/system.rs"], mech=[("a line of the log per solved equation or group", "nexsys/src/lib.rs basic_solve"), ("equations of a solved group leave the pool", "nexsys/src/lib.rs try_solve_subsystem_of_equations")],
  observe=["nexsys::solve_with_preprocessors", "nexsys::basic_solve"],
  note="The procedure is followed by a checker that only knows the lines of the text and their names; every step is solved again as a text of its own."),
 dict(id="A01", title="Solved circuits obey Kirchhoff's laws and the laws of their elements",
  statement="If solving a circuit succeeds, what flows into every node that is not locked equals what flows out, every resistor, voltage source and current source obeys its law with the reported fluxes and potentials, and locked nodes keep their potentials. A circuit with exactly one solution is solved; one without a solution, or with a voltage source between two nodes that are already determined, is refused.",
  over=["inputs"], quant="all small circuits x all ways to lock nodes",
  why="The only test of a whole circuit does not look at its solution.",
  files=["neapolitan/src/lib.rs", "neapolitan/src/flux_formulas.rs", "neapolitan/src/dc_circuits.rs", "neapolitan/src/modelling/node.rs"], mech=[("balance of fluxes per node solved by Newton's method", "neapolitan/src/lib.rs run_study"), ("sources of potential drive one node and take its balance as their flux", "neapolitan/src/flux_formulas.rs observe_flux")],
  observe=["neapolitan::NodalAnalysisStudyBuilder::run_study"],
  note="Every circuit of the stated sizes (2.1 million solves quick, 76 million thorough) against modified nodal analysis by elimination."),
 dict(id="A02", title="The numbering, order and direction of a circuit's parts do not matter",
  statement="Listing the elements of a circuit in another order, renumbering its nodes, turning elements around with their sign, or adding unconnected locked nodes changes nothing about the solution but the names and signs, in whatever order the solver keeps its unknowns in memory. Every order in which each voltage source finds a node that is not yet determined is solved.",
  over=["schedules", "inputs"], quant="all orders of elements x turned elements x numberings of nodes x hash seeds",
  tech="explicit-state model checking of the implementation: exhaustive exploration of element orders, node numberings and hash-map iteration orders (hash seed under control of the explorer) against modified nodal analysis",
  why="The tests list elements in one order; the order of the unknowns changes at random from run to run.",
  files=["neapolitan/src/lib.rs", "neapolitan/src/dc_circuits.rs", "neapolitan/src/flux_formulas.rs"], mech=[("sources are assigned a node to drive in the listed order", "neapolitan/src/dc_circuits.rs voltage_source"), ("driven nodes are brought up to date before they are read", "neapolitan/src/lib.rs run_study")],
  observe=["neapolitan::NodalAnalysisStudyBuilder::run_study"],
  note="10 circuits in all orders, numberings and directions, 2 (6) hash seeds."),
 dict(id="A03", title="Unsound models are refused with an error",
  statement="A model with unknown types, missing nodes, wrong numbers of values, missing or mistyped parts, or unusable margins and limits is refused with an error where it is built, loaded or solved, and never crashes or gives a solution. Harmless additions to a model file change nothing.",
  over=["inputs"], quant="all single changes and pairs of changes of model files, all truncations, all small builders",
  why="The tests contain no faulty model.",
  files=["neapolitan/src/lib.rs", "neapolitan/src/modelling/mod.rs", "neapolitan/src/dc_circuits.rs", "neapolitan/src/heat_transfer.rs"], mech=[("checks while the model is set up", "neapolitan/src/lib.rs run_study, add_element"), ("checks of the number of values", "neapolitan/src/dc_circuits.rs, heat_transfer.rs"), ("deserialization", "neapolitan/src/modelling/mod.rs")],
  observe=["NodalAnalysisModel::from_str", "NodalAnalysisStudyBuilder"],
  note="Some 200 changes of each of two model files, alone and in pairs, and 1.2 million builders."),
 dict(id="A04", title="Models are saved and loaded without loss",
  statement="At any point of building a model, the saved text holds exactly the type, nodes, configurations, elements and numbers given so far, the last configuration of a node counts, and loading the text gives an equal model that saves and solves alike. Saving does not change the model.",
  over=["histories"], quant="all histories of building, saving and loading up to a depth; all pairs of special numbers",
  why="The test saves one model and never loads it.",
  files=["neapolitan/src/lib.rs", "neapolitan/src/modelling/mod.rs"], mech=[("builder methods", "neapolitan/src/lib.rs NodalAnalysisStudyBuilder"), ("serde on the model", "neapolitan/src/modelling/mod.rs")],
  observe=["NodalAnalysisStudyBuilder::save_model", "NodalAnalysisModel::from_str"],
  note="Every history of up to 5 (6) of 15 steps, compared with a reference model after every step."),
 dict(id="A05", title="The neapolitan program writes the solution and touches nothing else",
  statement="The neapolitan program reads the named model, applies its options in any order, writes the solution next to the model and reports failures on the terminal with a failing exit code. It never overwrites the model, and no other file is created, changed or removed, whatever the names, options and the state of the folder.",
  over=["inputs", "histories"], quant="models x sequences of options x file names x states of the folder",
  why="No test runs the program.",
  files=["neapolitan/src/main.rs"], mech=[("argument loop", "neapolitan/src/main.rs"), ("output name derived from the input name", "neapolitan/src/main.rs")],
  observe=["the neapolitan program: exit code, terminal and the files of a scratch folder"],
  note="Every sequence of up to 2 (3) of 19 options; 16 file names in 7 states of the folder."),
 dict(id="A06", title="Solved heat transfer networks conserve heat and obey their elements",
  statement="If solving a heat transfer network succeeds, the heat that flows into every node that is not locked equals the heat that flows out, every conductor (given by its ratio or by length and conductivity), convection interface, temperature difference and heat flux obeys its law, and locked nodes keep their temperatures. A network with exactly one solution is solved; one without a solution, or with a temperature difference between two nodes that are already determined, is refused.",
  over=["inputs"], quant="all small networks x all ways to lock nodes; layered walls",
  why="No test solves a heat transfer network.",
  files=["neapolitan/src/heat_transfer.rs", "neapolitan/src/lib.rs", "neapolitan/src/flux_formulas.rs"], mech=[("constructors of the elements", "neapolitan/src/heat_transfer.rs"), ("balance of fluxes per node solved by Newton's method", "neapolitan/src/lib.rs run_study")],
  observe=["neapolitan::NodalAnalysisStudyBuilder::run_study"],
  note="Every network of the stated sizes (430 thousand solves quick, 2.2 million thorough) against modified nodal analysis."),
 dict(id="A07", title="Nodes and elements used directly stay consistent over any history",
  statement="Over any sequence of setting potentials, locking, dropping and connecting nodes, the flux of every element and the balance of every node are what the elements' laws give for the current potentials, a source of potential drives and locks one undetermined node, and nodes that are gone, circles of sources and wrong numbers of values are reported. Dropping everything leaves no memory behind.",
  over=["histories"], quant="all histories of operations up to a depth; chains of sources in all directions and orders",
  why="The tests make one resistor between two nodes; who drives whom depends on the history.",
  files=["neapolitan/src/modelling/node.rs", "neapolitan/src/modelling/element.rs", "neapolitan/src/lib.rs", "neapolitan/src/flux_formulas.rs"], mech=[("elements hold weak references to nodes", "neapolitan/src/modelling/element.rs"), ("choice of the driven node", "neapolitan/src/dc_circuits.rs voltage_source, neapolitan/src/heat_transfer.rs temperature_delta")],
  observe=["neapolitan::modelling", "get_node_potential, set_node_potential, lock_node, is_locked"],
  note="Every history of up to 4 (5) of 37 operations, a reference model compared after every operation."),
 dict(id="A08", title="Studies with own elements and several components per node are solved alike",
  statement="A study of one's own is solved with exactly the element types added to it, each name once, and every component of the potentials and fluxes obeys the laws of the elements as if it were a study of its own; nonlinear elements and elements that only one node knows are balanced too. Errors of own elements and fluxes are passed on.",
  over=["inputs"], quant="all small networks of own elements x components x grounds; all sequences of type names",
  why="No test adds an element type or uses more than one component.",
  files=["neapolitan/src/lib.rs", "neapolitan/src/modelling/node.rs", "neapolitan/src/modelling/element.rs"], mech=[("one unknown per node and component", "neapolitan/src/lib.rs run_study"), ("table of element types", "neapolitan/src/lib.rs NodalAnalysisStudyConfigurator")],
  observe=["neapolitan::NodalAnalysisStudyConfigurator", "NodalAnalysisStudyBuilder::run_study"],
  note="Every list of up to 3 (4) elements, 1 to 3 components, compared per component with modified nodal analysis or the elements' laws."),
 dict(id="A09", title="What is refused as a network is refused for a fault it has",
  statement="If a network cannot be built, loaded or solved, the error that is reported is the one for something that is really wrong with it: an unknown type of study or element, a node that does not exist, the wrong number of values, nodes that are locked already or gone, an illegal margin or limit, or the failure of an element of the caller's own. A network in which nothing is wrong is not refused, and the neapolitan program prints the same words as the library.",
  over=["inputs"], quant="builders over study types x nodes x configurations x element types x values x margins x limits; pairs and lists of elements; one fault at every place of long ladders",
  why="The tests only look at whether there is an error; which one is named depends on what else is in the network.",
  files=["neapolitan/src/errors.rs", "neapolitan/src/lib.rs", "neapolitan/src/modelling/element.rs", "neapolitan/src/modelling/node.rs", "neapolitan/src/main.rs"], mech=[("kinds of errors", "neapolitan/src/errors.rs"), ("checks while a study is configured", "neapolitan/src/lib.rs run_study")],
  observe=["errors of NodalAnalysisStudyBuilder and NodalAnalysisStudyConfigurator", "constructors of elements", "the neapolitan program"],
  note="The set of faults of every generated network is known from its structure; the reported error must be in it, and there must be none if it is empty."),
 dict(id="A10", title="Separate models and studies do not interfere",
  statement="Building, saving, loading and solving a model, and reading nodes and elements, come out the same whether they run alone, or alternate with work on other models or with ones that are refused, or other work runs while the flux of one of their elements is calculated or after that calculation failed, or in parallel on several threads.",
  over=["schedules", "histories", "crash_points"], quant="all interleavings of the steps of two tasks, all points of nesting and failure, all schedules of two and three threads up to the bounds",
  why="The tests run one study at a time; numbers of nodes, tables of element types and states of the solver that are shared only show when two studies meet.",
  files=["neapolitan/src/lib.rs", "neapolitan/src/modelling/node.rs", "neapolitan/src/modelling/element.rs", "neapolitan/src/flux_formulas.rs"], mech=[("study of a builder", "neapolitan/src/lib.rs run_study"), ("fluxes of elements", "neapolitan/src/modelling/element.rs")],
  observe=["neapolitan::NodalAnalysisStudyBuilder", "neapolitan::modelling", "get_node_potential, set_node_potential, lock_node, is_locked"],
  note="Controlled scheduler: threads hand over inside of the fluxes of elements of one's own and between steps; results are compared with those of the task alone."),
 dict(id="U01", title="Each side panel of the page keeps what it shows",
  statement="After any sequence of clicks on the headings of the file list and of the modelling tools and of entries added to the panel on show, the side panel shows what belongs to the heading clicked last, exactly as it was when it was last on show, and only that heading is highlighted and announced. Clicking the heading of the panel that is on show changes nothing, and entries react to a click as before after every switch.",
  over=["histories"], quant="all sequences of clicks on the headings, additions and clicks on entries up to the depth",
  why="The page has no tests; lost content and dead entries need several switches to show.",
  files=["ngineer_js/src/panelManager.ts", "ngineer_js/src/index.ts", "ngineer_js/src/leftRibbonMenu.ts", "index.html"], mech=[("content of the panel that is not on show", "ngineer_js/src/panelManager.ts LEFT_PANEL_MANAGER")],
  observe=["index.html with the modules of ngineer_js"],
  note="Every sequence of up to 7 (9) actions on the real modules, as compiled from the sources and as committed, over a stand-in for the document of a browser."),
 dict(id="U02", title="Every open file has one tab that opens and closes on its own",
  statement="Clicking a file in the list opens one tab with its name, or changes nothing if it has one already; clicking the X of a tab closes that tab and no other. This holds in any order and as often as one likes, whatever characters the file names contain, and nothing else on the page changes.",
  over=["histories"], quant="all sequences of files listed, opened and closed, and of panels switched, up to the depth",
  why="The page has no tests; a button that closes another tab or is dead needs several tabs and an order to show.",
  files=["ngineer_js/src/leftRibbonMenu.ts", "ngineer_js/src/tagbuilder.ts", "index.html"], mech=[("callbacks of list entries and close buttons", "ngineer_js/src/leftRibbonMenu.ts generateFocusCallback")],
  observe=["index.html with the modules of ngineer_js"],
  note="Every sequence of up to 7 (8) actions over three files, with plain and awkward names; at the end every tab is closed and opened again."),
 dict(id="U03", title="Elements of the page have unique identifiers and keep their callbacks",
  statement="Over any sequence of identifiers generated, registered and dropped, and of elements built into others and removed, a generated identifier is new, a registered one is refused a second time, and one is free again only once its element has left the page and it was dropped. An element is built where it was asked for, with its text, class and identifier, keeps its callbacks whatever is built or removed afterwards, and looking up one that is missing is reported.",
  over=["histories"], quant="all sequences of operations up to the depth; every event on every element after every operation",
  why="The page has no tests; elements that silently lose their callbacks need others to be built next to them.",
  files=["ngineer_js/src/tagbuilder.ts"], mech=[("set of registered identifiers", "ngineer_js/src/tagbuilder.ts UNIQUE_ELEMENT_IDS"), ("elements built with their callbacks", "ngineer_js/src/tagbuilder.ts TagBuilder.buildInto")],
  observe=["ngineer_js/src/tagbuilder.ts TagBuilder, registerElementId, generateUniqueElementId, dropTagFromApplication"],
  note="Every sequence of up to 4 (6) of 16 operations that can be carried out."),
 dict(id="U04", title="The message line shows the last message as it was given",
  statement="After any sequence of messages, warnings and errors the message line shows the text of the last one exactly as it was given, markup included, after the mark of its kind, in the colour of its kind.",
  over=["histories"], quant="all sequences of messages of three kinds and four texts up to the depth",
  why="The page has no tests; marks and colours that stay from earlier messages need a sequence to show.",
  files=["ngineer_js/src/debugRibbon.ts"], mech=[("mark and colour per kind", "ngineer_js/src/debugRibbon.ts DebugRibbon")],
  observe=["ngineer_js/src/debugRibbon.ts DebugRibbon"],
  note="Every sequence of up to 3 (4) of 14 steps."),
]
