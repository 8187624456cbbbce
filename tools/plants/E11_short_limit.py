PROPERTY = "E11"
NEEDS = "a limit of 65536 iterations or more"
BREAKS = "the C++ class keeps only the lower 16 bits of the iteration limit"
EDITS = [('geqslib/geqslib.h', 'inline const char *solve_system(double margin, unsigned limit)', 'inline const char *solve_system(double margin, unsigned short limit)')]
PROGRAM = r"""#include "geqslib.h"
#include <cstdlib>
using namespace ngineer;
int main()
{
    ContextHashMap c;
    c.add_const("k", 3.0);
    SystemBuilder b("x - k = 0", c);
    ConstrainedSystem s = b.build_system();
    s.specify_variable("x", 1.0, 0.0, 1e9);
    const char *t = s.solve_system(1e-6, 65536);
    return t && string(t).substr(0, 2) == "x=" && std::abs(std::atof(t + 2) - 3.0) < 1e-2 ? 0 : 1;
}
"""
FILES = {"use.cpp": PROGRAM}
CRATES = []
DEMO_SH = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
CARGO_NET_OFFLINE=true cargo build --quiet --offline -p geqslib --lib --target-dir "$t/target" 2>&1 || exit 2
g++ -w -std=c++17 -I"$repo/geqslib" "$here/use.cpp" -L"$t/target/debug" -lgeqslib -Wl,-rpath,"$t/target/debug" -o "$t/use" || exit 1
timeout 20 "$t/use" || exit 1
'''
