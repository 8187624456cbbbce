PROPERTY = "E11"
NEEDS = "a constant that a number of single precision does not hold exactly"
BREAKS = "the C++ class takes the values of constants as numbers of single precision"
EDITS = [('geqslib/geqslib.h', 'inline void add_const(string name, double val) noexcept', 'inline void add_const(string name, float val) noexcept')]
PROGRAM = r"""#include "geqslib.h"
#include <cstdlib>
using namespace ngineer;
int main()
{
    ContextHashMap c;
    c.add_const("k", 16777217.0);
    SystemBuilder b("x - k = 0", c);
    ConstrainedSystem s = b.build_system();
    s.specify_variable("x", 16777210.0, 0.0, 1e9);
    const char *t = s.solve_system(1e-6, 100);
    return t && string(t).substr(0, 2) == "x=" && std::abs(std::atof(t + 2) - 16777217.0) < 1e-2 ? 0 : 1;
}
"""
FILES = {"use.cpp": PROGRAM}
CRATES = []
DEMO_SH = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
CARGO_NET_OFFLINE=true cargo build --quiet --offline -p geqslib --lib --target-dir "$t/target" 2>&1 || exit 2
g++ -w -std=c++17 -I"$repo/geqslib" "$here/use.cpp" -L"$t/target/debug" -lgeqslib -Wl,-rpath,"$t/target/debug" -o "$t/use" || exit 1
timeout 20 "$t/use" || exit 1
'''
