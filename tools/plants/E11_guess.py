PROPERTY = "E11"
NEEDS = "a variable specified with a guess that is not its lower limit"
BREAKS = "the C++ class gives guess and lower limit in the other order"
EDITS = [('geqslib/geqslib.h', 'return _ngffi_::specify_variable(ptr, var.c_str(), guess, min, max);', 'return _ngffi_::specify_variable(ptr, var.c_str(), min, guess, max);')]
PROGRAM = r"""#include "geqslib.h"
#include <cstdlib>
using namespace ngineer;
int main()
{
    ContextHashMap c;
    SystemBuilder b("x + 1 = 3", c);
    ConstrainedSystem s = b.build_system();
    s.specify_variable("x", 50.0, 0.0, 100.0);
    const char *t = s.solve_system(1e-6, 100);
    return t && string(t).substr(0, 2) == "x=" && std::abs(std::atof(t + 2) - 2.0) < 1e-3 ? 0 : 1;
}
"""
FILES = {"use.cpp": PROGRAM}
CRATES = []
DEMO_SH = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
CARGO_NET_OFFLINE=true cargo build --quiet --offline -p geqslib --lib --target-dir "$t/target" 2>&1 || exit 2
g++ -w -std=c++17 -I"$repo/geqslib" "$here/use.cpp" -L"$t/target/debug" -lgeqslib -Wl,-rpath,"$t/target/debug" -o "$t/use" || exit 1
timeout 20 "$t/use" || exit 1
'''
