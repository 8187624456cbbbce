PROPERTY = "G05"
NEEDS = "a sub-matrix that starts at different row and column numbers"
BREAKS = "the C++ class counts the columns of a sub-matrix from its first row"
EDITS = [('gmatlib/gmatlib.h', 'return Matrix { r2 - r1 + 1, c2 - c1 + 1, matrixSlice };', 'return Matrix { r2 - r1 + 1, c2 - r1 + 1, matrixSlice };')]
PROGRAM = r"""#include "gmatlib.h"
using ngineer::Matrix;
int main()
{
    Matrix a(3, 3);
    a.set({ 0, 1 }, 4.0);
    std::stringstream s;
    s << a.subset(0, 1, 1, 1);
    return s.str() == "[4;0]" ? 0 : 1;
}
"""
FILES = {"use.cpp": PROGRAM}
CRATES = []
DEMO_SH = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
CARGO_NET_OFFLINE=true cargo build --quiet --offline -p gmatlib --lib --target-dir "$t/target" 2>&1 || exit 2
g++ -w -std=c++17 -I"$repo/gmatlib" "$here/use.cpp" -L"$t/target/debug" -lgmatlib -Wl,-rpath,"$t/target/debug" -o "$t/use" || exit 1
timeout 20 "$t/use" || exit 1
'''
