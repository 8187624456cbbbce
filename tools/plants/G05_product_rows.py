PROPERTY = "G05"
NEEDS = "a product whose operands have different numbers of rows"
BREAKS = "the product of the C++ class takes its number of rows from the right operand"
EDITS = [('gmatlib/gmatlib.h', 'return Matrix { rows, rhs.cols, matrixProduct };', 'return Matrix { rhs.rows, rhs.cols, matrixProduct };')]
PROGRAM = r"""#include "gmatlib.h"
using ngineer::Matrix;
int main()
{
    Matrix a(1, 2), b(2, 1);
    a.set({ 0, 0 }, 3.0);
    b.set({ 0, 0 }, 2.0);
    Matrix p = a * b;
    std::stringstream s;
    s << p;
    return p.is_square() && s.str() == "[6]" ? 0 : 1;
}
"""
FILES = {"use.cpp": PROGRAM}
CRATES = []
DEMO_SH = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
CARGO_NET_OFFLINE=true cargo build --quiet --offline -p gmatlib --lib --target-dir "$t/target" 2>&1 || exit 2
g++ -w -std=c++17 -I"$repo/gmatlib" "$here/use.cpp" -L"$t/target/debug" -lgmatlib -Wl,-rpath,"$t/target/debug" -o "$t/use" || exit 1
timeout 20 "$t/use" || exit 1
'''
