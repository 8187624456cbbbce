PROPERTY = "G05"
NEEDS = "the inversion of a 1 x 1 matrix of zero, or of a larger singular matrix, and a look at the reason"
BREAKS = "two error codes are declared in the other order"
EDITS = [('gmatlib/gmatlib.h', '            DeterminantWasZero,\n', '            SingularValueWasZero,\n'), ('gmatlib/gmatlib.h', 'calculated for the given matrix, and it is non-invertible as a result\n            SingularValueWasZero,\n            /// @brief indicates that the matrix was of size 1 x 1 and contained only zero. This is equivalent to division by zero and is undefined.\n            SingularValueWasZero,\n', 'calculated for the given matrix, and it is non-invertible as a result\n            SingularValueWasZero,\n            /// @brief indicates that the matrix was of size 1 x 1 and contained only zero. This is equivalent to division by zero and is undefined.\n            DeterminantWasZero,\n')]
PROGRAM = r"""#include "gmatlib.h"
using ngineer::Matrix;
int main()
{
    Matrix a(2, 2);
    a.set({ 0, 0 }, 1.0);
    a.set({ 0, 1 }, 2.0);
    a.set({ 1, 0 }, 2.0);
    a.set({ 1, 1 }, 4.0);
    try
    {
        a.inplace_invert();
    }
    catch (const std::runtime_error &e)
    {
        return string(e.what()).find("determinant") == string::npos;
    }
    return 1;
}
"""
FILES = {"use.cpp": PROGRAM}
CRATES = []
DEMO_SH = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
CARGO_NET_OFFLINE=true cargo build --quiet --offline -p gmatlib --lib --target-dir "$t/target" 2>&1 || exit 2
g++ -w -std=c++17 -I"$repo/gmatlib" "$here/use.cpp" -L"$t/target/debug" -lgmatlib -Wl,-rpath,"$t/target/debug" -o "$t/use" || exit 1
timeout 20 "$t/use" || exit 1
'''
