PROPERTY = "E11"
NEEDS = "an unknown of an empty context that is named like a constant of the standard one"
BREAKS = "an empty context of the C++ class holds the standard constants"
EDITS = [('geqslib/geqslib.h', 'return ContextHashMap { _ngffi_::new_context_hash_map() };', 'return ContextHashMap { _ngffi_::new_default_context_hash_map() };')]
PROGRAM = r"""#include "geqslib.h"
using namespace ngineer;
int main()
{
    ContextHashMap c = ContextHashMap::newEmpty();
    SystemBuilder b("e + 1 = 5", c);
    return b.is_fully_constrained() == SystemBuilderConstraintStatus::Constrained ? 0 : 1;
}
"""
FILES = {"use.cpp": PROGRAM}
CRATES = []
DEMO_SH = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
CARGO_NET_OFFLINE=true cargo build --quiet --offline -p geqslib --lib --target-dir "$t/target" 2>&1 || exit 2
g++ -w -std=c++17 -I"$repo/geqslib" "$here/use.cpp" -L"$t/target/debug" -lgeqslib -Wl,-rpath,"$t/target/debug" -o "$t/use" || exit 1
timeout 20 "$t/use" || exit 1
'''
