PROPERTY = "N06"
NEEDS = "a solution much smaller than one"
BREAKS = "the program writes nine digits after the point only"
EDITS = [("nexsys/src/main.rs", """            .map(|(name, val)| format!("{} = {}\\n", name, val))
""", """            .map(|(name, val)| format!("{} = {:.9}\\n", name, val))
""")]
CRATES = ["nexsys"]
DEMO_SH = r'''#!/bin/bash
repo=$PWD
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
CARGO_NET_OFFLINE=true cargo build --quiet --offline -p nexsys --bins --target-dir "$t/target" 2>&1 || exit 2
mkdir "$t/w"; cd "$t/w" || exit 2
echo "1000000000 * x = 2.512345" > in.nxs
timeout 20 "$t/target/debug/nxc" in.nxs -tol 1e-12 > out.txt || exit 1
grep -qE '^x = 0\.0000000025123' out.txt || grep -qE '^x = 2\.5123[0-9]*e-9' out.txt
'''
