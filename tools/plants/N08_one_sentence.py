PROPERTY = "N08"
NEEDS = "a comparison that is misspelt, in a file given to the program"
BREAKS = "the program prints the first sentence of an error only, without the comparisons there are"
EDITS = [("nexsys/src/main.rs", """            println!("[nxc].....ERR: nxc could not solve the system");
            println!("[nxc].....{e}");
""", """            let reason = e.to_string();
            println!("[nxc].....ERR: nxc could not solve the system");
            println!("[nxc].....{}", reason.split(". ").next().unwrap_or(&reason));
""")]
CRATES = ["nexsys"]
DEMO_SH = r'''#!/bin/bash
repo=$PWD
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
CARGO_NET_OFFLINE=true cargo build --quiet --offline -p nexsys --bins --target-dir "$t/target" 2>&1 || exit 2
mkdir "$t/w"; cd "$t/w" || exit 2
printf 'if 1 => 2:\n    x = 1\nelse:\n    x = 2\nend\n' > in.nxs
timeout 20 "$t/target/debug/nxc" in.nxs > out.txt && exit 1
grep -q 'valid operators are' out.txt
'''
