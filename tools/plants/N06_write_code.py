PROPERTY = "N06"
NEEDS = "an output file that can not be written"
BREAKS = "the program ends with a successful exit code although the output could not be written"
EDITS = [("nexsys/src/main.rs", """                println!("[nxc].....ERR: nxc could not write to the output file");
                process::exit(1);
""", """                println!("[nxc].....ERR: nxc could not write to the output file");
""")]
CRATES = ["nexsys"]
DEMO_SH = r'''#!/bin/bash
repo=$PWD
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
CARGO_NET_OFFLINE=true cargo build --quiet --offline -p nexsys --bins --target-dir "$t/target" 2>&1 || exit 2
mkdir "$t/w"; cd "$t/w" || exit 2
echo "x = 3" > in.nxs
mkdir in.txt
timeout 20 "$t/target/debug/nxc" in.nxs -o >/dev/null && exit 1
exit 0
'''
