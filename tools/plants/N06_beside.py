PROPERTY = "N06"
NEEDS = "a text that is not in the working directory, and an output file"
BREAKS = "the results are written to the working directory instead of beside the text"
EDITS = [("nexsys/src/main.rs", """    if output_file {
""", """    if let Some(args) = output_file.then(|| args.iter().map(|a| a.rsplit('/').next().unwrap_or(a).to_string()).collect::<Vec<_>>()) {
""")]
CRATES = ["nexsys"]
DEMO_SH = r'''#!/bin/bash
repo=$PWD
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
CARGO_NET_OFFLINE=true cargo build --quiet --offline -p nexsys --bins --target-dir "$t/target" 2>&1 || exit 2
mkdir -p "$t/w/sub"; cd "$t/w" || exit 2
echo "x = 3" > sub/in.nxs
timeout 20 "$t/target/debug/nxc" sub/in.nxs -o >/dev/null || exit 1
test -f sub/in.txt || exit 1
exit 0
'''
