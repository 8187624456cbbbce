PROPERTY = "A05"
NEEDS = "a folder the results cannot be written into"
BREAKS = "the program reports success although the results could not be written"
EDITS = [("neapolitan/src/main.rs", """            println!("[neapolitan].....ERR: neapolitan could not write to the output file!");
            println!("[neapolitan].....ERR: {e}");
            process::exit(1);
""", """            println!("[neapolitan].....ERR: neapolitan could not write to the output file!");
            println!("[neapolitan].....ERR: {e}");
            process::exit(0);
""")]
CRATES = ["neapolitan"]
DEMO_SH = r'''#!/bin/bash
repo=$PWD
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
CARGO_NET_OFFLINE=true cargo build --quiet --offline -p neapolitan --bins --target-dir "$t/target" 2>&1 || exit 2
mkdir -p "$t/w/m.soln.json"; cd "$t/w" || exit 2
cat > m.json <<'J'
{"model_type":"dc_circuit","nodes":2,"configuration":{"0":{"potential":[0.0],"is_locked":true,"metadata":null},"1":{"potential":[5.0],"is_locked":true,"metadata":null}},"elements":[{"element_type":"resistor","input":0,"output":1,"gain":[2.0]}]}
J
timeout 20 "$t/target/debug/neapolitan" m.json >/dev/null
[ $? = 1 ]
'''
