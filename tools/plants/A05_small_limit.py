PROPERTY = "A05"
NEEDS = "a limit of one iteration or none"
BREAKS = "a limit below two iterations is raised to two"
EDITS = [("neapolitan/src/main.rs", """        .run_study(precision.unwrap_or(0.0001), iteration_limit.unwrap_or(100))
""", """        .run_study(precision.unwrap_or(0.0001), iteration_limit.map_or(100, |x: usize| x.max(2)))
""")]
CRATES = ["neapolitan"]
DEMO_SH = r'''#!/bin/bash
repo=$PWD
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
CARGO_NET_OFFLINE=true cargo build --quiet --offline -p neapolitan --bins --target-dir "$t/target" 2>&1 || exit 2
mkdir -p "$t/w"; cd "$t/w" || exit 2
cat > m.json <<'J'
{"model_type":"dc_circuit","nodes":3,"configuration":{"0":{"potential":[0.0],"is_locked":true,"metadata":null},"1":{"potential":[5.0],"is_locked":true,"metadata":null}},"elements":[{"element_type":"resistor","input":0,"output":2,"gain":[2.0]},{"element_type":"resistor","input":2,"output":1,"gain":[2.0]}]}
J
timeout 20 "$t/target/debug/neapolitan" m.json -i 0 >/dev/null
[ $? = 1 ]
'''
