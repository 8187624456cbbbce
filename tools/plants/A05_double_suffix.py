PROPERTY = "A05"
NEEDS = "a model whose name has the suffix of models twice, or in the middle"
BREAKS = "every suffix is taken away, so that the solution goes to a file of another name"
EDITS = [("neapolitan/src/main.rs", """    match write(solution_file, solution_json) 
""", """    let solution_file = solution_file.replace(".json.", ".");
    match write(solution_file, solution_json) 
""")]
CRATES = ["neapolitan"]
DEMO_SH = r'''#!/bin/bash
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
CARGO_NET_OFFLINE=true cargo build --quiet --offline -p neapolitan --bins --target-dir "$t/target" 2>&1 || exit 2
mkdir "$t/w"; cd "$t/w" || exit 2
echo '{"model_type":"dc_circuit","nodes":2,"configuration":{"0":{"potential":[5.0],"is_locked":true,"metadata":null}},"elements":[{"element_type":"resistor","input":0,"output":1,"gain":[2.0]}]}' > a.json.json
timeout 20 "$t/target/debug/neapolitan" a.json.json > out.txt || exit 1
[ -f a.json.soln.json ]
'''
