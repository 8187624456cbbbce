#!/usr/bin/env python3
"""Writes seeded/<id>/ from tools/plants/<id>.py and confirms it in a scratch copy.

   plant.py ID...            write and confirm
   plant.py --check ID...    also run the property's quick check against the changed tree
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/plant_scratch"

DEMO = r'''#!/bin/bash
# Exit 0 on a tree where the property holds, 1 where it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/"
cat > "$t/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
@DEPS@
END
cd "$t" || exit 2
CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true cargo run --quiet --offline @FLAGS@2>&1
rc=$?
[ $rc -eq 0 ] || exit 1
'''

def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)

def load(pid):
    ns = {}
    exec(open(f"{V}/tools/plants/{pid}.py").read(), ns)
    return ns

def fresh():
    if not os.path.isdir(SCRATCH):
        sh(f"cp -a /repo {SCRATCH}")
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git checkout -q -- .", SCRATCH)

def original_lines(files):
    """Changed lines must exist at the base commit; reports lines that do not."""

def main():
    args = sys.argv[1:]
    check = "--check" in args
    ids = [a for a in args if not a.startswith("--")] or sorted(f[:-3] for f in os.listdir(f"{V}/tools/plants") if f.endswith(".py"))
    bad = []
    for pid in ids:
        p = load(pid)
        fresh()
        for f, old, new in p["EDITS"]:
            path = f"{SCRATCH}/{f}"
            s = open(path, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                print(pid, "edit found", s.count(old), "times in", f); bad.append(pid); break
            open(path, "w", newline="").write(s.replace(old, new))
        else:
            d = f"{V}/seeded/{pid}"
            os.makedirs(d, exist_ok=True)
            diff = subprocess.run("git diff", shell=True, cwd=SCRATCH, capture_output=True).stdout
            open(f"{d}/patch.diff", "wb").write(diff)
            # lines taken away must be original
            base = {}
            for f, *_ in p["EDITS"]:
                base[f] = subprocess.run(["git", "show", f"5e2988c:{f}"], cwd="/repo", capture_output=True).stdout.decode("utf8", "replace").replace("\r\n", "\n").split("\n")
            gone = [l[1:] for l in diff.decode("utf8", "replace").replace("\r", "").split("\n") if l.startswith("-") and not l.startswith("---")]
            orig = [l for l in gone if any(l in b for b in base.values())]
            if "DEMO_SH" in p:
                open(f"{d}/demo.sh", "w").write(p["DEMO_SH"])
            else:
                deps = "\n".join(f'{c} = {{ path = "$repo/{c}" }}' for c in p["CRATES"]) + "\n" + p.get("DEPS", "")
                open(f"{d}/demo.sh", "w").write(DEMO.replace("@DEPS@", deps).replace("@FLAGS@", p.get("FLAGS", "")))
                open(f"{d}/main.rs", "w").write(p["MAIN"])
            os.chmod(f"{d}/demo.sh", 0o755)
            for name, text in p.get("FILES", {}).items():
                open(f"{d}/{name}", "w").write(text)
            json.dump({"property": p["PROPERTY"], "needs": p["NEEDS"], "what_it_breaks": p["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
            # demonstration
            r1 = sh(f"bash {d}/demo.sh", SCRATCH)
            fresh()
            r0 = sh(f"bash {d}/demo.sh", SCRATCH)
            ok = r0.returncode == 0 and r1.returncode != 0
            # the existing tests, with the change, in /repo itself (test.sh works there)
            a = sh(f"git apply {d}/patch.diff", "/repo")
            tests, caught = "?", ""
            try:
                b = sh("bash /opt/vp/build.sh", timeout=900)
                sh("bash /opt/vp/test.sh /tmp/plant_tests.json", timeout=900)
                t = json.load(open("/tmp/plant_tests.json"))
                basel = json.load(open("/opt/vp/BASELINE.json"))
                want = basel if isinstance(basel, list) else basel.get("passed") or basel.get("stable") or basel.get("tests")
                missing = [x for x in want if x not in t["passed"]]
                tests = "pass" if not missing else f"FAIL {missing[:2]}"
                if check:
                    for q in p.get("ALSO", []) + [p["PROPERTY"]]:
                        c = sh(f"bash {V}/check.sh {q} quick")
                        caught += f" {q}:{c.returncode}" + ("" if f"VIOLATION property={q}" in c.stdout or c.returncode == 0 else " no line " + c.stderr[-300:])
            finally:
                sh("git checkout -q -- .", "/repo")
            print(f"{pid}: apply {a.returncode} original lines {len(orig)}/{len(gone)} demo clean {r0.returncode} changed {r1.returncode} tests {tests} check{caught}", flush=True)
            if not ok or tests != "pass" or a.returncode or not orig:
                bad.append(pid)
                print("   clean:", (r0.stdout + r0.stderr)[-400:], "\n   changed:", (r1.stdout + r1.stderr)[-400:])
    sh("bash /opt/vp/build.sh")
    print("bad:", bad)

main()
