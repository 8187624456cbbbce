#!/usr/bin/env python3
"""Systematic one-line mutations of the code, run against the quick checks in scratch copies.

mutate.py setup N            N scratch copies of /repo and /verif under /tmp/mut
mutate.py list CRATE         the mutations of a crate
mutate.py run CRATE N OUT    run them in N copies, append the results to OUT (resumes)
"""
import json, os, re, subprocess, sys, threading, queue, shutil, time

ROOT = "/tmp/mut"
PROPS = {
    "gmatlib": ["G03", "G02", "G01", "G04"],
    "geqslib": ["E02", "E03", "E04", "E01", "E07", "E10", "E06", "E05", "E08", "E09"],
    "nexsys": ["N07", "N06", "N01", "N04", "N03", "N02", "N05"],
    "neapolitan": ["A08", "A07", "A04", "A05", "A06", "A02", "A01", "A03"],
}

def files(crate):
    out = []
    for d, _, fs in os.walk(f"{ROOT}/pristine/{crate}/src"):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith(".rs") and f not in ("duplicate.rs", "errors.rs", "error.rs"):
                out.append(os.path.relpath(p, f"{ROOT}/pristine"))
    return sorted(out)

SWAPS = [
    (r"<=", ["<", "=="]), (r">=", [">", "=="]), (r"(?<![-=<])>(?![=>])(?<=\s>)(?=.\s|\s)", [">=", "<"]), (r"(?<=\s)<(?=\s)", ["<=", ">"]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|(?=\s)", ["&&"]),
    (r"(?<=[\w\])] )\+(?= )", ["-"]), (r"(?<=[\w\])] )-(?= )", ["+"]), (r"(?<=[\w\])] )\*(?= )", ["/", "+"]), (r"(?<=[\w\])] )/(?= )", ["*"]),
    (r"(?<=\w)\*(?=\w)", ["/"]), (r"(?<=\w)\+(?=\w)", ["-"]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"\*=", ["/="]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.])!(?=[\w(])", [""]),
    (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["continue"]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
    (r"(?<=[( ])-(?=[a-z(])", [""]), (r"\.abs\(\)", [""]), (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"\.is_empty\(\)", [".is_empty().eq(&false)"]),
    (r"\.rev\(\)", [""]), (r"\.clone\(\)", []), (r"\bis_some\b", ["is_none"]), (r"\bis_none\b", ["is_some"]), (r"\bis_ok\b", ["is_err"]), (r"\bis_err\b", ["is_ok"]),
    (r"\.trim\(\)", [""]), (r"\.sin\(\)", [".cos()"]), (r"\.asin\(\)", [".acos()"]), (r"\.\.=", [".."]), (r"(?<=[\w)])\.\.(?=[\w(])", ["..="]),
]

def mutants(path):
    src = open(f"{ROOT}/pristine/" + path, newline="").read()
    lines = src.split("\n")
    end = len(lines)
    for i, l in enumerate(lines):
        if "#[cfg(test)]" in l:
            end = i
            break
    out = []
    for i in range(end):
        l = lines[i]
        s = l.strip()
        code = l.split("//")[0] if "://" not in l else l
        code = re.sub(r"\[(f64|T|u8|i32); *\d+\]", lambda m: "x" * len(m.group(0)), code)
        code = re.sub(r"(?<=[(, ])\|\| *\{", lambda m: "x" * len(m.group(0)), code)
        if not s or s.startswith(("//", "use ", "#", "pub mod", "mod ", "pub use")):
            continue
        def add(new, why):
            if new != l:
                out.append((path, i, l, new, why))
        for pat, reps in SWAPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    add(l[:m.start()] + r + l[m.end():], f"{m.group(0)} -> {r}")
        for m in re.finditer(r"(?<![\w.#\"])(\d+)(\.\d+)?(?:e-?\d+)?(?![\w.]|\.\d)", code):
            t = m.group(0)
            if "." in t or "e" in t:
                v = float(t)
                reps = [repr(v * 1.01) if v else "0.01", repr(v + 1.0)]
            else:
                v = int(t)
                reps = [str(v + 1)] + ([str(v - 1)] if v > 0 else [])
            for r in reps:
                add(l[:m.start()] + r + l[m.end():], f"{t} -> {r}")
        if re.match(r"^(else )?if (?!let)", s) or re.match(r"^} else if (?!let)", s):
            m = re.search(r"if (.*?)(\s*\{?\s*\r?)$", l)
            if m and m.group(1).count("(") == m.group(1).count(")"):
                add(l[:m.start(1)] + "true" + l[m.end(1):], "if true")
                add(l[:m.start(1)] + "false" + l[m.end(1):], "if false")
        if s.endswith(";") and not s.startswith(("let ", "return", "pub ", "type ", "const ", "static ", "break", "continue", "}", ")")) and s.count("(") == s.count(")"):
            add(re.sub(r"\S.*;", ";", l, count=1), "statement removed")
        if re.match(r"^return .*;$", s) and s.count("(") == s.count(")"):
            add(re.sub(r"return .*;", ";", l), "return removed")
    return out

def all_mutants(crate):
    return [m for f in files(crate) for m in mutants(f)]

def sh(cmd, cwd, timeout, cores):
    p = subprocess.Popen(["taskset", "-c", cores, "bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, "timeout"

def work(w, n, q, outf, lock, crate):
    base = f"{ROOT}/w{w}"
    per = 2
    cores = f"{w*per}-{w*per+per-1}"
    env = f"export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0;"
    while True:
        try:
            k, (path, i, old, new, why) = q.get_nowait()
        except queue.Empty:
            return
        f = f"{base}/repo/{path}"
        src = open(f"{ROOT}/pristine/" + path, newline="").read()
        lines = src.split("\n")
        assert lines[i] == old
        lines[i] = new
        open(f, "w", newline="").write("\n".join(lines))
        t0 = time.time()
        res, by = None, None
        for p in PROPS[crate]:
            rc, out = sh(f"{env} bash check.sh {p} quick", f"{base}/verif", 240, cores)
            if rc == 2 and "could not be built" in out:
                res = "nocompile"
                break
            if rc != 0:
                res, by = ("caught" if rc == 1 and "VIOLATION" in out else f"rc{rc}"), p
                break
        if res is None:
            rc, out = sh(f"{env} cargo test --offline --workspace --no-fail-fast --target-dir {base}/ttarget 2>&1", f"{base}/repo", 400, cores)
            fails = set(re.findall(r"^test (.*) \.\.\. FAILED", out, re.M))
            base_f = json.load(open(f"{ROOT}/basefail.json"))
            if rc == -9:
                res = "tests hang"
            elif "could not compile" in out:
                res = "nocompile"
            else:
                bad = [x for x in fails if x not in base_f]
                res = "killed by tests" if bad else "SURVIVED"
                by = bad[:3]
        open(f, "w", newline="").write(src)
        with lock:
            with open(outf, "a") as o:
                o.write(json.dumps(dict(k=k, file=path, line=i + 1, old=old.strip(), new=new.strip(), why=why, res=res, by=by, t=round(time.time() - t0))) + "\n")

def main():
    if sys.argv[1] == "setup":
        n = int(sys.argv[2])
        os.makedirs(f"{ROOT}/pristine", exist_ok=True)
        subprocess.check_call(f"git -C /repo archive HEAD | tar xf - -C {ROOT}/pristine", shell=True)
        for w in range(n):
            b = f"{ROOT}/w{w}"
            os.makedirs(b, exist_ok=True)
            subprocess.check_call(["rsync", "-a", "--delete", "--exclude", "/target", f"{ROOT}/pristine/", f"{b}/repo/"]) if shutil.which("rsync") else subprocess.check_call(f"rm -rf {b}/repo && mkdir -p {b}/repo && cd {ROOT}/pristine && tar cf - . | tar xf - -C {b}/repo", shell=True)
            subprocess.check_call(f"mkdir -p {b}/verif && cd {b}/verif && rm -rf {b}/verif/mc && cp -r /verif/mc /verif/check.sh /verif/MANIFEST.json /verif/properties.jsonl . && cp -r /verif/KNOWN* . 2>/dev/null; cp /verif/*.json* /verif/*.txt . 2>/dev/null; mkdir -p evidence; sed -i 's#/repo#{b}/repo#g' check.sh mc/neap/src/cli.rs", shell=True)
        rc, out = sh(f"CARGO_NET_OFFLINE=true cargo test --offline --workspace --no-fail-fast --target-dir {ROOT}/w0/ttarget 2>&1", f"{ROOT}/w0/repo", 600, "0-7")
        json.dump(sorted(set(re.findall(r"^test (.*) \.\.\. FAILED", out, re.M))), open(f"{ROOT}/basefail.json", "w"))
        print(open(f"{ROOT}/basefail.json").read())
    elif sys.argv[1] == "list":
        ms = all_mutants(sys.argv[2])
        for m in ms:
            print(f"{m[0]}:{m[1]+1}: {m[4]}: {m[3].strip()}")
        print(len(ms))
    elif sys.argv[1] == "run":
        crate, n, outf = sys.argv[2], int(sys.argv[3]), sys.argv[4]
        done = set()
        if os.path.exists(outf):
            done = {(j["file"], j["line"], j["new"]) for j in map(json.loads, open(outf))}
        q = queue.Queue()
        for k, m in enumerate(all_mutants(crate)):
            if (m[0], m[1] + 1, m[3].strip()) not in done:
                q.put((k, m))
        print(q.qsize(), flush=True)
        lock = threading.Lock()
        ts = [threading.Thread(target=work, args=(w, n, q, outf, lock, crate)) for w in range(n)]
        [t.start() for t in ts]
        [t.join() for t in ts]

main()
