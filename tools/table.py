#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import pathlib
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for f in sorted((root / "tools/plants").glob("*.py")):
    env = {}
    exec(f.read_text(), env)
    if (root / "seeded" / f.stem / "patch.diff").exists():
        rows.append(f"| {f.stem} | {env['PROPERTY']} | {env['BREAKS']} | {env['NEEDS']} |")
design = root / "DESIGN.md"
text = design.read_text()
start, end = "<!-- planted -->\n", "<!-- /planted -->"
head, rest = text.split(start)
tail = rest.split(end)[1]
table = "| Bug | Caught by | What it breaks | What it needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
design.write_text(head + start + table + end + tail)
print(len(rows), "planted bugs")
