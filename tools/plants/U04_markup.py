import sys; sys.path.append("/verif/tools")
from uidemo import DEMO_SH, files
PROPERTY = "U04"
NEEDS = "a message that contains markup"
BREAKS = "messages are taken for markup"
EDITS = [("ngineer_js/src/debugRibbon.ts", "        dr.innerText = prefix + msg;\n", "        dr.innerHTML = prefix + msg;\n"), ("ngineer_js/target/debugRibbon.js", "        dr.innerText = prefix + msg;\n", "        dr.innerHTML = prefix + msg;\n")]
CRATES = []
FILES = files(r'''page.debugRibbon.DebugRibbon.warn('if a <b, c');
assert.strictEqual(at('debug-ribbon').textContent, 'WARNING: if a <b, c');
''')
