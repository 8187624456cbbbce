import sys; sys.path.append("/verif/tools")
from uidemo import DEMO_SH, files
PROPERTY = "U04"
NEEDS = "an error without text after another message"
BREAKS = "a message without text keeps the line as it is"
EDITS = [("ngineer_js/src/debugRibbon.ts", "        let dr = DEBUG_RIBBON.getter();\n", "        let dr = DEBUG_RIBBON.getter();\n        if (msg === '') return;\n"), ("ngineer_js/target/debugRibbon.js", "        dr.style.color = color;\n", "        if (msg === '')\n            return;\n        dr.style.color = color;\n")]
CRATES = []
FILES = files(r'''page.debugRibbon.DebugRibbon.print('ready');
page.debugRibbon.DebugRibbon.error('');
assert.strictEqual(at('debug-ribbon').textContent, 'ERROR: ');
''')
