import sys; sys.path.append("/verif/tools")
from uidemo import DEMO_SH, files
PROPERTY = "U03"
NEEDS = "an identifier that was registered by hand and looks like the next generated one"
BREAKS = "only one taken identifier is skipped when one is generated"
EDITS = [("ngineer_js/src/tagbuilder.ts", "    while (UNIQUE_ELEMENT_IDS.has(REGISTERED_HTML_TAG + LastGeneratedHtmlIdNumber))\n", "    if (UNIQUE_ELEMENT_IDS.has(REGISTERED_HTML_TAG + LastGeneratedHtmlIdNumber))\n"),
    ("ngineer_js/target/tagbuilder.js", "    while (UNIQUE_ELEMENT_IDS.has(REGISTERED_HTML_TAG + LastGeneratedHtmlIdNumber)) {\n", "    if (UNIQUE_ELEMENT_IDS.has(REGISTERED_HTML_TAG + LastGeneratedHtmlIdNumber)) {\n")]
CRATES = []
FILES = files(r'''const t = page.tagbuilder;
const first = t.generateUniqueElementId();
const next = first.replace(/\d+$/, (n) => String(Number(n) + 1));
t.registerElementId(next);
assert.notStrictEqual(t.generateUniqueElementId(), next);
''')
