import sys; sys.path.append("/verif/tools")
from uidemo import DEMO_SH, files
PROPERTY = "U03"
NEEDS = "an element that is dropped while it is on the page"
BREAKS = "an identifier is free again although its element is still on the page"
EDITS = [("ngineer_js/src/tagbuilder.ts", "        (document.getElementById(tagId) === null))\n", "        (document.getElementById(tagId)?.id !== ''))\n"),
    ("ngineer_js/target/tagbuilder.js", "        (document.getElementById(tagId) === null)) {\n", "        ((document.getElementById(tagId) || {}).id !== '')) {\n")]
CRATES = []
FILES = files(r'''const t = page.tagbuilder;
const id = t.generateUniqueElementId();
new t.TagBuilder('div').setTagId(id).buildInto(page.common.PROJ_PANE, true);
assert.strictEqual(t.dropTagFromApplication(id), false);
''')
