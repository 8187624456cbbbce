import sys; sys.path.append("/verif/tools")
from uidemo import DEMO_SH, files
PROPERTY = "U02"
NEEDS = "two open files"
BREAKS = "all close buttons share one identifier, so that the first closes the tab that was opened last"
EDITS = [("ngineer_js/src/leftRibbonMenu.ts", "                .setTagId(filename + '-close-button')\n", "                .setTagId('tab-close-button')\n"),
    ("ngineer_js/target/leftRibbonMenu.js", "                .setTagId(filename + '-close-button')\n", "                .setTagId('tab-close-button')\n")]
CRATES = []
FILES = files(r'''for (const name of ['a', 'b']) page.leftRibbonMenu.createLeftRibbonMenuFileItem(name);
click(at('left-ribbon').children[0]);
click(at('left-ribbon').children[1]);
const bar = at('proj-tabs-bar');
click(bar.children[0].children[1]);
assert.deepStrictEqual(bar.children.map((t) => t.textContent), ['bX']);
''')
