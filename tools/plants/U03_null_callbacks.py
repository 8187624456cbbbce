import sys; sys.path.append("/verif/tools")
from uidemo import DEMO_SH, files
PROPERTY = "U03"
NEEDS = "an element with a callback for a button of the mouse that goes down"
BREAKS = "the callbacks after the first one that is set are forgotten"
EDITS = [("ngineer_js/src/tagbuilder.ts", """                    maybeElem[cb] = this.tagCallbacks[cb];
""", """                    maybeElem[cb] = this.tagCallbacks[cb];
                    if (cb === 'onmouseleave') break;
"""), ("ngineer_js/target/tagbuilder.js", """                    maybeElem[cb] = _this.tagCallbacks[cb];
""", """                    maybeElem[cb] = _this.tagCallbacks[cb];
                    if (cb === 'onmouseleave')
                        break;
""")]
CRATES = []
FILES = files(r'''const t = page.tagbuilder;
let count = 0;
new t.TagBuilder('div').setTagId('x').setTagCallback('onmousedown', () => { count += 1; }).buildInto(page.common.PROJ_PANE, true);
click(at('x'));
assert.strictEqual(count, 1);
''')
