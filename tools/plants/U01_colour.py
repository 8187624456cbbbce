import sys; sys.path.append("/verif/tools")
from uidemo import DEMO_SH, files
PROPERTY = "U01"
NEEDS = "a click on the heading of the files before the one on the modelling tools"
BREAKS = "the heading of the files stays highlighted when the modelling tools are shown"
EDITS = [("ngineer_js/src/panelManager.ts", """        MODEL_TAB.getter().style.backgroundColor = CommonBGColors.Lightest;
        FILES_TAB.getter().style.backgroundColor = CommonBGColors.Dark;
""", """        MODEL_TAB.getter().style.backgroundColor = CommonBGColors.Lightest;
        FILES_TAB.getter().style.backgroundColor ||= CommonBGColors.Dark;
"""), ("ngineer_js/target/panelManager.js", """        MODEL_TAB.getter().style.backgroundColor = CommonBGColors.Lightest;
        FILES_TAB.getter().style.backgroundColor = CommonBGColors.Dark;
""", """        MODEL_TAB.getter().style.backgroundColor = CommonBGColors.Lightest;
        FILES_TAB.getter().style.backgroundColor = FILES_TAB.getter().style.backgroundColor || CommonBGColors.Dark;
""")]
CRATES = []
FILES = files(r'''click(at('files-tab'));
click(at('model-tab'));
assert.notStrictEqual(at('files-tab').style.backgroundColor, at('model-tab').style.backgroundColor);
''')
