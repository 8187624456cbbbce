import sys; sys.path.append("/verif/tools")
from uidemo import DEMO_SH, files
PROPERTY = "U02"
NEEDS = "a file that is opened twice"
BREAKS = "whether a file has a tab is looked up once, when it is listed, so that a second click opens a second tab"
EDITS = [("ngineer_js/src/leftRibbonMenu.ts", """    return (event: Event) => {
        const tabElement = document.getElementById(filename + '-tab');
""", """    const tabElement = document.getElementById(filename + '-tab');

    return (event: Event) => {
"""), ("ngineer_js/target/leftRibbonMenu.js", """    return function (event) {
        var tabElement = document.getElementById(filename + '-tab');
""", """    var tabElement = document.getElementById(filename + '-tab');
    return function (event) {
""")]
CRATES = []
FILES = files(r'''page.leftRibbonMenu.createLeftRibbonMenuFileItem('a.nxs');
click(at('left-ribbon').children[0]);
click(at('left-ribbon').children[0]);
assert.strictEqual(at('proj-tabs-bar').children.length, 1);
''')
