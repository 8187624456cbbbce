"""A demonstration that runs the page of the tree over mc/ui/dom.mjs."""
DOM = open("/verif/mc/ui/dom.mjs").read()
DEMO_SH = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
for m in index common debugRibbon leftRibbonMenu panelManager tagbuilder; do
    echo "export * as $m from '$repo/ngineer_js/target/$m.js';"
done > "$t/all.mjs"
/opt/veriftools/node/node_modules/.bin/esbuild "$t/all.mjs" --bundle --format=iife --global-name=page_modules --outfile="$t/all.js" --log-level=error || exit 2
node "$here/use.mjs" "$t/all.js" "$repo/index.html" 2>&1 || exit 1
'''
HEAD = r'''import { readFileSync } from 'node:fs';
import assert from 'node:assert';
import { Document, Event } from './dom.mjs';
const document = new Document(readFileSync(process.argv[3], 'utf8'));
const quiet = { log() {}, info() {}, warn() {}, error() {} };
const page = new Function('document', 'console', readFileSync(process.argv[2], 'utf8') + '\nreturn page_modules;')(document, quiet);
const at = (id) => document.getElementById(id);
const click = (e) => { for (const t of ['mousedown', 'mouseup', 'click']) if (e.isConnected) e.dispatchEvent(new Event(t, { bubbles: true })); };
'''
def files(use):
    return {"dom.mjs": DOM, "use.mjs": HEAD + use}
