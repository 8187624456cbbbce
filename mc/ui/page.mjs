// The page of the tree in /repo, started anew for every history: index.html with the modules as they
// are compiled from the sources, and as they are committed.

import { execFileSync } from 'node:child_process';
import { existsSync, mkdirSync, readFileSync, rmSync, writeFileSync } from 'node:fs';
import { isMainThread } from 'node:worker_threads';
import { Document, DomError, Element, Event, Node } from './dom.mjs';

const BIN = '/opt/veriftools/node/node_modules/.bin';
const REPO = '/repo';
const OUT = `${process.env.MC_VERIF}/target/ui`;
const MODULES = ['index', 'common', 'debugRibbon', 'leftRibbonMenu', 'mainPanel', 'panelManager', 'tagbuilder'];

export const VARIANTS = ['sources', 'committed'];

function build() {
    rmSync(OUT, { recursive: true, force: true });
    mkdirSync(`${OUT}/sources`, { recursive: true });
    try {
        execFileSync(`${BIN}/tsc`, ['-p', `${REPO}/ngineer_js/tsconfig.json`, '--outDir', `${OUT}/sources`], { stdio: 'pipe' });
    } catch (e) {
        // types that do not fit do not keep the compiler from writing the modules
        writeFileSync(`${OUT}/tsc.log`, String(e.stdout ?? e));
    }
    for (const variant of VARIANTS) {
        const directory = variant === 'sources' ? `${OUT}/sources` : `${REPO}/ngineer_js/target`;
        const entry = MODULES.filter((m) => existsSync(`${directory}/${m}.js`)).map((m) => `export * as ${m} from '${directory}/${m}.js';`).join('\n');
        writeFileSync(`${OUT}/${variant}.mjs`, entry);
        execFileSync(`${BIN}/esbuild`, [`${OUT}/${variant}.mjs`, '--bundle', '--format=iife', '--global-name=page_modules', `--outfile=${OUT}/${variant}.js`, '--log-level=error'], { stdio: ['ignore', 'pipe', 'inherit'] });
    }
}

let factories = null;
let template = null;

export function prepare() {
    if (isMainThread && !factories) build();
    if (factories) return;
    const names = ['document', 'window', 'console', 'HTMLElement', 'Element', 'Node', 'Event', 'setTimeout', 'requestAnimationFrame', 'localStorage'];
    factories = {};
    for (const variant of VARIANTS) {
        factories[variant] = new Function(...names, `${readFileSync(`${OUT}/${variant}.js`, 'utf8')}\nreturn page_modules;`);
    }
    template = readFileSync(`${REPO}/index.html`, 'utf8');
}

const silent = Object.fromEntries(['log', 'info', 'warn', 'error', 'debug', 'trace'].map((n) => [n, () => {}]));

export class Page {
    constructor(variant, markup) {
        this.document = new Document(markup ?? template);
        this.later = [];
        const setTimeout = (f) => this.later.push(f);
        const window = { document: this.document, console: silent, setTimeout, addEventListener() {}, requestAnimationFrame: setTimeout };
        this.document.defaultView = window;
        const storage = new Map();
        const localStorage = { getItem: (k) => storage.get(k) ?? null, setItem: (k, v) => storage.set(k, String(v)), removeItem: (k) => storage.delete(k), clear: () => storage.clear() };
        window.localStorage = localStorage;
        this.modules = factories[variant](this.document, window, silent, Element, Element, Node, Event, setTimeout, setTimeout, localStorage);
        this.settle();
    }
    settle() {
        for (let i = 0; this.later.length && i < 1000; i += 1) this.later.shift()();
    }
    byId(id) { return this.document.getElementById(id); }
    // What a click of the mouse sends, as far as the element stays on the page.
    click(element) {
        for (const type of ['mousedown', 'mouseup', 'click']) {
            if (!element.isConnected) return;
            element.dispatchEvent(new Event(type, { bubbles: true }));
            this.settle();
        }
    }
    send(element, type) {
        element.dispatchEvent(new Event(type, { bubbles: !['mouseenter', 'mouseleave'].includes(type) }));
        this.settle();
    }
}

export const visible = (element) => element.textContent.replace(/\s+/g, ' ').trim();
export { Document, DomError };
