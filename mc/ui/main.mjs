// U01 side panel, U02 tabs of open files, U03 elements and their identifiers, U04 messages.

import { demand, main } from './frame.mjs';
import { isMainThread } from 'node:worker_threads';
import { Page, VARIANTS, prepare, visible } from './page.mjs';

const AWKWARD = ["it's one.nxs", 'r&d.nxs', 'a <b> c.nxs'];
const PLAIN = ['one.nxs', 'two.nxs', 'three.nxs'];

const ribbon = (page) => page.byId('left-ribbon');
const bar = (page) => page.byId('proj-tabs-bar');
const squeeze = (text) => text.replace(/\s+/g, '');
const entries = (page) => ribbon(page).children;

// ---------------------------------------------------------------- U01

function panels(space) {
    prepare();
    const actions = ['Files', 'Model', 'add', 'touch'];
    const run = (variant, history, stats) => {
        const page = new Page(variant);
        const content = { Files: [], Model: null };
        let base = '';
        let shown = 'Files';
        let clicked = false;
        let touched = {};
        const colours = {};
        const messages = {};
        let serial = 0;
        const check = (what) => {
            stats.step();
            const text = squeeze(visible(ribbon(page)));
            if (shown === 'Model' && content.Model === null) {
                demand(text !== '', `${what}: the modelling panel is empty at first`);
                base = text;
                content.Model = [];
            }
            const want = (shown === 'Model' ? base : '') + content[shown].join('');
            demand(text === want, () => `${what}: the panel ${shown} shows ${JSON.stringify(text)}, expected ${JSON.stringify(want)}`);
            if (clicked) {
                const [on, off] = shown === 'Files' ? ['files-tab', 'model-tab'] : ['model-tab', 'files-tab'];
                const [a, b] = [page.byId(on).style.backgroundColor, page.byId(off).style.backgroundColor];
                demand(a !== b, `${what}: both headings look the same`);
                colours.on ??= a;
                colours.off ??= b;
                demand(colours.on === a && colours.off === b, `${what}: the heading that was clicked does not stand out`);
                const message = page.byId('debug-ribbon').textContent;
                const other = messages[shown === 'Files' ? 'Model' : 'Files'];
                if (last === 'Files' || last === 'Model') {
                    demand(message !== '' && message !== other && (messages[shown] ?? message) === message, `${what}: the message is ${JSON.stringify(message)}`);
                    messages[shown] = message;
                }
            }
            stats.state(`${shown}|${content.Files.length}|${content.Model?.length}|${JSON.stringify(touched)}|${ribbon(page).innerHTML}`);
        };
        let last = '';
        const touch = (what) => {
            for (const name of content[shown]) {
                const element = entries(page).find((e) => squeeze(visible(e)) === name);
                demand(element, `${what}: ${name} is no entry of its own`);
                const before = touched[name] ?? 0;
                page.click(element);
                if (shown === 'Files') {
                    touched[name] = 1;
                    const tabs = bar(page).children.map((t) => squeeze(visible(t)));
                    demand(tabs.filter((t) => t.startsWith(name)).length === 1, `${what}: a click on ${name} leaves the tabs ${tabs}`);
                } else {
                    demand(touched[name] === before + 1, `${what}: a click on ${name} is noticed ${(touched[name] ?? 0) - before} times`);
                }
            }
        };
        check('at first');
        history.forEach((action, k) => {
            const what = `after ${history.slice(0, k + 1).join(', ')}`;
            last = action;
            if (action === 'Files' || action === 'Model') {
                page.click(page.byId(action === 'Files' ? 'files-tab' : 'model-tab'));
                shown = action;
                clicked = true;
            } else if (action === 'add') {
                serial += 1;
                if (shown === 'Files') {
                    page.modules.leftRibbonMenu.createLeftRibbonMenuFileItem(`file${serial}`);
                    content.Files.push(`file${serial}`);
                } else {
                    const name = `tool${serial}`;
                    new page.modules.tagbuilder.TagBuilder('div')
                        .setTagId(page.modules.tagbuilder.generateUniqueElementId())
                        .setTagContent(name)
                        .setTagCallback('onclick', () => { touched[name] = (touched[name] ?? 0) + 1; })
                        .buildInto(page.modules.common.LEFT_RIBBON, true);
                    content.Model.push(name);
                }
            } else {
                touch(what);
            }
            check(what);
        });
        touch('at last');
        check('at last');
        stats.outcome(`${content.Files.length} files, ${content.Model?.length ?? 'no'} tools`);
    };
    for (const variant of VARIANTS) {
        for (let length = 0; length <= space.pick(7, 9); length += 1) {
            space.product(actions.length, length, (d) => {
                const history = d.map((i) => actions[i]);
                space.case(() => `${variant}: ${history.join(', ')}`, (stats) => run(variant, history, stats));
            });
        }
    }
}

// ---------------------------------------------------------------- U02

function tabs(space) {
    prepare();
    const actions = ['add', 'Files', 'Model'];
    for (let i = 0; i < 3; i += 1) actions.push(`open ${i}`, `close ${i}`, `touch ${i}`);
    // Whether a history can be carried out, by the model alone.
    const possible = (history, count) => {
        let files = 0;
        let open = 0;
        let shown = 'Files';
        const opened = new Set();
        const order = [];
        for (const action of history) {
            const [kind, number] = action.split(' ');
            const i = Number(number);
            if (kind === 'Files' || kind === 'Model') {
                shown = kind;
            } else if (kind === 'add') {
                if (shown !== 'Files' || files === count) return false;
                files += 1;
            } else if (kind === 'open') {
                if (shown !== 'Files' || i >= files) return false;
                if (!opened.has(i)) { opened.add(i); order.push(i); open += 1; }
            } else {
                if (i >= open) return false;
                if (kind === 'close') { opened.delete(order[i]); order.splice(i, 1); open -= 1; }
            }
        }
        return true;
    };
    const run = (variant, names, history, stats) => {
        const page = new Page(variant);
        const rest = () => ['top-bar', 'left-ribbon-tabs', 'files-tab', 'model-tab', 'mid-container', 'proj-pane'].map((id) => !!page.byId(id)).join();
        const around = rest();
        let listed = 0;
        const open = [];
        let shown = 'Files';
        const close = (i) => {
            const tab = bar(page).children[i];
            const button = [...tab.descendants()].filter((e) => e.nodeType === 1 && e.children.length === 0 && visible(e) === 'X').pop();
            demand(button, `no X in the tab ${visible(tab)}`);
            page.click(button);
            open.splice(i, 1);
        };
        const check = (what) => {
            stats.step();
            const got = bar(page).children.map((t) => visible(t));
            const want = open.map((i) => names[i] + 'X');
            demand(got.length === want.length && got.every((t, i) => squeeze(t) === squeeze(want[i])), () => `${what}: the tabs are ${JSON.stringify(got)}, expected ${JSON.stringify(want)}`);
            if (shown === 'Files') {
                const files = entries(page).map(visible);
                demand(JSON.stringify(files) === JSON.stringify(names.slice(0, listed)), () => `${what}: the files are ${JSON.stringify(files)}`);
            }
            demand(rest() === around, `${what}: something else left the page`);
            const ids = [...page.document.descendants()].map((e) => e.id).filter((id) => id);
            demand(new Set(ids).size === ids.length, () => `${what}: an identifier is there twice: ${ids}`);
            stats.state(`${listed}|${open}|${shown}|${bar(page).innerHTML}`);
        };
        history.forEach((action, k) => {
            const what = `after ${history.slice(0, k + 1).join(', ')}`;
            const [kind, number] = action.split(' ');
            const i = Number(number);
            if (kind === 'Files' || kind === 'Model') {
                page.click(page.byId(kind === 'Files' ? 'files-tab' : 'model-tab'));
                shown = kind;
            } else if (kind === 'add') {
                page.modules.leftRibbonMenu.createLeftRibbonMenuFileItem(names[listed]);
                listed += 1;
            } else if (kind === 'open') {
                page.click(entries(page)[i]);
                if (!open.includes(i)) open.push(i);
            } else if (kind === 'touch') {
                page.click(bar(page).children[i]);
                page.click(bar(page).children[i].children[0]);
            } else {
                close(i);
            }
            check(what);
        });
        stats.outcome(`${open.length} of ${listed} open`);
        // every tab that is left can still be closed, and its file opened again
        for (const i of [...open].reverse()) {
            close(open.indexOf(i));
            check(`then ${names[i]} closed`);
        }
        if (shown === 'Files') {
            for (let i = 0; i < listed; i += 1) {
                page.click(entries(page)[i]);
                open.push(i);
                check(`then ${names[i]} opened`);
            }
        }
    };
    for (const variant of VARIANTS) {
        for (const [names, depth] of [[PLAIN, space.pick(7, 8)], [AWKWARD, space.pick(5, 7)]]) {
            for (let length = 0; length <= depth; length += 1) {
                const visit = (history) => {
                    if (!possible(history, names.length)) return;
                    if (history.length === length) {
                        space.case(() => `${variant}: ${names[0]} ...: ${history.join(', ')}`, (stats) => run(variant, names, history, stats));
                        return;
                    }
                    for (const action of actions) visit([...history, action]);
                };
                visit([]);
            }
        }
    }
}

// ---------------------------------------------------------------- U03

function elements(space) {
    prepare();
    const MARKUP = '<html><body><div id="here"></div><div id="there"><span id="plain">p</span></div></body></html>';
    // page(i): where element i goes; 'build P Q': the next element into P, replacing or appending
    const KINDS = ['onclick', 'onmouseover', 'onmouseenter', 'onmouseleave', 'onmouseup', 'onmousedown'];
    const operations = ['generate', 'into here', 'into here alone', 'into there', 'into first', 'into first alone', 'into last', 'remove first', 'remove last', 'drop first', 'drop last', 'get first', 'get last', 'register first', 'register new', 'register next'];
    const run = (variant, history, stats) => {
        const page = new Page(variant, MARKUP_OF_PAGE(MARKUP));
        const t = page.modules.tagbuilder;
        const registered = new Set();
        const handles = {};
        for (const id of ['here', 'there']) {
            handles[id] = t.registerElementId(id);
            registered.add(id);
        }
        const built = [];
        let serial = 0;
        let fresh = [];
        const refused = (f) => {
            try { f(); } catch (e) {
                return e;
            }
            return null;
        };
        const names = new Set();
        let latest = '';
        const generate = (what) => {
            const id = t.generateUniqueElementId();
            demand(typeof id === 'string' && id !== '', `${what}: generated ${JSON.stringify(id)}`);
            demand(!registered.has(id), `${what}: generated ${id}, which is registered`);
            demand(!page.byId(id), `${what}: generated ${id}, which is on the page`);
            registered.add(id);
            names.add(id);
            latest = id;
            return id;
        };
        // an element whose identifier went to a later one is no longer looked at
        const present = (tag) => !tag.gone && page.byId(tag.id) !== null;
        const build = (what, parent, append) => {
            serial += 1;
            const id = fresh.length ? fresh.pop() : serial % 2 ? generate(what) : `own-${serial}`;
            for (const earlier of built) if (earlier.id === id) earlier.gone = true;
            const tag = { id, text: `text${serial}`, count: 0, kind: KINDS[serial % KINDS.length], class: serial % 2 ? `class${serial} more` : '', name: ['div', 'span', 'strong'][serial % 3] };
            const builder = new t.TagBuilder(tag.name).setTagId(id).setTagContent(tag.text).setTagCallback(tag.kind, () => { tag.count += 1; });
            if (tag.class) builder.setTagClass(tag.class);
            const host = page.byId(parent.id);
            const before = host.children.map((c) => c.id);
            // text that was there goes as well when the content is replaced
            const text = host.textContent;
            tag.handle = builder.buildInto(parent.handle, append);
            registered.add(id);
            const after = page.byId(parent.id).children.map((c) => c.id);
            const want = append ? [...before, id] : [id];
            demand(JSON.stringify(after) === JSON.stringify(want), () => `${what}: the children are ${after}, expected ${want}`);
            const wanted = append ? text + tag.text : tag.text;
            demand(page.byId(parent.id).textContent === wanted, () => `${what}: the text is ${page.byId(parent.id).textContent}, expected ${wanted}`);
            if (!append) {
                const owner = built.find((b) => b.handle === parent.handle);
                if (owner) owner.text = '';
            }
            built.push(tag);
        };
        const check = (what) => {
            stats.step();
            for (const tag of built) {
                if (!present(tag)) continue;
                const element = page.byId(tag.id);
                demand(element.localName === tag.name && element.className === tag.class, `${what}: ${tag.id} is a ${element.localName} of class ${element.className}`);
                demand(element.textContent.startsWith(tag.text), `${what}: ${tag.id} contains ${element.textContent}`);
                for (const kind of KINDS) {
                    const before = built.map((b) => b.count);
                    page.send(element, kind.slice(2));
                    // the ancestors notice it as well, nobody else does
                    built.forEach((other, i) => {
                        const notices = other.kind === kind && present(other) && (other === tag || (!['onmouseenter', 'onmouseleave'].includes(kind) && page.byId(other.id).contains(element)));
                        demand(other.count === before[i] + (notices ? 1 : 0), `${what}: ${kind} of ${tag.id} is noticed ${other.count - before[i]} times by ${other.id}`);
                    });
                }
            }
            stats.state(`${[...registered].sort()}|${page.document.body.innerHTML}`);
        };
        history.forEach((operation, k) => {
            const what = `after ${history.slice(0, k + 1).join(', ')}`;
            const [kind, which, how] = operation.split(' ');
            const tag = which === 'first' ? built[0] : which === 'last' ? built[built.length - 1] : null;
            if (tag?.gone) return;
            if (kind === 'generate') {
                fresh.push(generate(what));
            } else if (kind === 'into') {
                const parent = tag ?? { id: which, handle: handles[which] };
                build(what, parent, how !== 'alone');
            } else if (kind === 'remove') {
                page.byId(tag.id).remove();
            } else if (kind === 'drop') {
                const want = registered.has(tag.id) && !present(tag);
                const got = t.dropTagFromApplication(tag.id);
                demand(got === want, `${what}: dropping ${tag.id} gives ${got}`);
                if (want) registered.delete(tag.id);
            } else if (kind === 'get') {
                if (present(tag)) {
                    demand(tag.handle.getter() === page.byId(tag.id), `${what}: another element than ${tag.id}`);
                } else {
                    const e = refused(() => tag.handle.getter());
                    demand(e && String(e.message).includes(tag.id), `${what}: the missing ${tag.id} gives ${e?.message}`);
                    registered.delete(tag.id);
                }
            } else {
                // the identifiers that look as if they were the next ones to be generated
                if (which === 'next') {
                    for (let i = 1; i <= 2; i += 1) {
                        const id = latest.replace(/\d+$/, (n) => String(Number(n) + i));
                        if (id === latest || registered.has(id)) continue;
                        demand(!refused(() => t.registerElementId(id)), `${what}: registering ${id} is refused`);
                        registered.add(id);
                        names.add(id);
                    }
                    check(what);
                    return;
                }
                const id = tag?.id ?? 'plain';
                const e = refused(() => { const h = t.registerElementId(id); if (!tag) handles[id] = h; });
                demand(registered.has(id) === (e !== null), `${what}: registering ${id} ${e ? 'is refused' : 'is accepted'}`);
                if (e) demand(String(e.message).includes(id), `${what}: the refusal is ${e.message}`);
                registered.add(id);
            }
            check(what);
        });
        // the register is what the history makes of it
        for (const id of ['here', 'there', 'plain', ...built.map((b) => b.id), ...names]) {
            const e = refused(() => t.registerElementId(id));
            demand(registered.has(id) === (e !== null), `at last: registering ${id} ${e ? 'is refused' : 'is accepted'}`);
            registered.add(id);
        }
        for (let i = 0; i < 3; i += 1) generate('at last');
        for (const [id, handle] of Object.entries(handles)) {
            const element = page.byId(id);
            if (element) demand(handle.getter() === element, `at last: another element than ${id}`);
            else demand(refused(() => handle.getter()), `at last: the missing ${id} is found`);
        }
        stats.outcome(`${built.filter(present).length} of ${built.length} present`);
    };
    // Whether the operations can be carried out: the parent is on the page, there is a first element.
    const possible = (history) => {
        let page = [];
        const built = [];
        const parents = new Map();
        const drop = (id) => {
            page = page.filter((e) => e !== id);
            for (const [child, parent] of parents) if (parent === id && page.includes(child)) drop(child);
        };
        for (const operation of history) {
            const [kind, which, how] = operation.split(' ');
            const tag = which === 'first' ? built[0] : which === 'last' ? built[built.length - 1] : null;
            if ((which === 'first' || which === 'last') && tag === undefined) return false;
            if (which === 'last' && built.length === 1) return false;
            if (kind === 'into') {
                if (tag !== null && !page.includes(tag)) return false;
                if (how === 'alone') for (const e of [...page]) if (parents.get(e) === (tag ?? which)) drop(e);
                const id = built.length;
                built.push(id);
                page.push(id);
                parents.set(id, tag ?? which);
            } else if (kind === 'remove') {
                if (!page.includes(tag)) return false;
                drop(tag);
            }
        }
        return true;
    };
    for (const variant of VARIANTS) {
        for (let length = 1; length <= space.pick(4, 6); length += 1) {
            const visit = (history) => {
                if (!possible(history)) return;
                if (history.length === length) {
                    space.case(() => `${variant}: ${history.join(', ')}`, (stats) => run(variant, history, stats));
                    return;
                }
                for (const operation of operations) visit([...history, operation]);
            };
            visit([]);
        }
    }
}

// ---------------------------------------------------------------- U04

function messages(space) {
    prepare();
    const kinds = ['print', 'warn', 'error'];
    const texts = ['ready', 'a < b & "c" <b>d</b>', '', 'WARNING: two words'];
    const steps = kinds.length * texts.length + 2;
    const run = (variant, history, stats) => {
        const page = new Page(variant);
        const colours = {};
        let want = null;
        for (const [k, step] of history.entries()) {
            const line = page.byId('debug-ribbon');
            if (step >= kinds.length * texts.length) {
                // what the side panel says is replaced by the next message as well
                page.click(page.byId(step % 2 ? 'files-tab' : 'model-tab'));
                stats.step();
                want = null;
                continue;
            }
            const kind = kinds[step % kinds.length];
            const text = texts[Math.floor(step / kinds.length)];
            page.modules.debugRibbon.DebugRibbon[kind](text);
            stats.step();
            want = { print: '', warn: 'WARNING: ', error: 'ERROR: ' }[kind] + text;
            const what = `after ${k + 1} messages, ${kind} of ${JSON.stringify(text)}`;
            demand(page.byId('debug-ribbon') === line, `${what}: the ribbon was replaced`);
            demand(line.textContent === want, () => `${what}: the ribbon shows ${JSON.stringify(line.textContent)}`);
            demand(line.children.length === 0, `${what}: the text is taken for markup`);
            const colour = line.style.color;
            demand((colours[kind] ?? colour) === colour, `${what}: the colour is ${colour}, before ${colours[kind]}`);
            demand(Object.entries(colours).every(([other, c]) => other === kind || c !== colour), `${what}: the colour ${colour} stands for another kind`);
            colours[kind] = colour;
            stats.state(`${kind}|${line.outerHTML}`);
        }
        stats.outcome(want === null ? 'nothing at last' : 'a message at last');
    };
    for (const variant of VARIANTS) {
        for (let length = 1; length <= space.pick(3, 4); length += 1) {
            space.product(steps, length, (d) => {
                space.case(() => `${variant}: ${d}`, (stats) => run(variant, d, stats));
            });
        }
    }
}

// The modules look for the elements of the page when they are loaded.
const MARKUP_OF_PAGE = (markup) => markup.replace('<body>', '<body><i id="files-tab"></i><i id="model-tab"></i><i id="left-ribbon"></i><i id="debug-ribbon"></i><i id="proj-tabs-bar"></i>');

const properties = {
    U01: {
        run: panels,
        space: 'every sequence of up to 7 (9 thorough) clicks on the two headings of the side panel, entries added to the panel that is shown, and clicks on all of its entries, on the page of the tree with the modules compiled from the sources and with the committed ones',
        assumptions: ['files are added to the list while it is shown', 'the document is a stand-in that parses, serializes and dispatches like a browser as far as the page uses it'],
    },
    U02: {
        run: tabs,
        space: 'every sequence of up to 7 (8 thorough) actions that can be carried out: files listed, opened, their tabs clicked and closed, and the side panel switched, with up to three files of plain and of awkward names; at the end every tab is closed and every file opened again',
        assumptions: ['file names are distinct', 'the document is a stand-in that parses, serializes and dispatches like a browser as far as the page uses it'],
    },
    U03: {
        run: elements,
        space: 'every sequence of up to 4 (6 thorough) operations that can be carried out: identifiers generated, registered and dropped, elements built into containers and into each other, appended or alone, looked up and removed; after each operation every kind of event is sent to every element',
        assumptions: ['an element is not built with the identifier of one on the page', 'the document is a stand-in that parses, serializes and dispatches like a browser as far as the page uses it'],
    },
    U04: {
        run: messages,
        space: 'every sequence of up to 3 (4 thorough) messages of three kinds and four texts, mixed with clicks on the headings of the side panel',
        assumptions: ['the document is a stand-in that parses, serializes and dispatches like a browser as far as the page uses it'],
    },
};

if (isMainThread) prepare();
await main(properties, import.meta.url);
