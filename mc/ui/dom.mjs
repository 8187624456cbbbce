// A document of elements that behaves as far as the page of Ngineer can tell like a browser's: elements
// built from markup are new elements without handlers, `innerHTML` serializes and parses, handlers run
// on the target and on its ancestors. No layout, no scripts.

const VOID = new Set(['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'source', 'track', 'wbr']);
const RAW = new Set(['script', 'style', 'textarea', 'title']);

const escapeText = (s) => s.replace(/&/g, '&amp;').replace(/\u00a0/g, '&nbsp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');
const escapeAttribute = (s) => s.replace(/&/g, '&amp;').replace(/\u00a0/g, '&nbsp;').replace(/"/g, '&quot;');
const ENTITIES = { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'", nbsp: '\u00a0' };
const decode = (s) => (s.includes('&')
    ? s.replace(/&(#x[0-9a-fA-F]+|#[0-9]+|[a-z]+);/g, (all, name) => {
        if (name[0] === '#') {
            return String.fromCodePoint(name[1] === 'x' ? parseInt(name.slice(2), 16) : parseInt(name.slice(1), 10));
        }
        return ENTITIES[name] ?? all;
    })
    : s);

const kebab = (name) => name.replace(/[A-Z]/g, (c) => '-' + c.toLowerCase());
const camel = (name) => name.replace(/-([a-z])/g, (_, c) => c.toUpperCase());

class Node {
    constructor(owner) {
        this.ownerDocument = owner;
        this.parentNode = null;
        this.childNodes = [];
        this.listeners = null;
    }

    get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
    get firstChild() { return this.childNodes[0] ?? null; }
    get lastChild() { return this.childNodes[this.childNodes.length - 1] ?? null; }
    get children() { return this.childNodes.filter((c) => c instanceof Element); }
    get childElementCount() { return this.children.length; }
    get firstElementChild() { return this.children[0] ?? null; }
    get lastElementChild() { const all = this.children; return all[all.length - 1] ?? null; }
    get nextSibling() { return this.sibling(1, false); }
    get previousSibling() { return this.sibling(-1, false); }
    get nextElementSibling() { return this.sibling(1, true); }
    get previousElementSibling() { return this.sibling(-1, true); }
    get isConnected() { return this.getRootNode() === this.ownerDocument || this === this.ownerDocument; }

    sibling(step, elements) {
        if (!this.parentNode) return null;
        const all = elements ? this.parentNode.children : this.parentNode.childNodes;
        return all[all.indexOf(this) + step] ?? null;
    }

    getRootNode() {
        let node = this;
        while (node.parentNode) node = node.parentNode;
        return node;
    }

    hasChildNodes() { return this.childNodes.length > 0; }

    contains(other) {
        for (let node = other; node; node = node.parentNode) {
            if (node === this) return true;
        }
        return false;
    }

    insertBefore(node, before) {
        if (node.contains(this)) throw new DomError('HierarchyRequestError');
        if (before && before.parentNode !== this) throw new DomError('NotFoundError');
        if (node instanceof Fragment) {
            for (const child of [...node.childNodes]) this.insertBefore(child, before);
            return node;
        }
        if (node === before) return node;
        if (node.parentNode) node.parentNode.removeChild(node);
        const at = before ? this.childNodes.indexOf(before) : this.childNodes.length;
        this.childNodes.splice(at, 0, node);
        node.parentNode = this;
        return node;
    }

    appendChild(node) {
        if (!(node instanceof Node)) throw new TypeError('not a node');
        return this.insertBefore(node, null);
    }

    removeChild(node) {
        const at = node instanceof Node ? this.childNodes.indexOf(node) : -1;
        if (!(node instanceof Node)) throw new TypeError('not a node');
        if (at < 0) throw new DomError('NotFoundError');
        this.childNodes.splice(at, 1);
        node.parentNode = null;
        return node;
    }

    replaceChild(node, old) {
        const after = old.nextSibling;
        this.removeChild(old);
        this.insertBefore(node, after === node ? node.nextSibling : after);
        return old;
    }

    asNode(item) { return item instanceof Node ? item : this.ownerDocument.createTextNode(String(item)); }
    append(...items) { for (const item of items) this.appendChild(this.asNode(item)); }
    prepend(...items) {
        const first = this.firstChild;
        for (const item of items) this.insertBefore(this.asNode(item), first);
    }
    replaceChildren(...items) {
        const nodes = items.map((item) => this.asNode(item));
        for (const child of [...this.childNodes]) this.removeChild(child);
        this.append(...nodes);
    }
    remove() { if (this.parentNode) this.parentNode.removeChild(this); }
    before(...items) { for (const item of items) this.parentNode.insertBefore(this.asNode(item), this); }
    after(...items) {
        const next = this.nextSibling;
        for (const item of items) this.parentNode.insertBefore(this.asNode(item), next);
    }
    replaceWith(...items) {
        const parent = this.parentNode;
        if (!parent) return;
        const next = this.nextSibling;
        this.remove();
        for (const item of items) parent.insertBefore(this.asNode(item), next);
    }

    get textContent() { return this.childNodes.map((c) => (c instanceof Comment ? '' : c.textContent)).join(''); }
    set textContent(text) {
        this.replaceChildren();
        if (text !== '' && text !== null && text !== undefined) this.append(String(text));
    }
    get nodeValue() { return null; }

    *descendants() {
        for (const child of this.childNodes) {
            yield child;
            yield* child.descendants();
        }
    }

    querySelectorAll(selector) {
        const found = [];
        for (const node of this.descendants()) {
            if (node instanceof Element && node.matches(selector)) found.push(node);
        }
        return found;
    }
    querySelector(selector) { return this.querySelectorAll(selector)[0] ?? null; }
    getElementsByClassName(name) { return this.querySelectorAll(name.trim().split(/\s+/).map((c) => '.' + c).join('')); }
    getElementsByTagName(name) { return this.querySelectorAll(name); }

    addEventListener(type, listener, options) {
        if (!listener) return;
        this.listeners ??= [];
        if (this.listeners.some((l) => l.type === type && l.listener === listener)) return;
        this.listeners.push({ type, listener, once: typeof options === 'object' && !!options?.once });
    }
    removeEventListener(type, listener) {
        this.listeners = (this.listeners ?? []).filter((l) => l.type !== type || l.listener !== listener);
    }

    dispatchEvent(event) {
        event.target = this;
        // The path is fixed before the first handler runs, as in a browser.
        const path = [];
        for (let node = this; node; node = node.parentNode) path.push(node);
        for (const node of event.bubbles === false ? path.slice(0, 1) : path) {
            event.currentTarget = node;
            const handler = node['on' + event.type];
            if (typeof handler === 'function') handler.call(node, event);
            for (const entry of [...(node.listeners ?? [])]) {
                if (entry.type !== event.type) continue;
                if (entry.once) node.removeEventListener(entry.type, entry.listener);
                if (typeof entry.listener === 'function') entry.listener.call(node, event);
                else entry.listener.handleEvent(event);
                if (event.stoppedNow) return true;
            }
            if (event.stopped) break;
        }
        return true;
    }
}

export class DomError extends Error {
    constructor(name) {
        super(name);
        this.name = name;
    }
}

export class Event {
    constructor(type, options) {
        this.type = type;
        this.bubbles = options?.bubbles ?? false;
        this.target = null;
        this.currentTarget = null;
        this.stopped = false;
        this.stoppedNow = false;
        this.defaultPrevented = false;
        this.button = 0;
    }
    stopPropagation() { this.stopped = true; }
    stopImmediatePropagation() { this.stopped = true; this.stoppedNow = true; }
    preventDefault() { this.defaultPrevented = true; }
}

class Text extends Node {
    constructor(owner, data) {
        super(owner);
        this.data = data;
        this.nodeType = 3;
        this.nodeName = '#text';
    }
    get textContent() { return this.data; }
    set textContent(text) { this.data = String(text); }
    get nodeValue() { return this.data; }
    set nodeValue(text) { this.data = String(text); }
    cloneNode() { return new Text(this.ownerDocument, this.data); }
}

class Comment extends Node {
    constructor(owner, data) {
        super(owner);
        this.data = data;
        this.nodeType = 8;
        this.nodeName = '#comment';
    }
    get textContent() { return this.data; }
    cloneNode() { return new Comment(this.ownerDocument, this.data); }
}

class Fragment extends Node {
    constructor(owner) {
        super(owner);
        this.nodeType = 11;
        this.nodeName = '#document-fragment';
    }
    cloneNode(deep) {
        const copy = new Fragment(this.ownerDocument);
        if (deep) for (const child of this.childNodes) copy.appendChild(child.cloneNode(true));
        return copy;
    }
    getElementById(id) { return findById(this, id); }
}

function findById(root, id) {
    if (id === '') return null;
    for (const node of root.descendants()) {
        if (node instanceof Element && node.attributes_.get('id') === id) return node;
    }
    return null;
}

function matchesSimple(element, part) {
    const pattern = /^(\*|[a-zA-Z][\w-]*)?((?:#(?:\\.|[^\s#.\[:])+|\.(?:\\.|[^\s#.\[:])+|\[[^\]]*\])*)$/;
    const parsed = pattern.exec(part);
    if (!parsed) throw new DomError('SyntaxError');
    if (parsed[1] && parsed[1] !== '*' && parsed[1].toLowerCase() !== element.localName) return false;
    for (const piece of (parsed[2] ?? '').match(/#(?:\\.|[^\s#.\[:])+|\.(?:\\.|[^\s#.\[:])+|\[[^\]]*\]/g) ?? []) {
        const plain = piece.slice(1).replace(/\\(.)/g, '$1');
        if (piece[0] === '#' && element.id !== plain) return false;
        if (piece[0] === '.' && !element.classList.contains(plain)) return false;
        if (piece[0] === '[') {
            const [, name, , value] = /^\[\s*([\w-]+)\s*(=\s*["']?([^"'\]]*)["']?)?\s*\]$/.exec(piece) ?? [];
            if (name === undefined || !element.hasAttribute(name)) return false;
            if (value !== undefined && element.getAttribute(name) !== value) return false;
        }
    }
    return true;
}

function matchesComplex(element, parts) {
    const last = parts[parts.length - 1];
    if (!matchesSimple(element, last)) return false;
    if (parts.length === 1) return true;
    const rest = parts.slice(0, -1);
    if (rest[rest.length - 1] === '>') {
        const parent = element.parentElement;
        return !!parent && matchesComplex(parent, rest.slice(0, -1));
    }
    for (let up = element.parentElement; up; up = up.parentElement) {
        if (matchesComplex(up, rest)) return true;
    }
    return false;
}

export class Element extends Node {
    constructor(owner, name) {
        super(owner);
        this.localName = name.toLowerCase();
        this.tagName = name.toUpperCase();
        this.nodeName = this.tagName;
        this.nodeType = 1;
        this.attributes_ = new Map();
        this.style_ = null;
    }

    get id() { return this.attributes_.get('id') ?? ''; }
    set id(value) { this.attributes_.set('id', String(value)); }
    get className() { return this.attributes_.get('class') ?? ''; }
    set className(value) { this.attributes_.set('class', String(value)); }
    get title() { return this.attributes_.get('title') ?? ''; }
    set title(value) { this.attributes_.set('title', String(value)); }
    get hidden() { return this.attributes_.has('hidden'); }
    set hidden(value) { if (value) this.attributes_.set('hidden', ''); else this.attributes_.delete('hidden'); }
    getAttribute(name) { return this.attributes_.get(name.toLowerCase()) ?? null; }
    setAttribute(name, value) { this.attributes_.set(name.toLowerCase(), String(value)); }
    removeAttribute(name) { this.attributes_.delete(name.toLowerCase()); }
    hasAttribute(name) { return this.attributes_.has(name.toLowerCase()); }
    getAttributeNames() { return [...this.attributes_.keys()]; }
    toggleAttribute(name, force) {
        const on = force ?? !this.hasAttribute(name);
        if (on) this.setAttribute(name, ''); else this.removeAttribute(name);
        return on;
    }

    get classList() {
        const element = this;
        const list = () => element.className.split(/\s+/).filter((c) => c !== '');
        const store = (names) => { element.className = names.join(' '); };
        return {
            get length() { return list().length; },
            contains: (name) => list().includes(name),
            add: (...names) => store([...new Set([...list(), ...names])]),
            remove: (...names) => store(list().filter((c) => !names.includes(c))),
            toggle(name, force) {
                const on = force ?? !list().includes(name);
                if (on) this.add(name); else this.remove(name);
                return on;
            },
            replace(a, b) {
                if (!list().includes(a)) return false;
                store(list().map((c) => (c === a ? b : c)));
                return true;
            },
            [Symbol.iterator]: () => list()[Symbol.iterator](),
        };
    }

    get dataset() {
        const element = this;
        return new Proxy({}, {
            get: (_, key) => (typeof key === 'string' ? element.attributes_.get('data-' + kebab(key)) : undefined),
            set: (_, key, value) => { element.attributes_.set('data-' + kebab(key), String(value)); return true; },
            has: (_, key) => element.attributes_.has('data-' + kebab(String(key))),
            deleteProperty: (_, key) => { element.attributes_.delete('data-' + kebab(String(key))); return true; },
        });
    }

    get style() {
        if (this.style_) return this.style_;
        const element = this;
        const read = () => {
            const map = new Map();
            for (const part of (element.attributes_.get('style') ?? '').split(';')) {
                const at = part.indexOf(':');
                if (at > 0) map.set(part.slice(0, at).trim(), part.slice(at + 1).trim());
            }
            return map;
        };
        const store = (map) => {
            if (map.size === 0) element.attributes_.delete('style');
            else element.attributes_.set('style', [...map].map(([k, v]) => `${k}: ${v};`).join(' '));
        };
        const put = (name, value) => {
            const map = read();
            if (value === '' || value === null) map.delete(name);
            else map.set(name, String(value));
            store(map);
        };
        const methods = {
            setProperty: (name, value) => put(name, value),
            getPropertyValue: (name) => read().get(name) ?? '',
            removeProperty: (name) => { const old = read().get(name) ?? ''; put(name, ''); return old; },
        };
        this.style_ = new Proxy(methods, {
            get(_, key) {
                if (key in methods) return methods[key];
                if (key === 'cssText') return element.attributes_.get('style') ?? '';
                if (typeof key !== 'string') return undefined;
                return read().get(kebab(key)) ?? '';
            },
            set(_, key, value) {
                if (key === 'cssText') element.attributes_.set('style', String(value));
                else put(kebab(key), value);
                return true;
            },
        });
        return this.style_;
    }
    set style(text) { this.attributes_.set('style', String(text)); }

    matches(selector) {
        return selector.split(',').some((one) => matchesComplex(this, one.trim().replace(/\s*>\s*/g, ' > ').split(/\s+/)));
    }
    closest(selector) {
        for (let node = this; node; node = node.parentElement) {
            if (node.matches(selector)) return node;
        }
        return null;
    }

    // What a template holds is apart from the page.
    get content() {
        if (this.localName !== 'template') return undefined;
        this.content_ ??= new Fragment(this.ownerDocument);
        return this.content_;
    }
    get innerHTML() { return (this.content ?? this).childNodes.map(serialize).join(''); }
    set innerHTML(markup) {
        // The old children leave the page, whatever the markup is.
        const nodes = parse(this.ownerDocument, String(markup ?? ''));
        (this.content ?? this).replaceChildren(...nodes);
    }
    get outerHTML() { return serialize(this); }
    set outerHTML(markup) { this.replaceWith(...parse(this.ownerDocument, String(markup))); }
    get innerText() { return this.textContent; }
    set innerText(text) { this.textContent = text; }

    insertAdjacentHTML(where, markup) { this.insertAt(where, parse(this.ownerDocument, String(markup))); }
    insertAdjacentElement(where, element) { this.insertAt(where, [element]); return element; }
    insertAdjacentText(where, text) { this.insertAt(where, [this.ownerDocument.createTextNode(text)]); }
    insertAt(where, nodes) {
        switch (where.toLowerCase()) {
        case 'beforeend': this.append(...nodes); break;
        case 'afterbegin': this.prepend(...nodes); break;
        case 'beforebegin': this.before(...nodes); break;
        case 'afterend': this.after(...nodes); break;
        default: throw new DomError('SyntaxError');
        }
    }

    cloneNode(deep) {
        const copy = new Element(this.ownerDocument, this.localName);
        for (const [name, value] of this.attributes_) copy.attributes_.set(name, value);
        if (deep) for (const child of this.childNodes) copy.appendChild(child.cloneNode(true));
        return copy;
    }

    click() { this.dispatchEvent(new Event('click', { bubbles: true })); }
    focus() {}
    blur() {}
    scrollIntoView() {}
}
// A browser has a null in every handler that was not set.
for (const type of ['click', 'mouseover', 'mouseenter', 'mouseleave', 'mouseup', 'mousedown', 'dblclick', 'input', 'change', 'keydown', 'keyup']) {
    Element.prototype['on' + type] = null;
}

function serialize(node) {
    if (node instanceof Text) {
        return RAW.has(node.parentNode?.localName) && !['textarea', 'title'].includes(node.parentNode.localName)
            ? node.data
            : escapeText(node.data);
    }
    if (node instanceof Comment) return `<!--${node.data}-->`;
    const attributes = [...node.attributes_].map(([k, v]) => ` ${k}="${escapeAttribute(v)}"`).join('');
    if (VOID.has(node.localName)) return `<${node.localName}${attributes}>`;
    return `<${node.localName}${attributes}>${node.childNodes.map(serialize).join('')}</${node.localName}>`;
}

function parse(owner, markup) {
    const root = new Fragment(owner);
    let current = root;
    let at = 0;
    const text = (raw) => {
        if (raw === '') return;
        const last = current.lastChild;
        if (last instanceof Text) last.data += raw;
        else current.appendChild(new Text(owner, raw));
    };
    while (at < markup.length) {
        const open = markup.indexOf('<', at);
        if (open < 0) { text(decode(markup.slice(at))); break; }
        text(decode(markup.slice(at, open)));
        at = open;
        if (markup.startsWith('<!--', at)) {
            const end = markup.indexOf('-->', at + 4);
            current.appendChild(new Comment(owner, markup.slice(at + 4, end < 0 ? undefined : end)));
            at = end < 0 ? markup.length : end + 3;
            continue;
        }
        if (/^<[!?]/.test(markup.slice(at, at + 2))) {
            const end = markup.indexOf('>', at);
            at = end < 0 ? markup.length : end + 1;
            continue;
        }
        const closing = /^<\/([a-zA-Z][^\s/>]*)[^>]*>/.exec(markup.slice(at));
        if (closing) {
            const name = closing[1].toLowerCase();
            for (let node = current; node !== root; node = node.parentNode) {
                if (node.localName === name) { current = node.parentNode; break; }
            }
            at += closing[0].length;
            continue;
        }
        const start = /^<([a-zA-Z][^\s/>]*)/.exec(markup.slice(at));
        if (!start) { text('<'); at += 1; continue; }
        at += start[0].length;
        const element = new Element(owner, start[1]);
        let selfClosed = false;
        for (;;) {
            const space = /^[\s/]*/.exec(markup.slice(at))[0];
            at += space.length;
            if (at >= markup.length) break;
            if (markup[at] === '>') { selfClosed = space.endsWith('/'); at += 1; break; }
            const attribute = /^([^\s=>/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>"']*)))?/.exec(markup.slice(at));
            if (!attribute) { at += 1; continue; }
            at += attribute[0].length;
            const name = attribute[1].toLowerCase();
            const value = decode(attribute[2] ?? attribute[3] ?? attribute[4] ?? '');
            if (!element.attributes_.has(name)) element.attributes_.set(name, value);
        }
        current.appendChild(element);
        if (VOID.has(element.localName)) continue;
        if (RAW.has(element.localName)) {
            const end = markup.toLowerCase().indexOf('</' + element.localName, at);
            const body = markup.slice(at, end < 0 ? undefined : end);
            if (body !== '') element.appendChild(new Text(owner, body));
            at = end < 0 ? markup.length : markup.indexOf('>', end) + 1;
            continue;
        }
        void selfClosed; // has no meaning in HTML
        current = element;
    }
    const nodes = [...root.childNodes];
    for (const node of nodes) root.removeChild(node);
    return nodes;
}

export class Document extends Node {
    constructor(markup) {
        super(null);
        this.ownerDocument = this;
        this.nodeType = 9;
        this.nodeName = '#document';
        this.readyState = 'complete';
        for (const node of parse(this, markup)) this.appendChild(node);
    }
    get documentElement() { return this.children.find((c) => c.localName === 'html') ?? null; }
    get body() { return this.documentElement?.children.find((c) => c.localName === 'body') ?? null; }
    get head() { return this.documentElement?.children.find((c) => c.localName === 'head') ?? null; }
    getElementById(id) { return findById(this, String(id)); }
    createElement(name) { return new Element(this, name); }
    createTextNode(text) { return new Text(this, String(text)); }
    createComment(text) { return new Comment(this, String(text)); }
    createDocumentFragment() { return new Fragment(this); }
}
Object.assign(Document.prototype, { defaultView: null });

export { Node, Text, Comment, Fragment, camel };
