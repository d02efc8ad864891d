// A small browser: enough DOM, parsing, events, location and history for the
// UI and its React to run in a node vm, with every request held until answered.
import vm from "node:vm";

const VOID = new Set(["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"]);
const RAW = new Set(["script", "style", "textarea", "title"]);
const NAMED = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0", ldquo: "\u201c", rdquo: "\u201d", copy: "\u00a9" };

function decode(s) {
    return s.replace(/&(#x[0-9a-fA-F]+|#[0-9]+|[a-zA-Z]+);?/g, (all, n) => {
        if (n[0] === "#") {
            const c = n[1] === "x" ? parseInt(n.slice(2), 16) : parseInt(n.slice(1), 10);
            return c > 0x10ffff ? "\ufffd" : String.fromCodePoint(c || 0xfffd);
        }
        if (!NAMED.hasOwnProperty(n)) {
            // browsers also take these without a semicolon, whatever follows
            const m = /^(amp|lt|gt|quot|nbsp|copy)/.exec(n);
            return m && !all.endsWith(";") ? NAMED[m[1]] + all.slice(1 + m[1].length) : m ? NAMED[m[1]] + all.slice(1 + m[1].length) : all;
        }
        return NAMED[n];
    });
}

const escText = (s) => s.replace(/&/g, "&amp;").replace(/\u00a0/g, "&nbsp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
const escAttr = (s) => s.replace(/&/g, "&amp;").replace(/\u00a0/g, "&nbsp;").replace(/"/g, "&quot;");

export function makeWindow(href) {
    const win = {};
    let active = null;

    class EventTarget {
        constructor() { Object.defineProperty(this, "_l", { value: [], enumerable: false }); }
        addEventListener(type, f, cap) { this._l.push({ type, f, cap: !!(cap && cap.capture !== undefined ? cap.capture : cap) }); }
        removeEventListener(type, f) { const i = this._l.findIndex((l) => l.type === type && l.f === f); if (i >= 0) this._l.splice(i, 1); }
        dispatchEvent(ev) {
            ev.target = ev.target || this;
            ev.srcElement = ev.target;
            const path = [];
            for (let n = this; n; n = n.parentNode) path.push(n);
            if (path[path.length - 1] === win.document) path.push(win);
            const call = (n, cap) => {
                ev.currentTarget = n;
                for (const l of [...n._l]) if (l.type === ev.type && l.cap === cap) typeof l.f === "function" ? l.f.call(n, ev) : l.f.handleEvent(ev);
                if (!cap && typeof n["on" + ev.type] === "function") n["on" + ev.type](ev);
            };
            for (const n of [...path].reverse()) { if (ev._stop) break; call(n, true); }
            for (const n of ev.bubbles || path[0] === win ? path : [path[0]]) { if (ev._stop) break; call(n, false); }
            return !ev.defaultPrevented;
        }
    }
    class Event {
        constructor(type, init) { Object.assign(this, { bubbles: true, cancelable: true, timeStamp: 1, defaultPrevented: false, eventPhase: 3 }, init); this.type = type; }
        preventDefault() { this.defaultPrevented = true; }
        stopPropagation() { this._stop = true; }
        stopImmediatePropagation() { this._stop = true; }
    }

    class Node extends EventTarget {
        constructor(type) { super(); this.nodeType = type; this.parentNode = null; this.childNodes = []; this.ownerDocument = win.document || null; }
        get parentElement() { return this.parentNode && this.parentNode.nodeType === 1 ? this.parentNode : null; }
        get firstChild() { return this.childNodes[0] || null; }
        get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
        get nextSibling() { if (!this.parentNode) return null; const c = this.parentNode.childNodes; return c[c.indexOf(this) + 1] || null; }
        get previousSibling() { if (!this.parentNode) return null; const c = this.parentNode.childNodes; return c[c.indexOf(this) - 1] || null; }
        get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n === win.document; }
        hasChildNodes() { return this.childNodes.length > 0; }
        appendChild(n) { return this.insertBefore(n, null); }
        append(...ns) { for (const n of ns) this.appendChild(typeof n === "string" ? new Text(n) : n); }
        insertBefore(n, ref) {
            if (n.nodeType === 11) { for (const c of [...n.childNodes]) this.insertBefore(c, ref); return n; }
            if (n.parentNode) n.parentNode.removeChild(n);
            const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
            if (i < 0) throw new Error("insertBefore: not a child");
            this.childNodes.splice(i, 0, n);
            n.parentNode = this;
            return n;
        }
        removeChild(n) {
            const i = this.childNodes.indexOf(n);
            if (i < 0) throw new Error("removeChild: not a child");
            this.childNodes.splice(i, 1);
            n.parentNode = null;
            return n;
        }
        replaceChild(n, old) { this.insertBefore(n, old); return this.removeChild(old); }
        remove() { if (this.parentNode) this.parentNode.removeChild(this); }
        contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
        compareDocumentPosition(n) { return this === n ? 0 : this.contains(n) ? 20 : n.contains(this) ? 10 : 4; }
        get textContent() { return this.childNodes.map((c) => (c.nodeType === 8 ? "" : c.textContent)).join(""); }
        set textContent(s) {
            for (const c of [...this.childNodes]) this.removeChild(c);
            s = s === null || s === undefined ? "" : String(s);
            if (s !== "") this.appendChild(new Text(s));
        }
        get innerText() { return this.textContent; }
        set innerText(s) { this.textContent = s; }
        cloneNode(deep) {
            const n = this.nodeType === 3 ? new Text(this.data) : new Element(this.localName);
            if (this.nodeType === 1) for (const k of Object.keys(this._a)) n.setAttribute(k, this._a[k]);
            if (deep) for (const c of this.childNodes) n.appendChild(c.cloneNode(true));
            return n;
        }
    }
    class Text extends Node {
        constructor(s) { super(3); this.data = String(s); }
        get nodeName() { return "#text"; }
        get nodeValue() { return this.data; }
        set nodeValue(s) { this.data = String(s); }
        get textContent() { return this.data; }
        set textContent(s) { this.data = String(s); }
    }
    class Comment extends Text {
        constructor(s) { super(s); this.nodeType = 8; }
        get nodeName() { return "#comment"; }
    }
    class Fragment extends Node { constructor() { super(11); } }

    const attrProp = (name) => ({
        get() { return this._a[name] === undefined ? "" : this._a[name]; },
        set(v) { this.setAttribute(name, v); },
        configurable: true,
    });
    class Element extends Node {
        constructor(name) {
            super(1);
            this.localName = name.toLowerCase();
            Object.defineProperty(this, "_a", { value: {}, enumerable: false });
            const st = { cssText: "", setProperty(n, v) { st[n] = v; }, getPropertyValue(n) { return st[n] || ""; }, removeProperty(n) { delete st[n]; } };
            this.style = st;
            this._v = undefined;
            this._c = undefined;
            this._s = undefined;
        }
        get tagName() { return this.localName.toUpperCase(); }
        get nodeName() { return this.tagName; }
        get nodeValue() { return null; }
        getAttribute(n) { n = n.toLowerCase(); return this._a[n] === undefined ? null : this._a[n]; }
        setAttribute(n, v) { this._a[n.toLowerCase()] = String(v); }
        hasAttribute(n) { return this._a[n.toLowerCase()] !== undefined; }
        removeAttribute(n) { delete this._a[n.toLowerCase()]; }
        getAttributeNode(n) { const v = this.getAttribute(n); return v === null ? null : { value: v, name: n }; }
        get attributes() { return Object.keys(this._a).map((name) => ({ name, value: this._a[name] })); }
        get children() { return this.childNodes.filter((c) => c.nodeType === 1); }
        get firstElementChild() { return this.children[0] || null; }
        get classList() {
            const el = this, list = () => el.className.split(/\s+/).filter(Boolean);
            return {
                contains: (c) => list().includes(c),
                add: (...cs) => { el.className = [...new Set([...list(), ...cs])].join(" "); },
                remove: (...cs) => { el.className = list().filter((c) => !cs.includes(c)).join(" "); },
                toggle(c) { this.contains(c) ? this.remove(c) : this.add(c); },
            };
        }
        get value() {
            if (this.localName === "select") { const o = this.options.find((x) => x.selected); return o ? o.value : ""; }
            if (this.localName === "option") return this._a.value === undefined ? this.textContent : this._a.value;
            if (this.localName === "textarea") return this._v === undefined ? this.textContent : this._v;
            return this._v === undefined ? this._a.value || "" : this._v;
        }
        set value(v) {
            if (this.localName === "select") for (const o of this.options) o.selected = o.value === String(v);
            else if (this.localName === "option") this._a.value = String(v);
            else this._v = v === null ? "" : String(v);
        }
        get checked() { return this._c === undefined ? this._a.checked !== undefined : this._c; }
        set checked(v) { this._c = !!v; }
        get selected() { return this._s === undefined ? this._a.selected !== undefined : this._s; }
        set selected(v) { this._s = !!v; }
        get multiple() { return this._a.multiple !== undefined; }
        set multiple(v) { v ? (this._a.multiple = "") : delete this._a.multiple; }
        get options() { return this.getElementsByTagName("option"); }
        get selectedOptions() { return this.options.filter((o) => o.selected); }
        get selectedIndex() { return this.options.findIndex((o) => o.selected); }
        get innerHTML() { return this.childNodes.map(serialize).join(""); }
        set innerHTML(s) {
            for (const c of [...this.childNodes]) this.removeChild(c);
            parse(String(s), this);
        }
        get outerHTML() { return serialize(this); }
        insertAdjacentHTML(where, s) {
            const tmp = new Element(this.localName);
            tmp.innerHTML = s;
            const at = { beforebegin: [this.parentNode, this], afterbegin: [this, this.firstChild], beforeend: [this, null], afterend: [this.parentNode, this.nextSibling] }[where];
            for (const c of [...tmp.childNodes]) at[0].insertBefore(c, at[1]);
        }
        getElementsByTagName(n) { return walk(this, (e) => n === "*" || e.localName === n.toLowerCase()); }
        getElementsByClassName(n) { return walk(this, (e) => e.classList.contains(n)); }
        querySelectorAll(q) { return select(this, q); }
        querySelector(q) { return select(this, q)[0] || null; }
        matches(q) { return select(win.document, q).includes(this); }
        closest(q) { for (let n = this; n && n.nodeType === 1; n = n.parentNode) if (n.matches(q)) return n; return null; }
        focus() {
            if (active === this) return;
            const old = active;
            active = this;
            if (old) old.dispatchEvent(new Event("blur", { bubbles: false, target: old, relatedTarget: this }));
            this.dispatchEvent(new Event("focus", { bubbles: false, target: this, relatedTarget: old }));
        }
        blur() { if (active === this) { active = null; this.dispatchEvent(new Event("blur", { bubbles: false, target: this })); } }
        click() { this.dispatchEvent(new Event("click", { target: this, button: 0 })); }
        getBoundingClientRect() { return { top: 0, left: 0, right: 0, bottom: 0, width: 0, height: 0 }; }
        scrollIntoView() {}
        setSelectionRange() {}
    }
    for (const [p, a] of [["className", "class"], ["id", "id"], ["href", "href"], ["src", "src"], ["title", "title"], ["target", "target"], ["rel", "rel"], ["type", "type"], ["name", "name"], ["htmlFor", "for"], ["placeholder", "placeholder"]])
        Object.defineProperty(Element.prototype, p, attrProp(a));

    function walk(root, f, out) {
        out = out || [];
        for (const c of root.childNodes) if (c.nodeType === 1) { if (f(c)) out.push(c); walk(c, f, out); }
        return out;
    }
    // select knows tag, #id, .class and [attr], descendants and lists
    function select(root, q) {
        const out = [];
        for (const alt of q.split(",")) {
            let cur = [root];
            for (const part of alt.trim().split(/[\s>]+/)) {
                const m = [...part.matchAll(/([#.]?)([\w-]+)|\[([\w-]+)(?:="?([^"\]]*)"?)?\]/g)];
                const ok = (e) => m.every(([, k, n, a, v]) => a ? (v === undefined ? e.hasAttribute(a) : e.getAttribute(a) === v) : k === "#" ? e.id === n : k === "." ? e.classList.contains(n) : e.localName === n);
                cur = [...new Set(cur.flatMap((r) => walk(r, ok)))];
            }
            out.push(...cur);
        }
        return out;
    }
    function serialize(n) {
        if (n.nodeType === 3) return n.parentNode && (n.parentNode.localName === "script" || n.parentNode.localName === "style") ? n.data : escText(n.data);
        if (n.nodeType === 8) return "<!--" + n.data + "-->";
        let s = "<" + n.localName + n.attributes.map((a) => " " + a.name + '="' + escAttr(a.value) + '"').join("") + ">";
        if (VOID.has(n.localName)) return s;
        return s + n.childNodes.map(serialize).join("") + "</" + n.localName + ">";
    }
    function parse(s, root) {
        let cur = root, i = 0, text = "";
        const flush = () => { if (text !== "") cur.appendChild(new Text(decode(text))); text = ""; };
        while (i < s.length) {
            if (s[i] !== "<") { text += s[i++]; continue; }
            const rest = s.slice(i);
            let m;
            if (rest.startsWith("<!--")) {
                flush();
                let e = s.indexOf("-->", i + 4);
                if (e < 0) e = s.length;
                cur.appendChild(new Comment(s.slice(i + 4, e)));
                i = e + 3;
            } else if (/^<[!?]/.test(rest) || /^<\/[^a-zA-Z]/.test(rest)) {
                flush();
                let e = s.indexOf(">", i);
                if (e < 0) e = s.length;
                if (!rest.startsWith("</>")) cur.appendChild(new Comment(s.slice(i + 1, e)));
                i = e + 1;
            } else if ((m = /^<\/([a-zA-Z][^\s\/>]*)[^>]*>?/.exec(rest))) {
                flush();
                i += m[0].length;
                const n = m[1].toLowerCase();
                for (let c = cur; c !== root.parentNode && c !== root; c = c.parentNode) if (c.localName === n) { cur = c.parentNode; break; }
            } else if ((m = /^<([a-zA-Z][^\s\/>]*)/.exec(rest))) {
                flush();
                const el = new Element(m[1]);
                i += m[0].length;
                let closed = false;
                while (i < s.length) {
                    const r = s.slice(i);
                    let a;
                    if ((a = /^[\s\/]+/.exec(r))) { i += a[0].length; continue; }
                    if (r[0] === ">") { i++; closed = true; break; }
                    a = /^([^\s\/>=][^\s\/>=]*|=[^\s\/>=]*)(\s*=\s*("[^"]*"?|'[^']*'?|[^\s>]*))?/.exec(r);
                    i += a[0].length;
                    let v = a[3] || "";
                    if (v[0] === '"' || v[0] === "'") v = v.slice(1, v.length > 1 && v[v.length - 1] === v[0] ? -1 : undefined);
                    if (!el.hasAttribute(a[1])) el.setAttribute(a[1], decode(v));
                }
                if (!closed) break; // an unfinished tag is dropped
                cur.appendChild(el);
                if (VOID.has(el.localName)) continue;
                if (RAW.has(el.localName)) {
                    const e = s.toLowerCase().indexOf("</" + el.localName, i);
                    const body = s.slice(i, e < 0 ? s.length : e);
                    if (body) el.appendChild(new Text(el.localName === "textarea" || el.localName === "title" ? decode(body) : body));
                    i = e < 0 ? s.length : s.indexOf(">", e) + 1 || s.length;
                    continue;
                }
                cur = el;
            } else text += s[i++];
        }
        flush();
    }

    const doc = new Node(9);
    win.document = doc;
    doc.ownerDocument = null;
    Object.assign(doc, {
        readyState: "complete",
        createElement: (n) => new Element(n),
        createElementNS: (_, n) => new Element(n),
        createTextNode: (s) => new Text(s),
        createComment: (s) => new Comment(s),
        createDocumentFragment: () => new Fragment(),
        createEvent: () => { const e = new Event(""); e.initEvent = (t, b, c) => { e.type = t; e.bubbles = b; e.cancelable = c; }; return e; },
        getElementById: (id) => walk(doc, (e) => e.id === id)[0] || null,
        getElementsByTagName: (n) => walk(doc, (e) => n === "*" || e.localName === n.toLowerCase()),
        getElementsByClassName: (n) => walk(doc, (e) => e.classList.contains(n)),
        querySelectorAll: (q) => select(doc, q),
        querySelector: (q) => select(doc, q)[0] || null,
        hasFocus: () => true,
        implementation: { hasFeature: () => true, createHTMLDocument: () => ({ createElement: (n) => new Element(n), body: new Element("body") }) },
        cookie: "",
        title: "",
    });
    doc.nodeName = "#document";
    const html = doc.appendChild(new Element("html"));
    doc.documentElement = html;
    doc.head = html.appendChild(new Element("head"));
    doc.body = html.appendChild(new Element("body"));
    doc.defaultView = win;
    Object.defineProperty(doc, "activeElement", { get: () => (active && active.isConnected ? active : doc.body) });
    // React looks for the handlers a browser knows
    for (const n of ["onclick", "oninput", "onchange", "onkeydown", "onkeyup", "onfocus", "onblur", "onwheel", "onsubmit", "onscroll"]) { doc[n] = null; Element.prototype[n] = null; }

    // location and history
    const stack = [{ state: null, url: new URL(href) }];
    let at = 0;
    const location = {
        assign(u) { win.navigated = String(u); },
        replace(u) { win.navigated = String(u); },
        reload() {},
        toString() { return this.href; },
    };
    for (const k of ["pathname", "search", "hash", "host", "hostname", "port", "protocol", "origin", "href"])
        Object.defineProperty(location, k, { get: () => stack[at].url[k], set: (v) => { win.navigated = k + "=" + v; }, enumerable: true });
    const history = {
        get length() { return stack.length; },
        get state() { return stack[at].state; },
        pushState(state, _, u) { stack.splice(at + 1); stack.push({ state, url: u === undefined || u === null ? stack[at].url : new URL(u, stack[at].url) }); at++; },
        replaceState(state, _, u) { stack[at] = { state, url: u === undefined || u === null ? stack[at].url : new URL(u, stack[at].url) }; },
        go(n) {
            if (!n || !stack[at + n]) return;
            at += n;
            EventTarget.prototype.dispatchEvent.call(win, new Event("popstate", { state: stack[at].state, target: win }));
        },
        back() { history.go(-1); },
        forward() { history.go(1); },
    };
    Object.defineProperty(win, "_l", { value: [] });
    for (const k of ["addEventListener", "removeEventListener", "dispatchEvent"]) win[k] = EventTarget.prototype[k].bind(win);
    const store = () => { const m = new Map(); return { getItem: (k) => (m.has(k) ? m.get(k) : null), setItem: (k, v) => void m.set(k, String(v)), removeItem: (k) => void m.delete(k) }; };
    Object.assign(win, {
        location, history, Event, Node, Element, HTMLElement: Element, Text,
        navigator: { userAgent: "minidom", platform: "none", language: "en" },
        console: { log() {}, warn() {}, info() {}, debug() {}, error(...a) { win.errors.push(a.map(String).join(" ")); } },
        errors: [],
        getSelection: () => ({ rangeCount: 0, removeAllRanges() {}, addRange() {} }),
        getComputedStyle: (e) => e.style,
        URL, URLSearchParams, TextEncoder, TextDecoder,
        localStorage: store(), sessionStorage: store(),
        pageXOffset: 0, pageYOffset: 0, scrollTo() {}, scrollX: 0, scrollY: 0, innerWidth: 1000, innerHeight: 1000,
        timers: [],
        setTimeout(f, ms, ...a) { win.timers.push(() => f(...a)); return win.timers.length; },
        clearTimeout(id) { if (id) win.timers[id - 1] = () => {}; },
        setInterval() { return 0; },
        clearInterval() {},
        requestAnimationFrame(f) { return win.setTimeout(f); },
        runTimers() { for (let n = 0; win.timers.some((t) => t) && n < 1000; n++) { const ts = win.timers; win.timers = ts.map(() => null); for (const t of ts) if (t) t(); } win.timers = []; },
    });
    win.window = win.self = win.top = win.parent = win;
    win.globalThis = win;
    vm.createContext(win);
    return win;
}
