// K04: the UI's own script with its own React on a small DOM, every request
// held until the harness answers it.
import fs from "node:fs";
import path from "node:path";
import vm from "node:vm";
import { fileURLToPath } from "node:url";
import { bundle, product, repo as root } from "./lib.mjs";
import { makeWindow } from "./minidom.mjs";

const here = path.dirname(fileURLToPath(import.meta.url));
const stubs = { reqwest: path.join(here, "stub_reqwest.mjs"), "merge-anything": path.join(here, "stub_merge.mjs") };
const scripts = {};
const call = new vm.Script("__call()");
function script(entry) {
    if (!scripts[entry]) {
        const d = path.join(root, "ui/assets/js");
        const src = entry === "react" ? fs.readFileSync(path.join(d, fs.readdirSync(d).find((f) => /^react-.*\.min\.js$/.test(f))), "utf8") : bundle(entry, stubs);
        scripts[entry] = new vm.Script(src, { filename: entry });
    }
    return scripts[entry];
}

// Page is one loaded page; do runs code in it and fails if it never returns.
export class Page {
    constructor(entry, search, repos, data, inline) {
        const win = (this.win = makeWindow("http://hound.example/" + (search || "")));
        this.pending = [];
        this.requests = [];
        win.__request = (o) => {
            const u = new URL(o.url, win.location.href);
            const q = {};
            for (const [k, v] of u.searchParams) q[k] = v;
            for (const k of Object.keys(o.data || {})) q[k] = String(o.data[k]);
            const r = { path: u.pathname, q, o };
            this.pending.push(r);
            this.requests.push(r);
            return { abort() {}, then() { return this; }, fail() { return this; }, always() { return this; } };
        };
        const div = win.document.createElement("div");
        div.setAttribute("id", "root");
        win.document.body.appendChild(div);
        if (data === undefined && repos) data = JSON.stringify(repos);
        if (data !== undefined) win.ModelData = data;
        for (const t of inline || []) this.run(new vm.Script(t));
        this.run(script("react"));
        this.run(script(entry));
    }
    run(s) { return s.runInContext(this.win, { timeout: 8000 }); }
    do(f) {
        let r;
        this.win.__call = () => { r = f(this.win); };
        this.run(call);
        this.win.__call = null;
        this.win.runTimers();
        return r;
    }
    $(q) { return this.win.document.querySelector(q); }
    answer(r, data) {
        this.pending = this.pending.filter((x) => x !== r);
        const d = JSON.parse(JSON.stringify(data));
        return this.do(() => r.o.success && r.o.success(d));
    }
    fail(r) {
        this.pending = this.pending.filter((x) => x !== r);
        return this.do(() => r.o.error && r.o.error({ status: 500, responseText: "" }, "error", new Error("500")));
    }
    type(q, text) {
        const e = this.$(q);
        this.do(() => { e.focus(); e.value = text; e.dispatchEvent(new this.win.Event("input", { target: e })); });
    }
    check(q, on) { const e = this.$(q); if (e.checked !== on) this.do(() => { e.checked = on; e.click(); e.dispatchEvent(new this.win.Event("change", { target: e })); }); }
    select(q, names) {
        const e = this.$(q);
        this.do(() => { for (const o of e.options) o.selected = names.includes(o.value); e.dispatchEvent(new this.win.Event("change", { target: e })); });
    }
    key(q, code) { const e = this.$(q); this.do(() => e.dispatchEvent(new this.win.Event("keydown", { target: e, keyCode: code, which: code }))); }
    click(e) { if (typeof e === "string") e = this.$(e); this.do(() => e.click()); }
}

const text = (e) => (e ? e.textContent : "");
const squash = (s) => s.replace(/\s+/g, " ").trim();

// look reads off the page what a user sees; it throws what is no inert text.
export function look(p) {
    const v = { repos: [] };
    const err = p.$("#no-result");
    if (err) {
        for (const e of err.querySelectorAll("*")) if (!["strong", "div", "img", "span"].includes(e.localName)) throw new Error("markup <" + e.localName + "> in a message");
        const t = squash(text(err));
        if (err.classList.contains("error")) v.error = t.replace(/^ERROR: ?/, "");
        else if (/Searching/.test(t)) v.busy = true;
        else v.none = true;
    }
    for (const r of p.win.document.querySelectorAll("#result .repo")) {
        const nm = r.querySelector(".name");
        const out = { name: plain(nm, ["span"]), files: [], open: !r.classList.contains("closed") };
        for (const f of r.querySelectorAll(".file")) {
            const a = f.querySelector(".title a");
            const fo = { name: plain(a, ["span"]), href: a.getAttribute("href"), badge: !!f.querySelector(".file-badge"), open: !f.classList.contains("closed"), blocks: [] };
            for (const m of f.querySelectorAll(".match")) {
                fo.blocks.push([...m.querySelectorAll(".line")].map((l) => {
                    const n = l.querySelector(".lnum"), val = l.querySelector(".lval");
                    const ems = [];
                    let at = 0;
                    for (const c of val.childNodes) {
                        if (c.nodeType === 1) {
                            if (c.localName !== "em" || c.attributes.some((x) => !x.name.startsWith("data-react")) || c.children.length) throw new Error("markup in a line: " + val.innerHTML);
                            ems.push([at, at + text(c).length]);
                        } else if (c.nodeType !== 3) throw new Error("markup in a line: " + val.innerHTML);
                        at += text(c).length;
                    }
                    return { num: +text(n), href: n.getAttribute("href"), text: text(val), ems };
                }));
            }
            out.files.push(fo);
        }
        const b = r.querySelector(".moar");
        if (b) out.more = plain(b, ["span"]);
        v.repos.push(out);
    }
    return v;
}

function plain(e, tags) {
    for (const c of e.querySelectorAll("*")) if (!tags.includes(c.localName)) throw new Error("markup <" + c.localName + "> in " + e.outerHTML);
    return text(e);
}

// A reference for what is shown of an answer.
function rx(params) {
    const on = (v) => ["fosho", "true", "1"].includes(String(v).toLowerCase());
    const q = on(params.literal) ? params.q.replace(/[^\w\s]/g, "\\$&") : params.q;
    try { return new RegExp(q, on(params.i) ? "gi" : "g"); } catch (e) { return null; }
}

export function wantLines(ms, re) {
    const lines = new Map();
    for (const m of ms) {
        m.Before.forEach((t, i) => { const n = m.LineNumber - m.Before.length + i; if (!lines.has(n)) lines.set(n, { num: n, text: t }); });
        m.After.forEach((t, i) => { const n = m.LineNumber + 1 + i; if (!lines.has(n)) lines.set(n, { num: n, text: t }); });
    }
    for (const m of ms) lines.set(m.LineNumber, { num: m.LineNumber, text: m.Line, match: true });
    const out = [...lines.values()].sort((a, b) => a.num - b.num);
    for (const l of out) l.ems = !l.match || !re ? [] : [...l.text.matchAll(re)].filter((m) => m[0] !== "").map((m) => [m.index, m.index + m[0].length]);
    return out;
}

const base = "https://git.example/u/";
export function conf(names, extra) {
    const out = {};
    for (const n of names) out[n] = { url: base + encodeURIComponent(n), "url-pattern": { "base-url": "{url}/blob/{rev}/{path}{anchor}", anchor: "#L{line}" }, ...(extra || {})[n] };
    return out;
}
const title = (repos, n) => repos[n]["display-name"] || "u / " + encodeURIComponent(n);

// judge compares the page with the results of a search (repo -> {Matches,
// FilesWithMatch, Revision}, in which Matches may have grown).
export function judge(v, repos, params, results, order, link) {
    link = link || ((n, rev, file, line) => repos[n].url + "/blob/" + rev + "/" + file + (line ? "#L" + line : ""));
    const re = rx(params);
    if (v.error !== undefined) return "error shown: " + v.error;
    if (v.busy) return "still searching";
    const names = order || ordered(results);
    if (names.length === 0) return v.none && v.repos.length === 0 ? "" : "no results, but not said so";
    if (v.none) return "no results shown";
    if (v.repos.length !== names.length) return v.repos.length + " repositories shown, expected " + names.length;
    for (const [i, n] of names.entries()) {
        const r = results[n], s = v.repos[i], at = "repository " + i + " (" + n + "): ";
        if (squash(s.name) !== squash(title(repos, n))) return at + "titled " + s.name + ", expected " + title(repos, n);
        if (s.files.length !== r.Matches.length) return at + s.files.length + " files, expected " + r.Matches.length;
        const left = r.Matches.length < r.FilesWithMatch;
        if (left && s.more && squash(s.more) !== squash("Load all " + r.FilesWithMatch + " matches in " + title(repos, n))) return at + "offers " + s.more;
        if (!!s.more !== left) return at + (left ? "no way to load more" : "offers to load more");
        for (const [j, f] of r.Matches.entries()) {
            const sf = s.files[j], want = wantLines(f.Matches, re);
            const fa = at + "file " + f.Filename + ": ";
            if (sf.name !== f.Filename) return fa + "named " + sf.name;
            const url = link(n, r.Revision, f.Filename);
            if (sf.href !== url) return fa + "link " + sf.href + ", expected " + url;
            if (sf.badge !== !!f.AutoGenerated) return fa + "badge " + sf.badge;
            const got = sf.blocks.flat();
            for (const b of sf.blocks) for (let k = 1; k < b.length; k++) if (b[k].num !== b[k - 1].num + 1) return fa + "lines " + b[k - 1].num + " and " + b[k].num + " in one block";
            if (got.length !== want.length) return fa + "lines " + got.map((l) => l.num) + ", expected " + want.map((l) => l.num);
            for (const [k, l] of want.entries()) {
                const g = got[k];
                if (g.num !== l.num) return fa + "lines " + got.map((l) => l.num) + ", expected " + want.map((l) => l.num);
                if (g.text !== l.text) return fa + "line " + l.num + " reads " + JSON.stringify(g.text) + ", expected " + JSON.stringify(l.text);
                if (JSON.stringify(g.ems) !== JSON.stringify(l.ems)) return fa + "line " + l.num + " " + JSON.stringify(l.text) + " marked " + JSON.stringify(g.ems) + ", expected " + JSON.stringify(l.ems);
                if (g.href !== link(n, r.Revision, f.Filename, l.num)) return fa + "line " + l.num + " links to " + g.href;
            }
        }
    }
    return "";
}
export function ordered(results) {
    return Object.keys(results).filter((n) => results[n]).sort((a, b) => results[b].Matches.length - results[a].Matches.length || a.localeCompare(b));
}

export const reply = (results) => ({ Results: results, Stats: { FilesOpened: 7, Duration: 3 } });
const file = (name, ms, gen) => ({ Filename: name, Matches: ms, ...(gen ? { AutoGenerated: true } : {}) });
const one = (n, line) => ({ Line: line, LineNumber: n, Before: [], After: [] });

// search drives the form of a page and answers it.
function search(p, q, opt, results) {
    p.type("#q", q);
    p.check("#ignore-case", !!opt.i);
    p.check("#literal-search", !!opt.literal);
    const n = p.requests.length;
    p.click("#dodat");
    if (p.requests.length !== n + 1) return "no request was made";
    p.answer(p.pending[p.pending.length - 1], reply(results));
}

// A page used for many searches; dropped after a failure, so that it is
// confirmed on a fresh one.
class Shared {
    constructor(repos) { this.repos = repos; this.n = 0; }
    with(f) {
        if (!this.p || this.n++ % 200 === 0) this.p = new Page("hound.js", "", this.repos);
        let bad;
        try { bad = f(this.p); } finally { if (bad !== "") this.p = null; }
        return bad;
    }
}

// histories runs every sequence of up to depth acts, divided among processes by
// their first two; one after which run finds nothing to do (null) is not extended.
function histories(out, depth, acts, run) {
    const rec = (seq) => {
        if (out.over()) return;
        if (seq.length === 2 && !out.mine()) return;
        if (seq.length) {
            const count = seq.length > 1 || out.part === 0;
            if (count) out.o.States++;
            let dead = false;
            out.check(() => seq.join("; "), () => { const r = run(seq); if (r === null) dead = true; return r; });
            if (!count) out.o.Traces--;
            if (dead) return;
        }
        if (seq.length < depth) for (const [a, once] of acts) if (!once || seq[seq.length - 1] !== a) rec([...seq, a]);
    };
    rec([]);
}

export const jobs = {
    // every set of matching lines with every amount of context
    "k04-lines"(out, bound) {
        const n = { 1: 4, 2: 6, 3: 8, 4: 10 }[bound];
        const repos = conf(["r"]), sh = new Shared(repos);
        const cases = [];
        for (let len = 1; len <= n; len++) for (let set = 1; set < 1 << len; set++) for (let ctx = 0; ctx <= Math.min(len, 3); ctx++) for (const clip of ctx ? [true, false] : [true])
            cases.push([1, len, [...Array(len).keys()].filter((i) => set >> i & 1), ctx, clip]);
        // long files: every so many lines from some line on
        for (const len of [50, 300, 1200]) for (const step of [1, 2, 3, 4, 9, 16, 40]) for (const from of [0, step - 1, 20]) for (const ctx of [0, 1, 2, 4, 20]) {
            const l = [];
            for (let i = from; i < len; i += step) l.push(i);
            cases.push([len > 1000 ? 99990 : 1, len, l, ctx, true]);
        }
        // as the server does, or not, the lines before a match end at the match before
        for (const [first, len, list, ctx, clip] of cases) {
            if (out.over()) return;
            if (!out.mine()) continue;
            out.o.States++;
            out.o.Transitions++;
            const desc = () => len + " lines, matching " + (list.length > 12 ? "every " + (list[1] - list[0]) + " from " + list[0] : list.map((i) => i + 1)) + ", " + ctx + " lines of context" + (clip ? "" : ", repeated");
            const has = new Set(list), gen = has.has(0);
            out.check(desc, () => sh.with((p) => {
                const line = (i) => (has.has(i) ? "m" : "c") + " " + i;
                const ms = [];
                let from = 0;
                for (const i of list) {
                    const b = [], a = [];
                    for (let k = Math.max(clip ? from : 0, i - ctx); k < i; k++) b.push(line(k));
                    for (let k = i + 1; k <= Math.min(len - 1, i + ctx); k++) a.push(line(k));
                    ms.push({ Line: line(i), LineNumber: i + first, Before: b, After: a });
                    from = i + 1;
                }
                const results = { r: { Matches: [file("d/f.go", ms, gen)], FilesWithMatch: 1, Revision: "abc" } };
                const bad = search(p, "m", {}, results);
                if (bad) return bad;
                const v = look(p);
                if (v.repos[0] && v.repos[0].files[0] && v.repos[0].files[0].open === gen) return "an autogenerated file starts closed, others open";
                return judge(v, repos, { q: "m" }, results);
            }));
        }
        // loading the rest of many files
        for (const total of [20, 21, 22, 40, 41, 300, 2019, 2020, 2021, 4100]) {
            if (out.over()) return;
            if (!out.mine()) continue;
            out.o.States++;
            out.check(() => total + " files, of which 20 are shown at first, then the rest", () => {
                const two = conf(["r", "s"]);
                const all = [...Array(total).keys()].map((i) => file("d/f" + i, [one(i + 1, "m " + i)]));
                const cut = (rng) => { const [b, n] = rng.split(":").map((x) => +x || 0); return all.slice(b, n ? b + n : undefined); };
                const results = { r: { Matches: cut(":20"), FilesWithMatch: total, Revision: "abc" }, s: { Matches: all.slice(0, 2), FilesWithMatch: 2, Revision: "s1" } };
                return new Shared(two).with((p) => {
                    let bad = search(p, "m", {}, results);
                    for (let k = 0; k < 4 && !bad; k++) {
                        bad = judge(look(p), two, { q: "m" }, results, ["r", "s"]);
                        const more = p.win.document.querySelector(".moar");
                        if (bad || !more) break;
                        const n = p.requests.length;
                        out.o.Transitions++;
                        p.click(more);
                        if (p.requests.length !== n + 1) return "nothing was asked for";
                        const q = p.requests[n].q;
                        if (q.repos !== "r" || q.q !== "m") return "asked for " + JSON.stringify(q);
                        const got = cut(q.rng || ":");
                        p.answer(p.pending[0], reply({ r: { Matches: got, FilesWithMatch: total, Revision: "abc" } }));
                        results.r = { ...results.r, Matches: results.r.Matches.concat(got) };
                    }
                    if (!bad && results.r.Matches.length !== total) return results.r.Matches.length + " of " + total + " files loaded";
                    if (!bad && new Set(results.r.Matches.map((f) => f.Filename)).size !== total) return "some files were loaded twice";
                    return bad;
                });
            });
        }
        // many files and repositories, and long lines
        for (const [nr, nf, nl, w] of [[1, 300, 1, 10], [40, 3, 2, 10], [120, 1, 1, 10], [1, 1, 3, 30000], [2, 20, 20, 300]]) {
            if (out.over()) return;
            if (!out.mine()) continue;
            out.o.States++;
            out.o.Transitions++;
            const names = [...Array(nr).keys()].map((i) => "r" + i), many = conf(names);
            out.check(() => nr + " repositories with " + nf + " files of " + nl + " lines of " + w, () => {
                const results = {};
                names.forEach((r, x) => {
                    results[r] = { Matches: [...Array(nf - x % Math.min(nf, 3)).keys()].map((f) => file("d/f" + f, [...Array(nl).keys()].map((i) => ({ Line: "y".repeat(w) + " m " + i, LineNumber: 2 * i + 1, Before: [], After: [] })))), Revision: "abc" };
                    results[r].FilesWithMatch = results[r].Matches.length;
                });
                return new Shared(many).with((p) => search(p, "m", {}, results) || judge(look(p), many, { q: "m" }, results));
            });
        }
        out.outcome("answers shown");
    },
    // every line of some pieces under every query, and the same words as names
    "k04-text"(out, bound) {
        const pieces = ["<", "&", '"', "a", "A", ">", "<b>", "&lt;", " ", "x", "'", "\u00e9", "</span>", "\t", "<!--"];
        const k = { 1: 2, 2: 3, 3: 3, 4: 4 }[bound];
        const queries = [
            ["a"], ["a", { i: 1 }], ["A", { i: 1 }], ["<"], ["&"], ["lt"], ["x*"], ["a*"], ["^a"], ["a$"], ["\\ba"], ["a|<"], ["()"], ["(a)|(x)"], [";"], ["<b>"], ["."], ['"'],
            [".", { literal: 1 }], ["<b>", { literal: 1 }], ["a|x", { literal: 1 }], ["(", { literal: 1 }], ["[", { literal: 1 }], ["x*", { literal: 1 }], ["</span>", { literal: 1, i: 1 }],
            ["(?i)a"], ["(?s).a"], ["a\\z"], ["[[:alpha:]]"], ["\\pL"], ["(?P<n>a)"], ["a{2"], ["\\Qa\\E"], ["^"], ["$"], ["\\b"], ["a??"], ["(?=)"], ["\\s"], ["\u00e9"],
        ];
        const words = [];
        const rec = (i, w) => { if (i) words.push(w); if (i < k) for (const x of pieces) rec(i + 1, w + x); };
        rec(0, "");
        const uniq = [...new Set(words)];
        const repos = conf(["r"]), sh = new Shared(repos);
        for (const [q, o] of queries) {
            const opt = o || {};
            const params = { q, i: opt.i ? "fosho" : "nope", literal: opt.literal ? "fosho" : "nope" };
            const re = rx(params);
            // what Go takes and JavaScript reads otherwise is only looked at for text
            const other = ["[[:alpha:]]", "\\pL", "a\\z", "\\Qa\\E", "a{2", "(?=)"].includes(q);
            for (let at = 0; at < uniq.length; at += 400) {
                if (out.over()) return;
                if (!out.mine()) continue;
                const ws = uniq.slice(at, at + 400);
                out.o.States += ws.length;
                out.o.Transitions++;
                let first = ws;
                const run = (part) => sh.with((p) => {
                    const ms = part.map((w, i) => ({ Line: w, LineNumber: 10 * i + 2, Before: i % 3 ? [] : [w], After: i % 2 ? [] : [w] }));
                    const results = { r: { Matches: [file("f", ms)], FilesWithMatch: 1, Revision: "abc" } };
                    const bad = search(p, q, opt, results);
                    if (bad) return bad;
                    const v = look(p);
                    if (other) for (const r of v.repos) for (const f of r.files) for (const b of f.blocks) for (const l of b) l.ems = [];
                    const pr = other ? { ...params, q: "(" } : params;
                    return judge(v, repos, other ? { ...pr, literal: "nope" } : pr, results);
                });
                out.check(() => "query " + JSON.stringify(q) + " " + JSON.stringify(opt) + (first.length === 1 ? ", line " + JSON.stringify(first[0]) : ""), () => {
                    const bad = run(ws);
                    if (bad) for (const w of ws.slice(0, 200)) { let b; try { b = run([w]); } catch (e) { b = e; } if (b) { first = [w]; break; } }
                    return bad;
                });
            }
        }
        // names and messages
        for (let at = 0; at < uniq.length; at += 40) {
            if (out.over()) return;
            if (!out.mine()) continue;
            const ws = uniq.slice(at, at + 40).map((w) => w.trim()).filter((w, i, all) => w && all.indexOf(w) === i);
            if (ws.length === 0) continue;
            out.o.States += ws.length;
            out.o.Transitions++;
            out.check(() => "names " + JSON.stringify(ws), () => {
                const repos = conf(ws.map((w) => "n" + w), Object.fromEntries(ws.map((w, i) => ["n" + w, i % 2 ? {} : { "display-name": w }])));
                const results = {};
                for (const [i, w] of ws.entries()) results["n" + w] = { Matches: [file("d/" + w, [one(1, "a")])], FilesWithMatch: 1 + i % 2, Revision: "r" + i };
                const p = new Page("hound.js", "", repos);
                const bad = search(p, "a", {}, results) || judge(look(p), repos, { q: "a" }, results);
                if (bad) return bad;
                const got = [...p.$("#repos").options].map((o) => o.value + "|" + plain(o, []));
                const want = Object.keys(repos).map((n) => n + "|" + n);
                if (JSON.stringify(got) !== JSON.stringify(want)) return "offered repositories " + got;
                for (const w of ws) {
                    p.click("#dodat");
                    p.answer(p.pending[0], { Error: w });
                    const v = look(p);
                    if (squash(v.error || "") !== squash(w)) return "error " + w + " shown as " + v.error;
                }
            });
        }
        // repositories named after their URLs, the server's time
        if (out.mine()) out.check(() => "titles", () => {
            const at = [];
            for (const host of ["https://h/", "https://h:81/p/q/", "git@h:p/", "file:///x/", "ssh://u@h/"]) for (const o of ["o", "o.git", "O-1", "a.b", "git"]) for (const n of ["n", "n.git", "n.git.git", ".git", "ngit", "n.gitx", "n.git.x", "N.Git", "n-1.2", "git", "git.git"])
                at.push([host + o + "/" + n, o + " / " + n.replace(/[.]git$/, "")]);
            at.push(["noslash", null], ["x/noowner", "noowner"], ["x/noowner.git", "noowner"]);
            const names = at.map((_, i) => "t" + i), results = {};
            const repos = conf(names, Object.fromEntries(names.map((n, i) => [n, { url: at[i][0], "url-pattern": { "base-url": "http://b/{rev}/{path}{anchor}", anchor: "#L{line}" } }])));
            for (const n of names) results[n] = { Matches: [file("f", [one(1, "a")])], FilesWithMatch: 1, Revision: "r" };
            const p = new Page("hound.js", "", repos);
            const bad = search(p, "a", {}, results);
            if (bad) return bad;
            const v = look(p), order = ordered(results);
            for (const [i, n] of order.entries()) {
                const want = at[names.indexOf(n)][1] === null ? n : at[names.indexOf(n)][1];
                if (squash(v.repos[i].name) !== squash(want)) return "the repository at " + at[names.indexOf(n)][0] + " is titled " + v.repos[i].name + ", expected " + want;
            }
            for (const ms of [0, 1, 12, 999, 1000, 1001, 12345, 100000, 1234567, 2000000000]) {
                p.click("#dodat");
                p.answer(p.pending[p.pending.length - 1], { Results: results, Stats: { FilesOpened: 7 * ms % 1000, Duration: ms } });
                const t = squash(p.$(".stats").textContent), w = String(ms).replace(/\B(?=(\d{3})+$)/g, ",") + "ms server";
                if (!new RegExp("(^|[^0-9,])" + w).test(t) || !new RegExp("(^|[^0-9,])" + 7 * ms % 1000 + " files").test(t)) return "an answer that took " + ms + "ms is said to have taken " + t;
            }
            return "";
        });
        out.outcome("texts shown");
    },
    // every form, the request it makes, and the page its URL leads to
    "k04-form"(out, bound) {
        const names = ["r1", "a&b", "c+d e=f"], repos = conf(names);
        const fields = {
            q: ["a", "a b", "a+b", "a&b=c", "100%", "\u00e9#?", "  a ", "x/y\\z", '"', "%41", "a%20b"],
            files: ["", "\\.go$", "a&b=c+d", "%2B", " x"],
            excludeFiles: ["", "_test\\.go$", "a&b=c+d"],
            i: [false, true],
            literal: [false, true],
            repos: [[], ["r1"], ["a&b"], ["c+d e=f"], ["r1", "a&b"], ["a&b", "c+d e=f"], names],
            how: ["button", "q", "files", "excludeFiles"],
            load: ["page", "request"],
            start: ["", "?q=z&i=fosho&literal=fosho&files=F&excludeFiles=E&repos=r1", "?q=z+y&repos=r1,a%26b", "?q=a+b+c&files=x+y+z&excludeFiles=+p++q", "?q=&i=1", "?q=a%2Bb&i=TRUE&files=x+y", "?i=nope&q=%26&repos=%2A", "?q=z&repos=" + names.map(encodeURIComponent).join(","), "?q=z&repos=gone"],
        };
        const keys = Object.keys(fields);
        const k = { 1: 1, 2: 2, 3: 3, 4: 4 }[bound];
        const cases = [];
        const rec = (i, c, left) => {
            if (i === keys.length) { cases.push(c); return; }
            fields[keys[i]].forEach((v, j) => { if (j === 0 || left > 0) rec(i + 1, { ...c, [keys[i]]: v }, j ? left - 1 : left); });
        };
        rec(0, {}, k);
        for (const c of cases) {
            if (out.over()) return;
            if (!out.mine()) continue;
            out.o.States++;
            out.check(() => JSON.stringify(c), () => {
                // the repositories come with the page or on request
                const load = (search) => {
                    const p = new Page("hound.js", search, c.load === "page" ? repos : null);
                    if (c.load !== "page") {
                        if (p.pending.length !== 1 || p.pending[0].path !== "/api/v1/repos") throw new Error("asked for " + p.pending.map((r) => r.path));
                        p.answer(p.pending[0], repos);
                        p.requests.shift();
                    }
                    return p;
                };
                const p = load(c.start);
                const u = new URLSearchParams(c.start);
                const get = (n, d) => (u.has(n) ? u.get(n) : d);
                out.o.Transitions += 3;
                const sent = (p, n, w, when) => {
                    const want = { q: w.q, i: w.i, literal: w.literal, files: w.files, excludeFiles: w.excludeFiles, repos: w.repos };
                    if (p.requests.length !== n + (w.q === "" ? 0 : 1)) return when + ": " + (p.requests.length - n) + " requests";
                    if (w.q === "") return "";
                    const r = p.requests[n];
                    if (r.path !== "/api/v1/search") return when + ": asked " + r.path;
                    const bool = (v) => ["fosho", "true", "1"].includes((v || "").toLowerCase());
                    for (const f of Object.keys(want)) {
                        const g = r.q[f] === undefined ? "" : r.q[f];
                        const ok = f === "i" || f === "literal" ? bool(g) === bool(want[f]) : f === "repos" ? g === want[f] || (["", "*"].includes(g) && ["", "*"].includes(want[f])) : g === want[f];
                        if (!ok) return when + ": asked for " + f + "=" + JSON.stringify(g) + ", expected " + JSON.stringify(want[f]);
                    }
                    return "";
                };
                const shown = (p, w, when) => {
                    const sel = [...p.$("#repos").options].filter((o) => o.selected).map((o) => o.value);
                    const got = { q: p.$("#q").value, i: p.$("#ignore-case").checked, literal: p.$("#literal-search").checked, files: p.$("#files").value, excludeFiles: p.$("#excludeFiles").value, repos: sel };
                    return JSON.stringify(got) === JSON.stringify(w) ? "" : when + ": form shows " + JSON.stringify(got) + ", expected " + JSON.stringify(w);
                };
                const bool = (v) => ["fosho", "true", "1"].includes(v.toLowerCase());
                const ur = get("repos", "*");
                const us = ur.split(",").filter((n) => names.includes(n));
                const first = { q: get("q", ""), i: bool(get("i", "nope")), literal: bool(get("literal", "nope")), files: get("files", ""), excludeFiles: get("excludeFiles", ""), repos: us.length === names.length ? [] : us };
                // the page asks for what its URL says
                let bad = sent(p, 0, { ...first, i: get("i", "nope"), literal: get("literal", "nope"), repos: ur }, "at the start");
                if (bad) return bad;
                for (const r of [...p.pending]) p.answer(r, reply({}));
                bad = shown(p, first, "at the start");
                if (bad) return bad;
                // the form
                p.type("#q", c.q);
                p.type("#files", c.files);
                p.type("#excludeFiles", c.excludeFiles);
                p.check("#ignore-case", c.i);
                p.check("#literal-search", c.literal);
                if (JSON.stringify(first.repos) !== JSON.stringify(c.repos)) p.select("#repos", c.repos);
                const n = p.requests.length;
                c.how === "button" ? p.click("#dodat") : p.key("#" + c.how, 13);
                const sel = c.repos.length === names.length ? [] : c.repos;
                const w = { q: c.q.trim(), i: c.i ? "fosho" : "nope", literal: c.literal ? "fosho" : "nope", files: c.files.trim(), excludeFiles: c.excludeFiles.trim(), repos: sel.join(",") };
                bad = sent(p, n, w, "after the form");
                if (bad) return bad;
                p.answer(p.pending[0], reply({}));
                bad = shown(p, { q: c.q, i: c.i, literal: c.literal, files: c.files, excludeFiles: c.excludeFiles, repos: c.repos }, "after the form");
                if (bad) return bad;
                if (p.win.location.pathname !== "/") return "left the page for " + p.win.location.href;
                // its URL
                const again = load(p.win.location.search);
                bad = sent(again, 0, { ...w, repos: w.repos }, "opening " + p.win.location.search);
                if (bad) return bad;
                again.answer(again.pending[0], reply({}));
                bad = shown(again, { q: w.q, i: c.i, literal: c.literal, files: w.files, excludeFiles: w.excludeFiles, repos: sel }, "opening " + p.win.location.search);
                if (bad) return bad;
                // and back
                const m = p.requests.length;
                p.do((w) => w.history.back());
                if (first.q !== "") {
                    bad = sent(p, m, { ...first, i: get("i", "nope"), literal: get("literal", "nope"), repos: ur }, "after going back");
                    if (bad) return bad;
                    p.answer(p.pending[0], reply({}));
                }
                return shown(p, first, "after going back");
            });
        }
        out.outcome("forms sent");
    },
    // every history of searches, navigation and answers in any order
    "k04-history"(out, bound) {
        const names = ["r1", "r2"], repos = conf(names);
        const depth = { 1: 3, 2: 4, 3: 5, 4: 6 }[bound];
        const files = (r, q) => (q === "a" ? 3 : 1);
        const find = (q) => { // the server: a query finds 3 or 1 files in each repository asked for
            const res = {};
            const [b, n] = (q.rng || ":").split(":").map((x) => +x || 0);
            const lim = n || Infinity;
            for (const r of names) {
                if (!["", "*"].includes(q.repos) && !q.repos.split(",").includes(r)) continue;
                const all = [...Array(files(r, q.q)).keys()].map((i) => file(r + "/" + q.q + i, [one(i + 1, "line " + q.q + i)]));
                // at first only part is delivered, as with more than the default number of files
                const cut = q.rng === ":20" ? 1 : lim;
                res[r] = { Matches: all.slice(b, b + cut), FilesWithMatch: all.length, Revision: "rev" };
            }
            return { Results: res, Stats: { FilesOpened: 1, Duration: 1 } };
        };
        const acts = ["search a", "search b in r2", "search nothing", "type (", "back", "forward", "more 0", "more 1", "answer first", "answer last", "error first", "error last", "lost last"];
        const run = (seq) => {
            const p = new Page("hound.js", "", repos);
            const stack = [{ q: "", repos: "*" }];
            let at = 0;
            // cur is the last search; shown what is to be seen of it
            let cur = { state: "start" };
            const reqs = new Map(); // request -> what it was made for
            const note = (n) => { for (const r of p.requests.slice(n)) reqs.set(r, { cur }); };
            const go = (params) => { cur = { params, state: params.q === "" ? "shown" : "waiting", results: {}, order: null }; };
            for (const [step, a] of seq.entries()) {
                const n = p.requests.length;
                out.o.Transitions++;
                if (a.startsWith("search")) {
                    const q = a === "search nothing" ? "" : a[7];
                    p.type("#q", q);
                    p.select("#repos", a.endsWith("in r2") ? ["r2"] : []);
                    const params = { q, repos: a.endsWith("in r2") ? "r2" : "" };
                    go(params);
                    p.click("#dodat");
                    stack.splice(at + 1);
                    stack.push(params);
                    at++;
                    if (p.requests.length - n !== (q === "" ? 0 : 1)) return "step " + step + ": " + (p.requests.length - n) + " requests";
                    note(n);
                } else if (a === "type (") p.type("#q", "(");
                else if (a === "back" || a === "forward") {
                    const to = a === "back" ? at - 1 : at + 1;
                    if (!stack[to]) return null;
                    at = to;
                    go(stack[at]);
                    p.do((w) => (a === "back" ? w.history.back() : w.history.forward()));
                    if (p.requests.length - n !== (stack[at].q === "" ? 0 : 1)) return "step " + step + ": " + (p.requests.length - n) + " requests";
                    note(n);
                } else if (a.startsWith("more")) {
                    const b = p.win.document.querySelectorAll(".moar")[+a[5]];
                    if (!b) return null;
                    p.click(b);
                    note(n); // none, if it was asked for already
                    for (const r of p.requests.slice(n)) reqs.get(r).more = r.q.repos;
                } else {
                    const last = a.endsWith("last");
                    const r = last ? p.pending[p.pending.length - 1] : p.pending[0];
                    if (!r || (last && p.pending.length === 1 && a !== "lost last")) return null;
                    const of = reqs.get(r);
                    if (a.startsWith("answer")) {
                        const d = find(r.q);
                        if (of.cur === cur) {
                            if (of.more) {
                                const mine = cur.results[of.more];
                                const have = new Set(mine.Matches.map((f) => f.Filename));
                                mine.Matches = mine.Matches.concat(d.Results[of.more].Matches.filter((f) => !have.has(f.Filename)));
                            } else {
                                cur.results = JSON.parse(JSON.stringify(d.Results));
                                cur.order = ordered(cur.results);
                            }
                            cur.state = "shown";
                        }
                        p.answer(r, d);
                    } else if (a.startsWith("error")) {
                        if (of.cur === cur) { cur.state = "error"; cur.error = "bad " + step; }
                        p.answer(r, { Error: "bad " + step });
                    } else {
                        if (of.cur === cur) { cur.state = "error"; cur.error = null; }
                        p.fail(r);
                    }
                }
                const v = look(p);
                let bad = "";
                if (cur.state === "waiting") { if (v.repos.length || v.none) bad = "shows results of another search"; }
                else if (cur.state === "error") { if (v.error === undefined || (cur.error && v.error !== cur.error)) bad = "error " + cur.error + " not shown: " + v.error; }
                else if (cur.state === "shown") bad = judge(v, repos, cur.params, cur.results, cur.order);
                if (bad) return "after step " + (step + 1) + " (" + a + "): " + bad;
            }
            return "";
        };
        histories(out, depth, acts.map((a) => [a, a === "type ("]), run);
        out.outcome("histories");
    },
    // every history of opening and closing files and repositories: no more than
    // that changes
    "k04-open"(out, bound) {
        const names = ["r1", "r2"], repos = conf(names);
        const depth = { 1: 2, 2: 3, 3: 4, 4: 5 }[bound];
        const gens = [[false, true, false], [true, false]];
        const results = () => {
            const res = {};
            for (const [i, n] of names.entries()) res[n] = { Matches: gens[i].map((g, k) => file(n + "/f" + k, [{ Line: "a " + k, LineNumber: 2 + k, Before: ["b"], After: ["<c>"] }, one(9, "a a")], g)), FilesWithMatch: gens[i].length + (i ? 0 : 2), Revision: "v" + i };
            return res;
        };
        const acts = ["file 0", "file 1", "file 2", "file 3", "file last", "repo 0", "repo 1", "arrow 0", "expand", "collapse", "more", "search"];
        const run = (seq) => {
            const p = new Page("hound.js", "", repos);
            let res, open; // open: repository -> file -> shown
            const start = () => {
                res = results();
                open = names.map((n) => ({ open: true, files: res[n].Matches.map((f) => !f.AutoGenerated) }));
                return search(p, "a", {}, res);
            };
            const see = () => {
                const v = look(p);
                const bad = judge(v, repos, { q: "a" }, res);
                if (bad) return bad;
                const got = v.repos.map((r) => r.files.map((f) => f.open)), want = open.map((r) => r.files);
                return JSON.stringify(got) === JSON.stringify(want) ? "" : "files open " + JSON.stringify(got) + ", expected " + JSON.stringify(want);
            };
            let bad = start() || see();
            if (bad) return bad;
            for (const [step, a] of seq.entries()) {
                out.o.Transitions++;
                const [w, x] = a.split(" ");
                const set = (r, to) => { r.open = to; r.files = r.files.map(() => to); };
                if (w === "file") {
                    const all = [];
                    open.forEach((r) => r.files.forEach((_, k) => all.push([r, k])));
                    const i = x === "last" ? all.length - 1 : +x;
                    all[i][0].files[all[i][1]] = !all[i][0].files[all[i][1]];
                    p.click(p.win.document.querySelectorAll("#result .file")[i].querySelector(".title"));
                } else if (w === "repo" || w === "arrow") {
                    const e = p.win.document.querySelectorAll("#result .repo")[+x];
                    set(open[+x], !open[+x].open);
                    p.click(w === "repo" ? e.querySelector(".title") : e.querySelector(".title .indicator"));
                } else if (w === "expand" || w === "collapse") {
                    const b = [...p.win.document.querySelectorAll("#result button")].find((b) => squash(text(b)).toLowerCase() === w + " all");
                    if (!b) return "no button to " + w + " all";
                    for (const r of open) set(r, w === "expand");
                    p.click(b);
                } else if (w === "more") {
                    const b = p.$(".moar");
                    if (!b) return null;
                    p.click(b);
                    const more = [file("r1/more0", [one(3, "a more")], true), file("r1/more1", [one(4, "a more")])];
                    p.answer(p.pending[0], reply({ r1: { Matches: more, FilesWithMatch: 5, Revision: "v0" } }));
                    res.r1.Matches.push(...more);
                    open[0].files.push(...more.map((f) => !f.AutoGenerated));
                } else bad = start();
                bad = bad || see();
                if (bad) return "after step " + (step + 1) + " (" + a + "): " + bad;
            }
            return "";
        };
        histories(out, depth, acts.map((a) => [a, a === "search" || a === "expand" || a === "collapse"]), run);
        out.outcome("histories");
    },
    // the page of excluded files
    "k04-excluded"(out, bound) {
        const words = ["a", "<b>x</b>", "&lt;", 'd/"q"', "x y", "<script>"];
        const names = ["r1", "a&b", "<i>"], repos = conf(names);
        const depth = { 1: 3, 2: 4, 3: 5, 4: 6 }[bound];
        const list = (n, i) => [...Array(i)].map((_, k) => ({ Filename: n + "/" + words[k % words.length] + k, Reason: ["Dot files are excluded.", "<em>&"][k % 2] }));
        const acts = [...names.map((n) => "show " + n), "answer first", "answer last"];
        const run = (seq) => {
            const p = new Page("excluded_files.js", "", null);
            if (p.pending.length !== 1 || p.pending[0].path !== "/api/v1/repos") return "asked for " + p.pending.map((r) => r.path);
            p.answer(p.pending[0], repos);
            let cur = null, shown = null, known = "";
            for (const [step, a] of seq.entries()) {
                out.o.Transitions++;
                const n = p.requests.length;
                if (a.startsWith("show")) {
                    const want = a.slice(5);
                    const b = p.win.document.querySelectorAll("button").find((x) => text(x) === want);
                    if (!b) return "no button for " + want;
                    plain(b, ["span"]);
                    p.click(b);
                    if (p.requests.length !== n + 1) return "step " + step + ": " + (p.requests.length - n) + " requests";
                    const r = p.requests[n];
                    if (r.path !== "/api/v1/excludes" || r.q.repo !== want) return "asked " + r.path + " " + JSON.stringify(r.q);
                    r.of = want;
                    cur = r;
                    shown = null;
                } else {
                    const last = a === "answer last";
                    const r = last ? p.pending[p.pending.length - 1] : p.pending[0];
                    if (!r || (last && p.pending.length === 1)) return null;
                    const l = list(r.of, names.indexOf(r.of) * 2);
                    p.answer(r, l);
                    if (r.of === cur.of) shown = l;
                }
                const rows = p.win.document.querySelectorAll("tbody tr");
                const got = rows.map((r) => [plain(r.querySelector(".name"), ["a"]), plain(r.querySelector(".reason"), []), (r.querySelector("a") || { getAttribute() {} }).getAttribute("href")]);
                if (!cur) continue;
                if (!shown) { if (got.length) return "after step " + (step + 1) + ": files of another repository: " + JSON.stringify(got); continue; }
                const want = shown.map((f) => [f.Filename, f.Reason]);
                if (JSON.stringify(got.map((g) => g.slice(0, 2))) !== JSON.stringify(want)) return "after step " + (step + 1) + ": shows " + JSON.stringify(got) + ", expected " + JSON.stringify(want);
                for (const [k, g] of got.entries()) if (!String(g[2]).startsWith(repos[cur.of].url + "/blob/")) return "after step " + (step + 1) + ": " + g[0] + " of " + cur.of + " links to " + g[2];
                if (got.some((g) => String(g[2]).includes("/blob/undefined/"))) known = "links of excluded files name the revision undefined: " + got[0][2];
            }
            return known && ["excluded-link-undefined", known];
        };
        histories(out, depth, acts.map((a) => [a, false]), run);
        out.outcome("lists shown");
    },
};
