// Bundles the UI sources of the working tree, and reports like the other engines.
import { createRequire } from "node:module";
import fs from "node:fs";
import path from "node:path";
import vm from "node:vm";

const req = createRequire("/opt/veriftools/node/node_modules/");
const esbuild = req("esbuild");
export const repo = process.env.HV_REPO || "/repo";
const js = path.join(repo, "ui/assets/js");

// bundle gives a source the text of one script with everything it imports; the
// packages that are not in the tree are taken from stubs.
export function bundle(entry, stubs, format) {
    const r = esbuild.buildSync({
        entryPoints: [path.join(js, entry)],
        bundle: true,
        write: false,
        format: format || "iife",
        globalName: "bundled",
        loader: { ".js": "jsx" },
        jsx: "transform",
        jsxFactory: "React.createElement",
        target: "es2020",
        logLevel: "error",
        alias: stubs || {},
    });
    return r.outputFiles[0].text;
}

export function load(entry) {
    const ctx = vm.createContext({ console });
    vm.runInContext(bundle(entry), ctx);
    return vm.runInContext("bundled", ctx);
}

export class Out {
    constructor(bound, secs, part, parts) {
        this.part = part || 0;
        this.parts = parts || 1;
        this.turn = 0;
        this.o = { States: 0, Transitions: 0, Traces: 0, Bound: bound, Capped: false, Outcomes: {}, Samples: [], Violations: [], Notes: [], WallS: 0 };
        this.t0 = Date.now();
        this.end = this.t0 + secs * 1000;
        this.keys = {};
    }
    over() {
        if (this.o.Violations.length >= 3) return true;
        if (Date.now() > this.end) this.o.Capped = true;
        return this.o.Capped;
    }
    // mine tells if the next case is for this process.
    mine() { return this.turn++ % this.parts === this.part; }
    outcome(s) { this.o.Outcomes[s] = (this.o.Outcomes[s] || 0) + 1; }
    sample(s) { if (this.o.Samples.length < 4) this.o.Samples.push(s); }
    // check runs one case; f returns what is wrong, or a [key, what].
    check(desc, f) {
        this.o.Traces++;
        const run = () => {
            try { return f(); } catch (e) { return "exception: " + (e && e.stack ? e.stack.split("\n").slice(0, 3).join(" | ") : e); }
        };
        let bad = run();
        if (!bad) return;
        if (!run()) { this.o.Notes.push("not reproduced: " + bad); return; }
        let key = "";
        if (Array.isArray(bad)) { key = bad[0]; bad = bad[1]; }
        if (key && this.keys[key]) return;
        if (key) this.keys[key] = true;
        this.o.Violations.push({ Key: key, What: [bad], Schedule: [typeof desc === "function" ? desc() : desc] });
    }
    print() {
        this.o.WallS = (Date.now() - this.t0) / 1000;
        fs.writeSync(1, JSON.stringify(this.o) + "\n");
    }
}

// product calls f with every combination.
export function* product(...lists) {
    if (lists.length === 0) { yield []; return; }
    const [h, ...t] = lists;
    for (const x of h) for (const r of product(...t)) yield [x, ...r];
}

// merge adds up what several processes report.
export function merge(os) {
    const r = os[0];
    for (const o of os.slice(1)) {
        for (const k of ["States", "Transitions", "Traces"]) r[k] += o[k];
        r.Capped = r.Capped || o.Capped;
        for (const k of Object.keys(o.Outcomes)) r.Outcomes[k] = (r.Outcomes[k] || 0) + o.Outcomes[k];
        r.Samples = [...r.Samples, ...o.Samples].slice(0, 4);
        r.Notes = [...r.Notes, ...o.Notes].slice(0, 8);
        for (const v of o.Violations) if (!v.Key || !r.Violations.some((x) => x.Key === v.Key)) r.Violations.push(v);
    }
    return r;
}
