// K04: the page as the real server delivers it, its requests answered by the
// real server; this also binds the answers that the other jobs make up.
import { spawn } from "node:child_process";
import fs from "node:fs";
import net from "node:net";
import path from "node:path";
import vm from "node:vm";
import { product } from "./lib.mjs";
import { Page, conf, judge, look, ordered } from "./page.mjs";

const corpus = {
    "r1": { "a.go": ["one a", "two", "Three A", "", "four", "five a<b>", "six"], "d/b.txt": ["a", "b", "c&amp;", "d", "e", "f a"], "gen.go": ["// Code generated by x. DO NOT EDIT.", "a"] },
    "a&b </script>": { "x y.go": ["</script>", "a", "a", "\"q'"], "é.txt": ["aé", "no"] },
};
const freePort = () => new Promise((ok) => { const s = net.createServer().listen(0, "127.0.0.1", () => { const p = s.address().port; s.close(() => ok(p)); }); });
const sleep = (ms) => new Promise((ok) => setTimeout(ok, ms));

// answer is what the server is to say about the corpus.
function answer(q) {
    const on = (v) => ["fosho", "true", "1"].includes(String(v).toLowerCase());
    const re = new RegExp(on(q.literal) ? q.q.replace(/[^\w\s]/g, "\\$&") : q.q, on(q.i) ? "i" : "");
    const [b, lim] = (q.rng || ":").split(":").map((x) => +x || 0);
    const out = {};
    for (const r of Object.keys(corpus)) {
        if (!["", "*"].includes(q.repos) && !q.repos.split(",").includes(r)) continue;
        let all = [];
        for (const f of Object.keys(corpus[r]).sort()) {
            if (q.files && !new RegExp(q.files).test(f)) continue;
            if (q.excludeFiles && new RegExp(q.excludeFiles).test(f)) continue;
            const ls = corpus[r][f];
            const ms = [];
            let last = 0; // lines up to the match before are not repeated before this one
            ls.forEach((l, i) => { if (re.test(l)) { ms.push({ Line: l, LineNumber: i + 1, Before: ls.slice(Math.max(last, i - 2), i), After: ls.slice(i + 1, i + 3) }); last = i + 1; } });
            if (ms.length) all.push({ Filename: f, Matches: ms, gen: f === "gen.go" });
        }
        if (all.length) out[r] = { n: all.length, Matches: all.slice(b, lim ? b + lim : undefined) };
    }
    return out;
}

export const jobs = {
    async "k04-served"(out, bound, dir) {
        const d = fs.mkdtempSync(path.join(dir || "/tmp", "served"));
        let proc;
        try {
            const cfg = { dbpath: path.join(d, "db"), repos: {} };
            for (const [k, r] of Object.keys(corpus).entries()) {
                const w = path.join(d, "src" + k);
                for (const f of Object.keys(corpus[r])) {
                    fs.mkdirSync(path.dirname(path.join(w, f)), { recursive: true });
                    fs.writeFileSync(path.join(w, f), corpus[r][f].join("\n") + "\n");
                }
                cfg.repos[r] = { url: "file://" + w, vcs: "local", "url-pattern": { "base-url": "http://h/{rev}/{path}{anchor}", anchor: "#L{line}" }, "display-name": "name of " + r, "auto-generated-files": [] };
            }
            fs.writeFileSync(path.join(d, "conf.json"), JSON.stringify(cfg));
            const port = await freePort();
            proc = spawn(path.join(process.env.HV_BIN, "houndd"), ["-conf", path.join(d, "conf.json"), "-addr", "127.0.0.1:" + port], { cwd: d, stdio: ["ignore", "ignore", "pipe"] });
            let log = "", gone = false;
            proc.stderr.on("data", (x) => { log += x; });
            proc.on("exit", () => { gone = true; });
            const url = "http://127.0.0.1:" + port;
            let html = "";
            for (let i = 0; ; i++) {
                if (gone || i > 1200) { out.check("start", () => "the daemon does not serve: " + log.slice(-500)); return; }
                try {
                    const r = await fetch(url + "/");
                    html = await r.text();
                    if (r.status === 200 && html.includes('id="root"')) break;
                } catch (e) { /* not yet */ }
                await sleep(50);
            }
            // the scripts of the page that are in it
            const inline = [...html.matchAll(/<script>([\s\S]*?)<\/script>/g)].map((m) => m[1]).filter((t) => {
                try { new vm.Script(t); return true; } catch (e) { return false; } // the sources are not bundled here
            });
            const load = (search) => new Page("hound.js", search, null, undefined, inline);
            const real = async (r) => {
                const u = new URL(url + r.path);
                for (const k of Object.keys(r.q)) u.searchParams.set(k, r.q[k]);
                const x = await fetch(u);
                return [x.status, await x.json()];
            };
            const repos = {};
            for (const r of Object.keys(corpus)) repos[r] = cfg.repos[r];
            const names = Object.keys(corpus);
            const qs = ["a", "A", "a<b>", "</script>", "^a", "e$", "zzz", "c&amp;", "é", "o|i", "."];
            const cases = [...product(qs, [0, 1], [0, 1], ["", "\\.go$", "y"], ["", "^d/"], [[], [names[0]], [names[1]]])]
                .filter((c) => [c[1], c[2], c[3], c[4], c[5].length].filter(Boolean).length < bound);
            let p = load("");
            for (const [q, i, lit, f, x, sel] of cases) {
                if (out.over()) return;
                out.o.States++;
                out.o.Transitions++;
                p.type("#q", q);
                p.check("#ignore-case", !!i);
                p.check("#literal-search", !!lit);
                p.type("#files", f);
                p.type("#excludeFiles", x);
                p.select("#repos", sel);
                const n = p.requests.length;
                p.click("#dodat");
                const r = p.pending[0];
                let bad = p.requests.length === n + 1 ? "" : "no request";
                if (!bad) {
                    const [code, data] = await real(r);
                    const want = answer(r.q);
                    if (code !== 200 || data.Error) bad = "answered " + code + " " + data.Error;
                    else if (JSON.stringify(Object.keys(data.Results).sort()) !== JSON.stringify(Object.keys(want).sort())) bad = "results of " + Object.keys(data.Results) + ", expected " + Object.keys(want);
                    else {
                        for (const k of Object.keys(want)) {
                            const g = data.Results[k];
                            if (g.FilesWithMatch !== want[k].n) bad = k + ": " + g.FilesWithMatch + " files, expected " + want[k].n;
                            const m = (fs) => JSON.stringify(fs.map((x) => [x.Filename, x.Matches.map((y) => [y.LineNumber, y.Line, y.Before, y.After])]).sort());
                            if (m(g.Matches) !== m(want[k].Matches)) bad = k + ": " + m(g.Matches) + ", expected " + m(want[k].Matches);
                        }
                        if (!bad) {
                            p.answer(r, data);
                            const links = {};
                            for (const k of names) links[k] = repos[k];
                            bad = judge(look(p), links, r.q, data.Results, ordered(data.Results), (k, rev, file, line) => "http://h/" + rev + "/" + file + (line ? "#L" + line : ""));
                        }
                    }
                }
                if (bad) {
                    out.check(() => JSON.stringify({ q, i, lit, f, x, sel }), () => bad);
                    p = load("");
                }
            }
            out.outcome("answers of the real server shown");
        } finally {
            if (proc) proc.kill("SIGKILL");
            fs.rmSync(d, { recursive: true, force: true });
        }
    },
};
