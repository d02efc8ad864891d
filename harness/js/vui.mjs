// vui.mjs run JOB BOUND NPROC SECS DIR
import { spawn } from "node:child_process";
import fs from "node:fs";
import { Out, merge } from "./lib.mjs";
import * as links from "./links.mjs";
import * as page from "./page.mjs";
import * as served from "./served.mjs";

const jobs = { ...links.jobs, ...page.jobs, ...served.jobs };
const [, , cmd, name, bound, nproc, secs, dir] = process.argv;
if (cmd !== "run" || !jobs[name]) {
    console.error("no job", name);
    process.exit(2);
}
// a job that asks whose turn a case is may be divided among processes
const n = page.jobs[name] && !process.env.HV_PART ? Math.max(1, +nproc) : 1;
if (n > 1) {
    const t0 = Date.now();
    const parts = await Promise.all([...Array(n).keys()].map((i) => new Promise((ok) => {
        const c = spawn(process.execPath, ["--max-old-space-size=2000", process.argv[1], cmd, name, bound, "1", secs, dir || ""], { env: { ...process.env, HV_PART: i + "/" + n }, stdio: ["ignore", "pipe", "inherit"] });
        let s = "";
        c.stdout.on("data", (d) => { s += d; });
        c.on("close", (rc) => ok({ rc, s }));
    })));
    const bad = parts.find((p) => p.rc !== 0);
    if (bad) process.exit(bad.rc || 2);
    const o = merge(parts.map((p) => JSON.parse(p.s)));
    o.WallS = (Date.now() - t0) / 1000;
    fs.writeSync(1, JSON.stringify(o) + "\n");
} else {
    const [i, of] = (process.env.HV_PART || "0/1").split("/").map(Number);
    const out = new Out(+bound, +secs, i, of);
    await jobs[name](out, +bound, dir);
    out.print();
}
