// Development aid (not used by any check): single-point mutants of the UI's JavaScript, each against the K03/K04 jobs.
//   node js.mjs OUT SEED N FILE...     (N: how many of each file, 0: all)
import { createRequire } from "module";
import fs from "fs"; import path from "path"; import { spawnSync } from "child_process";
const ts = createRequire("/opt/veriftools/node/")("typescript");
const [out, seed, N, ...files] = process.argv.slice(2);
let rs = +seed; const rnd = () => (rs = (rs * 1103515245 + 12345) % 2147483648) / 2147483648;
const swaps = { "<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "==": ["!="], "===": ["!=="], "!=": ["=="], "!==": ["==="], "&&": ["||"], "||": ["&&"], "+": ["-"], "-": ["+"], "*": ["/"] };
const all = [];
for (const f of files) {
  const src = fs.readFileSync("/repo/" + f, "utf8");
  const sf = ts.createSourceFile(f, src, ts.ScriptTarget.Latest, true, ts.ScriptKind.JSX);
  const l = []; let fn = "";
  const add = (a, b, repl, what) => l.push({ f, a, b, repl, line: sf.getLineAndCharacterOfPosition(a).line + 1, what: what.replace(/\s+/g, " ").slice(0, 150) });
  const t = n => n.getText(sf);
  const visit = n => {
    if (ts.isBinaryExpression(n)) {
      const op = n.operatorToken.getText(sf);
      for (const s of swaps[op] || []) add(n.operatorToken.getStart(sf), n.operatorToken.end, s, op + " -> " + s + " in " + t(n));
      if (op == "&&" || op == "||") { add(n.left.getStart(sf), n.right.getStart(sf), "", "without left of " + t(n)); add(n.left.end, n.right.end, "", "without right of " + t(n)); }
    }
    if (ts.isIfStatement(n) || ts.isConditionalExpression(n)) {
      const c = n.expression || n.condition; const cc = ts.isIfStatement(n) ? n.expression : n.condition;
      add(cc.getStart(sf), cc.end, "true", "always " + t(cc)); add(cc.getStart(sf), cc.end, "false", "never " + t(cc));
    }
    if (ts.isNumericLiteral(n)) { add(n.getStart(sf), n.end, String(+t(n) + 1), t(n) + " + 1"); if (+t(n)) add(n.getStart(sf), n.end, String(+t(n) - 1), t(n) + " - 1"); }
    if (n.kind == ts.SyntaxKind.TrueKeyword) add(n.getStart(sf), n.end, "false", "true -> false");
    if (n.kind == ts.SyntaxKind.FalseKeyword) add(n.getStart(sf), n.end, "true", "false -> true");
    if (ts.isExpressionStatement(n)) add(n.getStart(sf), n.end, ";", "without " + t(n));
    if (ts.isReturnStatement(n) && n.expression) add(n.getStart(sf), n.end, "return;", "return nothing: " + t(n));
    if (ts.isReturnStatement(n) && !n.expression) add(n.getStart(sf), n.end, ";", "without return");
    if (ts.isPrefixUnaryExpression(n) && t(n)[0] == "!") add(n.getStart(sf), n.getStart(sf) + 1, "", "without ! of " + t(n));
    if (ts.isPostfixUnaryExpression(n) || ts.isPrefixUnaryExpression(n) && /^(\+\+|--)/.test(t(n))) add(n.getStart(sf), n.end, t(n.operand), "no " + t(n));
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && ["trim", "toLowerCase", "slice", "sort", "reverse", "replace", "concat", "toString"].includes(n.expression.name.text)) add(n.getStart(sf), n.end, t(n.expression.expression), "no ." + n.expression.name.text + " in " + t(n));
    if (ts.isCallExpression(n) && ts.isIdentifier(n.expression) && n.arguments.length == 1) add(n.getStart(sf), n.end, "(" + t(n.arguments[0]) + ")", "no call " + t(n));
    if (ts.isStringLiteral(n) && n.text && !ts.isImportDeclaration(n.parent) && !ts.isCallExpression(n.parent) ) add(n.getStart(sf), n.end, "''", "'' for " + t(n));
    if (ts.isJsxAttribute && ts.isJsxAttribute(n) && !/className|style/.test(t(n))) add(n.getStart(sf), n.end, "", "without attribute " + t(n));
    ts.forEachChild(n, visit);
  };
  visit(sf);
  for (let i = l.length - 1; i > 0; i--) { const j = Math.floor(rnd() * (i + 1)); [l[i], l[j]] = [l[j], l[i]]; }
  all.push(...(+N ? l.slice(0, +N) : l));
}
console.error(all.length, "mutants");
const dir = "/dev/shm/jsmut"; fs.mkdirSync(dir, { recursive: true });
spawnSync("rsync", ["-a", "--delete", "--exclude", "node_modules", "--exclude", ".git", "/repo/", dir + "/"]);
const seen = fs.existsSync(out) ? fs.readFileSync(out, "utf8") : "";
const JOBS = [["k03-urls", 2], ["k03-values", 2], ["k03-templates", 2], ["k04-lines", 2], ["k04-text", 2], ["k04-form", 2], ["k04-excluded", 2], ["k04-history", 2]];
for (const m of all) {
  const id = `${m.f}:${m.line}:${m.a} ${m.what}`;
  if (seen.includes(id + "\n")) continue;
  const src = fs.readFileSync("/repo/" + m.f, "utf8");
  fs.writeFileSync(dir + "/" + m.f, src.slice(0, m.a) + m.repl + src.slice(m.b));
  let v = "SURVIVED", t0 = Date.now();
  for (const [j, b] of JOBS) {
    const r = spawnSync("node", ["harness/js/vui.mjs", "run", j, String(b), "4", "60", "/tmp"], { cwd: "/verif", env: { ...process.env, HV_BIN: "/verif/.cache/bin", HV_REPO: dir }, encoding: "utf8", timeout: 300000, maxBuffer: 1 << 28 });
    let o; try { o = JSON.parse(r.stdout); } catch (e) { v = "ERR " + j + " " + (r.stderr || "").slice(-200).replace(/\n/g, "|"); break; }
    if ((o.Violations || []).some(x => x.Key != "excluded-link-undefined")) { v = "CAUGHT " + j; break; }
  }
  fs.writeFileSync(dir + "/" + m.f, src);
  fs.appendFileSync(out, `${v.padEnd(20)} ${Math.round((Date.now() - t0) / 1000)}s ${id}\n`);
}
