import { load, product } from "./lib.mjs";

const pats = [
    { "base-url": "{url}/blob/{rev}/{path}{anchor}", anchor: "#L{line}" },
    { "base-url": "{url}/{path}{anchor}", anchor: "#{filename}-{line}" },
    { "base-url": "https:{hostname}{port}/projects/{project}/repos/{repo}/{path}?at={rev}{anchor}", anchor: "#{line}" },
    { "base-url": "{path}{path}{rev}{rev}{anchor}{anchor}{url}{url}{unknown}{", anchor: "{line}{line}{filename}{filename}{rev}" },
    { "base-url": "constant", anchor: "" },
    { "base-url": "{project}{{rev}}$&$1{repo}{hostname}{port}", anchor: "#$&{line}" },
    { "base-url": "{anchor}", anchor: "{{line}}" },
];

function expand(t, v) {
    let r = "";
    for (let i = 0; i < t.length; ) {
        const m = /^\{([a-z]+)\}/.exec(t.slice(i));
        if (m && Object.prototype.hasOwnProperty.call(v, m[1])) {
            r += v[m[1]];
            i += m[0].length;
        } else r += t[i++];
    }
    return r;
}

// the forms a repository's URL can have, with what they denote
function* urls(bound) {
    const more = bound > 2;
    const hosts = ["github.com", "h", "my.wiki.org", "git.h-1.example", "x.git.com", ...(more ? ["127.0.0.1", "hg", "digit"] : [])];
    const ports = ["", ":22", ":7999"];
    const projects = ["u", "Group/sub", "a.b", "$&", "{rev}", "x.wiki", ...(more ? ["~u", "git", "p-1_2/q/r", "$1$$", "é", "a.git"] : [])];
    const repos = ["r", "Re.po", "r.git.x", "wiki", "$$", "{path}", ...(more ? ["git", "r-1_2", "é", "a b", "$`$'", ".dot"] : [])];
    const ends = ["", ".git", ".wiki", ".wiki.git"];
    for (const [host, port, project, r, end] of product(hosts, ports, projects, repos, ends)) {
        const wiki = end.startsWith(".wiki");
        const p = wiki ? project + "/" + r : project;
        const n = wiki ? "wiki" : r;
        const forms = [
            ["https://" + host + port + "/", false],
            ["http://me:pw@" + host + port + "/", false],
            ["svn+ssh://" + host + port + "/", false],
            ["ssh://git@" + host + port + "/", true],
            ["ssh://hg@" + host + port + "/", true],
        ];
        if (!port) forms.push(["git@" + host + ":", true], ["hg@" + host + ":", true], ["/srv/" + host + "/", false], ["file:///" + host + "/", false], ["//" + host + "/", false]);
        for (const [pre, ssh] of forms) {
            const url = pre + project + "/" + r + end;
            yield ssh
                ? { url, wiki, v: { url: "//" + host + port + "/" + p + "/" + n, hostname: "//" + host, port, project: p, repo: n } }
                : { url, wiki, v: { url: pre + p + "/" + n, hostname: "", port: "", project: "", repo: "" } };
        }
    }
}

const paths = ["f", "dir/sub/f.go", "a.md", "d.md/x", "a b/é#?%.txt", "$&/$1", "{line}/{rev}{filename}", "{anchor}$$", "-", "$`.md"];
const lines = [null, 1, 12, "7", 123456];
const revs = ["main", "0123abcd", "$&", "{path}", "feature/x", "1"];

export const jobs = {
    // every form of URL with every pattern
    "k03-urls"(out, bound) {
        const { UrlToRepo, UrlParts } = load("common.js");
        for (const u of urls(bound)) {
            if (out.over()) return;
            out.o.States++;
            for (const [pat, path, line] of product(pats, bound > 2 ? paths.slice(0, 6) : paths.slice(1, 3), [null, 12])) {
                const rev = "main";
                const repo = { url: u.url, "url-pattern": pat };
                out.o.Transitions++;
                out.check(() => "url " + u.url + ", pattern " + JSON.stringify(pat) + ", path " + path + ", line " + line, () => judge(UrlToRepo, repo, u, pat, path, line, rev));
            }
            out.check(() => "root of " + u.url, () => {
                const got = UrlParts({ url: u.url, "url-pattern": pats[0] }).url;
                return got !== u.v.url && "root " + got + ", expected " + u.v.url;
            });
        }
    },
    // every value in every pattern
    "k03-values"(out, bound) {
        const { UrlToRepo } = load("common.js");
        const us = [...urls(1)].filter((_, i) => i % (bound > 2 ? 7 : 61) === 0);
        for (const [u, pat, path, line, rev] of product(us, pats, paths, lines, revs)) {
            if (out.over()) return;
            out.o.States++;
            out.o.Transitions++;
            const repo = { url: u.url, "url-pattern": pat };
            out.check(() => "url " + u.url + ", pattern " + JSON.stringify(pat) + ", path " + path + ", line " + line + ", revision " + rev, () => judge(UrlToRepo, repo, u, pat, path, line, rev));
        }
    },
    // every template of some pieces
    "k03-templates"(out, bound) {
        const { UrlToRepo } = load("common.js");
        const pieces = ["{url}", "{rev}", "{path}", "{anchor}", "{repo}", "{line}", "{", "}", "/", "$&", "{nope}"];
        const u = { url: "https://h/u/r", wiki: false, v: { url: "https://h/u/r", hostname: "", port: "", project: "", repo: "" } };
        const n = { 1: 2, 2: 3, 3: 4, 4: 5 }[bound];
        const rec = (k, t) => {
            if (out.over()) return;
            for (const [path, rev] of [["d/f", "main"], ["{rev}", "{path}"], ["$&", "$'"]]) {
                out.o.States++;
                out.o.Transitions++;
                const pat = { "base-url": t, anchor: "#L{line}" };
                out.check(() => "template " + t + ", path " + path + ", revision " + rev, () => judge(UrlToRepo, { url: u.url, "url-pattern": pat }, u, pat, path, 3, rev));
            }
            if (k < n) for (const p of pieces) rec(k + 1, t + p);
        };
        rec(0, "");
    },
};

function judge(UrlToRepo, repo, u, pat, path, line, rev) {
    const got = UrlToRepo(repo, path, line, rev);
    const filename = path.slice(path.lastIndexOf("/") + 1);
    const anchor = line && !u.wiki ? expand(pat.anchor, { line, filename }) : "";
    const want = expand(pat["base-url"], { ...u.v, path: u.wiki ? path.replace(/\.md$/, "") : path, rev, anchor });
    if (got !== want) return "link " + got + ", expected " + want;
}
