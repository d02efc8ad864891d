"""What each check runs.  A job is one engine invocation over one finite space."""
import json, os

VRT_ENGINES = {"vconc", "vconc.race", "vcrash"}
ALL_ENGINES = ["vseq", "vconc", "vconc.race", "vcrash", "hound", "houndd"]

COUNTING = ("state: a decision point of the search tree reached by a distinct sequence of choices (schedules, faults, histories), or a distinct "
            "input case (bounded-exhaustive enumeration); transition: one scheduling step, operation or query executed on the implementation; "
            "trace: one complete execution of the implementation judged by the oracle")

SCHED = ("Go code between two scheduling points (lock, channel, atomic, file-system, timer operations of the code under test) runs atomically; "
         "the same bodies run under the race detector to justify it",
         "sequential consistency; bounded number of deviations from the default schedule as reported per job")

def conc(name, quick=2, thorough=4, weight=1):
    return ("conc", name, quick, thorough, weight)

def seq(name, quick=3, thorough=4, weight=1, engine="vseq", needs=()):
    return ("seq", name, quick, thorough, weight, engine, needs)

def race(name, quick=1, thorough=2):
    return ("race", name, quick, thorough, 1)

CHECKS = {}

def C(pid, technique, note, items, **kw):
    CHECKS[pid] = dict(technique=technique, note=note, items=items, **kw)

ENUM = "bounded-exhaustive model checking of the real code: every case of the finite space is executed and compared with an independent reference model"

C("S01", ENUM, "Every tree/pattern/option combination of several finite grammars, each search result compared with a line-by-line reference using Go's regexp.",
  [seq("s01-" + n) for n in ("ast", "edge", "icase", "literal", "words", "bytes", "big", "order")])
C("S02", ENUM, "Every pattern of several grammars up to a size against every text up to a length: whenever the reference matches a line of the text, the trigram query must admit the file.",
  [seq(n) for n in ("s02-ast", "s02-long", "s02-fold", "s02-nl", "s02-class", "s02-w-alts", "s02-w-sets", "s02-w-icase", "s02-w-edge")] + [seq("s02-folds", 4, 4)])
C("S03", ENUM, "Every pattern of several grammars up to a size, every text up to a length: lines found by the automaton compared with Go's regexp, also after other texts were matched with it.",
  [seq("s03-" + n) for n in ("ab", "edge", "word", "fold", "uni", "chunk", "parse", "quote", "states")] + [seq("s03-runes", 4, 4), seq("s03-folds", 4, 4), seq("s03-ranges", 4, 4)])
C("S04", ENUM, "Every file of up to k lines over a line alphabet, every context size, every set of matching lines.", [seq("s04-ctx")])
C("S05", ENUM, "Every number of files and matches per file up to a bound with every offset, limit and maximum.", [seq("s05-page"), seq("s05-cross")])
C("S06", ENUM, "Every pair of include and exclude patterns of a set with every small set of file names.", [seq("s06-filter"), seq("s06-cross")])
C("I01", ENUM, "Every set of up to n entries from 28 shapes under every option set, trees of up to 1030 entries of each of seven kinds, every way of reaching the tree, and every short byte string and limit-crossing content as a file; listed and searchable files compared with a reference walk.",
  [seq("i01-content", 3, 4, 2), seq("i01-roots"), seq("i01-huge"), seq("i01-names"), seq("i01-many", 3, 4), seq("i01-trees", 3, 4, 4)])
C("I02", ENUM, "Every sequence of up to k texts of several alphabets, of file sizes around every buffer and spill limit, of gaps between files sharing a trigram, of pieces the content arrives in; every posting list and every query tree up to a size compared with sets computed from the texts.",
  [seq("i02-" + n) for n in ("small", "spill", "gaps", "sizes", "read", "query")])
C("I03", ENUM, "Every pair of small indexes over ten roots (some a prefix of another's name, one ending in byte 0xff, the root directory) merged and compared with the index of the union; pairs of big ones around the limits of the encoding.",
  [seq("i03-merge", 2, 3), seq("i03-big")])
C("I04", ENUM, "Every tree and option set of a set built, opened and searched, then closed and opened again here and in another process.", [seq("i04-reopen")])
STATELESS = "stateless model checking of the real code: exhaustive deviation-bounded schedule enumeration under a controlled Go scheduler"

C("S07", STATELESS, "All schedules of 2-3 searching goroutines (and a closing one) on one real index up to the reported number of deviations; each answer compared with the sequential one. Same bodies under the race detector.",
  [seq("s07-seq"), conc("s07-2", 3, 6), conc("s07-3", 3, 5), conc("s07-close", 3, 6), conc("s07-destroy", 3, 6), conc("s07-same", 3, 6), race("s07-same"), race("s07-2"), race("s07-3"), race("s07-close")], assumptions=SCHED)
C("C01", STATELESS, "All schedules of searches against one or two reindexes (also failing and polled ones) up to the reported deviations, every result compared with the revisions live during it.",
  [conc("c01-1u2s"), conc("c01-1u1s2"), conc("c01-2u1s"), conc("c01-poll"), conc("c01-err"), race("c01-1u2s"), race("c01-2u1s"), race("c01-poll")], assumptions=SCHED)
C("C02", STATELESS + " plus exhaustive single-fault injection", "Live directory complete at every step and one directory left at the end, over all schedules within the bound and over every single failing file-system call of a swap; twenty-five reindexes in a row.",
  [conc("c02-1"), conc("c02-2"), conc("c02-err"), conc("c02-back"), conc("c02-fault"), conc("c02-runs", 0, 1), race("c02-1"), race("c02-2")], assumptions=SCHED)
C("C03", STATELESS, "All schedules of excluded-files requests against one or two reindexes up to the reported deviations.",
  [conc("c03-1", 3, 5), conc("c03-2"), race("c03-1"), race("c03-2")], assumptions=SCHED)
C("C04", STATELESS, "All schedules of stop/wait against idle, polling, updating and reindexing searchers up to the reported deviations; a missing wake-up shows as a blocked waiter.",
  [conc(n, 3, 5) for n in ("c04-idle", "c04-push", "c04-push2", "c04-poll", "c04-both", "c04-none", "c04-early", "c04-early-none", "c04-2w", "c04-err")] + [race("c04-both"), race("c04-early"), race("c04-2w")], assumptions=SCHED)
C("C05", STATELESS, "All schedules of update requests against running reindexes, polls, failures and each other up to the reported deviations.",
  [conc(n, 2, 4) for n in ("c05-1", "c05-2", "c05-3", "c05-err", "c05-early", "c05-nopush", "c05-nopush-poll")] + [conc("c05-poll", 2, 3), race("c05-2"), race("c05-early"), race("c05-poll")], assumptions=SCHED)
C("C06", STATELESS, "All schedules of 2-3 repositories starting and updating with 1-2 slots, and of 12 and 20 whose pulls take time with 9 and 3 slots, up to the reported deviations, counting repositories that pull or index.",
  [conc("c06-start-2-1", 2, 3), conc("c06-start-3-1", 2, 3), conc("c06-start-3-2", 1, 2, 2), conc("c06-upd-2-1", 2, 3), conc("c06-upd-2-1e", 3, 5), conc("c06-upd-3-2", 1, 2, 2), conc("c06-poll-2-1", 1, 2, 2), conc("c06-start-12-9", 1, 1), conc("c06-upd-12-9", 0, 1), conc("c06-start-20-3", 0, 1), conc("c06-upd-20-3", 0, 1), race("c06-start-3-2", 1, 1)], assumptions=SCHED)
C("C07", "explicit enumeration of all failure histories on the real code, and " + STATELESS, "Every history of pull outcomes (new, unchanged, pull error, unindexable tree) of two repositories to depth 4, runs of up to twelve equal failures, every one or two of twelve repositories failing to start, and all schedules of a failing beside a healthy repository within the bound.",
  [conc("c07-2", 1, 1), conc("c07-3", 1, 1), conc("c07-4", 1, 1), conc("c07-many", 0, 0), conc("c07-runs", 0, 1), conc("c07-inter", 2, 3), race("c07-inter")], assumptions=SCHED)
C("C08", STATELESS, "All schedules of the completion of per-repository searches (found, empty, failing) of one or two requests over up to 20 repositories up to the reported deviations, through the real HTTP handler.",
  [conc(n, 2, 5) for n in ("c08-2", "c08-3", "c08-3b", "c08-fail1", "c08-fail2", "c08-fail3")] + [conc("c08-fail5", 1, 2), conc("c08-many", 0, 1), conc("c08-manyfail", 1, 1), conc("c08-manymix", 0, 1), conc("c08-par", 2, 3), conc("c08-reindex", 2, 3, 2), race("c08-3"), race("c08-fail2"), race("c08-par")], assumptions=SCHED)
C("C09", STATELESS, "All schedules of requests against the switch to ready, on the real server mux, up to the reported deviations.",
  [conc("c09-%d" % i, 3, 5) for i in range(1, 8)] + [ race("c09-1"), race("c09-2")], assumptions=SCHED)
C("C10", STATELESS + ", with time passing only when nothing else can happen", "Every history of pull outcomes (new, unchanged, failing, unindexable, unindexable at first) to depth 4 and runs of a dozen equal ones, with intervals from 120 ms to 50 h, of pull durations and of update and stop requests (also at the very time of a poll) under every combination of poll and push settings on a simulated clock, and its schedules within the bound; when each pull began and ended compared with when it was due.",
  [conc("c10-poll", 1, 2, 2), conc("c10-long", 0, 1, 3), conc("c10-both", 0, 1, 2), conc("c10-push", 1, 3), conc("c10-none", 1, 3), conc("c10-ms", 0, 1), conc("c10-s", 0, 1), conc("c10-m", 0, 1), conc("c10-d", 0, 1), conc("c10-runs", 0, 1), conc("c10-2", 1, 2), race("c10-2")], assumptions=SCHED + ("computation takes no time on the simulated clock",))
C("C11", STATELESS, "All schedules, up to the reported deviations, of two or three repositories of one URL starting (with different and equal refs, with and without a fourth of another URL), updating on request and polling, with the remote moving in between; a git repository and a local directory at one URL on the real drivers; what each serves compared with its own ref.",
  [seq("g02-vcs"), conc("c11-start2", 2, 3), conc("c11-start3", 1, 2, 2), conc("c11-start3w", 1, 2, 2), conc("c11-mixed", 1, 2, 2), conc("c11-upd2", 3, 4), conc("c11-upd22", 2, 3), conc("c11-poll", 1, 2, 2), race("c11-start2"), race("c11-upd2")], assumptions=SCHED)
FAULT = "explicit enumeration of every kill point and every single failing operation of the real code (fault points added to the standard library)"
C("D01", FAULT, "Every mutating file-system operation (writes also cut) of starting, of reindexing and of discarding superseded indexes as the kill point, from several data directories; after a first kill every kill of the restart; two repositories at once under every schedule with one deviation; every state left is restarted at both revisions and compared with a fresh start.",
  [seq("d01-kill", 3, 4, 2, engine="vcrash"), seq("d01-kill2", 3, 4, 4, engine="vcrash"), seq("d01-conc", 3, 4, 3, engine="vcrash")],
  assumptions=("the process is killed, the machine is not: what was written stays", "a pull of the fake driver is not interrupted (the property is about indexes)"), level="fault_enumeration")
C("D02", FAULT, "Every file-system operation of building, opening and searching an index, of starting and of reindexing fails once or from then on with several errors, halfway, or is short; what is served, and what a restart makes of the rest, is compared.",
  [seq("d02-build", 3, 4, 2, engine="vcrash"), seq("d02-open", 3, 4, engine="vcrash"), seq("d02-serve", 3, 4, 2, engine="vcrash")], level="fault_enumeration")
C("D03", "explicit enumeration of start states, and " + STATELESS, "every pair of pre-existing index directories of twenty-four kinds (among them built with other options), twelve repositories with and without their own index beside as many other directories, and all schedules of two repositories (different or same URL) claiming them within the bound.",
  [conc("d03-seq", 1, 1), conc("d03-inter", 1, 2, 2), conc("d03-same", 1, 2, 2), conc("d03-many", 0, 0), race("d03-inter", 0, 1)], assumptions=SCHED)

C("D04", "explicit enumeration of histories on the real searchers, real git and real directories", "Every history of two (in part three; thorough: three) starts with fourteen configurations (local directories, watched or through a link, git remotes and branches, a user's working copy as local directory or remote, what is missing or no repository; with and without an update) and eight mishaps (lost manifests, indexes moved and linked, links to other files, git directories lost or without HEAD, sources changed, unreadable or moved away), the data directory plain, behind a link or in a user's working copy; kind, mode, time and content of everything else compared before and after each start.",
  [seq("d04-outside", 2, 3)], assumptions=("git itself writes only where it is told to",))
C("R01", ENUM + "; " + STATELESS, "Every history of up to 3 pull outcomes (new, same, failed, unusable tree) of one or two repositories followed by every kind of search or the end; every single failing file-system operation of building, of starting on empty, own and older directories, of two updates and of searching; every way in which up to two commands of git, svn, hg and bzr fail; every outcome of the startup of four repositories with five kinds of requests; every pair of outcomes of the client's two requests; all schedules of searches against one and two updates within the bound. After each the open and mapped files, temporary files, index directories, goroutines and child processes are counted.",
  [seq("r01-build", 3, 4, engine="vcrash"), seq("r01-serve", 3, 4, engine="vcrash"), seq("r01-procs", 3, 4), conc("r01-start", 1, 1), conc("r01-over", 2, 3), conc("r01-over2", 2, 3), conc("r01-overbad", 2, 3), conc("r01-api", 1, 3), conc("r01-client", 2, 4)], assumptions=SCHED)

C("A01", ENUM, "Every search request that differs from a base request in at most k parameters (values include malformed, boundary and huge ones), sent in five ways, compared with the search it denotes; limits on a repository with over 100000 results; 130 repositories; unusual requests to every endpoint.",
  [seq("a01-params", 2, 3, 3), seq("a01-big"), seq("a01-many", 1, 1), seq("a01-raw")])
C("A02", "explicit enumeration of configurations and request pairs on the real handlers under a controlled scheduler (which tells when nothing more will be pulled)", "Every request of a set, and every pair of them, on all 81 push/poll configurations of two repositories beside one that failed to start; answers and pulls compared.",
  [conc("a02-1", 1, 1), conc("a02-2", 1, 1, 3)])
C("A03", ENUM, "Every placement of secrets of nine shapes in repository and global configuration, several drivers, a repository that fails; every page and endpoint in both modes searched for them also in encoded form; what the driver receives compared with the merge.",
  [seq("a03-secrets")])
C("A04", ENUM, "Every pair of 34 hostile strings in every pair of eight configured texts; the page is tokenized by the HTML rules, compared with a benign page and its data recovered; every bundled file and many other paths requested.",
  [seq("a04-pages"), seq("a04-assets")])
C("G01", ENUM, "Every presence/absence/zero/null combination (pairwise over all fields, more in the thorough tier) of top-level and repository fields, every overlap of global and local settings of two repositories and kinds, every single and double mutation of a valid file, every form of path; loaded and compared with a reference.",
  [seq("g01-fields", 2, 3), seq("g01-merge", 2, 3), seq("g01-malformed", 2, 2), seq("g01-path", 2, 2)])
C("G02", ENUM, "Every pair (thorough: triple) of 48 settings of one repository, every pair of 33 (thorough 120) configurations of up to two repositories (also of one URL), every pair of settings of a git repository, every pair of one or two repositories of two kinds at one URL, started one after the other over one data directory on the real drivers; compared with a start over an empty one.",
  [seq("g02-one", 2, 3, 3), seq("g02-two", 2, 3, 2), seq("g02-git", 2, 4), seq("g02-vcs"), seq("g02-urls")])
C("K01", ENUM, "Every set of matching lines of files up to 10 lines with the server's and with every legal truncation of context, and long files, presented to a file and to a terminal; every pattern of a grammar highlighted in every short line; real trees through the real server, client and presenter.",
  [seq("k01-server"), seq("k01-any", 4, 5), seq("k01-numbers", 1, 1), seq("k01-long", 1, 1), seq("k01-hilite", 2, 3, 2), seq("k01-real")])
C("K02", ENUM, "Every request that differs from the default in at most k arguments; every pair of good and failing answers in either order, and answers cut short at every byte; the real program with every combination of flags and every failing answer; names for every URL of up to k components.",
  [seq("k02-args"), seq("k02-outcomes", 3, 3), seq("k02-cli", 3, 4, needs=("hound",)), seq("k02-names")])
C("K03", ENUM, "Every URL of several forms, hosts, ports, projects and names with every pattern; every combination of values, also ones that look like variables or replacement codes; every template of up to k pieces; the UI's own module run in node and compared with a reference expansion.",
  [seq("k03-urls", engine="vui", quick=2, thorough=3), seq("k03-values", engine="vui", quick=2, thorough=3), seq("k03-templates", engine="vui", quick=3, thorough=4)])
C("K04", "explicit enumeration of inputs and of histories of user actions and answers on the UI's own script and React, on a small DOM with every request held", "Every set of matching lines among up to n with every context, long files and large answers; every text of up to k pieces (markup, entities, quotes) under 40 queries (also ones only Go takes) and as names and messages; every form that differs from the default in up to k fields with eight starting URLs, its request, URL, reopening and going back; every sequence of up to d searches, navigation, loading more and answers, errors or losses in any order, and of opening and closing files and repositories; the page of excluded files likewise; the page and answers of the real server against the reference that the other jobs use.",
  [seq("k04-lines", engine="vui", quick=2, thorough=4), seq("k04-text", engine="vui", quick=2, thorough=4, weight=3), seq("k04-form", engine="vui", quick=2, thorough=4, weight=2), seq("k04-history", engine="vui", quick=2, thorough=4, weight=4), seq("k04-open", engine="vui", quick=2, thorough=3), seq("k04-excluded", engine="vui", quick=2, thorough=4), seq("k04-served", engine="vui", quick=2, thorough=4, needs=("houndd",))],
  assumptions=("a small DOM stands for the browser's", "patterns that JavaScript reads otherwise than Go are judged for their text only"))

C("V01", "explicit enumeration of histories on the real driver and real git", "Every sequence up to a length of remote operations (refs moved to any of eight commits, deleted, HEAD moved, tags, an unreachable remote), local disturbances and changes of the configured ref, for twenty configurations (branch names of any characters), with a pull after each step; revision and working copy compared with the commit; every set of missing parts of a working copy, also inside another repository, which must be left alone.",
  [seq("v01-half", 2, 4), seq("v01-git", 3, 4, 4)], assumptions=("git itself is correct", "untracked files that lie in the working copy are left alone by git and are outside the property"))
C("V02", "explicit enumeration of histories on the real driver", "Every sequence up to a length of content, name, time and mode changes of a directory, a pull after each; revisions equal exactly if contents are; every other kind of entry, every way to name the directory; the directory compared before and after, what is indexed from it; every place of a changed byte in files up to 32 MB and every changed file among up to 1001, flat or deep.",
  [seq("v02-local", 2, 4), seq("v02-sizes", 2, 4)])
C("V03", "explicit enumeration of outcomes of the scripted tools", "Every sequence up to a length of updates with the tool succeeding, failing, failing halfway, being killed or chatty, and the same for the one that tells the revision; every name, alias and configuration; every sequence of changes at the remote with programs that play the tools (fetched, checked out and reported revisions told apart).",
  [seq("v03-tools", 2, 3, 3), seq("v03-sim", 2, 4), seq("v03-names", 1, 1)], assumptions=("svn, hg and bzr are not installed: scripts stand for them that understand the documented sub-commands",))
C("V04", "explicit enumeration of attribute files on the real driver and real git, and of histories of revisions on the real searcher under a controlled scheduler", "Every sequence of up to k lines of 11 patterns and 9 attribute forms in two attribute files against 11 names; every history of up to 3 updates with four sets of marks or a failure under four configured lists, then a restart.",
  [seq("v04-git", 2, 3), conc("v04-2", 1, 1, 2), conc("v04-3", 1, 2, 2)])

C("H01", "explicit enumeration of configurations and of the points at which the real process is signalled, held there by scripted tools", "Every set of up to k repositories of eight kinds (good with any update setting, failing in four ways), 1 or 2 indexers, 1 or 2 signals while idle, while each good repository is in either stage of its first update, of a later one, or of one at a second start; what is served at each stage, exit status, directories and what a restart serves.",
  [seq("h01-daemon", 2, 3, 2, needs=("houndd",))], assumptions=("a process that has not ended 40 ms after a signal while a tool is held is taken to wait for it (a late wrong exit is seen as a wrong status or lost index)",))

def jobs(pid, tier):
    out = []
    for it in CHECKS[pid]["items"]:
        if it[0] in ("conc", "race"):
            _, n, q, t, w = it
            b = t if tier == "thorough" else q
            eng = "vconc" if it[0] == "conc" else "vconc.race"
            out.append({"engine": eng, "name": n + (" (race detector)" if it[0] == "race" else ""), "what": "schedules, at most %d deviations" % b,
                        "args": ["explore", n, str(b), "{nproc}", "{secs}", "{dir}"], "weight": w})
        elif it[0] == "seq":
            _, n, q, t, w, eng, needs = it
            b = t if tier == "thorough" else q
            out.append({"engine": eng, "name": n, "what": "bounded-exhaustive enumeration, bound %d" % b,
                        "args": ["run", n, str(b), "{nproc}", "{secs}", "{dir}"], "weight": w, "needs": list(needs)})
        else:
            d = dict(it[1])
            d["args"] = d.get(tier + "_args", d.get("args"))
            out.append(d)
    return out

def manifest(V):
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    cs = []
    for i in ids:
        if i in CHECKS:
            c = CHECKS[i]
            cs.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "technique": c["technique"], "level": c.get("level", "model_checking"), "level_note": c["note"]})
    return {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": cs,
            "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in CHECKS],
            "notes": "No hooks in /repo: the scheduler and fault points are added to the Go standard library with a build overlay (vrt/gen.py)."}

NA = {}
