#!/usr/bin/env python3
"""Writes properties.jsonl from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- search
p("S01", "A search reports exactly the lines that match",
  "For any indexed tree of text files and any accepted pattern, a search reports exactly the lines on which the pattern matches when each line of each searchable file is examined on its own with Go regular-expression semantics (letter case ignored when asked, pattern taken literally when asked; anchors for the beginning and end of the text, as opposed to the line, mean the whole file): none missing, none invented, none twice. Each reported match carries the right file name, the right 1-based line number and the exact text of the line, in file order and line order.",
  ["inputs"], "every tree of small files over an alphabet of line contents (repeated, empty, unterminated, CRLF, long, non-ASCII lines) x every pattern of a regexp grammar up to a depth x option combinations",
  "index_test and grep_test look at a handful of fixed patterns over the repository's own files; nothing compares a whole result set with an independent grep over all pattern and file shapes.",
  ["index/index.go", "index/grep.go", "codesearch/index/regexp.go", "codesearch/index/read.go", "codesearch/regexp/match.go"],
  [("trigram candidate selection, then a whole-file grep of each candidate", "index/index.go Search, index/grep.go grep2")],
  observe=["index.Index.Search"])
p("S02", "The trigram index never hides a file that contains a match",
  "For any pattern and any indexed file, if some line of the file matches the pattern then the index lookup that selects candidate files for that pattern selects that file. Selecting too many files is allowed, leaving out a matching one never is.",
  ["inputs", "programs"], "every regular expression of a grammar (literals, classes, alternation, concatenation, repetition, case folding, anchors, empty) up to a size x every file content up to a length over the same alphabet",
  "regexp_test compares the textual form of about sixty query trees; it never checks that a query admits every file its pattern matches.",
  ["codesearch/index/regexp.go", "codesearch/index/read.go", "codesearch/index/write.go"],
  [("analysis of the regexp into an AND/OR query over trigrams", "codesearch/index/regexp.go"), ("posting-list evaluation of the query", "codesearch/index/read.go postingQuery")],
  observe=["codesearch/index.RegexpQuery", "codesearch/index.Index.PostingQuery"])
p("S03", "The line matcher agrees with Go's regexp on every line",
  "For any pattern the search engine accepts and any text, the lines the engine's own automaton finds in the text are exactly the lines on which Go's standard regexp package finds a match for the same pattern in multi-line mode (text anchors refer to the whole text, and a text has no further line after its final newline), whatever was matched before with the same compiled pattern. Patterns are accepted or rejected exactly when the standard syntax accepts or rejects them.",
  ["inputs", "programs"], "every regular expression of a grammar up to a size (including case folding, word boundaries, line anchors, negated classes, multi-byte characters) x every text up to a length over the same alphabet",
  "regexp_test runs a table of about eighty pattern/text pairs; automaton state caching, byte-range splitting and case folding have unbounded input spaces.",
  ["codesearch/regexp/match.go", "codesearch/regexp/utf.go", "codesearch/regexp/copy.go", "codesearch/regexp/regexp.go"],
  [("lazy DFA over byte ranges with end-of-line and word-boundary flags", "codesearch/regexp/match.go")],
  observe=["codesearch/regexp.Compile", "codesearch/regexp.Regexp.Match", "codesearch/regexp.Regexp.MatchString"])
p("S04", "Context lines are exactly the neighbouring lines",
  "With n lines of context requested, every reported match carries as its after-context the next n lines of the file (fewer only where the file ends) and as its before-context the up to n lines immediately preceding it that come after the previously reported match in that file. The text of every context line is the exact text of that line of the file.",
  ["inputs"], "every file of up to k lines over an alphabet of line contents (empty lines and missing final newline included) x every context size 0..n x every set of matching lines",
  "grep_test checks some fixed texts and pins two helper functions on a few inputs; the product of positions, blank lines, file ends and context sizes is not covered.",
  ["index/grep.go", "index/index.go"],
  [("splitting lines around a match in the whole-file buffer", "index/grep.go lastNLines/firstNLines/grep2")],
  observe=["index.Index.Search"])
p("S05", "Paging and result limits select a consistent part of the full result",
  "A search with a range offset:limit returns exactly the files at those positions of the list of matching files that the same search returns without a range, each with all its matches, and reports the same total number of matching files; a set of adjacent ranges therefore partitions the full result. A search with a maximum number of results returns exactly the first that many matches of the unlimited result.",
  ["inputs", "configurations"], "every number of matching files and matches per file up to a bound x every offset, limit and maximum (zero, boundary, beyond the end, negative limit meaning none)",
  "index_test has no test with a range or a limit at all.",
  ["index/index.go", "api/api.go"],
  [("counters of found, collected and matched in the search loop", "index/index.go Search")],
  observe=["index.Index.Search", "GET /api/v1/search"])
p("S06", "File filters include and exclude exactly by file name",
  "A search with a file pattern or an exclude-file pattern reports exactly the matches of the unfiltered search in files (names without newline) whose repository-relative name matches the first and does not match the second. A syntax error in any of the three patterns is reported as an error and never as an empty or partial result.",
  ["inputs", "configurations"], "every pair of include/exclude patterns from a set (anchors, path separators, dots, match at the first byte, empty) x every set of file names up to a size",
  "no existing test searches with a file filter.",
  ["index/index.go"], [("name filters applied to each candidate file", "index/index.go Search")],
  observe=["index.Index.Search"])
p("S07", "Searching one index from several goroutines gives each its own answer",
  "Any number of searches running at the same time on the same index each return exactly what they would return alone, and an index can be closed only when no search is using it. Searching never modifies the index.",
  ["schedules", "inputs"], "all interleavings, up to a preemption bound, of two or three searches with different patterns (and a close) on one index; race detector on every explored schedule",
  "no test searches concurrently.",
  ["index/index.go", "codesearch/index/read.go", "codesearch/regexp/match.go"],
  [("read lock held for the whole search", "index/index.go Search/Close/Destroy")],
  observe=["index.Index.Search", "index.Index.Close"])

# ---------------------------------------------------------------- index
p("I01", "Every file of the tree is searchable or listed as excluded, never lost",
  "After a tree is indexed, every regular file in it is either searchable with its complete content or listed once among the excluded files with the reason, and never both; every other non-directory entry is listed as excluded. A file is excluded only for a reason that holds for it: not valid UTF-8 text, over the length limit, too many long lines, or too many distinct trigrams. Only files and directories named as special, and (when dot files are excluded) directories whose name starts with a dot, are left out without an entry, and nothing outside the tree appears.",
  ["inputs", "configurations"], "every tree from a set of shapes (nesting, dot names at each level and as the root, symlinks, fifos, empty files, names with odd characters) x contents at the limits of the text detection and indexing rules (invalid UTF-8, NUL, size and line-length and distinct-trigram limits, multi-byte characters across read boundaries) x option combinations",
  "index_test indexes the repository's own directory and checks that some files are present.",
  ["index/index.go", "codesearch/index/write.go"],
  [("directory walk with exclusion rules", "index/index.go indexAllFiles"), ("text detection and per-file limits", "index/index.go isTextFile, codesearch/index/write.go Add")],
  observe=["index.Build", "excluded_files.json", "index.Index.Search"])
p("I02", "A written index reads back as exactly the files and trigrams added",
  "For any sequence of files added, the index file read back lists exactly the accepted files in the order added, and for every trigram gives exactly the list of files that contain it, independently of how many times the in-memory buffer was spilled while writing. Queries that combine posting lists return exactly the set the boolean combination denotes.",
  ["inputs", "histories"], "every sequence of up to n files over a small set of contents x every in-memory buffer size from tiny to large (no spill, one spill, many spills) x every posting query up to a depth; file-number gaps up to multi-byte varints",
  "write_test writes a trivial index once and compares bytes; spilling and multi-way merging need 64 MB of postings and never happen in a test.",
  ["codesearch/index/write.go", "codesearch/index/read.go", "codesearch/sparse/set.go"],
  [("sorted posting buffers spilled to temporary files and heap-merged", "codesearch/index/write.go"), ("delta-coded posting list reader and binary search of the trigram table", "codesearch/index/read.go")],
  observe=["codesearch/index.Create", "codesearch/index.Open"])
p("I03", "Merging two index files equals indexing their union",
  "The merge of two index files lists every path root and file of both, where a root present in both takes all its files from the second, and for every trigram gives exactly the merged list of files that contain it. Every query on the merged index returns the files it returns on an index built from the union.",
  ["inputs"], "every pair of indexes over small sets of roots, files and contents, overlapping and disjoint, empty on either side",
  "merge_test merges one fixed pair.",
  ["codesearch/index/merge.go"],
  [("interleaving of file ranges and renumbering of posting lists", "codesearch/index/merge.go")],
  observe=["codesearch/index.Merge"])
p("I04", "A reopened index answers as it did when it was built",
  "An index directory opened again, by the same or another process, reports the same URL, revision and auto-generated files and gives the same answer to every search as when it was built, and searches through a freshly opened and a re-opened index agree. A file is marked auto-generated in a result exactly when its name is on the list given for the repository.",
  ["inputs", "histories"], "every tree/option combination of a set x build, open, search, close, reopen sequences; every auto-generated list over the file names",
  "index_test reads back three fields of one manifest.",
  ["index/index.go"],
  [("gob manifest next to the index and compressed copies of the files", "index/index.go Build/Read/Open")],
  observe=["index.Build", "index.Read", "index.Open"])

# ---------------------------------------------------------------- concurrency
p("C01", "A search during a reindex sees one whole revision",
  "While a repository is being re-indexed any number of times, every search of it succeeds and returns exactly the matches of one single revision that was current at some moment during the search, labelled with that revision. A search started after the new revision was made live never returns an older one.",
  ["schedules", "histories"], "all interleavings, up to a preemption bound, of concurrent searches with one or more poll/update-driven reindexes of the same repository",
  "no test runs a search and a reindex at the same time; the window is a few instructions wide.",
  ["searcher/searcher.go", "index/index.go"],
  [("read-write lock around the current index", "searcher/searcher.go Search/swapIndexes")],
  state=[("idx", "the live index", "searcher/searcher.go Searcher")],
  observe=["searcher.Searcher.Search"])
p("C02", "The live index is never removed and superseded ones always are",
  "At every moment the index directory a repository is being served from exists complete on disk, in particular through every failure while replacing or removing the previous one. Once a reindex has finished and no search is running, exactly one index directory per repository remains (unless removing the old one failed).",
  ["schedules", "fault_sequences"], "all interleavings up to a preemption bound of searches and reindexes, and every single file-system failure during the removal of the old index",
  "no test replaces a live index, and none fails a removal.",
  ["searcher/searcher.go", "index/index.go"],
  [("swap under the write lock, then destroy the old index", "searcher/searcher.go swapIndexes/updateAndReindex")],
  observe=["dbpath directory listing", "searcher.Searcher.Search"])
p("C03", "The excluded-files list is always one revision's complete list",
  "Asking for the excluded files of a repository always yields the complete, well-formed list belonging to one revision that was live during the request, also while the repository is being re-indexed and its old index removed.",
  ["schedules"], "all interleavings, up to a preemption bound, of excluded-files requests with reindexes",
  "no test calls it during a reindex.",
  ["searcher/searcher.go", "api/api.go"],
  [("reads a file inside the live index directory", "searcher/searcher.go GetExcludedFiles")],
  observe=["searcher.Searcher.GetExcludedFiles", "GET /api/v1/excludes"])
p("C04", "Shutdown always completes, and only after running indexing has finished",
  "Once a repository's searcher is asked to stop (once or several times), waiting for it returns in every schedule, whether it is idle, waiting for a poll, holding a pending update or in the middle of a reindex. It returns only when no pull or indexing of that repository is running, and none starts afterwards.",
  ["schedules"], "all interleavings, up to a preemption bound, of stop and wait with polls, update requests and reindexes, for every combination of update modes",
  "no test stops a searcher.",
  ["searcher/searcher.go", "cmds/houndd/main.go"],
  [("shutdown flag and channel read by the poller", "searcher/searcher.go Stop/Wait/waitForUpdate")],
  observe=["searcher.Searcher.Stop", "searcher.Searcher.Wait"])
p("C05", "An accepted update request is always followed by a pull",
  "When an update request is accepted, a pull of that repository begins after the request was made, however it interleaves with running reindexes and other requests; requests that arrive while one is pending are coalesced into it. Making a request never blocks and is refused exactly when push updates are disabled for the repository.",
  ["schedules"], "all interleavings, up to a preemption bound, of up to three update requests with reindexes, polls and each other",
  "no test makes an update request.",
  ["searcher/searcher.go", "api/api.go"],
  [("one-slot update channel", "searcher/searcher.go Update/waitForUpdate")],
  observe=["searcher.Searcher.Update", "driver calls"])
p("C06", "No more repositories are indexed at once than configured",
  "At no moment do more repositories pull or build an index than the configured maximum number of concurrent indexers, at startup and for later updates together, and whatever fails, every slot is given back: each repository that needs indexing is eventually served.",
  ["schedules", "fault_sequences"], "all interleavings, up to a preemption bound, of the startup and updates of two or three repositories with limits 1 and 2, with every combination of failing pulls and builds",
  "no test runs more than one repository.",
  ["searcher/searcher.go"],
  [("counting limiter acquired around pull and build", "searcher/searcher.go limiter, newSearcherConcurrent, updateAndReindex")],
  observe=["driver calls", "searcher.MakeAll"])
p("C07", "A failing repository never affects the others, nor what it already serves",
  "If pulling or indexing a repository fails at startup, every other repository is still served and the failing one is reported by name with its error; if it fails later, the repository keeps serving its last good revision in full and the next successful poll or update brings it up to date. No failure of one repository ends the process or blocks another.",
  ["fault_sequences", "histories"], "every sequence up to a length of pull outcomes (new revision, unchanged, error, broken tree) for two repositories",
  "no test makes a driver fail.",
  ["searcher/searcher.go", "cmds/houndd/main.go"],
  [("per-repository error results; the old index stays live on every failure path", "searcher/searcher.go MakeAll/updateAndReindex")],
  observe=["searcher.MakeAll", "searcher.Searcher.Search"])
p("C08", "A search over several repositories is complete or an error",
  "A search over several repositories returns, for each named repository that exists and has a match, exactly that repository's own result under its own name, or else an error for the whole request; it never silently omits or mixes up a repository. No goroutine outlives the request beyond the repositories' own searches, and no schedule of their completion changes the answer.",
  ["schedules", "inputs"], "all completion orders and interleavings, up to a preemption bound, of searches over one to three repositories, with every combination of succeeding, empty and failing repositories",
  "api_test only checks the parsing of integers.",
  ["api/api.go"],
  [("fan-out over goroutines collected on a buffered channel", "api/api.go searchAll")],
  observe=["GET /api/v1/search"])
p("C09", "The server answers 503 until indexes are ready, and correctly after",
  "From the moment the server starts, the health-check address answers 200, and every other request is answered either 503 (before the indexes are ready) or exactly as the fully ready server answers it; once one request has been served normally no later one is answered 503.",
  ["schedules"], "all interleavings, up to a preemption bound, of requests with the switch to ready",
  "no test covers the web server.",
  ["web/web.go", "cmds/houndd/main.go"],
  [("mux pointer swapped under a lock", "web/web.go ServeHTTP/serveWith")],
  observe=["web.Server.ServeHTTP", "web.Server.ServeWithIndex"])

p("C10", "A repository is pulled again every poll interval until it is stopped",
  "While polling is enabled for a repository, whatever came of the last pull (a new revision, the old one, an error, a tree that could not be indexed) and whatever updates were requested in between, it is pulled again no later than its poll interval after that pull was dealt with, without waiting for anybody else, and without more pulls than intervals and requested updates account for. An accepted update is carried out at once, or right after the pull in progress. Without polling nothing else is pulled. After it was told to stop no pull begins, and its worker ends.",
  ["schedules", "histories"], "every history, to a depth, of pull outcomes and durations and of update and stop requests at and between the times of polls, under every combination of poll and push settings, on a simulated clock; all interleavings up to a preemption bound",
  "the tests never wait for a poll.",
  ["searcher/searcher.go", "config/config.go"],
  [("select over update, timer and shutdown channels in a loop", "searcher/searcher.go waitForUpdate, newSearcher")],
  observe=["vcs.Driver.Pull (fake driver)", "searcher.Searcher.Update/Stop/Wait"])

p("C11", "Repositories that share a URL each serve their own revision",
  "Several repositories may have the same URL and differ in what they track or how they are indexed. Each of them starts, and follows the remote, as if it were alone: what it serves is at all times exactly the tree of one revision of what it tracks itself, indexed with its own options and labelled with that revision, and it comes to serve the newest one after the poll or accepted update that follows a change; whatever the others do in the working copy at the same time.",
  ["schedules", "configurations"], "every interleaving, up to a preemption bound, of the starts, polls and updates of two or three repositories that share a URL (with the same and with different settings), beside one that does not",
  "no test has two repositories with one URL.",
  ["searcher/searcher.go", "vcs/vcs.go"],
  [("working copies named by a hash of the URL; pull and indexing of a shared one under a lock", "searcher/searcher.go vcsDirFor/lockVcsDir/updateAndReindex/newSearcher")],
  observe=["searcher.MakeAll", "searcher.Searcher.Search", "vcs.Driver (fake driver)"])

# ---------------------------------------------------------------- durability
p("D01", "A kill at any point never leads to wrong results after restart",
  "If the process is killed at any point while it builds, replaces or removes indexes, a restart on the same data directory serves every repository with results identical to a fresh start on an empty directory. Leftover incomplete or superseded index directories are never served and are gone once startup has finished.",
  ["crash_points", "histories"], "every file-system operation (and torn write) of first indexing, reindexing, startup cleanup, as the kill point, followed by a restart and, for a second kill, every point of the restart",
  "no test kills anything.",
  ["searcher/searcher.go", "index/index.go"],
  [("manifest written last; unclaimed index directories removed at startup", "index/index.go Build, searcher/searcher.go findExistingRefs/removeUnclaimed")],
  observe=["dbpath directory", "searcher.MakeAll"])
p("D02", "A failing file-system call never makes an incomplete index go live",
  "If any single file-system operation fails while an index is built or opened, the failure is reported (as an error for that repository or by ending the process) or the resulting index is complete; it never results in a live index that silently lacks files, lines or excluded-file entries, and an index that was live before stays so, complete.",
  ["fault_sequences"], "every file-system operation of building and opening an index, failing once or from then on, with each of a set of error codes, short reads and short writes",
  "no test injects an I/O error.",
  ["index/index.go", "codesearch/index/write.go"],
  [("errors propagated from the walk, the copies and the index writer", "index/index.go addFileToIndex/indexAllFiles/Build")],
  observe=["index.Build", "index.Index.Search"])
p("D03", "Startup reuses exactly the index that fits and discards the rest",
  "At startup an existing index directory is reused for a repository only if it is complete and records that repository's URL, current revision and indexing options; each directory is used by at most one repository; every other index directory in the data directory is removed and nothing else there is touched. A repository that finds no such directory is indexed afresh.",
  ["configurations", "histories"], "every combination, up to a size, of pre-existing index directories (matching, other revision, other URL, incomplete, corrupt, duplicate) and configured repositories (including two with the same URL), in every interleaving of their startup up to a preemption bound",
  "no test starts on an existing data directory.",
  ["searcher/searcher.go", "index/index.go"],
  [("find and claim of refs, removal of unclaimed", "searcher/searcher.go foundRefs")],
  observe=["searcher.MakeAll", "dbpath directory listing"])

p("D04", "Nothing but Hound's own indexes and working copies is ever changed",
  "Starting, updating, searching and stopping write and remove only what Hound keeps in its data directory: index directories (idx-*), the working copies it made itself (vcs-*), and temporary files, which are gone afterwards. Everything else is left as it is, in content, mode, time and place: the directories and repositories that are indexed, whatever links in them lead to, a working copy of the user's that serves as a remote, other files in the data directory, whatever lies beside or around it (also a repository of the user's that the data directory lies in), and whatever a link in the data directory leads to, unless that is an index of Hound's. This holds whether an update succeeds or fails, and also if indexes or working copies were damaged, moved or linked or the sources changed, broke or disappeared in between.",
  ["histories", "faults", "configurations"], "every history up to a length of starts with one of fourteen configurations and of mishaps to indexes, working copies and sources, with the data directory plain, behind a link, or inside a repository of the user's",
  "no test looks at the source or anything else outside the data directory after an operation, let alone with a damaged working copy.",
  ["searcher/searcher.go", "index/index.go", "vcs/git.go", "vcs/local.go", "vcs/vcs.go"],
  [("removal of superseded and unclaimed indexes", "index/index.go Remove, Destroy"), ("working copies: a link for a local directory, a clone for git", "vcs/local.go Clone, vcs/git.go run")],
  observe=["searcher.MakeAll", "searcher.Searcher.Update", "file system outside dbpath"])

# ---------------------------------------------------------------- API
p("A01", "API search parameters mean what the documentation says",
  "Every combination of search parameters (query, repos, files, excludeFiles, i, literal, rng, limit, ctx, stats), present, absent, out of range or malformed, yields exactly the result of the search those parameters denote: defaults where absent or malformed, clamping to the documented maxima, unknown repositories ignored, all repositories for '*', repositories without a match omitted. Responses are always well-formed JSON with the documented content type, and no request makes the handler panic or hang.",
  ["inputs"], "every combination of values from per-parameter sets with boundary, malformed and huge values, for GET and POST",
  "api_test checks one integer-parsing helper on a few inputs.",
  ["api/api.go", "index/index.go"],
  [("form-value parsing with defaults and clamps", "api/api.go parseAs*, Setup")],
  observe=["GET /api/v1/search", "GET /api/v1/repos", "GET /api/v1/excludes"])
p("A02", "Update endpoints act only on allowed requests for known repositories",
  "A POST to the update or webhook endpoint triggers an update of exactly the named existing repositories that allow push updates and answers ok; any other method, unknown repository, repository without push updates or malformed body is refused with the corresponding status (405, 404, 403, 400) and an error, and triggers nothing for the refused repository. No request makes the handler panic or block.",
  ["inputs", "histories"], "every method x endpoint x repository list/body from a set, over every configuration of push/poll settings of two repositories, and every pair of such requests in sequence",
  "no test calls an update endpoint.",
  ["api/api.go", "searcher/searcher.go"],
  [("method, existence and permission checks before Update", "api/api.go Setup")],
  observe=["POST /api/v1/update", "POST /api/v1/github-webhook"])
p("A03", "VCS credentials never leave the server",
  "No response of the server (search page, repository list, search results, errors, any API endpoint) contains any part of the version-control configuration of a repository or of the global one, whatever the configuration and whatever the request. The configuration is nevertheless passed unchanged to the version-control driver.",
  ["inputs", "configurations"], "every placement of secret values (repo-level, global, merged, nested, with characters that need escaping) x every endpoint and page x success and error responses",
  "config_test checks that one secret does not marshal; it does not look at what the server sends.",
  ["config/config.go", "api/api.go", "ui/ui.go"],
  [("secret type that marshals to an empty object", "config/config.go SecretMessage")],
  observe=["all HTTP responses"])
p("A04", "The search page carries the repository data intact and inert",
  "For any repository names, display names, URLs and title, the served page is valid HTML from whose embedded data exactly the configured repositories can be recovered, and no configured text can end the script or title element or otherwise inject markup. Static assets are served with the exact bundled bytes and unknown paths with 404.",
  ["inputs", "configurations"], "every combination of hostile strings (tags, quotes, unicode line separators, template and script terminators) in each configured text x each page",
  "no test covers the UI handler.",
  ["ui/ui.go", "ui/content.go", "ui/assets/index.tpl.html"],
  [("html/template escaping of title and JSON data", "ui/ui.go renderForPrd")],
  observe=["GET /", "GET /excluded_files.html", "GET /open_search.xml"])

# ---------------------------------------------------------------- config
p("G01", "Configuration values are taken as written and defaults fill only gaps",
  "Loading a configuration keeps every value that is present and gives every absent or zero one its default, independently for each repository: git, polling every 30000 ms, poll updates on, push updates off, dot files included, the blob/rev/path URL pattern with #L anchors; title Hound, /healthz, 2 indexers, 5000 results. The data directory is taken relative to the configuration file; global version-control settings are added to each repository of that kind without overriding what the repository sets (values, numbers included, unchanged) and without affecting any other repository. A malformed configuration is reported as an error, never a panic or a partial result.",
  ["inputs", "configurations"], "every presence/absence/zero/null combination of the fields of a repository and of the top level, for up to two repositories and two kinds, with every overlap of global and local settings",
  "config_test loads the example file and checks two fields.",
  ["config/config.go"],
  [("default filling and merging of global vcs settings", "config/config.go initRepo/initConfig/mergeVCSConfigs")],
  observe=["config.Config.LoadFromFile"])

p("G02", "Changed settings take full effect at the next start",
  "What a server serves after a restart depends on its configuration and the repositories only, not on the configurations it ran with before: for every history of configurations over one data directory (dot files excluded or not, auto-generated files, files ignored by the driver, watching, the tracked ref, repositories added, removed, renamed, pointed elsewhere or sharing a URL), every repository's search results, revision and list of excluded files after the last start are those of a start over an empty data directory, and indexes of earlier settings are gone.",
  ["configurations", "histories"], "every pair (thorough: every triple) of configurations from a product of per-repository options, and of sets of up to two repositories, in either order over one data directory",
  "no test starts on an existing data directory, let alone one written under other settings.",
  ["searcher/searcher.go", "index/index.go", "config/config.go", "vcs/local.go", "vcs/git.go"],
  [("reuse of an index only if URL, revision and options are those it was built with", "searcher/searcher.go claim, index/index.go IndexRef.BuiltWith")],
  observe=["searcher.MakeAll", "searcher.Searcher.Search", "searcher.Searcher.GetExcludedFiles"])

p("R01", "Finished work leaves nothing behind",
  "Once a startup, an update, a search or a request has finished, however it ended (with success, an unchanged revision, a failed pull, a tree that could not be indexed, a malformed pattern, an error of the file system or of a version control tool), the process holds only what the served repositories need: per repository one index directory and one open index, and the goroutine that waits for its next update until it is stopped. No other index directory, open or mapped file, temporary file, goroutine or child process remains of it, and the command line client's requests end with it. (A directory that the file system refuses to list or remove, and a process that ended itself, are outside.)",
  ["histories", "faults", "schedules"], "every history of up to 3 (thorough 4) pull outcomes with searches of every kind after it, every single failing file-system operation of building, starting, updating and searching, every pair (thorough: triple) of failing tools, every outcome of the startup of four repositories, and all schedules of updates against searches within the bound",
  "no test looks at what is left; unit tests run each operation once and exit.",
  ["searcher/searcher.go", "index/index.go", "index/grep.go", "codesearch/index/write.go", "codesearch/index/read.go", "codesearch/index/mmap_linux.go", "api/api.go", "vcs/*.go", "client/client.go"],
  [("old index unmapped, closed and removed after the swap", "searcher/searcher.go swapIndexes, index/index.go Destroy"), ("temporary files of the index writer", "codesearch/index/write.go Flush/Close"), ("every spawned search finds room for its answer", "api/api.go searchAll"), ("both answers are read before returning", "client/client.go SearchAndLoadRepos")],
  observe=["/proc/self/fd", "/proc/self/maps", "goroutine count", "directories"])

# ---------------------------------------------------------------- vcs
p("V01", "A git working copy mirrors the tracked ref after every pull",
  "After every successful clone or pull of a git repository, the working copy's files are exactly the files of the commit the tracked ref (configured, detected default branch, or master) has at the remote, and the reported revision is that commit, whatever happened at the remote in between: new commits, force pushes, deletions, renames, mode changes, branch and default-branch changes, another configured ref after a restart, or local changes to the tracked files of the working copy.",
  ["histories"], "every sequence up to a length over an alphabet of remote operations and local disturbances, for each ref configuration, with a pull after every step",
  "git_test checks the head of this repository and two ref names with a fake detector.",
  ["vcs/git.go", "vcs/vcs.go"],
  [("shallow fetch of the ref with prune, hard reset, rev-parse", "vcs/git.go Pull/Clone/HeadRev")],
  observe=["vcs.WorkDir.PullOrClone", "working directory"])
p("V02", "A watched local directory changes revision exactly when its content changes",
  "For a local directory with change watching, two pulls report the same revision exactly when the set of files and their contents are the same at both times; without watching the revision stays constant. A pull succeeds whatever kinds of entries the directory holds beside regular files (links, also dangling ones, named pipes, sockets), and fails while the directory is missing. The files served are those of the directory itself, and the directory is never modified. (Names with newlines are not supported.)",
  ["histories", "inputs"], "every sequence up to a length of create, modify, same-size modify, delete, rename, swap and touch operations over two names and two contents, nested directories included",
  "no test covers the local driver.",
  ["vcs/local.go"],
  [("hash over sorted file names and content hashes", "vcs/local.go HeadRev")],
  observe=["vcs.WorkDir.PullOrClone"])
p("V03", "Each VCS driver runs the right commands and reports their outcome",
  "For svn, hg and bzr, the first update of a repository checks out its URL into the repository's own directory and later ones update that directory in place, with the configured credentials and without svn's externals, so that its files are those of the remote's branch at that time; the reported revision is exactly the one that is checked out, as the tool reports it, and any failing tool invocation is reported as an error and never as a revision. Driver names, aliases and their special files are as documented; an unknown name is an error.",
  ["histories", "fault_sequences"], "every sequence up to a length of update attempts with each tool invocation succeeding, failing, or failing halfway, for each driver, against scripted tools that record their calls",
  "vcs_test and svn_test check that drivers can be constructed.",
  ["vcs/svn.go", "vcs/hg.go", "vcs/bzr.go", "vcs/vcs.go"],
  [("clone if the directory is absent, pull otherwise; exit status of the tool", "vcs/vcs.go PullOrClone and drivers")],
  observe=["vcs.WorkDir.PullOrClone", "tool invocations"])
p("V04", "Exactly the files marked as auto-generated are flagged as such",
  "In every result, a file is flagged as auto-generated exactly when it is in the repository's configured list, or, if none is configured, when the version control system marks it (for git: the attribute linguist-generated set or true, by the rules of gitattributes) in the revision the index was built from, whatever revisions came before, and also after a restart that reuses the index.",
  ["inputs", "histories"], "every sequence of up to k attribute lines over a set of patterns and forms in a root and a nested attributes file, against every name of a set; every history of revisions with different marks and failing pulls, with and without a configured list",
  "vcs tests check one attributes file of the repository itself; no test changes the marks between revisions.",
  ["vcs/git.go", "searcher/searcher.go", "index/index.go"],
  [("parsing of git check-attr output", "vcs/git.go AutoGeneratedFiles"), ("list handed to the index build and stored in its manifest", "searcher/searcher.go indexOptionsFor")],
  observe=["vcs.Driver.AutoGeneratedFiles", "SearchResponse.Matches[].AutoGenerated"])

# ---------------------------------------------------------------- client
p("K01", "The command-line client prints every matching and context line once",
  "For any search response, the command-line client prints for each file every line that is a match or a context line exactly once, in increasing order, with its own number and text, marking exactly the matching lines; lines that are not adjacent are never joined into one block and those whose context overlaps are never split. Highlighting never changes the text of a line.",
  ["inputs"], "every set of matching lines in files of up to k lines x every context size x real server responses and every truncation of their context (in which the first context lines of successive matches never go back)",
  "coalesce_test checks about ten fixed cases and the presenter is not tested.",
  ["client/coalesce.go", "client/ack.go", "ansi/ansi.go"],
  [("merging of matches with overlapping context into blocks", "client/coalesce.go")],
  observe=["client.Presenter.Present"])
p("K02", "The client asks the server for exactly what the user asked and fails loudly",
  "The client sends the pattern, repositories, file filter, context and flags unchanged and with the configured headers, and returns exactly the server's results and repository names; when the server is unreachable, not ready, answers with an error or malformed data, the client reports an error and never an empty success. The display name of a repository is its configured one, else the last two of the components of its URL that follow a slash (or the only one), without a .git suffix, else its key; naming never fails for any URL.",
  ["inputs", "fault_sequences", "schedules"], "every combination of argument values with special characters, of server outcomes for the two requests, and every repository URL shape up to a length over an alphabet",
  "no test covers the client's requests.",
  ["client/client.go", "cmds/hound/main.go"],
  [("parallel search and repository-list requests", "client/client.go SearchAndLoadRepos")],
  observe=["client.SearchAndLoadRepos", "client.Presenter.Present"])
p("K03", "Links in the UI point at the right file, line and revision",
  "For any repository URL form (https, ssh, git@, port, .git suffix, wiki), URL pattern, file path, line and revision, the link the UI builds is the configured pattern with every variable replaced by its value taken literally, with ssh-style URLs mapped to the corresponding host and project.",
  ["inputs"], "every combination of URL forms, patterns, paths with special characters, lines and revisions from a set",
  "common.test.js checks about twenty fixed cases.",
  ["ui/assets/js/common.js"],
  [("variable expansion and URL decomposition", "ui/assets/js/common.js")],
  observe=["UrlToRepo"])
p("K04", "The web UI asks for what the form says and shows exactly what was found",
  "For every answer of the server the page shows each matching and context line once, in order, under its own number and link, the text unchanged and inert (nothing in lines, names or messages becomes markup), exactly the parts that match the query highlighted, and offers to load the rest if and only if there is more; opening and closing files (one, a repository's, or all) changes nothing but which are open. A search asks for what the form shows, its URL reopens the same search and form, and after any history of searches, going back and forth, loading more and answers arriving late, failing or out of order, the page shows the last answer to the last search and nothing of another.",
  ["inputs", "schedules", "histories"], "every set of matching lines with every context; every text of some pieces under every query of a list; every form, starting URL and way to send; every history of user actions and of answers in any order up to a length",
  "no test loads the UI's script; only its URL helper is tested.",
  ["ui/assets/js/hound.js", "ui/assets/js/excluded_files.js", "ui/assets/js/signal.js", "ui/content.go"],
  [("requests, late answers and loading more", "ui/assets/js/hound.js Model"), ("merging blocks of lines and highlighting", "ui/assets/js/hound.js CoalesceMatches, ContentFor"), ("form, URL and history", "ui/assets/js/hound.js SearchBar, App")],
  observe=["the page's document", "requests made", "location and history"])
p("H01", "The daemon starts, serves, survives failing repositories and stops on request",
  "The daemon answers the health check as soon as it listens, serves searches over every repository that could be indexed, and offers only these, even if others fail, and on a termination signal (or several), whenever it arrives once the first repository is being fetched, exits with status 0 after indexing in progress has finished, leaving a data directory from which the next start reuses every index.",
  ["histories", "fault_sequences"], "every combination of good and failing repositories and poll settings x termination at each phase (while indexing at startup, idle, during a reindex) x restart",
  "no test runs the daemon.",
  ["cmds/houndd/main.go", "web/web.go", "searcher/searcher.go"],
  [("signal handler registered before indexing and served after", "cmds/houndd/main.go")],
  observe=["process exit status", "HTTP endpoints", "dbpath directory"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
