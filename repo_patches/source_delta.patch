From 02cb4b4f311ef811bc81b9d0288f36bde8e0825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 01/51] fix: report an unreadable or vanished entry of the tree
 as an error

The walk callback ignored its error argument: a missing tree made it use a
nil FileInfo (panic, which ends the process), and a directory that could not
be read was silently left out of the index.
---
 index/index.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/index.go b/index/index.go
index f84d933..3da02d1 100644
--- a/index/index.go
+++ b/index/index.go
@@ -387,6 +387,10 @@ func indexAllFiles(opt *IndexOptions, dst, src string) error {
 	}
 
 	if err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error { //nolint
+		if err != nil {
+			return err
+		}
+
 		name := info.Name()
 		rel, err := filepath.Rel(src, path) //nolint
 		if err != nil {
-- 
2.43.0


From c1d29fcf64126cc6274b71bd16e5607bcd5f0102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 02/51] fix: read the excluded-files list under the searcher's
 lock

GetExcludedFiles read s.idx without the lock that swapIndexes holds: a data
race, and when the swap removed the directory between the two steps of the
request the answer was empty.
---
 searcher/searcher.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 791ce81..0d18a78 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -137,6 +137,8 @@ func (s *Searcher) Search(pat string, opt *index.SearchOptions) (*index.SearchRe
 // Get the excluded files as a JSON string. This is only used for returning
 // the data directly to clients (thus JSON).
 func (s *Searcher) GetExcludedFiles() string {
+	s.lck.RLock()
+	defer s.lck.RUnlock()
 	path := filepath.Join(s.idx.GetDir(), "excluded_files.json")
 	dat, err := ioutil.ReadFile(path)
 	if err != nil {
-- 
2.43.0


From 96fb0bf3cf5a3b49c31f0e3425acbd205d450d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 03/51] fix: keep the new index when removing the old one fails

swapIndexes makes the new index live before it destroys the old one. When
that removal failed the new, live index was destroyed too, and every later
search of the repository read unmapped memory.
---
 searcher/searcher.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 0d18a78..b19c785 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -382,11 +382,8 @@ func updateAndReindex(
 	}
 
 	if err := s.swapIndexes(idx); err != nil {
+		// The new index is live at this point, only removing the old one failed.
 		log.Printf("failed index swap (%s): %s", name, err)
-		if err := idx.Destroy(); err != nil {
-			log.Printf("failed to destroy index (%s): %s\n", name, err)
-		}
-		return rev, false
 	}
 
 	return newRev, true
-- 
2.43.0


From d9804ce9b957dd2e62316ec14560303d996a4a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 04/51] fix: request the shutdown before waking the poller

Stop set shutdownRequested after the send on shutdownCh, unsynchronised with
the poller that reads it. The poller could take the signal, see the flag
still unset and go on to wait for an update that never comes, so that Wait
never returned.
---
 searcher/searcher.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index b19c785..0e60ca9 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -11,6 +11,7 @@ import (
 	"path/filepath"
 	"runtime"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/hound-search/hound/config"
@@ -29,7 +30,7 @@ type Searcher struct {
 	// update at a time.
 	updateCh chan time.Time
 
-	shutdownRequested bool
+	shutdownRequested int32 // accessed atomically
 	shutdownCh        chan empty
 	doneCh            chan empty
 }
@@ -165,9 +166,9 @@ func (s *Searcher) Update() bool {
 
 // Shut down the searcher cleanly, waiting for any indexing operations to complete.
 func (s *Searcher) Stop() {
+	atomic.StoreInt32(&s.shutdownRequested, 1)
 	select {
 	case s.shutdownCh <- empty{}:
-		s.shutdownRequested = true
 	default:
 	}
 }
@@ -473,7 +474,7 @@ func newSearcher(
 			// Wait for a signal to proceed
 			s.waitForUpdate(delay)
 
-			if s.shutdownRequested {
+			if atomic.LoadInt32(&s.shutdownRequested) != 0 {
 				s.completeShutdown()
 				return
 			}
-- 
2.43.0


From 3bebd2900c8b8b1d4e779596c049d2c0b00a3788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 05/51] fix: do not lose an update requested before the poller
 has started

The start signal shared the one-element update channel. An update requested
before the poller had taken the start signal was accepted but dropped, as one
was already pending, and no pull followed.
---
 searcher/searcher.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 0e60ca9..9d87731 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -24,12 +24,14 @@ type Searcher struct {
 	lck  sync.RWMutex
 	Repo *config.Repo
 
-	// The channel is used to request updates from the API and
-	// to signal that it is ok for searchers to begin polling.
+	// The channel is used to request updates from the API.
 	// It has a buffer size of 1 to allow at most one pending
 	// update at a time.
 	updateCh chan time.Time
 
+	// Signals that it is ok for the searcher to begin polling.
+	beginCh chan empty
+
 	shutdownRequested int32 // accessed atomically
 	shutdownCh        chan empty
 	doneCh            chan empty
@@ -200,7 +202,7 @@ func (s *Searcher) waitForUpdate(delay time.Duration) {
 
 // Signal the searcher that it is ok to begin polling the repository.
 func (s *Searcher) begin() {
-	s.updateCh <- time.Now()
+	s.beginCh <- empty{}
 }
 
 // Generate a new index directory in the dbpath. The names are based
@@ -449,6 +451,7 @@ func newSearcher(
 	s := &Searcher{
 		idx:        idx,
 		updateCh:   make(chan time.Time, 1),
+		beginCh:    make(chan empty, 1),
 		Repo:       repo,
 		doneCh:     make(chan empty),
 		shutdownCh: make(chan empty, 1),
@@ -457,7 +460,7 @@ func newSearcher(
 	go func() {
 
 		// each searcher's poller is held until begin is called.
-		<-s.updateCh
+		<-s.beginCh
 
 		// if all forms of updating are turned off, we're done here.
 		if !repo.PollUpdatesEnabled() && !repo.PushUpdatesEnabled() {
-- 
2.43.0


From 463325cee3d4eb2c84ec82fa3a90ce6314c6973b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 06/51] fix: let only one searcher claim an existing index
 directory

Two repositories with the same URL both found and reused the same index
directory; the first of them to reindex then deleted it under the other.
---
 searcher/searcher.go | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 9d87731..7a2bdf2 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -72,29 +72,24 @@ func (l limiter) Release() {
 }
 
 /**
- * Find an Index ref for the repo url and rev, returns nil if no such
- * ref exists.
+ * Find an Index ref for the repo url and rev that is not in use yet and claim
+ * it for reuse, returns nil if no such ref exists. Claiming a ref ensures it
+ * will not be garbage collected at the end of startup. Each ref is claimed at
+ * most once, since the searcher that claims it owns (and later removes) it.
  */
-func (r *foundRefs) find(url, rev string) *index.IndexRef {
+func (r *foundRefs) claim(url, rev string) *index.IndexRef {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
 	for _, ref := range r.refs {
-		if ref.Url == url && ref.Rev == rev {
+		if ref.Url == url && ref.Rev == rev && !r.claimed[ref] {
+			r.claimed[ref] = true
 			return ref
 		}
 	}
 	return nil
 }
 
-/**
- * Claim a ref for reuse. This ensures they ref will not be garbage
- * collected at the end of startup.
- */
-func (r *foundRefs) claim(ref *index.IndexRef) {
-	r.lock.Lock()
-	defer r.lock.Unlock()
-
-	r.claimed[ref] = true
-}
-
 /**
  * Delete the directorires associated with all IndexRefs that were
  * found in the dbpath but were not claimed during startup.
@@ -429,12 +424,11 @@ func newSearcher(
 	}
 
 	var idxDir string
-	ref := refs.find(repo.Url, rev)
+	ref := refs.claim(repo.Url, rev)
 	if ref == nil {
 		idxDir = nextIndexDir(dbpath)
 	} else {
 		idxDir = ref.Dir()
-		refs.claim(ref)
 	}
 
 	idx, err := buildAndOpenIndex(
-- 
2.43.0


From 134cc16c32515f257b5ffeb8bc4678e9767df6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 07/51] fix: do not report a match after the final newline of a
 file

---
 index/grep.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/grep.go b/index/grep.go
index d8af164..b4ff28d 100644
--- a/index/grep.go
+++ b/index/grep.go
@@ -156,6 +156,11 @@ func (g *grepper) grep2(
 		// start of matched line.
 		str := bytes.LastIndex(buf[:m], nl) + 1
 
+		// a trailing newline ends the last line, it does not begin another.
+		if str == len(buf) {
+			return nil
+		}
+
 		//end of previous line
 		endl := str - 1
 		if endl < 0 {
-- 
2.43.0


From 171dae0462ee6068ee1a3d3a44124dcf3932c08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 08/51] fix: keep a blank line that begins the context before a
 match

---
 index/grep.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/index/grep.go b/index/grep.go
index b4ff28d..3467851 100644
--- a/index/grep.go
+++ b/index/grep.go
@@ -175,10 +175,17 @@ func (g *grepper) grep2(
 
 		lineno += countLines(buf[:str])
 
+		before := lastNLines(buf[:endl], nctx)
+		// a blank first line leaves nothing in front of its newline for
+		// lastNLines to find.
+		if str > 0 && buf[0] == '\n' && len(before) < nctx {
+			before = append([][]byte{{}}, before...)
+		}
+
 		more, err := fn(
 			bytes.TrimRight(buf[str:end], "\n"),
 			lineno+1,
-			lastNLines(buf[:endl], nctx),
+			before,
 			firstNLines(buf[end:], nctx))
 		if err != nil {
 			return err
-- 
2.43.0


From c71300af19e3e85a4f5f21311d6b3d132ce3eee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 09/51] fix: answer a request for the excluded files of an
 unknown repository with an error

---
 api/api.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index b7aef0e..aafb586 100644
--- a/api/api.go
+++ b/api/api.go
@@ -234,7 +234,14 @@ func Setup(m *http.ServeMux, idx map[string]*searcher.Searcher, defaultMaxResult
 
 	m.HandleFunc("/api/v1/excludes", func(w http.ResponseWriter, r *http.Request) {
 		repo := r.FormValue("repo")
-		res := idx[repo].GetExcludedFiles()
+		srch := idx[repo]
+		if srch == nil {
+			writeError(w,
+				fmt.Errorf("No such repository: %s", repo),
+				http.StatusNotFound)
+			return
+		}
+		res := srch.GetExcludedFiles()
 		w.Header().Set("Content-Type", "application/json;charset=utf-8")
 		w.Header().Set("Access-Control-Allow", "*")
 		fmt.Fprint(w, res)
-- 
2.43.0


From 95a3844ca960a23a58f91e6135021d37e73f88fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 10/51] fix: treat a range bound that does not fit an int as
 malformed, not as negative

---
 api/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index aafb586..2e49766 100644
--- a/api/api.go
+++ b/api/api.go
@@ -154,7 +154,7 @@ func parseRangeInt(v string, i *int) {
 		return
 	}
 
-	vi, err := strconv.ParseUint(v, 10, 64)
+	vi, err := strconv.ParseUint(v, 10, strconv.IntSize-1)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From cbbce766ef7479d6388a7f00acb2471cd61dba15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 11/51] fix: index a tree whose own directory name begins with
 a dot

---
 index/index.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/index.go b/index/index.go
index 3da02d1..eb46f94 100644
--- a/index/index.go
+++ b/index/index.go
@@ -397,6 +397,11 @@ func indexAllFiles(opt *IndexOptions, dst, src string) error {
 			return err
 		}
 
+		// the root is the tree itself, whatever its own name is.
+		if rel == "." && info.IsDir() {
+			return nil
+		}
+
 		// Is this file considered "special", this means it's not even a part
 		// of the source repository (like .git or .svn).
 		if containsString(opt.SpecialFiles, name) {
-- 
2.43.0


From 4da154c52ee0949ff002a0dc7a70bd5acecc386f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 12/51] fix: remove the manifest of an index before its files

---
 index/index.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/index/index.go b/index/index.go
index eb46f94..39ed53d 100644
--- a/index/index.go
+++ b/index/index.go
@@ -106,6 +106,12 @@ func (r *IndexRef) Open() (*Index, error) {
 }
 
 func (r *IndexRef) Remove() error {
+	// without its manifest a directory is never taken for a complete index,
+	// so an interrupted removal must not leave the manifest behind.
+	err := os.Remove(filepath.Join(r.dir, manifestFilename))
+	if err != nil && !os.IsNotExist(err) {
+		return err
+	}
 	return os.RemoveAll(r.dir)
 }
 
-- 
2.43.0


From aab63d8e605e6d1c7344dfc9e764911f1bfc294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 13/51] fix: name a repository whose URL has its only slash in
 front

---
 client/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/client.go b/client/client.go
index ef37bd3..5beda88 100644
--- a/client/client.go
+++ b/client/client.go
@@ -45,6 +45,10 @@ func repoNameFromUrl(uri string) string {
 		name = name[:len(name)-4]
 	}
 
+	if ax == 0 {
+		return name
+	}
+
 	bx := strings.LastIndex(uri[:ax-1], "/")
 	if bx < 0 {
 		return name
-- 
2.43.0


From 57b7bb3848e00c504519cf31d561c5bb74c63b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 14/51] fix: report a null repository as an error and accept a
 null vcs-config

---
 config/config.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index c978c00..b277948 100644
--- a/config/config.go
+++ b/config/config.go
@@ -3,6 +3,7 @@ package config
 import (
 	"encoding/json"
 	"errors"
+	"fmt"
 	"os"
 	"path/filepath"
 )
@@ -147,6 +148,10 @@ func mergeVCSConfigs(cfg *Config) error {
 
 	globalConfigVals := make(map[string]map[string]interface{}, globalConfigLen)
 	for vcs, configBytes := range cfg.VCSConfigMessages {
+		if configBytes == nil {
+			continue
+		}
+
 		var configVals map[string]interface{}
 		if err := json.Unmarshal(*configBytes, &configVals); err != nil {
 			return err
@@ -212,7 +217,10 @@ func (c *Config) LoadFromFile(filename string) error {
 		c.DbPath = path
 	}
 
-	for _, repo := range c.Repos {
+	for name, repo := range c.Repos {
+		if repo == nil {
+			return fmt.Errorf("repository %s has no configuration", name)
+		}
 		initRepo(repo)
 	}
 
-- 
2.43.0


From 8b5f87c7ddd06a884891dbee18015d4db15dcedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 15/51] fix: report a file that could not be read or copied
 completely

---
 index/index.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/index/index.go b/index/index.go
index 39ed53d..3bbd047 100644
--- a/index/index.go
+++ b/index/index.go
@@ -335,7 +335,33 @@ func addFileToIndex(ix *index.IndexWriter, dst, src, path string) (string, error
 	g := gzip.NewWriter(w)
 	defer g.Close()
 
-	return ix.Add(rel, io.TeeReader(r, g)), nil
+	// ix.Add takes a failing reader for the end of the file.
+	e := &errReader{r: io.TeeReader(r, g)}
+	reason := ix.Add(rel, e)
+	if e.err != nil {
+		return "", e.err
+	}
+
+	// what is still buffered must reach the file too.
+	if err := g.Close(); err != nil {
+		return "", err
+	}
+
+	return reason, w.Close()
+}
+
+// errReader remembers the error that ended the reading early.
+type errReader struct {
+	r   io.Reader
+	err error
+}
+
+func (e *errReader) Read(p []byte) (int, error) {
+	n, err := e.r.Read(p)
+	if err != nil && err != io.EOF {
+		e.err = err
+	}
+	return n, err
 }
 
 func addDirToIndex(dst, src, path string) error {
-- 
2.43.0


From 0756e506b19fdd51b7b7878fb7296feafeb9f8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 16/51] fix: report a failure to close the manifest or the list
 of excluded files

---
 index/index.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/index/index.go b/index/index.go
index 3bbd047..154345f 100644
--- a/index/index.go
+++ b/index/index.go
@@ -95,7 +95,11 @@ func (r *IndexRef) writeManifest() error {
 	}
 	defer w.Close()
 
-	return gob.NewEncoder(w).Encode(r)
+	if err := gob.NewEncoder(w).Encode(r); err != nil {
+		return err
+	}
+
+	return w.Close()
 }
 
 func (r *IndexRef) Open() (*Index, error) {
@@ -386,7 +390,11 @@ func writeExcludedFilesJson(filename string, files []*ExcludedFile) error {
 	}
 	defer w.Close()
 
-	return json.NewEncoder(w).Encode(files)
+	if err := json.NewEncoder(w).Encode(files); err != nil {
+		return err
+	}
+
+	return w.Close()
 }
 
 func containsString(haystack []string, needle string) bool {
-- 
2.43.0


From 5147f3a7f91aab1feb0c96178752ac63f869e5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 17/51] fix: report errors answered by the server instead of an
 empty result

---
 client/client.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 5beda88..b760a6a 100644
--- a/client/client.go
+++ b/client/client.go
@@ -2,6 +2,7 @@ package client
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"net/http"
 	"net/url"
@@ -118,7 +119,20 @@ func Search(r *Response, cfg *Config, pattern, repos, files string, context int,
 		return fmt.Errorf("Status %d", res.StatusCode)
 	}
 
-	return json.NewDecoder(res.Body).Decode(r)
+	// errors of the search itself are answered with an ok status.
+	body := struct {
+		*Response
+		Error string
+	}{Response: r}
+	if err := json.NewDecoder(res.Body).Decode(&body); err != nil {
+		return err
+	}
+
+	if body.Error != "" {
+		return errors.New(body.Error)
+	}
+
+	return nil
 }
 
 // Load the list of repositories from the API running on host.
@@ -129,6 +143,10 @@ func LoadRepos(repos map[string]*config.Repo, cfg *Config) error {
 	}
 	defer res.Body.Close()
 
+	if res.StatusCode != http.StatusOK {
+		return fmt.Errorf("Status %d", res.StatusCode)
+	}
+
 	return json.NewDecoder(res.Body).Decode(&repos)
 }
 
-- 
2.43.0


From d6ee503f042c84ceef20551504e8bb04b8a0ced4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:00 +0000
Subject: [PATCH 18/51] fix: no word boundary test succeeds inside a multi-byte
 character

---
 codesearch/regexp/match.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codesearch/regexp/match.go b/codesearch/regexp/match.go
index 480f910..089bf4e 100644
--- a/codesearch/regexp/match.go
+++ b/codesearch/regexp/match.go
@@ -228,7 +228,8 @@ func (m *matcher) computeNext(d *dstate, c int) *dstate {
 	} else {
 		if isWordByte(c) {
 			flag |= syntax.EmptyWordBoundary
-		} else {
+		} else if c < 0x80 || 0xC0 <= c {
+			// there is no position inside a multi-byte character.
 			flag |= syntax.EmptyNoWordBoundary
 		}
 	}
-- 
2.43.0


From 5e1369d48fc5bd3c07e682d863ff15ffddae351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 19/51] fix: do not overwrite the exact strings of an
 alternative while building its prefixes

---
 codesearch/index/regexp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codesearch/index/regexp.go b/codesearch/index/regexp.go
index a5686af..c7c57f0 100644
--- a/codesearch/index/regexp.go
+++ b/codesearch/index/regexp.go
@@ -604,8 +604,8 @@ func alternate(x, y regexpInfo) (out regexpInfo) {
 	if x.exact.have() && y.exact.have() {
 		xy.exact = x.exact.union(y.exact, false)
 	} else if x.exact.have() {
-		xy.prefix = x.exact.union(y.prefix, false)
-		xy.suffix = x.exact.union(y.suffix, true)
+		xy.prefix = x.exact.copy().union(y.prefix, false)
+		xy.suffix = x.exact.copy().union(y.suffix, true)
 		x.addExact()
 	} else if y.exact.have() {
 		xy.prefix = x.prefix.union(y.exact, false)
-- 
2.43.0


From 67fc7c96c4a0adaaf79ba47833bb2242793a4703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 20/51] fix: index a local directory that is reached through
 several symbolic links

---
 index/index.go | 8 +++-----
 vcs/local.go   | 9 ++++-----
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/index/index.go b/index/index.go
index 154345f..17c35b1 100644
--- a/index/index.go
+++ b/index/index.go
@@ -419,11 +419,9 @@ func indexAllFiles(opt *IndexOptions, dst, src string) error {
 	}
 	defer fileHandle.Close()
 
-	// Resolve the symbolic link
-	if fi, err := os.Stat(src); err == nil && fi.Mode()|os.ModeSymlink != 0 {
-		if s, err := os.Readlink(src); err == nil {
-			src = s
-		}
+	// Resolve the symbolic link, and any that it leads to
+	if s, err := filepath.EvalSymlinks(src); err == nil {
+		src = s
 	}
 
 	if err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error { //nolint
diff --git a/vcs/local.go b/vcs/local.go
index 129edde..fb4fd4d 100644
--- a/vcs/local.go
+++ b/vcs/local.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"path/filepath"
 	"sort"
 	"strings"
 
@@ -70,11 +71,9 @@ func (g *LocalDriver) HeadRev(dir string) (string, error) {
 		return dir[idx+4:], nil
 	}
 
-	// Resolve the symbolic link
-	if fi, err := os.Stat(dir); err == nil && fi.Mode()|os.ModeSymlink != 0 {
-		if s, err := os.Readlink(dir); err == nil {
-			dir = s
-		}
+	// Resolve the symbolic link, and any that it leads to
+	if s, err := filepath.EvalSymlinks(dir); err == nil {
+		dir = s
 	}
 
 	// Hash all files in the directory
-- 
2.43.0


From b1a0ba925660540dde682af6f14289458b6c5eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:10 +0000
Subject: [PATCH 21/51] fix: Merge limits the range of a root by its next byte,
 not a rune

A last byte of 0x7f or more was turned into a two-byte character, so a root
that ends in a non-ASCII character also claimed the files of its neighbours
or ended the merge with a panic.
---
 codesearch/index/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codesearch/index/merge.go b/codesearch/index/merge.go
index 5aa1ecc..cf3eafd 100644
--- a/codesearch/index/merge.go
+++ b/codesearch/index/merge.go
@@ -66,7 +66,7 @@ func Merge(dst, src1, src2 string) {
 			i1++
 		}
 		lo := i1
-		limit := path[:len(path)-1] + string(path[len(path)-1]+1)
+		limit := path[:len(path)-1] + string([]byte{path[len(path)-1] + 1})
 		for i1 < uint32(ix1.numName) && ix1.Name(i1) < limit {
 			i1++
 		}
-- 
2.43.0


From 517fc0b974bfb33f26748359227090094d0d6916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:30 +0000
Subject: [PATCH 22/51] fix: refuse to update an unknown repository

The names were filtered before they were checked, so a request to update a
repository that does not exist was answered with ok.
---
 api/api.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index 2e49766..619cada 100644
--- a/api/api.go
+++ b/api/api.go
@@ -255,7 +255,17 @@ func Setup(m *http.ServeMux, idx map[string]*searcher.Searcher, defaultMaxResult
 			return
 		}
 
-		repos := parseAsRepoList(r.FormValue("repos"), idx)
+		names := strings.TrimSpace(r.FormValue("repos"))
+		for _, repo := range strings.Split(names, ",") {
+			if names != "" && names != "*" && idx[repo] == nil {
+				writeError(w,
+					fmt.Errorf("No such repository: %s", repo),
+					http.StatusNotFound)
+				return
+			}
+		}
+
+		repos := parseAsRepoList(names, idx)
 
 		for _, repo := range repos {
 			searcher := idx[repo]
-- 
2.43.0


From ab4bdc09f1f533dc096902a6ffd0dfea8cfa2c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:16 +0000
Subject: [PATCH 23/51] fix: keep the exact text of vcs-config values when
 global ones are merged

Going through interface{} turned every number into a float64, so a value
such as 12345678901234567890 reached the driver altered.
---
 config/config.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/config/config.go b/config/config.go
index b277948..5998c1d 100644
--- a/config/config.go
+++ b/config/config.go
@@ -146,13 +146,13 @@ func mergeVCSConfigs(cfg *Config) error {
 		return nil
 	}
 
-	globalConfigVals := make(map[string]map[string]interface{}, globalConfigLen)
+	globalConfigVals := make(map[string]map[string]json.RawMessage, globalConfigLen)
 	for vcs, configBytes := range cfg.VCSConfigMessages {
 		if configBytes == nil {
 			continue
 		}
 
-		var configVals map[string]interface{}
+		var configVals map[string]json.RawMessage
 		if err := json.Unmarshal(*configBytes, &configVals); err != nil {
 			return err
 		}
@@ -161,16 +161,16 @@ func mergeVCSConfigs(cfg *Config) error {
 	}
 
 	for _, repo := range cfg.Repos {
-		var globalVals map[string]interface{}
+		var globalVals map[string]json.RawMessage
 		globalVals, valsExist := globalConfigVals[repo.Vcs]
 		if !valsExist {
 			continue
 		}
 
 		repoBytes := repo.VcsConfig()
-		var repoVals map[string]interface{}
+		var repoVals map[string]json.RawMessage
 		if len(repoBytes) == 0 {
-			repoVals = make(map[string]interface{}, len(globalVals))
+			repoVals = make(map[string]json.RawMessage, len(globalVals))
 		} else if err := json.Unmarshal(repoBytes, &repoVals); err != nil {
 			return err
 		}
-- 
2.43.0


From f1529ec31dc3d3159e5c00eca1094bdf2b304eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 24/51] fix: report a response without results or repositories
 as an error

An answer such as {} or null was shown as a search that found nothing.
---
 client/client.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index b760a6a..2085c03 100644
--- a/client/client.go
+++ b/client/client.go
@@ -132,6 +132,10 @@ func Search(r *Response, cfg *Config, pattern, repos, files string, context int,
 		return errors.New(body.Error)
 	}
 
+	if r.Results == nil {
+		return errors.New("no results in the response")
+	}
+
 	return nil
 }
 
@@ -147,7 +151,15 @@ func LoadRepos(repos map[string]*config.Repo, cfg *Config) error {
 		return fmt.Errorf("Status %d", res.StatusCode)
 	}
 
-	return json.NewDecoder(res.Body).Decode(&repos)
+	if err := json.NewDecoder(res.Body).Decode(&repos); err != nil {
+		return err
+	}
+
+	if repos == nil {
+		return errors.New("no repositories in the response")
+	}
+
+	return nil
 }
 
 // Execute a search and load the list of repositories in parallel on the host.
-- 
2.43.0


From 985c62b05eceb5349d284bb05674c7fdfd047a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 25/51] fix: replace every variable of a URL pattern with its
 value as it is

Only the first occurrence of each variable was replaced, a $ in a value was
interpreted by String.replace, and variables inside values were replaced too.
---
 ui/assets/js/common.js | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ui/assets/js/common.js b/ui/assets/js/common.js
index ebd2f0f..f85e696 100644
--- a/ui/assets/js/common.js
+++ b/ui/assets/js/common.js
@@ -3,10 +3,9 @@ export function EscapeRegExp(regexp) {
 }
 
 export function ExpandVars(template, values) {
-    for (var name in values) {
-        template = template.replace('{' + name + '}', values[name]);
-    }
-    return template;
+    return template.replace(/\{(\w+)\}/g, function (variable, name) {
+        return Object.prototype.hasOwnProperty.call(values, name) ? values[name] : variable;
+    });
 };
 
 export function UrlParts(repo, path, line, rev) {
-- 
2.43.0


From 7e83d98e7d237e77659955e1686f9201a60bfeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 26/51] fix: rewrite only the .wiki suffix of a wiki's URL

The first .wiki in the URL was replaced even if it was part of the host or
project.
---
 ui/assets/js/common.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ui/assets/js/common.js b/ui/assets/js/common.js
index f85e696..074fb17 100644
--- a/ui/assets/js/common.js
+++ b/ui/assets/js/common.js
@@ -22,7 +22,7 @@ export function UrlParts(repo, path, line, rev) {
     // Determine if the URL passed is a GitHub wiki
     var wikiUrl = /\.wiki$/.exec(url);
     if (wikiUrl) {
-        url = url.replace(/\.wiki/, '/wiki')
+        url = url.replace(/\.wiki$/, '/wiki')
         path = path.replace(/\.md$/, '')
         anchor = '' // wikis do not support direct line linking
     }
-- 
2.43.0


From 1364e77fe280218fd7125e71d8e056ffc7ec59da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 27/51] fix: end a build when seeking in an index file fails

---
 codesearch/index/write.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/codesearch/index/write.go b/codesearch/index/write.go
index f056e35..5442080 100644
--- a/codesearch/index/write.go
+++ b/codesearch/index/write.go
@@ -555,7 +555,10 @@ func (b *bufWriter) writeString(s string) {
 
 // offset returns the current write offset.
 func (b *bufWriter) offset() uint32 {
-	off, _ := b.file.Seek(0, 1)
+	off, err := b.file.Seek(0, 1)
+	if err != nil {
+		log.Fatalf("offset in %s: %v", b.name, err)
+	}
 	off += int64(len(b.buf))
 	if int64(uint32(off)) != off {
 		log.Fatalf("index is larger than 4GB")
@@ -578,7 +581,9 @@ func (b *bufWriter) flush() {
 func (b *bufWriter) finish() *os.File {
 	b.flush()
 	f := b.file
-	f.Seek(0, 0)  //nolint
+	if _, err := f.Seek(0, 0); err != nil {
+		log.Fatalf("rewinding %s: %v", b.name, err)
+	}
 	return f
 }
 
-- 
2.43.0


From 9585a2961f8e4969b2bf6684336f142e8b4be198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 28/51] fix: do not index a tree as empty when its link cannot
 be resolved

---
 index/index.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/index/index.go b/index/index.go
index 17c35b1..fb22568 100644
--- a/index/index.go
+++ b/index/index.go
@@ -420,8 +420,9 @@ func indexAllFiles(opt *IndexOptions, dst, src string) error {
 	defer fileHandle.Close()
 
 	// Resolve the symbolic link, and any that it leads to
-	if s, err := filepath.EvalSymlinks(src); err == nil {
-		src = s
+	src, err = filepath.EvalSymlinks(src)
+	if err != nil {
+		return err
 	}
 
 	if err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error { //nolint
-- 
2.43.0


From d0b4e813a5faf77fca259a92fdaa35d089b250f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 29/51] fix: follow a git branch whatever other branches and
 tags are called

A fetch into remotes/origin/REF fails when a branch fetched before is named
REF/x or the other way round, and a remote tag named origin/REF takes
precedence over what was fetched; either way the working copy stayed at the
old revision.  Reset to FETCH_HEAD instead.
---
 vcs/git.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vcs/git.go b/vcs/git.go
index 54f1dfc..af3645e 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -3,7 +3,6 @@ package vcs
 import (
 	"bytes"
 	"encoding/json"
-	"fmt"
 	"io"
 	"log"
 	"os/exec"
@@ -91,6 +90,8 @@ func run(desc, dir, cmd string, args ...string) (string, error) {
 func (g *GitDriver) Pull(dir string) (string, error) {
 	targetRef := g.targetRef(dir)
 
+	// No local name is given to what is fetched: it could clash with the name
+	// of a branch fetched before, or be taken for that of a tag.
 	if _, err := run("git fetch", dir,
 		"git",
 		"fetch",
@@ -98,7 +99,7 @@ func (g *GitDriver) Pull(dir string) (string, error) {
 		"--no-tags",
 		"--depth", "1",
 		"origin",
-		fmt.Sprintf("+%s:remotes/origin/%s", targetRef, targetRef)); err != nil {
+		targetRef); err != nil {
 		return "", err
 	}
 
@@ -106,7 +107,7 @@ func (g *GitDriver) Pull(dir string) (string, error) {
 		"git",
 		"reset",
 		"--hard",
-		fmt.Sprintf("origin/%s", targetRef)); err != nil {
+		"FETCH_HEAD"); err != nil {
 		return "", err
 	}
 
-- 
2.43.0


From ee834843975c41689876c7ef3ab2e4c489916778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 30/51] fix: a local directory with other than regular files
 can be watched

A link to a directory or one that leads nowhere made every pull fail, and a
named pipe made it block for ever.
---
 vcs/local.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/vcs/local.go b/vcs/local.go
index fb4fd4d..b82a733 100644
--- a/vcs/local.go
+++ b/vcs/local.go
@@ -78,8 +78,34 @@ func (g *LocalDriver) HeadRev(dir string) (string, error) {
 
 	// Hash all files in the directory
 	// TODO: implement logic from indexAllFiles to skip ignored files?
-	hash, err := dirhash.HashDir(dir, "", myHash)
-	return hash, err
+	files, err := dirhash.DirFiles(dir, "")
+	if err != nil {
+		return "", err
+	}
+	return myHash(files, func(name string) (io.ReadCloser, error) {
+		return openForHash(filepath.Join(dir, name))
+	})
+}
+
+// Opens a file to read what is hashed for it. That is its content for a regular
+// file and for a link to one. Anything else is never indexed, and need not be
+// readable: reading from it can fail, as from a link that leads nowhere, or block,
+// as from a named pipe.
+func openForHash(path string) (io.ReadCloser, error) {
+	info, err := os.Stat(path)
+	if err == nil && info.Mode().IsRegular() {
+		return os.Open(path)
+	}
+
+	info, err = os.Lstat(path)
+	if err != nil {
+		return nil, err
+	}
+	desc := info.Mode().Type().String()
+	if target, err := os.Readlink(path); err == nil {
+		desc += target
+	}
+	return io.NopCloser(strings.NewReader(desc)), nil
 }
 
 func (g *LocalDriver) Pull(dir string) (string, error) {
-- 
2.43.0


From 0eaa2e4c59741036c2793034a220f16237f1aaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 31/51] fix: a file whose linguist-generated attribute is just
 set is auto-generated

---
 vcs/git.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vcs/git.go b/vcs/git.go
index af3645e..08c2440 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -185,7 +185,8 @@ func (g *GitDriver) AutoGeneratedFiles(dir string) []string {
 	tokens := bytes.Split(out, []byte{0})
 
 	for i := 2; i < len(tokens); i+=3 {
-		if string(tokens[i]) == "true" && string(tokens[i-1]) == autoGeneratedAttribute {
+		// An attribute given without a value is "set"
+		if value := string(tokens[i]); (value == "true" || value == "set") && string(tokens[i-1]) == autoGeneratedAttribute {
 			files = append(files, string(tokens[i-2]))
 		}
 	}
-- 
2.43.0


From a7f09d0f33588574ad95980f31fb8cc122dc39f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 32/51] fix: find out anew which files are auto-generated when
 reindexing

They were determined when the repository was first indexed; files that a later
revision marks, or no longer marks, kept their flag until a restart with an
index of another revision.
---
 searcher/searcher.go | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 7a2bdf2..10b9cd7 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -339,6 +339,27 @@ func New(dbpath, name string, repo *config.Repo) (*Searcher, error) {
 	return s, nil
 }
 
+// The options to index the repo with, whose working directory is up to date.
+// The files that are auto-generated can differ from one revision to the next.
+func indexOptionsFor(
+	repo *config.Repo,
+	wd *vcs.WorkDir,
+	vcsDir string) *index.IndexOptions {
+
+	var autoFiles []string
+	if len(repo.AutoGeneratedFiles) > 0 {
+		autoFiles = repo.AutoGeneratedFiles
+	} else {
+		autoFiles = wd.AutoGeneratedFiles(vcsDir)
+	}
+
+	return &index.IndexOptions{
+		ExcludeDotFiles:    repo.ExcludeDotFiles,
+		SpecialFiles:       wd.SpecialFiles(),
+		AutoGeneratedFiles: autoFiles,
+	}
+}
+
 // Update the vcs and reindex the given repo.
 func updateAndReindex(
 	s *Searcher,
@@ -347,7 +368,6 @@ func updateAndReindex(
 	name,
 	rev string,
 	wd *vcs.WorkDir,
-	opt *index.IndexOptions,
 	lim limiter) (string, bool) {
 
 	// acquire a token from the rate limiter
@@ -368,7 +388,7 @@ func updateAndReindex(
 
 	log.Printf("Rebuilding %s for %s", name, newRev)
 	idx, err := buildAndOpenIndex(
-		opt,
+		indexOptionsFor(repo, wd, vcsDir),
 		dbpath,
 		vcsDir,
 		nextIndexDir(dbpath),
@@ -410,19 +430,6 @@ func newSearcher(
 		return nil, err
 	}
 
-	var autoFiles []string
-	if len(repo.AutoGeneratedFiles) > 0 {
-		autoFiles = repo.AutoGeneratedFiles
-	} else {
-		autoFiles = wd.AutoGeneratedFiles(vcsDir)
-	}
-
-	opt := &index.IndexOptions{
-		ExcludeDotFiles:    repo.ExcludeDotFiles,
-		SpecialFiles:       wd.SpecialFiles(),
-		AutoGeneratedFiles: autoFiles,
-	}
-
 	var idxDir string
 	ref := refs.claim(repo.Url, rev)
 	if ref == nil {
@@ -432,7 +439,7 @@ func newSearcher(
 	}
 
 	idx, err := buildAndOpenIndex(
-		opt,
+		indexOptionsFor(repo, wd, vcsDir),
 		dbpath,
 		vcsDir,
 		idxDir,
@@ -477,7 +484,7 @@ func newSearcher(
 			}
 
 			// attempt to update and reindex this searcher
-			newRev, ok := updateAndReindex(s, dbpath, vcsDir, name, rev, wd, opt, lim)
+			newRev, ok := updateAndReindex(s, dbpath, vcsDir, name, rev, wd, lim)
 			if !ok {
 				continue
 			}
-- 
2.43.0


From 6fd3ffc748516f16e52e024b4c380de2e35fcaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 33/51] fix: fold case of all letters above U+1044F

Case-insensitive matching took letters beyond U+1044F (Osage, Adlam, ...)
to have no other case, although unicode.SimpleFold knows theirs.
---
 codesearch/regexp/copy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codesearch/regexp/copy.go b/codesearch/regexp/copy.go
index 52d8d40..9838afd 100644
--- a/codesearch/regexp/copy.go
+++ b/codesearch/regexp/copy.go
@@ -77,7 +77,7 @@ const (
 	// minimum and maximum runes involved in folding.
 	// checked during test.
 	minFold = 0x0041
-	maxFold = 0x1044f
+	maxFold = 0x1e943
 )
 
 // appendFoldedRange returns the result of appending the range lo-hi
-- 
2.43.0


From 658a832cd70ade103ab56180dfc25e056d1b65c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 34/51] fix: match character classes that end among the
 surrogates

EncodeRune gives the encoding of U+FFFD for a surrogate, so a class with
a range that ends in U+D800-U+DFFF (also one of the parts a range is split
into) lost the characters whose last byte is 0xBE or 0xBF.
---
 codesearch/regexp/utf.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/codesearch/regexp/utf.go b/codesearch/regexp/utf.go
index 858c83c..b93abb0 100644
--- a/codesearch/regexp/utf.go
+++ b/codesearch/regexp/utf.go
@@ -211,6 +211,13 @@ func (b *runeBuilder) addBranch(pc uint32) {
 }
 
 func (b *runeBuilder) addRange(lo, hi rune, fold bool) {
+	// Surrogates have no UTF-8 encoding: a range must not begin or end with one.
+	if 0xD800 <= lo && lo <= 0xDFFF {
+		lo = 0xE000
+	}
+	if 0xD800 <= hi && hi <= 0xDFFF {
+		hi = 0xD7FF
+	}
 	if lo > hi {
 		return
 	}
-- 
2.43.0


From a8795e87d15f68808301a0977d9412877428116d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:50 +0000
Subject: [PATCH 35/51] fix: merge indexes by exact ranges of names

Names were assigned to the ranges of roots by string prefix, so files were
lost when the name of one root begins with another's that it does not lie
under, or when a root ends in the byte 0xff.
---
 codesearch/index/merge.go | 46 +++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/codesearch/index/merge.go b/codesearch/index/merge.go
index cf3eafd..b6b5001 100644
--- a/codesearch/index/merge.go
+++ b/codesearch/index/merge.go
@@ -33,6 +33,7 @@ package index
 import (
 	"encoding/binary"
 	"os"
+	"sort"
 	"strings"
 )
 
@@ -47,6 +48,34 @@ type postIndex struct { //nolint
 	offset uint32 //nolint
 }
 
+// A nameRange is the half-open interval [lo, hi) of names.
+type nameRange struct {
+	lo, hi string
+}
+
+// nameRanges lists, in order, the ranges of names that lie under the paths: of each
+// the name itself and those with a slash behind it.
+func nameRanges(paths []string) []nameRange {
+	var rs []nameRange
+	for _, p := range paths {
+		rs = append(rs, nameRange{p, p + "\x00"})
+		dir := strings.TrimSuffix(p, "/")
+		rs = append(rs, nameRange{dir + "/", dir + "0"}) // '0' follows '/'
+	}
+	sort.Slice(rs, func(i, j int) bool { return rs[i].lo < rs[j].lo })
+	return rs
+}
+
+// covered reports whether path is one of roots or lies under one of them.
+func covered(roots []string, path string) bool {
+	for _, r := range roots {
+		if path == r || strings.HasPrefix(path, strings.TrimSuffix(r, "/")+"/") {
+			return true
+		}
+	}
+	return false
+}
+
 // Merge creates a new index in the file dst that corresponds to merging
 // the two indices src1 and src2.  If both src1 and src2 claim responsibility
 // for a path, src2 is assumed to be newer and is given preference.
@@ -59,15 +88,14 @@ func Merge(dst, src1, src2 string) {
 	// Build docid maps.
 	var i1, i2, new uint32
 	var map1, map2 []idrange
-	for _, path := range paths2 {
+	for _, r := range nameRanges(paths2) {
 		// Determine range shadowed by this path.
 		old := i1
-		for i1 < uint32(ix1.numName) && ix1.Name(i1) < path {
+		for i1 < uint32(ix1.numName) && ix1.Name(i1) < r.lo {
 			i1++
 		}
 		lo := i1
-		limit := path[:len(path)-1] + string([]byte{path[len(path)-1] + 1})
-		for i1 < uint32(ix1.numName) && ix1.Name(i1) < limit {
+		for i1 < uint32(ix1.numName) && ix1.Name(i1) < r.hi {
 			i1++
 		}
 		hi := i1 //nolint
@@ -81,11 +109,11 @@ func Merge(dst, src1, src2 string) {
 		// Determine range defined by this path.
 		// Because we are iterating over the ix2 paths,
 		// there can't be gaps, so it must start at i2.
-		if i2 < uint32(ix2.numName) && ix2.Name(i2) < path {
+		if i2 < uint32(ix2.numName) && ix2.Name(i2) < r.lo {
 			panic("merge: inconsistent index")
 		}
 		lo = i2
-		for i2 < uint32(ix2.numName) && ix2.Name(i2) < limit {
+		for i2 < uint32(ix2.numName) && ix2.Name(i2) < r.hi {
 			i2++
 		}
 		hi = i2
@@ -111,7 +139,7 @@ func Merge(dst, src1, src2 string) {
 	pathData := ix3.offset()
 	mi1 := 0
 	mi2 := 0
-	last := "\x00" // not a prefix of anything
+	var roots []string
 	for mi1 < len(paths1) || mi2 < len(paths2) {
 		var p string
 		if mi2 >= len(paths2) || mi1 < len(paths1) && paths1[mi1] <= paths2[mi2] {
@@ -121,10 +149,10 @@ func Merge(dst, src1, src2 string) {
 			p = paths2[mi2]
 			mi2++
 		}
-		if strings.HasPrefix(p, last) { //nolint
+		if covered(roots, p) {
 			continue
 		}
-		last = p
+		roots = append(roots, p)
 		ix3.writeString(p)
 		ix3.writeString("\x00")
 	}
-- 
2.43.0


From 001f8ae498f27925944070b340931ce037ff75d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 36/51] fix: highlight matches once and end on empty ones

The UI searched for further matches in the rest of the line only, so a
pattern that matches the empty string kept the page busy forever, and one
with ^ or \b marked text that does not match.
---
 ui/assets/js/hound.js | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index fbbea52..b5c06a5 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -705,22 +705,23 @@ var ContentFor = function (line, regexp) {
         return EscapeHtml(line.Content);
     }
     var content = line.Content,
-        buffer = [];
-
-    while (true) {
-        regexp.lastIndex = 0;
-        var m = regexp.exec(content);
-        if (!m) {
-            buffer.push(EscapeHtml(content));
-            break;
+        buffer = [],
+        end = 0,
+        m;
+
+    regexp.lastIndex = 0;
+    while ((m = regexp.exec(content)) !== null) {
+        if (m[0] === "") {
+            // an empty match highlights nothing and does not advance
+            regexp.lastIndex++;
+            continue;
         }
 
-        buffer.push(
-            EscapeHtml(content.substring(0, regexp.lastIndex - m[0].length))
-        );
+        buffer.push(EscapeHtml(content.substring(end, m.index)));
         buffer.push("<em>" + EscapeHtml(m[0]) + "</em>");
-        content = content.substring(regexp.lastIndex);
+        end = regexp.lastIndex;
     }
+    buffer.push(EscapeHtml(content.substring(end)));
     return buffer.join("");
 };
 
-- 
2.43.0


From 5d82444dc93d752fb882e3507a43716921d0d039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 37/51] fix: show results of patterns that only the server
 understands

Building the RegExp for the highlights threw on patterns such as (?i)foo,
or on what had been typed since the search, so the results never appeared.
---
 ui/assets/js/hound.js | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index b5c06a5..e8ed41b 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -380,14 +380,18 @@ var SearchBar = React.createClass({
         this.props.onSearchRequested(this.getParams());
     },
     getRegExp: function () {
-        var regexp = this.refs.q.getDOMNode().value.trim();
-        if (this.refs.lsearch.getDOMNode().checked) {
+        // the results are those of the last search, whatever was typed since
+        var params = Model.params,
+            regexp = params.q;
+        if (ParamValueToBool(params.literal)) {
             regexp = EscapeRegExp(regexp);
         }
-        return new RegExp(
-            regexp,
-            this.refs.icase.getDOMNode().checked ? "ig" : "g"
-        );
+        try {
+            return new RegExp(regexp, ParamValueToBool(params.i) ? "ig" : "g");
+        } catch (e) {
+            // valid on the server only: show the results without highlights
+            return /(?!)/g;
+        }
     },
     getParams: function () {
         // selecting all repos is the same as not selecting any, so normalize the url
-- 
2.43.0


From 784a2d7f1c206b32026fe1cc105f3df5442f0370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 38/51] fix: pass the empty results of an empty query on

_this.Results is undefined, on which the result view throws.
---
 ui/assets/js/hound.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index e8ed41b..b3867ad 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -155,7 +155,7 @@ var Model = {
         if (params.q == "") {
             _this.results = [];
             _this.resultsByRepo = {};
-            _this.didSearch.raise(_this, _this.Results);
+            _this.didSearch.raise(_this, _this.results);
             return;
         }
 
-- 
2.43.0


From 747e97b08d00c4bba147506a5e1803ef6b43f4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 39/51] fix: drop answers to an earlier search

Answers that arrive late replaced the results of a newer search, and asking
twice for the rest of a repository's matches added them twice.
---
 ui/assets/js/hound.js | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index b3867ad..6107518 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -164,6 +164,11 @@ var Model = {
             data: params,
             type: "json",
             success: function (data) {
+                // a newer search has begun
+                if (_this.params !== params) {
+                    return;
+                }
+
                 if (data.Error) {
                     _this.didError.raise(_this, data.Error);
                     return;
@@ -209,6 +214,10 @@ var Model = {
                 _this.didSearch.raise(_this, _this.results, _this.stats);
             },
             error: function (xhr, status, err) {
+                if (_this.params !== params) {
+                    return;
+                }
+
                 _this.didError.raise(this, "The server broke down");
             },
         });
@@ -216,6 +225,7 @@ var Model = {
 
     LoadMore: function (repo) {
         var _this = this,
+            searched = this.params,
             results = this.resultsByRepo[repo],
             numLoaded = results.Matches.length,
             numNeeded = results.FilesWithMatch - numLoaded,
@@ -234,6 +244,14 @@ var Model = {
             data: params,
             type: "json",
             success: function (data) {
+                // a newer search has begun, or these were loaded already
+                if (
+                    _this.params !== searched ||
+                    results.Matches.length !== numLoaded
+                ) {
+                    return;
+                }
+
                 if (data.Error) {
                     _this.didError.raise(_this, data.Error);
                     return;
@@ -244,6 +262,10 @@ var Model = {
                 _this.didLoadMore.raise(_this, repo, _this.results);
             },
             error: function (xhr, status, err) {
+                if (_this.params !== searched) {
+                    return;
+                }
+
                 _this.didError.raise(this, "The server broke down");
             },
         });
-- 
2.43.0


From 8e7821b3f95f0f03a6518464640c7b57b63e0560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 40/51] fix: encode repository names in the URL of a search

---
 ui/assets/js/hound.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index 6107518..d4c8ddf 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -1093,7 +1093,7 @@ var App = React.createClass({
             "&excludeFiles=" +
             encodeURIComponent(params.excludeFiles) +
             "&repos=" +
-            params.repos;
+            encodeURIComponent(params.repos);
         history.pushState({ path: path }, "", path);
     },
     render: function () {
-- 
2.43.0


From 8de7903d43bbcd7e7494683c672b113714a7d4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:45 +0000
Subject: [PATCH 41/51] fix: search in the repositories that the form shows as
 selected

The names came from the state of React's select, which knows only of
selections by hand: after opening a URL with repositories, or going back to
one, the form showed one selection and the next search used another.
---
 ui/assets/js/hound.js | 48 ++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index d4c8ddf..526dcae 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -309,7 +309,7 @@ var Model = {
 var RepoOption = React.createClass({
     render: function () {
         return (
-            <option value={this.props.value} selected={this.props.selected}>
+            <option value={this.props.value}>
                 {this.props.value}
             </option>
         );
@@ -321,6 +321,7 @@ var SearchBar = React.createClass({
         var _this = this;
         Model.didLoadRepos.tap(function (model, repos) {
             _this.setState({ allRepos: Object.keys(repos) });
+            _this.setRepos(_this.props.repos);
         });
     },
 
@@ -342,7 +343,6 @@ var SearchBar = React.createClass({
         return {
             state: null,
             allRepos: [],
-            repos: [],
         };
     },
     queryGotKeydown: function (event) {
@@ -418,7 +418,15 @@ var SearchBar = React.createClass({
     getParams: function () {
         // selecting all repos is the same as not selecting any, so normalize the url
         // to have none.
-        var repos = Model.ValidRepos(this.refs.repos.state.value);
+        var repos = Model.ValidRepos(
+            Array.prototype.filter
+                .call(this.refs.repos.getDOMNode().options, function (option) {
+                    return option.selected;
+                })
+                .map(function (option) {
+                    return option.value;
+                })
+        );
         if (repos.length == Model.RepoCount()) {
             repos = [];
         }
@@ -445,6 +453,16 @@ var SearchBar = React.createClass({
         files.value = params.files;
         excludeFiles.value = params.excludeFiles;
     },
+    setRepos: function (repos) {
+        // selecting all repos is the same as not selecting any
+        var all = Model.ValidRepos(repos).length == Model.RepoCount();
+        Array.prototype.forEach.call(
+            this.refs.repos.getDOMNode().options,
+            function (option) {
+                option.selected = !all && repos.indexOf(option.value) >= 0;
+            }
+        );
+    },
     hasAdvancedValues: function () {
         return (
             this.refs.files.getDOMNode().value.trim() !== "" ||
@@ -488,16 +506,11 @@ var SearchBar = React.createClass({
     },
     render: function () {
         var repoCount = this.state.allRepos.length,
-            repoOptions = [],
-            selected = {};
-
-        this.state.repos.forEach(function (repo) {
-            selected[repo] = true;
-        });
+            repoOptions = [];
 
         this.state.allRepos.forEach(function (repoName) {
             repoOptions.push(
-                <RepoOption value={repoName} selected={selected[repoName]} />
+                <RepoOption value={repoName} />
             );
         });
 
@@ -1032,20 +1045,8 @@ var App = React.createClass({
         });
 
         var _this = this;
-        Model.didLoadRepos.tap(function (model, repos) {
-            // If all repos are selected, don't show any selected.
-            if (
-                model.ValidRepos(_this.state.repos).length == model.RepoCount()
-            ) {
-                _this.setState({ repos: [] });
-            }
-        });
-
         Model.didSearch.tap(function (model, results, stats) {
-            _this.refs.searchBar.setState({
-                stats: stats,
-                repos: repos,
-            });
+            _this.refs.searchBar.setState({ stats: stats });
 
             _this.refs.resultView.setState({
                 results: results,
@@ -1072,6 +1073,7 @@ var App = React.createClass({
         window.addEventListener("popstate", function (e) {
             var params = ParamsFromUrl();
             _this.refs.searchBar.setParams(params);
+            _this.refs.searchBar.setRepos(params.repos.split(","));
             Model.Search(params);
         });
     },
-- 
2.43.0


From 43ad77dc90af5ea361fdb841073167717630a6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:45 +0000
Subject: [PATCH 42/51] fix: show excluded files of the chosen repository only

A late answer about the repository chosen before replaced its list.
---
 ui/assets/js/excluded_files.js | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ui/assets/js/excluded_files.js b/ui/assets/js/excluded_files.js
index 1a38f9a..a8a7885 100644
--- a/ui/assets/js/excluded_files.js
+++ b/ui/assets/js/excluded_files.js
@@ -98,16 +98,21 @@ var FilterableExcludedFiles = React.createClass({
   },
 
   onRepoClick: function(repo) {
-    var _this = this;
+    var _this = this,
+        current = this.state.repos[repo];
     _this.setState({
       searching: true,
-      repo: this.state.repos[repo],
+      repo: current,
     });
     reqwest({
       url: 'api/v1/excludes',
       data: {repo: repo},
       type: 'json',
       success: function(data) {
+        // another repo was chosen in the meantime
+        if (_this.state.repo !== current) {
+          return;
+        }
         _this.setState({ files: data, searching: false });
       },
       error: function(xhr, status, err) {
-- 
2.43.0


From 296d78e910adb6fc02929a521a16552837993cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:13 +0000
Subject: [PATCH 43/51] fix: pull and index one repository at a time where they
 share a url

---
 searcher/searcher.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 10b9cd7..51385b8 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -273,6 +273,18 @@ func vcsDirFor(repo *config.Repo) string {
 	return fmt.Sprintf("vcs-%s", hashFor(repo.Url))
 }
 
+// The vcs directories in use. Repositories with the same url share one.
+var vcsDirLocks sync.Map
+
+// Locks the given vcs directory, so that what is pulled into it is also what gets
+// indexed, even if another repository has the same url. Returns the function that
+// unlocks it.
+func lockVcsDir(vcsDir string) func() {
+	lck, _ := vcsDirLocks.LoadOrStore(vcsDir, &sync.Mutex{})
+	lck.(*sync.Mutex).Lock()
+	return lck.(*sync.Mutex).Unlock
+}
+
 func init() {
 	rand.Seed(time.Now().UnixNano())
 }
@@ -374,6 +386,8 @@ func updateAndReindex(
 	lim.Acquire()
 	defer lim.Release()
 
+	defer lockVcsDir(vcsDir)()
+
 	repo := s.Repo
 	newRev, err := wd.PullOrClone(vcsDir, repo.Url)
 
@@ -424,6 +438,7 @@ func newSearcher(
 		return nil, err
 	}
 
+	defer lockVcsDir(vcsDir)()
 
 	rev, err := wd.PullOrClone(vcsDir, repo.Url)
 	if err != nil {
-- 
2.43.0


From 6f44330bc654c0600f10451521d065f1dc1fd2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:23 +0000
Subject: [PATCH 44/51] fix: rebuild an index at startup when its options have
 changed

---
 index/index.go       | 23 +++++++++++++++++++++++
 searcher/searcher.go | 15 +++++++++------
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/index/index.go b/index/index.go
index fb22568..c6b9665 100644
--- a/index/index.go
+++ b/index/index.go
@@ -82,12 +82,33 @@ type IndexRef struct {
 	Time               time.Time
 	dir                string
 	AutoGeneratedFiles []string
+	ExcludeDotFiles    bool
+	SpecialFiles       []string
 }
 
 func (r *IndexRef) Dir() string {
 	return r.dir
 }
 
+// Tells whether the index was built with the given options.
+func (r *IndexRef) BuiltWith(opt *IndexOptions) bool {
+	return r.ExcludeDotFiles == opt.ExcludeDotFiles &&
+		sameStrings(r.SpecialFiles, opt.SpecialFiles) &&
+		sameStrings(r.AutoGeneratedFiles, opt.AutoGeneratedFiles)
+}
+
+func sameStrings(a, b []string) bool {
+	if len(a) != len(b) {
+		return false
+	}
+	for i := range a {
+		if a[i] != b[i] {
+			return false
+		}
+	}
+	return true
+}
+
 func (r *IndexRef) writeManifest() error {
 	w, err := os.Create(filepath.Join(r.dir, manifestFilename))
 	if err != nil {
@@ -554,6 +575,8 @@ func Build(opt *IndexOptions, dst, src, url, rev string) (*IndexRef, error) {
 		Time:               time.Now(),
 		dir:                dst,
 		AutoGeneratedFiles: opt.AutoGeneratedFiles,
+		ExcludeDotFiles:    opt.ExcludeDotFiles,
+		SpecialFiles:       opt.SpecialFiles,
 	}
 
 	if err := r.writeManifest(); err != nil {
diff --git a/searcher/searcher.go b/searcher/searcher.go
index 51385b8..f9dd2c8 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -72,17 +72,18 @@ func (l limiter) Release() {
 }
 
 /**
- * Find an Index ref for the repo url and rev that is not in use yet and claim
- * it for reuse, returns nil if no such ref exists. Claiming a ref ensures it
+ * Find an Index ref for the repo url and rev that was built with the same
+ * options and is not in use yet and claim it for reuse, returns nil if no such
+ * ref exists. Claiming a ref ensures it
  * will not be garbage collected at the end of startup. Each ref is claimed at
  * most once, since the searcher that claims it owns (and later removes) it.
  */
-func (r *foundRefs) claim(url, rev string) *index.IndexRef {
+func (r *foundRefs) claim(url, rev string, opt *index.IndexOptions) *index.IndexRef {
 	r.lock.Lock()
 	defer r.lock.Unlock()
 
 	for _, ref := range r.refs {
-		if ref.Url == url && ref.Rev == rev && !r.claimed[ref] {
+		if ref.Url == url && ref.Rev == rev && ref.BuiltWith(opt) && !r.claimed[ref] {
 			r.claimed[ref] = true
 			return ref
 		}
@@ -445,8 +446,10 @@ func newSearcher(
 		return nil, err
 	}
 
+	opt := indexOptionsFor(repo, wd, vcsDir)
+
 	var idxDir string
-	ref := refs.claim(repo.Url, rev)
+	ref := refs.claim(repo.Url, rev, opt)
 	if ref == nil {
 		idxDir = nextIndexDir(dbpath)
 	} else {
@@ -454,7 +457,7 @@ func newSearcher(
 	}
 
 	idx, err := buildAndOpenIndex(
-		indexOptionsFor(repo, wd, vcsDir),
+		opt,
 		dbpath,
 		vcsDir,
 		idxDir,
-- 
2.43.0


From 020b9fa3896700b5274a5ae900d1c36b3d10fa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:19 +0000
Subject: [PATCH 45/51] fix: report data after the end of the configuration
 instead of ignoring it

---
 config/config.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 5998c1d..53bdb4d 100644
--- a/config/config.go
+++ b/config/config.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 )
@@ -200,10 +201,16 @@ func (c *Config) LoadFromFile(filename string) error {
 	}
 	defer r.Close()
 
-	if err := json.NewDecoder(r).Decode(c); err != nil {
+	d := json.NewDecoder(r)
+	if err := d.Decode(c); err != nil {
 		return err
 	}
 
+	// more after its end, say because of a brace too many, would be ignored
+	if _, err := d.Token(); err != io.EOF {
+		return fmt.Errorf("unexpected data after the configuration in %s", filename)
+	}
+
 	if c.Title == "" {
 		c.Title = defaultTitle
 	}
-- 
2.43.0


From f2337af618cfd1d0f754cc2ddbf26b116fd31c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:51 +0000
Subject: [PATCH 46/51] fix: remove the index directory of a failed build

---
 searcher/searcher.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index f9dd2c8..cf8f44f 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -239,8 +239,13 @@ func buildAndOpenIndex(
 	url,
 	rev string) (*index.Index, error) {
 	if _, err := os.Stat(idxDir); err != nil {
+		isNew := os.IsNotExist(err)
 		r, err := index.Build(opt, idxDir, vcsDir, url, rev)
 		if err != nil {
+			// nothing will ever use what was built so far.
+			if isNew {
+				os.RemoveAll(idxDir) //nolint
+			}
 			return nil, err
 		}
 
-- 
2.43.0


From 341872ba8e2bdbeacaa30c4f1a5b1af439dbed6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:59 +0000
Subject: [PATCH 47/51] fix: remove the temporary files of an index that is not
 completed

---
 codesearch/index/write.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/codesearch/index/write.go b/codesearch/index/write.go
index 5442080..9197276 100644
--- a/codesearch/index/write.go
+++ b/codesearch/index/write.go
@@ -55,6 +55,8 @@ type IndexWriter struct {
 
 	inbuf []byte     // input buffer
 	main  *bufWriter // main index file
+
+	flushed bool // the index is complete
 }
 
 const npost = 64 << 20 / 8 // 64 MB worth of post entries
@@ -254,6 +256,7 @@ func (ix *IndexWriter) Flush() {
 	}
 	os.Remove(ix.nameIndex.name)
 	os.Remove(ix.postIndex.name)
+	ix.flushed = true
 
 	log.Printf("%d data bytes, %d index bytes", ix.totalBytes, ix.main.offset())
 
@@ -262,6 +265,19 @@ func (ix *IndexWriter) Flush() {
 
 func (ix *IndexWriter) Close() {
 	ix.main.file.Close()
+	if ix.flushed {
+		return
+	}
+
+	// The index will not be completed, its temporary files are of no use.
+	for _, f := range ix.postFile {
+		f.Close()
+		os.Remove(f.Name())
+	}
+	for _, w := range []*bufWriter{ix.nameData, ix.nameIndex, ix.postIndex} {
+		w.file.Close()
+		os.Remove(w.name)
+	}
 }
 
 func copyFile(dst, src *bufWriter) {
-- 
2.43.0


From 12ad6517318d0b09d67c6d95343e45ae39f9a2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:05 +0000
Subject: [PATCH 48/51] fix: wait for git ls-files when git check-attr fails

---
 vcs/git.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vcs/git.go b/vcs/git.go
index 08c2440..36fb721 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -176,8 +176,12 @@ func (g *GitDriver) AutoGeneratedFiles(dir string) []string {
 
 	out, err := attributesCmd.Output()
 
+	// nobody reads the list of files any more, git ls-files must not wait for that.
+	pipe.Close()
+
 	if err != nil {
 		log.Printf("Error occured when running git check-attr in %s: %s.", dir, err)
+		filesCmd.Wait() //nolint
 		return files
 	}
 
-- 
2.43.0


From 9cf65097cab08545a5db13564e0a4996e878c6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:22 +0000
Subject: [PATCH 49/51] fix: find existing indexes in a dbpath with pattern
 characters

---
 searcher/searcher.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index cf8f44f..65fa203 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"path/filepath"
 	"runtime"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -211,14 +212,18 @@ func nextIndexDir(dbpath string) string {
 // Read the refs associated with each of the index dirs
 // in the given dbpath.
 func findExistingRefs(dbpath string) (*foundRefs, error) {
-	dirs, err := filepath.Glob(filepath.Join(dbpath, "idx-*"))
-	if err != nil {
+	// not filepath.Glob, the dbpath is not a pattern.
+	files, err := ioutil.ReadDir(dbpath)
+	if err != nil && !os.IsNotExist(err) {
 		return nil, err
 	}
 
 	var refs []*index.IndexRef
-	for _, dir := range dirs {
-		r, _ := index.Read(dir)
+	for _, file := range files {
+		if !strings.HasPrefix(file.Name(), "idx-") {
+			continue
+		}
+		r, _ := index.Read(filepath.Join(dbpath, file.Name()))
 		refs = append(refs, r)
 	}
 
-- 
2.43.0


From 59adc520475b77dfbe3f42825f98418628343104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:14 +0000
Subject: [PATCH 50/51] fix: keep the working copies of different vcs at one
 url apart

The directory of a working copy was named after the url alone. A url watched as
a local directory and later, or also, used as a git repository got the other's:
a link to the user's directory, in which git then ran reset --hard, or a clone
that was served in place of the directory and never changed again.
---
 searcher/searcher.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 65fa203..498257c 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -279,9 +279,15 @@ func hashFor(name string) string {
 	return hex.EncodeToString(h.Sum(nil))
 }
 
-// Create a normalized name for the vcs directory of this repo.
+// Create a normalized name for the vcs directory of this repo. A working copy of one
+// vcs is of no use to another, so each vcs has its own. Those of git, the default, are
+// named after the url alone.
 func vcsDirFor(repo *config.Repo) string {
-	return fmt.Sprintf("vcs-%s", hashFor(repo.Url))
+	name := repo.Url
+	if repo.Vcs != "git" {
+		name = repo.Vcs + " " + name
+	}
+	return fmt.Sprintf("vcs-%s", hashFor(name))
 }
 
 // The vcs directories in use. Repositories with the same url share one.
-- 
2.43.0


From a5b6ed38c31104d7194ca373a8a6ab7590be75f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:31 +0000
Subject: [PATCH 51/51] fix: do not take a repository around the working copy
 for it

---
 vcs/git.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/vcs/git.go b/vcs/git.go
index 36fb721..77a4eb0 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"io"
 	"log"
+	"os"
 	"os/exec"
 	"path/filepath"
 	"regexp"
@@ -47,12 +48,24 @@ func newGit(b []byte) (Driver, error) {
 	return &d, nil
 }
 
+// The environment for git in the given working copy. If that is none, as after a clone
+// that was cut short, git must not look for one in the directories above it, where the
+// data directory can be part of another one.
+func gitEnv(dir string) []string {
+	abs, err := filepath.Abs(dir)
+	if err != nil {
+		return nil
+	}
+	return append(os.Environ(), "GIT_CEILING_DIRECTORIES="+filepath.Dir(abs))
+}
+
 func (g *GitDriver) HeadRev(dir string) (string, error) {
 	cmd := exec.Command(
 		"git",
 		"rev-parse",
 		"HEAD")
 	cmd.Dir = dir
+	cmd.Env = gitEnv(dir)
 	r, err := cmd.StdoutPipe()
 	if err != nil {
 		return "", err
@@ -75,6 +88,7 @@ func (g *GitDriver) HeadRev(dir string) (string, error) {
 func run(desc, dir, cmd string, args ...string) (string, error) {
 	c := exec.Command(cmd, args...)
 	c.Dir = dir
+	c.Env = gitEnv(dir)
 	out, err := c.CombinedOutput()
 	if err != nil {
 		log.Printf(
-- 
2.43.0

