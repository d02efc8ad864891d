//go:build vsched

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"

	"github.com/hound-search/hound/index"

	"hv/vs"
)

func inoOf(fi os.FileInfo) uint64 {
	if st, ok := fi.Sys().(*syscall.Stat_t); ok {
		return st.Ino
	}
	return 0
}

func init() {
	// ---- S07: searches of one index at the same time, and a close
	mk := func(name string, pats []string, per int, mode string) {
		vs.Register(&vs.Scenario{Name: name, Mask: vs.PAll | vs.PUnlock, Desc: "concurrent searches of one index, " + mode,
			New: func() *vs.Exec {
				e := newEnv()
				tree := map[string]string{
					"a.txt": "alpha one\nbeta two\nalpha three\n",
					"b.txt": "beta four\nAlpha five\n",
					"c.txt": "gamma\n\nalpha beta\n",
				}
				src, dst := filepath.Join(e.dir, "src"), filepath.Join(e.db, "idx-0")
				var ix *index.Index
				pats, alone := pats, pats
				if mode == "equal searches" {
					// a pattern not seen before in this process: nothing is warm
					unseen++
					p := fmt.Sprintf("%s|q%dq", pats[0], unseen)
					pats = []string{p, p}
					alone = []string{p + "|nowhere", p + "|nowhere"}
				}
				mode := strings.TrimPrefix(mode, "equal ")
				n := len(pats)
				got := make([][]string, n)
				want := make([]string, n)
				closing := -1
				ops := make([][]int, n)
				var cerr error
				opts := &index.SearchOptions{LinesOfContext: 1}
				listing := ""
				one := func(pat string) string {
					var out, perr string
					protect(&perr, func() {
						r, err := ix.Search(pat, opts)
						if err != nil {
							out = "error: " + err.Error()
							return
						}
						for _, f := range r.Matches {
							for _, m := range f.Matches {
								out += fmt.Sprintf("%s:%d:%s %q %q\n", f.Filename, m.LineNumber, m.Line, m.Before, m.After)
							}
						}
						out += fmt.Sprint(r.FilesWithMatch)
					})
					if perr != "" {
						return perr
					}
					return out
				}
				return &vs.Exec{
					Body: func() {
						vs.Quiet(func() {
							writeTree(src, tree)
							ref, err := index.Build(&index.IndexOptions{}, dst, src, "u", "r1")
							must(err)
							ix, err = ref.Open()
							must(err)
							for i, p := range alone {
								want[i] = one(p)
							}
							listing = e.listing()
						})
						for i := range pats {
							got[i] = make([]string, per)
							ops[i] = make([]int, per)
							go func(i int) {
								for k := range got[i] {
									e.log(evCall, 0, i, k)
									n := runtime.VOps()
									got[i][k] = one(pats[i])
									ops[i][k] = runtime.VOps() - n
									e.log(evRet, 0, i, k)
								}
							}(i)
						}
						if mode != "searches" {
							go func() {
								perr := ""
								closing = e.now()
								e.log(evMark, 1, 0, 0)
								protect(&perr, func() {
									if mode == "close" {
										cerr = ix.Close()
									} else {
										cerr = ix.Destroy()
									}
								})
								if perr != "" {
									cerr = fmt.Errorf("%s", perr)
								}
								e.log(evMark, 0, 0, 0)
							}()
						}
					},
					Check: func(rr vs.Result) vs.Verdict {
						v := vs.Verdict{Outcome: statusName(rr.Status)}
						var b bad
						if cerr != nil {
							b.add("close: %v", cerr)
						}
						if mode == "searches" && e.listing() != listing {
							b.add("searching changed the index directory")
						}
						for i := range pats {
							for k, g := range got[i] {
								if g == "" {
									b.add("search %d/%d never finished", i, k)
									continue
								}
								// a search that began after the close may fail, nothing else may
								ret := e.find2(evRet, i, k)
								if g != want[i] {
									if mode != "searches" && (closing >= 0 && ret > closing) {
										v.Outcome += " late"
										// it must not have got to work on the index before it was closed
										if !lateStart(g) || ops[i][k] > 0 {
											b.add("search %q returned %q across the close, alone %q", pats[i], g, want[i])
										}
										continue
									}
									b.add("search %q returned %q, alone %q", pats[i], g, want[i])
								} else {
									v.Outcome += " same"
								}
							}
						}
						if len(b.list) > 0 {
							v.Bad = append(b.list, "events: "+e.trace())
						}
						return v
					},
					Done: e.done,
				}
			}})
	}
	mk("s07-2", []string{"alpha", "beta"}, 2, "searches")
	mk("s07-3", []string{"alpha", "beta", "(?i)alpha|gamma"}, 1, "searches")
	mk("s07-same", []string{"alpha", "alpha"}, 1, "equal searches")
	mk("s07-close", []string{"alpha", "beta"}, 1, "close")
	mk("s07-destroy", []string{"alpha", "beta"}, 1, "destroy")
}

var unseen int

func (e *env) find2(kind, a, b int) int {
	for i, x := range e.events() {
		if x.Kind == kind && x.A == a && x.B == b {
			return i
		}
	}
	return -1
}

// lateStart: the answer of a search that got hold of the index only after it was
// closed: an error or a recovered fault, never a partial result.
func lateStart(g string) bool {
	return len(g) > 5 && (g[:5] == "error" || g[:5] == "panic")
}
