package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/hound-search/hound/index"

	"hv/bx"
	"hv/ref"
)

type file struct{ name, text string }

var nDir int

func fresh(c *bx.Ctx) string {
	nDir++
	return filepath.Join(c.Dir, fmt.Sprintf("t%d", nDir))
}

func writeTree(dir string, fs []file) {
	bx.Must(os.MkdirAll(dir, 0755))
	made := map[string]bool{}
	for _, f := range fs {
		p := filepath.Join(dir, f.name)
		d := filepath.Dir(p)
		if !made[d] {
			bx.Must(os.MkdirAll(d, 0755))
			made[d] = true
		}
		bx.Must(os.WriteFile(p, []byte(f.text), 0644))
	}
}

type built struct {
	*index.Index
	dir   string
	files []file // in the order of the walk
}

// mkIndex builds and opens an index; the caller drops it.
func mkIndex(c *bx.Ctx, fs []file, opt *index.IndexOptions) *built {
	src, dst := fresh(c), fresh(c)
	writeTree(src, fs)
	if opt == nil {
		opt = &index.IndexOptions{}
	}
	r, err := index.Build(opt, dst, src, "url", "rev")
	bx.Must(err)
	ix, err := r.Open()
	bx.Must(err)
	bx.Must(os.RemoveAll(src))
	o := append([]file{}, fs...)
	sort.SliceStable(o, func(a, b int) bool { return ref.WalkLess(o[a].name, o[b].name) })
	c.Transitions += int64(len(fs))
	return &built{ix, dst, o}
}

func (b *built) drop() {
	b.Index.Close()
	os.RemoveAll(b.dir)
}

// searchable says whether the documented limits let the text into the index.
func searchable(t string) bool {
	if !utf8.ValidString(t) || len(t) > 1<<25 {
		return false
	}
	return true
}

func fmtMatch(m ref.Match) string {
	return fmt.Sprintf("%d:%q -%q +%q", m.No, m.Line, m.Before, m.After)
}

func fromImpl(m *index.Match) ref.Match {
	return ref.Match{Line: m.Line, No: m.LineNumber, Before: m.Before, After: m.After}
}

func sameLines(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameMatch(a, b ref.Match) bool {
	return a.Line == b.Line && a.No == b.No && sameLines(a.Before, b.Before) && sameLines(a.After, b.After)
}

// diffFile compares the matches of one file.
func diffFile(name string, got []*index.Match, want []ref.Match) []string {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "nothing", "nothing"
		if i < len(got) {
			g = fmtMatch(fromImpl(got[i]))
		}
		if i < len(want) {
			w = fmtMatch(want[i])
		}
		if i >= len(got) || i >= len(want) || !sameMatch(fromImpl(got[i]), want[i]) {
			return []string{fmt.Sprintf("file %s, match %d: reported %s, expected %s", name, i, clip(g), clip(w))}
		}
	}
	return nil
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:150] + "..." + s[len(s)-100:]
	}
	return s
}

type want struct {
	name    string
	matches []ref.Match
}

// expect is the full result the reference denotes.
func expect(fs []file, p *ref.Pat, ctx int, nums func(*ref.Pat, string) []int) []want {
	var r []want
	for _, f := range fs {
		if n := nums(p, f.text); len(n) > 0 {
			r = append(r, want{f.name, ref.Ctx(f.text, n, ctx)})
		}
	}
	return r
}

func diffAll(res *index.SearchResponse, w []want) []string {
	for i := 0; i < len(res.Matches) || i < len(w); i++ {
		if i >= len(res.Matches) {
			return []string{fmt.Sprintf("no result for file %s (expected %d matches, first %s); %d files reported, %d expected", w[i].name, len(w[i].matches), fmtMatch(w[i].matches[0]), len(res.Matches), len(w))}
		}
		g := res.Matches[i]
		if i >= len(w) || g.Filename != w[i].name {
			e := "no further file"
			if i < len(w) {
				e = w[i].name
			}
			return []string{fmt.Sprintf("result %d is file %s, expected %s", i, g.Filename, e)}
		}
		if b := diffFile(g.Filename, g.Matches, w[i].matches); b != nil {
			return b
		}
	}
	return nil
}

func nums(p *ref.Pat, t string) []int      { return p.Nums(t) }
func numsAfter(p *ref.Pat, t string) []int { return p.NumsAfterMatch(t) }

const keyBegin = "begin-text-after-match"

// judge searches and compares; a result that differs only by the known finding
// about \A carries its key.
func judge(b *built, pat string, opt *index.SearchOptions, p *ref.Pat) (string, []string) {
	res, err := b.Search(pat, opt)
	if err != nil {
		return "", []string{"error: " + err.Error()}
	}
	bad := diffAll(res, expect(b.files, p, int(opt.LinesOfContext), nums))
	if bad == nil && opt.MaxResults == 0 && opt.Limit <= 0 && opt.Offset <= 0 && res.FilesWithMatch != len(res.Matches) {
		bad = []string{fmt.Sprintf("FilesWithMatch %d for %d files", res.FilesWithMatch, len(res.Matches))}
	}
	if bad != nil && p.Begin && diffAll(res, expect(b.files, p, int(opt.LinesOfContext), numsAfter)) == nil {
		return keyBegin, bad
	}
	return "", bad
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

func gunzip(p string) (string, error) {
	b, err := os.ReadFile(p)
	if err != nil {
		return "", err
	}
	z, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return "", err
	}
	var o bytes.Buffer
	if _, err := o.ReadFrom(z); err != nil {
		return "", err
	}
	return o.String(), nil
}

func names(fs []file) string {
	var n []string
	for _, f := range fs {
		n = append(n, f.name)
	}
	return strings.Join(n, " ")
}
