package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	tri "github.com/hound-search/hound/codesearch/index"

	"hv/bx"
	"hv/gen"
)

type doc struct{ name, text string }

// chunked reads s in pieces of n bytes; eof: the last piece comes with io.EOF.
type chunked struct {
	s   string
	n   int
	eof bool
}

func (r *chunked) Read(p []byte) (int, error) {
	if r.s == "" {
		return 0, io.EOF
	}
	k := min(len(r.s), len(p))
	if r.n > 0 {
		k = min(k, r.n)
	}
	copy(p, r.s[:k])
	r.s = r.s[k:]
	if r.eof && r.s == "" {
		return k, io.EOF
	}
	return k, nil
}

// writeTri writes an index file and returns the accepted documents.
func writeTri(c *bx.Ctx, file string, paths []string, docs []doc, rd func(string) io.Reader) ([]doc, []string) {
	w := tri.Create(file)
	if paths != nil {
		w.AddPaths(paths)
	}
	var in []doc
	for _, d := range docs {
		c.Transitions++
		var r io.Reader = strings.NewReader(d.text)
		if rd != nil {
			r = rd(d.text)
		}
		why := w.Add(d.name, r)
		if why == "" {
			in = append(in, d)
			if strings.IndexByte(d.text, 0xff) >= 0 {
				return nil, []string{fmt.Sprintf("accepted: %q", clip(d.text))}
			}
		} else if plain(d.text) {
			return nil, []string{fmt.Sprintf("not accepted: %q: %s", clip(d.text), why)}
		}
	}
	w.Flush()
	w.Close()
	return in, nil
}

func triSet(s string) map[uint32]bool {
	t := map[uint32]bool{}
	for i := 0; i+3 <= len(s); i++ {
		t[uint32(s[i])<<16|uint32(s[i+1])<<8|uint32(s[i+2])] = true
	}
	return t
}

func sameIDs(a, b []uint32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func clipIDs(l []uint32) string {
	if len(l) > 12 {
		return fmt.Sprintf("%d ids %v...%v", len(l), l[:6], l[len(l)-3:])
	}
	return fmt.Sprint(l)
}

// checkTri compares an index file with the documents it should hold.
func checkTri(c *bx.Ctx, file string, paths []string, docs []doc, ands bool) []string {
	ix := tri.Open(file)
	defer ix.Close()
	if fmt.Sprintf("%q", ix.Paths()) != fmt.Sprintf("%q", paths) {
		return []string{fmt.Sprintf("paths %q, expected %q", ix.Paths(), paths)}
	}
	all := ix.PostingQuery(&tri.Query{Op: tri.QAll})
	if len(all) != len(docs) {
		return []string{fmt.Sprintf("%d files, expected %d", len(all), len(docs))}
	}
	post := map[uint32][]uint32{0: nil, 0x616263: nil, 0xfffffe: nil, 0xffffff: nil}
	for i, d := range docs {
		if all[i] != uint32(i) || ix.Name(uint32(i)) != d.name || string(ix.NameBytes(uint32(i))) != d.name {
			return []string{fmt.Sprintf("file %d is %q, expected %q", i, clip(ix.Name(uint32(i))), clip(d.name))}
		}
		for t := range triSet(d.text) {
			post[t] = append(post[t], uint32(i))
		}
	}
	keys := make([]uint32, 0, len(post))
	for t := range post {
		keys = append(keys, t)
	}
	for _, t := range keys {
		if len(keys) > 3000 {
			break
		}
		for _, u := range []uint32{t - 1, t + 1, t ^ 0x100, t ^ 0x10000} {
			if u < 1<<24 {
				if _, ok := post[u]; !ok {
					post[u] = nil
				}
			}
		}
	}
	for t, want := range post {
		c.Transitions++
		if got := ix.PostingList(t); !sameIDs(got, want) {
			return []string{fmt.Sprintf("files with trigram %06x: %s, expected %s", t, clipIDs(got), clipIDs(want))}
		}
	}
	if !ands {
		return nil
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	if len(keys) > 14 {
		keys = keys[:14]
	}
	for _, t := range keys {
		for _, u := range keys {
			c.Transitions += 2
			and, or := []uint32{}, []uint32{}
			m := map[uint32]int{}
			for _, x := range post[t] {
				m[x] |= 1
			}
			for _, x := range post[u] {
				m[x] |= 2
			}
			for i := range docs {
				if m[uint32(i)] == 3 {
					and = append(and, uint32(i))
				}
				if m[uint32(i)] != 0 {
					or = append(or, uint32(i))
				}
			}
			if got := ix.PostingAnd(ix.PostingList(t), u); !sameIDs(got, and) {
				return []string{fmt.Sprintf("files with %06x and %06x: %s, expected %s", t, u, clipIDs(got), clipIDs(and))}
			}
			if got := ix.PostingOr(ix.PostingList(t), u); !sameIDs(got, or) {
				return []string{fmt.Sprintf("files with %06x or %06x: %s, expected %s", t, u, clipIDs(got), clipIDs(or))}
			}
		}
	}
	return nil
}

func triCase(c *bx.Ctx, desc string, docs []doc, rd func(string) io.Reader, ands bool) {
	c.States++
	c.DoKey(func() string { return desc }, func() (string, []string) {
		f := fresh(c)
		defer os.Remove(f)
		in, bad := writeTri(c, f, nil, docs, rd)
		if bad == nil {
			bad = checkTri(c, f, nil, in, ands)
		}
		if bad == nil {
			bad = leftovers(c)
		}
		return "", bad
	})
}

// leftovers: writing an index leaves no temporary file.
func leftovers(c *bx.Ctx) []string {
	m, _ := filepath.Glob(filepath.Join(c.Dir, "csearch*"))
	if len(m) > 0 {
		for _, x := range m {
			os.Remove(x)
		}
		return []string{fmt.Sprintf("temporary files left behind: %d (%s)", len(m), filepath.Base(m[0]))}
	}
	return nil
}

func triSmall(c *bx.Ctx) {
	texts := []string{"", "ab", "abc", "abcd", "bcd\nabc", "世界", "xabc\xff", "\x00\x00\x00", "zzzz", "abc\nabd\nabe\n", "~~~\u07ff\U0010fffd", "\xffab"}
	for _, l := range gen.Lists([5]int{2, 3, 3, 4, 5}[c.Bound], len(texts)) {
		if !c.Mine() || c.Over() {
			continue
		}
		var ds []doc
		for i, k := range l {
			ds = append(ds, doc{fmt.Sprintf("f%d", i), texts[k]})
		}
		triCase(c, fmt.Sprintf("texts %v of %q", l, texts), ds, nil, true)
	}
}

func triSpill(c *bx.Ctx) {
	var texts []string
	for _, k := range []int{1, 100, 2048, 4095, 4096, 4097, 9000} {
		texts = append(texts, distinct(k))
	}
	texts = append(texts, gen.Rep("q~r~s", 1), strings.ToUpper(distinct(3000)), distinct(4096)+"\xff")
	for i, k := range []int{1, 100, 2048, 4095, 4096, 4097, 9000} {
		if n := len(triSet(texts[i])); n != k {
			bx.Must(fmt.Errorf("distinct(%d) has %d trigrams", k, n))
		}
	}
	for _, l := range gen.Lists([5]int{1, 2, 3, 3, 4}[c.Bound], len(texts)) {
		if !c.Mine() || c.Over() {
			continue
		}
		var ds []doc
		for i, k := range l {
			ds = append(ds, doc{fmt.Sprintf("f%d", i), texts[k]})
		}
		triCase(c, fmt.Sprintf("files of kinds %v", l), ds, nil, false)
	}
	// many spills: every sequence of overlapping sets
	a := distinct(4096)
	sets := []string{a, strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' {
			return r - 'a' + 'A'
		}
		return r
	}, a), a[len(a)/2:] + "!" + strings.ToUpper(a[:len(a)/2]), "tiny"}
	n := [5]int{2, 3, 4, 5, 7}[c.Bound]
	for _, l := range gen.Lists(n, len(sets)) {
		if len(l) < n || !c.Mine() || c.Over() {
			continue
		}
		var ds []doc
		for i, k := range append(append([]int{}, l...), l...) {
			ds = append(ds, doc{fmt.Sprintf("g%d", i), sets[k]})
		}
		triCase(c, fmt.Sprintf("spilling files of kinds %v, twice", l), ds, nil, false)
	}
}

// triGaps: distances between files that share a trigram.
func triGaps(c *bx.Ctx) {
	gaps := []int{1, 2, 126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385, 20000}
	if c.Bound >= 3 {
		gaps = append(gaps, 1<<21-1, 1<<21, 1<<21+1)
	}
	for _, g := range gaps {
		for _, at := range []int{0, 1, 126, 127, 128} {
			if g > 1<<20 && at > 0 || !c.Mine() || c.Over() {
				continue
			}
			n := at + g + 130
			ds := make([]doc, n)
			for i := range ds {
				ds[i].name = fmt.Sprint(i)
			}
			ds[at].text = "abc"
			ds[at+g].text = "abc xyz"
			ds[n-1].text = "xyz abc"
			triCase(c, fmt.Sprintf("a trigram in files %d, %d and %d", at, at+g, n-1), ds, nil, false)
		}
	}
}

// triSizes: names, numbers of names and trigrams around the sizes of the buffers.
func triSizes(c *bx.Ctx) {
	var cases [][]doc
	const k = 256 << 10
	for _, a := range []int{1, k - 2, k - 1, k, k + 1, 2*k + 1} {
		for _, b := range []int{1, k - 3, k - 2, k - 1, k} {
			cases = append(cases, []doc{{gen.Rep("n", a), "abc"}, {gen.Rep("m", b), "bcd"}, {"last", "abcd"}})
		}
	}
	for _, n := range []int{k/4 - 2, k/4 - 1, k / 4, k/4 + 1, k / 2} {
		ds := make([]doc, n)
		for i := range ds {
			ds[i].name = fmt.Sprintf("%x", i)
		}
		ds[n-1].text = "abc"
		cases = append(cases, ds)
	}
	for _, n := range []int{k/11 - 1, k / 11, k/11 + 1} {
		t := distinct(n)
		// by parts under the limit of trigrams per file
		cases = append(cases, []doc{{"a", t[:len(t)/2+1]}, {"b", t[len(t)/2-1:]}, {"c", distinct(n - 18000)}})
	}
	for _, n := range []string{"", "a\nb", "\xff\xfe", "/abs/olute", "a//b", "..", " ", "é", "é"} {
		for _, m := range []string{"", "a\nb", "z", "\xff\xfe"} {
			cases = append(cases, []doc{{n, "abc"}, {m, "abcd"}, {n, "xabc"}})
		}
	}
	for i, ds := range cases {
		if !c.Mine() || c.Over() {
			continue
		}
		triCase(c, fmt.Sprintf("case %d: %d files, first name of %d bytes", i, len(ds), len(ds[0].name)), ds, nil, len(ds) < 10)
	}
}

// triRead: the content arrives in pieces of every size.
func triRead(c *bx.Ctx) {
	var texts []string
	texts = append(texts, gen.Strings([5]int{3, 4, 5, 6, 7}[c.Bound], "a", "b", "é")...)
	for d := -4; d <= 4; d++ {
		for _, e := range []int{16384, 32768} {
			texts = append(texts, gen.Rep("line of text\n", e/13+2)[:e+d]+"xyz", gen.Rep("0123456789\n", e/11+2)[:e+d-1]+"世xyz", gen.Rep("0123456789\n", e/11+2)[:e+d])
		}
	}
	for _, t := range texts {
		if !c.Mine() || c.Over() {
			continue
		}
		sizes := []int{0, 1, 2, 3}
		if len(t) > 100 {
			sizes = []int{0, 1, 4095, 16383, 16384}
		}
		for _, n := range sizes {
			for _, eof := range []bool{false, true} {
				triCase(c, fmt.Sprintf("text of %d bytes %q in pieces of %d, end with the last %v", len(t), clip(t), n, eof), []doc{{"a", "first"}, {"b", t}, {"c", "last"}},
					func(s string) io.Reader { return &chunked{s, n, eof} }, false)
			}
		}
	}
}

type qtree struct {
	op  tri.QueryOp
	tr  []int
	sub []*qtree
}

var qtri = []string{"abc", "bcd", "xyz", "nop"}

func (q *qtree) build() *tri.Query {
	r := &tri.Query{Op: q.op}
	for _, t := range q.tr {
		r.Trigram = append(r.Trigram, qtri[t])
	}
	for _, s := range q.sub {
		r.Sub = append(r.Sub, s.build())
	}
	return r
}

func (q *qtree) holds(set int) bool {
	switch q.op {
	case tri.QAll:
		return true
	case tri.QNone:
		return false
	}
	and := q.op == tri.QAnd
	for _, t := range q.tr {
		if (set>>uint(t)&1 == 1) != and {
			return !and
		}
	}
	for _, s := range q.sub {
		if s.holds(set) != and {
			return !and
		}
	}
	return and
}

func (q *qtree) String() string {
	s := [...]string{"all", "none", "and", "or"}[q.op]
	for _, t := range q.tr {
		s += " " + qtri[t]
	}
	for _, x := range q.sub {
		s += " (" + x.String() + ")"
	}
	return s
}

// triQuery: every query tree on an index with a file for every set of trigrams.
func triQuery(c *bx.Ctx) {
	f := fresh(c)
	var ds []doc
	for rep := 0; rep < 2; rep++ {
		for s := 0; s < 8; s++ {
			t := "."
			for i := 0; i < 3; i++ {
				if s>>uint(i)&1 == 1 {
					t += qtri[i] + "."
				}
			}
			ds = append(ds, doc{fmt.Sprintf("%d/%d", rep, s), t})
		}
	}
	_, bad := writeTri(c, f, nil, ds, nil)
	if bad != nil {
		c.Fail("", "query index", bad...)
		return
	}
	ix := tri.Open(f)
	try := func(q *qtree) {
		if !c.Mine() || c.Over() {
			return
		}
		c.States++
		c.Transitions++
		c.DoKey(q.String, func() (string, []string) {
			var want []uint32
			for i := range ds {
				if q.holds(i % 8) {
					want = append(want, uint32(i))
				}
			}
			b := q.build()
			for rep := 0; rep < 2; rep++ {
				if got := ix.PostingQuery(b); !sameIDs(got, want) {
					return "", []string{fmt.Sprintf("files selected by %s: %v, expected %v (time %d)", q, got, want, rep+1)}
				}
			}
			return "", nil
		})
	}
	level := func(n int, trs [][]int, subs [][]*qtree) []*qtree {
		var r []*qtree
		for _, op := range []tri.QueryOp{tri.QAnd, tri.QOr} {
			for _, t := range trs {
				for _, s := range subs {
					if len(t)+len(s) > 0 {
						r = append(r, &qtree{op, t, s})
					}
				}
			}
		}
		return r
	}
	leaf := []*qtree{{op: tri.QAll}, {op: tri.QNone}}
	l0 := append(append([]*qtree{}, leaf...), level(0, gen.Lists([5]int{1, 1, 2, 2, 2}[c.Bound], 4), [][]*qtree{nil})...)
	pairs := func(a, b []*qtree) [][]*qtree {
		r := [][]*qtree{nil}
		for _, x := range a {
			r = append(r, []*qtree{x})
			for _, y := range b {
				r = append(r, []*qtree{x, y})
			}
		}
		return r
	}
	l1 := level(1, gen.Lists(1, 4), pairs(l0, l0))
	for _, q := range append(l0, l1...) {
		try(q)
	}
	if c.Bound < 2 {
		return
	}
	s0 := append(append([]*qtree{}, leaf...), level(0, gen.Lists(1, 3), [][]*qtree{nil})...)
	if c.Bound >= 4 {
		s0 = append(s0, level(0, [][]int{{0, 1}, {1, 2}, {3}}, [][]*qtree{nil})...)
	}
	s1 := append(level(1, [][]int{nil, {0}, {1}}, pairs(s0, s0)), s0...)
	if c.Bound < 3 {
		s1 = append(level(1, [][]int{nil, {0}}, pairs(s0, s0[:4])), s0...)
	}
	for _, op := range []tri.QueryOp{tri.QAnd, tri.QOr} {
		for _, t := range [][]int{nil, {0}, {2}} {
			for _, x := range s1 {
				try(&qtree{op, t, []*qtree{x}})
				for _, y := range s0 {
					try(&qtree{op, t, []*qtree{x, y}})
					try(&qtree{op, t, []*qtree{y, x}})
				}
			}
		}
	}
	if c.Bound >= 3 {
		var small []*qtree
		for i, q := range s1 {
			if c.Bound >= 4 || i%3 == 0 {
				small = append(small, q)
			}
		}
		for i, x := range small {
			for j, y := range small {
				if c.Bound < 4 && (i+j)%4 != 0 {
					continue
				}
				try(&qtree{tri.QAnd, nil, []*qtree{x, y}})
				try(&qtree{tri.QOr, nil, []*qtree{x, y}})
			}
		}
	}
	ix.Close()
}

// ---- merge

// under says whether name lies under the root (a file or a directory).
func under(name, root string) bool {
	return name == root || strings.HasPrefix(name, strings.TrimSuffix(root, "/")+"/")
}

// mergeRef: the files of the first that lie under no root of the second, and those
// of the second.
func mergeRef(p1 []string, d1 []doc, p2 []string, d2 []doc) ([]string, []doc) {
	var out []doc
	for _, d := range d1 {
		keep := true
		for _, r := range p2 {
			keep = keep && !under(d.name, r)
		}
		if keep {
			out = append(out, d)
		}
	}
	out = append(out, d2...)
	sort.SliceStable(out, func(a, b int) bool { return out[a].name < out[b].name })
	ps := append(append([]string{}, p1...), p2...)
	sort.Strings(ps)
	var paths []string
	for _, p := range ps {
		covered := false
		for _, q := range paths {
			covered = covered || under(p, q)
		}
		if !covered {
			paths = append(paths, p)
		}
	}
	return paths, out
}

var merged int

// unmapAll removes the mappings of files under dir, which Merge leaves behind: the
// kernel allows a process 65530.
func unmapAll(dir string) {
	m, err := os.ReadFile("/proc/self/maps")
	bx.Must(err)
	for _, l := range strings.Split(string(m), "\n") {
		if strings.Contains(l, dir+"/") {
			var a, b uintptr
			fmt.Sscanf(l, "%x-%x", &a, &b)
			syscall.RawSyscall(syscall.SYS_MUNMAP, a, b-a, 0)
		}
	}
}

func merges(c *bx.Ctx) {
	// roots and the files that may lie under them
	roots := []string{"/a", "/a/d", "/b", "/é", "/ê", "/ab", "/c.txt", "/a-b", "/b\xff", "/"}
	files := map[string][]string{"/a": {"/a/d/x", "/a/y"}, "/a/d": {"/a/d/x", "/a/d/z"}, "/b": {"/b/x", "/b/y"}, "/é": {"/é/x"}, "/ê": {"/ê/x"}, "/ab": {"/ab/x"}, "/c.txt": {"/c.txt"}, "/a-b": {"/a-b/x"}, "/b\xff": {"/b\xff/x"}, "/": {"/a/y", "/\xff"}}
	texts := [][]string{{"abc xyz", "bcd"}, {"abc", "pqr é"}}
	type side struct {
		paths []string
		docs  []doc
	}
	mk := func(which int) []side {
		var out []side
		nr := [5]int{2, 2, 2, 3, 3}[c.Bound]
		var rec func(i int, ps []string)
		rec = func(i int, ps []string) {
			// every subset of the files under the roots
			set := map[string]bool{}
			var all []string
			for _, p := range ps {
				for _, f := range files[p] {
					if !set[f] {
						set[f] = true
						all = append(all, f)
					}
				}
			}
			sort.Strings(all)
			for m := 0; m < 1<<uint(len(all)); m++ {
				if c.Bound < 4 && len(all) > 3 && m&(m-1) != 0 && ^m&(1<<uint(len(all))-1) != 0 {
					// of four and more files: none, single ones, all
					continue
				}
				s := side{paths: append([]string{}, ps...)}
				for j, f := range all {
					if m>>uint(j)&1 == 1 {
						s.docs = append(s.docs, doc{f, fmt.Sprintf("%s %+q", texts[which][(j+which)%2], f)})
					}
				}
				out = append(out, s)
			}
			if len(ps) == nr {
				return
			}
			for j := i; j < len(roots); j++ {
				skip := false
				for _, p := range ps {
					skip = skip || under(roots[j], p) || under(p, roots[j])
				}
				if !skip {
					rec(j+1, append(ps, roots[j]))
				}
			}
		}
		rec(0, nil)
		for i := range out {
			sort.Strings(out[i].paths)
		}
		return out
	}
	s1, s2 := mk(0), mk(1)
	// the index files are written once
	write := func(s []side, tag string) []string {
		var l []string
		for i, x := range s {
			f := filepath.Join(c.Dir, fmt.Sprintf("%s%d", tag, i))
			if _, bad := writeTri(c, f, x.paths, x.docs, nil); bad != nil {
				c.Fail("", "index to merge", bad...)
			}
			l = append(l, f)
		}
		return l
	}
	f1, f2 := write(s1, "one"), write(s2, "two")
	for i, a := range s1 {
		for j, b := range s2 {
			if !c.Mine() || c.Over() {
				continue
			}
			c.States++
			c.Transitions++
			c.Do(fmt.Sprintf("merge %q %v with %q %v", a.paths, a.docs, b.paths, b.docs), func() []string {
				dst := filepath.Join(c.Dir, "merged")
				defer os.Remove(dst)
				paths, docs := mergeRef(a.paths, a.docs, b.paths, b.docs)
				tri.Merge(dst, f1[i], f2[j])
				if merged++; merged%8000 == 0 {
					unmapAll(c.Dir)
				}
				bad := checkTri(c, dst, paths, docs, len(docs) < 5)
				if bad == nil {
					bad = leftovers(c)
				}
				if bad == nil {
					bad = sameAsBuilt(c, dst, paths, docs)
				}
				return bad
			})
		}
	}
}

// sameAsBuilt: every query gives the same on the merged index as on one built from
// the union.
func sameAsBuilt(c *bx.Ctx, file string, paths []string, docs []doc) []string {
	f := filepath.Join(c.Dir, "union")
	defer os.Remove(f)
	if _, bad := writeTri(c, f, paths, docs, nil); bad != nil {
		return bad
	}
	x, y := tri.Open(file), tri.Open(f)
	defer x.Close()
	defer y.Close()
	for _, q := range []*tri.Query{{Op: tri.QAll}, {Op: tri.QAnd, Trigram: []string{"abc"}}, {Op: tri.QAnd, Trigram: []string{"abc", "xyz"}}, {Op: tri.QOr, Trigram: []string{"bcd", "xyz", "nop"}},
		{Op: tri.QAnd, Trigram: []string{"abc"}, Sub: []*tri.Query{{Op: tri.QOr, Trigram: []string{"xyz", "pqr"}}}}} {
		c.Transitions++
		if a, b := x.PostingQuery(q), y.PostingQuery(q); !sameIDs(a, b) {
			return []string{fmt.Sprintf("query %v: merged %v, built %v", q, a, b)}
		}
	}
	return nil
}

// mergeBig: merging indexes with many files and trigrams.
func mergeBig(c *bx.Ctx) {
	for _, n1 := range []int{0, 1, 127, 128, 129, 17000} {
		for _, n2 := range []int{0, 1, 128, 16500} {
			for _, kind := range []string{"before", "after", "inside", "around"} {
				if !c.Mine() || c.Over() {
					continue
				}
				c.States++
				c.DoKey(func() string { return fmt.Sprintf("merge of %d and %d files, the second %s", n1, n2, kind) }, func() (string, []string) {
					r1, r2 := []string{"/m"}, []string{"/a"}
					switch kind {
					case "after":
						r2 = []string{"/z"}
					case "inside":
						r2 = []string{"/m/5"}
					case "around":
						r1, r2 = []string{"/m/5"}, []string{"/m"}
					}
					mk := func(root string, n int, t string) []doc {
						var ds []doc
						for i := 0; i < n; i++ {
							x := ""
							if i == 0 || i == n-1 || i == n/2 {
								x = t
							}
							ds = append(ds, doc{fmt.Sprintf("%s/%06d", root, i), x})
						}
						if root == "/m" && n > 2 {
							ds = append(ds, doc{"/m/5/x", "abc " + t}, doc{"/m/6", "abc"})
						}
						return ds
					}
					d1, d2 := mk(r1[0], n1, "abc xyz"), mk(r2[0], n2, "abc pqr")
					a, b, dst := fresh(c), fresh(c), fresh(c)
					defer os.Remove(a)
					defer os.Remove(b)
					defer os.Remove(dst)
					if _, bad := writeTri(c, a, r1, d1, nil); bad != nil {
						return "", bad
					}
					if _, bad := writeTri(c, b, r2, d2, nil); bad != nil {
						return "", bad
					}
					paths, docs := mergeRef(r1, d1, r2, d2)
					tri.Merge(dst, a, b)
					return "", checkTri(c, dst, paths, docs, false)
				})
			}
		}
	}
}

func init() {
	for n, f := range map[string]func(*bx.Ctx){"small": triSmall, "spill": triSpill, "gaps": triGaps, "sizes": triSizes, "read": triRead, "query": triQuery} {
		bx.Register(&bx.Job{Name: "i02-" + n, Desc: "index files: " + n, Run: f, GC: true})
	}
	bx.Register(&bx.Job{Name: "i03-merge", Desc: "every pair of small indexes merged", Run: merges, GC: true})
	bx.Register(&bx.Job{Name: "i03-big", Desc: "indexes of many files merged", Run: mergeBig, GC: true})
}
