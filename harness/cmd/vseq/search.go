package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	stdre "regexp"
	"sort"
	"strings"

	"github.com/hound-search/hound/index"

	"hv/bx"
	"hv/gen"
	"hv/ref"
)

func textFiles(texts []string) []file {
	var fs []file
	for i, t := range texts {
		fs = append(fs, file{fmt.Sprintf("f%06d", i), t})
	}
	return fs
}

type searchJob struct {
	g       gen.Grammar
	size    [5]int
	letters []string
	length  [5]int
	icase   []bool
	literal []bool
	extra   []string
}

var ff, ft = []bool{false}, []bool{false, true}

var searchJobs = map[string]searchJob{
	"ast": {gen.Grammar{Leaves: []string{"a", "b", "^", "$", ".", "[^a]", `\b`, ""}, Lits: []string{"ab", "aba", "bbb"}, Post: []string{"*", "+", "{2}"}},
		[5]int{1, 2, 3, 3, 4}, []string{"a", "b", "\n"}, [5]int{3, 4, 5, 6, 5}, ff, ff, nil},
	"edge": {gen.Grammar{Leaves: []string{"a", `\A`, `\z`, `(?-m:^)`, `(?-m:$)`, `\n`, `(?s:.)`, `\B`, `\s`}, Post: []string{"*", "??"}},
		[5]int{1, 2, 3, 3, 3}, []string{"a", "\n", " "}, [5]int{3, 4, 5, 6, 7}, ff, ff, nil},
	"icase": {gen.Grammar{Leaves: []string{"k", "K", "[a-k]", "[^K]", "\u212a", "É", "1"}, Lits: []string{"kK1", "k1k", "Kkk"}, Post: []string{"+"}},
		[5]int{1, 2, 3, 3, 4}, []string{"k", "K", "\u212a", "1", "é", "\n"}, [5]int{2, 3, 4, 4, 4}, ft, ff, nil},
	"literal": {gen.Grammar{Leaves: []string{"a", ".", "*", "[", `\`, "(", "$", "^", "|", "A", "+", "?", "{", `\E`, " "}, Post: nil, NoAlt: true},
		[5]int{1, 3, 3, 5, 5}, []string{"a", ".", "*", "A", `\`, "[", "(", "$", "\n"}, [5]int{2, 3, 3, 3, 4}, ft, []bool{true}, []string{"a.*", `\a`, "(a", "a|A", "a\n", "\n", "[a]"}},
	"bytes": {gen.Grammar{Leaves: []string{"a", ".", `\r`, "$", `\s`, "é", `[^a]`, `\x00`, "\t", `\b`, `\x{feff}`, `\pL`}, Post: []string{"+"}},
		[5]int{1, 2, 3, 2, 3}, []string{"a", "\r", "\x00", "\t", "é", "\u2028", "\ufeff", "\x7f", "\v", "\n"}, [5]int{2, 3, 3, 4, 4}, ft, ff, nil},
	"words": {gen.Grammar{Leaves: []string{"[a-c]", ".", "x"}, Lits: []string{"foo", "oob", "bar", "fo", "Foo"}, Post: []string{"*", "+", "?"}},
		[5]int{2, 3, 3, 4, 5}, []string{"foo", "bar", "x", "\n", " "}, [5]int{2, 3, 4, 4, 4}, ft, ff, nil},
}

func regSearch(n string, s searchJob) {
	bx.Register(&bx.Job{Name: "s01-" + n, Desc: "search of an index of every text, " + n, Run: func(c *bx.Ctx) {
		b := mkIndex(c, textFiles(gen.Strings(s.length[c.Bound], s.letters...)), nil)
		defer b.drop()
		if c.Shard == 0 {
			c.States += int64(len(b.files))
		}
		for _, pat := range append(append([]string{}, s.extra...), s.g.Patterns(s.size[c.Bound])...) {
			for _, ic := range s.icase {
				for _, lit := range s.literal {
					if !c.Mine() || c.Over() {
						continue
					}
					p, err := ref.New(ref.Expr(pat, ic, lit))
					c.States++
					opt := &index.SearchOptions{IgnoreCase: ic, LiteralSearch: lit}
					c.DoKey(func() string { return fmt.Sprintf("pattern %q icase %v literal %v", pat, ic, lit) }, func() (string, []string) {
						if err != nil {
							res, e := b.Search(pat, opt)
							c.Transitions++
							if e == nil || res != nil {
								return "", []string{fmt.Sprintf("pattern %q: error expected (%v), got %v", pat, err, js(res))}
							}
							c.Outcomes["syntax error reported"]++
							return "", nil
						}
						c.Transitions += int64(len(b.files))
						return judge(b, pat, opt, p)
					})
					if err == nil {
						c.Outcomes["answered"]++
					}
				}
			}
		}
	}})
}

// big: long files and lines around the sizes of the buffers, markers at every
// offset around their ends.
func big(c *bx.Ctx) {
	const marker = "xyzzy"
	mk := func(size, at int, nl string) string {
		b := []byte(gen.Rep("abcdefghij lm\n", size/14+1)[:size])
		if nl == "one" { // a single line
			b = []byte(gen.Rep("abcdefghijklmn", size/14+1)[:size])
		}
		if at >= 0 && at+len(marker) <= size {
			copy(b[at:], marker)
		}
		return string(b)
	}
	type bf struct {
		size, at int
		nl       string
	}
	var l []bf
	w := []int{0, 2, 6, 8, 12}[c.Bound]
	for _, edge := range []int{2048, 16384, 32768} {
		for d := -6 - w; d <= 2+w; d++ {
			l = append(l, bf{edge + 100, edge + d, ""}, bf{edge + d, edge + d - 5, ""}, bf{edge + d, edge + d - 5, "one"})
		}
	}
	for _, edge := range []int{1 << 20, 2 << 20, 4 << 20} {
		for d := -2 - w/2; d <= 2+w/2; d++ {
			l = append(l, bf{edge + d, edge + d - 5, ""}, bf{edge + d, 3, ""}, bf{edge + d, edge + d - 5, "one"}, bf{edge + 4000, edge + d - 2, ""})
		}
	}
	// each file alone and after/before others in the same search (the buffer is
	// reused from file to file)
	small := []file{{"a", "xyzzy\nabc"}, {"m", "abc\nxyzzy"}, {"z", "\n\nxyzzy\n"}}
	p, _ := ref.New("(?m)" + marker)
	p2, _ := ref.New("(?m)abc.*$")
	for _, x := range l {
		if !c.Mine() || c.Over() {
			continue
		}
		c.States++
		t := mk(x.size, x.at, x.nl)
		d := fmt.Sprintf("file of %d bytes, marker at %d %s", x.size, x.at, x.nl)
		c.Sample(d)
		c.DoKey(func() string { return d }, func() (string, []string) {
			b := mkIndex(c, append([]file{{"k", t}}, small...), nil)
			defer b.drop()
			c.Transitions += 2
			if k, bad := judge(b, marker, &index.SearchOptions{LinesOfContext: 2}, p); bad != nil {
				return k, bad
			}
			if x.size < 40000 {
				return judge(b, "abc.*$", &index.SearchOptions{LinesOfContext: 1}, p2)
			}
			return "", nil
		})
	}
}

// order: the files are reported in the order of the tree and with their names.
func order(c *bx.Ctx) {
	pool := []string{"a", "a/b", "a/c", "a.x", "a-", "b", "b/a", "A", "é", "a b", "a/b/c", "#", "x.go", "Makefile", "a~", "[", "é/a", "0"}
	// every set of names that can exist together
	n := [5]int{2, 3, 3, 4, 5}[c.Bound]
	var rec func(i int, have []string)
	rec = func(i int, have []string) {
		if len(have) > 0 {
			for _, h := range have[:len(have)-1] {
				l := have[len(have)-1]
				if strings.HasPrefix(h, l+"/") || strings.HasPrefix(l, h+"/") {
					return
				}
			}
			if c.Mine() && !c.Over() {
				hv := append([]string{}, have...)
				c.States++
				c.DoKey(func() string { return fmt.Sprintf("%q", hv) }, func() (string, []string) {
					var fs []file
					for i, h := range hv {
						fs = append(fs, file{h, fmt.Sprintf("line\nhit %d %s\n", i, h)})
					}
					b := mkIndex(c, fs, nil)
					defer b.drop()
					c.Transitions++
					p, _ := ref.New("(?m)hit")
					return judge(b, "hit", &index.SearchOptions{LinesOfContext: 1}, p)
				})
			}
		}
		if len(have) == n {
			return
		}
		for j := i; j < len(pool); j++ {
			rec(j+1, append(have, pool[j]))
		}
	}
	rec(0, nil)
}

// ctx: every file over matching and other lines, every amount of context.
func ctxJob(c *bx.Ctx) {
	n := [5]int{4, 5, 7, 9, 11}[c.Bound]
	// lines: matching, other, empty, blank; the last one with or without newline
	var texts []string
	for _, l := range gen.Lists(n, 2) {
		s := ""
		for i, k := range l {
			s += []string{"x", "o"}[k] + fmt.Sprint(i) + "\n"
		}
		if s != "" {
			texts = append(texts, s, s[:len(s)-1])
		}
	}
	for _, l := range gen.Lists(n-2, 4) {
		s := ""
		for i, k := range l {
			s += []string{"x" + fmt.Sprint(i), "", "o", []string{" ", "\t "}[i%2]}[k] + "\n"
		}
		if s != "" {
			texts = append(texts, s, s[:len(s)-1])
		}
	}
	texts = append(texts, "\r\nx\r\n\r\n", "x\r", "\n\n\n", " ", "x  \n  x\n", "\tx\n", "x\x00y\no\n")
	b := mkIndex(c, textFiles(texts), nil)
	defer b.drop()
	if c.Shard == 0 {
		c.States += int64(len(texts))
	}
	for _, pat := range []string{"x", "^", "$", "^$", "o", "x[02468]", "[xo]|^$", "x?"} {
		p, _ := ref.New("(?m)" + pat)
		for k := uint(0); k <= uint(n)+2; k++ {
			for _, kk := range []uint{k, 20} {
				if kk == 20 && k > 0 || !c.Mine() || c.Over() {
					continue
				}
				c.States++
				c.Transitions += int64(len(texts))
				c.DoKey(func() string { return fmt.Sprintf("pattern %q context %d", pat, kk) }, func() (string, []string) {
					return judge(b, pat, &index.SearchOptions{LinesOfContext: kk}, p)
				})
			}
		}
	}
}

// page: every offset, limit and maximum on trees of every shape.
func page(c *bx.Ctx) {
	nf := [5]int{2, 3, 4, 5, 6}[c.Bound]
	for _, l := range gen.Lists(nf, 3) { // matches per file: 0, 1, 2 (3 lines apart)
		if !c.Mine() || c.Over() {
			continue
		}
		var fs []file
		for i, k := range l {
			fs = append(fs, file{fmt.Sprintf("f%d", i), []string{"none\n", "a\nhit\nb\n", "hit1\nc\nhit2"}[k]})
		}
		c.States++
		b := mkIndex(c, fs, nil)
		p, _ := ref.New("(?m)hit")
		for _, ctx := range []uint{0, 1} {
			full := expect(b.files, p, int(ctx), nums)
			for off := -1; off <= len(full)+1; off++ {
				for lim := -1; lim <= len(full)+1; lim++ {
					for max := -1; max <= 2*len(full)+1; max++ {
						if ctx == 1 && (max > 1 || off > 1) {
							continue
						}
						c.Transitions++
						opt := &index.SearchOptions{Offset: off, Limit: lim, MaxResults: max, LinesOfContext: ctx}
						c.DoKey(func() string { return fmt.Sprintf("matches per file %v, %+v", l, *opt) }, func() (string, []string) {
							res, err := b.Search("hit", opt)
							if err != nil {
								return "", []string{err.Error()}
							}
							w := full
							if off > 0 {
								w = w[min(off, len(w)):]
							}
							if lim > 0 {
								w = w[:min(lim, len(w))]
							}
							if max > 0 {
								w = cut(w, max)
							}
							if bad := diffAll(res, w); bad != nil {
								return "", bad
							}
							total := 0
							for _, x := range w {
								total += len(x.matches)
							}
							if (max <= 0 || total < max) && res.FilesWithMatch != len(full) {
								return "", []string{fmt.Sprintf("FilesWithMatch %d, expected %d", res.FilesWithMatch, len(full))}
							}
							return "", nil
						})
					}
				}
			}
		}
		b.drop()
	}
}

// mixed is a tree for searches with every combination of options.
func mixed(c *bx.Ctx) *built {
	return mkIndex(c, []file{{"a.go", "foo\nbar\nFoo\n"}, {"A.GO", "FOO bar\n"}, {"b/a.go", "x\nfoo.bar\ny\nfoo\n"}, {"b/c.txt", "foo foo\nfOO\nfoo"}, {"c", "nothing\n"}, {"d.go", "\n\nfoo\n\n"}, {"e", "f.o\nfo\n"}, {"é.go", "bar\nfoo é\n"}, {"z", "BAR\nfoo"}}, nil)
}

type base struct {
	pat string
	opt index.SearchOptions
}

func bases(c *bx.Ctx, filters bool) []base {
	fs := []string{"", `\.go$`, "^b/", "A", "(?i)a"}
	if !filters {
		fs = fs[:1]
	}
	var l []base
	for _, p := range []string{"foo", "FOO", "f.o", "bar|foo", "^", "^$", "nothere", "o$", "(foo|bar)+", "fo?"} {
		for _, ic := range ft {
			for _, lit := range ft {
				for ctx := uint(0); ctx < 3; ctx++ {
					for _, f := range fs {
						for _, x := range fs {
							l = append(l, base{p, index.SearchOptions{IgnoreCase: ic, LiteralSearch: lit, LinesOfContext: ctx, FileRegexp: f, ExcludeFileRegexp: x}})
						}
					}
				}
			}
		}
	}
	return l
}

func asWant(res *index.SearchResponse) []want {
	var w []want
	for _, f := range res.Matches {
		x := want{name: f.Filename}
		for _, m := range f.Matches {
			x.matches = append(x.matches, fromImpl(m))
		}
		w = append(w, x)
	}
	return w
}

// pageCross: every range and maximum with every combination of the other options,
// against the same search without.
func pageCross(c *bx.Ctx) {
	b := mixed(c)
	defer b.drop()
	k := [5]int{2, 3, 5, 9, 10}[c.Bound]
	for _, x := range bases(c, true) {
		if !c.Mine() || c.Over() {
			continue
		}
		c.States++
		fres, err := b.Search(x.pat, &x.opt)
		if err != nil {
			c.Fail("", fmt.Sprintf("%q %+v", x.pat, x.opt), err.Error())
			continue
		}
		full := asWant(fres)
		total := 0
		for _, f := range full {
			total += len(f.matches)
		}
		for off := 0; off <= min(k, len(full)+1); off++ {
			for lim := 0; lim <= min(k, len(full)+1); lim++ {
				for _, max := range []int{0, 1, 2, 3, 4, total - 1, total, total + 1, 5000} {
					if max < 0 {
						continue
					}
					c.Transitions++
					opt := x.opt
					opt.Offset, opt.Limit, opt.MaxResults = off, lim, max
					c.DoKey(func() string { return fmt.Sprintf("pattern %q %+v", x.pat, opt) }, func() (string, []string) {
						res, err := b.Search(x.pat, &opt)
						if err != nil {
							return "", []string{err.Error()}
						}
						w := full[min(off, len(full)):]
						if lim > 0 {
							w = w[:min(lim, len(w))]
						}
						n := 0
						for _, f := range w {
							n += len(f.matches)
						}
						if max > 0 {
							w = cut(w, max)
						}
						if bad := diffAll(res, w); bad != nil {
							return "", bad
						}
						if (max <= 0 || n < max) && res.FilesWithMatch != len(full) {
							return "", []string{fmt.Sprintf("FilesWithMatch %d, without range %d", res.FilesWithMatch, len(full))}
						}
						return "", nil
					})
				}
			}
		}
	}
}

// filterCross: every pair of file patterns with every combination of the other
// options, against the same search without them.
func filterCross(c *bx.Ctx) {
	b := mixed(c)
	defer b.drop()
	pats := append([]string{"", `\.go$`, "^b/", "A", "a", "^a", "(?i)a", "^[^/]*$", "O", "é", ".", "^$", "txt$", "b.*c", "^(?:a|z)", "(?-i)G"}, gen.Strings([5]int{1, 1, 1, 2, 2}[c.Bound], "a", "A", "/", `\.`, "$", "^")...)
	for _, x := range bases(c, false) {
		fres, err := b.Search(x.pat, &x.opt)
		if err != nil {
			c.Fail("", fmt.Sprintf("%q %+v", x.pat, x.opt), err.Error())
			continue
		}
		full := asWant(fres)
		for _, f := range pats {
			for _, e := range pats {
				if !c.Mine() || c.Over() {
					continue
				}
				c.States++
				c.Transitions++
				opt := x.opt
				opt.FileRegexp, opt.ExcludeFileRegexp = f, e
				c.DoKey(func() string { return fmt.Sprintf("pattern %q %+v", x.pat, opt) }, func() (string, []string) {
					res, err := b.Search(x.pat, &opt)
					if err != nil {
						return "", []string{err.Error()}
					}
					var w []want
					for _, y := range full {
						if (f == "" || cached(f).MatchString(y.name)) && (e == "" || !cached(e).MatchString(y.name)) {
							w = append(w, y)
						}
					}
					if res.FilesWithMatch != len(w) {
						return "", []string{fmt.Sprintf("FilesWithMatch %d, expected %d", res.FilesWithMatch, len(w))}
					}
					return "", diffAll(res, w)
				})
			}
		}
	}
}

var recache = map[string]*stdre.Regexp{}

func cached(s string) *stdre.Regexp {
	if recache[s] == nil {
		recache[s] = stdre.MustCompile(s)
	}
	return recache[s]
}

func cut(w []want, max int) []want {
	var r []want
	for _, x := range w {
		if max <= 0 {
			break
		}
		if len(x.matches) > max {
			x.matches = x.matches[:max]
		}
		max -= len(x.matches)
		r = append(r, x)
	}
	return r
}

var filterNames = []string{"a.go", "b.go", "a_test.go", "dir/a.go", "dir/b.txt", "dir/sub/a.go", "go", "README", "a.GO", "x/go/y", "é.go", "go.mod", "dir.go/a"}

// filter: every pair of file patterns.
func filter(c *bx.Ctx) {
	var fs []file
	for i, n := range filterNames {
		fs = append(fs, file{n, fmt.Sprintf("one\nhit %d\nhit again\n", i)})
	}
	b := mkIndex(c, fs, nil)
	defer b.drop()
	g := gen.Grammar{Leaves: []string{"^", "$", ".", "a", "go", `\.`, "/", "dir", "", "(?i:GO)", "[^a]", `\bgo\b`}, Post: []string{"*", "?"}}
	pats := g.Patterns([5]int{1, 2, 3, 3, 4}[c.Bound])
	pats = append(pats, `\.go$`, "^dir/", "_test", "^dir/.*go$", "^$", `(?i)\.GO$`, "é", "^[^/]*$", "(", "[", "*a", `\`, "a**", "(?m)^dir")
	excl := append([]string{"", `\.go$`, "^dir/", "_test", "^a", "a$", ".", "^", "go", "(", `\p`, "(?i)GO", "^$", "x*"}, pats[:[5]int{5, 20, 40, 60, 80}[c.Bound]]...)
	p, _ := ref.New("(?m)hit")
	full := expect(b.files, p, 1, nums)
	if c.Shard == 0 {
		c.States += int64(len(fs))
	}
	for _, f := range pats {
		for _, x := range excl {
			if !c.Mine() || c.Over() {
				continue
			}
			c.States++
			c.Transitions++
			c.DoKey(func() string { return fmt.Sprintf("files %q exclude %q", f, x) }, func() (string, []string) {
				fre, e1 := stdre.Compile(f)
				xre, e2 := stdre.Compile(x)
				opt := &index.SearchOptions{LinesOfContext: 1, FileRegexp: f, ExcludeFileRegexp: x}
				res, err := b.Search("hit", opt)
				if e1 != nil || e2 != nil {
					if err == nil || res != nil {
						return "", []string{fmt.Sprintf("files %q exclude %q: error expected, got %s", f, x, js(res))}
					}
					c.Outcomes["syntax error reported"]++
					return "", nil
				}
				if err != nil {
					return "", []string{err.Error()}
				}
				var w []want
				for _, y := range full {
					if (f == "" || fre.MatchString(y.name)) && (x == "" || !xre.MatchString(y.name)) {
						w = append(w, y)
					}
				}
				if len(w) == len(full) {
					c.Outcomes["all files"]++
				} else if len(w) == 0 {
					c.Outcomes["no file"]++
				} else {
					c.Outcomes["some files"]++
				}
				return "", diffAll(res, w)
			})
		}
	}
	// every place of a syntax error, also with nothing to find
	for _, pat := range []string{"hit", "nothere", "(", "hit|", ""} {
		for _, f := range []string{"", "go", "(", "[z-a]"} {
			for _, x := range []string{"", "go", "(", `\Q\`, "a{2,1}"} {
				for _, opt := range []index.SearchOptions{{}, {LiteralSearch: true}, {IgnoreCase: true}, {MaxResults: 1}, {Limit: 1, Offset: 50}} {
					if !c.Mine() || c.Over() {
						continue
					}
					c.States++
					c.Transitions++
					opt.FileRegexp, opt.ExcludeFileRegexp = f, x
					c.DoKey(func() string { return fmt.Sprintf("pattern %q %+v", pat, opt) }, func() (string, []string) {
						_, e0 := stdre.Compile(ref.Expr(pat, opt.IgnoreCase, opt.LiteralSearch))
						_, e1 := stdre.Compile(f)
						_, e2 := stdre.Compile(x)
						bad := e0 != nil || e1 != nil || e2 != nil
						res, err := b.Search(pat, &opt)
						if bad != (err != nil) || bad && res != nil {
							return "", []string{fmt.Sprintf("pattern %q %+v: error expected %v, got %v %s", pat, opt, bad, err, js(res))}
						}
						return "", nil
					})
				}
			}
		}
	}
}

// reopen: an index opened again, here and in another process.
func reopen(c *bx.Ctx) {
	trees := [][]file{
		{},
		{{"a", ""}},
		{{"a", "hit\n"}, {"b", "x\nhit"}, {"d/c", "hit\nhit\n"}},
		{{"gen.go", "hit"}, {"d/gen.go", "hit"}, {"hand.go", "hit"}, {"gen.go.bak", "hit"}},
		{{"é世", "hit é\n"}, {"sp ace", "\nhit\n\n"}, {"x\xe9.go", "hit"}, {"x\ufffd.go", "hit"}},
	}
	gens := [][]string{nil, {}, {"gen.go"}, {"d/gen.go"}, {"gen.go", "d/gen.go", "nothere"}, {"./gen.go"}, {"gen"}, {"é世"}, {"*"}, {""}, {"x\xe9.go"}}
	urls := []string{"https://example.com/a.git", "", "file:///x y", "é", "\xe9"}
	revs := []string{"0123456789abcdef", "", strings.Repeat("0123456789abcdef", 4), strings.Repeat("r", 300), "r\n1", "Last-Modified: é", "\xe9<&>"}
	pats := []string{"hit", "h", "^$", "é", "nothere", "(", ""}
	opts := []index.SearchOptions{{}, {LinesOfContext: 2}, {Offset: 1, Limit: 1}, {MaxResults: 1}, {FileRegexp: "gen"}, {ExcludeFileRegexp: "gen"}, {IgnoreCase: true, LiteralSearch: true}}
	answer := func(ix *index.Index) string {
		var o []string
		for _, p := range pats {
			for i := range opts {
				r, err := ix.Search(p, &opts[i])
				if r != nil {
					r.Duration = 0
				}
				o = append(o, fmt.Sprint(js(r), err))
			}
		}
		return strings.Join(o, "\n")
	}
	for ti, t := range trees {
		for _, g := range gens {
			for ui, u := range urls {
				for ri, rv := range revs {
					if c.Bound < 2 && ui > 0 && ri > 0 || !c.Mine() || c.Over() {
						continue
					}
					c.States++
					c.Do(fmt.Sprintf("tree %d auto-generated %q url %q rev %q", ti, g, u, rv), func() []string {
						src, dst := fresh(c), fresh(c)
						writeTree(src, t)
						defer os.RemoveAll(src)
						defer os.RemoveAll(dst)
						r, err := index.Build(&index.IndexOptions{AutoGeneratedFiles: g}, dst, src, u, rv)
						if err != nil {
							return []string{err.Error()}
						}
						first, err := r.Open()
						if err != nil {
							return []string{err.Error()}
						}
						want := answer(first)
						res, err := first.Search("hit", &index.SearchOptions{})
						if err != nil {
							return []string{err.Error()}
						}
						for _, f := range res.Matches {
							in := false
							for _, x := range g {
								in = in || x == f.Filename
							}
							if f.AutoGenerated != in {
								return []string{fmt.Sprintf("file %q AutoGenerated %v with list %q", f.Filename, f.AutoGenerated, g)}
							}
						}
						if res.Revision != rv {
							return []string{fmt.Sprintf("revision %q, expected %q", res.Revision, rv)}
						}
						// while the first is open, after it is closed, and moved elsewhere
						check := func(how, dir string) []string {
							c.Transitions++
							rr, err := index.Read(dir)
							if err != nil {
								return []string{how + ": " + err.Error()}
							}
							if rr.Url != u || rr.Rev != rv || rr.Dir() != dir || strings.Join(rr.AutoGeneratedFiles, "\x00") != strings.Join(g, "\x00") || !rr.Time.Equal(r.Time) {
								return []string{fmt.Sprintf("%s: recorded %+v, expected url %q rev %q auto-generated %q time %v", how, *rr, u, rv, g, r.Time)}
							}
							ix, err := index.Open(dir)
							if err != nil {
								return []string{how + ": " + err.Error()}
							}
							defer ix.Close()
							if ix.GetDir() != dir {
								return []string{how + ": directory " + ix.GetDir()}
							}
							if got := answer(ix); got != want {
								return []string{how + ": answers differ", firstDiff(got, want)}
							}
							return nil
						}
						if b := check("second open", dst); b != nil {
							return b
						}
						if b := check("third open", dst); b != nil {
							return b
						}
						if err := first.Close(); err != nil {
							return []string{err.Error()}
						}
						if b := check("open after close", dst); b != nil {
							return b
						}
						if ui == 0 && ri == 0 {
							out, err := exec.Command(os.Args[0], "reopen-child", dst).Output()
							c.Transitions++
							if err != nil {
								return []string{"other process: " + err.Error()}
							}
							if string(out) != answerHash(want) {
								return []string{"the index opened by another process answers differently", firstDiff(string(out), answerHash(want))}
							}
							mv := fresh(c)
							bx.Must(os.Rename(dst, mv))
							b := check("moved", mv)
							bx.Must(os.Rename(mv, dst))
							if b != nil {
								return b
							}
						}
						last, err := index.Open(dst)
						if err != nil {
							return []string{err.Error()}
						}
						if err := last.Destroy(); err != nil {
							return []string{"destroy: " + err.Error()}
						}
						if _, err := os.Stat(dst); !os.IsNotExist(err) {
							return []string{"the directory is still there after Destroy"}
						}
						return nil
					})
				}
			}
		}
	}
	if len(os.Args) > 2 && os.Args[1] == "reopen-child" {
		ix, err := index.Open(os.Args[2])
		bx.Must(err)
		realStdout.WriteString(answerHash(answer(ix)))
		os.Exit(0)
	}
}

var realStdout = os.Stdout

func answerHash(s string) string { return s }

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := "(none)", "(none)"
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("%s | expected | %s", clip(p), clip(q))
		}
	}
	return ""
}

// multi: one index searched repeatedly gives the same answers in every order.
func multi(c *bx.Ctx) {
	fs := []file{{"a", "xa\nb\nxa"}, {"b", gen.Rep("long line of text\n", 3000) + "xa"}, {"c", "xa"}, {"d", "\n"}, {"e/f", "XA\nxa\n"}}
	b := mkIndex(c, fs, nil)
	defer b.drop()
	type q struct {
		pat string
		opt index.SearchOptions
	}
	qs := []q{{"xa", index.SearchOptions{}}, {"xa", index.SearchOptions{IgnoreCase: true, LinesOfContext: 3}}, {"^$", index.SearchOptions{}}, {"text", index.SearchOptions{MaxResults: 2}}, {"(", index.SearchOptions{}}, {".", index.SearchOptions{Limit: 1, Offset: 2}}, {"xa", index.SearchOptions{FileRegexp: "e"}}}
	var alone []string
	run := func(x q) string {
		r, err := b.Search(x.pat, &x.opt)
		if r != nil {
			r.Duration = 0
		}
		return fmt.Sprint(js(r), err)
	}
	for _, x := range qs {
		alone = append(alone, run(x))
	}
	before := snapshot(b.dir)
	for _, l := range gen.Lists([5]int{2, 3, 4, 5, 5}[c.Bound], len(qs)) {
		if !c.Mine() || c.Over() {
			continue
		}
		c.States++
		c.DoKey(func() string { return fmt.Sprint("searches ", l) }, func() (string, []string) {
			for _, i := range l {
				c.Transitions++
				if got := run(qs[i]); got != alone[i] {
					return "", []string{fmt.Sprintf("search %d after %v: %s", i, l, firstDiff(got, alone[i]))}
				}
			}
			return "", nil
		})
	}
	c.Do("the index directory after all searches", func() []string {
		if a := snapshot(b.dir); a != before {
			return []string{"searching changed the index", firstDiff(a, before)}
		}
		return nil
	})
}

func snapshot(dir string) string {
	var o []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		bx.Must(err)
		s := fmt.Sprintf("%s %v %d", p, fi.Mode(), fi.Size())
		if fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			bx.Must(err)
			s += fmt.Sprintf(" %q", b)
		}
		o = append(o, s)
		return nil
	})
	sort.Strings(o)
	return strings.Join(o, "\n")
}

func init() {
	for n, s := range searchJobs {
		regSearch(n, s)
	}
	bx.Register(&bx.Job{Name: "s01-big", Desc: "files around the sizes of the buffers", Run: big, GC: true})
	bx.Register(&bx.Job{Name: "s01-order", Desc: "trees of every set of names", Run: order})
	bx.Register(&bx.Job{Name: "s04-ctx", Desc: "every file of matching, other and empty lines, every amount of context", Run: ctxJob})
	bx.Register(&bx.Job{Name: "s05-page", Desc: "every offset, limit and maximum", Run: page})
	bx.Register(&bx.Job{Name: "s06-filter", Desc: "every pair of file patterns", Run: filter})
	bx.Register(&bx.Job{Name: "s05-cross", Desc: "every range with every combination of other options", Run: pageCross})
	bx.Register(&bx.Job{Name: "s06-cross", Desc: "every pair of file patterns with every combination of other options", Run: filterCross})
	bx.Register(&bx.Job{Name: "i04-reopen", Desc: "indexes opened again", Run: reopen})
	bx.Register(&bx.Job{Name: "s07-seq", Desc: "every sequence of searches on one index", Run: multi})
}
