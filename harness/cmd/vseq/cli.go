package main

import (
	"bytes"
	"fmt"
	"net/http/httptest"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"github.com/hound-search/hound/client"
	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"

	"hv/bx"
	"hv/gen"
	"hv/ref"
)

// ---------------------------------------------------------------- outputs

// sink runs something that prints to a file and returns what it printed.
type sink interface {
	run(f func(*os.File) error) (string, error)
}

type fileSink struct{ f *os.File }

func newFileSink(c *bx.Ctx) *fileSink {
	f, err := os.Create(filepath.Join(c.Dir, "out"))
	bx.Must(err)
	return &fileSink{f}
}

func (s *fileSink) run(f func(*os.File) error) (string, error) {
	bx.Must(s.f.Truncate(0))
	_, err := s.f.Seek(0, 0)
	bx.Must(err)
	e := f(s.f)
	b, err := os.ReadFile(s.f.Name())
	bx.Must(err)
	return string(b), e
}

// ttySink is a terminal that changes nothing of what is written to it.
type ttySink struct {
	slave *os.File
	got   chan []byte
}

const ttyEnd = "\x00end of output\x00"

func ioctl(f *os.File, req uintptr, p unsafe.Pointer) {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(p)); e != 0 {
		bx.Must(e)
	}
}

func newTTY() *ttySink {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	bx.Must(err)
	var n, zero int32
	ioctl(m, syscall.TIOCSPTLCK, unsafe.Pointer(&zero))
	ioctl(m, syscall.TIOCGPTN, unsafe.Pointer(&n))
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	bx.Must(err)
	var t syscall.Termios
	ioctl(s, syscall.TCGETS, unsafe.Pointer(&t))
	t.Oflag, t.Lflag, t.Iflag = 0, 0, 0
	ioctl(s, syscall.TCSETS, unsafe.Pointer(&t))
	k := &ttySink{s, make(chan []byte)}
	go func() {
		var all []byte
		b := make([]byte, 1<<16)
		for {
			n, err := m.Read(b)
			bx.Must(err)
			all = append(all, b[:n]...)
			if bytes.HasSuffix(all, []byte(ttyEnd)) {
				k.got <- all[:len(all)-len(ttyEnd)]
				all = nil
			}
		}
	}()
	return k
}

func (k *ttySink) run(f func(*os.File) error) (out string, err error) {
	var p interface{}
	func() {
		defer func() { p = recover() }()
		err = f(k.slave)
	}()
	_, e := k.slave.WriteString(ttyEnd)
	bx.Must(e)
	out = ansiSeq.ReplaceAllString(string(<-k.got), "")
	if p != nil {
		panic(p)
	}
	return out, err
}

var ansiSeq = regexp.MustCompile("\x1b\\[[0-9;]*m")

// ---------------------------------------------------------------- K01

type shown struct {
	lines []string // the file
	ms    []*index.Match
	ctx   int
	desc  string
}

func mkMatch(lines []string, i, b, a int) *index.Match {
	return &index.Match{Line: lines[i], LineNumber: i + 1, Before: append([]string{}, lines[i-b:i]...), After: append([]string{}, lines[i+1:i+1+a]...)}
}

func (s *shown) String() string {
	d := s.desc + fmt.Sprintf(" %d lines, context %d, matches", len(s.lines), s.ctx)
	for _, m := range s.ms {
		d += fmt.Sprintf(" %d(-%d+%d)", m.LineNumber, len(m.Before), len(m.After))
	}
	return d
}

var numbered = regexp.MustCompile(`^([0-9]+)([:-])`)

// judgeFile compares what was printed of one file.
func (s *shown) judge(out []string) string {
	match := map[int]bool{}
	show := map[int]bool{}
	joined := map[int]bool{} // line n and the next belong to the surroundings of one match or of overlapping ones
	for _, m := range s.ms {
		match[m.LineNumber] = true
		f, l := m.LineNumber-len(m.Before), m.LineNumber+len(m.After)
		for i := f; i <= l; i++ {
			show[i] = true
			if i < l {
				joined[i] = true
			}
		}
	}
	last, sep := 0, true
	i := 0
	for _, o := range out {
		if o == "--" && s.ctx > 0 {
			sep = true
			continue
		}
		f := numbered.FindStringSubmatch(o)
		if f == nil {
			return fmt.Sprintf("a line without a number: %q", o)
		}
		var n int
		fmt.Sscan(f[1], &n)
		for i++; i <= len(s.lines) && !show[i]; i++ {
		}
		if n != i || f[1] != fmt.Sprint(n) {
			return fmt.Sprintf("line %s printed where line %d should be", f[1], i)
		}
		text := o[len(f[0]):]
		if !strings.HasSuffix(text, s.lines[n-1]) || strings.Trim(text[:len(text)-len(s.lines[n-1])], " ") != "" {
			return fmt.Sprintf("line %d printed as %q, not %q", n, text, s.lines[n-1])
		}
		if (f[2] == ":") != match[n] {
			return fmt.Sprintf("line %d marked %q", n, f[2])
		}
		if s.ctx > 0 && last != 0 {
			if n != last+1 && !sep {
				return fmt.Sprintf("lines %d and %d in one block", last, n)
			}
			if n == last+1 && sep && joined[last] {
				return fmt.Sprintf("lines %d and %d in different blocks", last, n)
			}
		}
		last, sep = n, false
	}
	for i++; i <= len(s.lines); i++ {
		if show[i] {
			return fmt.Sprintf("line %d not printed", i)
		}
	}
	return ""
}

// present prints the files as those of one repository and judges each.
func present(to sink, re *regexp.Regexp, fs []*shown) []string {
	resp := &index.SearchResponse{}
	for i, s := range fs {
		resp.Matches = append(resp.Matches, &index.FileMatch{Filename: fmt.Sprintf("f%d", i), Matches: s.ms})
	}
	out, err := to.run(func(f *os.File) error {
		return client.NewAckPresenter(f).Present(re, fs[0].ctx, map[string]*config.Repo{"r": {DisplayName: "the repo"}}, &client.Response{Results: map[string]*index.SearchResponse{"r": resp}})
	})
	if err != nil {
		return []string{err.Error()}
	}
	return judgeOutput(out, "the repo", fs, func(i int) string { return fmt.Sprintf("f%d", i) })
}

func judgeOutput(out, repo string, fs []*shown, name func(int) string) []string {
	ls := strings.Split(out, "\n")
	if ls[len(ls)-1] != "" {
		return []string{"the output ends within a line"}
	}
	ls = ls[:len(ls)-1]
	if len(ls) == 0 || ls[0] != repo {
		return []string{fmt.Sprintf("the output begins with %q, not the repository's name", clip(out))}
	}
	ls = ls[1:]
	for i, s := range fs {
		if len(ls) == 0 || ls[0] != name(i) {
			return []string{"file not printed: " + s.String()}
		}
		k := 1
		for k < len(ls) && ls[k] != "" {
			k++
		}
		if k == len(ls) {
			return []string{"no end: " + s.String()}
		}
		if bad := s.judge(ls[1:k]); bad != "" {
			return []string{s.String() + ": " + bad, strings.Join(ls[1:k], "\n")}
		}
		ls = ls[k+1:]
	}
	if len(ls) > 0 {
		return []string{"printed beyond the end: " + clip(strings.Join(ls, "\n"))}
	}
	return nil
}

// batcher presents many cases at once, and one by one when something is wrong.
type batcher struct {
	c   *bx.Ctx
	to  sink
	re  *regexp.Regexp
	q   []*shown
	max int
}

func (b *batcher) add(s *shown) {
	if len(b.q) > 0 && b.q[0].ctx != s.ctx {
		b.flush()
	}
	b.q = append(b.q, s)
	b.c.States++
	b.c.Transitions += int64(len(s.ms))
	if len(b.q) >= b.max {
		b.flush()
	}
}

func (b *batcher) flush() {
	q := b.q
	b.q = nil
	if len(q) == 0 {
		return
	}
	ok := true
	b.c.At(q[0].String() + " and following")
	func() {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		ok = len(present(b.to, b.re, q)) == 0
	}()
	b.c.Traces += int64(len(q))
	if ok {
		return
	}
	before := len(b.c.Violations)
	for _, s := range q {
		if b.c.Over() {
			return
		}
		s := s
		b.c.Traces--
		b.c.Do(s.String(), func() []string { return present(b.to, b.re, []*shown{s}) })
	}
	if len(b.c.Violations) == before {
		b.c.Do(fmt.Sprintf("%d files from %s", len(q), q[0]), func() []string { return present(b.to, b.re, q) })
	}
}

// the matching lines of the enumerated files have an m.
func fileOf(n int, set int) []string {
	yes := []string{"m one", "  m  mm", "\tmé m", "m", "11:m", "--m", "xm\r", "mmm", "m0", "m1"}
	no := []string{"one", "  two", "", "é\t", "--", "5-  ", "\r", "six", "s7", "s8"}
	var l []string
	for i := 0; i < n; i++ {
		if set>>i&1 == 1 {
			l = append(l, yes[i%len(yes)])
		} else {
			l = append(l, no[i%len(no)])
		}
	}
	return l
}

var reM = regexp.MustCompile("(?m)m")

func members(n, set int) []int {
	var r []int
	for i := 0; i < n; i++ {
		if set>>i&1 == 1 {
			r = append(r, i)
		}
	}
	return r
}

// serverCtx: the context the server gives.
func k01Server(c *bx.Ctx) {
	maxN := map[int]int{1: 6, 2: 8, 3: 10, 4: 13}[c.Bound]
	for _, to := range []sink{newFileSink(c), newTTY()} {
		b := &batcher{c: c, to: to, re: reM, max: 300}
		for ctx := 0; ctx <= 5; ctx++ {
			for n := 1; n <= maxN; n++ {
				for set := 1; set < 1<<n && !c.Over(); set++ {
					if !c.Mine() {
						continue
					}
					l := fileOf(n, set)
					s := &shown{lines: l, ctx: ctx}
					for _, m := range ref.Ctx(strings.Join(l, "\n"), members(n, set), ctx) {
						s.ms = append(s.ms, &index.Match{Line: m.Line, LineNumber: m.No, Before: m.Before, After: m.After})
					}
					if len(l) != len(ref.Lines(strings.Join(l, "\n"))) {
						s.ms = nil // the last line is empty: no such file
					}
					if s.ms != nil {
						b.add(s)
					}
				}
			}
		}
		b.flush()
	}
}

// every context that the shape of an answer allows.
func k01Any(c *bx.Ctx) {
	maxN := map[int]int{1: 4, 2: 5, 3: 6, 4: 7, 5: 8}[c.Bound]
	maxM := map[int]int{1: 2, 2: 3, 3: 4, 4: 4, 5: 5}[c.Bound]
	to := newFileSink(c)
	b := &batcher{c: c, to: to, re: reM, max: 1000}
	for ctx := 0; ctx <= 3; ctx++ {
		for n := 1; n <= maxN; n++ {
			for set := 1; set < 1<<n; set++ {
				mem := members(n, set)
				if len(mem) > maxM {
					continue
				}
				l := fileOf(n, set)
				var rec func(k, start int, ms []*index.Match)
				rec = func(k, start int, ms []*index.Match) {
					if c.Over() {
						return
					}
					if k == len(mem) {
						if c.Mine() {
							b.add(&shown{lines: l, ctx: ctx, ms: append([]*index.Match{}, ms...)})
						}
						return
					}
					i := mem[k]
					for bf := 0; bf <= ctx && bf <= i && i-bf >= start; bf++ {
						for af := 0; af <= ctx && i+af < n; af++ {
							rec(k+1, i-bf, append(ms, mkMatch(l, i, bf, af)))
						}
					}
				}
				rec(0, 0, nil)
			}
		}
	}
	b.flush()
}

// long files, every so many lines from some line on, alone and many in one answer.
func k01Long(c *bx.Ctx) {
	for _, to := range []sink{newFileSink(c), newTTY()} {
		for _, one := range bools {
			b := &batcher{c: c, to: to, re: reM, max: 40}
			if one {
				b.max = 1
			}
			for _, ctx := range []int{0, 1, 2, 4, 20} {
				for _, n := range []int{50, 300, 1200} {
					for _, step := range []int{1, 2, 3, 4, 9, 16, 40} {
						for _, from := range []int{0, step - 1, 20} {
							if !c.Mine() || c.Over() {
								continue
							}
							var l []string
							var mem []int
							for i := 0; i < n; i++ {
								if i >= from && (i-from)%step == 0 {
									mem = append(mem, i)
									l = append(l, fileOf(i%60+1, 1<<(i%60))[i%60])
								} else {
									l = append(l, fmt.Sprint("c", i))
								}
							}
							s := &shown{lines: l, ctx: ctx}
							for _, m := range ref.Ctx(strings.Join(l, "\n"), mem, ctx) {
								s.ms = append(s.ms, &index.Match{Line: m.Line, LineNumber: m.No, Before: m.Before, After: m.After})
							}
							b.add(s)
						}
					}
				}
			}
			b.flush()
		}
	}
}

// line numbers of every length.
func k01Numbers(c *bx.Ctx) {
	for _, to := range []sink{newFileSink(c), newTTY()} {
		for _, n := range []int{1, 9, 10, 11, 99, 100, 101, 999, 1000, 9999, 10000, 99999, 100000, 999999, 1000000, 9999999, 12345678, 1<<31 - 3, 1 << 31, 1<<62 + 1} {
			for ctx := 0; ctx <= 3; ctx++ {
				n, ctx, to := n, ctx, to
				if !c.Mine() || n <= ctx {
					continue
				}
				c.States++
				c.Do(fmt.Sprintf("match on line %d, context %d", n, ctx), func() []string {
					m := &index.Match{Line: "x m", LineNumber: n}
					for i := 0; i < ctx; i++ {
						m.Before = append(m.Before, fmt.Sprint("b", n-ctx+i))
						m.After = append(m.After, fmt.Sprint("a", n+1+i))
					}
					out, err := to.run(func(f *os.File) error {
						return client.NewAckPresenter(f).Present(reM, ctx, nil, &client.Response{Results: map[string]*index.SearchResponse{"r": {Matches: []*index.FileMatch{{Filename: "f", Matches: []*index.Match{m}}}}}})
					})
					if err != nil {
						return []string{err.Error()}
					}
					var got []string
					for _, l := range strings.Split(out, "\n")[2:] {
						if f := numbered.FindStringSubmatch(l); f != nil {
							got = append(got, f[1]+f[2]+strings.TrimLeft(l[len(f[0]):], " "))
						}
					}
					var w []string
					for i := n - ctx; i <= n+ctx; i++ {
						switch {
						case i < n:
							w = append(w, fmt.Sprintf("%d-b%d", i, i))
						case i > n:
							w = append(w, fmt.Sprintf("%d-a%d", i, i))
						default:
							w = append(w, fmt.Sprintf("%d:x m", i))
						}
					}
					if strings.Join(got, "|") != strings.Join(w, "|") {
						return []string{fmt.Sprintf("printed %q, expected %q", got, w)}
					}
					return nil
				})
			}
		}
	}
}

// highlighting with every pattern of a grammar in every line of a set.
func k01Hilite(c *bx.Ctx) {
	size := map[int]int{1: 2, 2: 3, 3: 4, 4: 5}[c.Bound]
	length := map[int]int{1: 3, 2: 3, 3: 4, 4: 5}[c.Bound]
	g := gen.Grammar{Leaves: []string{"a", "b", "é", ".", "[^a]", "\\b", "^", "$", ""}, Post: []string{"*", "+", "?", "*?"}, Wrap: []string{"(", "(?i:"}}
	var texts []string
	for _, s := range gen.Strings(length, "a", "b", "é", " ", "\xff") {
		texts = append(texts, s)
	}
	tty := newTTY()
	for _, p := range g.Patterns(size) {
		re, err := regexp.Compile(index.GetRegexpPattern(p, false))
		if err != nil {
			continue
		}
		if c.Over() {
			return
		}
		if !c.Mine() {
			continue
		}
		var s shown
		s.ctx = 1
		s.desc = fmt.Sprintf("pattern %q", p)
		for i, t := range texts {
			s.lines = append(s.lines, t)
			if re.MatchString(t) {
				s.ms = append(s.ms, &index.Match{Line: t, LineNumber: i + 1})
			}
		}
		c.States += int64(len(s.ms))
		c.Transitions += int64(len(s.ms))
		if len(s.ms) == 0 {
			continue
		}
		c.Do(fmt.Sprintf("pattern %q highlighted in %d lines", p, len(s.ms)), func() []string { return present(tty, re, []*shown{&s}) })
	}
}

// from the tree through the real server and client to the terminal.
func k01Real(c *bx.Ctx) {
	maxN := map[int]int{1: 4, 2: 6, 3: 8, 4: 9}[c.Bound]
	maxCtx := map[int]int{1: 2, 2: 3, 3: 4, 4: 5}[c.Bound]
	var fs []file
	for n := 1; n <= maxN; n++ {
		for set := 0; set < 1<<n; set++ {
			for _, end := range []string{"", "\n"} {
				fs = append(fs, file{fmt.Sprintf("f%d_%d_%d", n, set, len(end)), strings.Join(fileOf(n, set), "\n") + end})
			}
		}
	}
	urlTrees["one"] = fs
	cfg := &config.Config{Title: "t", Repos: map[string]*config.Repo{"one": repoOf("one")}, ResultLimit: 0, HealthCheckURI: "/healthz"}
	cfg.Repos["one"].DisplayName = "the repo"
	cfg.MaxConcurrentIndexers = 1
	ss, errs, err := startAll(c, cfg)
	bx.Must(err)
	if len(errs) > 0 {
		bx.Must(fmt.Errorf("%v", errs))
	}
	h, err := serve(cfg, false, ss)
	bx.Must(err)
	srv := httptest.NewServer(h)
	addr := strings.TrimPrefix(srv.URL, "http://")
	for _, to := range []sink{newFileSink(c), newTTY()} {
		for _, pat := range []string{"m", "m m", "^m", "m$", "[mé]", "", "x*", "M", "^\\s*$", "nothing at all"} {
			for _, icase := range []bool{false, true} {
				for ctx := 0; ctx <= maxCtx; ctx++ {
					if c.Over() {
						return
					}
					if !c.Mine() {
						continue
					}
					p, err := ref.New(ref.Expr(pat, icase, false))
					bx.Must(err)
					re := regexp.MustCompile(index.GetRegexpPattern(pat, icase))
					var want []*shown
					var name []string
					for _, f := range byWalk(fs) {
						ns := p.Nums(f.text)
						if len(ns) == 0 {
							continue
						}
						s := &shown{lines: ref.Lines(f.text), ctx: ctx, desc: f.name}
						for _, m := range ref.Ctx(f.text, ns, ctx) {
							s.ms = append(s.ms, &index.Match{Line: m.Line, LineNumber: m.No, Before: m.Before, After: m.After})
						}
						want = append(want, s)
						name = append(name, f.name)
					}
					c.States += int64(len(want))
					c.Transitions++
					to, ctx, pat, icase := to, ctx, pat, icase
					c.Do(fmt.Sprintf("search for %q, ignoring case %v, context %d", pat, icase, ctx), func() []string {
						res, repos, err := client.SearchAndLoadRepos(&client.Config{Host: addr}, pat, "*", "", ctx, icase, true)
						if err != nil {
							return []string{err.Error()}
						}
						if len(want) == 0 {
							if len(res.Results) != 0 {
								return []string{"results without a match"}
							}
							return nil
						}
						out, err := to.run(func(f *os.File) error { return client.NewAckPresenter(f).Present(re, ctx, repos, res) })
						if err != nil {
							return []string{err.Error()}
						}
						return judgeOutput(out, "the repo", want, func(i int) string { return name[i] })
					})
				}
			}
		}
	}
}

func init() {
	bx.Register(&bx.Job{Name: "k01-server", Desc: "every set of matching lines with the context the server gives", Run: k01Server})
	bx.Register(&bx.Job{Name: "k01-any", Desc: "every set of matching lines with every truncation of context", Run: k01Any})
	bx.Register(&bx.Job{Name: "k01-long", Desc: "long files and many of them", Run: k01Long})
	bx.Register(&bx.Job{Name: "k01-numbers", Desc: "line numbers of every length", Run: k01Numbers})
	bx.Register(&bx.Job{Name: "k01-hilite", Desc: "highlighting of every pattern in every line", Run: k01Hilite})
	bx.Register(&bx.Job{Name: "k01-real", Desc: "from tree to terminal", Run: k01Real})
}

func byWalk(fs []file) []file {
	o := append([]file{}, fs...)
	sort.SliceStable(o, func(a, b int) bool { return ref.WalkLess(o[a].name, o[b].name) })
	return o
}
