// Package ref is the reference model of searching: every line of every file on
// its own, with Go's regexp package.
package ref

import (
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"
)

// Lines splits text; a final newline ends the last line, it does not begin one.
func Lines(text string) []string {
	if text == "" {
		return nil
	}
	l := strings.Split(text, "\n")
	if l[len(l)-1] == "" {
		l = l[:len(l)-1]
	}
	return l
}

func OpenEnd(text string) bool { return text != "" && text[len(text)-1] != '\n' }

// Pat decides lines.  first: the line begins the file; last: the line ends it
// (no newline after it).
type Pat struct {
	Src        string
	Begin, End bool // refers to the beginning, the end of the whole text
	v          [4]*regexp.Regexp
	memo       [4]map[string]bool
}

// Expr is the expression searched for.
func Expr(pat string, icase, literal bool) string {
	if literal {
		pat = regexp.QuoteMeta(pat)
	}
	if icase {
		pat = "(?i)" + pat
	}
	return "(?m)" + pat
}

func New(expr string) (*Pat, error) {
	re, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		return nil, err
	}
	if _, err := regexp.Compile(expr); err != nil {
		return nil, err
	}
	p := &Pat{Src: expr}
	walk(re, func(r *syntax.Regexp) {
		p.Begin = p.Begin || r.Op == syntax.OpBeginText
		p.End = p.End || r.Op == syntax.OpEndText
	})
	for i := 0; i < 4; i++ {
		if i&1 == 0 && !p.Begin || i&2 == 0 && !p.End {
			continue
		}
		if i == 3 {
			p.v[i] = regexp.MustCompile(expr)
		} else {
			re, _ := syntax.Parse(expr, syntax.Perl)
			walk(re, func(r *syntax.Regexp) {
				if r.Op == syntax.OpBeginText && i&1 == 0 || r.Op == syntax.OpEndText && i&2 == 0 {
					*r = syntax.Regexp{Op: syntax.OpNoMatch}
				}
			})
			p.v[i] = regexp.MustCompile(re.String())
		}
		p.memo[i] = map[string]bool{}
	}
	return p, nil
}

func walk(r *syntax.Regexp, f func(*syntax.Regexp)) {
	for _, s := range r.Sub {
		walk(s, f)
	}
	f(r)
}

func (p *Pat) Match(line string, first, last bool) bool {
	i := 3
	if p.Begin && !first {
		i &^= 1
	}
	if p.End && !last {
		i &^= 2
	}
	m, ok := p.memo[i][line]
	if !ok {
		m = p.v[i].MatchString(line)
		if len(line) < 64 && len(p.memo[i]) < 1<<16 {
			p.memo[i][line] = m
		}
	}
	return m
}

// Nums gives the 0-based numbers of the matching lines.
func (p *Pat) Nums(text string) []int {
	var r []int
	ls := Lines(text)
	open := OpenEnd(text)
	for i, l := range ls {
		if p.Match(l, i == 0, open && i == len(ls)-1) {
			r = append(r, i)
		}
	}
	return r
}

// NumsAfterMatch is Nums with the beginning of the text also at every line that
// follows a match (the known finding about \A).
func (p *Pat) NumsAfterMatch(text string) []int {
	var r []int
	ls := Lines(text)
	open := OpenEnd(text)
	prev := true
	for i, l := range ls {
		prev = p.Match(l, i == 0 || prev, open && i == len(ls)-1)
		if prev {
			r = append(r, i)
		}
	}
	return r
}

type Match struct {
	Line          string
	No            int
	Before, After []string
}

// Ctx adds the context.
func Ctx(text string, nums []int, n int) []Match {
	ls := Lines(text)
	var r []Match
	prev := 0
	for _, i := range nums {
		b := i - n
		if b < prev {
			b = prev
		}
		a := i + 1 + n
		if a > len(ls) {
			a = len(ls)
		}
		r = append(r, Match{ls[i], i + 1, ls[b:i], ls[i+1 : a]})
		prev = i + 1
	}
	return r
}

// WalkOrder sorts slash-separated names the way filepath.Walk visits them.
func WalkOrder(names []string) {
	sort.Slice(names, func(a, b int) bool { return WalkLess(names[a], names[b]) })
}

func WalkLess(a, b string) bool {
	x, y := strings.Split(a, "/"), strings.Split(b, "/")
	for i := range x {
		if i >= len(y) {
			return false
		}
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	return len(x) < len(y)
}
