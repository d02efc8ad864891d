package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"unicode"

	"github.com/hound-search/hound/codesearch/index"
	"github.com/hound-search/hound/codesearch/regexp"

	"hv/bx"
	"hv/gen"
	"hv/ref"
)

const maxWords = 400

// words gives words of the language of r: repetitions 0 to 2 times, classes by
// the ends of their ranges; at most maxWords.
func words(r *syntax.Regexp) []string {
	switch r.Op {
	case syntax.OpNoMatch:
		return nil
	case syntax.OpLiteral:
		w := []string{""}
		for _, c := range r.Rune {
			l := []string{string(c)}
			if r.Flags&syntax.FoldCase != 0 {
				for x := unicode.SimpleFold(c); x != c; x = unicode.SimpleFold(x) {
					l = append(l, string(x))
				}
			}
			w = cross(w, l)
		}
		return w
	case syntax.OpCharClass:
		var w []string
		for i := 0; i+1 < len(r.Rune) && len(w) < 12; i += 2 {
			lo, hi := r.Rune[i], r.Rune[i+1]
			w = append(w, string(lo))
			if hi > lo {
				w = append(w, string(hi))
			}
			if hi > lo+1 {
				w = append(w, string(lo+1))
			}
		}
		return w
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return []string{"a", "q", "é"}
	case syntax.OpCapture:
		return words(r.Sub[0])
	case syntax.OpStar:
		w := words(r.Sub[0])
		return uniq(append(append([]string{""}, w...), cross(w, w)...))
	case syntax.OpPlus:
		w := words(r.Sub[0])
		return uniq(append(w, cross(w, w)...))
	case syntax.OpQuest:
		return uniq(append([]string{""}, words(r.Sub[0])...))
	case syntax.OpRepeat:
		w := words(r.Sub[0])
		l := []string{""}
		for i := 0; i < r.Min; i++ {
			l = cross(l, w)
		}
		if r.Max != r.Min {
			l = uniq(append(l, cross(l, w)...))
		}
		return l
	case syntax.OpConcat:
		l := []string{""}
		for _, s := range r.Sub {
			l = cross(l, words(s))
		}
		return l
	case syntax.OpAlternate:
		var l []string
		for _, s := range r.Sub {
			l = append(l, words(s)...)
		}
		return uniq(l)
	}
	return []string{""}
}

func cross(a, b []string) []string {
	var r []string
	for _, x := range a {
		for _, y := range b {
			r = append(r, x+y)
		}
	}
	return uniq(r)
}

func uniq(l []string) []string {
	m := map[string]bool{}
	var r []string
	for _, s := range l {
		if !m[s] {
			m[s] = true
			r = append(r, s)
		}
	}
	if len(r) > maxWords {
		// keep the ends and an even selection of the rest
		sort.Strings(r)
		k := make([]string, 0, maxWords)
		for i := 0; i < maxWords; i++ {
			k = append(k, r[i*(len(r)-1)/(maxWords-1)])
		}
		r = k
	}
	return r
}

type wordJob struct {
	g     gen.Grammar
	size  [5]int
	icase bool
}

var wordJobs = map[string]wordJob{
	"alts":  {gen.Grammar{Leaves: []string{"a", "[abc]", ""}, Lits: []string{"abc", "bca", "cabd", "aab"}, Post: []string{"+", "?"}}, [5]int{3, 4, 5, 5, 6}, false},
	"sets":  {gen.Grammar{Leaves: []string{"[a-h]", "[ab]", "x"}, Lits: []string{"xy", "xyz", "zyxw"}, Post: []string{"{2}", "{3}", "*"}}, [5]int{3, 4, 5, 5, 6}, false},
	"icase": {gen.Grammar{Leaves: []string{"k", "[^k]", "é"}, Lits: []string{"ab", "abc", "sk", "ABCd"}, Post: []string{"+", "?"}}, [5]int{3, 4, 4, 5, 6}, true},
	"edge":  {gen.Grammar{Leaves: []string{"^", "$", `\b`, "a", ".", "[^a]"}, Lits: []string{"abc", "bcd"}, Post: []string{"*", "?"}}, [5]int{3, 4, 4, 5, 5}, false},
}

func init() {
	for n, s := range wordJobs {
		s := s
		bx.Register(&bx.Job{Name: "s02-w-" + n, Desc: "candidate selection keeps the words of the pattern, " + n, Run: func(c *bx.Ctx) {
			for _, pat := range s.g.Patterns(s.size[c.Bound]) {
				if !c.Mine() || c.Over() {
					continue
				}
				expr := ref.Expr(pat, s.icase, false)
				p, err := ref.New(expr)
				if err != nil {
					continue
				}
				c.States++
				sre, _ := syntax.Parse(expr, syntax.Perl)
				ws := words(sre)
				sel := false
				c.DoKey(func() string { return fmt.Sprintf("%q", expr) }, func() (string, []string) {
					re, err := regexp.Compile(expr)
					if err != nil {
						return "", []string{err.Error()}
					}
					q := index.RegexpQuery(re.Syntax)
					sel = q.Op != index.QAll
					if !sel {
						c.Transitions++
						return "", nil
					}
					for _, w := range ws {
						for _, t := range []string{w, "q" + w + "q"} {
							c.Transitions++
							if !evalQuery(q, trigrams(t)) && len(p.Nums(t)) > 0 {
								return "", []string{fmt.Sprintf("pattern %q matches text %q, which the query %s leaves out", expr, t, q)}
							}
						}
					}
					return "", nil
				})
				if sel {
					c.Outcomes["selective"]++
				} else {
					c.Outcomes["selects all"]++
				}
			}
		}})
	}
}
