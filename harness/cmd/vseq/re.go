package main

import (
	"bytes"
	"fmt"
	stdre "regexp"
	"strings"

	"github.com/hound-search/hound/codesearch/index"
	"github.com/hound-search/hound/codesearch/regexp"

	"hv/bx"
	"hv/gen"
	"hv/ref"
)

// engineLines finds the matching lines with the engine's automaton, one call per
// line found.
func engineLines(re *regexp.Regexp, text string, str bool) (r []int, bad string) {
	pos, line := 0, 0
	for pos < len(text) {
		var m int
		if str {
			m = re.MatchString(text[pos:], pos == 0, true)
		} else {
			m = re.Match([]byte(text[pos:]), pos == 0, true)
		}
		if m < 0 {
			return
		}
		m += pos
		if m > len(text) || m < len(text) && text[m] != '\n' {
			return r, fmt.Sprintf("match position %d is no end of a line", m)
		}
		s := strings.LastIndexByte(text[:m], '\n') + 1
		line += strings.Count(text[pos:s], "\n")
		if s == len(text) {
			return // the empty string after the final newline
		}
		r = append(r, line)
		line++
		pos = m + 1
	}
	return
}

type lineSpace struct {
	g       gen.Grammar
	size    [5]int // pattern nodes per bound
	letters []string
	length  [5]int
	icase   bool
}

var spaces = map[string]lineSpace{
	"ab": {gen.Grammar{Leaves: []string{"a", "b", ".", "^", "$", `\b`, "[^a]", "(?i:A)", ""}, Lits: []string{"ab"},
		Post: []string{"*", "+", "?", "{2}"}, Wrap: []string{"("}}, [5]int{2, 3, 4, 4, 5}, []string{"a", "b", "\n"}, [5]int{4, 5, 5, 6, 5}, false},
	"edge": {gen.Grammar{Leaves: []string{"a", `\A`, `\z`, `(?-m:^)`, `(?-m:$)`, `\B`, `\b`, `\n`, `(?s:.)`, "[ab]"},
		Post: []string{"*", "??", "{0}", "{1,2}", "{2,}"}}, [5]int{2, 3, 3, 4, 4}, []string{"a", "b", "\n"}, [5]int{4, 5, 6, 5, 6}, false},
	"word": {gen.Grammar{Leaves: []string{"a", "_", "-", `\b`, `\B`, `\w`, `\W`, `\d`, `\s`, "é"},
		Post: []string{"*", "+?"}}, [5]int{2, 3, 3, 4, 4}, []string{"a", "_", "-", "1", "é", "\n"}, [5]int{3, 4, 4, 4, 5}, false},
	"fold": {gen.Grammar{Leaves: []string{"k", "K", "\u212a", "s", "ſ", "[a-k]", "[^k]", "[K-S]", "(?-i:k)", "1"}, Lits: []string{"ks"},
		Post: []string{"*"}}, [5]int{2, 3, 3, 4, 4}, []string{"k", "K", "\u212a", "s", "S", "ſ", "1", "\n"}, [5]int{3, 3, 4, 3, 4}, true},
	"uni": {gen.Grammar{Leaves: []string{"é", "É", "[à-ÿ]", "[^é]", "世", "[一-龥]", "😀", "[\\x{10000}-\\x{10ffff}]", "[\\x{7f}-\\x{800}]", "[\\x{ffff}-\\x{10000}]", `\pL`, `\PL`, ".", `[[:upper:]]`},
		Post: []string{"+"}, Wrap: []string{"(?i:"}}, [5]int{2, 3, 3, 3, 4}, []string{"é", "É", "世", "😀", "a", "\x7f", "\u0800", "\uffff", "\n"}, [5]int{2, 3, 3, 4, 3}, false},
}

func (s *lineSpace) pats(c *bx.Ctx) []string  { return s.g.Patterns(s.size[c.Bound]) }
func (s *lineSpace) texts(c *bx.Ctx) []string { return gen.Strings(s.length[c.Bound], s.letters...) }

func regSpace(name string, s lineSpace) {
	bx.Register(&bx.Job{Name: "s03-" + name, Desc: "automaton against Go's regexp, " + name, Run: func(c *bx.Ctx) {
		texts := s.texts(c)
		if c.Shard == 0 {
			c.States += int64(len(texts))
		}
		for _, pat := range s.pats(c) {
			if !c.Mine() || c.Over() {
				continue
			}
			expr := ref.Expr(pat, s.icase, false)
			p, err := ref.New(expr)
			re, err2 := regexp.Compile(expr)
			c.States++
			if (err == nil) != (err2 == nil) {
				c.Fail("", expr, fmt.Sprintf("standard syntax: %v, engine: %v", err, err2))
				continue
			}
			if err != nil {
				c.Outcomes["rejected"]++
				continue
			}
			exp := make([][]int, len(texts))
			for i, t := range texts {
				exp[i] = p.Nums(t)
				if len(exp[i]) > 0 {
					c.Outcomes["texts with a match"]++
				} else {
					c.Outcomes["texts without a match"]++
				}
			}
			c.Sample(fmt.Sprintf("%q on %d texts", expr, len(texts)))
			c.Do(fmt.Sprintf("%q", expr), func() []string {
				re2, _ := regexp.Compile(expr)
				try := func(how string, re *regexp.Regexp, i int, str bool) []string {
					c.Transitions++
					got, bad := engineLines(re, texts[i], str)
					if bad != "" || fmt.Sprint(got) != fmt.Sprint(exp[i]) {
						return []string{fmt.Sprintf("pattern %q text %q (%s): lines %v, expected %v %s", expr, texts[i], how, got, exp[i], bad)}
					}
					return nil
				}
				for i := range texts {
					if b := try("in order", re, i, false); b != nil {
						return b
					}
				}
				for i := len(texts) - 1; i >= 0; i-- {
					if b := try("reverse order, string", re2, i, true); b != nil {
						return b
					}
				}
				if len(pat) <= 2 {
					for i := range texts {
						re3, _ := regexp.Compile(expr)
						if b := try("freshly compiled", re3, i, false); b != nil {
							return b
						}
					}
				}
				return nil
			})
		}
	}})
}

// chunks: the automaton fed a prefix that ends in a newline and is not the end.
func chunks(c *bx.Ctx) {
	g := gen.Grammar{Leaves: []string{"a", "^", "$", `\b`, `\z`, `\A`, "."}, Post: []string{"*"}}
	texts := gen.Strings([5]int{3, 4, 5, 6, 6}[c.Bound], "a", "b", "\n")
	for _, pat := range g.Patterns([5]int{2, 3, 3, 4, 4}[c.Bound]) {
		if !c.Mine() || c.Over() {
			continue
		}
		expr := "(?m)" + pat
		p, err := ref.New(expr)
		re, err2 := regexp.Compile(expr)
		if err != nil || err2 != nil {
			continue
		}
		c.States++
		c.Do(fmt.Sprintf("chunked %q", expr), func() []string {
			for _, t := range texts {
				if t == "" || t[len(t)-1] != '\n' {
					continue
				}
				for _, bt := range []bool{true, false} {
					c.Transitions++
					m := re.Match([]byte(t), bt, false)
					// the first line that matches, each examined on its own
					want := -1
					off := 0
					for i, l := range ref.Lines(t) {
						if p.Match(l, bt && i == 0, false) {
							want = off + len(l)
							break
						}
						off += len(l) + 1
					}
					if m == len(t) {
						m = -1 // nothing in the complete lines
					}
					if m != want {
						return []string{fmt.Sprintf("pattern %q chunk %q beginText %v: %d, expected %d", expr, t, bt, m, want)}
					}
				}
			}
			return nil
		})
	}
}

// states: patterns that take the automaton through thousands of states, or have
// thousands of instructions.
func states(c *bx.Ctx) {
	type job struct {
		pat   string
		icase bool
		texts []string
	}
	var jobs []job
	n := [5]int{9, 11, 12, 13, 14}[c.Bound]
	words := gen.Strings(n, "a", "b")
	var mixed []string
	for _, w := range gen.Strings(n/2, "a", "\u00e9", "B") {
		mixed = append(mixed, w, w+"\nb"+w)
	}
	for k := n - 4; k < n-1; k++ {
		for _, p := range []string{"a[ab]{%d}$", "^[ab]*a[ab]{%d}$", "a[ab]{%d}b|b[ab]{%[1]d}a$", "\\ba(a|b){%d}\\b", "(?:a.{%d}){2}"} {
			jobs = append(jobs, job{fmt.Sprintf(p, k), false, words})
		}
		for _, p := range []string{"a[ab\u00e9]{%d}$", "a.{%d}[^a]", "\u00e9\\pL{%d}\\b"} {
			jobs = append(jobs, job{fmt.Sprintf(p, k/2), true, mixed})
		}
	}
	// long programs
	var alts, runs []string
	for i := 980; i < 1000; i++ {
		alts = append(alts, fmt.Sprintf("a{%d}%c", i, 'b'+i%20))
		for x := 'b'; x < 'v'; x++ {
			runs = append(runs, strings.Repeat("a", i)+string(x))
		}
	}
	for _, p := range []string{"^(?:" + strings.Join(alts, "|") + ")$", "^(?:" + strings.Join(alts[:17], "|") + ")", "^(?:" + strings.Join(alts[3:], "|") + ")"} {
		jobs = append(jobs, job{p, false, runs})
	}
	for _, j := range jobs {
		if !c.Mine() || c.Over() {
			continue
		}
		expr := ref.Expr(j.pat, j.icase, false)
		p, err := ref.New(expr)
		re, err2 := regexp.Compile(expr)
		c.States++
		if err != nil || err2 != nil {
			c.Fail("", expr, fmt.Sprintf("standard syntax: %v, engine: %v", err, err2))
			continue
		}
		c.DoKey(func() string { return fmt.Sprintf("%.60q", expr) }, func() (string, []string) {
			m := 0
			for _, t := range j.texts {
				c.Transitions++
				exp := p.Nums(t)
				m += len(exp)
				got, bad := engineLines(re, t, len(t)%2 == 0)
				if bad != "" || fmt.Sprint(got) != fmt.Sprint(exp) {
					return "", []string{fmt.Sprintf("pattern %.60q text %q: lines %v, expected %v %s", expr, t, got, exp, bad)}
				}
			}
			if m > 0 {
				c.Outcomes["patterns with a match"]++
			}
			all := strings.Join(j.texts, "\n")
			exp := p.Nums(all)
			got, bad := engineLines(re, all, false)
			if bad != "" || fmt.Sprint(got) != fmt.Sprint(exp) {
				return "", []string{fmt.Sprintf("pattern %.60q on all texts as one: %d lines, expected %d %s", expr, len(got), len(exp), bad)}
			}
			return "", nil
		})
	}
}

// parse: which patterns are accepted.
func parse(c *bx.Ctx) {
	letters := []string{"a", "(", ")", "[", "]", "*", "+", "?", "{", "}", "|", `\`, "^", "$", "-", ",", "1", ".", ":", "P", "<", "\xff"}
	n := [5]int{2, 3, 3, 4, 5}[c.Bound]
	one := func(s string) {
		c.States++
		c.Transitions++
		c.DoKey(func() string { return fmt.Sprintf("%q", s) }, func() (string, []string) {
			_, e1 := stdre.Compile(s)
			_, e2 := regexp.Compile(s)
			if (e1 == nil) != (e2 == nil) {
				return "", []string{fmt.Sprintf("pattern %q: standard %v, engine %v", s, e1, e2)}
			}
			if e1 == nil {
				c.Outcomes["accepted"]++
			} else {
				c.Outcomes["rejected"]++
			}
			return "", nil
		})
	}
	for i, s := range gen.Strings(n, letters...) {
		if i%c.N == c.Shard && !c.Over() {
			one(s)
		}
	}
	if c.Shard == 0 {
		for _, s := range []string{"a{1000}", "a{1001}", "(a{100}){100}", "(((a{30}){30}){30})", gen.Rep("(", 1000) + gen.Rep(")", 1000), gen.Rep("(", 1001) + gen.Rep(")", 1001), `\pN`, `\pQ`, `\Q*\E`, `\Q`, `\C`, "(?i)(?m)x", "(?P<n>a)", "(?P<n>a)(?P<n>b)", "(?<n>a)", "(?=a)", `\1`, "[[:alpha:]]", "[[:foo:]]", "x**", "(?i)(?s).", "[z-a]", `\x{110000}`, `\x{10ffff}`, "é", "[é-世]"} {
			one(s)
		}
	}
}

// quote: QuoteMeta matches exactly the text.
func quote(c *bx.Ctx) {
	letters := []string{"a", ".", "*", "[", "\\", "(", "^", "$", "|", "{", "+", "?", " ", "é", "E", "-"}
	strs := gen.Strings([5]int{1, 2, 2, 3, 3}[c.Bound], letters...)
	sub := gen.Strings(2, letters...)
	for _, s := range strs {
		if !c.Mine() || c.Over() || s == "" {
			continue
		}
		c.States++
		c.Do(fmt.Sprintf("%q", s), func() []string {
			re, err := regexp.Compile("(?m)" + regexp.QuoteMeta(s))
			if err != nil {
				return []string{err.Error()}
			}
			for _, t := range append(sub, s, "x"+s+"y", s+s, strings.ToUpper(s)) {
				c.Transitions++
				if got := re.Match([]byte(t), true, true) >= 0; got != bytes.Contains([]byte(t), []byte(s)) {
					return []string{fmt.Sprintf("literal %q in %q: %v", s, t, got)}
				}
			}
			return nil
		})
	}
}

// trigrams of a text, as the index sees it.
func trigrams(t string) map[string]bool {
	m := map[string]bool{}
	for i := 0; i+3 <= len(t); i++ {
		m[t[i:i+3]] = true
	}
	return m
}

func evalQuery(q *index.Query, m map[string]bool) bool {
	switch q.Op {
	case index.QAll:
		return true
	case index.QNone:
		return false
	case index.QAnd:
		for _, t := range q.Trigram {
			if !m[t] {
				return false
			}
		}
		for _, s := range q.Sub {
			if !evalQuery(s, m) {
				return false
			}
		}
		return true
	}
	for _, t := range q.Trigram {
		if m[t] {
			return true
		}
	}
	for _, s := range q.Sub {
		if evalQuery(s, m) {
			return true
		}
	}
	return false
}

type queryJob struct {
	g       gen.Grammar
	size    [5]int
	letters []string
	length  [5]int
	icase   bool
	extra   []string
}

var queries = map[string]queryJob{
	"ast": {gen.Grammar{Leaves: []string{"a", "b", "", ".", "[ab]", "^", "$"}, Lits: []string{"ab", "abc", "ba"}, Post: []string{"*", "+", "?", "{2}", "{2,}"}},
		[5]int{2, 3, 4, 4, 5}, []string{"a", "b", "c"}, [5]int{5, 6, 7, 8, 7}, false, nil},
	"long": {gen.Grammar{Leaves: []string{"a", "[abc]", "[^c]", ".", `(?i:B)`}, Lits: []string{"abc", "cba", "abcabc", "ccc", "aabb"}, Post: []string{"+", "?", "{3}", "{1,2}"}},
		[5]int{2, 3, 3, 4, 5}, []string{"a", "b", "c"}, [5]int{6, 7, 8, 8, 8}, false,
		[]string{"[abc][abc][abc]", "[abc]{4}", "[abc]{7}", "(a|b|c|ab|bc|ca)(a|b|c|ab)(a|b)", "(abc|bca|cab)(abc|bca|cab)", "(aaa|bbb|ccc)(aaa|bbb|ccc)(a|b|c)", "(?:aa|ab|ac|ba|bb|bc|ca|cb|cc)(?:aa|ab|ac|ba|bb|bc|ca|cb|cc)", "a(bc)*a", "a(bc)*a(bc)*a", "(abc)+(cba)?", "(ab)?(bc)?(ca)?", "abc|", "(|abc)", "(a|)(b|)(c|)", "((a|b)(b|c)(c|a)){2}", "(?i)abc(?-i)abc", "[a-z]{3}", "[^a][^b][^c]", "a.c", "ab.*bc", "abc.*abc.*abc"}},
	"fold": {gen.Grammar{Leaves: []string{"k", "\u212a", "s", "ſ", "[k-m]", "[^s]", ".", "é", "É"}, Lits: []string{"ks", "aks", "KSa", "éa"}, Post: []string{"*", "+", "{2}"}},
		[5]int{2, 3, 3, 4, 4}, []string{"k", "K", "\u212a", "s", "ſ", "a", "é", "É"}, [5]int{3, 4, 4, 4, 5}, true, nil},
	"class": {gen.Grammar{Leaves: []string{"[a-zA-Z]", "[!-~]", "[a-z]", "[^a-y]", "z", "(?i:a)", "[p-\u0170]"}, Lits: []string{"az", "zA~", "Zzz"}, Post: []string{"+", "?", "{2}"}},
		[5]int{2, 2, 3, 3, 4}, []string{"a", "z", "A", "~", "\u0130"}, [5]int{4, 5, 5, 6, 6}, false,
		[]string{"[a-z][a-z][a-z]", "[a-zA-Z]zA", "za[a-zA-Z]", "z[a-zA-Z]A", "z[!-~]z", "[!-~][!-~]z", "(?i)[a-z]az", "(?i)z[a-z]a", "[\\x00-\\x62]az", "[\\x00-\\x63]az", "[\\x00-\\x64]az", "[a-z]{1,3}A", `\w\wz`, `az\w`, `z\Wz`}},
	"nl": {gen.Grammar{Leaves: []string{"a", "^", "$", `\n`, `[^b]`, `\s`, `(?s:.)`, `\b`, `\A`, `\z`}, Lits: []string{"ab", "ab\n", "\nab"}, Post: []string{"*", "+"}},
		[5]int{2, 3, 3, 4, 4}, []string{"a", "b", "\n"}, [5]int{5, 6, 7, 6, 7}, false, nil},
}

func regQuery(name string, s queryJob) {
	bx.Register(&bx.Job{Name: "s02-" + name, Desc: "candidate selection keeps every file with a match, " + name, Run: func(c *bx.Ctx) {
		texts := gen.Strings(s.length[c.Bound], s.letters...)
		pats := append(append([]string{}, s.extra...), s.g.Patterns(s.size[c.Bound])...)
		tri := make([]map[string]bool, len(texts))
		for i, t := range texts {
			tri[i] = trigrams(t)
		}
		// one real index of every text
		w := index.Create(c.Dir + "/q")
		for i, t := range texts {
			if r := w.Add(fmt.Sprintf("f%07d", i), strings.NewReader(t)); r != "" {
				bx.Must(fmt.Errorf("not indexed: %q: %s", t, r))
			}
		}
		w.Flush()
		w.Close()
		ix := index.Open(c.Dir + "/q")
		if c.Shard == 0 {
			c.States += int64(len(texts))
		}
		for n, pat := range pats {
			if !c.Mine() || c.Over() {
				continue
			}
			expr := ref.Expr(pat, s.icase, false)
			p, err := ref.New(expr)
			if err != nil {
				continue
			}
			c.States++
			full := n < 400 || n%16 == 0
			var q *index.Query
			c.Do(fmt.Sprintf("%q", expr), func() []string {
				re, err := regexp.Compile(expr)
				if err != nil {
					return []string{err.Error()}
				}
				q = index.RegexpQuery(re.Syntax)
				sel := map[uint32]bool{}
				if full {
					prev := -1
					for _, f := range ix.PostingQuery(q) {
						if int(f) <= prev {
							return []string{fmt.Sprintf("pattern %q: candidates out of order or twice", expr)}
						}
						prev = int(f)
						sel[f] = true
					}
				}
				for i, t := range texts {
					c.Transitions++
					e := evalQuery(q, tri[i])
					if full && sel[uint32(i)] != e {
						return []string{fmt.Sprintf("pattern %q query %s: index selects text %q: %v, the query denotes %v", expr, q, t, sel[uint32(i)], e)}
					}
					if !e && len(p.Nums(t)) > 0 {
						return []string{fmt.Sprintf("pattern %q matches text %q, which the query %s leaves out", expr, t, q)}
					}
				}
				return nil
			})
			if q != nil {
				switch q.Op {
				case index.QAll:
					c.Outcomes["selects all"]++
				case index.QNone:
					c.Outcomes["selects none"]++
				default:
					c.Outcomes["selective"]++
				}
				c.Sample(fmt.Sprintf("%q -> %s", expr, clip(q.String())))
			}
		}
		ix.Close()
	}})
}

func init() {
	for n, s := range spaces {
		regSpace(n, s)
	}
	for n, s := range queries {
		regQuery(n, s)
	}
	bx.Register(&bx.Job{Name: "s03-chunk", Desc: "automaton on a chunk that is not the end", Run: chunks})
	bx.Register(&bx.Job{Name: "s03-states", Desc: "patterns with very many states or instructions", Run: states})
	bx.Register(&bx.Job{Name: "s03-parse", Desc: "patterns accepted and rejected", Run: parse})
	bx.Register(&bx.Job{Name: "s03-quote", Desc: "literal patterns", Run: quote})
}
