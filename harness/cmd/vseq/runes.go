package main

import (
	"fmt"
	stdre "regexp"
	"unicode"

	"github.com/hound-search/hound/codesearch/index"
	"github.com/hound-search/hound/codesearch/regexp"

	"hv/bx"
	"hv/ref"
)

// chars gives the characters of the sweeps: at bound 4 every one of them, below
// that all up to the given one and those where an encoding or a table changes.
func chars(bound int) []rune {
	var rs []rune
	seen := map[rune]bool{}
	add := func(r rune) {
		if r >= 0 && r <= unicode.MaxRune && !(0xd800 <= r && r <= 0xdfff) && r != '\n' && !seen[r] {
			seen[r] = true
			rs = append(rs, r)
		}
	}
	limit := [5]rune{0x250, 0x600, 0x1100, 0x3200, unicode.MaxRune}[bound]
	for r := rune(0); r <= limit; r++ {
		add(r)
	}
	for r := rune(0); r <= unicode.MaxRune; r += 64 {
		add(r)
		add(r + 63)
	}
	for _, r := range folding() {
		for d := rune(-1); d <= 1; d++ {
			add(r + d)
		}
	}
	return rs
}

// folding gives every character that has another case.
func folding() []rune {
	var rs []rune
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if unicode.SimpleFold(r) != r {
			rs = append(rs, r)
		}
	}
	return rs
}

func orbit(r rune) []rune {
	o := []rune{r}
	for x := unicode.SimpleFold(r); x != r; x = unicode.SimpleFold(x) {
		o = append(o, x)
	}
	return o
}

// edges are the ends of character classes: where the length of the encoding, its
// lead byte or its last byte changes.
func edges(bound int) []rune {
	rs := []rune{0, 1, '\t', ' ', 'A', 'Z', 'a', 'z', 0x7e, 0x7f, 0x80, 0xbf, 0xc0, 0xff, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff}
	if bound >= 3 {
		rs = append(rs, 0x81, 0xbe, 0xc1, 0xfe, 0x100, 0x13f, 0x140, 0x17f, 0x7be, 0x7c0, 0x801, 0x83f, 0x840, 0x1fff, 0x2000, 0xcfff, 0xd000, 0xefff, 0xf000, 0xfffd, 0xfffe,
			0x10001, 0x1003f, 0x10040, 0x10fff, 0x11000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fffe)
	}
	if bound >= 4 {
		rs = append(rs, 0x2, '0', '9', '_', 0xa0, 0xdf, 0xe0, 0x3bf, 0x3c0, 0x3ff, 0x400, 0x1001, 0x103f, 0x1040, 0x10ff, 0x1100, 0x7fff, 0x8000, 0xd780, 0xd7c0, 0xffbf, 0xffc0, 0x1ffff, 0x20000, 0x7ffff, 0x80000)
	}
	return rs
}

// same compares the automaton with Go's package on one-line texts.
func same(c *bx.Ctx, expr string, texts []string) []string {
	std, err := stdre.Compile(expr)
	re, err2 := regexp.Compile(expr)
	if (err == nil) != (err2 == nil) {
		return []string{fmt.Sprintf("pattern %q: standard %v, engine %v", expr, err, err2)}
	}
	if err != nil {
		return nil
	}
	for _, t := range texts {
		c.Transitions++
		want := std.MatchString(t)
		if got := re.Match([]byte(t), true, true) >= 0; got != want {
			return []string{fmt.Sprintf("pattern %q line %q: matches %v, expected %v", expr, t, got, want)}
		}
		if got := re.MatchString(t, true, true) >= 0; got != want {
			return []string{fmt.Sprintf("pattern %q line %q (string): matches %v, expected %v", expr, t, got, want)}
		}
	}
	return nil
}

// everyRune: each character alone and beside a letter, against patterns about
// single characters and their boundaries.
func everyRune(c *bx.Ctx) {
	rs := chars(c.Bound)
	var texts []string
	for _, r := range rs {
		texts = append(texts, string(r), "a"+string(r), string(r)+"a", "a"+string(r)+"a")
	}
	pats := []string{`^.$`, `^..$`, `^...$`, `\b`, `\B`, `a\b`, `a\B`, `\ba`, `\Ba`, `^\B`, `\B$`, `^a\B.\B`, `a\b.\ba`, `\B.\B`, `\w`, `^\w+$`, `\W`, `^[^a]$`, `\s`, `\S\S`, `\d`,
		`\pL`, `^\PL$`, `\p{Lu}`, `[[:upper:]]`, `[^[:print:]]`, `(?i)^[a-z]$`, `(?i)[^a-z]`, `(?i)^\w$`, `(?i)\p{Lu}`, `(?i)[k-s]`, `(?i)^[^k-s]$`, `[\x80-\x{7ff}]`, `[\x{800}-\x{ffff}]`, `[\x{10000}-\x{10ffff}]`, `^\p{Co}`, `^\P{Co}$`, `^\P{Cs}$`, `[^\p{Co}a]`, `(?s)^.a`, `a.$`}
	for _, pat := range pats {
		for i := 0; i < len(texts); i += 4096 {
			if !c.Mine() || c.Over() {
				continue
			}
			part := texts[i:min(i+4096, len(texts))]
			c.States += int64(len(part))
			c.Outcomes["patterns on characters"]++
			c.Do(fmt.Sprintf("%s on %q…", pat, part[0]), func() []string { return same(c, "(?m)"+pat, part) })
		}
	}
}

// everyFold: each character that has another case, searched for without regard to case.
func everyFold(c *bx.Ctx) {
	rs := folding()
	for r := rune(' '); r < 0x180; r++ {
		if unicode.SimpleFold(r) == r && r != '\n' {
			rs = append(rs, r)
		}
	}
	for _, r := range rs {
		if !c.Mine() || c.Over() {
			continue
		}
		q := stdre.QuoteMeta(string(r))
		var texts []string
		for _, o := range append(orbit(r), r-1, r+1, r^0x20) {
			if o <= 0 || o > unicode.MaxRune || o == '\n' {
				continue
			}
			s := string(o)
			texts = append(texts, s, "x"+s, s+"x", "x"+s+"x", s+s, "xy"+s+"zx")
		}
		c.States += int64(len(texts))
		c.Outcomes[fmt.Sprintf("characters with %d cases", len(orbit(r)))]++
		c.Do(fmt.Sprintf("%q", r), func() []string {
			for _, pat := range []string{"(?i)" + q, "(?i)[" + q + "]", "(?i)[^" + q + "]", "(?i)x" + q + "x", "(?i)" + q + "+$", "(?i)x(" + q + "|0)", "(?i)[0" + q + "-" + q + "]x", q, "[" + q + "]", "(?i)x(?-i:" + q + ")x"} {
				if b := same(c, "(?m)"+pat, texts); b != nil {
					return b
				}
			}
			return nil
		})
	}
}

// everyRange: classes between every two of the edges.
func everyRange(c *bx.Ctx) {
	es := edges(c.Bound)
	var texts []string
	for _, e := range es {
		for d := rune(-1); d <= 1; d++ {
			if r := e + d; r >= 0 && r <= unicode.MaxRune && !(0xd800 <= r && r <= 0xdfff) && r != '\n' {
				texts = append(texts, string(r))
			}
		}
	}
	for i, lo := range es {
		for j, hi := range es {
			if lo > hi || !c.Mine() || c.Over() {
				continue
			}
			c.States += int64(len(texts))
			c.Do(fmt.Sprintf("[%U-%U]", lo, hi), func() []string {
				cl := fmt.Sprintf(`\x{%x}-\x{%x}`, lo, hi)
				pats := []string{"^[" + cl + "]$", "^[^" + cl + "]$", "^(?i:[" + cl + "])$"}
				if (i+j)%3 == 0 {
					pats = append(pats, "^(?i:[^"+cl+"])$", fmt.Sprintf("^[a%s\\x{7ff}-\\x{801}]$", cl), "["+cl+"]?a")
				}
				for _, p := range pats {
					if b := same(c, "(?m)"+p, texts); b != nil {
						return b
					}
				}
				return nil
			})
			c.Outcomes["classes"]++
		}
	}
}

// foldQueries: candidate selection keeps every case variant.
func foldQueries(c *bx.Ctx) {
	rs := folding()
	for _, r := range rs {
		if !c.Mine() || c.Over() {
			continue
		}
		q := stdre.QuoteMeta(string(r))
		c.States++
		c.Outcomes[fmt.Sprintf("characters with %d cases", len(orbit(r)))]++
		c.Do(fmt.Sprintf("%q", r), func() []string {
			for _, f := range []string{"(?i)%s", "(?i)xx%s", "(?i)%sxx", "(?i)x%sx", "(?i)xyz%s", "(?i)%s%[1]s", "(?i)[%s]xy", "(?i)(%sxy|zzz)", "(?i)(%sa)+b", "(?i)xy%s?z"} {
				expr := ref.Expr(fmt.Sprintf(f, q), false, false)
				re, err := regexp.Compile(expr)
				if err != nil {
					return []string{err.Error()}
				}
				std := stdre.MustCompile(expr)
				qu := index.RegexpQuery(re.Syntax)
				for _, o := range orbit(r) {
					s := string(o)
					for _, t := range []string{s, "xx" + s, s + "xx", "x" + s + "x", "XX" + s, s + "XX", "X" + s + "X", "xyz" + s, s + string(r), string(r) + s, s + "xy", s + "a" + string(r) + "ab", "xy" + s + "z", "XYz"} {
						c.Transitions++
						if std.MatchString(t) && !evalQuery(qu, trigrams(t)) {
							return []string{fmt.Sprintf("pattern %q matches line %q, which the query %s leaves out", expr, t, qu)}
						}
					}
				}
			}
			return nil
		})
	}
}

func init() {
	bx.Register(&bx.Job{Name: "s03-runes", Desc: "every character against patterns about characters", Run: everyRune})
	bx.Register(&bx.Job{Name: "s03-folds", Desc: "every character with another case", Run: everyFold})
	bx.Register(&bx.Job{Name: "s03-ranges", Desc: "classes between every two edges of the encoding", Run: everyRange})
	bx.Register(&bx.Job{Name: "s02-folds", Desc: "candidate selection keeps every case variant", Run: foldQueries})
}
