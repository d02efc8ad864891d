// Package gen enumerates patterns and texts.
package gen

import "strings"

type Expr struct {
	S string
	P int // 0 alternation, 1 concatenation, 2 repetition, 3 atom
}

func (e Expr) at(p int) string {
	if e.P < p {
		return "(?:" + e.S + ")"
	}
	return e.S
}

type Grammar struct {
	Leaves   []string // atoms, or longer literals (see Lits)
	Lits     []string // several characters: concatenations
	Post     []string // repetition operators
	Wrap     []string // prefix of a group, e.g. "(", "(?i:"
	NoAlt    bool
	NoConcat bool
}

// Patterns gives every expression of at most n nodes, smallest first, without
// repetition of text.
func (g *Grammar) Patterns(n int) []string {
	lv := make([][]Expr, n+1)
	seen := map[string]bool{}
	var out []string
	add := func(k int, s string, p int) {
		if seen[s] {
			return
		}
		seen[s] = true
		lv[k] = append(lv[k], Expr{s, p})
		out = append(out, s)
	}
	for _, l := range g.Leaves {
		add(1, l, 3)
	}
	for _, l := range g.Lits {
		add(1, l, 1)
	}
	for k := 2; k <= n; k++ {
		for _, e := range lv[k-1] {
			for _, op := range g.Post {
				add(k, e.at(3)+op, 2)
			}
			for _, w := range g.Wrap {
				add(k, w+e.S+")", 3)
			}
		}
		for i := 1; i < k-1; i++ {
			for _, a := range lv[i] {
				for _, b := range lv[k-1-i] {
					if !g.NoConcat {
						add(k, a.at(1)+b.at(1), 1)
					}
					if !g.NoAlt {
						add(k, a.S+"|"+b.S, 0)
					}
				}
			}
		}
	}
	return out
}

// Strings gives every string over the letters of at most n letters.
func Strings(n int, letters ...string) []string {
	r := []string{""}
	last := r
	for i := 0; i < n; i++ {
		var next []string
		for _, s := range last {
			for _, l := range letters {
				next = append(next, s+l)
			}
		}
		r = append(r, next...)
		last = next
	}
	return r
}

// Lists gives every list of at most n items below k.
func Lists(n, k int) [][]int {
	r := [][]int{{}}
	last := r
	for i := 0; i < n; i++ {
		var next [][]int
		for _, s := range last {
			for l := 0; l < k; l++ {
				next = append(next, append(append([]int{}, s...), l))
			}
		}
		r = append(r, next...)
		last = next
	}
	return r
}

func Perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var r [][]int
	for _, p := range Perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int{}, p[:i]...)
			q = append(q, n-1)
			r = append(r, append(q, p[i:]...))
		}
	}
	return r
}

func Rep(s string, n int) string { return strings.Repeat(s, n) }
