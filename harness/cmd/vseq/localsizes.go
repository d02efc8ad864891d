package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/hound-search/hound/vcs"

	"hv/bx"
)

// ---- large files and many files in a watched directory --------------------------

// Every position of one changed byte in files of every size of a list, and every
// changed file among many: the revision tells each content from the others.
func runLocalSizes(c *bx.Ctx) {
	base := fresh(c)
	defer os.RemoveAll(base)
	pull := func(src string) (string, []string) {
		w, err := vcs.New("local", []byte(`{"watch-changes":true}`))
		bx.Must(err)
		vd := filepath.Join(base, "vcs-x")
		os.Remove(vd)
		rev, err := w.PullOrClone(vd, "file://"+src)
		c.Transitions++
		if err != nil {
			return "", []string{"it fails: " + err.Error()}
		}
		r2, err := w.Pull(vd)
		if err != nil || r2 != rev {
			return "", []string{fmt.Sprintf("pulled again it is %q (%v), before it was %q", r2, err, rev)}
		}
		return rev, nil
	}
	sizes := []int{1, 2, 511, 512, 4095, 4096, 4097, 32767, 32768, 32769, 65536, 65537, 1 << 20, 1<<20 + 1}
	if c.Bound > 1 {
		sizes = append(sizes, 3<<20+7, 10<<20, 32<<20+1)
	}
	if c.Bound > 3 {
		sizes = append(sizes, 64<<20, 64<<20+1, 300<<20)
	}
	for _, n := range sizes {
		if c.Over() {
			return
		}
		if !c.Mine() {
			continue
		}
		n := n
		c.States++
		c.Do(fmt.Sprintf("one file of %d bytes, changed at one place", n), func() []string {
			os.RemoveAll(base)
			src := filepath.Join(base, "src")
			text := []byte(strings.Repeat("0123456789abcde\n", n/16+1)[:n])
			bx.Must(os.MkdirAll(src, 0755))
			write := func() {
				bx.Must(os.WriteFile(filepath.Join(src, "a"), text, 0644))
				bx.Must(os.Chtimes(filepath.Join(src, "a"), t0, t0))
				bx.Must(os.Chtimes(src, t0, t0))
			}
			write()
			r0, bad := pull(src)
			if bad != nil {
				return bad
			}
			seen := map[string]string{r0: "unchanged"}
			note := func(what string) []string {
				r, bad := pull(src)
				if bad != nil {
					return bad
				}
				if o, ok := seen[r]; ok {
					return []string{fmt.Sprintf("revision %s for the file %s and %s", r, o, what)}
				}
				seen[r] = what
				return nil
			}
			at := map[int]bool{}
			for _, p := range []int{0, 1, 2, 510, 511, 512, 4095, 4096, 8191, 8192, 32767, 32768, 65535, 65536, 1<<20 - 1, 1 << 20, 2 << 20, 10<<20 - 1, n / 3, n / 2, n - 513, n - 2, n - 1} {
				if p < 0 || p >= n || at[p] {
					continue
				}
				at[p] = true
				text[p] ^= 'X'
				write()
				text[p] ^= 'X'
				if bad := note(fmt.Sprintf("changed at %d", p)); bad != nil {
					return bad
				}
			}
			text = append(text, '\n')
			write()
			if bad := note("longer by one"); bad != nil {
				return bad
			}
			text = append(text, 0)
			write()
			if bad := note("longer by two"); bad != nil {
				return bad
			}
			text = text[:n-1]
			write()
			if bad := note("shorter by one"); n > 1 && bad != nil {
				return bad
			}
			text = append(text, strings.Repeat("0123456789abcde\n", n/16+1)[n-1])
			write()
			if r, bad := pull(src); bad != nil || r != r0 {
				return append(bad, fmt.Sprintf("as at first again, the revision is %s and was %s", r, r0))
			}
			return nil
		})
	}
	counts := []int{0, 1, 2, 15, 16, 17, 255, 256, 257, 1000, 1001}
	if c.Bound > 3 {
		counts = append(counts, 10000, 40000)
	}
	for _, n := range counts {
		for _, shape := range []string{"flat", "hundreds", "deep"} {
			if c.Over() {
				return
			}
			if !c.Mine() || shape == "deep" && n > 300 {
				continue
			}
			n, shape := n, shape
			c.States++
			c.Do(fmt.Sprintf("%d files (%s), one of them changed", n, shape), func() []string {
				os.RemoveAll(base)
				src := filepath.Join(base, "src")
				bx.Must(os.MkdirAll(src, 0755))
				name := func(i int) string {
					switch shape {
					case "flat":
						return fmt.Sprintf("f%d", i)
					case "hundreds":
						return fmt.Sprintf("d%d/f%d", i/100, i%100)
					}
					return strings.Repeat("d/", i) + "f"
				}
				put := func(i int, text string) { writeTree(src, []file{{name(i), text}}) }
				for i := 0; i < n; i++ {
					put(i, "x\n")
				}
				r0, bad := pull(src)
				if bad != nil {
					return bad
				}
				seen := map[string]string{r0: "unchanged"}
				done := map[int]bool{}
				for _, i := range []int{0, 1, 9, 10, 99, 100, 199, 254, 255, 256, 998, n / 2, n - 2, n - 1} {
					if i < 0 || i >= n || done[i] {
						continue
					}
					done[i] = true
					for _, how := range []string{"changed", "renamed", "removed"} {
						p := filepath.Join(src, name(i))
						switch how {
						case "changed":
							put(i, "y\n")
						case "renamed":
							bx.Must(os.Rename(p, p+"z"))
						case "removed":
							bx.Must(os.Remove(p))
						}
						r, bad := pull(src)
						if bad != nil {
							return bad
						}
						os.Remove(p + "z")
						put(i, "x\n")
						what := fmt.Sprintf("file %d %s", i, how)
						if o, ok := seen[r]; ok {
							return []string{fmt.Sprintf("revision %s with %s and with %s", r, o, what)}
						}
						seen[r] = what
					}
				}
				put(n, "x\n")
				r, bad := pull(src)
				if bad != nil {
					return bad
				}
				if o, ok := seen[r]; ok {
					return []string{fmt.Sprintf("revision %s with %s and with one file more", r, o)}
				}
				bx.Must(os.Remove(filepath.Join(src, name(n))))
				if r, bad := pull(src); bad != nil || r != r0 {
					return append(bad, fmt.Sprintf("as at first again, the revision is %s and was %s", r, r0))
				}
				return nil
			})
		}
	}
	c.Outcome("pulled")
}

func init() {
	bx.Register(&bx.Job{Name: "v02-sizes", Desc: "large and many files in a local directory", Run: runLocalSizes})
}
