package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/vcs"

	"hv/bx"
)

// ---- files git marks as auto-generated --------------------------------------------

type attr struct {
	text string
	val  int // 1 generated, 0 not, 2 says nothing about it
}

var attrs = []attr{{"linguist-generated", 1}, {"linguist-generated=true", 1}, {"-linguist-generated", 0}, {"linguist-generated=false", 0}, {"!linguist-generated", 0},
	{"linguist-vendored=true", 2}, {"linguist-generated=true linguist-vendored", 1}, {"text -linguist-generated eol=lf", 0}, {"xlinguist-generated linguist-generatedx=true", 2},
	{"linguist-generated=no", 0}, {"linguist-generated=0", 0}, {"linguist-generated=trueish", 0}}

type gpat struct {
	text string
	has  func(n string) bool // n relative to the directory of the file
}

func exact(n string) func(string) bool { return func(x string) bool { return x == n } }

var gpats = []gpat{
	{"*", func(string) bool { return true }},
	{"/a.go", exact("a.go")},
	{"*.go", func(n string) bool { return strings.HasSuffix(n, ".go") }},
	{"d/*.go", func(n string) bool { return filepath.Dir(n) == "d" && strings.HasSuffix(n, ".go") }},
	{`"sp ace"`, func(n string) bool { return filepath.Base(n) == "sp ace" }},
	{`"q\"\\\\uote"`, exact(`q"\uote`)},
	{"\u00fc", exact("\u00fc")},
	{"\\-x", exact("-x")},
	{"d/e/**", func(n string) bool { return strings.HasPrefix(n, "d/e/") }},
	{"nothing/here", func(string) bool { return false }},
	{"nl", exact("no such")},
}

var gfiles = []string{"a.go", "d/b.go", "d/e/c.go", "sp ace", "d/sp ace", `q"\uote`, "\u00fc", "-x", "d/e/.h", "plain", "t\tab", ".x.go", "d/.y.go", "lat\xe9.go"}

type gline struct{ p, a int }

func (l gline) String() string { return gpats[l.p].text + " " + attrs[l.a].text }

// marked: the last line that says something decides; a file deeper in the tree over
// one above.
func marked(root, deep []gline) []string {
	var out []string
	for _, n := range gfiles {
		val := 0
		eval := func(ls []gline, rel string) bool {
			for i := len(ls) - 1; i >= 0; i-- {
				if gpats[ls[i].p].has(rel) && attrs[ls[i].a].val != 2 {
					val = attrs[ls[i].a].val
					return true
				}
			}
			return false
		}
		if !(strings.HasPrefix(n, "d/") && eval(deep, n[2:])) {
			eval(root, n)
		}
		if val == 1 {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

func attrText(ls []gline) string {
	var sb strings.Builder
	for _, l := range ls {
		sb.WriteString(l.String() + "\n")
	}
	return sb.String()
}

func runAttrs(c *bx.Ctx) {
	gitEnv(c)
	rdir, wd := filepath.Join(c.Dir, "r.git"), filepath.Join(c.Dir, "vcs-1")
	git(c.Dir, nil, "init", "--quiet", "--bare", rdir)
	t := map[string]gfile{".gitattributes": {"644", ""}, "d/.gitattributes": {"644", ""}}
	for _, n := range gfiles {
		if strings.Contains(n, "\t") {
			continue // added below
		}
		t[n] = gfile{"644", "needle\n"}
	}
	t["t\tab"] = gfile{"644", "needle\n"}
	shas := fastImport(rdir, []map[string]gfile{t}, [][]int{{}})
	git(rdir, nil, "update-ref", "refs/heads/master", shas[0])
	bx.Must(os.WriteFile(filepath.Join(rdir, "HEAD"), []byte("ref: refs/heads/master\n"), 0644))
	drv, err := vcs.New("git", nil)
	bx.Must(err)
	_, err = drv.PullOrClone(wd, "file://"+rdir)
	bx.Must(err)
	seen := map[string]bool{}
	one := func(root, deep []gline) {
		c.States++
		c.Do(fmt.Sprintf(".gitattributes %q, d/.gitattributes %q", attrText(root), attrText(deep)), func() []string {
			bx.Must(os.WriteFile(filepath.Join(wd, ".gitattributes"), []byte(attrText(root)), 0644))
			bx.Must(os.WriteFile(filepath.Join(wd, "d", ".gitattributes"), []byte(attrText(deep)), 0644))
			c.Transitions++
			var got []string
			for _, n := range drv.AutoGeneratedFiles(wd) {
				if filepath.Base(n) != ".gitattributes" {
					got = append(got, n)
				}
			}
			sort.Strings(got)
			want := marked(root, deep)
			c.Outcome(fmt.Sprintf("%d files marked", len(want)))
			if strings.Join(got, "\x00") != strings.Join(want, "\x00") {
				return []string{fmt.Sprintf("files said to be auto-generated are %q, expected %q", got, want)}
			}
			k := strings.Join(got, "\x00")
			if seen[k] {
				return nil
			}
			dst := fresh(c)
			defer os.RemoveAll(dst)
			r, err := index.Build(&index.IndexOptions{SpecialFiles: drv.SpecialFiles(), AutoGeneratedFiles: got}, dst, wd, "u", "r")
			if err != nil {
				return []string{err.Error()}
			}
			for _, open := range []func() (*index.Index, error){r.Open, func() (*index.Index, error) { return index.Open(dst) }} {
				ix, err := open()
				if err != nil {
					return []string{err.Error()}
				}
				defer ix.Close()
				res, err := ix.Search("needle", &index.SearchOptions{})
				if err != nil {
					return []string{err.Error()}
				}
				var fl []string
				for _, f := range res.Matches {
					if f.AutoGenerated {
						fl = append(fl, f.Filename)
					}
				}
				sort.Strings(fl)
				if len(res.Matches) != len(gfiles) || strings.Join(fl, "\x00") != k {
					return []string{fmt.Sprintf("files flagged are %q of %d, expected %q of %d", fl, len(res.Matches), got, len(gfiles))}
				}
			}
			seen[k] = true
			return nil
		})
	}
	var lines []gline
	for p := range gpats {
		for a := range attrs {
			lines = append(lines, gline{p, a})
		}
	}
	deeps := [][]gline{nil, {{0, 2}}, {{2, 0}}}
	for _, a := range lines {
		if c.Over() {
			return
		}
		if !c.Mine() {
			continue
		}
		for _, d := range deeps {
			one([]gline{a}, d)
		}
		one(nil, []gline{a})
		if c.Bound < 2 {
			continue
		}
		for _, b := range lines {
			if c.Over() {
				return
			}
			if c.Bound < 3 && b.a%3 != a.a%3 {
				continue
			}
			one([]gline{a, b}, nil)
			if c.Bound > 2 {
				one([]gline{a}, []gline{b})
			}
		}
	}
	// more names than fit into any pipe
	if c.Mine() {
		c.States++
		c.Do("4000 files, every second one marked", func() []string {
			big := filepath.Join(c.Dir, "big")
			os.RemoveAll(big)
			git(c.Dir, nil, "init", "--quiet", big)
			var want []string
			for i := 0; i < 4000; i++ {
				n := fmt.Sprintf("file-with-a-rather-long-name-to-fill-the-pipe-%04d.%d", i, i%2)
				bx.Must(os.WriteFile(filepath.Join(big, n), nil, 0644))
				if i%2 == 1 {
					want = append(want, n)
				}
			}
			bx.Must(os.WriteFile(filepath.Join(big, ".gitattributes"), []byte("*.1 linguist-generated\n"), 0644))
			git(big, nil, "add", "-A")
			c.Transitions++
			got, err, ok := withTimeout(func() (string, error) {
				l := append([]string{}, drv.AutoGeneratedFiles(big)...)
				sort.Strings(l)
				return strings.Join(l, "\n"), nil
			})
			if !ok || err != nil {
				return []string{"it does not return"}
			}
			if got != strings.Join(want, "\n") {
				return []string{fmt.Sprintf("%d files are said to be auto-generated, expected %d", strings.Count(got, "\n")+1, len(want))}
			}
			return nil
		})
		// not a repository: no files, no failure
		c.Do("not a git repository", func() []string {
			p := filepath.Join(c.Dir, "plain")
			bx.Must(os.MkdirAll(p, 0755))
			if l := drv.AutoGeneratedFiles(p); len(l) > 0 {
				return []string{fmt.Sprintf("files said to be auto-generated are %q", l)}
			}
			return nil
		})
	}
	c.Sample(fmt.Sprintf("%d lines, %d files", len(lines), len(gfiles)))
}

func init() {
	bx.Register(&bx.Job{Name: "v04-git", Desc: "git attributes that mark files as auto-generated", Run: runAttrs})
}
