package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"unicode/utf8"

	"github.com/hound-search/hound/index"

	"hv/bx"
	"hv/gen"
	"hv/ref"
)

// entry of a tree to be indexed
type entry struct {
	name string
	kind byte // f file, d directory, l link to file, L link to directory, x dangling link, p fifo, s socket
	text string
	sub  []entry
	mode os.FileMode // 0: as usual
}

func put(dir string, es []entry) {
	for _, e := range es {
		p := filepath.Join(dir, e.name)
		switch e.kind {
		case 'f':
			bx.Must(os.WriteFile(p, []byte(e.text), 0644))
			if e.mode != 0 {
				bx.Must(os.Chmod(p, e.mode))
			}
		case 'd':
			bx.Must(os.Mkdir(p, 0755))
			put(p, e.sub)
			if e.mode != 0 {
				bx.Must(os.Chmod(p, e.mode))
			}
		case 'l':
			bx.Must(os.Symlink("/etc/hostname", p))
		case 'L':
			bx.Must(os.Symlink("..", p))
		case 'x':
			bx.Must(os.Symlink("nothing-here", p))
		case 'p':
			bx.Must(syscall.Mkfifo(p, 0644))
		case 's':
			fd, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
			bx.Must(err)
			bx.Must(syscall.Bind(fd, &syscall.SockaddrUnix{Name: p}))
			syscall.Close(fd)
		}
	}
}

func desc(es []entry) string {
	var o []string
	for _, e := range es {
		s := string(e.kind) + ":" + e.name
		if e.kind == 'f' {
			s += fmt.Sprintf("=%q", clip(e.text))
		}
		if e.kind == 'd' {
			s += "{" + desc(e.sub) + "}"
		}
		o = append(o, s)
	}
	return strings.Join(o, " ")
}

type verdict struct {
	files    []file            // may be searchable
	must     map[string]bool   // must be searchable
	excluded map[string]string // must be excluded, with this reason ("" any)
}

const (
	rDot  = "Dot files are excluded."
	rMode = "Invalid file mode."
	rText = "Not a text file."
)

// judgeTree is the reference: what belongs where.
func judgeTree(v *verdict, pre string, es []entry, opt *index.IndexOptions) {
	for _, e := range es {
		rel := pre + e.name
		special := false
		for _, s := range opt.SpecialFiles {
			special = special || s == e.name
		}
		if special {
			continue
		}
		dot := opt.ExcludeDotFiles && e.name[0] == '.'
		switch {
		case e.kind == 'd':
			if !dot {
				judgeTree(v, rel+"/", e.sub, opt)
			}
		case dot:
			v.excluded[rel] = rDot
		case e.kind != 'f':
			v.excluded[rel] = rMode
		default:
			v.files = append(v.files, file{rel, e.text})
			if plain(e.text) {
				v.must[rel] = true
			}
			if !utf8.ValidString(e.text) && len(e.text) < 2048 {
				v.excluded[rel] = rText
			}
		}
	}
}

// limits says which limits of what is indexed a text goes over.
func limits(s string) []string {
	var o []string
	if !utf8.ValidString(s) {
		o = append(o, "utf", "text file")
	}
	if len(s) > 1<<25 {
		o = append(o, "too long")
	}
	long, lines, from := 0, 0, 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			lines++
			if i+1-from > 2000 {
				long++
			}
			from = i + 1
		}
	}
	if long*10 > lines {
		o = append(o, "long lines")
	}
	if len(s) > 20000 {
		t := map[uint32]bool{}
		for i := 0; i+3 <= len(s) && (len(t) <= 20000 || len(t)*10 <= len(s)); i++ {
			t[uint32(s[i])<<16|uint32(s[i+1])<<8|uint32(s[i+2])] = true
		}
		if len(t) > 20000 && len(t)*10 > len(s) {
			o = append(o, "trigram")
		}
	}
	return o
}

// plain says whether a text is within every limit of what is indexed.
func plain(s string) bool { return len(limits(s)) == 0 }

// holds says whether the reason given for excluding a text holds for it.
func holds(reason, s string) bool {
	l := limits(s)
	reason = strings.ToLower(reason)
	for _, w := range []string{"utf", "text file", "too long", "long lines", "trigram"} {
		if strings.Contains(reason, w) {
			for _, x := range l {
				if x == w {
					return true
				}
			}
			return false
		}
	}
	return len(l) > 0
}

// checkTree indexes the tree at src and compares with the verdict.
func checkTree(c *bx.Ctx, src string, v *verdict, opt *index.IndexOptions) []string {
	dst := fresh(c)
	defer os.RemoveAll(dst)
	c.Transitions++
	r, err := index.Build(opt, dst, src, "u", "r")
	if err != nil {
		return []string{"the tree cannot be indexed: " + err.Error()}
	}
	ix, err := r.Open()
	if err != nil {
		return []string{err.Error()}
	}
	defer ix.Close()
	b, err := os.ReadFile(filepath.Join(dst, "excluded_files.json"))
	if err != nil {
		return []string{err.Error()}
	}
	var list []index.ExcludedFile
	if err := json.Unmarshal(b, &list); err != nil {
		return []string{"excluded files: " + err.Error()}
	}
	ex := map[string]string{}
	for _, e := range list {
		if _, dup := ex[e.Filename]; dup {
			return []string{"listed twice as excluded: " + e.Filename}
		}
		if e.Reason == "" {
			return []string{"excluded without reason: " + e.Filename}
		}
		ex[e.Filename] = e.Reason
	}
	all, err := ix.Search("^", &index.SearchOptions{})
	if err != nil {
		return []string{err.Error()}
	}
	got := map[string]*index.FileMatch{}
	for _, m := range all.Matches {
		if got[m.Filename] != nil {
			return []string{"searchable twice: " + m.Filename}
		}
		got[m.Filename] = m
	}
	known := map[string]bool{}
	for n, why := range v.excluded {
		known[n] = true
		if ex[n] == "" || why != "" && ex[n] != why {
			return []string{fmt.Sprintf("%q must be excluded (%s), listed: %q", n, why, ex[n])}
		}
	}
	open := 0
	for _, f := range v.files {
		known[f.name] = true
		if ex[f.name] != "" {
			if v.must[f.name] {
				return []string{fmt.Sprintf("plain text file %q excluded: %s", f.name, ex[f.name])}
			}
			if !holds(ex[f.name], f.text) {
				return []string{fmt.Sprintf("file %q excluded for what is not so: %s", f.name, ex[f.name])}
			}
			c.Outcomes["excluded: "+strings.SplitN(ex[f.name], ",", 2)[0]]++
			if got[f.name] != nil {
				return []string{"both searchable and excluded: " + f.name}
			}
			continue
		}
		open++
		c.Outcomes["searchable"]++
		ls := ref.Lines(f.text)
		var have []string
		if m := got[f.name]; m != nil {
			for i, x := range m.Matches {
				if x.LineNumber != i+1 {
					return []string{fmt.Sprintf("file %q: line %d reported as %d", f.name, i+1, x.LineNumber)}
				}
				have = append(have, x.Line)
			}
		}
		if !sameLines(have, ls) {
			return []string{fmt.Sprintf("file %q: searchable lines %s, content %s", f.name, clip(fmt.Sprintf("%q", have)), clip(fmt.Sprintf("%q", ls)))}
		}
	}
	if all.FilesOpened != open {
		return []string{fmt.Sprintf("%d files can be searched, %d expected", all.FilesOpened, open)}
	}
	for n := range ex {
		if !known[n] {
			return []string{fmt.Sprintf("listed as excluded but not to be there: %q (%s)", n, ex[n])}
		}
	}
	for n := range got {
		if !known[n] {
			return []string{fmt.Sprintf("searchable but not to be there: %q", n)}
		}
	}
	// what a search finds it finds in the full content: the last line of each file
	for i, f := range v.files {
		if i > 20 && i%(len(v.files)/20) != 0 {
			continue // of many files a few are enough
		}
		ls := ref.Lines(f.text)
		if ex[f.name] != "" || len(ls) == 0 || len(ls[len(ls)-1]) < 3 {
			continue
		}
		last := ls[len(ls)-1]
		if len(last) > 40 {
			last = last[len(last)-40:]
			for len(last) > 0 && !utf8.RuneStart(last[0]) {
				last = last[1:]
			}
		}
		if !utf8.ValidString(last) {
			continue
		}
		res, err := ix.Search(last, &index.SearchOptions{LiteralSearch: true})
		c.Transitions++
		if err != nil {
			return []string{err.Error()}
		}
		found := false
		for _, m := range res.Matches {
			for _, x := range m.Matches {
				found = found || m.Filename == f.name && x.LineNumber == len(ls)
			}
		}
		if !found {
			return []string{fmt.Sprintf("the last line of %q is not found by searching %q", f.name, last)}
		}
	}
	return nil
}

var treeOpts = []*index.IndexOptions{
	{}, {ExcludeDotFiles: true}, {SpecialFiles: []string{".git", "d/in", "deep/er/still", "", "PLAIN"}}, {ExcludeDotFiles: true, SpecialFiles: []string{".git", "special", "Thumbs.db"}}, {SpecialFiles: []string{"special"}},
}

func shapes() []entry {
	t := "plain text\nof two lines\n"
	return []entry{
		{name: "plain", kind: 'f', text: t},
		{name: "empty", kind: 'f'},
		{name: "bin", kind: 'f', text: "\x89PNG\xff\xfe"},
		{name: ".dot", kind: 'f', text: "dotted\n"},
		{name: ".dotbin", kind: 'f', text: "\xff"},
		{name: "special", kind: 'f', text: "a special file\n"},
		{name: "special2", kind: 'f', text: "not special\n", mode: 0711 | os.ModeSetuid},
		{name: "link", kind: 'l'},
		{name: "dirlink", kind: 'L'},
		{name: "dangling", kind: 'x'},
		{name: ".hidlink", kind: 'x'},
		{name: "fifo", kind: 'p'},
		{name: "sock", kind: 's'},
		{name: "d", kind: 'd', sub: []entry{{name: "in", kind: 'f', text: "inside\n", mode: 0755 | os.ModeSetgid}}, mode: 0777 | os.ModeSticky},
		{name: "d.e", kind: 'd', sub: []entry{{name: ".hid", kind: 'f', text: "hid\n"}, {name: "special", kind: 'f', text: "sp\n"}, {name: "vis", kind: 'f', text: "vis\n"}}},
		{name: ".git", kind: 'd', sub: []entry{{name: "config", kind: 'f', text: "secret\n"}}},
		{name: ".h", kind: 'd', sub: []entry{{name: "x", kind: 'f', text: "in dot dir\n"}, {name: "y", kind: 'x'}}},
		{name: "deep", kind: 'd', sub: []entry{{name: "er", kind: 'd', sub: []entry{{name: ".git", kind: 'd', sub: []entry{{name: "z", kind: 'f', text: "zzz\n"}}}, {name: "still", kind: 'f', text: "still\n"}, {name: "lnk", kind: 'l'}}}}},
		{name: "hollow", kind: 'd'},
		{name: "n", kind: 'd', sub: []entry{{name: "late", kind: 'f', text: strings.Repeat("text\n", 900) + "\xff"}}},
		{name: "Thumbs.db", kind: 'd', sub: []entry{{name: "q", kind: 'f', text: "qqq\n"}}},
		{name: "na\nme", kind: 'f', text: "newline name\n"},
		{name: "quo\"te<", kind: 'f', text: "quoted name\n"},
		{name: "\xff\xfe", kind: 'f', text: "invalid name\n"},
		{name: "-", kind: 'f', text: "dash\n", mode: 0100},
		{name: ".github", kind: 'd', sub: []entry{{name: "flow", kind: 'f', text: "flow\n"}, {name: ".gitkeep", kind: 'f', text: "kept\n"}}},
		{name: ".gitignore", kind: 'f', text: "ignored\n"},
		{name: "a.git", kind: 'd', sub: []entry{{name: "...", kind: 'f', text: "dots\n"}, {name: "..data", kind: 'd', sub: []entry{{name: "special.txt", kind: 'f', text: "data\n"}}}}},
	}
}

// many: trees of one kind of entry, and of all of them, of every size of a list.
func many(c *bx.Ctx) {
	kinds := []func(i int) entry{
		func(i int) entry {
			return entry{name: fmt.Sprintf("f%d", i), kind: 'f', text: fmt.Sprintf("file %d\n", i)}
		},
		func(i int) entry { return entry{name: fmt.Sprintf(".d%d", i), kind: 'f', text: "dot\n"} },
		func(i int) entry { return entry{name: fmt.Sprintf("b%d", i), kind: 'f', text: "\xff"} },
		func(i int) entry { return entry{name: fmt.Sprintf("l%d", i), kind: 'x'} },
		func(i int) entry {
			return entry{name: fmt.Sprintf("s%d", i), kind: 'd', sub: []entry{{name: "special", kind: 'f', text: "sp\n"}, {name: "in", kind: 'f', text: fmt.Sprintf("in %d\n", i)}}}
		},
		func(i int) entry {
			return entry{name: fmt.Sprintf(".h%d", i), kind: 'd', sub: []entry{{name: "in", kind: 'f', text: "hid\n"}}}
		},
		// a chain of directories
		func(i int) entry {
			e := entry{name: "end", kind: 'f', text: fmt.Sprintf("depth %d\n", i)}
			for k := 0; k < i%90; k++ {
				e = entry{name: fmt.Sprintf("c%d", i), kind: 'd', sub: []entry{e, {name: "at", kind: 'f', text: "at\n"}}}
			}
			return e
		},
	}
	sizes := [5][]int{nil, {5, 65}, {5, 10, 17, 33, 65, 129, 257, 1030}, {5, 10, 17, 33, 65, 129, 257, 1030}, {5, 9, 10, 11, 17, 33, 65, 100, 129, 257, 513, 1030, 2050}}[c.Bound]
	for mask := 1; mask < 1<<uint(len(kinds)); mask++ {
		if mask&(mask-1) != 0 && mask != 1<<uint(len(kinds))-1 && c.Bound < 4 {
			continue
		}
		for _, n := range sizes {
			for oi, opt := range treeOpts[:4] {
				if !c.Mine() || c.Over() {
					continue
				}
				c.States++
				var es []entry
				for k, f := range kinds {
					if mask>>uint(k)&1 == 0 {
						continue
					}
					m := n
					if k == len(kinds)-1 {
						es = append(es, f(min(n, 89)))
						continue
					}
					for i := 0; i < m; i++ {
						es = append(es, f(i))
					}
				}
				c.Do(fmt.Sprintf("kinds %b, %d of each, options %d", mask, n, oi), func() []string {
					src := fresh(c)
					bx.Must(os.Mkdir(src, 0755))
					defer os.RemoveAll(src)
					put(src, es)
					v := &verdict{must: map[string]bool{}, excluded: map[string]string{}}
					judgeTree(v, "", es, opt)
					return checkTree(c, src, v, opt)
				})
			}
		}
	}
}

// nameTrees: every pair of names that something could take for the same one, as files side by
// side, and every path of two of them beside the names that could stand for it.
func nameTrees(c *bx.Ctx) {
	long := strings.Repeat("l", 250)
	l := []string{"n", "N", "n.gz", "n.GZ", "n.gz.gz", "n~", "n.tmp", "n.1", "n.txt", "n.md", "nn", " n", "n ", "n.", "n_", "n-", "n%2F", "n\\", "n:", "n;", "n'", "n\"", "n\t", "n\r", "n\n",
		"\u00e9", "e\u0301", "\u00c9", "\u017f", "s", "S", "k", "K", "\u212a", "\u0130", "i", "\u0131", "raw", "tri", "metadata.gob", "excluded_files.json", long + "a", long + "b", long,
		"\x01", "*", "?", "[n]", "{n}", "..n", "n..", "...", "~", "$n", "#n", "!n", "%n", "%s", "&amp;", "&", "n,m", "a=b", "\xe9", "\xe8", "\ufffd"}
	with := func(es []entry, opt *index.IndexOptions) {
		if !c.Mine() || c.Over() {
			return
		}
		c.States++
		c.DoKey(func() string { return fmt.Sprintf("special %q, %s", opt.SpecialFiles, desc(es)) }, func() (string, []string) {
			src := fresh(c)
			bx.Must(os.Mkdir(src, 0755))
			defer os.RemoveAll(src)
			put(src, es)
			v := &verdict{must: map[string]bool{}, excluded: map[string]string{}}
			judgeTree(v, "", es, opt)
			return "", checkTree(c, src, v, opt)
		})
	}
	run := func(es []entry) { with(es, treeOpts[0]) }
	f := func(name, text string) entry { return entry{name: name, kind: 'f', text: text} }
	for i, a := range l {
		for j, b := range l {
			if i < j {
				run([]entry{f(a, "the first\n"), f(b, "one more\n")})
			}
			es := []entry{{name: a, kind: 'd', sub: []entry{f(b, "deeper\n")}}}
			have := map[string]bool{a: true}
			for k, sep := range []string{"", "_", "-", "%2F", "\\", ".", "__", "%2f", "::", ":", " ", "+", "\u2215", "!"} {
				if n := a + sep + b; len(n) < 256 && !have[n] {
					have[n] = true
					es = append(es, f(n, fmt.Sprintf("joined %d\n", k)))
				}
			}
			run(es)
		}
	}
	// names much like a special one
	for _, sp := range []string{".git", "special", "Thumbs.db", "*", ".*", "a?", "[a]", "^a$", "a b", "S"} {
		alike := []string{sp + " ", " " + sp, sp + "\n", "\t" + sp, "\u00a0" + sp, sp + "\u00a0", "\u200b" + sp, sp + ".", "." + sp, sp + "~", sp + "x", "x" + sp, sp + ".txt", sp + "/x", "x/" + sp + "x", sp[1:], sp[:len(sp)-1], sp + sp, strings.ToUpper(sp), strings.ToLower(sp), strings.Title(sp),
			"ab", "a", "bax", "\u017fpecial", "spec\u0131al", "special\xff", strings.TrimSuffix(sp, filepath.Ext(sp)), strings.TrimPrefix(sp, "."), sp + ":", sp + ";1", sp + "\\x", "%2e" + strings.TrimPrefix(sp, "."), "x" + sp + "/y", sp}
		for _, opt := range []*index.IndexOptions{{SpecialFiles: []string{sp}}, {SpecialFiles: []string{"other", sp, "more"}}, {SpecialFiles: []string{sp}, ExcludeDotFiles: true}} {
			have := map[string]bool{"": true, ".": true, "..": true}
			for _, n := range alike {
				if have[n] {
					continue
				}
				have[n] = true
				if d, b, ok := strings.Cut(n, "/"); ok {
					with([]entry{{name: d, kind: 'd', sub: []entry{f(b, "below\n"), f("beside", "beside\n")}}}, opt)
					continue
				}
				with([]entry{f(n, "alike\n")}, opt)
				with([]entry{{name: n, kind: 'd', sub: []entry{f("in", "within\n"), f(sp, "the special one\n")}}}, opt)
				with([]entry{f("zz", "beside\n"), {name: "a0", kind: 'd', sub: []entry{f(n, "alike\n"), {name: "d", kind: 'd', sub: []entry{f(n, "deep\n")}}}}}, opt)
			}
		}
	}
}

// trees: every set of entries, every option.
func trees(c *bx.Ctx) {
	pool := shapes()
	n := [5]int{1, 2, 3, 4, 5}[c.Bound]
	var rec func(i int, have []entry)
	rec = func(i int, have []entry) {
		for oi, opt := range treeOpts {
			if !c.Mine() || c.Over() {
				continue
			}
			c.States++
			hv := append([]entry{}, have...)
			c.DoKey(func() string { return fmt.Sprintf("options %d, %s", oi, desc(hv)) }, func() (string, []string) {
				src := fresh(c)
				bx.Must(os.Mkdir(src, 0755))
				defer os.RemoveAll(src)
				put(src, hv)
				before := listing(src)
				v := &verdict{must: map[string]bool{}, excluded: map[string]string{}}
				judgeTree(v, "", hv, opt)
				bad := checkTree(c, src, v, opt)
				if bad == nil && listing(src) != before {
					bad = []string{"indexing changed the tree: " + firstDiff(listing(src), before)}
				}
				return "", bad
			})
		}
		if len(have) == n {
			return
		}
		for j := i; j < len(pool); j++ {
			rec(j+1, append(have, pool[j]))
		}
	}
	rec(0, nil)
}

func listing(dir string) string {
	var o []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		bx.Must(err)
		o = append(o, fmt.Sprint(p, fi.Mode(), fi.Size(), fi.ModTime().UnixNano()))
		return nil
	})
	return strings.Join(o, "\n")
}

// roots: the tree itself under every kind of name and reached in every way.
func roots(c *bx.Ctx) {
	es := []entry{{name: "a", kind: 'f', text: "aaa\n"}, {name: ".b", kind: 'f', text: "bbb\n"}, {name: "d", kind: 'd', sub: []entry{{name: "c", kind: 'f', text: "ccc\n"}}}}
	for _, name := range []string{"plain", ".hidden", "special", ".git", ".github", "with space", "a", "..."} {
		for _, how := range []string{"itself", "link", "link to a link", "relative link", "slash", "dot", "parent link", "deep link"} {
			for oi, opt := range treeOpts {
				for pre := 0; pre < 2; pre++ {
					if !c.Mine() || c.Over() {
						continue
					}
					c.States++
					c.Do(fmt.Sprintf("tree named %q reached by %s, options %d, destination exists %v", name, how, oi, pre == 1), func() []string {
						top := fresh(c)
						root := filepath.Join(top, name)
						bx.Must(os.MkdirAll(root, 0755))
						defer os.RemoveAll(top)
						put(root, es)
						src := root
						switch how {
						case "link":
							src = filepath.Join(top, "vcs-1")
							bx.Must(os.Symlink(root, src))
						case "link to a link":
							bx.Must(os.Symlink(root, filepath.Join(top, "l1")))
							src = filepath.Join(top, "vcs-1")
							bx.Must(os.Symlink(filepath.Join(top, "l1"), src))
						case "relative link":
							src = filepath.Join(top, "vcs-1")
							bx.Must(os.Symlink(name, src))
						case "slash":
							src = root + "/"
						case "dot":
							src = root + "/."
						case "parent link":
							bx.Must(os.Symlink(top, filepath.Join(top, "up")))
							src = filepath.Join(top, "up", name)
						case "deep link":
							bx.Must(os.Symlink(root+"/", filepath.Join(top, "vcs-1")))
							src = filepath.Join(top, "vcs-1")
						}
						v := &verdict{must: map[string]bool{}, excluded: map[string]string{}}
						judgeTree(v, "", es, opt)
						return checkTree(c, src, v, opt)
					})
				}
			}
		}
	}
}

// contents: files of every length and content around the limits.
func contents(c *bx.Ctx) {
	var l []string
	add := func(s ...string) { l = append(l, s...) }
	// every short byte string over these bytes
	add(gen.Strings([5]int{2, 3, 3, 4, 5}[c.Bound], "a", "\n", "\x00", "\x7f", "\x80", "\xc3", "\xa9", "\xe4", "\xb8", "\xf0", "\xff")...)
	// a multi-byte character across the end of what is looked at
	for _, ch := range []string{"é", "世", "😀", "\xc3", "\xff", "\xe4\xb8", "\xa9"} {
		for _, edge := range []int{2048, 16384, 32768} {
			for d := -5; d <= 2; d++ {
				for _, tail := range []int{0, 1, 5000} {
					add(gen.Rep("abcdefg hi\n", edge/11+2)[:edge+d] + ch + gen.Rep("tail of the file\n", tail/17+1)[:tail])
				}
			}
		}
	}
	// long lines: their number against the number of all lines
	w := [5]int{3, 6, 12, 22, 33}[c.Bound]
	for n := 0; n <= w; n++ {
		for k := 0; k <= n && k <= 4; k++ {
			for _, ll := range []int{1998, 1999, 2000, 2001} {
				for _, end := range []string{"", "last", gen.Rep("z", 3000)} {
					add(gen.Rep(gen.Rep("y", ll)+"\n", k) + gen.Rep("short\n", n-k) + end)
				}
			}
		}
	}
	// many distinct trigrams
	for _, k := range []int{100, 4095, 4096, 4097, 8192, 19998, 19999, 20000, 20001, 20002, 20003, 20500} {
		add(distinct(k), distinct(k)+gen.Rep("padding padding\n", 20000))
	}
	for _, s := range l {
		if !c.Mine() || c.Over() {
			continue
		}
		c.States++
		c.DoKey(func() string { return fmt.Sprintf("file of %d bytes %q", len(s), clip(s)) }, func() (string, []string) {
			src := fresh(c)
			bx.Must(os.Mkdir(src, 0755))
			defer os.RemoveAll(src)
			es := []entry{{name: "a", kind: 'f', text: "before\n"}, {name: "b", kind: 'f', text: s}, {name: "c", kind: 'f', text: "after\n"}}
			put(src, es)
			v := &verdict{must: map[string]bool{}, excluded: map[string]string{}}
			judgeTree(v, "", es, treeOpts[0])
			return "", checkTree(c, src, v, treeOpts[0])
		})
	}
}

// huge: the length limit; one line that is most of the file.
func huge(c *bx.Ctx) {
	for _, n := range []int{1 << 16, 1 << 18, 1 << 20, 1<<20 + 1, 3 << 20, 1 << 23, 1<<24 + 1, 1<<25 - 100, 1<<25 - 1, 1 << 25, 1<<25 + 1, 1<<25 + 20000} {
		for _, line := range []bool{false, true} {
			if !c.Mine() || c.Over() {
				continue
			}
			c.States++
			c.Do(fmt.Sprintf("file of %d bytes, one line %v", n, line), func() []string {
				src := fresh(c)
				bx.Must(os.Mkdir(src, 0755))
				defer os.RemoveAll(src)
				s := gen.Rep(gen.Rep("0123456789abcde\n", 1<<6)+"xyzzy\n", n/(1<<10)+1)[:n-8] + "the end\n"
				if line {
					head := gen.Rep("short\n", 60)
					s = head + gen.Rep("0123456789abcde ", n/16+1)[:n-8-2*len(head)] + "\n" + head[1:] + "the end\n"
				}
				es := []entry{{name: "a", kind: 'f', text: "before\n"}, {name: "b", kind: 'f', text: s}, {name: "c", kind: 'f', text: "after\n"}}
				put(src, es)
				v := &verdict{must: map[string]bool{}, excluded: map[string]string{}}
				judgeTree(v, "", es, treeOpts[0])
				return checkTree(c, src, v, treeOpts[0])
			})
		}
	}
}

// distinct gives a text with exactly k distinct trigrams.
func distinct(k int) string {
	if k < 1 {
		return "ab"[:0]
	}
	seen := map[string]bool{}
	b := []byte{}
	put := func(x byte) {
		b = append(b, x)
		if len(b) >= 3 {
			seen[string(b[len(b)-3:])] = true
		}
	}
	al := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	n := len(al)
	// walk: from the last two letters take the first letter that makes a new trigram
	put(al[0])
	put(al[0])
	at := map[string]int{}
	for len(seen) < k {
		p := string(b[len(b)-2:])
		i := at[p]
		if i >= n {
			// restart from a pair with something left
			done := false
			for x := 0; x < n && !done; x++ {
				for y := 0; y < n && !done; y++ {
					q := string([]byte{al[x], al[y]})
					if at[q] < n {
						if len(seen)+2 >= k {
							// fill up one by one with a new symbol instead
							done = true
							break
						}
						put('\n')
						put(al[x])
						put(al[y])
						done = true
					}
				}
			}
			if !done || len(seen)+2 >= k {
				for x := 0; len(seen) < k; x++ {
					put(byte("!#%&()+,;=@"[x%11]))
				}
			}
			continue
		}
		at[p]++
		put(al[n-1-i])
	}
	return string(b)
}

func init() {
	bx.Register(&bx.Job{Name: "i01-trees", Desc: "every set of entries of a tree", Run: trees})
	bx.Register(&bx.Job{Name: "i01-many", Desc: "trees of many entries", Run: many})
	bx.Register(&bx.Job{Name: "i01-names", Desc: "names that could be taken for one another", Run: nameTrees})
	bx.Register(&bx.Job{Name: "i01-roots", Desc: "every way to name the tree", Run: roots})
	bx.Register(&bx.Job{Name: "i01-content", Desc: "contents around the limits", Run: contents, GC: true})
	bx.Register(&bx.Job{Name: "i01-huge", Desc: "lengths around the limit", Run: huge, GC: true})
}
