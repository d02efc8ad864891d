package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/hound-search/hound/config"

	"hv/bx"
)

// ---- G01: loading a configuration

const defBase, defAnchor = "{url}/blob/{rev}/{path}{anchor}", "#L{line}"

// choice is one way to write a field: its JSON text ("" if absent) and the value
// that results; an error is expected if bad.
type choice struct {
	text string
	want interface{}
	bad  bool
}

type fieldChoices struct {
	key string
	ch  []choice // the first one: absent
}

type upat struct{ base, anchor string }

func strChoices(def string, vals ...string) []choice {
	l := []choice{{"", def, false}, {"null", def, false}, {`""`, def, false}, {"5", nil, true}, {`["x"]`, nil, true}}
	for _, v := range append(vals, " ", "\t"+vals[0]+" ", strings.ToUpper(vals[0]), vals[0]+"/") {
		b, _ := json.Marshal(v)
		l = append(l, choice{string(b), v, false})
	}
	return l
}

func intChoices(def int) []choice {
	return []choice{{"", def, false}, {"null", def, false}, {"0", def, false}, {"1", 1, false}, {"2147483648", 2147483648, false}, {"-1", -1, false}, {`"5"`, nil, true}, {"1.5", nil, true}, {"99999999999999999999", nil, true}, {"true", nil, true}}
}

func boolChoices(def bool) []choice {
	return []choice{{"", def, false}, {"null", def, false}, {"true", true, false}, {"false", false, false}, {`"true"`, nil, true}, {"1", nil, true}}
}

var repoFields = []fieldChoices{
	{"url", strChoices("", "https://u/é.git?a=<b>&c", "file:///x")},
	{"display-name", strChoices("", "Näme \"x\"")},
	{"ms-between-poll", intChoices(30000)},
	{"vcs", strChoices("git", "hg", "git", "nosuch")},
	{"vcs-config", []choice{{"", "", false}, {"null", "", false}, {"{}", "{}", false}, {`{"ref":"x","n":{"m":[1,null]}}`, `{"n":{"m":[1,null]},"ref":"x"}`, false}, {`{"big":12345678901234567890,"f":0.10}`, `{"big":12345678901234567890,"f":0.10}`, false}, {`["x"]`, `["x"]`, false}}},
	{"url-pattern", []choice{{"", upat{defBase, defAnchor}, false}, {"null", upat{defBase, defAnchor}, false}, {"{}", upat{defBase, defAnchor}, false}, {`{"base-url":"{url}/x"}`, upat{"{url}/x", defAnchor}, false}, {`{"anchor":"#{line}"}`, upat{defBase, "#{line}"}, false},
		{`{"base-url":"b","anchor":""}`, upat{"b", defAnchor}, false}, {`{"base-url":null,"anchor":"a"}`, upat{defBase, "a"}, false}, {`{"base-url":"b","anchor":"a"}`, upat{"b", "a"}, false}, {`"x"`, nil, true}, {`{"anchor":5}`, nil, true}}},
	{"exclude-dot-files", boolChoices(false)},
	{"enable-poll-updates", boolChoices(true)},
	{"enable-push-updates", boolChoices(false)},
	{"auto-generated-files", []choice{{"", "", false}, {"null", "", false}, {"[]", "", false}, {`["a","b c","a"]`, "a|b c|a", false}, {`"a"`, nil, true}, {`[5]`, nil, true}}},
	{"no-such-option", []choice{{"", nil, false}, {"5", nil, false}, {`{"url":"x"}`, nil, false}}},
}

var topFields = []fieldChoices{
	{"title", strChoices("Hound", "My <title>")},
	{"max-concurrent-indexers", intChoices(2)},
	{"health-check-uri", strChoices("/healthz", "/h", "health", "/H/", "http://h/z?x=1#f")},
	{"result-limit", intChoices(5000)},
	{"dbpath", strChoices("", "data", "../up/x", "./a/../b", "/abs/dir", "/abs/../dir2", "a b/é", "$HOME/${USER}%d", "~/y")},
	{"vcs-config", []choice{{"", nil, false}, {"null", nil, false}, {"{}", nil, false}, {`{"nosuch2":{"a":1}}`, nil, false}, {`{"git":null}`, nil, false}, {`[]`, nil, true}, {`{"x":5}`, nil, true}, {`{"x":"y"}`, nil, true}}},
	{"no-such-option", []choice{{"", nil, false}, {"[1]", nil, false}}},
}

func object(fs []fieldChoices, pick map[int]int) (string, map[string]interface{}, bool) {
	var parts []string
	want := map[string]interface{}{}
	bad := false
	for i, f := range fs {
		ch := f.ch[pick[i]]
		want[f.key] = ch.want
		bad = bad || ch.bad
		if ch.text != "" {
			parts = append(parts, fmt.Sprintf("%q:%s", f.key, ch.text))
		}
	}
	return strings.Join(parts, ","), want, bad
}

func loadConf(c *bx.Ctx, dir, text string) (*config.Config, error) {
	fn := filepath.Join(dir, "config.json")
	bx.Must(os.WriteFile(fn, []byte(text), 0644))
	c.Transitions++
	cfg := &config.Config{}
	err := cfg.LoadFromFile(fn)
	return cfg, err
}

func checkRepo(name string, r *config.Repo, want map[string]interface{}) string {
	if r == nil {
		return "repository " + name + " is missing"
	}
	if r.UrlPattern == nil {
		return name + ": no URL pattern"
	}
	got := map[string]interface{}{"url": r.Url, "display-name": r.DisplayName, "ms-between-poll": r.MsBetweenPolls, "vcs": r.Vcs, "vcs-config": compactJSON(string(r.VcsConfig())), "url-pattern": upat{r.UrlPattern.BaseUrl, r.UrlPattern.Anchor},
		"exclude-dot-files": r.ExcludeDotFiles, "enable-poll-updates": r.PollUpdatesEnabled(), "enable-push-updates": r.PushUpdatesEnabled(), "auto-generated-files": strings.Join(r.AutoGeneratedFiles, "|")}
	for k, v := range got {
		if fmt.Sprint(v) != fmt.Sprint(want[k]) {
			return fmt.Sprintf("%s: %s is %v, expected %v", name, k, v, want[k])
		}
	}
	return ""
}

func checkTop(cfg *config.Config, dir string, want map[string]interface{}) string {
	db := want["dbpath"].(string)
	if !filepath.IsAbs(db) {
		db = filepath.Join(dir, db)
	}
	got := map[string]interface{}{"title": cfg.Title, "max-concurrent-indexers": cfg.MaxConcurrentIndexers, "health-check-uri": cfg.HealthCheckURI, "result-limit": cfg.ResultLimit}
	for k, v := range got {
		if v != want[k] {
			return fmt.Sprintf("%s is %v, expected %v", k, v, want[k])
		}
	}
	if filepath.Clean(cfg.DbPath) != filepath.Clean(db) || !filepath.IsAbs(cfg.DbPath) {
		return fmt.Sprintf("data directory %s, expected %s", cfg.DbPath, db)
	}
	return ""
}

// picks calls f for every choice that differs from base in at most k fields.
func picks(fs []fieldChoices, base map[int]int, k int, f func(map[int]int)) {
	pick := map[int]int{}
	for i := range fs {
		pick[i] = base[i]
	}
	var rec func(i, left int)
	rec = func(i, left int) {
		if i == len(fs) {
			f(pick)
			return
		}
		rec(i+1, left)
		if left == 0 {
			return
		}
		for v := range fs[i].ch {
			if v != base[i] {
				pick[i] = v
				rec(i+1, left-1)
			}
		}
		pick[i] = base[i]
	}
	rec(0, k)
}

// full picks a present value for every field.
func full(fs []fieldChoices) map[int]int {
	m := map[int]int{}
	for i, f := range fs {
		for j, ch := range f.ch {
			if !ch.bad && ch.text != "" && ch.text != "null" {
				m[i] = j
			}
		}
	}
	return m
}

func g01Fields(c *bx.Ctx) {
	dir := fresh(c)
	bx.Must(os.MkdirAll(dir, 0755))
	one := func(rep, top map[int]int) {
		if !c.Mine() || c.Over() {
			return
		}
		c.States++
		rt, rw, rb := object(repoFields, rep)
		tt, tw, tb := object(topFields, top)
		if tt != "" {
			tt = "," + tt
		}
		_, plain, _ := object(repoFields, nil)
		plain["url"] = "other"
		text := fmt.Sprintf(`{"repos":{"one":{%s},"two":{"url":"other"}}%s}`, rt, tt)
		c.DoKey(func() string { return text }, func() (string, []string) {
			cfg, err := loadConf(c, dir, text)
			if rb || tb {
				if err == nil {
					return "", []string{"no error"}
				}
				return "", nil
			}
			if err != nil {
				return "", []string{err.Error()}
			}
			if len(cfg.Repos) != 2 {
				return "", []string{fmt.Sprintf("%d repositories", len(cfg.Repos))}
			}
			for _, x := range []string{checkRepo("one", cfg.Repos["one"], rw), checkRepo("two", cfg.Repos["two"], plain), checkTop(cfg, dir, tw)} {
				if x != "" {
					return "", []string{x}
				}
			}
			return "", nil
		})
	}
	k := [5]int{1, 2, 2, 3, 4}[c.Bound]
	fr, ft := full(repoFields), full(topFields)
	picks(repoFields, nil, k, func(p map[int]int) { one(p, nil) })
	picks(repoFields, fr, k, func(p map[int]int) { one(p, ft) })
	picks(topFields, nil, k, func(p map[int]int) { one(nil, p) })
	picks(topFields, ft, k, func(p map[int]int) { one(fr, p) })
	picks(topFields, nil, 1, func(p map[int]int) {
		q := map[int]int{}
		for a, b := range p {
			q[a] = b
		}
		picks(repoFields, nil, 1, func(r map[int]int) { one(r, q) })
	})
}

// g01Merge: global and local version-control settings.
func g01Merge(c *bx.Ctx) {
	dir := fresh(c)
	bx.Must(os.MkdirAll(dir, 0755))
	globals := []string{"", "null", "{}", `{"a":1}`, `{"a":"g","b":{"x":[2,null,"é<"]}}`, `{"a":false,"n":12345678901234567890,"e":1e400,"f":0.10}`}
	bads := []string{`[]`, `"s"`, "7", "true"}
	locals := []string{"", "null", "{}", `{"a":2}`, `{"b":null}`, `{"c":[1,{"a":3}]}`, `{"a":null,"b":{"y":1}}`, `{"a":98765432109876543210}`, `{"a":""}`, `{"a":[],"b":{}}`, `{"a":0,"b":false}`, `{"A":3}`}
	badLocals := []string{`[]`, `"x"`, "5"}
	kinds := []string{"", `"git"`, `"hg"`, `"local"`}
	try := func(g1, g2, k1, l1, k2, l2 string, bad, maybe bool) {
		if !c.Mine() || c.Over() {
			return
		}
		c.States++
		f := func(k, v string) string {
			if v == "" {
				return ""
			}
			return fmt.Sprintf(`,%q:%s`, k, v)
		}
		gl := strings.TrimPrefix(f("git", g1)+f("hg", g2), ",")
		text := fmt.Sprintf(`{"repos":{"one":{"url":"u"%s%s},"two":{"url":"u"%s%s}},"vcs-config":{%s}}`, f("vcs", k1), f("vcs-config", l1), f("vcs", k2), f("vcs-config", l2), gl)
		c.DoKey(func() string { return text }, func() (string, []string) {
			cfg, err := loadConf(c, dir, text)
			if bad {
				if err == nil {
					return "", []string{"no error"}
				}
				return "", nil
			}
			if err != nil {
				if maybe {
					return "", nil
				}
				return "", []string{err.Error()}
			}
			for n, x := range map[string][2]string{"one": {k1, l1}, "two": {k2, l2}} {
				g := map[string]string{"": g1, `"git"`: g1, `"hg"`: g2}[x[0]]
				if g == "null" {
					g = ""
				}
				if y, want := compactJSON(string(cfg.Repos[n].VcsConfig())), effective(x[1], g); y != want {
					return "", []string{fmt.Sprintf("settings of %s: %s, expected %s", n, y, want)}
				}
			}
			return "", nil
		})
	}
	for _, g1 := range globals {
		for _, g2 := range globals {
			for _, k1 := range kinds {
				for _, l1 := range locals {
					for _, k2 := range kinds {
						for _, l2 := range locals {
							try(g1, g2, k1, l1, k2, l2, false, false)
						}
					}
				}
				for _, l1 := range badLocals {
					try(g1, g2, k1, l1, "", "", false, true)
					try(g1, g2, "", "", k1, l1, false, true)
				}
			}
		}
		for _, b := range bads {
			for _, k1 := range kinds {
				try(b, g1, k1, "", "", "", true, false)
				try(g1, b, k1, `{"a":1}`, "", "", true, false)
			}
		}
	}
}

const wholeConf = `{"dbpath":"data","title":"T","max-concurrent-indexers":3,"health-check-uri":"/h","result-limit":7,
"vcs-config":{"git":{"ref":"main","x":[1,2]},"hg":null},
"repos":{"a":{"url":"u","display-name":"d","ms-between-poll":5,"vcs":"git","vcs-config":{"ref":"x"},"url-pattern":{"base-url":"b","anchor":"a"},"exclude-dot-files":true,"enable-poll-updates":false,"enable-push-updates":true,"auto-generated-files":["x"]},"b":{"url":"v"}}}`

// g01Malformed: every prefix of a configuration, every change of one byte, and
// other damage.
func g01Malformed(c *bx.Ctx) {
	dir := fresh(c)
	bx.Must(os.MkdirAll(dir, 0755))
	try := func(text string) {
		if !c.Mine() || c.Over() {
			return
		}
		c.States++
		c.DoKey(func() string { return fmt.Sprintf("%q", text) }, func() (string, []string) {
			cfg, err := loadConf(c, dir, text)
			var v interface{}
			if e := json.Unmarshal([]byte(text), &v); e != nil && err == nil {
				return "", []string{fmt.Sprintf("no error (%v)", e)}
			}
			if m, ok := v.(map[string]interface{}); err == nil && ok {
				// nothing of the first value is lost
				var names, got []string
				for k, r := range m {
					if strings.EqualFold(k, "repos") {
						rs, _ := r.(map[string]interface{})
						for n := range rs {
							names = append(names, n)
						}
					}
				}
				for n, r := range cfg.Repos {
					got = append(got, n)
					if r == nil {
						return "", []string{"repository without a configuration: " + n}
					}
					if r.Vcs == "" || r.MsBetweenPolls == 0 || r.UrlPattern == nil || r.UrlPattern.BaseUrl == "" || r.UrlPattern.Anchor == "" {
						return "", []string{"default missing in " + n}
					}
				}
				sort.Strings(names)
				sort.Strings(got)
				if strings.Join(names, "|") != strings.Join(got, "|") && strings.Count(strings.ToLower(text), `"repos"`) == 1 {
					return "", []string{fmt.Sprintf("repositories %q, expected %q", got, names)}
				}
				c.Outcomes["accepted"]++
			} else if err != nil {
				c.Outcomes["refused"]++
			} else if v != nil {
				return "", []string{"accepted"}
			}
			return "", nil
		})
	}
	for i := 0; i < len(wholeConf); i++ {
		try(wholeConf[:i])
		try(wholeConf[:i] + wholeConf[i+1:])
		for _, r := range "\"{}[],:0nx\\ \x00\xff" {
			try(wholeConf[:i] + string(r) + wholeConf[i+1:])
			if c.Bound >= 3 {
				try(wholeConf[:i] + string(r) + wholeConf[i:])
			}
		}
	}
	for _, t := range []string{"", " ", "null", "[]", "5", `"x"`, "true", "{", `{"repos":[]}`, `{"repos":{"a":null}}`, `{"repos":{"a":[]}}`, `{"repos":{"a":"x"}}`, `{"repos":{"a":5}}`, `{"repos":{"a":{},"b":null}}`, `{"repos":{"":{}}}`, `{"repos":null}`, `{"repos":{"a":{"url-pattern":[]}}}`, `{"vcs-config":{"git":[]},"repos":{}}`,
		`{"vcs-config":{"git":{"ref":"x"}},"repos":{"a":null}}`, wholeConf + "}", wholeConf + wholeConf, wholeConf + "\n\t ", wholeConf + "x", `{"dbpath":"d"},"repos":{"a":{}}}`, strings.Repeat("[", 20000), strings.Repeat(`{"repos":`, 20000)} {
		try(t)
	}
	for _, n := range []string{"missing.json", "dir"} {
		if !c.Mine() {
			continue
		}
		bx.Must(os.MkdirAll(filepath.Join(dir, "dir"), 0755))
		c.States++
		c.Do("file "+n, func() []string {
			var cfg config.Config
			if err := cfg.LoadFromFile(filepath.Join(dir, n)); err == nil {
				return []string{"no error"}
			}
			return nil
		})
	}
}

// g01Path: the data directory by the place of the configuration file.
func g01Path(c *bx.Ctx) {
	root := fresh(c)
	bx.Must(os.MkdirAll(filepath.Join(root, "sub", "conf dir"), 0755))
	bx.Must(os.Symlink("sub", filepath.Join(root, "link")))
	root, err := filepath.EvalSymlinks(root)
	bx.Must(err)
	old, err := os.Getwd()
	bx.Must(err)
	defer os.Chdir(old)
	for _, wd := range []string{"", "sub", "sub/conf dir"} {
		for _, where := range []string{"", "sub", "sub/conf dir", "link", "sub/../link"} {
			for _, rel := range []bool{false, true} {
				for _, ch := range topFields[4].ch {
					if ch.bad || !c.Mine() || c.Over() {
						continue
					}
					c.States++
					c.DoKey(func() string {
						return fmt.Sprintf("in %q, configuration in %q (relative: %v), dbpath %s", wd, where, rel, ch.text)
					}, func() (string, []string) {
						bx.Must(os.Chdir(filepath.Join(root, wd)))
						dir := filepath.Join(root, where)
						text := `{"repos":{}}`
						if ch.text != "" {
							text = fmt.Sprintf(`{"dbpath":%s}`, ch.text)
						}
						bx.Must(os.WriteFile(filepath.Join(dir, "c.json"), []byte(text), 0644))
						fn := filepath.Join(dir, "c.json")
						if rel {
							fn, err = filepath.Rel(filepath.Join(root, wd), fn)
							bx.Must(err)
						}
						var cfg config.Config
						c.Transitions++
						if err := cfg.LoadFromFile(fn); err != nil {
							return "", []string{err.Error()}
						}
						want := ch.want.(string)
						if !filepath.IsAbs(want) {
							want = filepath.Join(dir, want)
						}
						if !filepath.IsAbs(cfg.DbPath) || filepath.Clean(cfg.DbPath) != filepath.Clean(want) {
							return "", []string{fmt.Sprintf("data directory %s, expected %s", cfg.DbPath, want)}
						}
						return "", nil
					})
				}
			}
		}
	}
}

func init() {
	bx.Register(&bx.Job{Name: "g01-fields", Desc: "fields of a configuration", Run: g01Fields, GC: true})
	bx.Register(&bx.Job{Name: "g01-merge", Desc: "global and local settings", Run: g01Merge, GC: true})
	bx.Register(&bx.Job{Name: "g01-malformed", Desc: "damaged configurations", Run: g01Malformed, GC: true})
	bx.Register(&bx.Job{Name: "g01-path", Desc: "data directories", Run: g01Path, GC: true})
}
