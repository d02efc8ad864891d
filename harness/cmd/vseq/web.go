package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"html"
	mbig "math/big"
	"mime/multipart"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"

	"hv/bx"
	"hv/gen"
)

// ---- A01: the parameters of a search

type param struct {
	name string
	vals []string // the first is the one of the base case; absent: "-"
}

const absent = "-absent-"

var searchParams = []param{
	{"q", []string{"needle", absent, "", "(", "NEEDLE", "n.edle", "é", " needle", "need+le", "^needle", "a&b=c", "[", "%n", "needle\n", "\nneedle", "needle ", "needle\r\n"}},
	{"repos", []string{"*", absent, "", " * ", "alpha", "alpha,beta", "beta,alpha", "alpha,alpha", "nope", "alpha,nope", ",", "alpha,", "ALPHA", "*,alpha", "org/o d", "empty", "alpha beta", "é\"<"}},
	{"files", []string{absent, "", "txt", "^b", "(", ".", "NEEDLE"}},
	{"excludeFiles", []string{absent, "", "txt", "^b", "(", ".", "zzz"}},
	{"i", []string{absent, "", "true", "1", "fosho", "TRUE", "FoSho", "false", "0", "yes", "on", "2", " true", "nope"}},
	{"literal", []string{absent, "", "true", "1", "fosho", "TRUE", "false", "0", "on"}},
	{"rng", []string{absent, "", ":", "1", "0:1", "1:2", "1:", ":1", "2:9", "-1:2", "1:-1", "x:y", "1:x", "1:2:3", "99999999999999999999:1", "1:99999999999999999999", "9223372036854775807:1", "1:9223372036854775807", "9223372036854775808:2",
		"2:1", "0x1:2", " 1:2", "1:2 ", "1.0:2", "0:0", "3:0", "4294967296:1", "1:4294967296", "01:02", "1:010", "1_0:2", "0b1:0o2"}},
	{"limit", []string{absent, "", "-1", "0", "1", "2", "3", "5", "-2", "-99999999999", "abc", "1.5", "99999", "100000", "100001", "2147483648", "9223372036854775807", "9223372036854775808", "99999999999999999999", " 1", "0x2", "1e1", "010", "02", "1_0", "0b11", "-01"}},
	{"ctx", []string{absent, "", "0", "1", "2", "3", "19", "20", "21", "1000", "-1", "x", "1.5", "4294967295", "4294967296", "4294967298", "9007199254740993", "18014398509481983", "18014398509481984", "18446744073709551615", "18446744073709551616", "99999999999999999999", " 1", "0x2", "010", "02", "1_0", "0b1", "0o2"}},
	{"stats", []string{absent, "", "true", "1", "fosho", "FOSHO", "false", "0", "no"}},
}

// denoted are the values a numeric parameter may denote.
func denoted(v string, min, max, def int64, clampLow bool) []int64 {
	n, ok := new(mbig.Int).SetString(v, 10)
	if !ok || v == "" || strings.ContainsAny(v, "_ +") {
		return []int64{def}
	}
	if n.Cmp(mbig.NewInt(max)) > 0 {
		if n.Cmp(mbig.NewInt(1<<54)) >= 0 {
			return []int64{max, def}
		}
		return []int64{max}
	}
	if n.Cmp(mbig.NewInt(min)) < 0 {
		if !clampLow {
			return []int64{def}
		}
		if n.Cmp(mbig.NewInt(-1<<53)) < 0 {
			return []int64{min, def}
		}
		return []int64{min}
	}
	return []int64{n.Int64()}
}

func truth(v string) bool {
	switch strings.ToLower(v) {
	case "true", "1", "fosho":
		return true
	}
	return false
}

// part of a range: a non-negative number, 0 if it is none or does not fit.
func rangePart(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil || n < 0 || s[0] == '+' {
		return 0
	}
	return n
}

type apiWorld struct {
	h     http.Handler
	ss    map[string]*searcher.Searcher
	cache map[string]apiRes
	def   int
}

type apiRes struct {
	err   bool
	json  interface{}
	files int // listed
	with  int // with match
	open  int
}

func needleFile(n int, every int) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		if i%every == 0 {
			fmt.Fprintf(&sb, "needle %d é\n", i)
		} else {
			fmt.Fprintf(&sb, "line %d n.edle <&>\n", i)
		}
	}
	return sb.String()
}

func newAPIWorld(c *bx.Ctx, bigRepo bool) *apiWorld {
	urlTrees["alpha"] = []file{{"a.txt", needleFile(70, 30)}, {"b.go", "x\nneedle need+le a&b=c\ny\n"}, {"c/Needle.txt", "NEEDLE [ %n \u2028\n"}, {"d.txt", "n.edle neeedle"}}
	urlTrees["beta"] = []file{{"b.txt", "needle\nneedle"}, {"gen.txt", "needle </script>"}}
	urlTrees["empty"] = []file{{"a.txt", "nothing\n"}}
	urlTrees["odd"] = []file{{"o.txt", "a needle\n"}, {"b", "needle"}}
	urlTrees["big"] = []file{{"a", needleFile(99998, 1)}, {"b", needleFile(3, 1)}, {"c", needleFile(9, 1)}, {"d", "needle"}}
	autos["beta"] = []string{"gen.txt"}
	cfg := &config.Config{Repos: map[string]*config.Repo{}, HealthCheckURI: "/healthz", ResultLimit: 4, Title: "T"}
	for n, u := range map[string]string{"alpha": "alpha", "beta": "beta", "empty": "empty", "org/o d": "odd", "é\"<": "odd"} {
		cfg.Repos[n] = repoOf(u)
	}
	if bigRepo {
		cfg.Repos = map[string]*config.Repo{"big": repoOf("big"), "beta": repoOf("beta")}
		cfg.ResultLimit = 5000
	}
	ss, errs, err := startAll(c, cfg)
	bx.Must(err)
	if len(errs) > 0 {
		bx.Must(fmt.Errorf("%v", errs))
	}
	h, err := serve(cfg, false, ss)
	bx.Must(err)
	return &apiWorld{h: h, ss: ss, cache: map[string]apiRes{}, def: cfg.ResultLimit}
}

// direct is the search itself.
func (w *apiWorld) direct(repo, q string, o index.SearchOptions) apiRes {
	k := fmt.Sprintf("%s|%s|%+v", repo, q, o)
	if r, ok := w.cache[k]; ok {
		return r
	}
	var out apiRes
	res, err := w.ss[repo].Search(q, &o)
	if err != nil {
		out.err = true
	} else {
		ms := []interface{}{}
		for _, f := range res.Matches {
			var ls []interface{}
			for _, m := range f.Matches {
				ls = append(ls, map[string]interface{}{"Line": m.Line, "LineNumber": m.LineNumber, "Before": m.Before, "After": m.After})
			}
			ms = append(ms, map[string]interface{}{"Filename": f.Filename, "Matches": ls, "AutoGenerated": f.AutoGenerated})
		}
		b, err := json.Marshal(map[string]interface{}{"Matches": ms, "FilesWithMatch": res.FilesWithMatch, "Revision": res.Revision})
		bx.Must(err)
		out.json, err = asJSON(string(b))
		bx.Must(err)
		out.files, out.with, out.open = len(res.Matches), res.FilesWithMatch, res.FilesOpened
	}
	w.cache[k] = out
	return out
}

// judgeSearch compares one answer with the searches its parameters may denote.
func (w *apiWorld) judgeSearch(get func(string) string, a answer) []string {
	if a.code != 200 {
		return []string{fmt.Sprintf("status %d", a.code)}
	}
	if a.ctype() != "application/json;charset=utf-8" {
		return []string{"content type " + a.ctype()}
	}
	if !utf8.ValidString(a.body) {
		return []string{"answer is not UTF-8"}
	}
	v, err := asJSON(a.body)
	if err != nil {
		return []string{fmt.Sprintf("answer %q is not JSON: %v", clip(a.body), err)}
	}
	top, _ := v.(map[string]interface{})
	var o index.SearchOptions
	o.FileRegexp, o.ExcludeFileRegexp = get("files"), get("excludeFiles")
	o.IgnoreCase, o.LiteralSearch = truth(get("i")), truth(get("literal"))
	if r := get("rng"); strings.Contains(r, ":") {
		i := strings.Index(r, ":")
		if r[:i] != "" {
			o.Offset = rangePart(r[:i])
		}
		if r[i+1:] != "" {
			o.Limit = rangePart(r[i+1:])
		}
	}
	repos := map[string]bool{}
	if t := strings.TrimSpace(get("repos")); t == "*" {
		for n := range w.ss {
			repos[n] = true
		}
	} else {
		for _, n := range strings.Split(t, ",") {
			if w.ss[n] != nil {
				repos[n] = true
			}
		}
	}
	var diffs []string
	for _, lim := range denoted(get("limit"), -1, 100000, int64(w.def), true) {
		for _, ctx := range denoted(get("ctx"), 0, 20, 2, false) {
			o.MaxResults, o.LinesOfContext = int(lim), uint(ctx)
			d := w.compare(top, get("q"), repos, o, truth(get("stats")))
			if d == "" {
				return nil
			}
			diffs = append(diffs, d)
		}
	}
	return diffs
}

func (w *apiWorld) compare(top map[string]interface{}, q string, repos map[string]bool, o index.SearchOptions, stats bool) string {
	want := map[string]apiRes{}
	fail := false
	open1, open2 := 0, 0
	for n := range repos {
		r := w.direct(n, q, o)
		fail = fail || r.err
		want[n] = r
		open2 += r.open
		if r.files > 0 {
			open1 += r.open
		}
	}
	if fail {
		if s, _ := top["Error"].(string); s == "" || top["Results"] != nil {
			return fmt.Sprintf("an error expected, got %s", clip(canon(top)))
		}
		return ""
	}
	got, ok := top["Results"].(map[string]interface{})
	if !ok || top["Error"] != nil {
		return "no results: " + clip(canon(top))
	}
	for n := range got {
		if _, ok := want[n]; !ok || want[n].with == 0 {
			return fmt.Sprintf("repository %q is listed (%s)", n, clip(canon(got[n])))
		}
	}
	for n, r := range want {
		g, ok := got[n]
		if !ok {
			if r.files > 0 {
				return fmt.Sprintf("repository %q is missing", n)
			}
			continue
		}
		if r.files == 0 {
			// nothing of it is on this page: as an empty list, if at all
			m, _ := g.(map[string]interface{})
			if l, ok := m["Matches"].([]interface{}); !ok || len(l) > 0 {
				return fmt.Sprintf("repository %q, of which nothing is in the range, with %+v: %s", n, o, clip(canon(g)))
			}
			continue
		}
		if x, y := canon(g), canon(r.json); x != y {
			return fmt.Sprintf("repository %q with %+v: %s, expected %s", n, o, clip(x), clip(y))
		}
	}
	st, has := top["Stats"].(map[string]interface{})
	if has != stats || (top["Stats"] != nil) != stats {
		return fmt.Sprintf("statistics: %v", top["Stats"])
	}
	if has {
		if f := fmt.Sprint(st["FilesOpened"]); st["Duration"] == nil || f != fmt.Sprint(open1) && f != fmt.Sprint(open2) && len(repos) != 1 {
			return fmt.Sprintf("statistics %v, %d files opened", st, open1)
		}
	}
	return ""
}

// send transmits the parameters in one of several ways.
func send(h http.Handler, how string, vals [][2]string) (answer, error) {
	q := url.Values{}
	for _, v := range vals {
		q.Add(v[0], v[1])
	}
	switch how {
	case "get":
		return request(h, "GET", "/api/v1/search?"+q.Encode(), "", "")
	case "post":
		return request(h, "POST", "/api/v1/search", "application/x-www-form-urlencoded", q.Encode())
	case "split":
		a, b := url.Values{}, url.Values{}
		for i, v := range vals {
			if i%2 == 0 {
				a.Add(v[0], v[1])
				b.Add("x", "y")
			} else {
				b.Add(v[0], v[1])
			}
		}
		return request(h, "POST", "/api/v1/search?"+a.Encode(), "application/x-www-form-urlencoded;charset=utf-8", b.Encode())
	case "over":
		// the body counts, not the query
		bad := url.Values{"q": {"zzzz"}, "repos": {"beta"}, "limit": {"1"}, "ctx": {"7"}}
		for k := range bad {
			if _, ok := q[k]; !ok {
				delete(bad, k)
			}
		}
		return request(h, "POST", "/api/v1/search?"+bad.Encode(), "application/x-www-form-urlencoded", q.Encode())
	}
	// multipart
	var b bytes.Buffer
	mw := multipart.NewWriter(&b)
	for _, v := range vals {
		mw.WriteField(v[0], v[1])
	}
	mw.Close()
	return request(h, "POST", "/api/v1/search", mw.FormDataContentType(), b.String())
}

// a01Params: every request whose parameters differ from the base request in at most
// bound places.
func a01Params(c *bx.Ctx) {
	w := newAPIWorld(c, false)
	try := func(dev map[int]int) {
		if !c.Mine() || c.Over() {
			return
		}
		var vals [][2]string
		m := map[string]string{}
		for i, p := range searchParams {
			v := p.vals[dev[i]]
			if v != absent {
				vals = append(vals, [2]string{p.name, v})
				m[p.name] = v
			}
		}
		hows := []string{"get"}
		if len(dev) <= 2 {
			hows = []string{"get", "post", "split", "over", "multipart"}
		}
		c.States++
		for _, how := range hows {
			c.Transitions++
			c.DoKey(func() string { return how + " " + fmt.Sprintf("%q", vals) }, func() (string, []string) {
				a, err := send(w.h, how, vals)
				bx.Must(err)
				return "", w.judgeSearch(func(n string) string { return m[n] }, a)
			})
		}
	}
	var rec func(i, left int, dev map[int]int)
	rec = func(i, left int, dev map[int]int) {
		if i == len(searchParams) {
			try(dev)
			return
		}
		rec(i+1, left, dev)
		if left == 0 {
			return
		}
		for v := 1; v < len(searchParams[i].vals); v++ {
			dev[i] = v
			rec(i+1, left-1, dev)
		}
		delete(dev, i)
	}
	rec(0, [5]int{1, 2, 2, 3, 4}[c.Bound], map[int]int{})
}

// a01Big: the limits on a repository with more results than the maximum.
func a01Big(c *bx.Ctx) {
	w := newAPIWorld(c, true)
	for _, lim := range []string{absent, "", "99997", "99998", "99999", "100000", "100001", "100002", "100005", "1000000", "99999999999", "9223372036854775807", "9223372036854775808", "4999", "5000", "-1", "0", "-5", "x"} {
		for _, rng := range []string{absent, "1:2", "0:1"} {
			for _, repos := range []string{"*", "big"} {
				for _, files := range []string{absent, "[^a]", "b"} {
					if !c.Mine() || c.Over() {
						continue
					}
					m := map[string]string{"q": "needle", "ctx": "0", "repos": repos}
					if lim != absent {
						m["limit"] = lim
					}
					if rng != absent {
						m["rng"] = rng
					}
					if files != absent {
						m["files"] = files
					}
					var vals [][2]string
					for k, v := range m {
						vals = append(vals, [2]string{k, v})
					}
					sort.Slice(vals, func(i, j int) bool { return vals[i][0] < vals[j][0] })
					c.States++
					c.Transitions++
					c.DoKey(func() string { return fmt.Sprintf("%q", vals) }, func() (string, []string) {
						a, err := send(w.h, "get", vals)
						bx.Must(err)
						return "", w.judgeSearch(func(n string) string { return m[n] }, a)
					})
				}
			}
		}
	}
}

// a01Many: many repositories, and lists of many names.
func a01Many(c *bx.Ctx) {
	n := 130
	cfg := &config.Config{Repos: map[string]*config.Repo{}, HealthCheckURI: "/healthz", ResultLimit: 5000, Title: "T"}
	var names []string
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf("r%03d", i)
		if i%7 == 3 {
			nm = "org/" + nm
		}
		names = append(names, nm)
		fs := []file{{"h", fmt.Sprintf("hay %d\n", i)}}
		if i%5 != 0 {
			fs = append(fs, file{"n", needleFile(60+i, 1)}, file{fmt.Sprint("z", i), "needle z"})
		}
		urlTrees[nm] = fs
		cfg.Repos[nm] = repoOf(nm)
	}
	ss, errs, err := startAll(c, cfg)
	bx.Must(err)
	if len(errs) > 0 {
		bx.Must(fmt.Errorf("%v", errs))
	}
	h, err := serve(cfg, false, ss)
	bx.Must(err)
	w := &apiWorld{h: h, ss: ss, cache: map[string]apiRes{}, def: cfg.ResultLimit}
	lists, twice := []string{"*", ""}, map[string]bool{}
	for _, k := range []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 130} {
		a, b := strings.Join(names[:k], ","), strings.Join(names[n-k:], ",")
		lists = append(lists, a, b, a+","+a, "nope,"+b+",nope")
		twice[a+","+a] = true // the number of files opened is not settled
	}
	for _, l := range lists {
		for _, q := range []string{"needle", "hay", "hay 1", "zzz", "("} {
			for _, o := range [][2]string{{"rng", absent}, {"rng", "0:1"}, {"rng", "1:2"}, {"limit", "1"}, {"limit", "61"}, {"stats", "1"}, {"files", "n"}} {
				if o[0] == "stats" && twice[l] || !c.Mine() || c.Over() {
					continue
				}
				m := map[string]string{"q": q, "repos": l, "ctx": "0"}
				vals := [][2]string{{"q", q}, {"repos", l}, {"ctx", "0"}}
				if o[1] != absent {
					m[o[0]] = o[1]
					vals = append(vals, o)
				}
				c.States++
				c.Transitions++
				c.DoKey(func() string { return fmt.Sprintf("130 repositories, %s", clip(fmt.Sprintf("%q", vals))) }, func() (string, []string) {
					a, err := send(w.h, "post", vals)
					bx.Must(err)
					return "", w.judgeSearch(func(n string) string { return m[n] }, a)
				})
			}
		}
	}
	if !c.Mine() {
		return
	}
	c.Do("the list of 130 repositories", func() []string {
		a, err := request(w.h, "GET", "/api/v1/repos", "", "")
		bx.Must(err)
		v, err := asJSON(a.body)
		m, _ := v.(map[string]interface{})
		if err != nil || len(m) != n {
			return []string{fmt.Sprintf("%d repositories are listed", len(m))}
		}
		for _, nm := range names {
			if e, _ := m[nm].(map[string]interface{}); e == nil || e["url"] != nm {
				return []string{fmt.Sprintf("%s is listed as %v", nm, e)}
			}
		}
		return nil
	})
}

// a01Raw: malformed and unusual requests to every endpoint are answered.
func a01Raw(c *bx.Ctx) {
	w := newAPIWorld(c, false)
	raw := []string{"", "?", "?q", "?=", "?&&&", "?%zz", "?q=%zz&repos=*", "?q=needle;repos=*", "?q=needle&repos=%2A&q=b", "?repos=*&q=" + gen.Rep("(", 2000), "?repos=*&q=" + gen.Rep("a{9}", 50) + gen.Rep(")", 3),
		"?repos=*&q=%ff%fe", "?repos=%ff", "?repos=*&q=%00", "?repos=*&files=%ff&q=a", "?repo=alpha", "?repo=nope", "?repo=%ff%22%3C", "?repo=*", "?repo=", "?repo=alpha&repo=beta", "?repos=*&q=a&rng=%00:%ff", "?repos=" + gen.Rep("alpha,", 500) + "&q=needle",
		"?repos=*&q=((a%2B)%2B)%2B" + gen.Rep("(a*)*", 12), "?repos=*&q=(?i:%E2%84%AA)", "?repos=*&q=" + gen.Rep("%5BA-Z%5D", 40), "?repos=*&q=.{0,1000}{0,1000}", "?repos=*&q=x{0,1000}y{1000}", "?q=%5C8&repos=*", "?q=(%3FP%3Cn%3Ea)&repos=*"}
	paths := []string{"/api/v1/search", "/api/v1/repos", "/api/v1/excludes", "/api/v1/update", "/api/v1/github-webhook"}
	bodies := [][2]string{{"", ""}, {"application/x-www-form-urlencoded", "q=needle&repos=*&%zz"}, {"application/x-www-form-urlencoded", "\xff=\x00"}, {"multipart/form-data", "x"}, {"multipart/form-data; boundary=b", "--b\r\n\r\n"},
		{"application/json", `{"q":1}`}, {"bad/type/x;;", "q=needle"}, {"application/json", `{"repository":{"full_name":"alpha"}}`}, {"application/json", "[[[[["}, {"application/json", "\xff"}}
	for _, p := range append(paths, "/api/v1/", "/api/v1/search/", "/api/v2/search", "/api/v1/SEARCH") {
		for _, q := range raw {
			for _, m := range []string{"GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH", "X"} {
				for _, b := range bodies {
					if b[0] != "" && (m == "GET" || m == "HEAD") || !c.Mine() || c.Over() {
						continue
					}
					c.States++
					c.Transitions++
					c.DoKey(func() string { return fmt.Sprintf("%s %s%s %s %q", m, p, clip(q), b[0], b[1]) }, func() (string, []string) {
						a, err := request(w.h, m, p+q, b[0], b[1])
						bx.Must(err)
						c.Outcomes[strconv.Itoa(a.code)]++
						known := false
						for _, x := range paths {
							known = known || p == x
						}
						if !known {
							if a.code != 404 {
								return "", []string{fmt.Sprintf("status %d for an unknown path", a.code)}
							}
							return "", nil
						}
						if a.code >= 500 {
							return "", []string{fmt.Sprintf("status %d: %s", a.code, clip(a.body))}
						}
						if a.ctype() != "application/json;charset=utf-8" {
							return "", []string{"content type " + a.ctype()}
						}
						v, err := asJSON(a.body)
						if err != nil {
							return "", []string{fmt.Sprintf("answer %q is not JSON: %v", clip(a.body), err)}
						}
						if a.code != 200 {
							if t, _ := v.(map[string]interface{}); t == nil || t["Error"] == nil {
								return "", []string{fmt.Sprintf("status %d without an error: %s", a.code, clip(a.body))}
							}
						}
						return "", nil
					})
				}
			}
		}
	}
}

// ---- A03: secrets

const tokA, tokB, tokC = "S3cretAAqx", "S3cretBBwy", "S3cretCCvz"

var secretForms = []string{`"%s"`, `"a\"b%s<c>&'"`, `"\u2028%s</script>"`, `{"pass":"%s"}`, `["x",{"deep":[["%s"]]}]`, `"%s\n\u0000é\ud83d\ude00"`, `{"%s":true}`, `"{{%s}}"`, `"//%s@h/"`}

// leaks says how a text contains a token: as it is, or within base64 or a list of
// byte values.
func leaks(body string) string {
	for _, t := range []string{tokA, tokB, tokC} {
		if strings.Contains(strings.ToLower(body), strings.ToLower(t)) {
			return t
		}
	}
	has := func(b []byte) bool {
		return bytes.Contains(b, []byte(tokA)) || bytes.Contains(b, []byte(tokB)) || bytes.Contains(b, []byte(tokC))
	}
	isB64 := func(r byte) bool {
		return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '+' || r == '/' || r == '-' || r == '_'
	}
	txt := strings.NewReplacer(`\u002b`, "+", `\u002f`, "/", `\/`, "/", `\u003d`, "=", "&#43;", "+", `\u0022`, `"`).Replace(body)
	for i := 0; i < len(txt); {
		if !isB64(txt[i]) {
			i++
			continue
		}
		j := i
		for j < len(txt) && isB64(txt[j]) {
			j++
		}
		if j-i >= 12 {
			s := strings.NewReplacer("-", "+", "_", "/").Replace(txt[i:j])
			for off := 0; off < 4 && off < len(s); off++ {
				x := s[off:]
				b, _ := base64.RawStdEncoding.DecodeString(x[:len(x)/4*4])
				if has(b) {
					return "base64 of the configuration"
				}
			}
		}
		i = j
	}
	var nums []byte
	for _, f := range strings.FieldsFunc(txt, func(r rune) bool { return r < '0' || r > '9' }) {
		n, err := strconv.Atoi(f)
		if err != nil || n > 255 {
			n = 0
		}
		nums = append(nums, byte(n))
	}
	if has(nums) {
		return "byte values of the configuration"
	}
	return ""
}

func a03(c *bx.Ctx) {
	type place struct{ repo, global, other string }
	obj := func(k, v string) string { return fmt.Sprintf(`{%q:%s}`, k, v) }
	f := func(form, tok string) string { return fmt.Sprintf(form, tok) }
	var ps []place
	for _, x := range secretForms {
		ps = append(ps, place{obj("password", f(x, tokA)), "", ""}, place{"", obj("password", f(x, tokB)), ""}, place{obj("user", f(x, tokA)), obj("password", f(x, tokB)), ""},
			place{obj("password", f(x, tokA)), obj("password", f(x, tokB)), obj("password", f(x, tokC))}, place{obj("", f(x, tokA)), obj("x", f(x, tokB)), obj("y", f(x, tokC))},
			place{"null", obj("password", f(x, tokB)), ""}, place{f(`"`+"%s"+`"`, tokA), "", ""}, place{f(`["`+"%s"+`"]`, tokA), "", ""})
	}
	if c.Bound >= 3 {
		for _, x := range secretForms {
			for _, y := range secretForms {
				ps = append(ps, place{obj("password", f(x, tokA)), obj("token", f(y, tokB)), obj("password", f(y, tokC))})
			}
		}
	}
	urlTrees["good"] = []file{{"a.txt", "needle\n"}, {"bin", "\xff\xfe"}}
	// name of the driver of the first repository, and the URL of the third
	type variant struct{ vcs1, url3 string }
	vars := []variant{{"vseq", "good"}, {"vseq", "missing"}, {"vother", "good"}, {"nosuch", "missing"}}
	for _, p := range ps {
		for _, va := range vars {
			for _, dev := range []bool{false, true} {
				if !c.Mine() || c.Over() {
					continue
				}
				c.States++
				c.DoKey(func() string { return fmt.Sprintf("repository %s global %s other %s, %+v dev %v", p.repo, p.global, p.other, va, dev) }, func() (string, []string) {
					return "", a03Case(c, p.repo, p.global, p.other, va.vcs1, va.url3, dev)
				})
			}
		}
	}
}

func a03Case(c *bx.Ctx, repo, global, other, vcs1, url3 string, dev bool) []string {
	field := func(k, v string) string {
		if v == "" {
			return ""
		}
		return fmt.Sprintf(`,%q:%s`, k, v)
	}
	var gl []string
	if global != "" {
		gl = append(gl, `"vseq":`+global)
	}
	if other != "" {
		gl = append(gl, `"vother":`+other)
	}
	js := fmt.Sprintf(`{"dbpath":"db","title":"T","repos":{
"one":{"url":"good","vcs":"%s","enable-poll-updates":false,"enable-push-updates":true%s},
"two":{"url":"good","vcs":"vseq","display-name":"Two","enable-poll-updates":false},
"three":{"url":"%s","vcs":"vseq","enable-poll-updates":false%s}},"vcs-config":{%s}}`, vcs1, field("vcs-config", repo), url3, field("vcs-config", repo), strings.Join(gl, ","))
	d := fresh(c)
	bx.Must(os.MkdirAll(d, 0755))
	defer os.RemoveAll(d)
	fn := filepath.Join(d, "config.json")
	bx.Must(os.WriteFile(fn, []byte(js), 0644))
	var cfg config.Config
	var bodies []string
	var bad []string
	if err := cfg.LoadFromFile(fn); err != nil {
		// a vcs-config that is no object cannot be merged
		if repo == "" || repo[0] == '{' || repo == "null" {
			return []string{"configuration refused: " + err.Error()}
		}
		return nil
	}
	want := map[string]string{"one": effective(repo, map[string]string{"vseq": global, "vother": other}[vcs1]), "two": effective("", global), "three": effective(repo, global)}
	for n, x := range want {
		if y := compactJSON(string(cfg.Repos[n].VcsConfig())); x != y {
			return []string{fmt.Sprintf("configuration of %s is %s, expected %s", n, y, x)}
		}
	}
	gotCfg = map[string][][]byte{}
	ss, errs, err := startAll(c, &cfg)
	defer os.RemoveAll(cfg.DbPath)
	if err != nil {
		return []string{err.Error()}
	}
	for _, n := range []string{"vseq", "vother"} {
		var ws, gs []string
		for r, x := range want {
			if cfg.Repos[r].Vcs == n {
				ws = append(ws, x)
			}
		}
		for _, g := range gotCfg[n] {
			gs = append(gs, compactJSON(string(g)))
		}
		sort.Strings(ws)
		sort.Strings(gs)
		if strings.Join(ws, "\n") != strings.Join(gs, "\n") {
			return []string{fmt.Sprintf("the drivers of %s were given %q, expected %q", n, gs, ws)}
		}
	}
	for n := range errs {
		delete(cfg.Repos, n)
	}
	h, err := serve(&cfg, dev, ss)
	if err != nil {
		return []string{err.Error()}
	}
	ask := func(m, t, ct, b string) {
		c.Transitions++
		a, err := request(h, m, t, ct, b)
		bx.Must(err)
		bodies = append(bodies, a.body)
		hd := ""
		for k, v := range a.hdr {
			hd += k + ": " + strings.Join(v, ",") + "\n"
		}
		if x := leaks(a.body + "\n" + hd); x != "" && bad == nil {
			i := strings.Index(a.body, x)
			if i < 0 {
				i = 0
			}
			bad = []string{fmt.Sprintf("%s %s contains %s: %s", m, t, x, clip(a.body[max(0, i-60):]))}
		}
		if a.code >= 500 && bad == nil {
			bad = []string{fmt.Sprintf("%s %s: status %d", m, t, a.code)}
		}
	}
	for _, t := range []string{"/", "/open_search.xml", "/excluded_files.html", "/healthz", "/nope", "/config.json", "/api/v1/repos", "/api/v1/search?q=needle&repos=*", "/api/v1/search?q=needle&repos=*&stats=1", "/api/v1/search?q=(&repos=*", "/api/v1/search?q=needle&repos=three",
		"/api/v1/search?q=needle&repos=one&files=(", "/api/v1/excludes?repo=one", "/api/v1/excludes?repo=three", "/api/v1/excludes?repo=vcs-config", "/api/v1/update", "/api/v1/github-webhook", "/js/hound.js"} {
		ask("GET", t, "", "")
	}
	ask("POST", "/api/v1/update?repos=two", "", "")
	ask("POST", "/api/v1/update?repos=nope", "", "")
	ask("POST", "/api/v1/update?repos=one,two", "", "")
	ask("POST", "/api/v1/github-webhook", "application/json", `{"repository":{"full_name":"two"}}`)
	ask("POST", "/api/v1/github-webhook", "application/json", `{"repository":`)
	ask("POST", "/api/v1/github-webhook", "application/json", `{"repository":{"full_name":"one"}}`)
	ask("HEAD", "/", "", "")
	ask("OPTIONS", "/api/v1/repos", "", "")
	for _, s := range ss {
		s.Stop()
	}
	for _, s := range ss {
		s.Wait()
	}
	return bad
}

func compactJSON(s string) string {
	if s == "" {
		return ""
	}
	v, err := asJSON(s)
	if err != nil {
		return s
	}
	return canon(v)
}

// effective is the configuration of a repository merged with the global one.
func effective(repo, global string) string {
	if repo == "null" {
		repo = ""
	}
	if global == "" {
		return compactJSON(repo)
	}
	g, err := asJSON(global)
	bx.Must(err)
	m := map[string]interface{}{}
	for k, v := range g.(map[string]interface{}) {
		m[k] = v
	}
	if repo != "" {
		r, err := asJSON(repo)
		bx.Must(err)
		o, ok := r.(map[string]interface{})
		if !ok {
			return compactJSON(repo)
		}
		for k, v := range o {
			m[k] = v
		}
	}
	return canon(m)
}

// ---- A04: pages

// node is one token of a page.
type node struct {
	kind string // open, close, text, comment, decl
	name string
	attr [][2]string
	text string
}

func isSpace(b byte) bool { return b == ' ' || b == '\n' || b == '\t' || b == '\r' || b == '\f' }

func isAlpha(b byte) bool { return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' }

// tokens splits a page as an HTML tokenizer does, with the rules for script and
// title elements.
func tokens(s string) []node {
	var out []node
	text := ""
	flush := func() {
		if text != "" {
			out = append(out, node{kind: "text", text: text})
		}
		text = ""
	}
	for i := 0; i < len(s); {
		if s[i] != '<' || i+1 == len(s) {
			text += s[i : i+1]
			i++
			continue
		}
		switch {
		case strings.HasPrefix(s[i:], "<!--"):
			flush()
			e := strings.Index(s[i+4:], "-->")
			if e < 0 {
				e = len(s) - i - 4
			}
			out = append(out, node{kind: "comment", text: s[i+4 : i+4+e]})
			i = min(len(s), i+4+e+3)
		case s[i+1] == '!' || s[i+1] == '?':
			flush()
			e := strings.IndexByte(s[i:], '>')
			if e < 0 {
				e = len(s) - i - 1
			}
			out = append(out, node{kind: "decl", text: s[i : i+e+1]})
			i += e + 1
		case s[i+1] == '/' && i+2 < len(s) && isAlpha(s[i+2]):
			flush()
			n, j := tag(s, i+2)
			out = append(out, node{kind: "close", name: n.name})
			i = j
		case isAlpha(s[i+1]):
			flush()
			n, j := tag(s, i+1)
			n.kind = "open"
			out = append(out, n)
			i = j
			if n.name == "script" || n.name == "title" {
				e := rawEnd(s[i:], n.name)
				out = append(out, node{kind: "raw", name: n.name, text: s[i : i+e]})
				i += e
			}
		default:
			text += "<"
			i++
		}
	}
	flush()
	return out
}

// tag reads a name and attributes from i on; it returns the position after '>'.
func tag(s string, i int) (node, int) {
	j := i
	for j < len(s) && !isSpace(s[j]) && s[j] != '>' && s[j] != '/' {
		j++
	}
	n := node{name: strings.ToLower(s[i:j])}
	for j < len(s) {
		for j < len(s) && (isSpace(s[j]) || s[j] == '/') {
			j++
		}
		if j >= len(s) || s[j] == '>' {
			break
		}
		k := j
		for k < len(s) && !isSpace(s[k]) && s[k] != '>' && s[k] != '/' && (s[k] != '=' || k == j) {
			k++
		}
		a := [2]string{strings.ToLower(s[j:k]), ""}
		j = k
		for j < len(s) && isSpace(s[j]) {
			j++
		}
		if j < len(s) && s[j] == '=' {
			j++
			for j < len(s) && isSpace(s[j]) {
				j++
			}
			if j < len(s) && (s[j] == '"' || s[j] == '\'') {
				e := strings.IndexByte(s[j+1:], s[j])
				if e < 0 {
					return n, len(s)
				}
				a[1] = html.UnescapeString(s[j+1 : j+1+e])
				j += e + 2
			} else {
				k := j
				for k < len(s) && !isSpace(s[k]) && s[k] != '>' {
					k++
				}
				a[1] = html.UnescapeString(s[j:k])
				j = k
			}
		}
		n.attr = append(n.attr, a)
	}
	return n, min(len(s), j+1)
}

// rawEnd is the length of the content of a script or title element.
func rawEnd(s, name string) int {
	l := strings.ToLower(s)
	at := func(i int, w string) bool {
		if !strings.HasPrefix(l[i:], w) {
			return false
		}
		i += len(w)
		return i < len(l) && (isSpace(l[i]) || l[i] == '>' || l[i] == '/')
	}
	esc, double := false, false
	for i := 0; i < len(l); i++ {
		switch {
		case name == "script" && !esc && strings.HasPrefix(l[i:], "<!--"):
			esc = true
			if strings.HasPrefix(l[i:], "<!-->") || strings.HasPrefix(l[i:], "<!--->") {
				esc = false
			}
		case esc && strings.HasPrefix(l[i:], "-->"):
			esc, double = false, false
		case esc && !double && at(i, "<script"):
			double = true
		case double && at(i, "</script"):
			double = false
		case at(i, "</"+name):
			return i
		}
	}
	return len(s)
}

// jsString evaluates a JavaScript string literal at the start of s; it returns the
// rest.
func jsString(s string) (string, string, error) {
	if s == "" || s[0] != '"' && s[0] != '\'' {
		return "", "", fmt.Errorf("no string literal: %q", clip(s))
	}
	q := s[0]
	var u []uint16
	put := func(r rune) {
		if r >= 0x10000 {
			r -= 0x10000
			u = append(u, uint16(0xd800+r>>10), uint16(0xdc00+r&0x3ff))
		} else {
			u = append(u, uint16(r))
		}
	}
	i := 1
	for i < len(s) {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			return "", "", fmt.Errorf("not UTF-8")
		}
		switch {
		case byte(r) == q && n == 1:
			var out []rune
			for k := 0; k < len(u); k++ {
				if u[k] >= 0xd800 && u[k] < 0xdc00 && k+1 < len(u) && u[k+1] >= 0xdc00 && u[k+1] < 0xe000 {
					out = append(out, 0x10000+(rune(u[k])-0xd800)<<10+rune(u[k+1])-0xdc00)
					k++
				} else {
					out = append(out, rune(u[k]))
				}
			}
			return string(out), s[i+1:], nil
		case r == '\n' || r == '\r' || r == 0x2028 || r == 0x2029:
			return "", "", fmt.Errorf("line terminator in a string literal")
		case r != '\\':
			put(r)
			i += n
		default:
			i++
			if i >= len(s) {
				return "", "", fmt.Errorf("unterminated")
			}
			d := 0
			switch s[i] {
			case 'n':
				put('\n')
			case 'r':
				put('\r')
			case 't':
				put('\t')
			case 'b':
				put('\b')
			case 'f':
				put('\f')
			case 'v':
				put('\v')
			case '0':
				if i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9' {
					return "", "", fmt.Errorf("octal escape")
				}
				put(0)
			case 'x':
				d = 2
			case 'u':
				d = 4
			default:
				r, n := utf8.DecodeRuneInString(s[i:])
				put(r)
				i += n - 1
			}
			i++
			if d > 0 {
				if i+d > len(s) {
					return "", "", fmt.Errorf("short escape")
				}
				x, err := strconv.ParseUint(s[i:i+d], 16, 32)
				if err != nil {
					return "", "", err
				}
				u = append(u, uint16(x))
				i += d
			}
		}
	}
	return "", "", fmt.Errorf("unterminated string literal")
}

var hostile = []string{"plain", "</script>", "</title><script>alert(1)</script>", `"'><img src=x onerror=y>`, "<!--<script>", "-->", "]]>", "{{.Title}}", "{{`x`}}", "\u2028\u2029", "a&amp;b&lt;c&quot;", "\\", `\"`, `\u0022`, "';alert(1);//", "\x00\x01\x1f\x7f", "é世\U0001f600", "a\nb\r\nc\td",
	"${x}", "`", "</SCRIPT ", "<script>", "javascript:alert(1)", "<", "&", " ", "", "//", "*/", "\ufeff\u200b\ufffd", "</style>", "%3Cscript%3E", "+ADw-script+AD4-", "<![CDATA["}

func a04Pages(c *bx.Ctx) {
	fields := []string{"name", "display-name", "url", "base-url", "anchor", "title", "vcs", "auto"}
	mk := func(vals map[string]string) *config.Config {
		g := func(f string) string {
			if v, ok := vals[f]; ok {
				return v
			}
			return "benign " + f
		}
		cfg := &config.Config{Repos: map[string]*config.Repo{}, HealthCheckURI: "/healthz", Title: g("title"), ResultLimit: 10}
		sec := config.SecretMessage(`{"password":"x"}`)
		cfg.Repos[g("name")] = &config.Repo{Url: g("url"), DisplayName: g("display-name"), MsBetweenPolls: 5, Vcs: g("vcs"), VcsConfigMessage: &sec, UrlPattern: &config.UrlPattern{BaseUrl: g("base-url"), Anchor: g("anchor")}, EnablePushUpdates: boolp(true), AutoGeneratedFiles: []string{g("auto")}}
		cfg.Repos["second repo"] = &config.Repo{Url: "u2", Vcs: "hg", UrlPattern: &config.UrlPattern{BaseUrl: "b", Anchor: "c"}, ExcludeDotFiles: true}
		return cfg
	}
	base := map[string][]node{}
	pages := []string{"/", "/excluded_files.html"}
	for _, dev := range []bool{false, true} {
		h, err := serve(mk(nil), dev, nil)
		bx.Must(err)
		for _, p := range pages {
			a, err := request(h, "GET", p, "", "")
			bx.Must(err)
			base[fmt.Sprint(p, dev)] = tokens(a.body)
		}
	}
	try := func(vals map[string]string) {
		for _, dev := range []bool{false, true} {
			if !c.Mine() || c.Over() {
				continue
			}
			c.States++
			c.DoKey(func() string { return fmt.Sprintf("configured %q dev %v", vals, dev) }, func() (string, []string) {
				cfg := mk(vals)
				h, err := serve(cfg, dev, map[string]*searcher.Searcher{})
				if err != nil {
					return "", []string{err.Error()}
				}
				for _, p := range pages {
					c.Transitions++
					a, err := request(h, "GET", p, "", "")
					bx.Must(err)
					if bad := checkPage(p, a, base[fmt.Sprint(p, dev)], cfg); bad != "" {
						return "", []string{p + ": " + bad}
					}
				}
				c.Transitions++
				a, err := request(h, "GET", "/open_search.xml", "", "")
				bx.Must(err)
				if a.code != 200 || !strings.Contains(a.body, "http://hound.test:6080/?q={searchTerms}") || !strings.HasPrefix(a.body, "<?xml") {
					return "", []string{"open_search.xml: " + clip(a.body)}
				}
				return "", nil
			})
		}
	}
	try(nil)
	for i, f := range fields {
		for _, x := range hostile {
			try(map[string]string{f: x})
			if c.Bound < 2 {
				continue
			}
			for _, g := range fields[i+1:] {
				for k, y := range hostile {
					if c.Bound >= 4 || c.Bound == 3 && k < 24 || c.Bound == 2 && k < 8 {
						try(map[string]string{f: x, g: y})
					}
				}
			}
		}
	}
}

func checkPage(path string, a answer, base []node, cfg *config.Config) string {
	if a.code != 200 || !strings.HasPrefix(a.ctype(), "text/html") {
		return fmt.Sprintf("status %d, %s", a.code, a.ctype())
	}
	if !utf8.ValidString(a.body) {
		return "not UTF-8"
	}
	got := tokens(a.body)
	norm := func(s string) string {
		return strings.NewReplacer("\x00", "\ufffd", "\r\n", "\n", "\r", "\n").Replace(s)
	}
	if len(got) != len(base) {
		return fmt.Sprintf("%d tokens instead of %d: %s", len(got), len(base), clip(tokDiff(got, base)))
	}
	data, titles := 0, 0
	for i, n := range got {
		b := base[i]
		if n.kind != b.kind || n.name != b.name || len(n.attr) != len(b.attr) {
			return "markup differs: " + tokDiff(got, base)
		}
		for k := range n.attr {
			if n.attr[k][0] != b.attr[k][0] {
				return "attributes differ: " + tokDiff(got, base)
			}
			want := b.attr[k][1]
			if want == "benign title" {
				want = cfg.Title
			}
			if norm(n.attr[k][1]) != norm(want) {
				return fmt.Sprintf("attribute %s=%q, expected %q", n.attr[k][0], n.attr[k][1], want)
			}
		}
		switch {
		case n.kind == "raw" && n.name == "title" && strings.Contains(b.text, "benign title"):
			titles++
			if norm(html.UnescapeString(n.text)) != norm(cfg.Title) {
				return fmt.Sprintf("title %q, expected %q", n.text, cfg.Title)
			}
		case n.kind == "raw" && strings.Contains(b.text, "ModelData ="):
			data++
			if bad := checkModel(n.text, cfg); bad != "" {
				return bad
			}
		default:
			if n.text != b.text {
				return fmt.Sprintf("text %q instead of %q", clip(n.text), clip(b.text))
			}
		}
	}
	if path == "/" && (data != 1 || titles != 1) {
		return fmt.Sprintf("%d data elements, %d titles", data, titles)
	}
	return ""
}

func tokDiff(a, b []node) string {
	for i := range a {
		if i >= len(b) || fmt.Sprint(a[i].kind, a[i].name) != fmt.Sprint(b[i].kind, b[i].name) {
			return fmt.Sprintf("at %d: %q", i, a[i])
		}
	}
	return ""
}

// checkModel recovers the repositories from the data element.
func checkModel(script string, cfg *config.Config) string {
	s := strings.TrimSpace(script)
	s = strings.TrimSpace(strings.TrimPrefix(s, "var"))
	if !strings.HasPrefix(s, "ModelData") {
		return "data element: " + clip(s)
	}
	s = strings.TrimSpace(strings.TrimPrefix(s, "ModelData"))
	if !strings.HasPrefix(s, "=") {
		return "data element: " + clip(s)
	}
	s = strings.TrimSpace(s[1:])
	text, rest, err := jsString(s)
	if err != nil {
		return "data element: " + err.Error()
	}
	if r := strings.TrimSpace(rest); r != ";" && r != "" {
		return "data element ends with " + clip(r)
	}
	v, err := asJSON(text)
	if err != nil {
		return fmt.Sprintf("embedded data %q: %v", clip(text), err)
	}
	return sameRepos(v, cfg)
}

// sameRepos compares decoded repositories with the configured ones.
func sameRepos(v interface{}, cfg *config.Config) string {
	m, _ := v.(map[string]interface{})
	want := map[string]interface{}{}
	for n, r := range cfg.Repos {
		o := map[string]interface{}{"url": r.Url, "display-name": r.DisplayName, "ms-between-poll": r.MsBetweenPolls, "vcs": r.Vcs, "exclude-dot-files": r.ExcludeDotFiles,
			"url-pattern": map[string]interface{}{"base-url": r.UrlPattern.BaseUrl, "anchor": r.UrlPattern.Anchor}, "enable-poll-updates": r.EnablePollUpdates, "enable-push-updates": r.EnablePushUpdates, "auto-generated-files": r.AutoGeneratedFiles}
		want[n] = o
		if g, ok := m[n].(map[string]interface{}); ok {
			if x := g["vcs-config"]; x != nil && canon(x) != "{}" {
				return fmt.Sprintf("vcs-config of %q: %s", n, canon(x))
			}
			delete(g, "vcs-config")
		}
	}
	if a, b := canon(m), canon(want); a != b {
		return fmt.Sprintf("embedded repositories %s, expected %s", clip(a), clip(b))
	}
	return ""
}

// a04Assets: every bundled file is served as it is, anything else is not found.
func a04Assets(c *bx.Ctx) {
	h, err := serve(&config.Config{Repos: map[string]*config.Repo{}, HealthCheckURI: "/healthz", Title: "T"}, false, map[string]*searcher.Searcher{})
	bx.Must(err)
	hd, err := serve(&config.Config{Repos: map[string]*config.Repo{}, HealthCheckURI: "/healthz", Title: "T"}, true, map[string]*searcher.Searcher{})
	bx.Must(err)
	root := filepath.Join(repoRoot(), "ui", "assets")
	var names []string
	bx.Must(filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		bx.Must(err)
		if fi.Mode().IsRegular() {
			r, _ := filepath.Rel(root, p)
			names = append(names, r)
		}
		return nil
	}))
	if len(names) < 10 {
		bx.Must(fmt.Errorf("%d assets in %s", len(names), root))
	}
	for _, n := range names {
		want, err := os.ReadFile(filepath.Join(root, n))
		bx.Must(err)
		for di, h := range []http.Handler{h, hd} {
			for _, m := range []string{"GET", "HEAD"} {
				for _, rng := range []string{"", "bytes=0-9", "bytes=5-", "bytes=-3", "bytes=999999999-", "bytes=x"} {
					if !c.Mine() || c.Over() {
						continue
					}
					c.States++
					c.Transitions++
					c.Do(fmt.Sprintf("%s /%s range %q handler %d", m, n, rng, di), func() []string {
						a, err := request(h, m, "/"+n, "", "", func(r *http.Request) {
							if rng != "" {
								r.Header.Set("Range", rng)
							}
						})
						bx.Must(err)
						code, exp := 200, string(want)
						switch rng {
						case "bytes=0-9":
							code, exp = 206, exp[:min(10, len(exp))]
						case "bytes=5-":
							code, exp = 206, exp[min(5, len(exp)):]
						case "bytes=-3":
							code, exp = 206, exp[max(0, len(exp)-3):]
						case "bytes=999999999-", "bytes=x":
							code = 416
						}
						if a.code != code {
							return []string{fmt.Sprintf("status %d, expected %d", a.code, code)}
						}
						if m == "GET" && code != 416 && a.body != exp {
							return []string{fmt.Sprintf("%d bytes differ from the %d of the file: %s", len(a.body), len(exp), clip(a.body))}
						}
						return nil
					})
				}
			}
		}
	}
	miss := []string{"/nope", "/js/nope.js", "/js", "/js/", "/css/octicons", "/index.html", "/ui.go", "/.build/ui/favicon.ico", "/bindata.go", "/\x00", "/a\x00", "/%2e%2e/ui.go", "/js\\hound.js", "/JS/hound.js", "/favicon.ico/", "/favicon.ico/x", "/favicon.ic", "/favicon.icoo", "/é", "/ ", "/js/hound.js.map", "/excluded_files", "/open_search", "/" + gen.Rep("a", 5000), "/api", "/api/v1", "/healthz/", "/healthz2"}
	trav := []string{"/../ui.go", "/js/../../ui.go", "/..", "/../..", "//etc/passwd", "/./favicon.ico", "//favicon.ico", "/js/../favicon.ico", "/js//hound.js", "/../../../../etc/passwd", "/...", "/../assets/../ui.go"}
	secret, err := os.ReadFile(filepath.Join(repoRoot(), "ui", "ui.go"))
	bx.Must(err)
	for i, t := range append(miss, trav...) {
		for di, h := range []http.Handler{h, hd} {
			if di == 1 && (t == "/js" || t == "/js/" || t == "/css/octicons" || t == "/favicon.ico/") || !c.Mine() || c.Over() {
				continue
			}
			c.States++
			c.Transitions++
			c.Do(fmt.Sprintf("GET %q handler %d", clip(t), di), func() []string {
				a, err := request(h, "GET", t, "", "")
				bx.Must(err)
				if bytes.Contains([]byte(a.body), secret[:40]) || strings.Contains(a.body, "root:") {
					return []string{"a file outside the bundle is served: " + clip(a.body)}
				}
				if a.code == 404 || i >= len(miss) && (a.code >= 300 && a.code < 500) || di == 1 && a.code >= 300 {
					return nil
				}
				return []string{fmt.Sprintf("status %d: %s", a.code, clip(a.body))}
			})
		}
	}
}

func repoRoot() string {
	if r := os.Getenv("HV_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func init() {
	bx.Register(&bx.Job{Name: "a01-params", Desc: "search requests", Run: a01Params, GC: true})
	bx.Register(&bx.Job{Name: "a01-big", Desc: "limits on a big repository", Run: a01Big, GC: true})
	bx.Register(&bx.Job{Name: "a01-many", Desc: "130 repositories", Run: a01Many, GC: true})
	bx.Register(&bx.Job{Name: "a01-raw", Desc: "unusual requests to every endpoint", Run: a01Raw, GC: true})
	bx.Register(&bx.Job{Name: "a03-secrets", Desc: "secrets in the configuration against every response", Run: a03, GC: true})
	bx.Register(&bx.Job{Name: "a04-pages", Desc: "hostile texts in the configuration against the pages", Run: a04Pages, GC: true})
	bx.Register(&bx.Job{Name: "a04-assets", Desc: "bundled files and other paths", Run: a04Assets, GC: true})
}
