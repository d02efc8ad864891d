//go:build vsched

package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime"
	"strings"

	"github.com/hound-search/hound/api"
	"github.com/hound-search/hound/searcher"

	"hv/vs"
)

// updReq is one request to an endpoint that updates.
type updReq struct {
	method, path, ctype, body string
	repos                     []string // named, nil: none
	all                       bool
	hook                      bool
	bad                       bool // malformed body of a webhook
	what                      string
}

func updReqs(names []string, missing string, more bool) []updReq {
	var out []updReq
	lists := []string{names[0], names[1], missing, names[0] + "," + names[1], names[1] + "," + names[0], names[0] + "," + missing, missing + "," + names[1],
		names[0] + "," + names[0], "*", " * ", " " + names[1] + " ", "", "nope", "**", "*," + names[0], strings.ToUpper(names[0]), names[0] + "/", "."}
	if more {
		lists = append(lists, names[0]+",", ","+names[1], names[0]+",,"+names[1], names[0]+", "+names[1], names[0]+" ,"+names[1], ",", names[0]+";"+names[1], names[0]+"\n"+names[1])
	}
	methods := []string{"POST", "GET", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "post"}
	add := func(r updReq, v string) {
		t := strings.TrimSpace(v)
		r.all = t == "*"
		if t != "" && !r.all {
			r.repos = strings.Split(t, ",")
		}
		out = append(out, r)
	}
	for _, m := range methods {
		for i, l := range lists {
			if m != "POST" && i > 3 && i != 8 {
				continue
			}
			add(updReq{method: m, path: "/api/v1/update?repos=" + url.QueryEscape(l), what: m + " update?repos=" + l}, l)
			if m == "POST" || i == 0 {
				add(updReq{method: m, path: "/api/v1/update", ctype: "application/x-www-form-urlencoded", body: "repos=" + url.QueryEscape(l), what: m + " update with form repos=" + l}, l)
			}
		}
	}
	out = append(out,
		updReq{method: "POST", path: "/api/v1/update", what: "POST update without anything"},
		updReq{method: "POST", path: "/api/v1/update?repos=%zz", what: "POST update with a malformed query"},
		updReq{method: "POST", path: "/api/v1/update", ctype: "application/x-www-form-urlencoded", body: "repos=%zz;&=", what: "POST update with a malformed form"},
		updReq{method: "POST", path: "/api/v1/update", ctype: "multipart/form-data", body: "x", what: "POST update with a malformed multipart form"},
		updReq{method: "POST", path: "/api/v1/update", ctype: "application/json", body: `{"repos":"` + names[0] + `"}`, what: "POST update with JSON"},
		updReq{method: "POST", path: "/api/v1/update?repo=" + names[0], what: "POST update with a misspelt parameter"})
	hook := func(m, body string, bad bool, repo string) {
		r := updReq{method: m, path: "/api/v1/github-webhook", ctype: "application/json", body: body, hook: true, bad: bad, what: m + " github-webhook " + body}
		r.repos = []string{repo}
		out = append(out, r)
	}
	full := func(n string) string {
		b, _ := json.Marshal(n)
		return `{"ref":"refs/heads/main","repository":{"id":35129377,"name":"x","full_name":` + string(b) + `,"owner":{"name":"o"}},"commits":[]}`
	}
	// as big as those of a big push, as another type, with parameters as well
	pad := strings.Repeat(`{"id":"0123456789abcdef","message":"text"},`, 400)
	for _, k := range []int{1, 100} {
		if k > 1 && !more {
			continue
		}
		long := `"commits":[` + strings.Repeat(pad, k) + `{}]`
		for i, body := range []string{`{` + long + `,"repository":{"full_name":"` + names[0] + `"}}`, `{"repository":{"full_name":"` + names[0] + `"},` + long + `}`} {
			hook("POST", body, false, names[0])
			out[len(out)-1].what = fmt.Sprintf("POST github-webhook of %d bytes, %d", len(body), i)
		}
	}
	for _, ct := range []string{"", "application/x-www-form-urlencoded", "text/plain", "application/json; charset=utf-8"} {
		hook("POST", full(names[0]), false, names[0])
		r := &out[len(out)-1]
		r.ctype = ct
		r.what += " as " + ct
	}
	for _, q := range []string{"?payload=" + url.QueryEscape(full(names[1])), "?repos=*", "?repos=" + url.QueryEscape(names[1])} {
		hook("POST", full(names[0]), false, names[0])
		r := &out[len(out)-1]
		r.path += q
		r.what += " with " + q
	}
	for _, m := range methods {
		hook(m, full(names[0]), false, names[0])
		if m == "POST" {
			for _, n := range []string{names[1], missing, "nope", "*", "", names[0] + "," + names[1], strings.ToUpper(names[0]), " " + names[0], names[0] + "\n"} {
				hook(m, full(n), false, n)
			}
			for _, b := range []string{"", "{", "[]", `"` + names[0] + `"`, "1", "nope", `{"repository":"` + names[0] + `"}`, `{"repository":{"full_name":1}}`, `{"repository":{"full_name":["` + names[0] + `"]}}`,
				`{"repository":{"full_name":"` + names[0] + `"`, "\xff", "payload=%7B%7D", full(names[0])[:20]} {
				hook(m, b, true, "")
			}
			for _, b := range []string{"null", "{}", `{"repository":null}`, `{"repository":{}}`, `{"repository":{"name":"` + names[0] + `"}}`, `{"full_name":"` + names[0] + `"}`, `{"repository":{"full_name":null}}`} {
				hook(m, b, false, "")
			}
		}
	}
	return out
}

func init() {
	// ---- A02: every update request on every configuration
	names := []string{"org/a", "b b"}
	missing := "gone"
	mk := func(name string, pairs bool) {
		vs.Register(&vs.Scenario{Name: name, Limit: 400000, Desc: "update requests on every configuration of two repositories and a failed one",
			New: func() *vs.Exec {
				opts := []*bool{nil, bp(true), bp(false)}
				var rs []*repo
				for _, n := range names {
					rs = append(rs, &repo{name: n, plan: []int{1}})
				}
				rs = append(rs, &repo{name: missing, plan: []int{ansErr}, push: bp(true)})
				var b bad
				var perr, desc string
				var e *env
				finished, asked := false, 0
				codes := map[int]int{}
				reqs := updReqs(names, missing, !pairs)
				return &vs.Exec{
					Body: func() {
						for _, r := range rs[:2] {
							r.push = opts[vs.Choose(3)]
							r.poll = opts[vs.Choose(3)]
							desc += fmt.Sprintf("%s push %s poll %s; ", r.name, opt(r.push), opt(r.poll))
						}
						first, part := -1, 0
						if pairs {
							first = vs.Choose(len(reqs))
							part = 1 + vs.Choose(2)
							desc += "first " + reqs[first].what
						}
						protect(&perr, func() {
							e = newEnv(rs...)
							ss, _ := e.start()
							h := http.NewServeMux()
							api.Setup(h, ss, 5000)
							vs.Quiet(func() {
								for i := range reqs {
									if part > 0 && part != 1+i%2 {
										continue
									}
									if first >= 0 {
										codes[e.judge(&b, h, ss, reqs[first])]++
									}
									codes[e.judge(&b, h, ss, reqs[i])]++
									asked++
								}
							})
						})
						finished = true
					},
					Check: func(rr vs.Result) vs.Verdict {
						v := vs.Verdict{Outcome: statusName(rr.Status) + fmt.Sprint(" ", codes)}
						if perr != "" {
							b.add("request %d: %s", asked, perr)
						}
						if !finished && rr.Status == runtime.VOk {
							b.add("request %d never returned", asked)
						}
						if len(b.list) > 0 {
							v.Bad = append(b.list[:min(len(b.list), 5)], "configuration "+desc)
						}
						return v
					},
					Done: func() {
						if e != nil {
							e.done()
						}
					},
				}
			}})
	}
	mk("a02-1", false)
	mk("a02-2", true)
}

func opt(b *bool) string {
	if b == nil {
		return "unset"
	}
	return fmt.Sprint(*b)
}

// judge sends one update request and compares answer and pulls with what it asks for.
func (e *env) judge(b *bad, h http.Handler, ss map[string]*searcher.Searcher, q updReq) int {
	var before [3]int
	for i, r := range e.repos {
		before[i] = r.n
	}
	var code int
	var body, ct, perr string
	protect(&perr, func() {
		req := httptest.NewRequest("GET", q.path, strings.NewReader(q.body))
		req.Method = q.method
		if q.ctype != "" {
			req.Header.Set("Content-Type", q.ctype)
		}
		w := httptest.NewRecorder()
		h.ServeHTTP(w, req)
		code, body, ct = w.Code, w.Body.String(), w.Header().Get("Content-Type")
	})
	vs.Drain()
	if perr != "" {
		b.add("%s: %s", q.what, perr)
		return 0
	}
	named := map[string]bool{}
	want := 200
	switch {
	case q.method != "POST":
		want = 405
	case q.bad:
		want = 400
	default:
		for _, n := range q.repos {
			named[n] = true
		}
		if q.all {
			for n := range ss {
				named[n] = true
			}
		}
		refused, unknown := false, false
		for n := range named {
			var r *repo
			for _, x := range e.repos {
				if x.name == n && ss[n] != nil {
					r = x
				}
			}
			if r == nil {
				unknown = true
			} else if r.push == nil || !*r.push {
				refused = true
			}
		}
		if unknown {
			want = 404
		} else if refused {
			want = 403
		}
		if unknown && refused && code == 403 {
			// either refusal will do
			want = 403
		}
	}
	if code != want {
		b.add("%s: status %d %q, expected %d", q.what, code, body, want)
	}
	if ct != "application/json;charset=utf-8" {
		b.add("%s: content type %q", q.what, ct)
	}
	var v interface{}
	if err := json.Unmarshal([]byte(body), &v); err != nil {
		b.add("%s: answer %q is not JSON: %v", q.what, body, err)
	} else if want == 200 {
		if v != "ok" {
			b.add("%s: answer %q", q.what, body)
		}
	} else if m, _ := v.(map[string]interface{}); m == nil || m["Error"] == nil || m["Error"] == "" {
		b.add("%s: answer %q without an error", q.what, body)
	}
	for i, r := range e.repos {
		n := r.n - before[i]
		allowed := named[r.name] && r.push != nil && *r.push && ss[r.name] != nil
		switch {
		case n > 0 && !allowed:
			b.add("%s: %d pulls of %s", q.what, n, r.name)
		case n == 0 && allowed && want == 200:
			b.add("%s: no pull of %s", q.what, r.name)
		case n > len(q.repos)+1:
			b.add("%s: %d pulls of %s", q.what, n, r.name)
		}
	}
	return code
}
