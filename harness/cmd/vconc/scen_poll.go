//go:build vsched

package main

import (
	"fmt"
	"runtime"
	"sync/atomic"
	"time"

	"github.com/hound-search/hound/searcher"

	"hv/vs"
)

// C10: repositories are pulled again one poll interval after the other, on the
// clock of the execution.

type poller struct {
	poll, push bool
	every      time.Duration
	updates    []time.Duration // when updates are requested
	stop       time.Duration   // when stopping is requested, 0: at the end
}

// judge says whether the pulls of r are those that were due.
func (p *poller) judge(r *repo, accepted []int64, stopped, end int64) []string {
	var b bad
	hist := func() string {
		s := fmt.Sprintf("plan %v, every %v, pulls at", r.plan, p.every)
		for i := range r.began {
			s += " " + time.Duration(r.began[i]).String()
			if i < len(r.ended) && r.ended[i] != r.began[i] {
				s += "-" + time.Duration(r.ended[i]).String()
			}
		}
		s += ", updates accepted at"
		for _, t := range accepted {
			s += " " + time.Duration(t).String()
		}
		return s + fmt.Sprintf(", stopped at %v", time.Duration(stopped))
	}
	every := int64(p.every)
	slack := min(int64(time.Second), every/100)
	n := len(r.began)
	for i := range r.began {
		if r.began[i] > stopped {
			b.add("pulled after it was stopped (%s)", hist())
			break
		}
	}
	if p.poll {
		for i := range r.ended {
			next := end
			if i+1 < n {
				next = r.began[i+1]
			}
			due := r.ended[i] + every
			if next > due+slack && due+slack < stopped {
				b.add("not pulled again within the interval after pull %d (%s)", i+1, hist())
				break
			}
		}
	}
	// an accepted update is carried out at once, or right after the pull in progress
	for _, u := range accepted {
		due := u
		for i := range r.began {
			if r.began[i] < u && (i >= len(r.ended) || r.ended[i] > u) {
				due = stopped
				if i < len(r.ended) {
					due = r.ended[i]
				}
			}
		}
		if due+slack >= stopped {
			continue
		}
		done := false
		for i := range r.began {
			done = done || r.began[i] >= u && r.began[i] <= due+slack
		}
		if !done {
			b.add("the update accepted at %v was not carried out (%s)", time.Duration(u), hist())
		}
	}
	// no more pulls than that
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			allowed := 0
			if p.poll {
				allowed = int((r.began[j]-r.began[i])/every) + 1
				if len(r.slow) > 0 {
					allowed++ // polls at fixed times may come late and close to the next
				} else if r.began[j]-r.began[i] < every-slack {
					allowed = 0
				}
			}
			from := int64(-1)
			if i > 0 {
				from = r.began[i-1]
			}
			for _, u := range accepted {
				if u >= from && u <= r.began[j] {
					allowed++
				}
			}
			if j-i > allowed {
				b.add("%d pulls from %v to %v, at most %d were due (%s)", j-i, time.Duration(r.began[i]), time.Duration(r.began[j]), allowed, hist())
				return b.list
			}
		}
	}
	return b.list
}

func runPoll(name, desc string, unit, horizon time.Duration, nrepos int, choose func(i int, r *repo, p *poller), settings [][]bool) {
	vs.Register(&vs.Scenario{Name: name, Desc: desc, Timers: 400, Clock: true, Limit: 60000,
		New: func() *vs.Exec {
			var rs []*repo
			var ps []*poller
			for i := 0; i < nrepos; i++ {
				p := &poller{poll: settings[i][0], push: settings[i][1], every: time.Duration(i+1) * unit}
				r := &repo{name: string(rune('a' + i)), plan: []int{1}, poll: bp(p.poll), push: bp(p.push)}
				rs, ps = append(rs, r), append(ps, p)
			}
			e := newEnv(rs...)
			e.cfg.MaxConcurrentIndexers = nrepos
			for i, r := range rs {
				e.cfg.Repos[r.name].MsBetweenPolls = int(ps[i].every / time.Millisecond)
			}
			accepted := make([][]int64, nrepos)
			naccepted := make([]int32, nrepos)
			refused := make([]int32, nrepos)
			stopped := make([]int64, nrepos)
			waited := make([]int32, nrepos)
			started := false
			for i := range accepted {
				accepted[i] = make([]int64, 16)
				stopped[i] = int64(horizon)
			}
			var perr string
			return &vs.Exec{
				Body: func() {
					for i := range rs {
						choose(i, rs[i], ps[i])
					}
					var ss map[string]*searcher.Searcher
					protect(&perr, func() { ss, _ = e.start() })
					if perr != "" || len(ss) != nrepos {
						return
					}
					started = true
					for i := range rs {
						s, p := ss[rs[i].name], ps[i]
						for _, d := range p.updates {
							go func(i int, d time.Duration) {
								time.Sleep(d)
								if s.Update() {
									accepted[i][atomic.AddInt32(&naccepted[i], 1)-1] = runtime.VClock()
								} else {
									atomic.AddInt32(&refused[i], 1)
								}
							}(i, d)
						}
						go func(i int) {
							if p.stop > 0 {
								time.Sleep(p.stop)
							} else {
								time.Sleep(horizon)
							}
							s.Stop()
							stopped[i] = runtime.VClock()
							s.Wait()
							atomic.StoreInt32(&waited[i], 1)
						}(i)
					}
				},
				Check: func(rr vs.Result) vs.Verdict {
					v := vs.Verdict{Outcome: statusName(rr.Status)}
					var b bad
					if perr != "" || !started {
						b.add("the repositories did not start: %s", perr)
					}
					if rr.Status == runtime.VOk && started {
						for i, r := range rs {
							b.list = append(b.list, ps[i].judge(r, accepted[i][:naccepted[i]], stopped[i], int64(horizon))...)
							if waited[i] == 0 {
								b.add("the searcher of %s never ended", r.name)
							}
							if ps[i].push && refused[i] > 0 || !ps[i].push && naccepted[i] > 0 {
								b.add("updates of %s: %d accepted, %d refused", r.name, naccepted[i], refused[i])
							}
							v.Outcome += fmt.Sprintf(" pulls=%d", len(r.began))
						}
					}
					v.Bad = b.list
					return v
				},
				Done: e.done,
			}
		}})
}

func init() {
	answers := func(r *repo, n int) {
		rev := 1
		for i := 0; i < n; i++ {
			switch vs.Choose(5) {
			case 0:
				rev++
				r.plan = append(r.plan, rev)
			case 1:
				r.plan = append(r.plan, rev)
			case 2:
				r.plan = append(r.plan, ansErr)
			case 3:
				r.plan = append(r.plan, ansBroken)
			case 4:
				rev++
				r.plan = append(r.plan, ansTorn-rev)
			}
		}
	}
	type kind struct {
		name       string
		poll, push bool
		n          int
		hour       time.Duration // the interval between polls, and 60 times m
	}
	kinds := []kind{{"c10-poll", true, false, 3, time.Hour}, {"c10-long", true, false, 4, time.Hour}, {"c10-both", true, true, 3, time.Hour},
		{"c10-push", false, true, 2, time.Hour}, {"c10-none", false, false, 1, time.Hour},
		{"c10-ms", true, true, 3, 120 * time.Millisecond}, {"c10-s", true, true, 3, 3 * time.Second}, {"c10-m", true, true, 3, 2 * time.Minute},
		{"c10-d", true, true, 3, 50 * time.Hour}}
	for _, x := range kinds {
		m := x.hour / 60
		requests := [][]time.Duration{nil, {30 * m}, {60 * m}, {90 * m, 91 * m}, {30 * m, 30 * m}, {120 * m, 150 * m}}
		stops := []time.Duration{0, 150 * m, 180 * m}
		runPoll(x.name, "when a repository is pulled", x.hour, 7*x.hour, 1, func(i int, r *repo, p *poller) {
			n := len(requests)
			if !x.push || x.hour != time.Hour {
				n = 2
			}
			p.updates = requests[vs.Choose(n)]
			answers(r, x.n)
			p.stop = stops[vs.Choose(len(stops))]
			k := vs.Choose(4)
			r.slow = [][]time.Duration{nil, {0, 20 * m}, {0, 0, 100 * m}, {0, 40 * m, 40 * m, 200 * m}}[k]
		}, [][]bool{{x.poll, x.push}})
	}
	m := time.Minute
	runPoll("c10-2", "when two repositories are pulled", time.Hour, 5*time.Hour, 2, func(i int, r *repo, p *poller) {
		if i == 0 {
			r.plan = [][]int{{1, 2, ansErr, 3}, {1, ansBroken, 1, 2}}[vs.Choose(2)]
			p.updates = [][]time.Duration{nil, {120 * m}}[vs.Choose(2)]
		} else {
			r.plan = [][]int{{1, 2}, {1, ansErr, 1}}[vs.Choose(2)]
			p.stop = []time.Duration{0, 120 * m}[vs.Choose(2)]
		}
	}, [][]bool{{true, true}, {true, false}})
}
