package time

import "unsafe"

func vptr(t *Timer) unsafe.Pointer { return unsafe.Pointer(t) }

//go:linkname vTimerNew
func vTimerNew(fn func(), d int64) int32

//go:linkname vTimerStop
func vTimerStop(id int32, epoch uint32) bool

//go:linkname vTimerPark
func vTimerPark(d int64)

//go:linkname vClock
func vClock() int64

//go:linkname vEpoch
func vEpoch() uint32

type vent struct {
	t      *Timer
	id     int32
	period bool
	c      chan Time
	f      func()
}

var vents [1024]vent
var nvents int
var ventsEpoch uint32

//go:norace
func vadd(e vent) {
	if ep := vEpoch(); ep != ventsEpoch {
		for i := 0; i < nvents; i++ {
			vents[i] = vent{}
		}
		nvents = 0
		ventsEpoch = ep
	}
	if nvents < len(vents) {
		vents[nvents] = e
		nvents++
	}
}

//go:norace
func vfind(t *Timer) *vent {
	if ventsEpoch == 0 {
		return nil
	}
	for i := 0; i < nvents; i++ {
		if vents[i].t == t {
			return &vents[i]
		}
	}
	return nil
}

func vsend(c chan Time) {
	select {
	case c <- Now():
	default:
	}
}

func vNewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, initTimer: true}
	vadd(vent{t: t, id: vTimerNew(func() { vsend(c) }, int64(d)), c: c})
	return t
}

func vAfterFunc(d Duration, f func()) *Timer {
	t := &Timer{initTimer: true}
	vadd(vent{t: t, id: vTimerNew(f, int64(d)), f: f})
	return t
}

func vticker(c chan Time, d Duration) func() {
	return func() {
		for {
			vsend(c)
			vTimerPark(int64(d))
		}
	}
}

func vNewTicker(d Duration) *Ticker {
	c := make(chan Time, 1)
	t := &Timer{C: c, initTimer: true}
	vadd(vent{t: t, id: vTimerNew(vticker(c, d), int64(d)), c: c, period: true})
	return (*Ticker)(vptr(t))
}

//go:norace
func vStop(t *Timer) (bool, bool) {
	e := vfind(t)
	if e == nil {
		return false, false
	}
	r := vTimerStop(e.id, ventsEpoch)
	if !r && e.c != nil {
		select {
		case <-e.c:
			r = true
		default:
		}
	}
	return r, true
}

//go:norace
func vReset(t *Timer, d Duration) (bool, bool) {
	r, ok := vStop(t)
	if !ok {
		return false, false
	}
	e := vfind(t)
	switch {
	case e.f != nil:
		e.id = vTimerNew(e.f, int64(d))
	case e.period:
		e.id = vTimerNew(vticker(e.c, d), int64(d))
	default:
		c := e.c
		e.id = vTimerNew(func() { vsend(c) }, int64(d))
	}
	return r, true
}
