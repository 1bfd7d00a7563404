package simrt

import (
	"sort"
	"time"
)

type timerEv struct {
	at  int64 // simulated nanoseconds since start
	seq int64
	fn  func(w *World) // coordinator side
	off bool
}

// simNow is the simulated monotonic clock: one microsecond per step plus all
// sleeping.
func (w *World) simNow() int64 { return w.steps*1000 + w.sleepNS }

// wall is the simulated wall clock.
func (w *World) wall() time.Time {
	return time.Unix(w.Cfg.ClockBase+w.jumpOff, w.simNow()).UTC()
}

func (w *World) addTimer(d time.Duration, fn func(w *World)) *timerEv {
	if d < 0 {
		d = 0
	}
	t := &timerEv{at: w.simNow() + int64(d), seq: w.timerSeq, fn: fn}
	w.timerSeq++
	w.timers = append(w.timers, t)
	sort.SliceStable(w.timers, func(i, j int) bool { return w.timers[i].at < w.timers[j].at })
	return t
}

// fireDue fires timers whose time has come; with idle set it advances the
// clock to the next one.
func (w *World) fireTimer() bool { return w.fireDue(true) }

func (w *World) fireDue(idle bool) bool {
	fired := false
	for len(w.timers) > 0 {
		t := w.timers[0]
		if t.off {
			w.timers = w.timers[1:]
			continue
		}
		if t.at > w.simNow() {
			if !idle || fired {
				break
			}
			w.sleepNS += t.at - w.simNow()
		}
		w.timers = w.timers[1:]
		t.off = true
		t.fn(w)
		fired = true
	}
	return fired
}

// Now is the simulated wall clock.
func Now() time.Time {
	if !InSim() {
		return time.Unix(1700000000, 0).UTC()
	}
	var t time.Time
	call(func() {
		w := W
		if w.Cfg.ClockJump > 0 {
			w.jumpN++
			h := newRng(w.Cfg.Seed ^ uint64(w.jumpN)*7919)
			if h.n(100) < w.Cfg.ClockJump {
				w.jumpOff += int64(h.n(2*86400)) - 86400
				w.stat("clock_jump")
			}
		}
		t = w.wall()
		if len(w.Nows) < 64 {
			w.Nows = append(w.Nows, t)
		}
	})
	return t
}

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	if d <= 0 {
		call(func() {})
		return
	}
	call(func() {
		g := cur
		W.block(g, "time.Sleep")
		W.addTimer(d, func(w *World) { w.ready(g) })
	})
}

// Timer is time.Timer.
type Timer struct {
	C    *Chan[time.Time]
	ev   *timerEv
	f    func()
	d    time.Duration
	tick bool
	sync uint64
}

func (t *Timer) arm(d time.Duration) {
	t.d = d
	t.ev = W.addTimer(d, t.fire)
}

func (t *Timer) fire(w *World) {
	if t.f != nil {
		g := w.newG()
		f := t.f
		g.spawn(func() {
			if RaceEnabled {
				raceAcquire(&t.sync)
			}
			f()
		})
		return
	}
	trySendNB(w, &t.C.h, w.wall())
	if t.tick {
		t.ev = w.addTimer(t.d, t.fire)
	}
}

func trySendNB(w *World, h *hchan, v any) { trySend(w, h, elem{v: v}) }

func NewTimer(d time.Duration) *Timer {
	t := &Timer{C: MakeChan[time.Time](1)}
	call(func() { t.arm(d) })
	return t
}
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	if RaceEnabled {
		raceReleaseMerge(&t.sync)
	}
	call(func() { t.arm(d) })
	return t
}
func After(d time.Duration) *Chan[time.Time] { return NewTimer(d).C }
func (t *Timer) Stop() bool {
	was := false
	call(func() {
		was = !t.ev.off
		t.ev.off = true
		t.tick = false
	})
	return was
}
func (t *Timer) Reset(d time.Duration) bool {
	was := false
	call(func() {
		was = !t.ev.off
		t.ev.off = true
		t.arm(d)
	})
	return was
}

// Ticker is time.Ticker.
type Ticker struct {
	C *Chan[time.Time]
	t *Timer
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := NewTimer(d)
	call(func() { t.tick = true })
	return &Ticker{C: t.C, t: t}
}
func (t *Ticker) Stop() { t.t.Stop() }
func (t *Ticker) Reset(d time.Duration) {
	t.t.Reset(d)
	call(func() { t.t.tick = true })
}
func Tick(d time.Duration) *Chan[time.Time] { return NewTicker(d).C }
