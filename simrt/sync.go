package simrt

import "sort"

// Mutex is the simulated sync.Mutex.
type Mutex struct {
	locked bool
	sync   uint64
	wait   []*G
}

func (m *Mutex) Lock() {
	for {
		got := false
		call(func() {
			if !m.locked {
				m.locked = true
				got = true
				return
			}
			m.wait = append(m.wait, cur)
			W.block(cur, "sync.Mutex.Lock")
		})
		if got {
			break
		}
	}
	if RaceEnabled {
		raceAcquire(&m.sync)
	}
}

func (m *Mutex) TryLock() bool {
	got := false
	call(func() {
		if !m.locked {
			m.locked = true
			got = true
		}
	})
	if got && RaceEnabled {
		raceAcquire(&m.sync)
	}
	return got
}

func (m *Mutex) Unlock() {
	if RaceEnabled {
		raceRelease(&m.sync)
	}
	bad := false
	call(func() {
		if !m.locked {
			bad = true
			return
		}
		m.locked = false
		for _, g := range m.wait {
			W.ready(g)
		}
		m.wait = nil
	})
	if bad {
		fatal("fatal error: sync: unlock of unlocked mutex")
	}
}

// fatal ends the process like an unrecoverable runtime error.
func fatal(msg string) {
	call(func() {
		W.out.Panic = msg
		W.end("panic", 2)
	})
	panic(msg)
}

// RWMutex is the simulated sync.RWMutex.
type RWMutex struct {
	w      bool
	r      int
	wwait  int
	wait   []*G
	rs, ws uint64
}

func (m *RWMutex) Lock() {
	first := true
	for {
		got := false
		call(func() {
			if first {
				m.wwait++
			}
			if !m.w && m.r == 0 {
				m.w = true
				m.wwait--
				got = true
				return
			}
			m.wait = append(m.wait, cur)
			W.block(cur, "sync.RWMutex.Lock")
		})
		first = false
		if got {
			break
		}
	}
	if RaceEnabled {
		raceAcquire(&m.ws)
		raceAcquire(&m.rs)
	}
}
func (m *RWMutex) wakeAll() {
	for _, g := range m.wait {
		W.ready(g)
	}
	m.wait = nil
}
func (m *RWMutex) Unlock() {
	if RaceEnabled {
		raceRelease(&m.ws)
	}
	bad := false
	call(func() {
		if !m.w {
			bad = true
			return
		}
		m.w = false
		m.wakeAll()
	})
	if bad {
		fatal("fatal error: sync: Unlock of unlocked RWMutex")
	}
}
func (m *RWMutex) TryLock() bool {
	got := false
	call(func() {
		if !m.w && m.r == 0 {
			m.w = true
			got = true
		}
	})
	if got && RaceEnabled {
		raceAcquire(&m.ws)
		raceAcquire(&m.rs)
	}
	return got
}
func (m *RWMutex) RLock() {
	for {
		got := false
		call(func() {
			if !m.w && m.wwait == 0 {
				m.r++
				got = true
				return
			}
			m.wait = append(m.wait, cur)
			W.block(cur, "sync.RWMutex.RLock")
		})
		if got {
			break
		}
	}
	if RaceEnabled {
		raceAcquire(&m.ws)
	}
}
func (m *RWMutex) TryRLock() bool {
	got := false
	call(func() {
		if !m.w && m.wwait == 0 {
			m.r++
			got = true
		}
	})
	if got && RaceEnabled {
		raceAcquire(&m.ws)
	}
	return got
}
func (m *RWMutex) RUnlock() {
	if RaceEnabled {
		raceReleaseMerge(&m.rs)
	}
	bad := false
	call(func() {
		if m.r <= 0 {
			bad = true
			return
		}
		m.r--
		m.wakeAll()
	})
	if bad {
		fatal("fatal error: sync: RUnlock of unlocked RWMutex")
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker mirrors sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Locker mirrors sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// WaitGroup is the simulated sync.WaitGroup.
type WaitGroup struct {
	n    int
	sync uint64
	wait []*G
}

func (g *WaitGroup) Add(d int) {
	if RaceEnabled && d < 0 {
		raceReleaseMerge(&g.sync)
	}
	neg := false
	call(func() {
		g.n += d
		if g.n < 0 {
			neg = true
			return
		}
		if g.n == 0 {
			for _, x := range g.wait {
				W.ready(x)
			}
			g.wait = nil
		}
	})
	if neg {
		panic("sync: negative WaitGroup counter")
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	call(func() {
		if g.n == 0 {
			return
		}
		g.wait = append(g.wait, cur)
		W.block(cur, "sync.WaitGroup.Wait")
	})
	if RaceEnabled {
		raceAcquire(&g.sync)
	}
}

// Go mirrors sync.WaitGroup.Go.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() {
		defer g.Done()
		f()
	})
}

// Once is the simulated sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc mirrors sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Cond is the simulated sync.Cond.
type Cond struct {
	L    Locker
	wait []*G
	sync uint64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	call(func() { c.wait = append(c.wait, cur) })
	// registered before the unlock; parked until signalled
	g := cur
	woken := false
	c.L.Unlock()
	call(func() {
		for _, x := range c.wait {
			if x == g {
				W.block(g, "sync.Cond.Wait")
				return
			}
		}
		woken = true
	})
	_ = woken
	if RaceEnabled {
		raceAcquire(&c.sync)
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	if RaceEnabled {
		raceReleaseMerge(&c.sync)
	}
	call(func() {
		if len(c.wait) > 0 {
			W.ready(c.wait[0])
			c.wait = c.wait[1:]
		}
	})
}
func (c *Cond) Broadcast() {
	if RaceEnabled {
		raceReleaseMerge(&c.sync)
	}
	call(func() {
		for _, g := range c.wait {
			W.ready(g)
		}
		c.wait = nil
	})
}

// Pool is the simulated sync.Pool: it may forget items, by the seed.
type Pool struct {
	New   func() any
	items []any
	sync  uint64
}

func (p *Pool) Get() any {
	var v any
	got := false
	call(func() {
		if n := len(p.items); n > 0 && W.hashAt(5)%4 != 0 {
			i := int(W.hashAt(6) % uint64(n))
			v = p.items[i]
			p.items = append(p.items[:i:i], p.items[i+1:]...)
			got = true
		}
	})
	if RaceEnabled {
		raceAcquire(&p.sync)
	}
	if !got && p.New != nil {
		v = p.New()
	}
	return v
}
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if RaceEnabled {
		raceReleaseMerge(&p.sync)
	}
	call(func() { p.items = append(p.items, x) })
}

// Map is the simulated sync.Map.
type Map struct {
	m    map[any]any
	keys []any
	sync uint64
}

func (m *Map) enter() {
	if RaceEnabled {
		raceReleaseMerge(&m.sync)
	}
}
func (m *Map) leave() {
	if RaceEnabled {
		raceAcquire(&m.sync)
	}
}
func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := mapGet(m.m, k); !ok {
		m.keys = append(m.keys, k)
	}
	mapSet(m.m, k, v)
}
func (m *Map) del(k any) {
	mapDel(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}
func (m *Map) Load(k any) (v any, ok bool) {
	call(func() { v, ok = mapGet(m.m, k) })
	m.leave()
	return
}
func (m *Map) Store(k, v any) {
	m.enter()
	call(func() { m.set(k, v) })
}
func (m *Map) LoadOrStore(k, v any) (a any, loaded bool) {
	m.enter()
	call(func() {
		if a, loaded = mapGet(m.m, k); !loaded {
			m.set(k, v)
			a = v
		}
	})
	m.leave()
	return
}
func (m *Map) LoadAndDelete(k any) (v any, ok bool) {
	m.enter()
	call(func() {
		v, ok = mapGet(m.m, k)
		m.del(k)
	})
	m.leave()
	return
}
func (m *Map) Delete(k any) {
	m.enter()
	call(func() { m.del(k) })
}
func (m *Map) Swap(k, v any) (p any, ok bool) {
	m.enter()
	call(func() {
		p, ok = mapGet(m.m, k)
		m.set(k, v)
	})
	m.leave()
	return
}
func (m *Map) CompareAndSwap(k, o, n any) (sw bool) {
	m.enter()
	call(func() {
		if v, ok := mapGet(m.m, k); ok && v == o {
			m.set(k, n)
			sw = true
		}
	})
	m.leave()
	return
}
func (m *Map) Clear() {
	m.enter()
	call(func() { m.m, m.keys = nil, nil })
}
func (m *Map) Range(f func(k, v any) bool) {
	var ks []any
	call(func() {
		ks = append(ks, m.keys...)
		h := W.hashAt(9)
		if W.Cfg.MapSeed != 0 {
			r := newRng(h ^ W.Cfg.MapSeed)
			sort.SliceStable(ks, func(i, j int) bool { return false })
			for i := len(ks) - 1; i > 0; i-- {
				j := r.n(i + 1)
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	})
	m.leave()
	for _, k := range ks {
		if v, ok := m.Load(k); ok {
			if !f(k, v) {
				return
			}
		}
	}
}
