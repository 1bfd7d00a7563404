package simrt

// elem is a value in a channel with the sender's happens-before token.
type elem struct {
	v    any
	sync *uint64
}

type waiter struct {
	g           *G
	e           elem // value to send / value received
	ok          bool
	rel         *uint64 // receiver's token (receive), released before it waited
	acq         *uint64 // token the sender acquires on completion
	sel         *selState
	idx         int
	done        bool
	panicClosed bool
}

type selState struct {
	fired bool
	which int
	w     *waiter
	all   []*waiter
}

type hchan struct {
	cap       int
	buf       []elem
	closed    bool
	closeSync uint64
	recvq     []*waiter
	sendq     []*waiter
	freed     []*uint64 // tokens of receives whose slot a later send reuses
	nsent     int64
}

// Chan is the simulated channel.
type Chan[T any] struct{ h hchan }

// MakeChan is make(chan T, n).
//
//go:norace
func MakeChan[T any](n int) *Chan[T] {
	if n < 0 {
		panic("makechan: size out of range")
	}
	c := &Chan[T]{}
	setCap(&c.h, n)
	return c
}

func setCap(h *hchan, n int) { h.cap = n }

//go:norace
func hOf[T any](c *Chan[T]) *hchan {
	if c == nil {
		return nil
	}
	return &c.h
}

// Send is c <- v.
//
//go:norace
func (c *Chan[T]) Send(v T) { chanSend(hOf(c), v) }

// Recv is <-c.
//
//go:norace
func (c *Chan[T]) Recv() T {
	x, _ := chanRecv(hOf(c))
	v, _ := x.(T)
	return v
}

// Recv2 is v, ok := <-c.
//
//go:norace
func (c *Chan[T]) Recv2() (T, bool) {
	x, ok := chanRecv(hOf(c))
	v, _ := x.(T)
	return v, ok
}

// Close is close(c).
//
//go:norace
func (c *Chan[T]) Close() { chanClose(hOf(c)) }

// Len is len(c).
//
//go:norace
func (c *Chan[T]) Len() int { return chanLen(hOf(c)) }

// Cap is cap(c).
//
//go:norace
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return capOf(&c.h)
}

func capOf(h *hchan) int { return h.cap }

// SelCase is one communication of a select.
type SelCase struct {
	h    *hchan
	send bool
	e    elem
	rel  *uint64
	ok   bool
}

// SelSend and SelRecv build select cases.
//
//go:norace
func (c *Chan[T]) SelSend(v T) *SelCase { return selSend(hOf(c), v) }

//go:norace
func (c *Chan[T]) SelRecv() *SelCase { return selRecv(hOf(c)) }

// SelGot returns what a fired receive case received.
//
//go:norace
func (c *Chan[T]) SelGot(s *SelCase) (T, bool) {
	x, ok := selGot(s)
	v, _ := x.(T)
	return v, ok
}

//go:norace
func (c *Chan[T]) SelGot1(s *SelCase) T {
	x, _ := selGot(s)
	v, _ := x.(T)
	return v
}

func selSend(h *hchan, v any) *SelCase {
	return &SelCase{h: h, send: true, e: elem{v, relTok()}}
}
func selRecv(h *hchan) *SelCase     { return &SelCase{h: h, rel: relTok()} }
func selGot(s *SelCase) (any, bool) { return s.e.v, s.ok }

func relTok() *uint64 {
	if !RaceEnabled {
		return nil
	}
	p := new(uint64)
	raceRelease(p)
	return p
}
func acqTok(p *uint64) {
	if RaceEnabled && p != nil {
		raceAcquire(p)
	}
}

func deq(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if x.sel != nil {
			if x.sel.fired {
				continue
			}
			x.sel.fired = true
			x.sel.which = x.idx
			x.sel.w = x
		}
		return x
	}
	return nil
}

func live(q []*waiter) bool {
	for _, x := range q {
		if x.sel == nil || !x.sel.fired {
			return true
		}
	}
	return false
}

// trySend: coordinator side. done=false: would block.
func trySend(w *World, h *hchan, e elem) (done, closed bool, acq *uint64) {
	if h.closed {
		return true, true, nil
	}
	if r := deq(&h.recvq); r != nil {
		r.e, r.ok = e, true
		w.ready(r.g)
		h.nsent++
		if h.cap == 0 {
			return true, false, r.rel
		}
		if RaceEnabled {
			h.freed = append(h.freed, r.rel)
			if h.nsent > int64(h.cap) && len(h.freed) > 0 {
				acq = h.freed[0]
				h.freed = h.freed[1:]
			}
		}
		return true, false, acq
	}
	if len(h.buf) < h.cap {
		h.buf = append(h.buf, e)
		h.nsent++
		if h.nsent > int64(h.cap) && len(h.freed) > 0 {
			acq = h.freed[0]
			h.freed = h.freed[1:]
		}
		return true, false, acq
	}
	return false, false, nil
}

func tryRecv(w *World, h *hchan, rel *uint64) (done bool, e elem, ok bool) {
	if len(h.buf) > 0 {
		e = h.buf[0]
		h.buf = h.buf[1:]
		if RaceEnabled {
			h.freed = append(h.freed, rel)
		}
		if s := deq(&h.sendq); s != nil {
			h.buf = append(h.buf, s.e)
			h.nsent++
			if RaceEnabled && len(h.freed) > 0 {
				s.acq = h.freed[0]
				h.freed = h.freed[1:]
			}
			w.ready(s.g)
		}
		return true, e, true
	}
	if s := deq(&h.sendq); s != nil { // unbuffered
		s.acq = rel
		w.ready(s.g)
		h.nsent++
		return true, s.e, true
	}
	if h.closed {
		return true, elem{}, false
	}
	return false, elem{}, false
}

func chanSend(h *hchan, v any) {
	e := elem{v, relTok()}
	if h == nil {
		call(func() { W.block(cur, "send on nil channel") })
		return
	}
	var closed, done bool
	var acq *uint64
	var wt *waiter
	call(func() {
		w, g := W, cur
		done, closed, acq = trySend(w, h, e)
		if !done {
			wt = &waiter{g: g, e: e}
			h.sendq = append(h.sendq, wt)
			w.block(g, "channel send")
		}
	})
	if !done {
		closed = wt.panicClosed
		acq = wt.acq
	}
	if closed {
		panic(rtError("send on closed channel"))
	}
	acqTok(acq)
}

type rtError string

func (e rtError) Error() string { return string(e) }
func (e rtError) RuntimeError() {}

func chanRecv(h *hchan) (any, bool) {
	rel := relTok()
	if h == nil {
		call(func() { W.block(cur, "receive from nil channel") })
		return nil, false
	}
	var e elem
	var ok, done bool
	var wt *waiter
	call(func() {
		w, g := W, cur
		done, e, ok = tryRecv(w, h, rel)
		if !done {
			wt = &waiter{g: g, rel: rel}
			h.recvq = append(h.recvq, wt)
			w.block(g, "channel receive")
		}
	})
	if !done {
		e, ok = wt.e, wt.ok
	}
	if ok {
		acqTok(e.sync)
	} else if RaceEnabled {
		raceAcquire(&h.closeSync)
	}
	return e.v, ok
}

func chanClose(h *hchan) {
	if h == nil {
		panic(rtError("close of nil channel"))
	}
	if RaceEnabled {
		raceReleaseMerge(&h.closeSync)
	}
	twice := false
	call(func() {
		w := W
		if h.closed {
			twice = true
			return
		}
		h.closed = true
		for r := deq(&h.recvq); r != nil; r = deq(&h.recvq) {
			r.e, r.ok = elem{}, false
			w.ready(r.g)
		}
		for s := deq(&h.sendq); s != nil; s = deq(&h.sendq) {
			s.panicClosed = true
			w.ready(s.g)
		}
	})
	if twice {
		panic(rtError("close of closed channel"))
	}
}

func chanLen(h *hchan) int {
	if h == nil {
		return 0
	}
	n := 0
	call(func() { n = len(h.buf) })
	return n
}

// Select runs a select statement and returns the index of the case that fired,
// or -1 for the default case.
func Select(hasDefault bool, cs ...*SelCase) int {
	which := -2
	var st *selState
	var acq *uint64
	closedSend := false
	call(func() {
		w, g := W, cur
		var rdy []int
		for i, c := range cs {
			if c.h == nil {
				continue
			}
			if c.send {
				if c.h.closed || live(c.h.recvq) || len(c.h.buf) < c.h.cap {
					rdy = append(rdy, i)
				}
			} else if len(c.h.buf) > 0 || live(c.h.sendq) || c.h.closed {
				rdy = append(rdy, i)
			}
		}
		if len(rdy) > 0 {
			which = rdy[int(w.hashAt(77)%uint64(len(rdy)))]
			c := cs[which]
			if c.send {
				_, closedSend, acq = trySend(w, c.h, c.e)
			} else {
				_, c.e, c.ok = tryRecv(w, c.h, c.rel)
			}
			return
		}
		if hasDefault {
			which = -1
			return
		}
		st = &selState{}
		for i, c := range cs {
			if c.h == nil {
				continue
			}
			wt := &waiter{g: g, e: c.e, rel: c.rel, sel: st, idx: i}
			if c.send {
				c.h.sendq = append(c.h.sendq, wt)
			} else {
				c.h.recvq = append(c.h.recvq, wt)
			}
		}
		w.block(g, "select")
	})
	if st != nil {
		which = st.which
		c := cs[which]
		if c.send {
			closedSend = st.w.panicClosed
			acq = st.w.acq
		} else {
			c.e, c.ok = st.w.e, st.w.ok
		}
	}
	if which < 0 {
		return which
	}
	if closedSend {
		panic(rtError("send on closed channel"))
	}
	c := cs[which]
	if c.send {
		acqTok(acq)
	} else if c.ok {
		acqTok(c.e.sync)
	} else if RaceEnabled {
		raceAcquire(&c.h.closeSync)
	}
	return which
}
