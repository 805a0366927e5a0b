package simrt

import (
	"reflect"
	"runtime"
	"time"
)

// Block parks the current task until ready; used by the sync stand-ins. It
// reports false if the process is ending.
func Block(ready func() bool) bool {
	w := W
	if w == nil {
		for !ready() {
			runtime.Gosched()
		}
		return true
	}
	if w.killed {
		return false
	}
	w.block(ready)
	return !w.killed
}

// Point is a preemption point at an operation on a shared object.
func Point() {
	if W != nil && Multi {
		Y2(0)
	}
}

// Ending is true while a killed process unwinds.
func Ending() bool { return W != nil && W.killed }

// TaskID identifies the running task.
func TaskID() int {
	if W == nil || W.cur == nil {
		return 0
	}
	return W.cur.ID
}

// ---- channels ----

// A channel made by instrumented code is only a name: its state is here.
type simChan struct {
	cap    int
	buf    []any
	closed bool
	sendq  []*chWait
	recvq  []*chWait
}

type chWait struct {
	v    any
	ok   bool
	done bool
	sel  *selWait
	idx  int
}

type selWait struct {
	fired bool
	idx   int
	v     any
	ok    bool
}

func chKey(c any) uintptr { return reflect.ValueOf(c).Pointer() }

func (w *World) ch(c any) *simChan {
	v := reflect.ValueOf(c)
	if w.vars == nil {
		w.vars = map[any]any{}
	}
	k := v.Pointer()
	if s, ok := w.vars[k]; ok {
		return s.(*simChan)
	}
	s := &simChan{cap: v.Cap()}
	w.vars[k] = s
	w.keep = append(w.keep, c) // the address must stay taken
	return s
}

func take(q *[]*chWait) *chWait {
	for len(*q) > 0 {
		h := (*q)[0]
		*q = (*q)[1:]
		if h.sel != nil {
			if h.sel.fired {
				continue
			}
			h.sel.fired = true
			h.sel.idx = h.idx
		}
		return h
	}
	return nil
}

func (s *simChan) trySend(v any) bool {
	if s.closed {
		panic("send on closed channel")
	}
	if h := take(&s.recvq); h != nil {
		h.v, h.ok, h.done = v, true, true
		if h.sel != nil {
			h.sel.v, h.sel.ok = v, true
		}
		return true
	}
	if len(s.buf) < s.cap {
		s.buf = append(s.buf, v)
		return true
	}
	return false
}

func (s *simChan) tryRecv() (any, bool, bool) {
	if len(s.buf) > 0 {
		v := s.buf[0]
		s.buf = s.buf[1:]
		if h := take(&s.sendq); h != nil {
			h.done = true
			s.buf = append(s.buf, h.v)
		}
		return v, true, true
	}
	if h := take(&s.sendq); h != nil {
		h.done = true
		return h.v, true, true
	}
	if s.closed {
		return nil, false, true
	}
	return nil, false, false
}

func Send[T any](c chan<- T, v T) {
	w := W
	if w == nil {
		c <- v
		return
	}
	if w.killed {
		return
	}
	Point()
	if c == nil {
		w.block(func() bool { return false })
	}
	s := w.ch(c)
	if s.trySend(v) {
		return
	}
	h := &chWait{v: v}
	s.sendq = append(s.sendq, h)
	w.block(func() bool { return h.done || s.closed })
	if !h.done {
		panic("send on closed channel")
	}
}

func Recv2[T any](c <-chan T) (r T, ok bool) {
	w := W
	if w == nil {
		r, ok = <-c
		return
	}
	if w.killed {
		return
	}
	Point()
	if c == nil {
		w.block(func() bool { return false })
	}
	if select0(c, &r, &ok) {
		return
	}
	s := w.ch(c)
	v, ok, got := s.tryRecv()
	if !got {
		h := &chWait{}
		s.recvq = append(s.recvq, h)
		w.block(func() bool { return h.done || s.closed })
		v, ok = h.v, h.ok
	}
	if v != nil {
		r = v.(T)
	}
	return r, ok
}

// select0 takes a value from a real channel, one made outside the instrumented code.
func select0[T any](c <-chan T, r *T, ok *bool) bool {
	select {
	case *r, *ok = <-c:
		return true
	default:
		return false
	}
}

func Recv[T any](c <-chan T) T {
	r, _ := Recv2(c)
	return r
}

func CloseChan[T any](c chan<- T) {
	w := W
	if w == nil {
		close(c)
		return
	}
	if w.killed {
		return
	}
	Point()
	s := w.ch(c)
	if s.closed {
		panic("close of closed channel")
	}
	s.closed = true
	for {
		h := take(&s.recvq)
		if h == nil {
			break
		}
		h.done = true
	}
}

func LenChan(c any) int {
	if W == nil {
		return reflect.ValueOf(c).Len()
	}
	return len(W.ch(c).buf)
}

// SelCase is one case of a select statement.
type SelCase struct {
	ch   any
	send bool
	v    any
}

func CaseSend[T any](c chan<- T, v T) SelCase { return SelCase{c, true, v} }
func CaseRecv[T any](c <-chan T) SelCase      { return SelCase{c, false, nil} }

type SelResult struct {
	I  int
	V  any
	OK bool
}

// Select decides a select statement; I is -1 for the default case.
func Select(def bool, cases ...SelCase) SelResult {
	w := W
	if w == nil {
		panic("select outside a simulation")
	}
	if w.killed {
		runtime.Goexit()
	}
	Point()
	var ready []int
	for i, c := range cases {
		if reflect.ValueOf(c.ch).IsNil() {
			continue
		}
		s := w.ch(c.ch)
		if c.send {
			if s.closed || len(s.buf) < s.cap || pending(s.recvq) {
				ready = append(ready, i)
			}
		} else if len(s.buf) > 0 || s.closed || pending(s.sendq) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[w.sched.N(len(ready))]
		c := cases[i]
		s := w.ch(c.ch)
		if c.send {
			s.trySend(c.v)
			return SelResult{I: i}
		}
		v, ok, _ := s.tryRecv()
		return SelResult{i, v, ok}
	}
	if def {
		return SelResult{I: -1}
	}
	sel := &selWait{}
	var cs []*simChan
	for i, c := range cases {
		if reflect.ValueOf(c.ch).IsNil() {
			continue
		}
		s := w.ch(c.ch)
		cs = append(cs, s)
		h := &chWait{v: c.v, sel: sel, idx: i}
		if c.send {
			s.sendq = append(s.sendq, h)
		} else {
			s.recvq = append(s.recvq, h)
		}
	}
	w.block(func() bool { return sel.fired })
	return SelResult{sel.idx, sel.v, sel.ok}
}

func pending(q []*chWait) bool {
	for _, h := range q {
		if h.sel == nil || !h.sel.fired {
			return true
		}
	}
	return false
}

// SelVal converts a received value.
func SelVal[T any](c <-chan T, r SelResult) T {
	var z T
	if r.V == nil {
		return z
	}
	return r.V.(T)
}

// Guard evaluates map expressions ahead of their statement; if that panics the
// statement itself will tell.
func Guard(f func()) {
	if W == nil || W.killed {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			return
		}
	}()
	f()
}

// After replaces time.After.
func After(d time.Duration) <-chan time.Time {
	if W == nil {
		return time.After(d)
	}
	c := make(chan time.Time, 1)
	Go(func() {
		Sleep(d)
		Send(c, time.Now())
	})
	return c
}
