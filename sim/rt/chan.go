package rt

import (
	"math/rand/v2"
	"runtime"
	"unsafe"
)

// Channels of the code under test keep their Go type; their state lives here, keyed by
// the channel's address, with the semantics of Go channels.

type hchan struct {
	keep   any
	buf    []any
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	vcs    []VC // of the senders of buf
	slots  []VC // of the receivers that made room
	endVC  VC   // of who closed it
}

type selState struct {
	g     *G
	fired int
	val   any
	ok    bool
	pan   bool
	vc    VC // of the other side
}

type waiter struct {
	sel *selState
	idx int
	val any
	vc  VC
}

func (w *waiter) live() bool { return w.sel.fired < 0 && !w.sel.g.dead && !w.sel.g.Done }

func (s *Sim) hc(key uintptr, keep any, c int) *hchan {
	h := s.chans[key]
	if h == nil {
		h = &hchan{keep: keep, cap: c}
		s.chans[key] = h
	}
	return h
}

func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.live() {
			return w
		}
	}
	return nil
}

func (h *hchan) trySend(v any) (done bool) {
	if h.closed {
		panic("send on closed channel")
	}
	if w := pop(&h.recvq); w != nil {
		w.sel.fired, w.sel.val, w.sel.ok, w.sel.vc = w.idx, v, true, Snapshot()
		Acquire(&w.vc)
		return true
	}
	if len(h.buf) < h.cap {
		h.buf = append(h.buf, v)
		if S.Cfg.Race {
			if len(h.slots) > 0 {
				Acquire(&h.slots[0])
				h.slots = h.slots[1:]
			}
			h.vcs = append(h.vcs, Snapshot())
		}
		return true
	}
	return false
}

func (h *hchan) tryRecv() (v any, ok, done bool) {
	if len(h.buf) > 0 {
		v = h.buf[0]
		h.buf = append([]any(nil), h.buf[1:]...)
		var me VC
		if S.Cfg.Race {
			Acquire(&h.vcs[0])
			h.vcs = append([]VC(nil), h.vcs[1:]...)
			me = Snapshot()
		}
		if w := pop(&h.sendq); w != nil {
			h.buf = append(h.buf, w.val)
			w.sel.fired, w.sel.vc = w.idx, me
			if S.Cfg.Race {
				h.vcs = append(h.vcs, w.vc)
			}
		} else if S.Cfg.Race {
			h.slots = append(h.slots, me)
		}
		return v, true, true
	}
	if w := pop(&h.sendq); w != nil {
		Acquire(&w.vc)
		w.sel.fired, w.sel.vc = w.idx, Snapshot()
		return w.val, true, true
	}
	if h.closed {
		Acquire(&h.endVC)
		return nil, false, true
	}
	return nil, false, false
}

func keyOf[T any](c chan T) uintptr  { return *(*uintptr)(unsafe.Pointer(&c)) }
func keyR[T any](c <-chan T) uintptr { return *(*uintptr)(unsafe.Pointer(&c)) }
func keyS[T any](c chan<- T) uintptr { return *(*uintptr)(unsafe.Pointer(&c)) }

func as[T any](v any) (t T) {
	if v == nil {
		return t
	}
	return v.(T)
}

func outside() {
	if S == nil {
		panic("rt: channel operation outside the simulation")
	}
}

// TrySend is for event callbacks (timers): it never blocks.
func TrySend[T any](c chan T, v T) bool {
	h := S.hc(keyOf(c), c, cap(c))
	if h.closed {
		return false
	}
	return h.trySend(v)
}

func forever(why string) {
	Park(why, func() bool { return false })
}

func SendTo[T any](c chan<- T) func(T) {
	return func(v T) {
		outside()
		s := S
		if s.Dead() {
			return
		}
		s.yield(4)
		if c == nil {
			forever("send on nil channel")
		}
		h := s.hc(keyS(c), c, cap(c))
		if h.trySend(v) {
			s.yield(4)
			return
		}
		sel := &selState{g: s.cur, fired: -1}
		h.sendq = append(h.sendq, &waiter{sel, 0, v, Snapshot()})
		Park("chan send", func() bool { return sel.fired >= 0 })
		Acquire(&sel.vc)
		if sel.pan {
			panic("send on closed channel")
		}
	}
}

func Recv[T any](c <-chan T) T { v, _ := Recv2(c); return v }

func Recv2[T any](c <-chan T) (t T, ok bool) {
	outside()
	s := S
	if s.Dead() {
		runtime.Goexit()
	}
	s.yield(4)
	if c == nil {
		forever("receive from nil channel")
	}
	h := s.hc(keyR(c), c, cap(c))
	if v, ok, done := h.tryRecv(); done {
		return as[T](v), ok
	}
	sel := &selState{g: s.cur, fired: -1}
	h.recvq = append(h.recvq, &waiter{sel, 0, nil, Snapshot()})
	Park("chan receive", func() bool { return sel.fired >= 0 })
	Acquire(&sel.vc)
	return as[T](sel.val), sel.ok
}

func Close[T any](c chan<- T) {
	outside()
	s := S
	if s.Dead() {
		return
	}
	s.yield(4)
	if c == nil {
		panic("close of nil channel")
	}
	h := s.hc(keyS(c), c, cap(c))
	if h.closed {
		panic("close of closed channel")
	}
	h.closed = true
	h.endVC = Snapshot()
	for w := pop(&h.recvq); w != nil; w = pop(&h.recvq) {
		w.sel.fired, w.sel.val, w.sel.ok, w.sel.vc = w.idx, nil, false, h.endVC
	}
	for w := pop(&h.sendq); w != nil; w = pop(&h.sendq) {
		w.sel.fired, w.sel.pan = w.idx, true
	}
	s.yield(4)
}

// Closed reports whether c has been closed (for the harness).
func Closed[T any](c <-chan T) bool {
	h := S.chans[keyR(c)]
	return h != nil && h.closed
}

func Len[T any](c <-chan T) int {
	if S == nil || c == nil {
		return 0
	}
	S.yield(4)
	return len(S.hc(keyR(c), c, cap(c)).buf)
}

func LenS[T any](c chan<- T) int {
	if S == nil || c == nil {
		return 0
	}
	S.yield(4)
	return len(S.hc(keyS(c), c, cap(c)).buf)
}

// Queued is Len for the conditions of Block: it does not yield.
func Queued[T any](c <-chan T) int { return len(S.hc(keyR(c), c, cap(c)).buf) }

// Case is one clause of a select statement.
type Case interface {
	get() *hchan
	isSend() bool
	sendVal() any
	set(v any, ok bool)
}

type RecvCase[T any] struct {
	c  <-chan T
	V  T
	Ok bool
}

func (r *RecvCase[T]) get() *hchan {
	if r.c == nil {
		return nil
	}
	return S.hc(keyR(r.c), r.c, cap(r.c))
}
func (r *RecvCase[T]) isSend() bool       { return false }
func (r *RecvCase[T]) sendVal() any       { return nil }
func (r *RecvCase[T]) set(v any, ok bool) { r.V, r.Ok = as[T](v), ok }

type SendCase[T any] struct {
	c chan<- T
	v T
}

func (r *SendCase[T]) get() *hchan {
	if r.c == nil {
		return nil
	}
	return S.hc(keyS(r.c), r.c, cap(r.c))
}
func (r *SendCase[T]) isSend() bool       { return true }
func (r *SendCase[T]) sendVal() any       { return r.v }
func (r *SendCase[T]) set(v any, ok bool) {}

func NewRecv[T any](c <-chan T) *RecvCase[T] { outside(); return &RecvCase[T]{c: c} }
func NewSend[T any](c chan<- T) func(T) *SendCase[T] {
	outside()
	return func(v T) *SendCase[T] { return &SendCase[T]{c: c, v: v} }
}

// Select returns the index of the clause that fired, or -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	s := S
	outside()
	if s.Dead() {
		runtime.Goexit()
	}
	s.yield(4)
	n := len(cases)
	if n > 0 {
		off := 0
		if n > 1 {
			off = s.Choose("select", func(r *rand.Rand) int { return r.IntN(n) })
			if off < 0 {
				off = -off
			}
		}
		for k := 0; k < n; k++ {
			i := (k + off) % n
			h := cases[i].get()
			if h == nil {
				continue
			}
			if cases[i].isSend() {
				if h.trySend(cases[i].sendVal()) {
					return i
				}
			} else if v, ok, done := h.tryRecv(); done {
				cases[i].set(v, ok)
				return i
			}
		}
	}
	if hasDefault {
		return -1
	}
	sel := &selState{g: s.cur, fired: -1}
	me := Snapshot()
	for i, c := range cases {
		h := c.get()
		if h == nil {
			continue
		}
		if c.isSend() {
			h.sendq = append(h.sendq, &waiter{sel, i, c.sendVal(), me})
		} else {
			h.recvq = append(h.recvq, &waiter{sel, i, nil, me})
		}
	}
	Park("select", func() bool { return sel.fired >= 0 })
	Acquire(&sel.vc)
	if sel.pan {
		panic("send on closed channel")
	}
	cases[sel.fired].set(sel.val, sel.ok)
	return sel.fired
}

// ChanIter and MapIter implement range statements.
type ChanIter[T any] struct{ c <-chan T }

func ChanRange[T any](c <-chan T) (*ChanIter[T], T) {
	var z T
	return &ChanIter[T]{c}, z
}

func (i *ChanIter[T]) Next(v *T) bool {
	x, ok := Recv2(i.c)
	if !ok {
		return false
	}
	if v != nil {
		*v = x
	}
	return true
}

// CloseQuiet closes a channel without a scheduling point (for timers and contexts).
func CloseQuiet[T any](c chan T) {
	h := S.hc(keyOf(c), c, cap(c))
	if h.closed {
		return
	}
	h.closed = true
	h.endVC = Snapshot()
	for w := pop(&h.recvq); w != nil; w = pop(&h.recvq) {
		w.sel.fired, w.sel.val, w.sel.ok, w.sel.vc = w.idx, nil, false, h.endVC
	}
	for w := pop(&h.sendq); w != nil; w = pop(&h.sendq) {
		w.sel.fired, w.sel.pan = w.idx, true
	}
}
