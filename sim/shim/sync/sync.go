// Package sync replaces the standard package in the code under test: every operation is
// a scheduling point of the simulator.
package sync

import (
	real "sync"

	"verifsim/rt"
)

type Locker = real.Locker

type Mutex struct {
	locked bool
	vc     rt.VC
}

func (m *Mutex) Lock() {
	if rt.Dead() {
		return
	}
	rt.YS()
	if m.locked {
		rt.Park("mutex", func() bool { return !m.locked })
	}
	m.locked = true
	rt.Acquire(&m.vc)
}

func (m *Mutex) TryLock() bool {
	if rt.Dead() {
		return false
	}
	rt.YS()
	if m.locked {
		return false
	}
	m.locked = true
	rt.Acquire(&m.vc)
	return true
}

func (m *Mutex) Unlock() {
	if rt.Dead() {
		return
	}
	if !m.locked {
		rt.Fatal("fatal error: sync: unlock of unlocked mutex")
	}
	rt.Release(&m.vc)
	m.locked = false
	rt.YS()
}

type RWMutex struct {
	w       bool
	r, wait int
	vw, vr  rt.VC
}

func (m *RWMutex) Lock() {
	if rt.Dead() {
		return
	}
	rt.YS()
	if m.w || m.r > 0 {
		// a waiting writer keeps new readers out, as in the real RWMutex
		m.wait++
		rt.Park("rwmutex write lock", func() bool { return !m.w && m.r == 0 })
		m.wait--
	}
	m.w = true
	rt.Acquire(&m.vw)
	rt.Acquire(&m.vr)
}

func (m *RWMutex) TryLock() bool {
	if rt.Dead() {
		return false
	}
	rt.YS()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	rt.Acquire(&m.vw)
	rt.Acquire(&m.vr)
	return true
}

func (m *RWMutex) Unlock() {
	if rt.Dead() {
		return
	}
	if !m.w {
		rt.Fatal("fatal error: sync: Unlock of unlocked RWMutex")
	}
	rt.Release(&m.vw)
	m.w = false
	rt.YS()
}

func (m *RWMutex) RLock() {
	if rt.Dead() {
		return
	}
	rt.YS()
	if m.w || m.wait > 0 {
		rt.Park("rwmutex read lock", func() bool { return !m.w && m.wait == 0 })
	}
	m.r++
	rt.Acquire(&m.vw)
}

func (m *RWMutex) TryRLock() bool {
	if rt.Dead() {
		return false
	}
	rt.YS()
	if m.w || m.wait > 0 {
		return false
	}
	m.r++
	rt.Acquire(&m.vw)
	return true
}

func (m *RWMutex) RUnlock() {
	if rt.Dead() {
		return
	}
	if m.r <= 0 {
		rt.Fatal("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	rt.Release(&m.vr)
	m.r--
	rt.YS()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	n  int
	vc rt.VC
}

func (w *WaitGroup) Add(d int) {
	if rt.Dead() {
		return
	}
	rt.YS()
	rt.Release(&w.vc)
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if rt.Dead() {
		return
	}
	rt.YS()
	rt.Park("waitgroup", func() bool { return w.n == 0 })
	rt.Acquire(&w.vc)
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
	vc   rt.VC
}

func (o *Once) Do(f func()) {
	if rt.Dead() {
		return
	}
	if o.done {
		rt.Acquire(&o.vc)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { rt.Release(&o.vc); o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

type Cond struct {
	L       Locker
	waiters []*bool
	vc      rt.VC
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if rt.Dead() {
		return
	}
	fired := false
	c.waiters = append(c.waiters, &fired)
	c.L.Unlock()
	rt.Park("cond", func() bool { return fired })
	rt.Acquire(&c.vc)
	c.L.Lock()
}

func (c *Cond) Signal() {
	if rt.Dead() {
		return
	}
	rt.YS()
	rt.Release(&c.vc)
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
}

func (c *Cond) Broadcast() {
	if rt.Dead() {
		return
	}
	rt.YS()
	rt.Release(&c.vc)
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
}

type Pool struct {
	New  func() any
	free []any
	vc   rt.VC
}

func (p *Pool) Get() any {
	rt.YS()
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		rt.Acquire(&p.vc)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	rt.YS()
	if x != nil && !rt.Dead() {
		rt.Release(&p.vc)
		p.free = append(p.free, x)
	}
}

// Map has the semantics of sync.Map; iteration order is chosen by the simulator.
type Map struct {
	m    map[any]*any
	keys []any
	vcs  map[any]*rt.VC // of the writers of each key
}

// saw and wrote order a write of a key before the operations that observe it.
func (m *Map) saw(key any) {
	if v := m.vcs[key]; v != nil {
		rt.Acquire(v)
	}
}

func (m *Map) wrote(key any) {
	if !rt.Racing() {
		return
	}
	if m.vcs == nil {
		m.vcs = map[any]*rt.VC{}
	}
	v := m.vcs[key]
	if v == nil {
		v = &rt.VC{}
		m.vcs[key] = v
	}
	rt.Release(v)
}

func (m *Map) Load(key any) (any, bool) {
	rt.YS()
	m.saw(key)
	if p := m.m[key]; p != nil {
		return *p, true
	}
	return nil, false
}

func (m *Map) put(key, value any) {
	if rt.Dead() {
		return
	}
	m.wrote(key)
	if m.m == nil {
		m.m = map[any]*any{}
	}
	if p := m.m[key]; p != nil {
		v := value
		m.m[key] = &v
		return
	}
	v := value
	m.m[key] = &v
	m.keys = append(m.keys, key)
}

func (m *Map) del(key any) {
	if rt.Dead() || m.m[key] == nil {
		return
	}
	m.wrote(key)
	delete(m.m, key)
	for i, k := range m.keys {
		if k == key {
			m.keys = append(append([]any(nil), m.keys[:i]...), m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Store(key, value any) { rt.YS(); m.put(key, value) }

func (m *Map) LoadOrStore(key, value any) (any, bool) {
	rt.YS()
	m.saw(key)
	if p := m.m[key]; p != nil {
		return *p, true
	}
	m.put(key, value)
	return value, false
}

func (m *Map) LoadAndDelete(key any) (any, bool) {
	rt.YS()
	m.saw(key)
	if p := m.m[key]; p != nil {
		v := *p
		m.del(key)
		return v, true
	}
	return nil, false
}

func (m *Map) Delete(key any) { rt.YS(); m.del(key) }

func (m *Map) Swap(key, value any) (any, bool) {
	rt.YS()
	m.saw(key)
	p := m.m[key]
	m.put(key, value)
	if p != nil {
		return *p, true
	}
	return nil, false
}

func (m *Map) CompareAndSwap(key, old, new any) bool {
	rt.YS()
	m.saw(key)
	if p := m.m[key]; p != nil && *p == old {
		m.put(key, new)
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(key, old any) bool {
	rt.YS()
	m.saw(key)
	if p := m.m[key]; p != nil && *p == old {
		m.del(key)
		return true
	}
	return false
}

func (m *Map) Range(f func(key, value any) bool) {
	rt.YS()
	keys := append([]any(nil), m.keys...)
	for _, i := range rt.Order(len(keys)) {
		rt.YS()
		p := m.m[keys[i]]
		if p == nil {
			continue
		}
		m.saw(keys[i])
		if !f(keys[i], *p) {
			return
		}
	}
}

func (m *Map) Clear() {
	rt.YS()
	if rt.Dead() {
		return
	}
	for _, k := range m.keys {
		m.wrote(k)
	}
	m.m, m.keys = nil, nil
}
