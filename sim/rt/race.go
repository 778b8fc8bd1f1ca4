package rt

import (
	"fmt"
	"reflect"
	"unsafe"
)

// Happens-before tracking. In runs with Config.Race every access of the code under test
// to memory that goroutines may share is reported by calls that instr inserted (R, W, ...),
// and every synchronisation operation of the stand-ins releases or acquires a vector
// clock, with the edges the Go memory model promises (never fewer). Two conflicting
// accesses that are not ordered are a data race whatever the schedule of this run was.

// VC is a vector clock, indexed by goroutine.
type VC []uint32

func (v *VC) join(o VC) {
	if len(o) > len(*v) {
		n := make(VC, len(o)+4)
		copy(n, *v)
		*v = n
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v *VC) Join(o VC) { v.join(o) }

func (v VC) clone() VC { return append(VC(nil), v...) }

func (g *G) epoch() uint32 { return g.vc[g.ID] }

func (g *G) tick() { g.vc[g.ID]++ }

func (s *Sim) raceG() *G {
	if s == nil || !s.Cfg.Race || s.inEvent || s.cur == nil || s.cur.dead {
		return nil
	}
	return s.cur
}

// Release makes everything the running goroutine has done visible to who acquires v.
func Release(v *VC) {
	if g := S.raceG(); g != nil {
		v.join(g.vc)
		g.tick()
	}
}

// Acquire orders what was released into v before what the running goroutine does next.
func Acquire(v *VC) {
	if g := S.raceG(); g != nil && len(*v) > 0 {
		g.vc.join(*v)
	}
}

// Snapshot is Release into a fresh clock (nil when races are not looked for).
func Snapshot() VC { return S.snap() }

func (s *Sim) snap() VC {
	g := s.raceG()
	if g == nil {
		if s != nil && s.inEvent {
			return s.evVC
		}
		return nil
	}
	v := g.vc.clone()
	g.tick()
	return v
}

// AddrSync is the clock of a memory word used atomically.
func AddrSync(p unsafe.Pointer) *VC {
	if S.raceG() == nil {
		return &VC{}
	}
	v := S.addrVC[p]
	if v == nil {
		v = &VC{}
		S.addrVC[p] = v
	}
	return v
}

// Atomic orders an atomic operation on p with the others on p.
func Atomic(p unsafe.Pointer, size uintptr, write bool) {
	if S.raceG() == nil {
		return
	}
	v := AddrSync(p)
	Acquire(v)
	S.access(p, size, write, true, "atomic operation")
	Release(v)
}

// IOSync is the edge that the runtime gives from every completed write system call to
// later read system calls.
func IOSync(read bool) {
	if S.raceG() == nil {
		return
	}
	if read {
		Acquire(&S.ioVC)
	} else {
		Release(&S.ioVC)
	}
}

// racing: the simulation in progress looks for data races.
var racing bool

type acc struct {
	g     int32
	at    uint32
	mask  uint8
	write bool
	atom  bool
	site  string
}

func (s *Sim) access(p unsafe.Pointer, size uintptr, write, atom bool, site string) {
	g := s.cur
	if size == 0 {
		return
	}
	if size > 256 {
		size = 256
	}
	base := uintptr(p) &^ 7
	off := uintptr(p) - base
	for {
		n := 8 - off
		if n > size {
			n = size
		}
		mask := uint8((1<<n - 1) << off)
		s.word(g, unsafe.Add(p, base-uintptr(p)), mask, write, atom, site)
		size -= n
		if size == 0 {
			return
		}
		base += 8
		off = 0
	}
}

func (s *Sim) word(g *G, p unsafe.Pointer, mask uint8, write, atom bool, site string) {
	l := s.shadow[p]
	keep := l[:0]
	for _, a := range l {
		ordered := int(a.g) == g.ID || (int(a.g) < len(g.vc) && a.at <= g.vc[a.g])
		if !ordered && a.mask&mask != 0 && (a.write || write) && !(a.atom && atom) && s.Race == "" {
			kind := func(w bool) string {
				if w {
					return "write"
				}
				return "read"
			}
			s.Race = fmt.Sprintf("%s at %s by g%d/%s is not ordered with the %s at %s by g%d/%s", kind(write), site, g.ID, g.Name,
				kind(a.write), a.site, a.g, s.gs[a.g].Name)
			s.Note("race", s.Race)
		}
		// an ordered access that this one covers can no longer be the first half of a race this one is not
		if ordered && a.mask&^mask == 0 && (write || !a.write) && (a.atom || !atom) {
			continue
		}
		keep = append(keep, a)
	}
	if len(keep) > 24 {
		keep = keep[1:]
	}
	s.shadow[p] = append(keep, acc{int32(g.ID), g.epoch(), mask, write, atom, site})
}

// Touch notes an access to the size bytes at p.
func touch(p unsafe.Pointer, size uintptr, write bool, site string) {
	if p == nil || S.raceG() == nil {
		return
	}
	S.access(p, size, write, false, site)
}

// R and W note a read and a write of *p.
func R[T any](p *T, site string) *T {
	if racing {
		touch(unsafe.Pointer(p), unsafe.Sizeof(*p), false, site)
	}
	return p
}

func W[T any](p *T, site string) *T {
	if racing {
		touch(unsafe.Pointer(p), unsafe.Sizeof(*p), true, site)
	}
	return p
}

// WA notes a write that has just happened at the address p returns.
func WA(p func() any, site string) {
	if !racing {
		return
	}
	defer func() {
		if S.cur == nil || !S.cur.dead {
			recover()
		}
	}()
	v := reflect.ValueOf(p())
	touch(v.UnsafePointer(), v.Type().Elem().Size(), true, site)
}

// RM and WM note a read and a write of a map.
func RM[M ~map[K]V, K comparable, V any](m M, site string) M {
	if racing {
		touch(*(*unsafe.Pointer)(unsafe.Pointer(&m)), 1, false, site)
	}
	return m
}

func WM[M ~map[K]V, K comparable, V any](m M, site string) M {
	if racing {
		touch(*(*unsafe.Pointer)(unsafe.Pointer(&m)), 1, true, site)
	}
	return m
}

// O notes that a method of an object that must not be used concurrently is called.
func O[T any](p *T, site string) *T {
	if racing {
		touch(unsafe.Pointer(p), 1, true, site)
	}
	return p
}

// Racing reports whether data races are looked for.
func Racing() bool { return S.raceG() != nil }
