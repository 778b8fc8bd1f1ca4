// Package rt is the simulator core: one seeded scheduler that decides which simulated
// goroutine runs at every synchronisation point and statement of the code under test, a
// virtual clock, an event queue, and a trace of every choice from which a run is repeated
// exactly or shrunk.
package rt

import (
	"container/heap"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// S is the simulation in progress (nil outside a run). Only one goroutine of a run is
// ever executing, so no lock protects anything in this package.
var S *Sim

type G struct {
	ID     int
	Name   string
	Proc   int
	resume chan struct{}
	exited chan struct{}
	cond   func() bool
	Why    string
	Done   bool
	dead   bool
	quant  int
	Steps  int64
	vc     VC
}

// Trace holds every non-default choice of a run: stream name -> position -> value.
type Trace map[string]map[int64]int

func (t Trace) Clone() Trace {
	o := Trace{}
	for k, m := range t {
		n := map[int64]int{}
		for a, b := range m {
			n[a] = b
		}
		o[k] = n
	}
	return o
}

func (t Trace) Size() int {
	n := 0
	for _, m := range t {
		n += len(m)
	}
	return n
}

type Config struct {
	Seed      uint64
	Replay    Trace // nil: generate choices from Seed
	MeanGap   float64
	StepCost  int64 // simulated ns per step
	MaxSteps  int64
	MaxTime   int64 // simulated ns
	Wall      int64 // ns the wall clock is ahead of Epoch when the run starts
	StallProb float64
	StallMax  int64
	Verbose   bool
	Race      bool // look for data races (no effect on the schedule)
}

type Crash struct {
	G     string
	Value string
	Stack string
}

type event struct {
	at, seq int64
	fn      func()
	off     *bool
	vc      VC
}
type evHeap []event

func (h evHeap) Len() int { return len(h) }
func (h evHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || (h[i].at == h[j].at && h[i].seq < h[j].seq)
}
func (h evHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *evHeap) Push(x any)   { *h = append(*h, x.(event)) }
func (h *evHeap) Pop() any     { o := *h; n := len(o); x := o[n-1]; *h = o[:n-1]; return x }

type stream struct {
	n   int64
	rng *rand.Rand
}

type Sim struct {
	Left     []string // goroutines that had not ended when the run did
	Cfg      Config
	now      int64
	seq      int64
	events   evHeap
	gs       []*G
	cur      *G
	inEvent  bool
	Steps    int64
	credit   int64
	nextPre  int64
	preKeys  []int64
	preRng   *rand.Rand
	streams  map[string]*stream
	Out      Trace
	hash     uint64
	SchedSig uint64
	Switches int64
	Log      []string
	Crash    *Crash
	StopWhy  string
	root     chan struct{}
	stopped  bool
	chans    map[uintptr]*hchan
	Ext      map[string]any
	IdleHops int64
	Proc     int
	Fired    map[string]int64
	Probes   map[string]int64
	OpSeq    int64
	Race     string // the first data race
	shadow   map[unsafe.Pointer][]acc
	addrVC   map[unsafe.Pointer]*VC
	ioVC     VC
	evVC     VC // for what an event does: what was done before the event was set
}

const quantum = 3000

func strHash(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() }

func mix(h, v uint64) uint64 {
	h ^= v
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	return h
}

func New(cfg Config) *Sim {
	if cfg.StepCost == 0 {
		cfg.StepCost = 100
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 5_000_000
	}
	if cfg.MaxTime == 0 {
		cfg.MaxTime = 1 << 62
	}
	s := &Sim{Cfg: cfg, streams: map[string]*stream{}, Out: Trace{}, root: make(chan struct{}, 1),
		chans: map[uintptr]*hchan{}, Ext: map[string]any{}, Fired: map[string]int64{}, Probes: map[string]int64{},
		hash: 14695981039346656037, SchedSig: 1469598103}
	s.preRng = rand.New(rand.NewPCG(cfg.Seed, strHash("pre")))
	if cfg.Replay != nil {
		for k := range cfg.Replay["pre"] {
			s.preKeys = append(s.preKeys, k)
		}
		for k := range cfg.Replay["stall"] {
			if _, dup := cfg.Replay["pre"][k]; !dup {
				s.preKeys = append(s.preKeys, k)
			}
		}
		sort.Slice(s.preKeys, func(i, j int) bool { return s.preKeys[i] < s.preKeys[j] })
	}
	if cfg.Race {
		s.shadow, s.addrVC = map[unsafe.Pointer][]acc{}, map[unsafe.Pointer]*VC{}
	}
	s.setNextPre()
	return s
}

func (s *Sim) setNextPre() {
	if s.Cfg.Replay != nil {
		for len(s.preKeys) > 0 && s.preKeys[0] <= s.credit {
			s.preKeys = s.preKeys[1:]
		}
		if len(s.preKeys) > 0 {
			s.nextPre = s.preKeys[0]
		} else {
			s.nextPre = 1 << 62
		}
		return
	}
	if s.Cfg.MeanGap <= 0 {
		s.nextPre = 1 << 62
		return
	}
	s.nextPre = s.credit + 1 + int64(s.preRng.ExpFloat64()*s.Cfg.MeanGap)
}

// Choose draws one decision. In a generating run gen supplies it from the stream's own
// PRNG; in a replay it comes from the trace (0, the default, where the trace has none).
func (s *Sim) Choose(name string, gen func(r *rand.Rand) int) int {
	st := s.streams[name]
	if st == nil {
		st = &stream{rng: rand.New(rand.NewPCG(s.Cfg.Seed, strHash(name)))}
		s.streams[name] = st
	}
	i := st.n
	st.n++
	v := 0
	if s.Cfg.Replay != nil {
		v = s.Cfg.Replay[name][i]
	} else {
		v = gen(st.rng)
	}
	if v != 0 {
		s.record(name, i, v)
	}
	return v
}

// ChooseN draws a number in [0,n).
func (s *Sim) ChooseN(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := s.Choose(name, func(r *rand.Rand) int { return r.IntN(n) })
	if v < 0 {
		v = -v
	}
	return v % n
}

func (s *Sim) record(name string, i int64, v int) {
	m := s.Out[name]
	if m == nil {
		m = map[int64]int{}
		s.Out[name] = m
	}
	m[i] = v
}

// Note adds an event to the run's log hash (and to the text log of a verbose run).
func (s *Sim) Note(kind string, args ...any) {
	h := mix(s.hash, strHash(kind))
	for _, a := range args {
		switch v := a.(type) {
		case int:
			h = mix(h, uint64(v))
		case int64:
			h = mix(h, uint64(v))
		case string:
			h = mix(h, strHash(v))
		default:
			h = mix(h, strHash(fmt.Sprint(v)))
		}
	}
	s.hash = h
	if s.Cfg.Verbose {
		g := "-"
		if s.cur != nil && !s.inEvent {
			g = fmt.Sprintf("g%d/%s", s.cur.ID, s.cur.Name)
		}
		s.Log = append(s.Log, fmt.Sprintf("%12.6fs step=%d %s %s %s", float64(s.now)/1e9, s.Steps, g, kind, strings.TrimSuffix(fmt.Sprintln(args...), "\n")))
	}
}

func (s *Sim) Hash() uint64 { return mix(mix(s.hash, uint64(s.now)), uint64(s.Steps)) }

func (s *Sim) Now() int64 { return s.now }

// Epoch is the wall clock, in seconds, when a run without a Config.Wall starts: 2020-09-13.
const Epoch = 1600000000

// Unix is the wall clock in nanoseconds.
func (s *Sim) Unix() int64 { return Epoch*1e9 + s.Cfg.Wall + s.now }

// FromUnix is the simulated time at a reading of the wall clock.
func (s *Sim) FromUnix(ns int64) int64 { return ns - Epoch*1e9 - s.Cfg.Wall }

func (s *Sim) Fire(kind string)  { s.Fired[kind]++; s.Note("fault", kind) }
func (s *Sim) Probe(kind string) { s.Probes[kind]++ }

func (s *Sim) Cur() *G  { return s.cur }
func (s *Sim) Gs() []*G { return s.gs }

// At schedules fn (harness code: it must not block) at simulated time t.
func (s *Sim) At(t int64, fn func()) (cancel *bool) {
	off := false
	if t < s.now {
		t = s.now
	}
	s.seq++
	heap.Push(&s.events, event{t, s.seq, fn, &off, s.snap()})
	return &off
}

func (s *Sim) After(d int64, fn func()) *bool { return s.At(s.now+d, fn) }

func (s *Sim) runDue() {
	for len(s.events) > 0 && s.events[0].at <= s.now {
		e := heap.Pop(&s.events).(event)
		if *e.off {
			continue
		}
		was := s.inEvent
		wasVC := s.evVC
		s.inEvent, s.evVC = true, e.vc
		e.fn()
		s.inEvent, s.evVC = was, wasVC
	}
}

// Go starts a simulated goroutine.
func Go(fn func()) {
	s := S
	if s == nil {
		panic("rt: goroutine started outside the simulation")
	}
	if s.Dead() {
		return
	}
	proc, name := s.Proc, "go"
	if s.cur != nil {
		proc = s.cur.Proc
		name = s.cur.Name + "/go"
	}
	s.Spawn(name, proc, fn)
	if !s.inEvent {
		s.yield(4)
	}
}

func (s *Sim) Spawn(name string, proc int, fn func()) *G {
	g := &G{ID: len(s.gs), Name: name, Proc: proc, resume: make(chan struct{}, 1), exited: make(chan struct{})}
	s.gs = append(s.gs, g)
	if s.Cfg.Race {
		g.vc = make(VC, g.ID+1)
		if p := s.raceG(); p != nil {
			g.vc.join(p.vc)
			p.tick()
		} else {
			g.vc.join(s.evVC)
		}
		g.vc[g.ID] = 1
	}
	s.Note("go", g.ID)
	go func() {
		<-g.resume
		defer s.exit(g)
		defer func() {
			if g.dead {
				recover()
				return
			}
			if r := recover(); r != nil {
				if s.Crash == nil {
					s.Crash = &Crash{G: fmt.Sprintf("g%d/%s", g.ID, g.Name), Value: fmt.Sprint(r), Stack: string(debug.Stack())}
				}
				s.Note("crash", fmt.Sprint(r))
			}
		}()
		if g.dead {
			return
		}
		fn()
	}()
	return g
}

func (s *Sim) exit(g *G) {
	g.Done = true
	g.cond = nil
	if g.dead {
		close(g.exited)
		return
	}
	s.Note("exit", g.ID)
	if g.ID == 0 || s.Crash != nil {
		if s.StopWhy == "" {
			s.StopWhy = "done"
			if s.Crash != nil {
				s.StopWhy = "crash"
			}
		}
		s.stopped = true
		s.root <- struct{}{}
		return
	}
	s.switchTo(nil)
}

// Run executes main as goroutine 0 and returns when it returns, when the process
// crashes, when nothing can ever run again, or when a budget is used up.
func (s *Sim) Run(main func()) {
	if S != nil {
		panic("rt: nested simulation")
	}
	S = s
	racing = s.Cfg.Race
	g := s.Spawn("main", 0, main)
	s.cur = g
	g.resume <- struct{}{}
	<-s.root
	s.stopped = true
	for _, g := range s.gs {
		if !g.Done {
			w := g.Why
			if w == "" || g.cond == nil {
				w = "running"
			}
			s.Left = append(s.Left, fmt.Sprintf("g%d/%s: %s", g.ID, g.Name, w))
		}
	}
	for i := 0; i < len(s.gs); i++ {
		s.killG(s.gs[i])
	}
	S = nil
	racing = false
}

func (s *Sim) killG(g *G) {
	if g.Done {
		return
	}
	g.dead = true
	prev, pe := s.cur, s.inEvent
	s.cur, s.inEvent = g, false
	g.resume <- struct{}{}
	<-g.exited
	s.cur, s.inEvent = prev, pe
}

// KillProc ends every goroutine of a simulated process at whatever point it is at, as a
// crash of the process would. It must be called by a goroutine of another process or by
// an event.
func (s *Sim) KillProc(proc int) {
	s.Note("kill", proc)
	for i := 0; i < len(s.gs); i++ {
		if g := s.gs[i]; g.Proc == proc && !g.Done {
			s.killG(g)
		}
	}
}

// Dead reports whether the running goroutine belongs to a killed process (its deferred
// calls are being unwound): nothing it does may have any effect.
func (s *Sim) Dead() bool { return s.cur != nil && s.cur.dead && !s.inEvent }

func Dead() bool { return S != nil && S.Dead() }

func (s *Sim) Stop(why string) {
	if s.StopWhy == "" {
		s.StopWhy = why
	}
	s.stopped = true
	g := s.cur
	s.root <- struct{}{}
	<-g.resume
	runtime.Goexit()
}

// Fatal reports a process-ending error (os.Exit, log.Fatal, unlock of an unlocked mutex).
func Fatal(msg string) {
	s := S
	if s == nil {
		panic(msg)
	}
	if s.Dead() {
		runtime.Goexit()
	}
	if s.Crash == nil {
		s.Crash = &Crash{G: fmt.Sprintf("g%d/%s", s.cur.ID, s.cur.Name), Value: msg, Stack: string(debug.Stack())}
	}
	s.Note("fatal", msg)
	s.Stop("crash")
}

// Y is inserted between all statements of the code under test; YS marks a
// synchronisation operation, where a preemption is four times as likely.
func Y()  { S.yield(1) }
func YS() { S.yield(4) }

func (s *Sim) yield(w int64) {
	if s == nil || s.inEvent {
		return
	}
	g := s.cur
	if g == nil || g.dead {
		return
	}
	s.credit += w
	s.Steps++
	g.Steps++
	s.now += s.Cfg.StepCost
	if s.Steps > s.Cfg.MaxSteps {
		s.Stop("steps")
	}
	if s.now > s.Cfg.MaxTime {
		s.Stop("time")
	}
	if len(s.events) > 0 && s.events[0].at <= s.now {
		s.runDue()
	}
	g.quant++
	if s.credit >= s.nextPre {
		s.preempt(g)
	} else if g.quant > quantum {
		s.rotate(g)
	}
}

func (g *G) runnable() bool { return !g.Done && !g.dead && (g.cond == nil || g.cond()) }

func (s *Sim) preempt(g *G) {
	at := s.credit
	// a stall: the whole process is suspended while time passes
	d := 0
	if s.Cfg.Replay != nil {
		at = s.nextPre
		d = s.Cfg.Replay["stall"][at]
	} else if s.Cfg.StallProb > 0 && s.Cfg.StallMax > 0 && s.preRng.Float64() < s.Cfg.StallProb {
		d = 1 + int(s.preRng.Int64N(s.Cfg.StallMax/1000+1))
	}
	if d > 0 {
		s.record("stall", at, d)
		s.Fired["process-stall"]++
		s.Note("stall", d)
		s.now += int64(d) * 1000
		s.runDue()
	}
	var list []*G
	for _, o := range s.gs {
		if o != g && o.runnable() {
			list = append(list, o)
		}
	}
	v := 0
	if s.Cfg.Replay != nil {
		v = s.Cfg.Replay["pre"][at]
	} else if len(list) > 0 {
		v = 1 + s.preRng.IntN(len(list))
	}
	if v > 0 {
		s.record("pre", at, v)
	}
	// the next preemption is placed before control moves on
	s.setNextPre()
	if v > 0 && len(list) > 0 {
		s.handoff(g, list[(v-1)%len(list)])
	}
}

func (s *Sim) rotate(g *G) {
	g.quant = 0
	n := len(s.gs)
	for i := 1; i < n; i++ {
		o := s.gs[(g.ID+i)%n]
		if o.runnable() {
			s.handoff(g, o)
			return
		}
	}
}

func (s *Sim) handoff(from, to *G) {
	if from == to {
		return
	}
	s.Switches++
	s.SchedSig = mix(s.SchedSig, uint64(to.ID)<<32^uint64(from.Steps))
	to.cond = nil
	to.quant = 0
	s.cur = to
	to.resume <- struct{}{}
	if from != nil {
		<-from.resume
		if from.dead {
			runtime.Goexit()
		}
	}
}

// switchTo gives up the processor for good (g == nil) or until g's condition holds.
func (s *Sim) switchTo(g *G) {
	to := s.pick()
	if to == nil {
		if s.StopWhy == "" {
			s.StopWhy = "deadlock"
		}
		s.stopped = true
		s.root <- struct{}{}
		if g != nil {
			<-g.resume
			runtime.Goexit()
		}
		return
	}
	if to == g {
		g.cond = nil
		g.quant = 0
		return
	}
	if g == nil {
		s.Switches++
		s.SchedSig = mix(s.SchedSig, uint64(to.ID)<<32)
		to.cond = nil
		to.quant = 0
		s.cur = to
		to.resume <- struct{}{}
		return
	}
	s.handoff(g, to)
}

func (s *Sim) pick() *G {
	for {
		s.runDue()
		var list []*G
		for _, o := range s.gs {
			if o.runnable() {
				list = append(list, o)
			}
		}
		if len(list) == 1 {
			return list[0]
		}
		if len(list) > 1 {
			return list[s.ChooseN("pick", len(list))]
		}
		for len(s.events) > 0 && *s.events[0].off {
			heap.Pop(&s.events)
		}
		if len(s.events) == 0 {
			return nil
		}
		if s.events[0].at > s.Cfg.MaxTime {
			s.StopWhy = "time"
			return nil
		}
		s.now = s.events[0].at
		s.IdleHops++
		if s.IdleHops > s.Cfg.MaxSteps {
			s.StopWhy = "steps"
			return nil
		}
	}
}

// Block is for the harness: it parks the running goroutine until cond holds, and what
// every other goroutine has done by then is ordered before what this one does next.
func Block(why string, cond func() bool) {
	Park(why, cond)
	if g := S.raceG(); g != nil {
		for _, o := range S.gs {
			if o != g {
				g.vc.join(o.vc)
				o.tick()
			}
		}
	}
}

// Park parks the running goroutine until cond holds.
func Park(why string, cond func() bool) {
	s := S
	if cond() {
		return
	}
	if s == nil {
		panic("rt: would block outside the simulation: " + why)
	}
	if s.inEvent {
		panic("rt: event would block: " + why)
	}
	g := s.cur
	if g.dead {
		runtime.Goexit()
	}
	for !cond() {
		g.cond, g.Why = cond, why
		s.switchTo(g)
		if g.dead {
			runtime.Goexit()
		}
	}
	g.cond, g.Why = nil, ""
}

// Sleep parks the running goroutine for d simulated nanoseconds.
func Sleep(d int64) {
	s := S
	if s == nil || s.Dead() {
		return
	}
	s.yield(4)
	if d <= 0 {
		return
	}
	fired := false
	s.After(d, func() { fired = true })
	Park("sleep", func() bool { return fired })
}

// WaitUntil parks until cond holds or d simulated nanoseconds have passed.
func WaitUntil(why string, d int64, cond func() bool) bool {
	s := S
	fired := false
	off := s.After(d, func() { fired = true })
	Block(why, func() bool { return fired || cond() })
	*off = true
	return cond()
}
