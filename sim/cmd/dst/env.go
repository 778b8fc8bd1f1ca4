package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"sort"
	"slices"
	"strings"
	"time"

	"verifsim/model"
	"verifsim/rt"
	"verifsim/simfs"
	"verifsim/simnet"
)

const (
	us  = int64(time.Microsecond)
	ms  = int64(time.Millisecond)
	sec = int64(time.Second)
)

// KV is one key of the simulated server's initial dataset.
type KV struct {
	DB int
	K  string
	V  *model.RVal
}

type jsonKV struct {
	DB int         `json:"db"`
	K  string      `json:"k"`
	V  *model.RVal `json:"v"`
}

func (k KV) MarshalJSON() ([]byte, error) { return json.Marshal(jsonKV{k.DB, model.L1(k.K), k.V}) }
func (k *KV) UnmarshalJSON(b []byte) error {
	var j jsonKV
	if err := json.Unmarshal(b, &j); err != nil {
		return err
	}
	*k = KV{j.DB, model.UnL1(j.K), j.V}
	return nil
}

// Scenario is everything about a run except the simulator's own choices.
type Scenario struct {
	Cfg     map[string]int64 `json:"cfg"`
	Setup   []model.Op       `json:"setup,omitempty"`
	Threads [][]model.Op     `json:"threads,omitempty"`
	Data    []KV             `json:"data,omitempty"`
	Net     []simnet.Fault   `json:"net,omitempty"`
	Srv     []simnet.Fault   `json:"srv,omitempty"`
	Disk    []simfs.Fault    `json:"disk,omitempty"`
}

func (s *Scenario) clone() *Scenario {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	n := &Scenario{}
	if err := json.Unmarshal(b, n); err != nil {
		panic(err)
	}
	if n.Cfg == nil {
		n.Cfg = map[string]int64{}
	}
	return n
}

func (s *Scenario) hash() uint64 {
	b, _ := json.Marshal(s)
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// Case is one exactly repeatable run: a scenario plus either the seed that generates the
// simulator's choices or the recorded choices themselves.
type Case struct {
	Prop  string    `json:"prop"`
	Seed  uint64    `json:"seed"`
	Sc    *Scenario `json:"scenario"`
	Trace rt.Trace  `json:"trace,omitempty"`
	Exact bool      `json:"exact"` // Trace holds the choices (it may be empty)
}

type Outcome struct {
	Class    string
	Viol     string
	Hash     uint64
	Sched    uint64
	Steps    int64
	Switches int64
	SimT     int64
	Fired    map[string]int64
	Probes   map[string]int64
	Out      rt.Trace
	Trivial  bool
	Log      []string
	Hist     []string
}

// Env is a run in progress.
type Env struct {
	*Case
	S       *rt.Sim
	Net     *simnet.Net
	FS      *simfs.FS
	D       *model.Server
	class   string
	viol    string
	hist    []model.Rec
	notes   []string
	sims    []*rt.Sim
	verbose bool
	ended   bool
	preRun  func()
}

type Prop struct {
	ID       string
	Gen      func(r *rand.Rand, i int) *Scenario
	Run      func(e *Env)
	Quick    int
	Thorough int
	Rule     string
	Real     []string
	Stub     []string
	Assume   []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func (e *Env) cfg(k string) int64 { return e.Sc.Cfg[k] }

// Fail records a violation; the first one of a run counts.
func (e *Env) Fail(class, f string, a ...any) {
	if e.class != "" {
		return
	}
	e.class, e.viol = class, fmt.Sprintf(f, a...)
}

// sim creates the simulator of the run.
func (e *Env) sim(noTrace bool) *rt.Sim {
	c := rt.Config{Seed: e.Seed, MeanGap: float64(e.cfg("gap")), StallProb: float64(e.cfg("stallp")) / 1000,
		StallMax: e.cfg("stallmax"), Wall: e.cfg("wall"), Race: e.cfg("race") != 0 && e.cfg("bulk") == 0 && e.cfg("deep") == 0 && e.cfg("huge") == 0 && e.cfg("large") == 0 && e.cfg("long") == 0, MaxSteps: max(4_000_000, e.cfg("maxsteps")), MaxTime: 100_000 * sec, Verbose: e.verbose}
	if m := e.cfg("maxtime"); m > 0 {
		c.MaxTime = m
	}
	if e.Exact && !noTrace {
		c.Replay = e.Trace
		if c.Replay == nil {
			c.Replay = rt.Trace{}
		}
	}
	s := rt.New(c)
	e.sims = append(e.sims, s)
	e.S = s
	return s
}

func (e *Env) addNet() {
	e.Net = simnet.New(e.S, simnet.Config{Latency: max(e.cfg("lat"), 20) * us, Jitter: e.cfg("jit") * us,
		Fragment: e.cfg("frag") != 0, MaxSeg: int(e.cfg("maxseg")), SndBuf: e.cfg("sndbuf")})
	e.Net.Plan(e.Sc.Net)
}

func (e *Env) addFS() {
	e.FS = simfs.New(e.S)
	e.FS.Faults = e.Sc.Disk
	e.FS.ShortRead = e.cfg("shortread") != 0
}

const addr = "10.0.0.2:6379"

func (e *Env) addServer() {
	d := model.NewServer(e.S, e.Net, addr)
	d.Faults = e.Sc.Srv
	d.Delay = e.cfg("srvdelay") * us
	d.KeepAlive = int(e.cfg("keepalive"))
	d.SnapDelay = e.cfg("snapdelay") * us
	d.PingEvery = e.cfg("pingms") * ms
	d.ReplOff = e.cfg("reploff")
	d.RDBSeed = uint64(e.cfg("rdbseed"))
	d.RDB.Rich = e.cfg("rich") != 0
	for _, kv := range e.Sc.Data {
		v := kv.V.Clone()
		if v.Exp != 0 {
			shift := e.cfg("wall") / ms
			if v.Exp%1000 == 0 {
				shift -= shift % 1000
			}
			v.Exp = min(v.Exp+shift, 4_294_967_295_000)
		}
		d.St.Put(kv.DB, kv.K, v)
	}
	bulkInto(d.St, e.cfg("bulk"), int(e.cfg("bulkn")))
	e.D = d
}

// main runs fn as the program's main goroutine and classifies how the run ended.
func (e *Env) main(fn func()) {
	s := e.S
	if e.preRun != nil {
		e.preRun()
	}
	s.Run(func() { fn(); e.ended = true })
	switch s.StopWhy {
	case "done":
	case "crash":
		e.Fail("panic", "the program crashed in %s: %s\n%s", s.Crash.G, s.Crash.Value, trimStack(s.Crash.Stack))
	case "deadlock":
		e.Fail("blocked", "nothing can ever run again, but the calls have not returned: %s", waiting(s))
	case "steps":
		e.Fail("unbounded", "not finished after %d steps: %s", s.Steps, waiting(s))
	case "time":
		e.Fail("hang", "not finished after %.0f simulated seconds: %s", float64(s.Now())/1e9, waiting(s))
	}
}

func waiting(s *rt.Sim) string {
	l := s.Left
	if len(l) > 12 {
		l = append(l[:12], "...")
	}
	return strings.Join(l, "; ")
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for _, l := range lines {
		t := strings.TrimSpace(l)
		if strings.Contains(t, "debug.Stack") || strings.HasPrefix(t, "panic(") || strings.Contains(t, "/rt/sim.go") || strings.Contains(t, "runtime/") || strings.HasPrefix(t, "goroutine ") {
			continue
		}
		out = append(out, t)
		if len(out) >= 10 {
			break
		}
	}
	return strings.Join(out, " | ")
}

// par runs functions concurrently and waits for all of them.
func par(fns ...func()) {
	left := len(fns)
	for _, f := range fns {
		f := f
		rt.Go(func() {
			defer func() { left-- }()
			f()
		})
	}
	rt.Block("harness: waiting for threads", func() bool { return left == 0 })
}

// call runs fn as one recorded operation.
func (e *Env) call(th int, o model.Op, fn func() string) string {
	s := e.S
	s.OpSeq++
	r := model.Rec{Op: o, Thread: th, Call: s.OpSeq, CallT: s.Now()}
	s.Note("call", th, o.C, o.K)
	res := fn()
	s.OpSeq++
	r.Ret, r.RetT, r.Res = s.OpSeq, s.Now(), res
	s.Note("ret", th, res)
	e.hist = append(e.hist, r)
	return res
}

// wait executes the time operations every scenario knows.
func wait(s *rt.Sim, o model.Op) bool {
	switch o.C {
	case "sleep":
		rt.Sleep(o.N)
		return true
	case "until":
		rt.Sleep(o.N - s.Now())
		return true
	}
	return false
}

func (e *Env) outcome() Outcome {
	for _, s := range e.sims {
		if s.Race != "" && raceCounts[e.Prop] {
			e.Fail("data-race", "data race: %s", s.Race)
		}
	}
	o := Outcome{Class: e.class, Viol: e.viol, Fired: map[string]int64{}, Probes: map[string]int64{}, Log: e.notes}
	for i, s := range e.sims {
		o.Hash = o.Hash*31 + s.Hash()
		o.Sched = o.Sched*31 + s.SchedSig
		o.Steps += s.Steps
		o.Switches += s.Switches
		o.SimT += s.Now()
		for k, n := range s.Fired {
			o.Fired[k] += n
		}
		for k, n := range s.Probes {
			o.Probes[k] += n
		}
		if i == 0 {
			o.Out = s.Out
		}
		o.Log = append(o.Log, s.Log...)
	}
	if e.D != nil {
		for k, n := range e.D.Used {
			o.Probes["snapshot-"+k] += int64(n)
		}
	}
	o.Hash = o.Hash*31 + strHash(e.class)
	for _, r := range e.hist {
		o.Hist = append(o.Hist, r.String())
		o.Hash = o.Hash*31 + strHash(r.Res)
	}
	o.Trivial = o.Switches < 3 && len(o.Fired) == 0
	return o
}

func strHash(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() }

func execute(c *Case, verbose bool) Outcome {
	e := &Env{Case: c, verbose: verbose}
	props[c.Prop].Run(e)
	return e.outcome()
}

func caseFor(prop string, base uint64, i int) *Case {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", base, prop, i)
	seed := h.Sum64()
	r := rand.New(rand.NewPCG(seed, 1))
	c := &Case{Prop: prop, Seed: seed, Sc: props[prop].Gen(r, i)}
	if i%4 == 1 && raceCounts[prop] {
		c.Sc.Cfg["race"] = 1
	}
	if i%4 >= 2 && prop[0] == 'C' {
		c.Sc.Cfg["own"] = int64(i%4 - 1)
	}
	switch prop {
	case "X01", "X02", "X03", "X04", "X05", "X06": // a client created without any option
		if chance(r, 1, 6) {
			c.Sc.Cfg["defaults"] = pick(r, int64(3), 3, 1, 2)
		}
	}
	if prop[0] == 'X' && chance(r, 1, 4) { // names of all kinds for the keys
		c.Sc.Cfg["names"] = 1 + r.Int64N(40)
		c.Sc.renameKeys()
		if slices.ContainsFunc(keyNames(c.Sc.Cfg["names"]), func(s string) bool { return len(s) > 4000 }) {
			delete(c.Sc.Cfg, "maxseg")
			delete(c.Sc.Cfg, "race")
		}
	}
	if prop[0] == 'C' && prop != "C07" && chance(r, 1, 5) { // and for those of the cache and their fields
		n := 1 + r.Int64N(40)
		to := map[string]string{}
		for i, k := range []string{"a", "b", "c", "d", "h", "g", "f"} {
			if n <= 10 {
				to[k] = []string{"key", "KEY", "key ", "Key", "key\x00", " key", "kEy"}[(i+int(n))%7]
			} else {
				to[k] = keyNames(n)[i%5]
				if i >= 5 {
					to[k] += k
				}
			}
		}
		c.Sc.rename(to)
	}
	// the clock when the run starts: within a second, sometimes within this century
	c.Sc.Cfg["wall"] = span(r, 0, sec-1)
	if prop != "P01" && chance(r, 1, 8) {
		c.Sc.Cfg["wall"] = span(r, 0, 80*365*86400*sec)
	}
	return c
}

// generator helpers

func pick[T any](r *rand.Rand, l ...T) T { return l[r.IntN(len(l))] }

func chance(r *rand.Rand, n, of int) bool { return r.IntN(of) < n }

func span(r *rand.Rand, lo, hi int64) int64 {
	if hi <= lo {
		return lo
	}
	return lo + r.Int64N(hi-lo+1)
}

func op(c, k string, a ...string) model.Op { return model.Op{C: c, K: k, A: a} }

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func short(s string) string {
	if len(s) > 80 {
		return fmt.Sprintf("%q...(%d bytes)", s[:80], len(s))
	}
	return fmt.Sprintf("%q", s)
}
