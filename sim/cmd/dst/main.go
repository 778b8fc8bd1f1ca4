// Command dst runs the simulated checks of one property: many seeded runs spread over
// worker processes, then, on a violation, minimisation, a replay file and its
// verification in a fresh process.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/sirupsen/logrus"

	"verifsim/rt"
)

type plain struct{}

func (plain) Format(*logrus.Entry) ([]byte, error) { return nil, nil }

func quiet() {
	logrus.SetOutput(io.Discard)
	logrus.SetFormatter(plain{})
	logrus.StandardLogger().ExitFunc = func(c int) { rt.Fatal(fmt.Sprintf("logrus: exit %d", c)) }
}

type line struct {
	Start *int              `json:"start,omitempty"`
	I     int               `json:"i"`
	Class string            `json:"class,omitempty"`
	Viol  string            `json:"viol,omitempty"`
	Sum   *sum              `json:"sum,omitempty"`
	Hash  map[string]uint64 `json:"hash,omitempty"`
}

type sum struct {
	Runs     int              `json:"runs"`
	Steps    int64            `json:"steps"`
	Switches int64            `json:"switches"`
	SimT     float64          `json:"sim_s"`
	Fired    map[string]int64 `json:"fired"`
	FiredIn  map[string]int64 `json:"fired_in"`
	Probes   map[string]int64 `json:"probes"`
	Distinct []uint64         `json:"distinct"`
	Scheds   []uint64         `json:"scheds"`
	Sample   []string         `json:"sample"`
	Timeout  bool             `json:"timeout"`
}

func newSum() *sum {
	return &sum{Fired: map[string]int64{}, FiredIn: map[string]int64{}, Probes: map[string]int64{}}
}

func main() {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Uint64("seed", 1, "")
	from := flag.Int("from", -1, "worker: first run")
	to := flag.Int("to", 0, "worker: end of runs")
	until := flag.Int64("until", 0, "worker: wall-clock deadline, unix ms")
	hashes := flag.Bool("hashes", false, "worker: print the event-log hash of every run")
	shr := flag.String("shrink", "", "minimise the case of a replay file")
	outf := flag.String("out", "", "where -shrink writes its result")
	replay := flag.String("replay", "", "replay file")
	verbose := flag.Bool("v", false, "")
	verif := flag.String("verif", "/verif", "")
	runs := flag.Int("runs", 0, "override the number of runs")
	capS := flag.Int("cap", 0, "override the time cap, seconds")
	flag.BoolVar(&fast, "fast", false, "neither minimise nor repeat runs")
	flag.IntVar(&maxWorkers, "workers", 8, "worker processes")
	flag.Parse()
	quiet()
	switch {
	case *replay != "":
		os.Exit(doReplay(*replay, *verbose))
	case *shr != "":
		os.Exit(doShrink(*shr, *outf))
	case *from >= 0:
		worker(*prop, *seed, *from, *to, *until, *hashes, *verbose)
	case props[*prop] != nil:
		os.Exit(coordinate(*prop, *tier, *seed, *verif, *runs, *capS))
	default:
		fmt.Fprintln(os.Stderr, "dst: unknown property", *prop)
		os.Exit(2)
	}
}

var fast bool
var maxWorkers int

func limits() {
	runtime.GOMAXPROCS(1)
	lim := uint64(6 << 30)
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	debug.SetGCPercent(200)
}

// worker runs [from,to) one after another and prints what it saw.
func worker(prop string, seed uint64, from, to int, until int64, hashes, verbose bool) {
	limits()
	w := bufio.NewWriter(os.Stdout)
	put := func(l line) {
		b, _ := json.Marshal(l)
		w.Write(append(b, '\n'))
		w.Flush()
	}
	t := newSum()
	dist, sch := map[uint64]bool{}, map[uint64]bool{}
	hs := map[string]uint64{}
	for i := from; i < to; i++ {
		if until > 0 && time.Now().UnixMilli() > until {
			t.Timeout = true
			break
		}
		i := i
		put(line{Start: &i})
		c := caseFor(prop, seed, i)
		o := execute(c, verbose)
		if verbose {
			for _, l := range o.Log {
				fmt.Fprintln(os.Stderr, l)
			}
			for _, l := range o.Hist {
				fmt.Fprintln(os.Stderr, l)
			}
			b, _ := json.Marshal(c)
			fmt.Fprintln(os.Stderr, string(b))
		}
		t.Runs++
		t.Steps += o.Steps
		t.Switches += o.Switches
		t.SimT += float64(o.SimT) / 1e9
		for k, n := range o.Fired {
			t.Fired[k] += n
			t.FiredIn[k]++
		}
		for k, n := range o.Probes {
			t.Probes[k] += n
		}
		sch[o.Sched] = true
		if !o.Trivial {
			dist[c.Sc.hash()*31+o.Sched] = true
		}
		if i%997 == 3 && len(t.Sample) < 2 {
			b, _ := json.Marshal(c)
			s := string(b)
			if len(s) > 3000 {
				s = s[:3000] + "..."
			}
			t.Sample = append(t.Sample, s)
		}
		if hashes {
			hs[strconv.Itoa(i)] = o.Hash
		}
		if o.Class != "" {
			put(line{I: i, Class: o.Class, Viol: o.Viol})
		}
		if i%200 == 199 {
			debug.FreeOSMemory()
		}
	}
	for k := range dist {
		t.Distinct = append(t.Distinct, k)
	}
	for k := range sch {
		t.Scheds = append(t.Scheds, k)
	}
	if hashes {
		put(line{Hash: hs})
	}
	put(line{Sum: t})
}

// chunk is the result of one worker process.
type chunk struct {
	from, to int
	viols    []line
	sum      *sum
	hash     map[string]uint64
	last     int
	died     string // the process ended abnormally
	stuck    bool   // no progress: a watchdog ended it
}

const watchdog = 120 * time.Second

func runChunk(prop string, seed uint64, from, to int, until int64, hashes bool) chunk {
	c := chunk{from: from, to: to, last: -1}
	args := []string{"-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(from), "-to", fmt.Sprint(to), "-until", fmt.Sprint(until)}
	if hashes {
		args = append(args, "-hashes")
	}
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	var errb strings.Builder
	cmd.Stderr = &limited{b: &errb}
	out, err := cmd.StdoutPipe()
	if err != nil {
		c.died, c.stuck = err.Error(), true
		return c
	}
	if err := cmd.Start(); err != nil {
		c.died, c.stuck = err.Error(), true
		return c
	}
	tm := time.AfterFunc(watchdog, func() { c.stuck = true; cmd.Process.Kill() })
	sc := bufio.NewScanner(out)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		tm.Reset(watchdog)
		var l line
		if json.Unmarshal(sc.Bytes(), &l) != nil {
			continue
		}
		switch {
		case l.Start != nil:
			c.last = *l.Start
		case l.Sum != nil:
			c.sum = l.Sum
		case l.Hash != nil:
			c.hash = l.Hash
		case l.Class != "":
			c.viols = append(c.viols, l)
		}
	}
	err = cmd.Wait()
	tm.Stop()
	if err != nil || c.sum == nil {
		c.died = fmt.Sprintf("%v: %s", err, firstLines(errb.String(), 12))
	}
	return c
}

type limited struct{ b *strings.Builder }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

// Replay is the file a violation is reported with.
type Replay struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`
	Text     string   `json:"violation"`
	Mode     string   `json:"mode"` // case: run Case alone; sequence: run From..To of Base in one process; dies: Case ends the process
	Case     *Case    `json:"case,omitempty"`
	Base     uint64   `json:"base_seed"`
	From     int      `json:"from"`
	To       int      `json:"to"`
	Found    string   `json:"found"`
	Shrunk   string   `json:"shrunk"`
	Log      []string `json:"log,omitempty"`
}

func coordinate(prop, tier string, seed uint64, verif string, runs, capS int) int {
	p := props[prop]
	start := time.Now()
	n := p.Quick
	limit := 90 * time.Second
	if tier == "thorough" {
		n = p.Thorough
		limit = 780 * time.Second
	}
	if runs > 0 {
		n = runs
	}
	if capS > 0 {
		limit = time.Duration(capS) * time.Second
	}
	until := start.Add(limit).UnixMilli()
	workers := runtime.NumCPU()
	workers = min(workers, maxWorkers)
	size := n / (workers * 6)
	size = min(max(size, 10), 400)
	var mu sync.Mutex
	next, stop := 0, false
	var done []chunk
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= n || time.Now().UnixMilli() > until {
					mu.Unlock()
					return
				}
				f := next
				t := min(f+size, n)
				next = t
				mu.Unlock()
				c := runChunk(prop, seed, f, t, until, f < 4*size)
				mu.Lock()
				done = append(done, c)
				if len(c.viols) > 0 || c.died != "" {
					stop = true
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	explored := time.Since(start)
	sort.Slice(done, func(i, j int) bool { return done[i].from < done[j].from })
	total := newSum()
	dist, sch := map[uint64]bool{}, map[uint64]bool{}
	var worst *line
	var bad *chunk
	var dead *chunk
	hash := map[string]uint64{}
	for i := range done {
		c := &done[i]
		for k, v := range c.hash {
			hash[k] = v
		}
		for j := range c.viols {
			if worst == nil || c.viols[j].I < worst.I {
				worst, bad = &c.viols[j], c
			}
		}
		if c.died != "" && dead == nil {
			dead = c
		}
		if c.sum == nil {
			continue
		}
		total.add(c.sum)
		for _, k := range c.sum.Distinct {
			dist[k] = true
		}
		for _, k := range c.sum.Scheds {
			sch[k] = true
		}
	}
	code := 0
	violations := 0
	if worst == nil && dead != nil {
		if dead.stuck {
			fmt.Printf("ERROR: worker made no progress for %v in run %d (%s)\n", watchdog, dead.last, dead.died)
			return 2
		}
		again := runChunk(prop, seed, dead.last, dead.last+1, 0, false)
		if again.died == "" || again.stuck {
			fmt.Printf("ERROR: worker died once, not reproducible (run %d): %s\n", dead.last, dead.died)
			return 2
		}
		violations++
		code = 1
		c := caseFor(prop, seed, dead.last)
		report(verif, &Replay{Property: prop, Class: "process-ended", Text: "the process was ended by the run: " + again.died, Mode: "dies", Case: c,
			Base: seed, From: dead.last, To: dead.last + 1, Found: fmt.Sprintf("run %d of base seed %d", dead.last, seed)})
	}
	if worst != nil {
		violations++
		code = 1
		fmt.Printf("run %d (base seed %d): %s: %s\n", worst.I, seed, worst.Class, worst.Viol)
		report(verif, makeReplay(prop, seed, worst, bad))
	}
	det := 0
	mism := 0
	if code == 0 && !fast {
		det, mism = determinism(prop, seed, hash)
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "violations": violations,
		"wall_s": time.Since(start).Seconds(),
		"coverage": map[string]any{
			"evaluations": total.Runs, "distinct_nontrivial": len(dist), "rule": p.Rule, "samples": samples(total.Sample, prop, seed),
			"planned_runs": n, "stopped_by_time_cap": total.Timeout,
			"runs_per_hour":      int(float64(total.Runs) / explored.Hours()),
			"seeds_per_hour":     int(float64(total.Runs) / explored.Hours()),
			"simulated_seconds":  total.SimT,
			"scheduler_steps":    total.Steps,
			"goroutine_switches": total.Switches, "distinct_schedules": len(sch),
			"interleaving_measure": "hash of the sequence (goroutine switched to, position of the goroutine switched from) of the whole run",
			"faults_fired":         total.Fired, "runs_with_fault": total.FiredIn, "probes": total.Probes,
			"real_components": p.Real, "stub_components": p.Stub,
			"determinism_checked_runs": det, "determinism_mismatches": mism,
		},
		"assumptions": append([]string{"the instrumentation preserves the meaning of the code; preemption happens between statements and at synchronisation operations, not inside an expression"}, p.Assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	fmt.Printf("%s %s: %d runs (%d distinct non-trivial, %d schedules), %.0f simulated s, %d steps, %.1f s; faults %v\n", prop, tier, total.Runs, len(dist), len(sch), total.SimT, total.Steps, time.Since(start).Seconds(), total.Fired)
	if len(total.Probes) > 0 {
		fmt.Printf("  probes %v\n", total.Probes)
	}
	if mism > 0 {
		fmt.Printf("  note: %d of %d repeated runs differed\n", mism, det)
	}
	return code
}

func samples(l []string, prop string, seed uint64) []json.RawMessage {
	var out []json.RawMessage
	for _, s := range l {
		if len(out) < 3 {
			b, _ := json.Marshal(s)
			out = append(out, b)
		}
	}
	if len(out) == 0 {
		b, _ := json.Marshal(caseFor(prop, seed, 0))
		out = append(out, b)
	}
	return out
}

func (t *sum) add(o *sum) {
	t.Runs += o.Runs
	t.Steps += o.Steps
	t.Switches += o.Switches
	t.SimT += o.SimT
	for k, n := range o.Fired {
		t.Fired[k] += n
	}
	for k, n := range o.FiredIn {
		t.FiredIn[k] += n
	}
	for k, n := range o.Probes {
		t.Probes[k] += n
	}
	t.Sample = append(t.Sample, o.Sample...)
	t.Timeout = t.Timeout || o.Timeout
}

// determinism repeats some runs in other processes, cut differently, and compares logs.
func determinism(prop string, seed uint64, hash map[string]uint64) (n, mism int) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := runChunk(prop, seed, 3+w*11, 3+w*11+5, 0, true)
			mu.Lock()
			defer mu.Unlock()
			for k, v := range c.hash {
				if h, ok := hash[k]; ok {
					n++
					if h != v {
						mism++
					}
				}
			}
		}()
	}
	wg.Wait()
	return
}

func report(verif string, r *Replay) {
	dir := filepath.Join(verif, "replays")
	_ = os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", r.Property, r.Class, r.From))
	b, _ := json.MarshalIndent(r, "", " ")
	_ = os.WriteFile(f, append(b, '\n'), 0o644)
	fmt.Printf("  minimised (%s): %s\n", r.Shrunk, r.Text)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, f)
}

// fresh runs a case in a new process and says what class of violation it shows.
func fresh(r *Replay) (string, string) {
	f, err := os.CreateTemp("", "dst-replay-*.json")
	if err != nil {
		return "", err.Error()
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(r)
	f.Write(b)
	f.Close()
	cmd := exec.Command(os.Args[0], "-replay", f.Name())
	out, _ := cmd.CombinedOutput()
	for _, l := range strings.Split(string(out), "\n") {
		if rest, ok := strings.CutPrefix(l, "CLASS "); ok {
			return rest, string(out)
		}
	}
	return "", string(out)
}

func makeReplay(prop string, seed uint64, l *line, ch *chunk) *Replay {
	base := caseFor(prop, seed, l.I)
	r := &Replay{Property: prop, Class: l.Class, Text: l.Viol, Mode: "case", Case: base, Base: seed, From: l.I, To: l.I + 1,
		Found: fmt.Sprintf("run %d of base seed %d", l.I, seed), Shrunk: "not shrunk"}
	if fast {
		return r
	}
	c, _ := fresh(r)
	if c != l.Class {
		// the run depends on what ran before it in the process
		q := *r
		q.Mode, q.From, q.To = "sequence", ch.from, l.I+1
		if c2, _ := fresh(&q); c2 == l.Class {
			q.Shrunk = "not shrunk: it needs the runs before it"
			return &q
		}
		r.Shrunk = "not shrunk: not reproduced in a fresh process"
		return r
	}
	if s := shrinkIn(r); s != nil {
		if c, _ := fresh(s); c == s.Class {
			return s
		}
	}
	return r
}

// shrinkIn minimises in a child process, so that nothing the code under test does can
// end this one.
func shrinkIn(r *Replay) *Replay {
	dir, err := os.MkdirTemp("", "dst-shrink-")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	in, out := filepath.Join(dir, "in.json"), filepath.Join(dir, "out.json")
	b, _ := json.Marshal(r)
	_ = os.WriteFile(in, b, 0o644)
	cmd := exec.Command(os.Args[0], "-shrink", in, "-out", out)
	if cmd.Start() != nil {
		return nil
	}
	tm := time.AfterFunc(90*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	tm.Stop()
	if err != nil {
		return nil
	}
	b, err = os.ReadFile(out)
	n := &Replay{}
	if err != nil || json.Unmarshal(b, n) != nil {
		return nil
	}
	return n
}

func doShrink(in, out string) int {
	b, err := os.ReadFile(in)
	r := &Replay{}
	if err != nil || json.Unmarshal(b, r) != nil {
		return 2
	}
	limits()
	n := shrink(r, time.Now().Add(45*time.Second))
	if n == nil {
		return 1
	}
	b, _ = json.Marshal(n)
	if os.WriteFile(out, b, 0o644) != nil {
		return 2
	}
	return 0
}

func doReplay(file string, verbose bool) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if props[r.Property] == nil {
		fmt.Fprintln(os.Stderr, "unknown property")
		return 2
	}
	limits()
	var o Outcome
	switch r.Mode {
	case "sequence":
		for i := r.From; i < r.To; i++ {
			o = execute(caseFor(r.Property, r.Base, i), false)
		}
	default:
		o = execute(r.Case, verbose)
	}
	if verbose {
		for _, l := range o.Log {
			fmt.Println(l)
		}
	}
	for _, l := range o.Hist {
		fmt.Println("  " + l)
	}
	fmt.Printf("event log hash %016x, %d steps, %.6f simulated s\n", o.Hash, o.Steps, float64(o.SimT)/1e9)
	if o.Class == "" {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("CLASS %s\n", o.Class)
	fmt.Printf("%s\n", o.Viol)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
	return 1
}
