package main

import (
	"fmt"
	"time"

	"verifsim/model"
	"verifsim/rt"
)

// shrink minimises the scenario (faults, goroutines, operations, data, knobs) and then
// the schedule, keeping the class of the violation.
func shrink(r *Replay, deadline time.Time) *Replay {
	cur := &Case{Prop: r.Case.Prop, Seed: r.Case.Seed, Sc: r.Case.Sc.clone()}
	o := execute(cur, false)
	if o.Class != r.Class {
		return nil
	}
	runs := 1
	cur.Trace, cur.Exact = o.Out, true
	best := o
	late := func() bool { return time.Now().After(deadline) }
	size := func(s *Scenario) int {
		n := len(s.Setup) + len(s.Data) + len(s.Net) + len(s.Srv) + len(s.Disk)
		for _, t := range s.Threads {
			n += len(t) + 1
		}
		return n
	}
	before := fmt.Sprintf("%d elements, %d choices", size(cur.Sc), cur.Trace.Size())
	try := func(sc *Scenario, tries int) bool {
		for k := 0; k <= tries; k++ {
			if late() {
				return false
			}
			c := &Case{Prop: cur.Prop, Seed: cur.Seed, Sc: sc, Trace: cur.Trace, Exact: true}
			if k > 0 {
				c.Exact, c.Trace = false, nil
				c.Seed = cur.Seed + uint64(k)*0x9E3779B97F4A7C15
			}
			o := execute(c, false)
			runs++
			if o.Class == r.Class {
				c.Trace, c.Exact = o.Out, true
				cur, best = c, o
				return true
			}
		}
		return false
	}
	for pass := 0; pass < 6; pass++ {
		changed := false
		step := func(make func(*Scenario) bool) bool {
			sc := cur.Sc.clone()
			if !make(sc) {
				return false
			}
			if try(sc, 14) {
				changed = true
				return true
			}
			return false
		}
		// whole goroutines, then blocks, then single elements
		for i := len(cur.Sc.Threads) - 1; i >= 0; i-- {
			step(func(s *Scenario) bool { s.Threads = append(s.Threads[:i], s.Threads[i+1:]...); return true })
		}
		cutList := func(n func() int, drop func(s *Scenario, a, b int)) {
			for sz := max(n()/2, 1); ; sz /= 2 {
				for a := n() - sz; a >= 0 && !late(); {
					if !step(func(s *Scenario) bool { drop(s, a, a+sz); return true }) {
						a -= sz
					} else {
						a = min(a, n()) - sz
					}
				}
				if sz <= 1 {
					break
				}
			}
		}
		cutList(func() int { return len(cur.Sc.Net) }, func(s *Scenario, a, b int) { s.Net = append(s.Net[:a], s.Net[b:]...) })
		cutList(func() int { return len(cur.Sc.Srv) }, func(s *Scenario, a, b int) { s.Srv = append(s.Srv[:a], s.Srv[b:]...) })
		cutList(func() int { return len(cur.Sc.Disk) }, func(s *Scenario, a, b int) { s.Disk = append(s.Disk[:a], s.Disk[b:]...) })
		for t := range cur.Sc.Threads {
			t := t
			cutList(func() int { return len(cur.Sc.Threads[t]) }, func(s *Scenario, a, b int) {
				s.Threads[t] = append(s.Threads[t][:a], s.Threads[t][b:]...)
			})
		}
		cutList(func() int { return len(cur.Sc.Setup) }, func(s *Scenario, a, b int) { s.Setup = append(s.Setup[:a], s.Setup[b:]...) })
		cutList(func() int { return len(cur.Sc.Data) }, func(s *Scenario, a, b int) { s.Data = append(s.Data[:a], s.Data[b:]...) })
		for _, k := range []string{"stallp", "stallmax", "jit", "frag", "maxseg", "srvdelay", "keepalive", "snapdelay", "pingms", "reploff", "rich", "shortread", "cron"} {
			if cur.Sc.Cfg[k] != 0 {
				step(func(s *Scenario) bool { delete(s.Cfg, k); return true })
			}
		}
		// simpler operations
		simpler := func(get func(s *Scenario) *model.Op) {
			o := *get(cur.Sc)
			for i := range o.A {
				if len(o.A[i]) > 8 && o.C != "msg" {
					step(func(s *Scenario) bool { get(s).A[i] = o.A[i][:len(o.A[i])/2]; return true })
				}
			}
		}
		for t := range cur.Sc.Threads {
			for j := range cur.Sc.Threads[t] {
				simpler(func(s *Scenario) *model.Op { return &s.Threads[t][j] })
			}
		}
		if !changed || late() {
			break
		}
	}
	// the schedule
	tr := cur.Trace
	type key struct {
		s string
		i int64
	}
	keys := func(t rt.Trace) (l []key) {
		for _, s := range sortedKeys(t) {
			m := t[s]
			var is []int64
			for i := range m {
				is = append(is, i)
			}
			sortInts(is)
			for _, i := range is {
				l = append(l, key{s, i})
			}
		}
		return
	}
	for {
		ks := keys(tr)
		progress := false
		for sz := len(ks); sz >= 1 && !late(); sz /= 2 {
			for a := 0; a < len(ks) && !late(); {
				t := tr.Clone()
				for _, k := range ks[a:min(a+sz, len(ks))] {
					delete(t[k.s], k.i)
				}
				c := &Case{Prop: cur.Prop, Seed: cur.Seed, Sc: cur.Sc, Trace: t, Exact: true}
				o := execute(c, false)
				runs++
				if o.Class == r.Class && o.Out.Size() < tr.Size() {
					c.Trace = o.Out
					cur, best, tr = c, o, o.Out
					ks = keys(tr)
					progress = true
				} else {
					a += sz
				}
			}
		}
		if !progress || late() {
			break
		}
	}
	// what is kept must fail the same way when run again
	o = execute(cur, true)
	if o.Class != r.Class {
		return nil
	}
	_ = best
	n := *r
	n.Case = cur
	n.Text = o.Viol
	n.Log = o.Log
	if len(n.Log) > 400 {
		n.Log = n.Log[len(n.Log)-400:]
	}
	n.Shrunk = fmt.Sprintf("from %s to %d elements, %d choices, in %d runs", before, size(cur.Sc), cur.Trace.Size(), runs)
	return &n
}

func sortInts(l []int64) {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}
