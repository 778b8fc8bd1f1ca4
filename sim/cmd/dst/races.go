package main

import "math/rand/v2"

// raceCounts: the properties whose guarantee a data race breaks: values handed between
// goroutines can tear, which the scheduler, switching only between statements, does not show.
var raceCounts = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C06": true,
	"R03": true, "R05": true, "R08": true, "P04": true, "P05": true, "X02": true, "D01": true}

// raceUnder lists the workloads D01 runs with happens-before detection on.
var raceUnder = []string{"C01", "C02", "C03", "C04", "C05", "C06", "R03", "R04", "R05", "R06", "R07", "R08",
	"P01", "P02", "P04", "P05", "X01", "X02", "X03", "X04", "X05", "X06", "X07"}

func init() {
	register(&Prop{ID: "D01", Quick: 40000, Thorough: 2000000,
		Real: []string{"packages xxcache, cache, redis, redis/rdb (instrumented: every read and write of a variable, field, element or map that goroutines can share is reported)"},
		Stub: []string{"goroutine scheduler, sync, sync/atomic, channels, time, net, os, context: simulated, each passing on the happens-before edges of the Go memory model"},
		Rule: "a case is a workload, fault plan and schedule of one of the other checks, in turn, with vector clocks kept for every goroutine, lock, channel, atomic and connection; non-trivial: at least three switches between goroutines or a fault; distinct by workload and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			k := i % len(raceUnder)
			sc := props[raceUnder[k]].Gen(r, i/len(raceUnder))
			sc.Cfg["as"], sc.Cfg["race"] = int64(k), 1
			return sc
		},
		Run: func(e *Env) {
			k := e.cfg("as")
			if k < 0 || k >= int64(len(raceUnder)) {
				return
			}
			props[raceUnder[k]].Run(e)
			e.class, e.viol = "", "" // those are the other checks' to report
		}})
}
