package main

import (
	"encoding/json"
	"math/rand/v2"
	"runtime"
	"strings"

	"github.com/liujiangwei/xxcache/cache"
	"verifsim/model"
	"verifsim/rt"
)

// C07: the memory of expired, deleted and replaced values is given back. The values (and
// some names) are big, so that even one that is kept shows in the size of the live heap.

const bigLen = 400_000

// manyLen is the length of the names where there are very many of them.
const manyLen = 2000

// bigOp is o with its names and values made big: a name in capitals is.
func bigOp(o model.Op) model.Op {
	name := func(k string) string {
		if k != "" && k[0] >= 'A' && k[0] <= 'Z' {
			return k + strings.Repeat("k", bigLen)
		}
		return k
	}
	val := func(v string) string { return v + strings.Repeat("v", bigLen) }
	b := o
	b.K = name(o.K)
	b.A = append([]string(nil), o.A...)
	for i, a := range o.A {
		switch o.C {
		case "Del", "Exists", "MGet":
			b.A[i] = name(a)
		case "HDel", "HGet", "HMGet", "HExists":
			b.A[i] = name(a)
		case "HSet", "HMSet", "HSetNX", "MSet", "MSetNX":
			if i%2 == 0 {
				b.A[i] = name(a)
			} else {
				b.A[i] = val(a)
			}
		case "Incr", "IncrBy", "HIncrBy", "SetRange":
		default:
			b.A[i] = val(a)
		}
	}
	return b
}

// liveHeap is the size of the live heap without what the simulator recorded of the run.
func liveHeap(s *rt.Sim) int64 {
	var m runtime.MemStats
	out, err := json.Marshal(s.Out)
	if err != nil {
		panic(err)
	}
	log := strings.Join(s.Log, "\x00")
	s.Out, s.Log = nil, nil
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	n := int64(m.HeapAlloc) - int64(len(out)+len(log))
	_ = json.Unmarshal(out, &s.Out)
	if log != "" {
		s.Log = strings.Split(log, "\x00")
	}
	return n
}

func init() {
	register(&Prop{ID: "C07", Quick: 8000, Thorough: 500000, Real: cacheReal, Stub: cacheStub,
		Rule: "a case is 1-3 goroutines storing big values under names of which some are big too, with and without a time to live, replacing, appending to, reading and deleting them over up to 1500 simulated seconds while the sweep runs, with up to 3000 (rarely 40000) keys that expire together in one case of eight; then every key left is deleted, given a short time to live or flushed, and some seconds later the live heap is compared with the one before; distinct by workload and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			sc := &Scenario{Cfg: baseCfg(r)}
			sc.Cfg["maxtime"] = 50_000 * sec
			sc.Cfg["crons"] = int64(1 + r.IntN(8)/7)
			sc.Cfg["fin"] = int64(r.IntN(6))
			if chance(r, 1, 4) {
				sc.Cfg["stallp"], sc.Cfg["stallmax"] = pick(r, int64(1), 5), pick(r, ms, sec)
			}
			keys := []string{"a", "b", "C", "D"}[:1+r.IntN(4)]
			p := &profile{r: r, nodup: true, keys: keys, fields: []string{"f", "G"}, vals: []string{"1", "x"}, ttl: 3000}
			p.ops = pick(r,
				[]string{"SetEX", "PSetEX", "PSetEX", "Get", "Del", "Set"},
				[]string{"Set", "SetNX", "GetSet", "Append", "SetRange", "Get", "Del", "MSet", "PSetEX"},
				[]string{"HSet", "HSetNX", "HMSet", "HDel", "HGet", "HLen", "Del", "Set"},
				[]string{"Set", "PSetEX", "SetEX", "HSet", "HDel", "Del", "Append", "MSet", "MGet", "Exists", "Flush"})
			if chance(r, 1, 3) {
				sc.Cfg["extra"], sc.Cfg["step"] = int64(1+r.IntN(16)), pick(r, int64(0), 10, 100)
			}
			if chance(r, 1, 8) {
				sc.Cfg["many"], sc.Cfg["ttl"] = pick(r, int64(300), 1000, 3000), pick(r, int64(1), 500, 2500)
				if chance(r, 1, 60) {
					sc.Cfg["many"], sc.Cfg["maxsteps"] = pick(r, int64(12000), 40000), 40_000_000
				}
			}
			for t := 1 + r.IntN(3); t > 0; t-- {
				var ops []model.Op
				if chance(r, 1, 4) {
					ops = append(ops, model.Op{C: "sleep", N: pick(r, span(r, 1, 20*sec), span(r, 1, 200*sec), span(r, 1, 1500*sec))})
				}
				for j := 2 + r.IntN(6); j > 0; j-- {
					if chance(r, 1, 3) {
						ops = append(ops, model.Op{C: "sleep", N: pick(r, span(r, 1, ms), span(r, 1, 2*sec), 2*sec, span(r, 1, 6*sec), span(r, 1, 30*sec))})
					}
					o := p.op()
					switch o.C {
					case "SetEX":
						o.N = 1 + r.Int64N(3)
					case "PSetEX":
						o.N = 1 + r.Int64N(3000)
					case "SetRange", "GetRange":
						o.N, o.M = r.Int64N(50), 0
					}
					ops = append(ops, o)
				}
				sc.Threads = append(sc.Threads, ops)
			}
			return sc
		},
		Run: func(e *Env) {
			s := e.sim(false)
			before, after := int64(0), int64(0)
			e.main(func() {
				c := cache.New()
				for n := e.cfg("crons"); n > 0; n-- {
					c.Cron()
				}
				before = liveHeap(s)
				var fns []func()
				for _, ops := range e.Sc.Threads {
					ops := ops
					fns = append(fns, func() {
						for _, o := range ops {
							if !wait(s, o) {
								cacheDo(c, bigOp(o))
							}
						}
					})
				}
				par(fns...)
				for i := int64(0); i < e.cfg("extra"); i++ {
					cacheDo(c, bigOp(model.Op{C: "PSetEX", K: "e" + itoa(i), A: []string{"x"}, N: 1 + i*e.cfg("step")}))
				}
				if n := e.cfg("many"); n > 0 {
					pad := strings.Repeat("m", manyLen)
					for i := int64(0); i < n; i++ {
						c.PSetEX("m"+itoa(i)+pad, "x", e.cfg("ttl"))
					}
				}
				for _, k := range []string{"a", "b", "C", "D"} {
					switch e.cfg("fin") {
					case 0:
						cacheDo(c, bigOp(model.Op{C: "Del", K: k, A: []string{k}}))
					case 1:
						k := bigOp(model.Op{C: "Get", K: k}).K
						cacheDo(c, model.Op{C: "SetEX", K: k, A: []string{"last"}, N: 1})
					case 2:
						k := bigOp(model.Op{C: "Get", K: k}).K
						cacheDo(c, model.Op{C: "PSetEX", K: k, A: []string{"last"}, N: 1 + int64(len(k)%700)})
					case 4: // hashes stay, but with one small field
						k := bigOp(model.Op{C: "Get", K: k}).K
						l, err := c.HKeys(k)
						if err != nil || len(l) == 0 || len(k) > 1 {
							c.Del(k)
							break
						}
						c.HSet(k, "small", "1")
						for _, f := range l {
							if f != "small" {
								c.HDel(k, f)
							}
						}
					case 5: // the keys stay, with small values
						k := bigOp(model.Op{C: "Get", K: k}).K
						if len(k) > 1 || (c.Type(k) == "hash" && e.cfg("crons") == 1) {
							c.Del(k)
							break
						}
						c.Set(k, "small")
					}
				}
				if e.cfg("fin") == 3 {
					cacheDo(c, model.Op{C: "Flush"})
				}
				rt.Sleep(13 * sec)
				after = liveHeap(s)
				cacheDo(c, model.Op{C: "Get", K: "a"}) // the cache itself is alive until here
			})
			if d := after - before; e.class == "" && e.cfg("crons") > 0 && d > bigLen*3/4+e.cfg("many")*400 {
				e.Fail("not-reclaimed", "13 s after every key had expired, been deleted or flushed, %d bytes of values and names of %d bytes (%d in the keys that are many) were still held", d, bigLen, manyLen)
			}
		}})
}
