package main

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"verifsim/model"
	"verifsim/rt"
	"verifsim/simnet"
)

// X07: two clients in one process, of two masters or of one.

const addrB = "10.0.0.3:6379"

func init() {
	register(&Prop{ID: "X07", Quick: 60000, Thorough: 1800000, Real: xxReal, Stub: xxStub,
		Rule: "a case is two clients in one process, of two masters with different data or of the same master, created concurrently with a snapshot file each or one after the other with one file; both masters execute 5-30 write commands while 1-4 users call Get and Set on either client, and in half of the cases the second master refuses to synchronise, sends a damaged snapshot or crashes once or more; every successful read is compared with what that client's own master held, every Set with what it executed, and in the end each key of both clients with its master; distinct by case and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			sc := &Scenario{Cfg: xxCfg(r)}
			sc.Cfg["same"] = int64(r.IntN(4) / 3)
			sc.Cfg["seq"] = int64(r.IntN(3) / 2)
			sc.Data = xxData(r, r.IntN(7))
			for _, kv := range xxData(r, r.IntN(7)) {
				kv.DB += 1000 // of the second master
				if kv.V.Kind == "string" {
					kv.V.Str = "second " + kv.V.Str
				}
				sc.Data = append(sc.Data, kv)
			}
			if chance(r, 1, 3) { // both load numbers, and little else, at the same time
				sc.Data = nil
				sc.Cfg["seq"], sc.Cfg["same"] = 0, 0
				for second := range 2 {
					num := func() string { return itoa(int64(2*r.IntN(pick(r, 10_000, 1_000_000_000)) + 200 + second)) }
					for _, k := range xxKeys {
						sc.Data = append(sc.Data, KV{DB: 1000 * second, K: k, V: &model.RVal{Kind: "string", Str: num()}})
						l := &model.RVal{Kind: "list"}
						for range r.IntN(8) {
							l.List = append(l.List, num())
						}
						if len(l.List) > 0 {
							sc.Data = append(sc.Data, KV{DB: 1000 * second, K: "list." + k, V: l})
						}
					}
				}
			}
			w, v := &xxWriter{r: r}, &xxWriter{r: r, n: 500}
			sc.Threads = [][]model.Op{w.list(pick(r, 5, 15, 30), pick(r, 3, 7, 9), true), v.list(pick(r, 5, 15, 30), pick(r, 3, 7, 9), true)}
			for t := 1 + r.IntN(4); t > 0; t-- {
				sc.Threads = append(sc.Threads, xxClientOps(r, len(sc.Threads), 1+r.IntN(10), true))
			}
			if sc.Cfg["same"] == 0 && chance(r, 1, 2) {
				switch r.IntN(4) {
				case 0:
					sc.Srv = append(sc.Srv, simnet.Fault{Kind: pick(r, "sync-error", "ping-error"), Arg: pick(r, "", "-LOADING Redis is loading the dataset in memory\r\n", "+OK\r\n")})
				case 1:
					sc.Cfg["dmgB"] = int64(1 + r.IntN(2))
				default:
					for k := 1 + r.IntN(2); k > 0; k-- {
						sc.Net = append(sc.Net, simnet.Fault{Kind: "down-addr", Arg: addrB, At: pick(r, span(r, 1, 50*ms), span(r, 1, 20*sec)), Dur: pick(r, span(r, 1, sec), span(r, 1, 100*sec))})
					}
				}
			}
			return sc
		},
		Run: func(e *Env) {
			same := e.cfg("same") != 0
			all := e.Sc.Data
			var second []KV
			e.Sc.Data = nil
			for _, kv := range all {
				if kv.DB >= 1000 {
					kv.DB -= 1000
					second = append(second, kv)
				} else {
					e.Sc.Data = append(e.Sc.Data, kv)
				}
			}
			x := xxEnv(e)
			e.Sc.Data = all
			e.D.Faults = nil
			f := *e
			y := &xx{Env: &f, opt: x.opt}
			y.Sc = e.Sc
			if !same {
				d := model.NewServer(e.S, e.Net, addrB)
				d.Faults, d.Delay, d.KeepAlive, d.SnapDelay, d.PingEvery = e.Sc.Srv, e.D.Delay, e.D.KeepAlive, e.D.SnapDelay, e.D.PingEvery
				d.ReplOff, d.RDBSeed, d.RDB = e.D.ReplOff+77, e.D.RDBSeed+1, e.D.RDB
				for _, kv := range second {
					d.St.Put(kv.DB, kv.K, kv.V.Clone())
				}
				switch e.cfg("dmgB") {
				case 1:
					d.Payload = func(b []byte) []byte { return b[:len(b)*2/3] }
				case 2:
					d.Payload = func(b []byte) []byte { return append([]byte("x"), b...) }
				}
				f.D = d
				y.opt.RedisMasterAddr = addrB
			}
			if e.cfg("seq") == 0 {
				y.opt.RedisRdbFile = "second-" + rdbFile
			}
			hit := len(e.Sc.Srv) > 0 || e.cfg("dmgB") > 0
			heal := int64(0)
			for _, f := range e.Sc.Net {
				hit = true
				heal = max(heal, f.At+f.Dur)
			}
			var errX, errY error
			e.main(func() {
				s := e.S
				x.D.StartTracking()
				wrote, wroteY := x.writers(0), new(bool)
				if !same {
					y.D.StartTracking()
					wroteY = y.writers(1)
				} else {
					*wroteY = true
				}
				left := 0
				users := func(c *xx, odd int) {
					for t := 2; t < len(e.Sc.Threads); t++ {
						if t := t; t%2 == odd {
							left++
							rt.Go(func() {
								defer func() { left-- }()
								for _, o := range e.Sc.Threads[t] {
									c.do(t, o)
								}
							})
						}
					}
				}
				making := 2
				first := func() {
					defer func() { making-- }()
					if errX = x.create(); errX == nil {
						users(x, 0)
					}
				}
				then := func() {
					defer func() { making-- }()
					if errY = y.create(); errY == nil {
						users(y, 1)
					}
				}
				if e.cfg("seq") != 0 {
					first()
					then()
				} else {
					rt.Go(first)
					rt.Go(then)
				}
				rt.WaitUntil("harness: users", 5000*sec, func() bool { return making == 0 && *wrote && *wroteY && left == 0 })
				if errX != nil {
					e.Fail("needless-error", "creating a client of a healthy master failed: %v", errX)
					return
				}
				if errY != nil && !hit {
					e.Fail("needless-error", "creating a second client of a healthy master failed: %v", errY)
					return
				}
				if hit {
					rt.Sleep(max(heal-s.Now(), 0) + 80*sec)
				}
				for _, k := range e.keys()[:3] {
					x.D.Do(0, "set", k, "first master's last")
					if !same {
						y.D.Do(0, "set", k, "second master's last")
					}
				}
				x.settle()
				x.current("not-converged", 1)
				if errY == nil {
					y.current("not-converged", 25)
				}
			})
			e.Fail2(y.Env)
			if e.class != "" {
				return
			}
			since := func(c *xx) int64 {
				t := c.newT
				if same {
					return t
				}
				for _, l := range c.D.Replicas {
					if l.SnapT >= c.newT {
						return l.SnapT
					}
				}
				return t
			}
			x.held(since(x))
			if errY == nil {
				y.held(since(y))
			}
			e.Fail2(y.Env)
			if same || e.class != "" {
				return
			}
			for i, d := range []*model.Server{x.D, y.D} {
				for _, l := range d.Log {
					var t, n int
					if len(l.Args) == 3 && strings.EqualFold(l.Args[0], "set") {
						if k, _ := fmt.Sscanf(l.Args[2], "c%d-%d", &t, &n); k == 2 && t%2 != i {
							e.Fail("wrong-master", "master %d executed %s, which was asked of the other client", i+1, short(strings.Join(l.Args, " ")))
						}
					}
				}
			}
		}})
}

// Fail2 takes over the violation another view of the run has found.
func (e *Env) Fail2(f *Env) {
	if f.class != "" {
		e.Fail(f.class, "%s", f.viol)
	}
}
