package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"
	"runtime"
	"strconv"
	"strings"

	"github.com/liujiangwei/xxcache"
	"github.com/liujiangwei/xxcache/redis"

	"verifsim/model"
	"verifsim/rt"
	"verifsim/simfs"
	"verifsim/simnet"
)

const rdbFile = "/data/temp.rdb"

// ---- datasets

func genNum(r *rand.Rand) string {
	switch r.IntN(7) {
	case 0:
		return itoa(int64(r.IntN(16)))
	case 1:
		return itoa(int64(r.IntN(300) - 150))
	case 2:
		return itoa(int64(r.IntN(70000) - 35000))
	case 3:
		return itoa(int64(r.IntN(1<<25) - 1<<24))
	case 4:
		return itoa(int64(r.Uint32()) - 1<<31)
	case 5:
		return pick(r, "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "8388607", "8388608", "-8388608", "-8388609", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "12", "13", "0", "-1")
	}
	return itoa(int64(r.Uint64()))
}

func genElem(r *rand.Rand, big bool) string {
	switch r.IntN(8) {
	case 0, 1:
		return genNum(r)
	case 2:
		return pick(r, "", "007", "-0", "1.5", "12345678901234567890", " 1", "+1")
	case 3:
		return genBytes(r, 1+r.IntN(30))
	case 4:
		n := pick(r, 63, 64, 65, 253, 254, 255, 256, 300)
		return genBytes(r, n)
	case 5:
		if big {
			return genBytes(r, pick(r, 4095, 4096, 5000, 16383, 16384, 20000))
		}
		return strings.Repeat("ab", 1+r.IntN(60))
	}
	return "e" + itoa(int64(r.IntN(1000)))
}

func genScore(r *rand.Rand) float64 {
	switch r.IntN(6) {
	case 0:
		return pick(r, math.Inf(1), math.Inf(-1), 0, 1, -1)
	case 1:
		return float64(r.IntN(1000)) / 8
	case 2:
		return r.NormFloat64() * 1e10
	case 3:
		return pick(r, 0.1, 1e-7, 3.0e20, 1e300, 2.5, -17.25, 5e-324, 1.2345678901234567e-15, 0.30000000000000004, 9007199254740993, 1.7976931348623157e308, -2.2250738585072014e-308, 123456789.98765432)
	}
	return float64(r.IntN(2000) - 1000)
}

func genValue(r *rand.Rand, kind string, big bool) *model.RVal {
	v := &model.RVal{Kind: kind}
	n := 1 + r.IntN(6)
	if big && chance(r, 1, 4) {
		n = pick(r, 60, 70, 260)
	}
	switch kind {
	case "string":
		v.Str = genElem(r, big)
		if chance(r, 1, 6) {
			v.Str = strings.Repeat(genElem(r, false), 1+r.IntN(20))
		}
		if chance(r, 1, 12) {
			v.Str = genBytes(r, pick(r, 60, 64, 100, 4090, 4096, 9000))
		}
	case "list":
		for i := 0; i < n; i++ {
			v.List = append(v.List, genElem(r, big))
		}
	case "set":
		v.Set = map[string]bool{}
		ints := chance(r, 1, 2)
		w := r.IntN(3)
		for i := 0; i < n; i++ {
			if !ints {
				v.Set[genElem(r, big)] = true
				continue
			}
			switch w {
			case 0:
				v.Set[itoa(int64(r.IntN(65536)-32768))] = true
			case 1:
				v.Set[itoa(int64(r.Uint32())-1<<31)] = true
			default:
				v.Set[genNum(r)] = true
			}
		}
	case "zset":
		v.Z = map[string]float64{}
		for i := 0; i < n; i++ {
			v.Z[genElem(r, big)] = genScore(r)
		}
	case "hash":
		v.Hash = map[string]string{}
		for i := 0; i < n; i++ {
			v.Hash[genElem(r, big)] = genElem(r, big)
		}
	}
	return v
}

func genData(r *rand.Rand, n int, kinds []string, dbs int, big bool) (l []KV) {
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("key%d", i)
		switch r.IntN(8) {
		case 0:
			k = genNum(r)
		case 1:
			k += genBytes(r, 1+r.IntN(12))
		case 2:
			if chance(r, 1, 3) {
				k = ""
			}
		case 3:
			if chance(r, 1, 4) {
				k += strings.Repeat("k", pick(r, 60, 64, 300, 4096))
			}
		}
		v := genValue(r, pick(r, kinds...), big)
		if chance(r, 1, 4) {
			v.Exp = model.EpochMs + span(r, 100_000, 1e9)*pick(r, int64(1), 1000)
			if chance(r, 1, 2) {
				v.Exp -= v.Exp % 1000
			}
			v.Exp = min(v.Exp, 4_294_967_295_000)
		}
		db := 0
		if dbs > 1 && chance(r, 1, 2) {
			db = pick(r, r.IntN(dbs), r.IntN(dbs), 100, 70000)
		}
		l = append(l, KV{DB: db, K: k, V: v})
	}
	return
}

var allKinds = []string{"string", "string", "list", "set", "zset", "hash"}

func (sc *Scenario) store() *model.Store {
	st := model.NewStore()
	for _, kv := range sc.Data {
		st.Put(kv.DB, kv.K, kv.V.Clone())
	}
	bulkInto(st, sc.Cfg["bulk"], int(sc.Cfg["bulkn"]))
	return st
}

// addBulk adds something big to the dataset: it is made when the case runs, so that
// replay files stay small.
func addBulk(r *rand.Rand, sc *Scenario, kinds int64, n int) {
	sc.Cfg["bulk"] = 1 + r.Int64N(kinds)
	sc.Cfg["bulkn"] = int64(n/2 + r.IntN(n))
	if chance(r, 1, 2) { // around a multiple of what something may be limited to
		b := pick(r, 64, 100, 128, 256, 500, 512, 1000, 1024, 2048, 4096)
		sc.Cfg["bulkn"] = int64(max(1, b*max(1, (n/2+r.IntN(n))/b)+r.IntN(4)-2))
	}
	sc.Cfg["maxsteps"] = 40_000_000
}

const bulkKey = "bulk"

func bulkInto(st *model.Store, kind int64, n int) {
	if kind == 0 || n <= 0 {
		return
	}
	v := &model.RVal{}
	elem := func(i int) string {
		if i%3 == 0 {
			return itoa(int64(i) * 7919 % 200000)
		}
		return "element " + itoa(int64(i))
	}
	switch kind {
	case 1: // many keys
		for i := 0; i < n; i++ {
			st.Put(0, bulkKey+itoa(int64(i)), &model.RVal{Kind: "string", Str: elem(i)})
		}
		return
	case 2:
		v.Kind, v.Str = "string", strings.Repeat("0123456789 abcdef", n)
	case 3:
		v.Kind = "list"
		for i := 0; i < n; i++ {
			v.List = append(v.List, elem(i))
		}
	case 4:
		v.Kind, v.Set = "set", map[string]bool{}
		for i := 0; i < n; i++ {
			if n%2 == 0 {
				v.Set["member "+itoa(int64(i))] = true
			} else {
				v.Set[itoa(int64(i)-int64(n/3))] = true
			}
		}
	case 5:
		v.Kind, v.Hash = "hash", map[string]string{}
		for i := 0; i < n; i++ {
			v.Hash["f"+itoa(int64(i))] = elem(i)
		}
	default:
		v.Kind, v.Z = "zset", map[string]float64{}
		for i := 0; i < n; i++ {
			v.Z["m"+itoa(int64(i))] = float64(i) / 4
		}
	}
	st.Put(0, bulkKey, v)
}

func cmdArgs(m redis.Message) ([]string, bool) {
	a, ok := m.(redis.ArrayMessage)
	if !ok {
		return nil, false
	}
	var l []string
	for _, x := range a {
		l = append(l, x.String())
	}
	return l, len(l) > 0
}

func replCfg(r *rand.Rand) map[string]int64 {
	m := netCfg(r)
	m["pingms"] = pick(r, int64(1000), 3000, 10000)
	m["reploff"] = pick(r, int64(0), 1, 1000, 123456789012)
	m["rdbseed"] = int64(r.Uint32())
	m["rich"] = int64(r.IntN(2))
	m["shortread"] = int64(r.IntN(2))
	if chance(r, 1, 2) {
		m["snapdelay"] = span(r, 1, 20_000_000)
		m["keepalive"] = int64(r.IntN(6))
		if chance(r, 1, 50) {
			m["keepalive"] = span(r, 6, 5000)
		}
	}
	return m
}

// slowSnapshot makes the master take minutes to send its snapshot of n bytes, but never
// leaves it silent for more than the 50 s within which replicas must not give up.
func slowSnapshot(r *rand.Rand, sc *Scenario, n int) {
	if chance(r, 2, 3) {
		d := span(r, 20_000_000, 400_000_000)
		sc.Cfg["snapdelay"] = d
		sc.Cfg["keepalive"] = d/50_000_000 + pick(r, int64(r.IntN(3)), int64(r.IntN(3)), span(r, 3, 1000))
	}
	if n > 40 && chance(r, 1, 3) { // a few bytes at a time
		sc.Net = append(sc.Net, simnet.Fault{Kind: "drip", Conn: 0, Dir: "s2c", At: slowFrom(sc) + int64(r.IntN(n)), N: span(r, 2, 30), Step: pick(r, int64(1), 1, 2, 5), Dur: span(r, sec, 50*sec)})
	} else if n > 40 && chance(r, 1, 2) {
		for k := 1 + r.IntN(5); k > 0; k-- {
			sc.Net = append(sc.Net, simnet.Fault{Kind: "stall", Conn: 0, Dir: "s2c", At: slowFrom(sc) + int64(r.IntN(n)), Dur: span(r, sec, 50*sec)})
		}
		l := sc.Net[:0]
		at := map[int64]bool{}
		for _, f := range sc.Net {
			if f.Kind == "stall" && at[f.At] {
				continue
			}
			at[f.At] = true
			l = append(l, f)
		}
		sc.Net = l
	}
}

// slowFrom is a position behind everything that precedes the snapshot's bytes.
func slowFrom(sc *Scenario) int64 { return 40 + sc.Cfg["keepalive"] }

// gentle reports how long the planned stalls last together, if they are the only faults
// and each of them is one that a replica has to sit out.
func gentle(sc *Scenario) (sum int64, ok bool) {
	at := map[int64]bool{}
	for _, f := range sc.Net {
		if f.Kind == "drip" && f.Dir == "s2c" && f.At >= slowFrom(sc) && f.Dur <= 50*sec && len(sc.Net) == 1 {
			sum += f.N * f.Dur
			continue
		}
		if f.Kind != "stall" || f.Dir != "s2c" || f.At < slowFrom(sc) || f.Dur > 50*sec || at[f.At] {
			return 0, false
		}
		at[f.At] = true
		sum += f.Dur
	}
	if k := sc.Cfg["snapdelay"]; k > 20_000_000 && k/(sc.Cfg["keepalive"]+1) > 50_000_000 {
		return 0, false
	}
	return sum, len(sc.Srv) == 0 && len(sc.Disk) == 0
}

var diskKinds = []string{"open-error", "write-error", "disk-full"}

// linkFault is one way a replication link can fail.
func linkFault(r *rand.Rand, conn int, span64 int64) simnet.Fault {
	at := int64(0)
	if span64 > 0 {
		at = r.Int64N(span64)
	}
	switch r.IntN(5) {
	case 0, 1:
		return simnet.Fault{Kind: "fin", Conn: conn, Dir: "s2c", At: at}
	case 2:
		return simnet.Fault{Kind: "rst", Conn: conn, Dir: "s2c", At: at}
	case 3:
		return simnet.Fault{Kind: "rst", Conn: conn, Dir: "c2s", At: r.Int64N(120)}
	}
	return simnet.Fault{Kind: "fin", Conn: conn, Dir: "s2c", At: at}
}

var replReal = []string{"redis.Replication, redis.Conn, rdb, ziplist, zipmap, intset (instrumented); liblzf (real C library)"}
var replStub = []string{"TCP network and disk: simulated", "master: reference model with an independent snapshot encoder"}

func init() {
	register(&Prop{ID: "P01", Quick: 240000, Thorough: 4800000, Real: replReal, Stub: replStub,
		Rule: "a case is a snapshot of 0-60000 arbitrary bytes, 0-5 keep-alive newlines before it, a random segmentation, possibly an older snapshot on disk, and 0-2 faults: the link closed or reset at any byte, refused or unanswered dials, error replies, a silent, slow (but never silent for 60 s) or partitioned master, file open and write errors, a full disk; distinct by case and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			sc := &Scenario{Cfg: replCfg(r)}
			n := pick(r, r.IntN(200), r.IntN(200), 4096+r.IntN(20)-10, r.IntN(20000))
			if chance(r, 1, 40) {
				n = 60000
			}
			sc.Cfg["old"] = pick(r, int64(0), 0, int64(r.IntN(30000)))
			sc.Setup = []model.Op{op("payload", "", genBytes(r, n))}
			dribble(sc, n)
			if chance(r, 1, 8) {
				slowSnapshot(r, sc, n)
				return sc
			}
			for k := r.IntN(3); k > 0; k-- {
				switch r.IntN(6) {
				case 0:
					sc.Disk = append(sc.Disk, simfs.Fault{Kind: "open-error", At: 0})
				case 1:
					sc.Disk = append(sc.Disk, simfs.Fault{Kind: pick(r, "write-error", "disk-full", "close-error"), At: int64(r.IntN(n + 1))})
				case 2:
					sc.Srv = append(sc.Srv, simnet.Fault{Kind: pick(r, "sync-error", "ping-error", "maxclients"), Conn: 0, Arg: pick(r, "", "-LOADING Redis is loading the dataset in memory\r\n", "+OK\r\n", ":1\r\n", "*0\r\n", "$-1\r\n", "$-5\r\n", "$EOF:0123456789012345678901234567890123456789\r\n", "-NOMASTERLINK Can't SYNC while not connected with my master\r\n", "?\r\n", "$\r\n")})
				case 3:
					sc.Net = append(sc.Net, pick(r, simnet.Fault{Kind: "dial-refuse"}, simnet.Fault{Kind: "dial-timeout"}, simnet.Fault{Kind: "stall", Dir: pick(r, "s2c", "c2s"), At: int64(r.IntN(n + 40)), Dur: span(r, 1, 100) * sec}, simnet.Fault{Kind: "partition", At: r.Int64N(5 * sec), Dur: span(r, 1, 3000) * sec}))
				default:
					sc.Net = append(sc.Net, linkFault(r, 0, int64(n+40)))
				}
			}
			return sc
		},
		Run: func(e *Env) {
			s := e.sim(false)
			e.addNet()
			e.addFS()
			e.addServer()
			if len(e.Sc.Setup) == 0 {
				return
			}
			pay := e.Sc.Setup[0].A[0]
			e.D.Payload = func([]byte) []byte { return []byte(pay) }
			if n := e.cfg("old"); n > 0 {
				e.FS.Put(rdbFile, bytes.Repeat([]byte("old snapshot "), int(n)/13+1))
			}
			var err error
			var took int64
			e.main(func() {
				repl := &redis.Replication{MasterAddr: addr, RdbFile: rdbFile}
				err = repl.SyncWithRedis()
				took = s.Now()
			})
			if e.class != "" {
				return
			}
			slow, soft := gentle(e.Sc)
			limit := 300*sec + e.cfg("snapdelay")*us + slow
			if took > limit {
				e.Fail("too-late", "synchronising returned after %.0f s", float64(took)/1e9)
			}
			if err != nil {
				n := fired(e) - e.S.Fired["process-stall"] - e.S.Fired["short-read"]
				if soft {
					n -= e.S.Fired["stall-s2c"] + e.S.Fired["drip-s2c"]
				} else if e.cfg("snapdelay") > 50_000_000 {
					n++
				}
				if n == 0 {
					e.Fail("needless-error", "synchronising with a healthy master failed: %v", err)
				}
				return
			}
			got, ok := e.FS.Data(rdbFile)
			if !ok || string(got) != pay {
				e.Fail("wrong-file", "synchronising reported success, but the file (%d bytes, present: %v) is not the master's snapshot (%d bytes); they differ at byte %d", len(got), ok, len(pay), diffAt(string(got), pay))
			} else if len(e.D.Replicas) == 0 {
				e.Fail("no-sync", "synchronising reported success, but the master sent no snapshot")
			}
		}})

	register(&Prop{ID: "P02", Quick: 56000, Thorough: 1680000, Real: replReal, Stub: []string{"disk: simulated (reads split at random)", "snapshot encoder and command interpreter: independent reference model"},
		Rule: "a case is a dataset of 1-8 keys of any supported type in up to 6 databases, encoded with randomly chosen encodings and length forms, read with random short reads and consumed by a concurrent goroutine through a queue of 1 to 10000; the emitted commands are executed by the reference model and the result compared with the dataset; distinct by case and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			sc := &Scenario{Cfg: replCfg(r)}
			sc.Cfg["cap"] = pick(r, int64(1), 3, 10000)
			sc.Data = genData(r, 1+r.IntN(8), allKinds, pick(r, 1, 6), chance(r, 1, 6))
			if chance(r, 1, 250) {
				addBulk(r, sc, 6, pick(r, 300, 300, 5000, 17000, 70000))
			} else if chance(r, 1, 40) {
				addBulk(r, sc, 6, pick(r, 100, 300, 1000))
				sc.Cfg["bulk"] = span(r, 3, 6)
			}
			if chance(r, 1, 12) { // deadlines that are long past, or far away
				for _, kv := range sc.Data {
					if chance(r, 1, 2) {
						kv.V.Exp = pick(r, int64(1), 2, 999, 1000, model.EpochMs-1, model.EpochMs-1000, 4_294_967_295_000, 4_294_967_296_000, 1<<53, 1<<53+1, math.MaxInt64)
					}
				}
			}
			return sc
		},
		Run: func(e *Env) { loadRun(e, "") }})

	register(&Prop{ID: "P03", Quick: 150000, Thorough: 3000000, Real: replReal, Stub: []string{"disk: simulated (short reads, read errors)", "snapshot encoder: independent reference model, damaged afterwards"},
		Rule: "a case is the snapshot of a random dataset that is cut at any byte before its end marker, unreadable from any byte on, without its magic, containing an unsupported type, altered in 1-4 random bytes, or random bytes altogether; distinct by case and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			sc := &Scenario{Cfg: replCfg(r)}
			sc.Cfg["cap"] = pick(r, int64(1), 3, 10000)
			sc.Data = genData(r, 1+r.IntN(6), allKinds, pick(r, 1, 3), chance(r, 1, 12))
			sc.Cfg["dmg"] = int64(1 + r.IntN(8))
			sc.Cfg["dmgseed"] = int64(r.Uint32())
			if sc.Cfg["dmg"] == 4 {
				k := pick(r, "stream", "module", "newtype")
				at := r.IntN(len(sc.Data) + 1)
				sc.Data = append(sc.Data[:at:at], append([]KV{{K: "unsupported", V: &model.RVal{Kind: k}}}, sc.Data[at:]...)...)
			}
			return sc
		},
		Run: func(e *Env) { loadRun(e, "damage") }})

	register(&Prop{ID: "P04", Quick: 125000, Thorough: 3000000, Real: replReal, Stub: replStub,
		Rule: "a case is 1-30 write commands streamed by the master in several databases while the snapshot is prepared, transferred, loaded and afterwards, read by a consumer of random speed through a queue of 1 to 10000, with pings, acknowledgements, stalls, and the link ending by close or reset at a random byte, by bytes that are no message, by stopping the replica, or after everything was sent; distinct by case and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			sc := &Scenario{Cfg: replCfg(r)}
			sc.Cfg["cap"] = pick(r, int64(1), 2, 10000)
			sc.Cfg["consumer"] = int64(r.IntN(2))
			sc.Cfg["slow"] = pick(r, int64(0), 0, 1000, 300000)
			if chance(r, 1, 6) { // a consumer that rests for long
				sc.Cfg["cap"] = pick(r, int64(1), 2)
				sc.Cfg["pauseat"], sc.Cfg["pause"] = r.Int64N(12), pick(r, int64(6), 11, 31, 61, 130, 400)
			}
			for j := r.IntN(4); j > 0; j-- {
				sc.Data = append(sc.Data, KV{DB: r.IntN(3), K: fmt.Sprintf("s%d", j), V: &model.RVal{Kind: "string", Str: genElem(r, false)}})
			}
			sc.Threads = [][]model.Op{genWrites(r, 1+r.IntN(30), 4, chance(r, 1, 6))}
			if chance(r, 1, 2) {
				f := linkFault(r, 0, pick(r, int64(400), 3000, 20000))
				sc.Net = append(sc.Net, f)
			}
			if chance(r, 1, 3) {
				sc.Net = append(sc.Net, simnet.Fault{Kind: "stall", Conn: 0, Dir: "s2c", At: int64(r.IntN(3000)), Dur: span(r, ms, 40*sec)})
			}
			sc.Cfg["endgarbage"] = int64(max(0, r.IntN(7)-4)) // 1: garbage, 2: the replica stops
			return sc
		},
		Run: func(e *Env) { streamRun(e, "P04") }})

	register(&Prop{ID: "P05", Quick: 60000, Thorough: 3600000, Real: replReal, Stub: replStub,
		Rule:   "a case is a replication link with 1-25 streamed commands, pings and delays over 5-60 simulated seconds, ending by close, reset, partition, bytes that are no message or after everything was sent; every acknowledgement the master receives is compared with what it had sent and what the replica had read; distinct by case and schedule",
		Assume: []string{"an acknowledgement may lag the bytes read by up to 3 s, and counts whole messages"},
		Gen: func(r *rand.Rand, i int) *Scenario {
			sc := &Scenario{Cfg: replCfg(r)}
			delete(sc.Cfg, "maxseg")
			sc.Cfg["jit"] = min(sc.Cfg["jit"], 500)
			sc.Cfg["cap"] = 10000
			sc.Cfg["endgarbage"] = int64(r.IntN(4) / 3)
			sc.Cfg["client"] = int64(r.IntN(4) / 3)
			sc.Threads = [][]model.Op{genWrites(r, 1+r.IntN(25), 3, chance(r, 1, 8))}
			if sc.Cfg["client"] == 0 && chance(r, 1, 3) { // a consumer that cannot keep up
				sc.Cfg["cap"] = pick(r, int64(1), 2, 3)
				sc.Cfg["consumer"] = int64(r.IntN(2))
				sc.Cfg["slow"] = pick(r, int64(0), 300_000, 2_000_000)
				sc.Cfg["pauseat"], sc.Cfg["pause"] = r.Int64N(12), pick(r, int64(5), 11, 31, 65, 130)
			}
			if chance(r, 1, 500) { // a link that lasts for hours
				sc.Cfg["long"] = pick(r, int64(3700), 7300, 20_000, 70_000)
				sc.Cfg["maxsteps"] = 20_000_000
				sc.Threads[0] = append(sc.Threads[0], model.Op{C: "sleep", N: sc.Cfg["long"] * sec})
				sc.Threads[0] = append(sc.Threads[0], genWrites(r, 1+r.IntN(10), 3, false)...)
				return sc
			}
			switch r.IntN(4) {
			case 0:
				sc.Net = append(sc.Net, linkFault(r, 0, 3000))
			case 1:
				sc.Net = append(sc.Net, simnet.Fault{Kind: "partition", At: span(r, 1, 40) * sec, Dur: span(r, 1, 2000) * sec})
			}
			return sc
		},
		Run: func(e *Env) { streamRun(e, "P05") }})
}

// ---- P02, P03

type delivered struct {
	DB   int
	Args []string
}

func loadRun(e *Env, mode string) {
	s := e.sim(false)
	e.addFS()
	st := e.Sc.store()
	file, marks, used := model.EncodeRDB(st, rand.New(rand.NewPCG(uint64(e.cfg("rdbseed")), 5)), model.RDBOpt{Rich: e.cfg("rich") != 0, Offset: e.cfg("reploff")})
	eof := 0
	for _, m := range marks {
		if m.What == "eof" {
			eof = m.Off
		}
	}
	mustFail, mayDiffer, exists := false, false, true
	if mode != "" {
		dr := rand.New(rand.NewPCG(uint64(e.cfg("dmgseed")), 7))
		kind := e.cfg("dmg")
		switch kind {
		case 1, 2:
			file = file[:dr.IntN(eof+1)]
			mustFail = true
			s.Fire("snapshot-truncated")
		case 3:
			e.FS.Faults = append(e.FS.Faults, simfs.Fault{Kind: "read-error", At: int64(dr.IntN(eof + 1))})
			mustFail = true
		case 4:
			for _, kv := range e.Sc.Data {
				switch kv.V.Kind {
				case "stream", "module", "newtype":
					mustFail = true
				}
			}
			if mustFail {
				s.Fire("unsupported-type")
			}
		case 5:
			if dr.IntN(6) == 0 {
				file = append([]byte(pick(dr, "0009REDIS", "xREDIS009", "\nREDIS000", "redis0009", "VALKEY009", "REDIx0009", "         ")), file[9:]...)
			} else if dr.IntN(2) == 0 {
				file = append([]byte(nil), file...)
				file[dr.IntN(5)] ^= byte(1 + dr.IntN(255))
			} else {
				file = append([]byte(pick(dr, "HTTP/1.1 200 OK\r\n", "-ERR unknown\r\n", "RDIS", "redis0009", "\n", "x", "\x00", "12", "REDI")), file...)
			}
			mustFail = true
			s.Fire("bad-magic")
		case 6:
			if dr.IntN(8) == 0 {
				exists, mustFail = false, true
				s.Fire("snapshot-missing")
				break
			}
			fallthrough
		case 7:
			file = append([]byte(nil), file...)
			for k := 1 + dr.IntN(4); k > 0; k-- {
				i := 9 + dr.IntN(len(file)-9)
				if dr.IntN(2) == 0 {
					file[i] = pick(dr, byte(0xff), 0x80, 0x81, 0, 0x7f, 0xc0, 0xc3, 0x40, 0xfe)
				} else {
					file[i] = byte(dr.IntN(256))
				}
			}
			mayDiffer = true
			s.Fire("snapshot-altered")
		case 8:
			n := dr.IntN(400)
			b := []byte("REDIS0009")
			for len(b) < n {
				b = append(b, byte(dr.IntN(256)))
			}
			file = b[:max(min(n, len(b)), 0)]
			mayDiffer = true
			s.Fire("snapshot-random")
		}
	}
	if exists {
		e.FS.Put(rdbFile, file)
	}
	for k, n := range used {
		s.Probes["snapshot-"+k] += int64(n)
	}
	var out []delivered
	var err error
	var m0, m1 runtime.MemStats
	e.main(func() {
		repl := &redis.Replication{RdbFile: rdbFile}
		repl.Messages = make(chan redis.ReplicationMessage, max(e.cfg("cap"), 1))
		repl.Err = make(chan error, 1)
		loaded, idle := false, false
		rt.Go(func() {
			for {
				idle = true
				rt.Block("harness: consumer", func() bool { return rt.Queued(repl.Messages) > 0 })
				idle = false
				m := rt.Recv(repl.Messages)
				a, ok := cmdArgs(m.Message)
				if !ok {
					e.Fail("not-a-command", "loading emitted %s, which is not a command", msgText(m.Message))
				}
				out = append(out, delivered{m.Database, a})
			}
		})
		runtime.ReadMemStats(&m0)
		err = repl.Load()
		runtime.ReadMemStats(&m1)
		loaded = true
		rt.Block("harness: drain", func() bool { return loaded && rt.Queued(repl.Messages) == 0 && idle })
	})
	if e.class != "" {
		return
	}
	got := model.NewStore()
	for _, d := range out {
		if mayDiffer {
			break
		}
		if len(d.Args) == 0 {
			continue
		}
		if r, _ := got.Exec(d.DB, d.Args, model.EpochMs); strings.HasPrefix(r, "-") {
			e.Fail("rejected-command", "loading emitted %s, to which Redis answers %s", short(strings.Join(d.Args, " ")), short(r))
			return
		}
	}
	switch {
	case mode == "":
		if err != nil {
			e.Fail("needless-error", "loading a valid snapshot failed: %v", err)
			return
		}
		for _, m := range st.DB { // what is past its deadline need not be loaded
			for k, v := range m {
				if v.Exp != 0 && v.Exp <= model.EpochMs {
					delete(m, k)
				}
			}
		}
		want, have := st.Text(), got.Text()
		for _, k := range sortedKeys(want) {
			if have[k] != want[k] {
				if have[k] == "" {
					e.Fail("missing", "%s was not loaded", short(k))
				} else {
					e.Fail("wrong-value", "%s was loaded as %s, the snapshot holds %s", short(k), clip(have[k], diffAt(have[k], want[k])), clip(want[k], diffAt(have[k], want[k])))
				}
			}
		}
		for _, k := range sortedKeys(have) {
			if want[k] == "" {
				e.Fail("extra", "%s was loaded (as %s), the snapshot does not hold it", short(k), short(have[k]))
			}
		}
	case mustFail && err == nil:
		e.Fail("believed", "loading reported success on a damaged or unsupported snapshot (damage kind %d)", e.cfg("dmg"))
	}
	if mode != "" && !mayDiffer {
		for db, m := range got.DB {
			for k, v := range m {
				w := st.DB[db][k]
				if !part(v, w) {
					t := "nothing"
					if w != nil {
						t = w.Text()
					}
					e.Fail("made-up", "before the error, db%d %s was emitted as %s, the snapshot holds %s", db, short(k), short(v.Text()), short(t))
				}
			}
		}
	}
	if d := m1.TotalAlloc - m0.TotalAlloc; d > 48<<20+uint64(len(file))*400 {
		e.Fail("allocation", "%d MB were allocated while loading a file of %d bytes", d>>20, len(file))
	}
}

func clip(s string, at int) string {
	lo := max(0, at-20)
	return short(s[min(lo, len(s)):])
}

// part reports whether v is w or a part of it.
func part(v, w *model.RVal) bool {
	if w == nil || v.Kind != w.Kind || (v.Exp != 0 && v.Exp != w.Exp) {
		return false
	}
	if v.Str != w.Str {
		return false
	}
	if len(v.List) > len(w.List) {
		return false
	}
	for i := range v.List {
		if v.List[i] != w.List[i] {
			return false
		}
	}
	for k := range v.Set {
		if !w.Set[k] {
			return false
		}
	}
	for k, f := range v.Z {
		if g, ok := w.Z[k]; !ok || g != f {
			return false
		}
	}
	for k, x := range v.Hash {
		if y, ok := w.Hash[k]; !ok || x != y {
			return false
		}
	}
	return true
}

// ---- P04, P05

// genWrites makes a master's write load: commands in several databases, with pauses.
func genWrites(r *rand.Rand, n, dbs int, big bool) (l []model.Op) {
	db := 0
	for i := 0; i < n; i++ {
		if chance(r, 1, 3) {
			db = r.IntN(dbs)
			if chance(r, 1, 10) {
				db = pick(r, 12, 15, 16, 17, 255, 256, 1000000)
			}
		}
		k := fmt.Sprintf("k%d", r.IntN(5))
		var a []string
		switch r.IntN(14) {
		case 0:
			a = []string{"incr", "n" + k}
		case 1:
			a = []string{"append", k, genElem(r, big)}
		case 2:
			a = []string{"rpush", "l" + k, genElem(r, big), genElem(r, big)}
		case 3:
			a = []string{"hset", "h" + k, genElem(r, false), genElem(r, big)}
		case 4:
			a = []string{"mset", k, genElem(r, big), k + "x", genElem(r, big)}
		case 5:
			a = []string{"del", k}
		case 6:
			a = []string{"sadd", "s" + k, genElem(r, big)}
		case 7:
			a = []string{"set", k, genElem(r, big), "ex", "100000"}
		case 8:
			a = []string{pick(r, "ping", "Ping", "pings", "select", "publish", "multi", "exec"), k, genElem(r, false)}
			l = append(l, model.Op{C: "feed", N: int64(db), A: a[:1+r.IntN(2)+1]})
			continue
		default:
			a = []string{"set", k, genElem(r, big)}
		}
		l = append(l, model.Op{C: "do", N: int64(db), A: a})
		if chance(r, 1, 3) {
			l = append(l, model.Op{C: "sleep", N: pick(r, span(r, 1, 10*ms), span(r, 1, sec), span(r, 1, 6*sec))})
		}
	}
	return
}

// skipMsg reports messages whose delivery to the consumer is optional.
func skipMsg(a []string) bool {
	if len(a) == 0 {
		return true
	}
	switch strings.ToLower(a[0]) {
	case "ping":
		return len(a) == 1
	case "select":
		return len(a) == 2
	case "multi", "exec":
		return true
	}
	return false
}

func streamRun(e *Env, mode string) {
	s := e.sim(false)
	e.addNet()
	e.addFS()
	e.addServer()
	d := e.D
	var out []delivered
	var outAt []int64
	var syncErr, loadErr error
	var started, ended, toldAt int64
	told := false
	nload, loops := 0, 0
	slow := e.cfg("pause") > 0 || e.cfg("slow") > 0
	e.main(func() {
		repl := &redis.Replication{MasterAddr: addr, RdbFile: rdbFile}
		writing := true
		rt.Go(func() {
			defer func() { writing = false }()
			if len(e.Sc.Threads) == 0 {
				return
			}
			for _, o := range e.Sc.Threads[0] {
				switch {
				case wait(s, o):
				case o.C == "do":
					d.Do(int(o.N), o.A...)
				case o.C == "feed" && !(strings.EqualFold(o.A[0], "select") && len(o.A) == 2):
					d.Feed(int(o.N), o.A)
				}
			}
		})
		finish := func() {
			ended = s.Now()
			if e.cfg("endgarbage") == 2 && mode == "P04" {
				s.Probe("replica-stopped")
				repl.Stop()
			} else if len(d.Replicas) > 0 {
				if e.cfg("endgarbage") != 0 {
					s.Fire("end-garbage")
					d.Replicas[0].Conn.ServerSend([]byte("?garbage\r\n"))
				} else {
					d.Replicas[0].Conn.ServerClose()
				}
			}
		}
		if e.cfg("client") != 0 {
			if _, syncErr = xxcache.New(xxcache.Option{RedisMasterAddr: addr, RedisRdbFile: rdbFile}); syncErr != nil {
				return
			}
			started = s.Now()
			rt.WaitUntil("harness: writes", (2000+e.cfg("long"))*sec, func() bool { return !writing })
			rt.Sleep(2 * sec)
			d.NoPing = true
			rt.Sleep(17 * sec)
			finish()
			rt.Sleep(160 * sec)
			return
		}
		if syncErr = repl.SyncWithRedis(); syncErr != nil {
			return
		}
		repl.Messages = make(chan redis.ReplicationMessage, max(e.cfg("cap"), 1))
		rt.Go(func() {
			errC := repl.Err
			for !told {
				if e.cfg("consumer") == 0 {
					mc := rt.NewRecv(repl.Messages)
					ec := rt.NewRecv(errC)
					if rt.Select(false, mc, ec) == 1 {
						if ec.V != nil {
							toldAt = s.Now()
						}
						continue
					}
					if !mc.Ok {
						told, toldAt = true, s.Now()
						return
					}
					a, ok := cmdArgs(mc.V.Message)
					if !ok {
						e.Fail("not-a-command", "the consumer got %s", msgText(mc.V.Message))
					}
					out, outAt = append(out, delivered{mc.V.Database, a}), append(outAt, s.Now())
				} else {
					m, ok := rt.Recv2(repl.Messages)
					if !ok {
						told, toldAt = true, s.Now()
						return
					}
					a, ok := cmdArgs(m.Message)
					if !ok {
						e.Fail("not-a-command", "the consumer got %s", msgText(m.Message))
					}
					out, outAt = append(out, delivered{m.Database, a}), append(outAt, s.Now())
				}
				s.Note("delivered", len(out))
				if e.cfg("pause") > 0 && int64(len(out)) == 1+e.cfg("pauseat") {
					s.Probe("consumer-pause")
					rt.Sleep(e.cfg("pause") * sec)
				}
				if sl := e.cfg("slow"); sl > 0 {
					rt.Sleep(sl * us)
				}
			}
		})
		if loadErr = repl.Load(); loadErr != nil {
			return
		}
		started = s.Now()
		for _, m := range d.Replicas[0].Snapshot.DB {
			for _, v := range m {
				nload++
				if v.Exp != 0 {
					nload++
				}
			}
		}
		loops = 2
		rt.Go(func() { repl.Ack(); loops-- })
		rt.Go(func() { repl.WaitForMessage(); loops-- })
		rt.WaitUntil("harness: writes", (2000+e.cfg("long"))*sec, func() bool { return !writing })
		if mode == "P05" {
			if slow {
				rt.WaitUntil("harness: slow consumer", 3000*sec, func() bool { return told || rest(d, out[min(nload, len(out)):]) <= 0 })
			}
			rt.Sleep(2 * sec)
			d.NoPing = true
			rt.Sleep(12 * sec) // a ping already planned may still come
			rt.Sleep(5 * sec)
		} else {
			rt.WaitUntil("harness: consumer", (100+e.cfg("pause"))*sec, func() bool { return told || (len(out) >= len(d.Streamed)+nload) })
			rt.Sleep(500 * ms)
		}
		finish()
		rt.WaitUntil("harness: end of stream", 1500*sec, func() bool { return told })
		rt.Sleep(90 * sec)
	})
	if e.class != "" {
		return
	}
	hurt := fired(e)-s.Fired["process-stall"]-s.Fired["short-read"]-s.Fired["stall-s2c"]-s.Fired["end-garbage"] > 0
	if syncErr != nil || loadErr != nil {
		if !hurt {
			e.Fail("needless-error", "no snapshot although nothing failed: sync %v, load %v", syncErr, loadErr)
		}
		return
	}
	rep := d.Replicas[0]
	c := rep.Conn
	if !c.ClosedByClient() {
		e.Fail("not-closed", "the link ended, but the replica never closed its connection")
	}
	if loops > 0 {
		e.Fail("loop-left", "the link ended 90 s ago, but %d of the loops that receive and acknowledge have not", loops)
	}
	if mode == "P05" {
		var at []int64 // when each command was taken, if that can be late
		if slow {
			at = []int64{}
			for i := nload; i < len(out); i++ {
				if !skipMsg(out[i].Args) {
					at = append(at, outAt[i])
				}
			}
		}
		ackChecks(e, rep, started, ended, at)
		return
	}
	if !told {
		e.Fail("end-not-told", "the link ended, but the consumer was not told (messages are still open)")
		return
	}
	_ = toldAt
	read := c.GotBytes - rep.StreamAt
	var want []delivered
	for _, x := range d.Streamed {
		if x.Off-rep.Base <= 0 {
			continue
		}
		if x.Off-rep.Base > read {
			break
		}
		if !skipMsg(x.Args) {
			want = append(want, delivered{x.DB, x.Args})
		}
	}
	var got []delivered
	for _, x := range out[min(nload, len(out)):] {
		if !skipMsg(x.Args) {
			got = append(got, x)
		}
	}
	for i := range want {
		if i >= len(got) {
			e.Fail("lost", "%d commands were received from the master before the link ended, only %d were delivered; the first lost one is %s", len(want), len(got), short(strings.Join(want[i].Args, " ")))
			return
		}
		if strings.Join(got[i].Args, "\x00") != strings.Join(want[i].Args, "\x00") {
			e.Fail("wrong-message", "command %d of the stream is %s, delivered was %s", i+1, short(strings.Join(want[i].Args, " ")), short(strings.Join(got[i].Args, " ")))
			return
		}
		if got[i].DB != want[i].DB {
			e.Fail("wrong-database", "%s applies to database %d, it was delivered for database %d", short(strings.Join(want[i].Args, " ")), want[i].DB, got[i].DB)
			return
		}
	}
	if len(got) > len(want) {
		e.Fail("extra-message", "%s was delivered, but the master did not send it (again)", short(strings.Join(got[len(want)].Args, " ")))
	}
	if c.Err() == nil && c.Pending() > 0 && e.cfg("endgarbage") == 0 {
		e.Fail("lost", "the consumer was told that the stream had ended, but %d received bytes were not read", c.Pending())
	}
}

// rest counts the streamed commands that were not delivered yet.
func rest(d *model.Server, out []delivered) (n int) {
	for _, x := range d.Streamed {
		if x.Off > d.Replicas[0].Base && !skipMsg(x.Args) {
			n++
		}
	}
	for _, x := range out {
		if !skipMsg(x.Args) {
			n--
		}
	}
	return n
}

func ackChecks(e *Env, rep *model.Replica, started, ended int64, taken []int64) {
	d, c := e.D, rep.Conn
	if len(d.Proto) > 0 {
		e.Fail("corrupt", "the master could not parse what the replica sent: %s", d.Proto[0])
	}
	end := ended
	cut := false
	if c.EndedAt > 0 && c.EndedAt < ended {
		end, cut = c.EndedAt, true
	}
	var part int64
	for _, f := range e.Sc.Net {
		if f.Kind == "partition" && f.At < end {
			end, cut, part = f.At, true, f.Dur
		} else if f.Kind == "partition" && f.At < ended+sec { // what ends the link may be lost
			part = f.Dur
		}
	}
	readBy := func(t int64) int64 {
		n := int64(0)
		for _, x := range c.Reads {
			if x.T > t {
				break
			}
			n = x.Got
		}
		return n - rep.StreamAt
	}
	prev := int64(-1)
	last := max(started, rep.SnapT)
	for i, a := range rep.Acks {
		if a.Off < prev {
			e.Fail("decreased", "acknowledgement %d is %d after %d", i+1, a.Off, prev)
		}
		prev = a.Off
		if a.Off > a.Sent {
			e.Fail("ahead", "acknowledgement %d is %d, but the master has only sent up to %d", i+1, a.Off, a.Sent)
		}
		if a.T > end {
			continue
		}
		low := rep.Base
		n := readBy(a.T - 3*sec)
		k := 0
		for _, x := range d.Streamed {
			if taken != nil && x.Off > rep.Base {
				// behind a full queue, a command counts as received once it was taken
				if skipMsg(x.Args) {
					continue
				}
				if k >= len(taken) || taken[k] > a.T-3*sec {
					break
				}
				k++
			}
			if x.Off-rep.Base <= n && x.Off > low {
				low = x.Off
			}
		}
		if a.Off < low {
			e.Fail("behind", "acknowledgement %d is %d, but everything up to %d was received more than 3 s before", i+1, a.Off, low)
		}
		if a.T-last > 2500*ms {
			e.Fail("not-periodic", "no acknowledgement for %.2f s (after the first %d)", float64(a.T-last)/1e9, i)
		}
		last = a.T
	}
	if end-last > 2500*ms {
		e.Fail("not-periodic", "no acknowledgement in the last %.2f s of the link", float64(end-last)/1e9)
	}
	n := int64(0)
	for _, a := range rep.Acks {
		if a.T <= ended {
			n++
		}
	}
	if n > (ended-started)/sec+5 {
		e.Fail("too-often", "%d acknowledgements in %.1f s", n, float64(ended-started)/1e9)
	}
	if !cut && len(rep.Acks) > 0 {
		if a := rep.Acks[len(rep.Acks)-1]; a.Off != rep.Base+rep.Sent {
			e.Fail("final-offset", "with everything received, the acknowledged offset is %d; snapshot offset plus stream is %d", a.Off, rep.Base+rep.Sent)
		}
	}
	stop := end + 10*sec
	if part > 0 {
		stop = end + min(part, 65*sec) + 20*sec
		if part < 65*sec { // the link may have survived
			stop = max(stop, ended+10*sec)
		}
	}
	if taken != nil { // a full queue keeps the replica from noticing a silent master
		stop += e.cfg("pause")*sec + int64(len(d.Streamed)+6)*e.cfg("slow")*us
	}
	for _, t := range c.Writes {
		if t > stop {
			e.Fail("not-stopped", "the replica still wrote to the link %.1f s after it had ended", float64(t-end)/1e9)
			break
		}
	}
}

var _ = strconv.Itoa
