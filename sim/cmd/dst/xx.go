package main

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/liujiangwei/xxcache"

	"verifsim/model"
	"verifsim/rt"
	"verifsim/simfs"
	"verifsim/simnet"
)

var xxReal = []string{"xxcache.Client, cache, redis (client, pool, replication), rdb and its encodings (instrumented); liblzf (real C library)"}
var xxStub = []string{"TCP network, disk, clock: simulated", "Redis master: reference model"}

var xxKeys = []string{"k0", "k1", "k2", "k3", "k4"}

// keyNames are the keys' names in the run, in the order of xxKeys.
func keyNames(n int64) []string {
	if n <= 0 {
		return xxKeys
	}
	if n <= 10 { // names that only just differ
		return []string{"key", "KEY", "key ", "Key", "key\x00"}
	}
	var l []string
	r := rand.New(rand.NewPCG(uint64(n), 7))
	for i := range xxKeys {
		d := itoa(int64(i))
		l = append(l, pick(r, "K"+d, "a key "+d, "k\r\n"+d, "\x00\xff\xc0"+d, "\u043a\u043b\u044e\u0447"+d, "$"+d, "*"+d+"\r\n", "{k}"+d, "k*"+d, "000"+d, "-0"+d, "1e"+d, "k:"+strings.Repeat("n", 300+i*137), d+strings.Repeat("\r\n", 40), "Set"+d, "k"+strings.Repeat("long ", 900)+d))
	}
	return l
}

func (e *Env) keys() []string { return keyNames(e.cfg("names")) }

// renameKeys gives the generated scenario's keys the names its configuration asks for.
func (sc *Scenario) renameKeys() {
	to := map[string]string{}
	for i, n := range keyNames(sc.Cfg["names"]) {
		to[xxKeys[i]] = n
	}
	sc.rename(to)
}

func (sc *Scenario) rename(to map[string]string) {
	set := func(s *string) {
		if n, ok := to[*s]; ok {
			*s = n
		}
	}
	for i := range sc.Data {
		set(&sc.Data[i].K)
	}
	for _, l := range append([][]model.Op{sc.Setup}, sc.Threads...) {
		for i := range l {
			set(&l[i].K)
			l[i].A = append([]string(nil), l[i].A...)
			for j := range l[i].A {
				set(&l[i].A[j])
			}
		}
	}
}

func xxCfg(r *rand.Rand) map[string]int64 {
	m := replCfg(r)
	if chance(r, 1, 2) {
		m["jit"] = min(m["jit"], 500)
	}
	m["maxseg"] = max(m["maxseg"], 0)
	m["expirysweep"] = 1
	return m
}

func xxData(r *rand.Rand, n int) (l []KV) {
	for i := 0; i < n; i++ {
		db := pick(r, 0, 0, 0, 1, 12)
		v := genValue(r, pick(r, "string", "string", "string", "string", "hash", "list", "set", "zset"), false)
		if v.Kind == "string" && chance(r, 2, 3) {
			v.Str = fmt.Sprintf("snap-%d-%d", db, i)
			if chance(r, 1, 500) {
				v.Str += strings.Repeat(pick(r, "y", "0", "\r\n"), pick(r, 4096, 16384, 20000, 70000))
			}
		}
		if chance(r, 1, 5) {
			v.Exp = model.EpochMs + pick(r, span(r, 1, 3000), span(r, 1, 40)*1000, span(r, 1, 40_000), 100_000_000)
		}
		l = append(l, KV{DB: db, K: pick(r, xxKeys...), V: v})
	}
	return
}

type xxWriter struct {
	r *rand.Rand
	n int
}

func (w *xxWriter) val() string {
	w.n++
	switch w.r.IntN(6) {
	case 0:
		if chance(w.r, 1, 150) {
			return fmt.Sprintf("w%d", w.n) + strings.Repeat(pick(w.r, "x", "\r\n", "\x00$5"), pick(w.r, 4096, 16384, 20000, 70000))
		}
		return genElem(w.r, false)
	case 1:
		return itoa(int64(w.r.IntN(1000)))
	}
	return fmt.Sprintf("w%d", w.n)
}

// op is one thing that happens at the master.
func (w *xxWriter) op(plain int) model.Op {
	r := w.r
	k := func() string { return pick(r, xxKeys...) }
	db := 0
	if chance(r, 1, 4) {
		db = pick(r, 1, 12)
	}
	o := model.Op{C: "do", N: int64(db)}
	if r.IntN(10) < plain {
		o.A = []string{pick(r, "set", "set", "SET", "Set"), k(), w.val()}
		return o
	}
	switch r.IntN(46) {
	case 0, 1:
		o.A = []string{"set", k(), w.val(), pick(r, "ex", "EX"), itoa(span(r, 1, 60))}
	case 2:
		o.A = []string{"set", k(), w.val(), "px", itoa(span(r, 1, 5000))}
	case 3:
		o.A = []string{"set", k(), w.val(), pick(r, "nx", "xx", "keepttl")}
	case 4:
		o.A = []string{"setnx", k(), w.val()}
	case 5:
		o.A = []string{"setex", k(), itoa(span(r, 1, 60)), w.val()}
	case 6:
		o.A = []string{"psetex", k(), itoa(span(r, 1, 5000)), w.val()}
	case 7:
		o.A = []string{"getset", k(), w.val()}
	case 8, 9:
		o.A = []string{"append", k(), w.val()}
	case 10:
		o.A = []string{"setrange", k(), itoa(int64(r.IntN(6))), w.val()}
	case 11, 12:
		o.A = []string{pick(r, "incr", "decr"), k()}
	case 13:
		o.A = []string{pick(r, "incrby", "decrby"), k(), itoa(int64(r.IntN(50)))}
	case 14:
		o.A = []string{"incrbyfloat", k(), "1.5"}
	case 15, 16:
		o.A = []string{pick(r, "mset", "msetnx")}
		for _, i := range r.Perm(len(xxKeys))[:1+r.IntN(3)] {
			o.A = append(o.A, xxKeys[i], w.val())
		}
	case 17, 18, 19:
		o.A = []string{pick(r, "del", "DEL", "unlink"), k()}
		if chance(r, 1, 3) {
			o.A = append(o.A, k())
		}
	case 20, 21:
		o.A = []string{"expire", k(), itoa(span(r, 1, 30))}
	case 22:
		o.A = []string{pick(r, "pexpire", "PEXPIRE"), k(), itoa(span(r, 1, 5000))}
	case 23:
		o.A = []string{"persist", k()}
	case 24, 25:
		o.A = []string{"rename", k(), k()}
	case 26:
		o.A = []string{"move", k(), itoa(int64(pick(r, 0, 1, 12)))}
	case 27:
		o.A = []string{"copy", k(), k()}
		if chance(r, 2, 3) {
			o.A = append(o.A, "db", itoa(int64(pick(r, 0, 1, 12))), "replace")
		}
	case 28:
		o.A = []string{"swapdb", "0", pick(r, "1", "12")}
		if chance(r, 1, 2) {
			o.A[1], o.A[2] = o.A[2], o.A[1]
		}
	case 29:
		o.A = []string{pick(r, "flushdb", "FLUSHDB")}
	case 30:
		o.A = []string{pick(r, "flushall", "FlushAll")}
	case 31:
		o.A = []string{"getdel", k()}
	case 32:
		o.A = []string{pick(r, "hset", "hmset"), k(), "f", w.val(), "g", "2"}
	case 33:
		o.A = []string{"hdel", k(), "f", "g"}
	case 34:
		o.A = []string{pick(r, "rpush", "lpush"), k(), w.val(), w.val()}
	case 35:
		o.A = []string{pick(r, "rpop", "lpop"), k()}
	case 36:
		o.A = []string{"sadd", k(), w.val(), w.val()}
	case 37:
		o.A = []string{"zadd", k(), "1.5", w.val()}
	case 38:
		o.C = "feed"
		o.A = pick(r, []string{"multi"}, []string{"exec"}, []string{"publish", "k0", "x"}, []string{"script", "load", "return 1"})
	case 39:
		o.C = "script" // a script that writes a key it does not declare, sent as it is
		o.A = []string{pick(r, "0", "0", "1"), k(), w.val(), pick(r, "eval", "EVAL", "evalsha", "fcall", "FCALL")}
	case 40, 41, 42, 43:
		return w.store(db)
	case 44:
		if !chance(r, 1, 4) {
			return w.store(db)
		}
		o.A = []string{pick(r, "del", "unlink", "mset", "msetnx")} // many keys
		n := pick(r, 10, 60, 120, 300, 1100)
		at := map[int]string{}
		for _, i := range r.Perm(len(xxKeys))[:1+r.IntN(3)] {
			at[pick(r, n-1-r.IntN(3), r.IntN(n))] = xxKeys[i]
		}
		for i := 0; i < n; i++ {
			k := at[i]
			if k == "" {
				k = "other" + itoa(int64(i))
			}
			o.A = append(o.A, k)
			if o.A[0][0] == 'm' {
				o.A = append(o.A, "v"+itoa(int64(i)))
			}
		}
	}
	return o
}

// store is a command that leaves some value under a key, or none: what becomes of the key
// is decided here, the replicas are told the command.
func (w *xxWriter) store(db int) model.Op {
	r := w.r
	d, s, t := pick(r, xxKeys...), pick(r, append([]string{"other"}, xxKeys...)...), pick(r, xxKeys...)
	kind, args := "set", []string(nil)
	v := w.val()
	switch r.IntN(16) {
	case 0:
		kind, args = pick(r, "string", "list", ""), []string{"restore", d, pick(r, "0", "100000"), genBytes(r, 12), "replace"}
	case 1:
		kind, args = pick(r, "string", ""), []string{"bitop", pick(r, "and", "or", "xor"), d, s, t}
	case 2:
		kind, args = pick(r, "list", ""), []string{"sort", s, "store", d}
		if chance(r, 1, 2) {
			args = []string{"sort", s, "by", "nosort", "limit", "0", "5", "alpha", "store", d}
		}
	case 3:
		kind, args = pick(r, "zset", ""), []string{pick(r, "zunionstore", "zinterstore", "zdiffstore"), d, "2", s, t}
		if args[0] != "zdiffstore" {
			args = append(args, "weights", "1", "2")
		}
	case 4:
		kind, args = pick(r, "set", ""), []string{pick(r, "sunionstore", "sinterstore", "sdiffstore"), d, s, t}
	case 5:
		kind, args = "string", []string{"pfmerge", d, s, t}
	case 6:
		kind, args = "string", []string{pick(r, "setbit", "SETBIT"), d, itoa(int64(r.IntN(40))), "1"}
	case 7:
		kind, args = pick(r, "zset", ""), []string{"georadius", s, "1", "2", "100", "km", pick(r, "store", "storedist"), d}
	case 8:
		kind, args = pick(r, "zset", ""), []string{"geosearchstore", d, s, "frommember", "m", "byradius", "1", "km"}
	case 9:
		kind, args = pick(r, "zset", ""), []string{"zrangestore", d, s, "0", "-1"}
	case 10:
		kind, args = "string", []string{"pfadd", d, v, v + "x"}
	case 11:
		kind, args = pick(r, "list", ""), []string{"restore", d, "0", genBytes(r, 5), "replace", "absttl", "idletime", "5"}
	case 12:
		kind, args = "string", []string{"bitfield", d, "set", "u8", "0", "77"}
	case 13:
		kind, args = "string", []string{pick(r, "json.set", "bf.add", "module.cmd"), d, "x", v}
	case 14:
		kind, args = "", []string{pick(r, "hpexpireat", "hdel", "srem", "zremrangebyscore", "ltrim", "xtrim", "spop"), d, "1", "2"}
	case 15:
		kind, args = "string", []string{"set", d, v, "get", "keepttl"}
		if chance(r, 1, 2) {
			args = []string{"msetex", "1", d, v, "ex", "100"}
		}
	}
	return model.Op{C: "store", N: int64(db), A: append([]string{d, kind, v}, args...)}
}

// cross is a command that can change another database than the one it was called in.
func (w *xxWriter) cross() model.Op {
	r := w.r
	k := func() string { return pick(r, xxKeys...) }
	db := func() string { return pick(r, "0", "0", "1", "12") }
	o := model.Op{C: "do", N: int64(pick(r, 0, 1, 12))}
	switch r.IntN(6) {
	case 0:
		o.A = []string{pick(r, "move", "MOVE"), k(), db()}
	case 1, 2:
		o.A = []string{pick(r, "copy", "COPY"), k(), k(), pick(r, "db", "DB"), db(), "replace"}
	case 3:
		o.A = []string{pick(r, "swapdb", "SWAPDB"), db(), db()}
	case 4:
		o.A = []string{pick(r, "flushall", "flushdb")}
	case 5:
		o.C = "script"
		o.A = []string{db(), k(), w.val(), pick(r, "eval", "evalsha", "fcall", "EvalSha")}
	}
	return o
}

func (w *xxWriter) list(n, plain int, pause bool) (l []model.Op) {
	crossing := chance(w.r, 1, 5)
	for i := 0; i < n; i++ {
		if crossing && chance(w.r, 1, 3) {
			l = append(l, w.cross())
		} else {
			l = append(l, w.op(plain))
		}
		if pause && chance(w.r, 1, 3) {
			l = append(l, model.Op{C: "sleep", N: pick(w.r, span(w.r, 1, 200*us), span(w.r, 1, 20*ms), span(w.r, 1, sec), span(w.r, 1, 4*sec))})
		}
	}
	return
}

// hot makes the users read one or two keys over and over while the master changes them,
// so that replies and replicated changes overtake each other.
func (w *xxWriter) hot(sc *Scenario) {
	r := w.r
	nk := 1 + r.IntN(2)
	rename := func(k string) string {
		for i, x := range xxKeys {
			if x == k {
				return xxKeys[i%nk]
			}
		}
		return k
	}
	rtt := 2*(sc.Cfg["lat"]+sc.Cfg["jit"])*us + ms
	l := []model.Op{{C: "created"}}
	for _, o := range w.list(5+r.IntN(20), pick(r, 1, 4), false) {
		o.K = rename(o.K)
		for i := range o.A {
			o.A[i] = rename(o.A[i])
		}
		l = append(l, o)
		if chance(r, 2, 3) {
			l = append(l, model.Op{C: "sleep", N: span(r, 1, 2*rtt)})
		}
	}
	sc.Threads = [][]model.Op{l}
	for t := 1 + r.IntN(3); t > 0; t-- {
		var u []model.Op
		for i := 5 + r.IntN(25); i > 0; i-- {
			if chance(r, 1, 16) {
				u = append(u, model.Op{C: "Set", K: xxKeys[r.IntN(nk)], A: []string{fmt.Sprintf("c%d-%d", t, i)}})
			} else {
				u = append(u, op("Get", xxKeys[r.IntN(nk)]))
			}
			if chance(r, 2, 3) {
				u = append(u, model.Op{C: "sleep", N: span(r, 1, rtt)})
			}
		}
		sc.Threads = append(sc.Threads, u)
	}
	if chance(r, 1, 2) { // replies that come later than what is replicated, but in time
		for k := 1 + r.IntN(3); k > 0; k-- {
			sc.Net = append(sc.Net, simnet.Fault{Kind: "stall", Conn: 1 + r.IntN(3), Dir: pick(r, "s2c", "s2c", "c2s"), At: int64(r.IntN(200)), Dur: pick(r, span(r, ms, 50*ms), span(r, ms, 4*sec))})
		}
	}
}

// xxClientOps is what one user of the client does.
func xxClientOps(r *rand.Rand, t, n int, pause bool) (l []model.Op) {
	for i := 0; i < n; i++ {
		k := pick(r, xxKeys...)
		if chance(r, 1, 4) {
			l = append(l, model.Op{C: "Set", K: k, A: []string{fmt.Sprintf("c%d-%d", t, i) + pick(r, "", "", genBytes(r, 4))}})
		} else {
			l = append(l, op("Get", k))
		}
		if pause && chance(r, 1, 2) {
			l = append(l, model.Op{C: "sleep", N: pick(r, span(r, 1, 200*us), span(r, 1, 20*ms), span(r, 1, sec), span(r, 1, 5*sec))})
		}
	}
	return
}

func (e *Env) master(o model.Op) {
	d := e.D
	switch {
	case wait(e.S, o) || len(o.A) == 0:
	case o.C == "do":
		d.Do(int(o.N), o.A...)
	case o.C == "feed":
		d.Feed(int(o.N), o.A)
	case o.C == "script" && len(o.A) >= 3:
		// the script selects the database itself
		n, _ := parseI(o.A[0])
		name := ""
		if len(o.A) > 3 {
			name = o.A[3]
		}
		d.Script(int(o.N), n, o.A[1], o.A[2], name)
	case o.C == "store" && len(o.A) > 3:
		var v *model.RVal
		switch o.A[1] {
		case "string":
			v = &model.RVal{Kind: "string", Str: o.A[2]}
		case "list":
			v = &model.RVal{Kind: "list", List: []string{o.A[2]}}
		case "set":
			v = &model.RVal{Kind: "set", Set: map[string]bool{o.A[2]: true}}
		case "zset":
			v = &model.RVal{Kind: "zset", Z: map[string]float64{o.A[2]: 1}}
		}
		d.Store(int(o.N), o.A[0], v, o.A[3:])
	case o.C == "raw":
		d.FeedRaw([]byte(o.A[0]))
	}
}

func parseI(s string) (n int, ok bool) {
	_, err := fmt.Sscan(s, &n)
	return n, err == nil
}

type xxRead struct {
	k, v   string
	err    error
	t0, t1 int64
	set    bool
}

type xx struct {
	*Env
	opt   xxcache.Option
	cl    xxcache.Client
	newT  int64
	reads []xxRead
	ready bool  // the client was created, or not
	quiet int64 // since when all that the master sent has been received
	file  string // where the snapshot is kept
}

func xxEnv(e *Env) *xx {
	e.sim(false)
	e.addNet()
	e.addFS()
	e.addServer()
	x := &xx{Env: e, opt: xxcache.Option{RedisMasterAddr: addr, RedisRdbFile: rdbFile}, file: rdbFile}
	k := e.cfg("defaults")
	if k&1 != 0 { // the local Redis
		e.Net.Servers["127.0.0.1:6379"] = e.D
		x.opt.RedisMasterAddr = ""
	}
	if k&2 != 0 { // a file in the working directory
		x.file, x.opt.RedisRdbFile = "temp.rdb", ""
	}
	return x
}

func (x *xx) create() error {
	x.newT = x.S.Now()
	cl, err := xxcache.New(x.opt)
	x.ready = true
	if err == nil {
		x.cl = cl
		x.S.Probe("client-created")
	}
	return err
}

func (x *xx) do(t int, o model.Op) (v string, err error) {
	if wait(x.S, o) {
		return
	}
	t0 := x.S.Now()
	x.S.Note("call", t, o.C, o.K)
	set := o.C == "Set"
	if set {
		if len(o.A) == 0 {
			return
		}
		_, err = x.cl.Set(o.K, o.A[0])
		v = o.A[0]
	} else {
		v, err = x.cl.Get(o.K)
	}
	x.S.Note("ret", t, v, err != nil)
	if x.S.Dead() {
		return
	}
	rd := xxRead{k: o.K, v: v, err: err, t0: t0, t1: x.S.Now(), set: set}
	x.reads = append(x.reads, rd)
	if d := rd.t1 - t0; d > 120*sec {
		x.Fail("slow-call", "%s(%s) took %.0f s", o.C, o.K, float64(d)/1e9)
	}
	return
}

// writers starts the master's writers (a thread of the scenario) and reports when they are done.
func (x *xx) writers(i int) *bool {
	done := new(bool)
	if i >= len(x.Sc.Threads) {
		*done = true
		return done
	}
	x.S.Spawn("master", 0, func() {
		for _, o := range x.Sc.Threads[i] {
			if o.C == "created" {
				rt.WaitUntil("harness: the client", 300*sec, func() bool { return x.ready })
				continue
			}
			x.master(o)
		}
		*done = true
	})
	return done
}

func (x *xx) users(from, to int) *int {
	left := new(int)
	for t := from; t < to && t < len(x.Sc.Threads); t++ {
		t := t
		*left++
		rt.Go(func() {
			defer func() { *left-- }()
			for _, o := range x.Sc.Threads[t] {
				x.do(t, o)
			}
		})
	}
	return left
}

// settle waits until everything the master sent has been read and applied.
func (x *xx) settle() {
	s := x.S
	x.Net.Off = s.Now() + 1
	rt.Sleep(ms)
	rt.WaitUntil("harness: settling", 60*sec, func() bool {
		for _, r := range x.D.Replicas {
			if !r.Gone && !r.Conn.ClosedByClient() && r.Conn.Err() == nil && (r.Conn.InFlight() > 0 || r.Conn.Pending() > 0 || !r.Ready) {
				return false
			}
		}
		return true
	})
	x.quiet = s.Now()
	if x.cfg("soon") != 0 {
		rt.Sleep(500 * ms)
		return
	}
	rt.Sleep(10 * sec)
}

// current checks that the client sees what the master holds now.
func (x *xx) current(class string, tries int) {
	d, s := x.D, x.S
	for _, k := range append(append([]string(nil), x.keys()...), "never-set") {
		v, err := "", error(nil)
		good := false
		// a key that has just expired may linger, one that is there was not changed lately
		slack := 2 * sec
		if x.quiet > 0 && d.St.Get(0, k, d.NowMs()) != nil {
			slack = min(slack, s.Now()-x.quiet)
		}
		t0 := s.Now()
		for i := 0; i < tries && !good; i++ {
			if i > 0 {
				rt.Sleep(20 * ms)
			}
			t0 = s.Now()
			v, err = x.do(-2, op("Get", k))
			if err == nil {
				good = d.Held(k, "string", v, t0-slack, s.Now())
				if !good {
					break
				}
			} else {
				good = d.Held(k, "", "", t0-slack, s.Now())
			}
		}
		if good {
			continue
		}
		has := "does not hold it"
		if w := d.St.Get(0, k, d.NowMs()); w != nil {
			has = "holds " + short(w.Text())
		}
		if err == nil {
			x.Fail(class, "long after the last write, Get(%s) returned %s, the master %s", k, short(v), has)
		} else {
			x.Fail(class, "long after the last write, Get(%s) failed with %v, the master %s", k, err, has)
		}
		return
	}
}

// held checks every successful read, and that successful writes were executed.
func (x *xx) held(from int64) {
	d := x.D
	for _, r := range x.reads {
		if r.err != nil {
			continue
		}
		if !r.set {
			if !d.Held(r.k, "string", r.v, from, r.t1) {
				x.Fail("never-held", "Get(%s) returned %s at %.6f s, a value the key has not held in the master's database 0 since the snapshot (%s)", r.k, short(r.v), float64(r.t1)/1e9, x.versions(r.k))
				return
			}
			continue
		}
		n := 0
		for _, l := range d.Log {
			if l.DB == 0 && len(l.Args) == 3 && strings.EqualFold(l.Args[0], "set") && l.Args[1] == r.k && l.Args[2] == r.v && l.T >= r.t0 && l.T <= r.t1 && l.Reply == model.ROK {
				n++
			}
		}
		if n != 1 {
			x.Fail("set-not-executed", "Set(%s, %s) reported success, but the master executed it %d times", r.k, short(r.v), n)
			return
		}
	}
	for _, l := range d.Log {
		if len(l.Args) > 0 && strings.EqualFold(l.Args[0], "set") {
			ok := false
			for _, r := range x.reads {
				if r.set && len(l.Args) == 3 && l.Args[1] == r.k && l.Args[2] == r.v {
					ok = true
				}
			}
			for _, th := range x.Sc.Threads {
				for _, o := range th {
					if o.C == "Set" && len(l.Args) == 3 && l.Args[1] == o.K && len(o.A) > 0 && l.Args[2] == o.A[0] {
						ok = true
					}
				}
			}
			if !ok || l.DB != 0 {
				x.Fail("made-up-set", "the master was sent %s in database %d, which nobody asked for", short(strings.Join(l.Args, " ")), l.DB)
				return
			}
		}
	}
}

func (x *xx) versions(k string) string {
	var l []string
	for _, v := range x.D.Hist[k] {
		t := v.Kind
		if v.Kind == "string" {
			t = short(v.Str)
		}
		l = append(l, fmt.Sprintf("%.6fs %s", float64(v.T)/1e9, t))
	}
	if len(l) > 6 {
		l = append([]string{"..."}, l[len(l)-6:]...)
	}
	return strings.Join(l, ", ")
}

// ---- X05: messages

func rawMsg(r *rand.Rand) string {
	k := func() string { return pick(r, "j0", "j1", "") }
	switch r.IntN(16) {
	case 0:
		return model.EncodeCmd(pick(r, "set", "SET", "rpush", "hmset", "del", "expire", "flushall", "select", "mset", "get", "setex", "", "unknown", "replconf", "eval", "swapdb", "move", "copy", "evalsha", "fcall", "flushdb"))
	case 1:
		return model.EncodeCmd(pick(r, "set", "rpush", "hmset", "hset", "sadd", "setex", "append", "ping", "PING", "PUBLISH"), k())
	case 2:
		return model.EncodeCmd("set", k(), "junk")
	case 3:
		return model.EncodeCmd("set", k(), "junk", pick(r, "ex", "nx", "EX", "bogus"))
	case 4:
		return model.EncodeCmd(pick(r, "xadd", "pfadd", "geoadd", "bitop", "module.cmd", "lset", "setbit", "restore", "spublish", "function"), k(), "a", genBytes(r, 5))
	case 5:
		return pick(r, "+OK\r\n", "+\r\n", "+PING\r\n", "+ping\r\n", "-ERR something\r\n", "-\r\n", ":1\r\n", ":-12\r\n", "$0\r\n\r\n", "$3\r\nfoo\r\n", "$-1\r\n", "*0\r\n", "*-1\r\n", "$4\r\nPING\r\n")
	case 6:
		return "*2\r\n" + model.RBulk("set") + "$-1\r\n"
	case 7:
		return "*3\r\n" + model.RBulk("set") + model.RBulk(k()) + ":5\r\n"
	case 8:
		return "*3\r\n" + model.RBulk("set") + model.RArr(model.RBulk(k())) + model.RBulk("v")
	case 9:
		return model.RArr(model.RArr(model.RBulk("set"), model.RBulk(k()), model.RBulk("v")))
	case 10:
		return model.RArr(":1\r\n", "+a\r\n", "-e\r\n", "*0\r\n", "*-1\r\n")
	case 11:
		return model.RArr("$-1\r\n")
	case 12:
		a := []string{pick(r, "mset", "del", "rpush", "unknown", "sadd", "hset")}
		for n := r.IntN(300); n > 0; n-- {
			a = append(a, "j"+itoa(int64(n)))
		}
		return model.EncodeCmd(a...)
	case 13:
		return model.EncodeCmd(pick(r, "multi", "exec", "MULTI", "EXEC", "replconf"))
	case 14:
		return model.EncodeCmd(pick(r, "rpush", "lpush", "hmset", "hset", "sadd", "zadd"), k(), pick(r, "f", "1"), genBytes(r, 3))
	}
	return model.EncodeCmd(pick(r, "replconf", "REPLCONF"), pick(r, "getack", "GETACK"), "*")
}

func init() {
	register(&Prop{ID: "X01", Quick: 100000, Thorough: 3000000, Real: xxReal, Stub: xxStub,
		Assume: []string{"the master pings its replicas at least every 10 s", "two commands of a transaction are replicated one by one"},
		Rule:   "a case is a snapshot of 0-8 keys of any type, 5-60 write commands of any kind executed by the master in three databases before, during and after the creation of the client, and 0-3 users calling Get and Set; when everything has settled each key is read and compared with the master; with network delays, stalls of the link below 50 s and process stalls; distinct by case and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			sc := &Scenario{Cfg: xxCfg(r)}
			sc.Data = xxData(r, r.IntN(9))
			w := &xxWriter{r: r}
			sc.Threads = [][]model.Op{w.list(pick(r, 5, 15, 60), pick(r, 2, 5, 8), true)}
			for t := r.IntN(4); t > 0; t-- {
				sc.Threads = append(sc.Threads, xxClientOps(r, t, 1+r.IntN(10), true))
			}
			if chance(r, 1, 3) {
				sc.Net = append(sc.Net, simnet.Fault{Kind: "stall", Conn: 0, Dir: "s2c", At: int64(r.IntN(3000)), Dur: span(r, ms, 40*sec)})
			}
			if chance(r, 1, 1500) {
				addBulk(r, sc, 6, pick(r, 2000, 15000))
			} else if chance(r, 1, 3) {
				w.hot(sc)
			} else {
				sc.Cfg["soon"] = int64(r.IntN(2))
			}
			return sc
		},
		Run: func(e *Env) {
			x := xxEnv(e)
			var err error
			e.main(func() {
				e.D.StartTracking()
				wrote := x.writers(0)
				if err = x.create(); err != nil {
					return
				}
				users := x.users(1, 100)
				rt.WaitUntil("harness: users", 3000*sec, func() bool { return *wrote && *users == 0 })
				x.settle()
				x.current("not-converged", 1)
			})
			if e.class == "" && err != nil {
				e.Fail("needless-error", "creating a client failed although nothing did: %v", err)
			}
		}})

	register(&Prop{ID: "X02", Quick: 100000, Thorough: 3000000, Real: xxReal, Stub: xxStub,
		Rule: "a case is a snapshot, possibly an older snapshot of other values on disk, 5-40 write commands at the master and 1-4 users calling Get and Set from the moment the client exists, with network delays and any failure of the link, the master, the network or the disk; every successful Get is compared with all versions the key had since the snapshot, every successful Set with the commands the master executed; distinct by case and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			sc := &Scenario{Cfg: xxCfg(r)}
			sc.Data = xxData(r, r.IntN(9))
			w := &xxWriter{r: r}
			sc.Threads = [][]model.Op{w.list(pick(r, 5, 15, 40), pick(r, 2, 5, 8), true)}
			for t := 1 + r.IntN(4); t > 0; t-- {
				sc.Threads = append(sc.Threads, xxClientOps(r, t, 1+r.IntN(12), true))
			}
			if chance(r, 1, 1500) {
				addBulk(r, sc, 1, pick(r, 2000, 15000))
			} else if chance(r, 1, 4) {
				w.hot(sc)
			}
			sc.Cfg["old"] = int64(r.IntN(2))
			for k := r.IntN(3); k > 0; k-- {
				switch r.IntN(5) {
				case 0:
					sc.Disk = append(sc.Disk, simfs.Fault{Kind: pick(r, "open-error", "write-error", "disk-full", "close-error", "read-error"), At: int64(r.IntN(200))})
				case 1:
					sc.Net = append(sc.Net, simnet.Fault{Kind: pick(r, "partition", "down", "rst-all"), At: span(r, 0, 20*sec), Dur: pick(r, span(r, 1, sec), span(r, 1, 100*sec))})
				case 2:
					sc.Net = append(sc.Net, simnet.Fault{Kind: "stall", Conn: r.IntN(3), Dir: pick(r, "s2c", "c2s"), At: int64(r.IntN(2000)), Dur: span(r, ms, 200*sec)})
				default:
					sc.Net = append(sc.Net, linkFault(r, r.IntN(3), 3000))
				}
			}
			return sc
		},
		Run: func(e *Env) {
			x := xxEnv(e)
			if e.cfg("old") != 0 {
				st := model.NewStore()
				for _, k := range e.keys() {
					st.Put(0, k, &model.RVal{Kind: "string", Str: "old run " + k})
				}
				b, _, _ := model.EncodeRDB(st, rand.New(rand.NewPCG(1, 1)), model.RDBOpt{})
				e.FS.Put(x.file, b)
			}
			e.main(func() {
				e.D.StartTracking()
				wrote := x.writers(0)
				if x.create() != nil {
					return
				}
				users := x.users(1, 100)
				rt.WaitUntil("harness: users", 5000*sec, func() bool { return *wrote && *users == 0 })
				for _, k := range e.keys() {
					x.do(-2, op("Get", k))
				}
			})
			if e.class == "" {
				from := x.newT
				if l := e.D.Replicas; len(l) > 0 {
					from = l[0].SnapT
				}
				x.held(from)
			}
		}})

	register(&Prop{ID: "X03", Quick: 90000, Thorough: 2700000, Real: xxReal, Stub: xxStub,
		Assume: []string{"the master pings its replicas at least every 10 s, so a link that is silent for 60 s is dead", "the bound is 80 s after Redis is reachable again"},
		Rule:   "a case is a client whose replication link is closed or reset at a random byte, falls silent for good, or whose master restarts, drops all connections or is partitioned away for up to 2000 s, while users call Get and Set; 80 s after Redis is reachable the master changes keys, and 10 s later every key is read and compared; distinct by case and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			sc := &Scenario{Cfg: xxCfg(r)}
			sc.Data = xxData(r, r.IntN(9))
			w := &xxWriter{r: r}
			sc.Threads = [][]model.Op{w.list(pick(r, 5, 15, 40), pick(r, 5, 9), true), w.list(3+r.IntN(12), pick(r, 3, 9), false)}
			for t := r.IntN(4); t > 0; t-- {
				sc.Threads = append(sc.Threads, xxClientOps(r, t, 1+r.IntN(12), true))
			}
			for k := 1 + r.IntN(2); k > 0; k-- {
				switch r.IntN(6) {
				case 0, 1:
					sc.Net = append(sc.Net, linkFault(r, 0, pick(r, int64(1000), 4000)))
				case 2:
					sc.Net = append(sc.Net, simnet.Fault{Kind: "stall", Conn: 0, Dir: "s2c", At: int64(r.IntN(2000)), Dur: 100_000 * sec})
				case 3:
					sc.Net = append(sc.Net, simnet.Fault{Kind: "partition", At: span(r, 0, 20*sec), Dur: pick(r, span(r, 1, 10*sec), span(r, 1, 150*sec), span(r, 1, 2000*sec))})
				case 4:
					sc.Net = append(sc.Net, simnet.Fault{Kind: "down", At: span(r, 0, 20*sec), Dur: pick(r, span(r, 1, 10*sec), span(r, 1, 500*sec))})
				case 5:
					sc.Net = append(sc.Net, simnet.Fault{Kind: "rst-all", At: span(r, 0, 20*sec)})
				}
			}
			return sc
		},
		Run: func(e *Env) {
			var timed, link []simnet.Fault
			for _, f := range e.Sc.Net {
				switch f.Kind {
				case "partition", "down", "rst-all":
					timed = append(timed, f)
				default:
					link = append(link, f)
				}
			}
			all := e.Sc.Net
			e.Sc.Net = link
			x := xxEnv(e)
			e.Sc.Net = all
			e.main(func() {
				s := x.S
				e.D.StartTracking()
				wrote := x.writers(0)
				first := len(s.Gs())
				if x.create() != nil {
					return
				}
				heal := int64(0)
				for i := range timed {
					timed[i].At += s.Now()
					heal = max(heal, timed[i].At+timed[i].Dur)
				}
				e.Net.Plan(timed)
				users := x.users(2, 100)
				rt.WaitUntil("harness: users", 5000*sec, func() bool { return *wrote && *users == 0 })
				if heal > s.Now() {
					rt.Sleep(heal - s.Now() + ms)
				}
				e.Net.Off = s.Now() + 1
				rt.Sleep(20 * sec)
				n := s.Steps
				rt.Sleep(60 * sec)
				if n = s.Steps - n; n > 100_000 {
					e.Fail("spinning", "%d steps in 60 idle seconds", n)
				}
				if l := e.D.Replicas; len(l) == 1 && l[0].Conn.ClosedByClient() {
					x.gone(first, "the link to the master has ended")
				}
				more := x.writers(1)
				rt.WaitUntil("harness: writes", 500*sec, func() bool { return *more })
				rt.Sleep(10 * sec)
				x.current("stale", 25)
				if e.class != "" {
					return
				}
				if _, err := x.do(-2, model.Op{C: "Set", K: e.keys()[0], A: []string{"final"}}); err != nil {
					e.Fail("set-failed", "with Redis reachable for 90 s, Set failed: %v", err)
				}
			})
			if e.class == "" {
				from := x.newT
				if l := e.D.Replicas; len(l) > 0 {
					from = l[0].SnapT
				}
				x.held(from)
			}
		}})

	register(&Prop{ID: "X04", Quick: 120000, Thorough: 3600000, Real: xxReal, Stub: xxStub,
		Rule: "a case is the creation of a client with 0-3 faults (link closed, reset, stalled or silent at any byte, refused or unanswered dials, error replies, partitions, disk errors, a damaged or unsupported snapshot), or one whose process is killed after a random number of steps and then restarted on the same disk; distinct by case and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			sc := &Scenario{Cfg: xxCfg(r)}
			sc.Data = xxData(r, r.IntN(12))
			sc.Cfg["dmgseed"] = int64(r.Uint32())
			if chance(r, 1, 3) {
				sc.Cfg["killat"] = pick(r, span(r, 1, 300), span(r, 1, 3000), span(r, 1, 20000))
				return sc
			}
			if chance(r, 1, 12) {
				slowSnapshot(r, sc, 300)
				return sc
			}
			if chance(r, 1, 4) {
				sc.Cfg["dmg"] = int64(1 + r.IntN(3))
				if sc.Cfg["dmg"] == 3 {
					sc.Data = append(sc.Data, KV{K: "unsupported", V: &model.RVal{Kind: pick(r, "stream", "module", "newtype")}})
				}
				return sc
			}
			for k := r.IntN(4); k > 0; k-- {
				switch r.IntN(8) {
				case 0, 1:
					sc.Disk = append(sc.Disk, simfs.Fault{Kind: pick(r, "open-error", "write-error", "disk-full", "close-error", "read-error"), At: pick(r, int64(r.IntN(2)), int64(r.IntN(400)))})
				case 2:
					sc.Net = append(sc.Net, simnet.Fault{Kind: "partition", At: span(r, 0, 3*sec), Dur: pick(r, span(r, 1, sec), span(r, 1, 3000*sec))})
				case 3:
					sc.Net = append(sc.Net, simnet.Fault{Kind: "stall", Conn: 0, Dir: pick(r, "s2c", "c2s"), At: int64(r.IntN(400)), Dur: pick(r, span(r, ms, 50*sec), 100_000*sec)})
				case 4:
					sc.Net = append(sc.Net, pick(r, simnet.Fault{Kind: "dial-refuse"}, simnet.Fault{Kind: "dial-timeout"}, simnet.Fault{Kind: "down", Dur: span(r, 1, 20*sec), At: span(r, 0, 200*ms)}))
				case 5:
					sc.Srv = append(sc.Srv, simnet.Fault{Kind: pick(r, "sync-error", "ping-error", "maxclients"), Arg: pick(r, "", "-LOADING Redis is loading the dataset in memory\r\n", "+OK\r\n", "*0\r\n", "$-1\r\n")})
				default:
					sc.Net = append(sc.Net, linkFault(r, 0, 500))
				}
			}
			return sc
		},
		Run: xxCreate})

	register(&Prop{ID: "X05", Quick: 100000, Thorough: 3000000, Real: xxReal, Stub: xxStub,
		Rule: "a case is 1-12 arbitrary well-formed messages (unknown commands, missing or too many arguments, non-command messages, null, nested and numeric elements, in any database) mixed into 5-25 ordinary write commands on the replication stream; afterwards every key is read and compared with the master; distinct by case and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			sc := &Scenario{Cfg: xxCfg(r)}
			sc.Data = xxData(r, r.IntN(6))
			w := &xxWriter{r: r}
			l := w.list(5+r.IntN(20), pick(r, 5, 9), true)
			for n := 1 + r.IntN(12); n > 0; n-- {
				j := r.IntN(len(l) + 1)
				l = append(l[:j:j], append([]model.Op{{C: "raw", A: []string{rawMsg(r)}}}, l[j:]...)...)
			}
			for j := 3 + r.IntN(3); j > 0; j-- {
				l = append(l, model.Op{C: "do", A: []string{"set", pick(r, xxKeys...), w.val()}})
			}
			sc.Threads = [][]model.Op{l}
			return sc
		},
		Run: func(e *Env) {
			x := xxEnv(e)
			var err error
			e.main(func() {
				e.D.StartTracking()
				if err = x.create(); err != nil {
					return
				}
				wrote := x.writers(0)
				rt.WaitUntil("harness: writes", 3000*sec, func() bool { return *wrote })
				x.settle()
				x.current("wrong-after-message", 1)
			})
			if e.class == "" && err != nil {
				e.Fail("needless-error", "creating a client failed although nothing did: %v", err)
			}
		}})

	register(&Prop{ID: "X06", Quick: 120000, Thorough: 3600000, Real: xxReal, Stub: xxStub,
		Rule: "a case is a snapshot and 5-40 write commands, most of them plain SET; when everything has settled, the keys whose last change was a plain SET (or a string without deadline in the snapshot) are read, with Redis' client port answering nothing; distinct by case and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			sc := &Scenario{Cfg: xxCfg(r)}
			sc.Data = xxData(r, r.IntN(9))
			w := &xxWriter{r: r}
			sc.Threads = [][]model.Op{w.list(pick(r, 5, 15, 40), pick(r, 7, 9, 10), true)}
			for t := r.IntN(3); t > 0; t-- {
				sc.Threads = append(sc.Threads, xxClientOps(r, t, 1+r.IntN(6), true))
			}
			return sc
		},
		Run: func(e *Env) {
			x := xxEnv(e)
			var err error
			e.main(func() {
				e.D.StartTracking()
				wrote := x.writers(0)
				if err = x.create(); err != nil {
					return
				}
				users := x.users(1, 100)
				rt.WaitUntil("harness: users", 3000*sec, func() bool { return *wrote && *users == 0 })
				x.settle()
				for _, k := range sortedKeys(x.local()) {
					n := len(e.D.Log)
					dials := e.Net.Dials
					t0 := x.S.Now()
					v, err := x.do(-2, op("Get", k))
					switch {
					case err != nil:
						e.Fail("not-served", "Get(%s) failed with %v, the value had been replicated", k, err)
					case !e.D.Held(k, "string", v, t0, x.S.Now()):
						e.Fail("wrong-value", "Get(%s) returned %s, the master holds %s", k, short(v), x.versions(k))
					case len(e.D.Log) != n || e.Net.Dials != dials:
						e.Fail("asked-redis", "Get(%s) asked Redis, although the value had been replicated", k)
					}
					x.S.Probe("served-locally")
				}
			})
			if e.class == "" && err != nil {
				e.Fail("needless-error", "creating a client failed although nothing did: %v", err)
			}
		}})
}

// local lists the keys of database 0 whose replicated value the client must hold: the last
// thing it was told about them is a plain string without deadline.
func (x *xx) local() map[string]bool {
	m := map[string]bool{}
	rep := x.D.Replicas[0]
	for k, v := range rep.Snapshot.DB[0] {
		if v.Kind == "string" && v.Exp == 0 {
			m[k] = true
		}
	}
	for _, c := range x.D.Streamed {
		if c.Off <= rep.Base {
			continue
		}
		n := strings.ToLower(c.Args[0])
		switch n {
		case "flushall", "swapdb", "eval", "evalsha", "fcall":
			m = map[string]bool{}
			continue
		case "move", "copy":
			for _, a := range c.Args[1:] {
				delete(m, a)
			}
			continue
		}
		if c.DB != 0 {
			continue
		}
		switch {
		case n == "set" && len(c.Args) == 3:
			m[c.Args[1]] = true
		case n == "flushdb":
			m = map[string]bool{}
		default:
			for _, a := range c.Args[1:] {
				delete(m, a)
			}
		}
	}
	return m
}

// gone checks that none of the client's goroutines started since there were first
// goroutines is left.
func (x *xx) gone(first int, when string) {
	for _, g := range x.S.Gs()[first:] {
		if strings.HasSuffix(g.Name, "/go") && g.Proc == 0 && !g.Done {
			x.Fail("goroutine-left", "%s, but a goroutine that it started never ends (%s)", when, g.Why)
		}
	}
}

func xxCreate(e *Env) {
	x := xxEnv(e)
	d := e.D
	file := x.file
	damaged := false
	if k := e.cfg("dmg"); k > 0 {
		dr := rand.New(rand.NewPCG(uint64(e.cfg("dmgseed")), 7))
		d.Payload = func(b []byte) []byte {
			switch k {
			case 1:
				damaged = true
				x.S.Fire("snapshot-truncated")
				return b[:dr.IntN(d.EOFMark+1)]
			case 2:
				damaged = true
				x.S.Fire("bad-magic")
				b = append([]byte(nil), b...)
				b[dr.IntN(5)] ^= byte(1 + dr.IntN(255))
				return b
			}
			for _, kv := range e.Sc.Data {
				switch kv.V.Kind {
				case "stream", "module", "newtype":
					damaged = true
				}
			}
			if damaged {
				x.S.Fire("unsupported-type")
			}
			return b
		}
	}
	var err error
	var took int64
	returned, restarted := false, false
	check := func() {
		rep := (*model.Replica)(nil)
		if l := d.Replicas; len(l) > 0 {
			rep = l[len(l)-1]
		}
		snap, _ := e.FS.Data(file)
		switch {
		case rep == nil || string(snap) != string(rep.Payload):
			e.Fail("incomplete", "creating a client reported success without the master's complete snapshot (file of %d bytes)", len(snap))
		case damaged:
			e.Fail("believed", "creating a client reported success with a damaged or unsupported snapshot (kind %d)", e.cfg("dmg"))
		}
		if e.class != "" {
			return
		}
		x.settle()
		if t := max(e.Net.PartTo, e.Net.DownTo); t > x.S.Now() {
			rt.Sleep(t - x.S.Now())
		}
		rt.Sleep(70 * sec) // if the link broke, the client has noticed
		x.current("wrong-view", 25)
	}
	e.main(func() {
		s := x.S
		d.StartTracking()
		if n := e.cfg("killat"); n > 0 {
			s.Spawn("victim", 1, func() {
				err = x.create()
				if !s.Dead() {
					returned = true
				}
			})
			s.Spawn("killer", 9, func() {
				rt.Block("harness: kill", func() bool { return s.Steps >= n || returned })
				if !returned {
					s.Fire("process-kill")
				}
				s.KillProc(1)
				e.Net.KillProc(1)
				e.FS.OpenFiles = 0
				returned = true
			})
			rt.Block("harness: victim", func() bool { return returned })
			rt.Sleep(50 * ms)
			restarted = true
		}
		t0, first := s.Now(), len(s.Gs())
		err = x.create()
		took = s.Now() - t0
		if n := e.FS.OpenFiles; n > 0 {
			e.Fail("open-file", "after creating a client (error %v) %d files are still open", err, n)
		}
		if err == nil {
			check()
			return
		}
		rt.Sleep(5 * sec)
		defer func() {
			rt.Sleep(100 * sec)
			x.gone(first, "creating a client failed")
		}()
		for _, c := range e.Net.Conns {
			if c.Proc == 0 && !c.ClosedByClient() {
				e.Fail("open-connection", "creating a client failed (%v), but connection %d is still open", err, c.ID)
			}
		}
	})
	if e.class != "" {
		return
	}
	slow, _ := gentle(e.Sc)
	if limit := 700*sec + e.cfg("snapdelay")*us + slow; took > limit {
		e.Fail("too-late", "creating a client returned after %.0f s", float64(took)/1e9)
	}
	if err != nil && !damaged {
		f := x.S.Fired
		n := fired(e) - f["process-stall"] - f["short-read"] - f["process-kill"]
		if _, ok := gentle(e.Sc); ok {
			n -= f["stall-s2c"] + f["drip-s2c"]
		} else if e.cfg("snapdelay") > 50_000_000 {
			n++
		}
		if n == 0 {
			t := "creating a client failed although nothing did"
			if restarted {
				t = "after a restart on the same disk, " + t
			}
			e.Fail("needless-error", "%s: %v", t, err)
		}
	}
}
