package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/liujiangwei/xxcache/redis"

	"verifsim/model"
	"verifsim/rt"
	"verifsim/shim/context"
	"verifsim/simnet"
)

// ---- commands of the client, what they must send, what their replies mean

var clientCmds = []string{"Set", "SetNX", "SetEX", "PSetEX", "Get", "GetSet", "StrLen", "Append", "SetRange", "GetRange", "Incr", "IncrBy", "IncrByFloat", "Decr", "DecrBy", "MSet", "MSetNX", "MGet", "Select"}

func itoa(n int64) string { return strconv.FormatInt(n, 10) }

// wantArgs is the command an operation must make the server execute.
func wantArgs(o model.Op) []string {
	c := strings.ToLower(o.C)
	v := func(i int) string {
		if i < len(o.A) {
			return o.A[i]
		}
		return ""
	}
	switch o.C {
	case "Set", "SetNX", "GetSet", "Append":
		return []string{c, o.K, v(0)}
	case "SetEX", "PSetEX":
		return []string{c, o.K, strconv.FormatUint(uint64(o.N), 10), v(0)}
	case "Get", "StrLen", "Incr", "Decr":
		return []string{c, o.K}
	case "SetRange":
		return []string{c, o.K, itoa(o.N), v(0)}
	case "GetRange":
		return []string{c, o.K, itoa(o.N), itoa(o.M)}
	case "IncrBy", "DecrBy":
		return []string{c, o.K, itoa(o.N)}
	case "IncrByFloat":
		return []string{c, o.K, model.FmtFloat(o.F)}
	case "MSet", "MSetNX", "MGet":
		return append([]string{c}, o.A...)
	case "Select":
		return []string{c, itoa(o.N)}
	}
	return nil
}

// sameCmd reports whether the executed arguments are what the operation asks for.
func sameCmd(o model.Op, args []string) bool {
	w := wantArgs(o)
	if len(args) != len(w) || !strings.EqualFold(args[0], w[0]) {
		return false
	}
	switch o.C {
	case "IncrByFloat":
		f, err := strconv.ParseFloat(args[2], 64)
		return args[1] == w[1] && err == nil && f == o.F
	case "MSet", "MSetNX":
		pairs := func(l []string) string {
			var p []string
			for i := 0; i+1 < len(l); i += 2 {
				p = append(p, model.Quote(l[i])+"="+model.Quote(l[i+1]))
			}
			sort.Strings(p)
			return strings.Join(p, " ")
		}
		return pairs(args[1:]) == pairs(w[1:])
	}
	for i := 1; i < len(w); i++ {
		if args[i] != w[i] {
			return false
		}
	}
	return true
}

// meaning is the result a call must return for a server reply.
func meaning(o model.Op, reply string) string {
	r, ok := parseResp(reply)
	if !ok || r.t == '-' || r.t == 'N' {
		return model.Err
	}
	switch o.C {
	case "Set", "SetEX", "PSetEX", "MSet", "Select", "SetNX", "Get", "GetSet", "GetRange":
		return model.Quote(r.s)
	case "MGet":
		var l []string
		for _, x := range r.arr {
			if x.t == 'N' || x.t == '-' {
				l = append(l, model.Nil)
			} else {
				l = append(l, model.Quote(x.s))
			}
		}
		return strings.Join(l, ",")
	case "IncrByFloat":
		f, err := strconv.ParseFloat(r.s, 64)
		if err != nil {
			return model.Err
		}
		return model.Float(f)
	}
	return r.s
}

// issue runs one operation on the client.
func issue(c *redis.Redis, o model.Op) string {
	v := func(i int) string {
		if i < len(o.A) {
			return o.A[i]
		}
		return ""
	}
	str := func(s string, err error) string {
		if err != nil {
			return model.Err
		}
		return model.Quote(s)
	}
	num := func(n int, err error) string {
		if err != nil {
			return model.Err
		}
		return itoa(int64(n))
	}
	kv := func() map[string]string {
		m := map[string]string{}
		for i := 0; i+1 < len(o.A); i += 2 {
			m[o.A[i]] = o.A[i+1]
		}
		return m
	}
	switch o.C {
	case "Set":
		return str(c.Set(o.K, v(0)))
	case "SetNX":
		return str(c.SetNX(o.K, v(0)))
	case "SetEX":
		return str(c.SetEX(o.K, v(0), uint64(o.N)))
	case "PSetEX":
		return str(c.PSetEX(o.K, v(0), uint64(o.N)))
	case "Get":
		return str(c.Get(o.K))
	case "GetSet":
		return str(c.GetSet(o.K, v(0)))
	case "StrLen":
		return num(c.StrLen(o.K))
	case "Append":
		return num(c.Append(o.K, v(0)))
	case "SetRange":
		return num(c.SetRange(o.K, int(o.N), v(0)))
	case "GetRange":
		return str(c.GetRange(o.K, int(o.N), int(o.M)))
	case "Incr":
		return num(c.Incr(o.K))
	case "IncrBy":
		return num(c.IncrBy(o.K, int(o.N)))
	case "IncrByFloat":
		f, err := c.IncrByFloat(o.K, o.F)
		if err != nil {
			return model.Err
		}
		return model.Float(f)
	case "Decr":
		return num(c.Decr(o.K))
	case "DecrBy":
		return num(c.DecrBy(o.K, int(o.N)))
	case "MSet":
		return str(c.MSet(kv()))
	case "MSetNX":
		return num(c.MSetNX(kv()))
	case "MGet":
		l, err := c.MGet(o.A...)
		if err != nil {
			return model.Err
		}
		var out []string
		for _, x := range l {
			switch t := x.(type) {
			case string:
				out = append(out, model.Quote(t))
			case error, nil:
				out = append(out, model.Nil)
			default:
				out = append(out, fmt.Sprintf("%T(%v)", x, x))
			}
		}
		return strings.Join(out, ",")
	case "Select":
		return str(c.Select(int(o.N)))
	}
	panic("issue: " + o.C)
}

// ---- generation

func genVal(r *rand.Rand) string {
	switch r.IntN(10) {
	case 0:
		return ""
	case 1:
		return genBytes(r, 1+r.IntN(20))
	case 2:
		return pick(r, "OK", "1", "-1", "0", "+OK\r\n", "$-1\r\n", "Nil", "\r\n", "9223372036854775807")
	case 3:
		return genBytes(r, pick(r, 4090, 4096, 4100, 5000, 9000))
	}
	return "v" + itoa(int64(r.IntN(100000)))
}

// genCall makes one operation on keys nobody else uses, and the data those keys hold.
func genCall(r *rand.Rand, th, i int, only []string) (model.Op, []KV) {
	c := pick(r, clientCmds...)
	if len(only) > 0 {
		c = pick(r, only...)
	}
	key := func(j int) string {
		k := fmt.Sprintf("t%d.%d.%d", th, i, j)
		if chance(r, 1, 6) {
			k += genBytes(r, 1+r.IntN(10))
		}
		return k
	}
	o := model.Op{C: c, K: key(0)}
	if th == 0 && i == 0 && chance(r, 1, 12) {
		o.K = "" // in one call only, the keys tell the calls apart
	}
	var data []KV
	hold := func(k string) {
		v := &model.RVal{Kind: "string"}
		switch r.IntN(8) {
		case 0, 1:
			return
		case 2:
			v.Str = pick(r, "0", "41", "-7", "9223372036854775807", "-9223372036854775808", "007", "1000000")
		case 3:
			v.Str = pick(r, "1.5", "0.1", "-2.25", "3e3", "1e17", "10")
		case 4:
			v = &model.RVal{Kind: "hash", Hash: map[string]string{"f": "v"}}
		default:
			v.Str = genVal(r)
		}
		if (c == "Incr" || c == "Decr" || c == "IncrBy" || c == "DecrBy" || c == "IncrByFloat") && chance(r, 3, 4) {
			v = &model.RVal{Kind: "string", Str: itoa(int64(r.IntN(2000) - 1000))}
		}
		data = append(data, KV{K: k, V: v})
	}
	switch c {
	case "MSet", "MSetNX", "MGet":
		o.K = ""
		n := 1 + r.IntN(5)
		for j := 0; j < n; j++ {
			k := key(j)
			if j > 0 && j == n-1 && chance(r, 1, 12) {
				k = ""
			}
			hold(k)
			o.A = append(o.A, k)
			if c != "MGet" {
				o.A = append(o.A, genVal(r))
			}
		}
		if c == "MGet" && chance(r, 1, 6) {
			o.A = append(o.A, o.A[r.IntN(len(o.A))])
		}
		return o, data
	case "Select":
		o.K, o.N = "", int64(1000+th*100+i)
		return o, nil
	case "Set", "SetNX", "GetSet", "Append":
		o.A = []string{genVal(r)}
	case "SetEX", "PSetEX":
		o.A = []string{genVal(r)}
		o.N = pick(r, int64(1), 10, 86400, 100000, 0, 1500)
		if chance(r, 1, 12) {
			o.N = pick(r, int64(-1), math.MinInt64, math.MinInt64+1, -1000) // as an unsigned number: 2^63 and more
		}
		if c == "PSetEX" && o.N > 0 {
			o.N *= 1000
		}
	case "SetRange":
		o.A = []string{genVal(r)}
		o.N = pick(r, int64(0), 1, 5, 100, -1)
		if chance(r, 1, 6) { // more than a string may hold
			o.N = pick(r, int64(1)<<29, math.MaxInt32, 1<<31, 1<<32, 1<<32+1, 1<<40, math.MaxInt64, math.MinInt64)
		}
	case "GetRange":
		o.N, o.M = int64(r.IntN(12)-4), int64(r.IntN(14)-5)
		if chance(r, 1, 6) {
			o.M = pick(r, int64(math.MaxInt32), 1<<31, 1<<32, 1<<32+2, math.MaxInt64, math.MinInt64, -1<<31-1)
		}
		if chance(r, 1, 12) {
			o.N = pick(r, int64(math.MinInt32), -1<<31-1, -1<<32, math.MinInt64, math.MaxInt64, 1<<32)
		}
	case "IncrBy", "DecrBy":
		o.N = pick(r, int64(0), 1, -1, 5, 100, math.MaxInt64, math.MinInt64, math.MinInt64+1, 1<<31, 1<<32+1, -1<<31-1, 1<<53+1, int64(r.IntN(100000)))
	case "IncrByFloat":
		o.F = pick(r, 0.5, 1, -1.25, 0.1, 3, 1e10, 0.001, 123456.789, 1e-7, 2.5e15)
		if chance(r, 1, 2) {
			o.F = pick(r, 1.0/3, math.Pi, 0.30000000000000004, -r.Float64(), r.NormFloat64()*1e9, 9007199254740993, 1e200, -1e22, 5e-324, math.MaxFloat64)
		}
	}
	hold(o.K)
	return o, data
}

type cliGen struct {
	threads, ops int
	only         []string
}

func genClient(r *rand.Rand, g cliGen) *Scenario {
	sc := &Scenario{Cfg: netCfg(r)}
	if chance(r, 1, 2) {
		sc.Cfg["srvdelay"] = pick(r, int64(100), 2000, 20000)
	}
	n := 1 + r.IntN(g.threads)
	for t := 0; t < n; t++ {
		var l []model.Op
		k := 1 + r.IntN(g.ops)
		for i := 0; i < k; i++ {
			o, d := genCall(r, t, i, g.only)
			l = append(l, o)
			sc.Data = append(sc.Data, d...)
			if chance(r, 1, 8) {
				l = append(l, model.Op{C: "sleep", N: span(r, 1, 50*ms)})
			}
		}
		sc.Threads = append(sc.Threads, l)
	}
	sc.Cfg["pool"] = int64(pick(r, 1, 1, 2, 2, 3, 4, 8))
	return sc
}

// connFault is one fault of one connection (or dial) of the client.
func connFault(r *rand.Rand, conns int, timeouts bool) (net, srv []simnet.Fault) {
	c := r.IntN(conns)
	at := int64(r.IntN(200))
	if chance(r, 1, 4) {
		at = int64(r.IntN(12000))
	}
	dir := pick(r, "s2c", "c2s")
	switch k := r.IntN(10); {
	case k < 2:
		net = append(net, simnet.Fault{Kind: "rst", Conn: c, Dir: dir, At: at})
	case k < 4:
		net = append(net, simnet.Fault{Kind: "fin", Conn: c, Dir: "s2c", At: at})
	case k == 4:
		net = append(net, simnet.Fault{Kind: "dial-refuse", Conn: c})
	case k == 5:
		net = append(net, simnet.Fault{Kind: "wshort", Conn: c, Dir: "c2s", At: at})
	case k == 6:
		srv = append(srv, simnet.Fault{Kind: "garble", Conn: c, At: int64(r.IntN(6)), Arg: pick(r, model.GarbleKinds...)})
	case k == 7:
		srv = append(srv, simnet.Fault{Kind: "maxclients", Conn: c})
	default:
		if timeouts {
			if chance(r, 1, 3) {
				srv = append(srv, simnet.Fault{Kind: "noreply", Conn: c, At: int64(r.IntN(6))})
			} else {
				net = append(net, simnet.Fault{Kind: "stall", Conn: c, Dir: dir, At: at, Dur: span(r, 10*ms, 5*sec)})
			}
		} else {
			net = append(net, simnet.Fault{Kind: "stall", Conn: c, Dir: dir, At: at, Dur: span(r, ms, 2*sec)})
		}
	}
	return
}

// ---- running

type ccall struct {
	op          model.Op
	th          int
	callT, retT int64
	res         string
	done        bool
	execs       []model.Exec
	okRep       bool // the reply the server sent was the real one
}

type cliRun struct {
	calls    []*ccall
	unknown  []model.Exec
	maxHeld  int
	heldWhat string
}

func (e *Env) option() redis.Option {
	o := redis.Option{Addr: addr, PoolSize: int(e.cfg("pool")), Database: int(e.cfg("database")),
		Timeout: time.Duration(e.cfg("dialto") * ms), ReadTimeout: time.Duration(e.cfg("readto") * ms), WriteTimeout: time.Duration(e.cfg("writeto") * ms)}
	if e.cfg("password") != 0 {
		o.Password = "s3cret pass"
	}
	return o
}

// runClient runs the scenario's threads over one shared client.
func runClient(e *Env) *cliRun {
	e.sim(false)
	e.addNet()
	e.addServer()
	d := e.D
	d.St.One = true
	for _, kv := range e.Sc.Data {
		d.St.Put(0, kv.K, kv.V.Clone())
	}
	o := e.option()
	d.Password = o.Password
	cr := &cliRun{}
	e.Net.OnOpen = func(*simnet.Conn) {
		n := 0
		for _, c := range e.Net.Conns {
			if !c.ClosedByClient() {
				n++
			}
		}
		if n > cr.maxHeld {
			cr.maxHeld = n
		}
	}
	e.main(func() {
		cl := redis.NewClient(o)
		var fns []func()
		for t, ops := range e.Sc.Threads {
			fns = append(fns, func() {
				for _, op := range ops {
					if wait(e.S, op) {
						continue
					}
					c := &ccall{op: op, th: t, callT: e.S.Now()}
					cr.calls = append(cr.calls, c)
					c.res = e.call(t, op, func() string { return issue(cl, op) })
					c.retT, c.done = e.S.Now(), true
				}
			})
		}
		par(fns...)
		rt.Sleep(20 * sec)
	})
	// every command the server executed, matched to the call that asked for it
	for _, x := range d.Log {
		switch strings.ToLower(x.Args[0]) {
		case "auth", "ping", "client", "hello", "echo":
			continue
		case "select":
			if len(x.Args) == 2 && x.Args[1] == itoa(e.cfg("database")) {
				continue
			}
		}
		var hit *ccall
		for _, c := range cr.calls {
			if sameCmd(c.op, x.Args) {
				hit = c
				break
			}
		}
		if hit == nil {
			cr.unknown = append(cr.unknown, x)
			continue
		}
		hit.execs = append(hit.execs, x)
	}
	return cr
}

func describe(x model.Exec) string {
	return fmt.Sprintf("%s on connection %d (reply %s)", short(strings.Join(x.Args, " ")), x.Conn, short(x.Reply))
}

// pairing checks that every success is the server's reply to exactly that command.
func (e *Env) pairing(cr *cliRun) {
	for _, c := range e.Net.Conns {
		if c.Overlap != "" {
			e.Fail("shared-connection", "%s", c.Overlap)
		}
	}
	if len(e.D.Proto) > 0 {
		e.Fail("interleaved", "the server could not parse what it received: %s", e.D.Proto[0])
	}
	for _, c := range cr.calls {
		if !c.done || c.res == model.Err {
			continue
		}
		if len(c.execs) == 0 {
			e.Fail("other-reply", "%s returned %s, but the server never executed it", c.op, short(c.res))
			continue
		}
		ok := false
		for _, x := range c.execs {
			if x.Sent == "" && meaning(c.op, x.Reply) == c.res && x.T >= c.callT && x.T <= c.retT {
				ok = true
			}
		}
		if !ok {
			x := c.execs[0]
			if x.T < c.callT || x.T > c.retT {
				e.Fail("outside", "%s returned %s, but the server executed it outside of the call", c.op, short(c.res))
			} else if x.Sent != "" {
				e.Fail("other-reply", "%s returned %s, but what the server sent for it was %s", c.op, short(c.res), short(x.Sent))
			} else {
				e.Fail("other-reply", "%s returned %s, but the server's reply to it was %s", c.op, short(c.res), short(x.Reply))
			}
		}
	}
}

// fidelity checks what was executed.
func (e *Env) fidelity(cr *cliRun) {
	for _, x := range cr.unknown {
		e.Fail("wrong-command", "the server was made to execute %s, which no call asked for", describe(x))
	}
	for _, c := range cr.calls {
		if len(c.execs) > 1 {
			e.Fail("repeated", "%s was executed %d times", c.op, len(c.execs))
		}
	}
}

func fired(e *Env, kinds ...string) (n int64) {
	if len(kinds) == 0 {
		for _, v := range e.S.Fired {
			n += v
		}
		return
	}
	for _, k := range kinds {
		n += e.S.Fired[k]
	}
	return
}

// failed reports whether a call failed for a reason other than the server's own answer.
func (c *ccall) failed() bool {
	if !c.done || c.res != model.Err {
		return false
	}
	for _, x := range c.execs {
		if x.Sent == "" && meaning(c.op, x.Reply) == model.Err {
			return false
		}
	}
	return true
}

// clean checks that nothing failed in a run in which no fault struck.
func (e *Env) clean(cr *cliRun) {
	if fired(e) > 0 {
		return
	}
	for _, c := range cr.calls {
		if c.failed() {
			if len(c.execs) > 0 {
				e.Fail("needless-error", "%s returned an error, the server's reply was %s, and no fault struck", c.op, short(c.execs[0].Reply))
			} else {
				e.Fail("needless-error", "%s returned an error although no fault struck", c.op)
			}
		}
	}
}

var cliReal = []string{"redis.Redis, redis.Pool, redis.Conn, commands (instrumented)"}
var cliStub = []string{"TCP network: simulated", "Redis server: reference model of its command set and wire protocol"}

const cliSkip = "a call that hit a fault may report an error"

func init() {
	register(&Prop{ID: "R03", Quick: 120000, Thorough: 2400000, Real: cliReal, Stub: cliStub,
		Rule: "a case is 1-6 goroutines issuing 1-8 commands each on keys of their own over one client with 1-8 pooled connections, under random delays and 0-4 planned faults (resets, half closes, stalls beyond configured timeouts, short writes, missing and malformed replies, refused dials); every successful result is compared with the reply the server made to that very command; distinct by case and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			sc := genClient(r, cliGen{threads: 6, ops: 8})
			to := chance(r, 1, 2)
			if to {
				sc.Cfg["readto"] = pick(r, int64(5), 50, 500)
				sc.Cfg["writeto"] = pick(r, int64(0), 50)
				sc.Cfg["dialto"] = pick(r, int64(0), 300)
			}
			for k := r.IntN(5); k > 0; k-- {
				n, s := connFault(r, 6, to)
				sc.Net = append(sc.Net, n...)
				sc.Srv = append(sc.Srv, s...)
			}
			if chance(r, 1, 6) {
				sc.Cfg["password"] = 1
			}
			if chance(r, 1, 6) {
				sc.Cfg["database"] = pick(r, int64(3), 3, 20)
			}
			return sc
		},
		Run: func(e *Env) {
			cr := runClient(e)
			e.pairing(cr)
			if e.cfg("readto") == 0 {
				e.clean(cr)
			}
		}})

	register(&Prop{ID: "R04", Quick: 180000, Thorough: 3600000, Real: cliReal, Stub: cliStub,
		Rule: "a case is 1-3 goroutines issuing 1-8 commands of all 19 kinds with arbitrary arguments on keys holding arbitrary values, in half of the cases with 1-3 planned connection faults or replies of a kind the command never has; the server's log is compared with the calls; distinct by case and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			g := cliGen{threads: 3, ops: 8}
			if i%4 == 0 { // every command in turn
				g.only = []string{clientCmds[(i/4)%len(clientCmds)]}
			}
			sc := genClient(r, g)
			if chance(r, 1, 150) { // large values and arguments
				delete(sc.Cfg, "maxseg")
				big := func() string {
					return strings.Repeat(pick(r, "B", "\r\n", "0", "big "), 1+pick(r, 1<<14, 1<<15, 1<<16-1, 1<<16, 100_000, 300_000)/2)
				}
				for j := range sc.Data {
					if sc.Data[j].V.Kind == "string" && chance(r, 1, 2) {
						sc.Data[j].V.Str = big()
					}
				}
				for _, l := range sc.Threads {
					for j := range l {
						if n := len(l[j].A); n > 0 && l[j].C != "MGet" && l[j].K != "" && chance(r, 1, 2) {
							l[j].A[n-1] = big()
						}
					}
				}
			}
			if chance(r, 1, 2) {
				to := chance(r, 1, 3)
				if to {
					sc.Cfg["readto"] = pick(r, int64(50), 500)
				}
				for k := 1 + r.IntN(3); k > 0; k-- {
					n, s := connFault(r, 4, to)
					sc.Net = append(sc.Net, n...)
					sc.Srv = append(sc.Srv, s...)
				}
			}
			return sc
		},
		Run: func(e *Env) {
			cr := runClient(e)
			e.fidelity(cr)
			e.pairing(cr)
			if e.cfg("readto") == 0 {
				e.clean(cr)
			}
		}})

	register(&Prop{ID: "R05", Quick: 135000, Thorough: 2700000, Real: cliReal, Stub: cliStub,
		Rule: "a case is 1-10 goroutines over a pool of 1-4 connections (or the default 20, asked for with 0 or a negative size) with a password, a database, both or neither, and 0-4 faults that break connections, refuse dials or fail AUTH; open connections are counted at every open, and every connection's history is checked; distinct by case and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			sc := genClient(r, cliGen{threads: 10, ops: 4, only: []string{"Set", "Get", "Append", "MGet", "Incr", "SetNX"}})
			sc.Cfg["pool"] = int64(pick(r, 1, 2, 2, 3, 4, 0))
			if chance(r, 1, 40) { // more callers than the default size
				sc = genClient(r, cliGen{threads: 1, ops: 1, only: []string{"Get"}})
				for t := 1; t < 22+r.IntN(10); t++ {
					o, d := genCall(r, t, 0, []string{"Set", "Get"})
					sc.Threads = append(sc.Threads, []model.Op{o})
					sc.Data = append(sc.Data, d...)
				}
				sc.Cfg["pool"] = pick(r, int64(0), -1)
			}
			sc.Cfg["password"] = int64(r.IntN(2))
			if chance(r, 1, 2) { // far longer than anything lasts here
				sc.Cfg["dialto"], sc.Cfg["readto"], sc.Cfg["writeto"] = pick(r, int64(0), 200_000), pick(r, int64(0), 200_000), pick(r, int64(0), 200_000)
			}
			sc.Cfg["database"] = pick(r, int64(0), 1, 7, 15, 16, 100, 255, 256, 100_000)
			for k := r.IntN(5); k > 0; k-- {
				if chance(r, 1, 4) {
					if sc.Cfg["password"] != 0 {
						sc.Srv = append(sc.Srv, simnet.Fault{Kind: "authfail", Conn: r.IntN(5), N: int64(r.IntN(5))})
					} else {
						sc.Srv = append(sc.Srv, simnet.Fault{Kind: "loading", Conn: r.IntN(5)})
					}
					continue
				}
				n, s := connFault(r, 6, false)
				sc.Net = append(sc.Net, n...)
				sc.Srv = append(sc.Srv, s...)
			}
			if chance(r, 1, 12) { // nothing but minutes of waiting, and no timeouts
				sc.Cfg["dialto"], sc.Cfg["readto"], sc.Cfg["writeto"] = 0, 0, 0
				sc.Net, sc.Srv = nil, nil
				if chance(r, 1, 3) {
					sc.Cfg["srvdelay"] = pick(r, int64(70_000_000), 2000_000_000)
				}
				for k := 1 + r.IntN(4); k > 0; k-- {
					sc.Net = append(sc.Net, simnet.Fault{Kind: "stall", Conn: r.IntN(3), Dir: pick(r, "s2c", "c2s"), At: int64(r.IntN(150)), Dur: pick(r, 40*sec, 100*sec, 250*sec, 800*sec)})
				}
			}
			return sc
		},
		Run: func(e *Env) {
			cr := runClient(e)
			size := int(e.cfg("pool"))
			if size <= 0 {
				size = 20
			}
			if cr.maxHeld > size {
				e.Fail("too-many", "a client with a pool of %d held %d connections at once", size, cr.maxHeld)
			}
			open := 0
			for _, c := range e.Net.Conns {
				if !c.ClosedByClient() {
					open++
				}
			}
			if open > size {
				e.Fail("leak", "%d connections were never closed, the pool's size is %d", open, size)
			}
			for _, x := range e.D.Log {
				switch strings.ToLower(x.Args[0]) {
				case "auth", "select", "ping", "hello", "client":
					continue
				}
				if !x.Authd {
					e.Fail("unauthenticated", "%s was sent without the password having been accepted", describe(x))
				}
				if x.DB != int(e.cfg("database")) {
					e.Fail("wrong-database", "%s was executed in database %d, configured is %d", describe(x), x.DB, e.cfg("database"))
				}
			}
			for _, f := range e.Sc.Srv {
				if f.Kind != "authfail" && !(f.Kind == "loading" && e.cfg("database") != 0) {
					continue
				}
				for _, c := range e.Net.Conns {
					if c.ID == f.Conn && !c.ClosedByClient() {
						e.Fail("setup-leak", "connection %d failed its setup and was not closed", c.ID)
					}
				}
			}
			if fired(e) == fired(e, "stall-c2s", "stall-s2c", "process-stall") && !slices.ContainsFunc(e.Sc.Net, func(f simnet.Fault) bool { return f.Kind == "stall" && f.Dur > 10*sec && (e.cfg("readto") > 0 || e.cfg("writeto") > 0 || e.cfg("dialto") > 0) }) && (e.cfg("srvdelay") <= 20000 || e.cfg("readto") == 0) {
				for _, c := range cr.calls {
					if c.done && len(c.execs) == 0 {
						e.Fail("not-served", "%s was never served although no fault struck (returned %s)", c.op, short(c.res))
					}
				}
			}
		}})

	register(&Prop{ID: "R06", Quick: 60000, Thorough: 1440000, Real: cliReal, Stub: cliStub,
		Rule:   "a case is 1-5 goroutines issuing commands before, during and after a period of server crashes, resets of all connections, refused dials, broken connections and malformed replies which ends at a heal time; distinct by case and schedule",
		Assume: []string{"a command reporting an error because an idle pooled connection turned out to be broken counts against the bound of the pool's size"},
		Gen: func(r *rand.Rand, i int) *Scenario {
			sc := genClient(r, cliGen{threads: 1, ops: 1})
			sc.Threads, sc.Data = nil, nil
			heal := span(r, 200*ms, 3*sec)
			sc.Cfg["heal"] = heal
			sc.Cfg["pool"] = int64(pick(r, 1, 1, 2, 3, 5))
			only := []string{"Set", "Get", "Append", "MGet", "StrLen", "GetSet"}
			n := 1 + r.IntN(5)
			for t := 0; t < n; t++ {
				var l []model.Op
				add := func(k int, gap int64) {
					for ; k > 0; k-- {
						o, d := genCall(r, t, len(l), only)
						l = append(l, o)
						sc.Data = append(sc.Data, d...)
						if gap > 0 && chance(r, 2, 3) {
							l = append(l, model.Op{C: "sleep", N: span(r, 1, gap)})
						}
					}
				}
				add(1+r.IntN(10), heal/3)
				l = append(l, model.Op{C: "until", N: heal + span(r, 1, 300*ms)})
				add(2+r.IntN(8), 20*ms)
				sc.Threads = append(sc.Threads, l)
			}
			for k := 1 + r.IntN(5); k > 0; k-- {
				switch r.IntN(4) {
				case 0:
					at := span(r, 0, heal-1)
					sc.Net = append(sc.Net, simnet.Fault{Kind: "down", At: at, Dur: span(r, 1, heal-at)})
				case 1:
					sc.Net = append(sc.Net, simnet.Fault{Kind: "rst-all", At: span(r, 0, heal-1)})
				default:
					n, s := connFault(r, 8, false)
					sc.Net = append(sc.Net, n...)
					sc.Srv = append(sc.Srv, s...)
				}
			}
			if chance(r, 1, 4) {
				sc.Cfg["password"] = 1
			}
			if chance(r, 1, 4) {
				sc.Cfg["database"] = pick(r, int64(2), 2, 20)
			}
			return sc
		},
		Run: func(e *Env) {
			heal := e.cfg("heal")
			e.preRun = func() { e.Net.Off, e.D.Off = heal, heal }
			cr := runClient(e)
			size := int(e.cfg("pool"))
			bad, what := 0, ""
			for _, c := range cr.calls {
				if c.callT > heal && c.failed() {
					bad++
					what = c.op.String()
				}
			}
			if bad > size {
				e.Fail("no-recovery", "%d commands started after the server was reachable again failed (pool of %d), the last one %s", bad, size, what)
			}
		}})

	register(&Prop{ID: "R07", Quick: 180000, Thorough: 3600000, Real: cliReal, Stub: cliStub,
		Rule: "a case is 1-4 goroutines over a pool at least as large, with connect, read and write timeouts (each configured or not) and 1-4 faults against which the configured ones protect: stalls at any byte for up to 10 minutes, bytes that come in pieces each within the timeout but late as a whole, missing replies, dials that get no answer, partitions; each call's duration is checked against the sum of the timeouts it may use; distinct by case and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			sc := genClient(r, cliGen{threads: 4, ops: 6, only: []string{"Set", "Get", "Append", "MGet", "StrLen", "GetSet", "SetRange", "MSet"}})
			delete(sc.Cfg, "stallp")
			sc.Cfg["jit"] = min(sc.Cfg["jit"], 500)
			delete(sc.Cfg, "maxseg")
			sc.Cfg["pool"] = int64(len(sc.Threads)) + int64(r.IntN(2))
			if chance(r, 1, 6) {
				sc.Cfg["pool"] = 1
			}
			R, W, D := pick(r, int64(100), 500, 3000), pick(r, int64(100), 500, 3000), pick(r, int64(100), 500, 3000)
			sc.Cfg["srvdelay"] = pick(r, int64(0), 1000, 20000)
			switch r.IntN(6) {
			case 5:
				if sc.Cfg["writeto"] = W; chance(r, 1, 2) {
					sc.Cfg["dialto"] = D
				}
			case 0:
				sc.Cfg["readto"] = R
			case 1:
				sc.Cfg["writeto"] = W
			case 2:
				sc.Cfg["dialto"] = D
			default:
				sc.Cfg["readto"], sc.Cfg["writeto"], sc.Cfg["dialto"] = R, W, D
			}
			r2, w2, d2 := sc.Cfg["readto"] > 0, sc.Cfg["writeto"] > 0, sc.Cfg["dialto"] > 0
			if chance(r, 1, 4) {
				sc.Cfg["password"] = 1
			}
			if chance(r, 1, 4) {
				sc.Cfg["database"] = pick(r, int64(2), 2, 20)
			}
			if w2 && chance(r, 1, 2) { // commands larger than the send buffer
				sc.Cfg["sndbuf"] = pick(r, int64(4096), 8192)
				for t := range sc.Threads {
					for j := range sc.Threads[t] {
						if o := &sc.Threads[t][j]; len(o.A) > 0 && o.C == "Set" {
							o.A[0] = genBytes(r, pick(r, 3000, 20000))
						}
					}
				}
			}
			for k := 1 + r.IntN(4); k > 0; k-- {
				c := r.IntN(6)
				at := int64(r.IntN(200))
				dur := pick(r, 600*sec, 100*sec, 20*sec)
				if chance(r, 1, 6) {
					dur = span(r, ms, 20*ms)
				}
				var l []func()
				if r2 {
					l = append(l, func() {
						sc.Net = append(sc.Net, simnet.Fault{Kind: "stall", Conn: c, Dir: "s2c", At: at, Dur: dur})
					}, func() {
						sc.Srv = append(sc.Srv, simnet.Fault{Kind: "noreply", Conn: c, At: int64(r.IntN(5))})
					})
				}
				if r2 { // each piece of a reply comes within the timeout, the reply as a whole does not
					l = append(l, func() {
						for t := range sc.Threads {
							for j := range sc.Threads[t] {
								if o := &sc.Threads[t][j]; o.C == "MGet" && len(o.A) < 8 {
									for k := 0; k < 12; k++ {
										o.A = append(o.A, fmt.Sprintf("%s.more%d", o.A[0], k))
									}
								}
							}
						}
						sc.Net = append(sc.Net, simnet.Fault{Kind: "drip", Conn: c % 2, Dir: "s2c", At: at % 40, N: span(r, 8, 300), Step: pick(r, int64(1), 1, 3, 8), Dur: R * ms * span(r, 5, 10) / 10})
					})
				}
				if r2 && w2 {
					l = append(l, func() {
						sc.Net = append(sc.Net, simnet.Fault{Kind: "stall", Conn: c, Dir: "c2s", At: at * int64(1+r.IntN(50)), Dur: dur})
					}, func() {
						sc.Cfg["sndbuf"] = 4096
						delete(sc.Cfg, "frag")
						for t := range sc.Threads {
							for j := range sc.Threads[t] {
								if o := &sc.Threads[t][j]; len(o.A) > 0 && o.C == "Set" {
									o.A[0] = genBytes(r, int(span(r, 60000, 120000)))
								}
							}
						}
						sc.Net = append(sc.Net, simnet.Fault{Kind: "drip", Conn: c % 2, Dir: "c2s", At: at * int64(1+r.IntN(5)), N: 1000000, Step: span(r, 1000, 5000), Dur: W * ms * span(r, 2, 8) / 10})
					})
				}
				if d2 {
					l = append(l, func() { sc.Net = append(sc.Net, simnet.Fault{Kind: "dial-timeout", Conn: c % 3}) })
				}
				if w2 && !r2 { // nothing limits how long a reply may take
					l = append(l, func() {
						sc.Net = append(sc.Net, simnet.Fault{Kind: "stall", Conn: c % 3, Dir: "s2c", At: at, Dur: pick(r, dur, W*ms*span(r, 11, 30)/10)})
					})
				}
				if d2 && r2 && w2 {
					l = append(l, func() {
						sc.Net = append(sc.Net, simnet.Fault{Kind: "partition", At: span(r, 0, 200*ms), Dur: span(r, sec, 100*sec)})
					})
				}
				if len(l) == 0 {
					l = append(l, func() { sc.Net = append(sc.Net, simnet.Fault{Kind: "fin", Conn: c, Dir: "s2c", At: at}) })
				}
				l[r.IntN(len(l))]()
			}
			return sc
		},
		Run: func(e *Env) {
			R, W, D := e.cfg("readto")*ms, e.cfg("writeto")*ms, e.cfg("dialto")*ms
			for _, t := range []int64{R, W, D} {
				if t > 0 && t < 100*ms {
					return // a minimised case may not shrink the timeouts below what the server needs
				}
			}
			if b := e.cfg("sndbuf"); (b > 0 && b < 4096) || e.cfg("jit") > 500 || e.cfg("lat") > 200 || e.cfg("maxseg") > 0 || e.cfg("srvdelay") > 20000 {
				return
			}
			cr := runClient(e)
			ex := int64(1)
			if e.cfg("password") != 0 {
				ex++
			}
			if e.cfg("database") != 0 {
				ex++
			}
			per := D + ex*(R+W)
			slack := 250*ms + ex*e.cfg("srvdelay")*us
			turns := int64(1)
			if int(e.cfg("pool")) < len(e.Sc.Threads) {
				turns = int64(len(cr.calls))
			}
			bound := turns * (per + slack)
			part, endless := fired(e, "tcp-timeout") > 0, false
			limit := int64(0) // how many commands the planned faults can fail
			for _, f := range e.Sc.Net {
				switch {
				case f.Kind == "partition":
					part = true
				case f.Kind == "stall" && f.Dur <= 25*ms:
				case f.Kind == "stall" && f.Dir == "s2c" && R == 0:
					endless = true // no timeout limits this wait, and nothing may fail because of it
				default:
					limit++
				}
			}
			limit += int64(len(e.Sc.Srv))
			var bad int64
			for _, c := range cr.calls {
				if !c.done {
					continue
				}
				if c.failed() {
					bad++
				}
				bound, what := bound, ""
				in := func(t int64) bool { return t >= c.callT && t <= c.retT }
				if k := slices.IndexFunc(e.Net.DialAt, in); len(e.Sc.Threads) == 1 && D > 0 && len(c.execs) == 0 && k >= 0 && slices.ContainsFunc(e.Net.NoReply, in) && !slices.ContainsFunc(e.Net.DialAt[k+1:], in) {
					bound, what = D+slack, " waiting for a connection that was never answered"
				}
				if turns == 1 && !slices.ContainsFunc(e.Net.DialAt, in) {
					bound, what = R+W+slack, " on a connection that was there"
				}
				if t := c.retT - c.callT; t > bound && !endless {
					e.Fail("too-late", "%s took %.3f s%s; connect timeout %.1f s, read timeout %.1f s, write timeout %.1f s allow %.3f s", c.op, float64(t)/1e9, what, float64(D)/1e9, float64(R)/1e9, float64(W)/1e9, float64(bound-slack)/1e9)
				}
			}
			for _, t := range e.Sc.Threads {
				for _, o := range t {
					for _, a := range o.A {
						part = part || len(a) > 20000 // the network alone may need longer than the write timeout
					}
				}
			}
			if bad > limit && !part {
				e.Fail("needless-error", "%d commands failed, but only %d faults could fail one; the server answered everything else well within the timeouts", bad, limit)
			}
			e.pairing(cr)
		}})

	register(&Prop{ID: "R08", Quick: 600000, Thorough: 6000000, Real: []string{"redis.Pool, redis.Conn (instrumented)"}, Stub: cliStub,
		Rule: "a case is 2-8 goroutines acquiring, using and returning connections of a pool of 1-3, or running commands through it that succeed, fail or panic, with contexts that expire or are cancelled at random moments, and 0-3 faults that break connections or refuse dials; then all connections are acquired at once, returned, and the pool is closed; distinct by case and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			sc := &Scenario{Cfg: netCfg(r)}
			sc.Cfg["pool"] = int64(1 + r.IntN(3))
			if chance(r, 1, 6) {
				sc.Cfg["ownclose"] = span(r, 1, sc.Cfg["pool"])
				sc.Cfg["unusable"] = int64(r.IntN(2))
			}
			n := 2 + r.IntN(7)
			closing := chance(r, 1, 8)
			if closing { // the pool is closed under its users
				sc.Cfg["closing"] = 1
				var l []model.Op
				for k := 1 + r.IntN(6); k > 0; k-- {
					l = append(l, model.Op{C: "sleep", N: span(r, 1, pick(r, 5*ms, 300*ms))}, model.Op{C: "close"})
				}
				sc.Threads = append(sc.Threads, l)
			}
			for t := 0; t < n; t++ {
				var l []model.Op
				for k := 1 + r.IntN(5); k > 0; k-- {
					o := model.Op{C: "get", N: 0, M: span(r, 0, 300*ms)}
					switch r.IntN(4) {
					case 0: // no limit
						if closing {
							o.C, o.N = "get-timeout", 2*sec
						}
					case 1:
						o.C, o.N = "get-timeout", pick(r, span(r, 1, 20*ms), span(r, 1, 600*ms), 3*sec)
					case 2:
						o.C, o.N = "get-cancel", pick(r, int64(0), span(r, 1, 20*ms), span(r, 1, 600*ms))
					case 3:
						if closing {
							o.C, o.N = "get-timeout", span(r, 1, sec)
						} else if chance(r, 1, 4) {
							o.M = span(r, 1, 6) * sec
						}
					}
					if chance(r, 1, 2) {
						o.A = []string{"ping"}
					}
					switch r.IntN(8) { // who returns the connection
					case 0, 1:
						o.F = poolExec
					case 2:
						o.F = poolExecErr
					case 3:
						if chance(r, 1, 3) {
							o.F = poolExecPanic
						} else {
							o.F = poolCommand
						}
					}
					l = append(l, o)
					if chance(r, 1, 3) {
						l = append(l, model.Op{C: "sleep", N: span(r, 1, 100*ms)})
					}
				}
				sc.Threads = append(sc.Threads, l)
			}
			if chance(r, 1, 2) {
				for k := 1 + r.IntN(3); k > 0; k-- {
					nf, s := connFault(r, 4, false)
					sc.Net = append(sc.Net, nf...)
					sc.Srv = append(sc.Srv, s...)
				}
			}
			return sc
		},
		Run: runPool})
}

// How a goroutine of R08 uses the pool (Op.F): Get and Put of its own, or one of the
// pool's calls which return the connection themselves.
const (
	poolGet = iota
	poolExec
	poolExecErr
	poolExecPanic
	poolCommand
)

// poolCmd is a command that notes its outcome.
type poolCmd struct {
	redis.StringCommand
	parsed, failed int
}

func (c *poolCmd) Parse(m redis.Message) { c.parsed++; c.StringCommand.Parse(m) }
func (c *poolCmd) Error(err error)       { c.failed++; c.StringCommand.Error(err) }

// runPool drives redis.Pool itself.
func runPool(e *Env) {
	s := e.sim(false)
	e.addNet()
	e.addServer()
	size := int(e.cfg("pool"))
	held := map[*redis.Conn]int{}
	var freeSince int64 // since when fewer than size connections are in use
	bigHeld := 0
	e.Net.OnOpen = func(*simnet.Conn) {
		n := 0
		for _, c := range e.Net.Conns {
			if !c.ClosedByClient() {
				n++
			}
		}
		bigHeld = max(bigHeld, n)
	}
	take := func(c *redis.Conn, th int) {
		if c == nil {
			e.Fail("nil-connection", "acquiring a connection reported success without one")
			return
		}
		if o, dup := held[c]; dup {
			e.Fail("stolen", "a connection held by goroutine %d was handed to goroutine %d", o, th)
		}
		held[c] = th
		s.Note("got", th)
	}
	leave := func(c *redis.Conn) {
		if len(held) >= size {
			freeSince = s.Now()
		}
		delete(held, c)
		s.Note("put")
	}
	drop := func(p *redis.Pool, c *redis.Conn) {
		leave(c)
		p.Put(c)
	}
	closed := false
	closing := e.cfg("closing") > 0
	e.main(func() {
		p := &redis.Pool{}
		p.Init(size, addr)
		var fns []func()
		for t, ops := range e.Sc.Threads {
			fns = append(fns, func() {
				for _, o := range ops {
					if wait(s, o) {
						continue
					}
					if o.C == "close" {
						_ = p.Close()
						continue
					}
					if closing && o.C == "get" {
						continue // with the pool closed meanwhile it may never be served
					}
					start := s.Now()
					ctx, end, cancel := context.Background(), int64(math.MaxInt64), func() {}
					switch o.C {
					case "get-timeout":
						end = start + o.N
						c, f := context.WithTimeout(context.Background(), time.Duration(o.N))
						ctx, cancel = c, f
					case "get-cancel":
						end = start + o.N
						c, f := context.WithCancel(context.Background())
						ctx, cancel = c, f
						if o.N == 0 {
							f()
						} else {
							rt.Go(func() { rt.Sleep(o.N); f() })
						}
					}
					before := fired(e)
					var c *redis.Conn
					var err error
					use := func() {
						if len(o.A) > 0 {
							_, _ = c.SendAndWaitReply(redis.ConvertToMessage("echo", fmt.Sprint("h", t)))
						}
						rt.Sleep(o.M)
					}
					ran := false
					mode := int(o.F)
					switch mode {
					case poolGet:
						c, err = p.Get(ctx)
					case poolCommand:
						cmd := &poolCmd{StringCommand: redis.StringCommand{BaseCommand: redis.NewBaseCommand("echo", fmt.Sprint("h", t))}}
						seat := &redis.Conn{} // the connection it may hold meanwhile
						held[seat] = t
						p.ExecCommand(ctx, cmd)
						leave(seat)
						if cmd.parsed+cmd.failed != 1 {
							e.Fail("no-outcome", "executing a command on the pool gave it %d results and %d errors", cmd.parsed, cmd.failed)
						}
						v, er := cmd.Result()
						if er == nil && v != fmt.Sprint("h", t) {
							e.Fail("other-reply", "echoing %q on the pool returned %q", fmt.Sprint("h", t), v)
						}
						if err = er; err == nil || fired(e) > 0 {
							ran = true // or a fault may have failed it
						}
					default:
						mine := fmt.Errorf("the handler's error")
						want := error(nil)
						if mode == poolExecErr {
							want = mine
						}
						err = func() (err error) {
							defer func() {
								if mode == poolExecPanic {
									if x := recover(); x == "the handler's panic" {
										err = nil
									} else if x != nil {
										panic(x)
									}
								}
							}()
							return p.Exec(ctx, func(x *redis.Conn) error {
								ran, c = true, x
								take(x, t)
								use()
								leave(x)
								if mode == poolExecPanic {
									panic("the handler's panic")
								}
								return want
							})
						}()
						if ran && err != want {
							e.Fail("other-error", "a handler that returned %v made Exec return %v", want, err)
						}
					}
					now := s.Now()
					if ran {
						cancel()
						continue
					}
					if err == nil && mode != poolGet {
						e.Fail("not-run", "executing on the pool reported success without running")
					}
					if end < now && now-end > 500*ms && fired(e) == 0 {
						e.Fail("late", "acquiring returned %.3f s after its context had ended", float64(now-end)/1e9)
					}
					if err != nil {
						if c != nil {
							if _, dup := held[c]; dup {
								e.Fail("stolen", "a failed acquisition returned a connection somebody else holds")
							}
						}
						if closing {
						} else if fired(e) == 0 || (fired(e) == before && fired(e, "dial-refused", "max-clients") == 0) {
							if now < end {
								e.Fail("early-error", "acquiring failed before its context ended and without a fault: %v", err)
							} else if len(held) < size && freeSince >= 0 && now-max(start, freeSince) > sec {
								e.Fail("starved", "acquiring failed at its context's end although connections had been free for %.3f s", float64(now-max(start, freeSince))/1e9)
							}
						}
						cancel()
						continue
					}
					take(c, t)
					use()
					drop(p, c)
					cancel()
				}
			})
		}
		par(fns...)
		if e.class != "" {
			return
		}
		e.Net.Off, e.D.Off = s.Now(), s.Now()
		// all of them can be held at once: none was leaked
		var got []*redis.Conn
		for i := 0; i < size; i++ {
			ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
			c, err := p.Get(ctx)
			cancel()
			if err != nil {
				e.Fail("leaked", "with every connection returned, only %d of %d could be acquired: %v", i, size, err)
				return
			}
			take(c, -1)
			got = append(got, c)
		}
		own := int(e.cfg("ownclose"))
		for i, c := range got {
			if i < own {
				_ = c.Close() // by its user; closing it again is an error
				if e.cfg("unusable") != 0 {
					_, _ = c.SendAndWaitReply(redis.ConvertToMessage("echo", "x")) // and notices
				}
			}
			drop(p, c)
		}
		if err := p.Close(); err != nil && own == 0 {
			e.Fail("close-error", "closing an idle pool failed: %v", err)
		}
		closed = true
		rt.Sleep(sec)
	})
	if e.class != "" {
		return
	}
	if bigHeld > size {
		e.Fail("too-many", "a pool of %d held %d connections at once", size, bigHeld)
	}
	if closed {
		for _, c := range e.Net.Conns {
			if !c.ClosedByClient() {
				e.Fail("not-closed", "connection %d is still open after the pool was closed", c.ID)
			}
		}
	}
}
