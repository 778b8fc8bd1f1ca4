package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"slices"
	"strconv"
	"strings"

	"github.com/liujiangwei/xxcache/redis"

	"verifsim/model"
	"verifsim/rt"
	"verifsim/simfs"
	"verifsim/simnet"
)

// script is a server that sends planned bytes and keeps what it receives.
type script struct {
	onOpen func(c *simnet.Conn)
	got    []byte
	conns  []*simnet.Conn
}

func (s *script) Open(c *simnet.Conn) {
	s.conns = append(s.conns, c)
	if s.onOpen != nil {
		s.onOpen(c)
	}
}
func (s *script) Data(c *simnet.Conn, b []byte)    { s.got = append(s.got, b...) }
func (s *script) Closed(c *simnet.Conn, err error) {}

// resp is a parsed protocol value: an independent reader of the encoding.
type resp struct {
	t    byte // + - : $ * or N for the null bulk string
	s    string
	arr  []resp
	size int
}

func parseResp(b string) (r resp, ok bool) {
	i := strings.Index(b, "\r\n")
	if len(b) == 0 || i < 0 {
		return
	}
	line := b[1:i]
	r.t = b[0]
	switch b[0] {
	case '+', '-', ':':
		r.s, r.size = line, i+2
		return r, true
	case '$':
		n, err := strconv.Atoi(line)
		if err != nil {
			return r, false
		}
		if n == -1 {
			return resp{t: 'N', size: i + 2}, true
		}
		if n < 0 || len(b) < i+2+n+2 {
			return r, false
		}
		r.s, r.size = b[i+2:i+2+n], i+2+n+2
		return r, true
	case '*':
		n, err := strconv.Atoi(line)
		if err != nil || n < 0 {
			return r, false
		}
		p := i + 2
		for j := 0; j < n; j++ {
			e, ok := parseResp(b[p:])
			if !ok {
				return r, false
			}
			r.arr = append(r.arr, e)
			p += e.size
		}
		r.size = p
		return r, true
	}
	return r, false
}

func (r resp) text() string {
	switch r.t {
	case 'N':
		return "null"
	case '*':
		var l []string
		for _, e := range r.arr {
			l = append(l, e.text())
		}
		return "[" + strings.Join(l, ", ") + "]"
	}
	return string(r.t) + model.Quote(r.s)
}

// message builds the library's own form of a value.
func (r resp) message() redis.Message {
	switch r.t {
	case 'N':
		return redis.NilMessage{}
	case '+':
		return redis.SimpleStringMessage(r.s)
	case '-':
		return redis.ErrorMessage(r.s)
	case ':':
		n, _ := strconv.Atoi(r.s)
		return redis.IntMessage(n)
	case '$':
		return redis.NewBulkStringMessage(r.s)
	}
	a := redis.ArrayMessage{}
	for _, e := range r.arr {
		a = append(a, e.message())
	}
	return a
}

// msgText describes a message the library returned.
func msgText(m redis.Message) string {
	switch v := m.(type) {
	case nil:
		return "(no message)"
	case redis.NilMessage, *redis.NilMessage:
		return "null"
	case redis.ArrayMessage:
		var l []string
		for _, e := range v {
			l = append(l, msgText(e))
		}
		return "[" + strings.Join(l, ", ") + "]"
	}
	return string(byte(m.Protocol())) + model.Quote(m.String())
}

func genBytes(r *rand.Rand, n int) string {
	b := make([]byte, n)
	switch r.IntN(4) {
	case 0:
		for i := range b {
			b[i] = byte(r.IntN(256))
		}
	case 1:
		al := "\r\n$*:+-1"
		for i := range b {
			b[i] = al[r.IntN(len(al))]
		}
	default:
		c := byte('a' + r.IntN(26))
		for i := range b {
			b[i] = c + byte(i%7)
		}
	}
	return string(b)
}

func bulkLen(r *rand.Rand, big bool) int {
	switch r.IntN(6) {
	case 0:
		return r.IntN(3)
	case 1:
		return 4096 + r.IntN(9) - 6
	case 2:
		if big {
			return pick(r, 8192, 16384, 65536, 70000, 10000) + r.IntN(5) - 2
		}
	case 3:
		return 4000 + r.IntN(600)
	}
	return r.IntN(60)
}

func genLine(r *rand.Rand) string {
	n := r.IntN(30)
	if chance(r, 1, 8) {
		n = 4080 + r.IntN(40)
	}
	if chance(r, 1, 25) {
		n = 9000
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(32 + r.IntN(95))
	}
	return string(b)
}

func genMsg(r *rand.Rand, depth int, big bool) string {
	switch k := r.IntN(9); {
	case k == 0:
		return "+" + genLine(r) + "\r\n"
	case k == 1:
		return "-ERR " + genLine(r) + "\r\n"
	case k == 2:
		return ":" + pick(r, "0", "1", "-1", "42", "9223372036854775807", "-9223372036854775808", strconv.Itoa(r.IntN(1000000))) + "\r\n"
	case k == 3:
		return "$-1\r\n"
	case k >= 7 && depth > 0:
		n := r.IntN(5)
		s := "*" + strconv.Itoa(n) + "\r\n"
		for i := 0; i < n; i++ {
			s += genMsg(r, depth-1, big)
		}
		return s
	}
	return model.RBulk(genBytes(r, bulkLen(r, big)))
}

func netCfg(r *rand.Rand) map[string]int64 {
	m := map[string]int64{"gap": pick(r, int64(20), 60, 200, 1000, 4000), "lat": pick(r, int64(20), 50, 200), "jit": pick(r, int64(0), 50, 500, 5000)}
	if chance(r, 3, 4) {
		m["frag"] = 1
	}
	if chance(r, 1, 8) {
		m["maxseg"] = pick(r, int64(1), 2, 7, 1460)
	}
	if chance(r, 1, 8) {
		m["stallp"], m["stallmax"] = 20, 5*ms
	}
	return m
}

// dribble keeps a run with one-byte segments affordable.
func dribble(sc *Scenario, total int) {
	if m := sc.Cfg["maxseg"]; m > 0 && int64(total)/m > 20000 {
		sc.Cfg["maxseg"] = int64(total) / 20000
	}
}

func recvAll(e *Env, conn *redis.Conn, max int) (msgs []string, err error) {
	var kept []redis.Message
	defer func() { // a message stays what it was when the next ones are received
		for i, m := range kept {
			if t := msgText(m); t != msgs[i] {
				e.Fail("message-changed", "message %d was %s when received and later became %s", i+1, short(msgs[i]), short(t))
			}
		}
	}()
	for i := 0; i < max; i++ {
		var m redis.Message
		m, err = conn.Recv()
		if err != nil {
			return
		}
		t := msgText(m)
		e.S.Note("msg", t)
		msgs, kept = append(msgs, t), append(kept, m)
	}
	return
}

// hugeMsg is an array of n elements or a string of n bytes.
func hugeMsg(kind int64, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + (i>>3+i>>16)%26)
	}
	switch kind {
	case 1:
		return "*" + strconv.Itoa(n) + "\r\n" + strings.Repeat(":1\r\n", n)
	case 2:
		m := "*" + strconv.Itoa(n) + "\r\n"
		var w strings.Builder
		w.WriteString(m)
		for i := 0; i < n; i++ {
			w.WriteString(model.RBulk(strconv.Itoa(i)))
		}
		return w.String()
	case 3:
		return "+" + string(b) + "\r\n"
	}
	return model.RBulk(string(b))
}

var wireReal = []string{"redis.Conn (conn.go, protocol.go) and bufio, instrumented"}
var wireStub = []string{"TCP connection: simulated (segmentation, delay, cuts)", "peer: scripted bytes"}

func init() {
	register(&Prop{ID: "R01", Quick: 36000, Thorough: 2160000, Real: wireReal, Stub: wireStub,
		Rule: "a case is a random sequence of 1-12 valid protocol messages (sizes clustered at buffer boundaries, binary payloads, nesting; in one of 700 one array of up to a million elements or one string of up to 16 MB) delivered under a random segmentation and delay while another goroutine sends messages of its own; non-trivial: three goroutine switches or more; distinct by messages and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			sc := &Scenario{Cfg: netCfg(r)}
			n := 1 + r.IntN(12)
			tot := 0
			for j := 0; j < n; j++ {
				m := genMsg(r, 3, chance(r, 1, 10))
				tot += len(m)
				sc.Setup = append(sc.Setup, op("msg", "", m))
			}
			var out []model.Op
			for j := r.IntN(6); j > 0; j-- {
				m := genMsg(r, 2, chance(r, 1, 10))
				tot += len(m)
				out = append(out, op("msg", "", m))
			}
			sc.Threads = [][]model.Op{out}
			dribble(sc, tot)
			if chance(r, 1, 700) { // one message far larger than the rest
				sc.Cfg["huge"] = pick(r, int64(1), 2, 3, 4, 4)
				sc.Cfg["hugen"] = int64(pick(r, 1<<15, 1<<16, 100_000, 1<<20, 1<<21, 8<<20) + r.IntN(3) - 1)
				if sc.Cfg["huge"] == 4 && chance(r, 1, 3) {
					sc.Cfg["hugen"] = int64(16<<20 + r.IntN(3))
				}
				if sc.Cfg["huge"] < 3 {
					sc.Cfg["hugen"] = min(sc.Cfg["hugen"], 100_001)
				}
				if sc.Cfg["huge"] == 1 && chance(r, 1, 3) {
					sc.Cfg["hugen"] = 1<<20 + 1 + r.Int64N(3)
				}
				sc.Cfg["hugeat"], sc.Cfg["hugeout"] = r.Int64N(12), r.Int64N(3)
				if sc.Cfg["huge"] < 3 && sc.Cfg["hugen"] > 200_000 {
					sc.Cfg["hugeout"] = 0 // writing an array takes time quadratic in its length
				}
				delete(sc.Cfg, "maxseg")
				delete(sc.Cfg, "stallp")
				sc.Cfg["gap"], sc.Cfg["maxsteps"] = 4000, 60_000_000+300*sc.Cfg["hugen"]
			}
			return sc
		},
		Run: func(e *Env) {
			setup, outs := e.Sc.Setup, []model.Op(nil)
			if len(e.Sc.Threads) > 0 {
				outs = e.Sc.Threads[0]
			}
			if e.cfg("huge") > 0 {
				if e.cfg("hugen") < 0 || e.cfg("maxseg") > 0 {
					return
				}
				m := hugeMsg(e.cfg("huge"), int(e.cfg("hugen")))
				if k := min(int(e.cfg("hugeat")), len(setup)); e.cfg("hugeout") != 1 {
					setup = slices.Insert(slices.Clone(setup), k, op("msg", "", m))
				}
				if e.cfg("hugeout") > 0 {
					outs = append(slices.Clone(outs), op("msg", "", m))
				}
			}
			s := e.sim(false)
			e.addNet()
			var in, want string
			var exp []string
			for _, o := range setup {
				in += o.A[0]
				v, ok := parseResp(o.A[0])
				if !ok || v.size != len(o.A[0]) {
					return
				}
				exp = append(exp, v.text())
			}
			srv := &script{onOpen: func(c *simnet.Conn) { c.ServerSend([]byte(in)) }}
			e.Net.Servers[addr] = srv
			var msgs []string
			var err error
			e.main(func() {
				conn, cerr := redis.Connect(addr)
				if cerr != nil {
					e.Fail("connect", "connecting to a reachable server failed: %v", cerr)
					return
				}
				par(func() { msgs, err = recvAll(e, conn, len(exp)) }, func() {
					for _, o := range outs {
						v, _ := parseResp(o.A[0])
						if se := conn.Send(v.message()); se != nil {
							e.Fail("send", "sending %s on a working connection failed: %v", short(o.A[0]), se)
						}
						want += o.A[0]
					}
				})
				rt.Sleep(60 * sec)
			})
			if e.class != "" {
				return
			}
			if err != nil {
				e.Fail("receive-error", "message %d of %d valid messages was not received: %v (expected %s)", len(msgs)+1, len(exp), err, short(exp[len(msgs)]))
			}
			for i := range msgs {
				if msgs[i] != exp[i] {
					e.Fail("receive-wrong", "message %d was sent as %s and received as %s", i+1, short(exp[i]), short(msgs[i]))
				}
			}
			if string(srv.got) != want {
				e.Fail("send-wrong", "%d bytes were to be sent, the peer got %d bytes that differ at %d", len(want), len(srv.got), diffAt(want, string(srv.got)))
			}
			_ = s
		}})

	register(&Prop{ID: "R02", Quick: 320000, Thorough: 4800000, Real: wireReal, Stub: wireStub,
		Rule: "a case is a random message sequence whose byte stream is cut (EOF or reset) at one byte position, or contains one malformed header or announces more than it delivers, under a random segmentation; non-trivial: the fault struck; distinct by case and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			sc := &Scenario{Cfg: netCfg(r)}
			n := 1 + r.IntN(6)
			tot := 0
			for j := 0; j < n; j++ {
				m := genMsg(r, 3, chance(r, 1, 20))
				tot += len(m)
				sc.Setup = append(sc.Setup, op("msg", "", m))
			}
			at := int64(r.IntN(tot + 1))
			if chance(r, 1, 2) { // close to the start or end of a message, or of its header
				p := 0
				for _, o := range sc.Setup[:r.IntN(n)] {
					p += len(o.A[0])
				}
				at = min(max(int64(p)+int64(r.IntN(24))-6, 0), int64(tot))
			}
			kind := pick(r, "fin", "fin", "rst")
			switch r.IntN(4) {
			case 0: // malformed, then the peer goes on or hangs up
				bad := pick(r, "?", "$x3\r\nabc\r\n", "$-7\r\n", ":12a\r\n", "$\r\n\r\n", "*q\r\n", "HTTP/1.1 400 Bad\r\n\r\n", "\x00\x00", "$1 \r\na\r\n", "*-5\r\n", ":\r\n", "$3\r\nabcd\r\n", "$0x3\r\nabc\r\n", "$+-3\r\nabc\r\n", "*1\r\n?x\r\n", "*2\r\n$1\r\na\r\n$z\r\n", "$99999999999999999999\r\n",
					"+OK\n", "+abc\rd\n", "-ERR x\n", ":12\n", ":123\n", "$34\nabc\r\n", "*12\n:1\r\n", "+\n", "$3\r\nabc\n\n", "$3\r\nabc\rX", "*1\r\n+OK\n",
					": 5\r\n", ":5 \r\n", "$ 3\r\nabc\r\n", "$3 \r\nabc\r\n", "* 1\r\n:1\r\n", "*1\t\r\n:1\r\n", ":0x10\r\n", ":1_0\r\n", ":1e3\r\n", ":1.0\r\n", ":\t5\r\n", ":99999999999999999999\r\n", ":-9223372036854775809\r\n", ":9223372036854775808\r\n", "*0x1\r\n:1\r\n", ":--5\r\n", "*99999999999999999999\r\n", ":5\x00\r\n")
				j := r.IntN(len(sc.Setup) + 1)
				sc.Setup = append(sc.Setup[:j:j], append([]model.Op{op("bad", "", bad)}, sc.Setup[j:]...)...)
				if chance(r, 1, 2) {
					sc.Setup = sc.Setup[:j+1]
				}
				sc.Cfg["fin"] = 1
			case 1: // announces far more than it sends
				big := pick(r, "$1000000000\r\nabc", "*1000000000\r\n:1\r\n", "*3\r\n$2000000000\r\n", "$536870912\r\n", "*100000000\r\n", "$9000000000000000000\r\nx", "*9000000000000000000\r\n$1\r\na\r\n")
				sc.Setup = append(sc.Setup, op("cutmsg", "", big))
				sc.Cfg["fin"] = pick(r, int64(1), 2)
			default:
				sc.Net = append(sc.Net, simnet.Fault{Kind: kind, Conn: 0, Dir: "s2c", At: at})
			}
			dribble(sc, tot)
			if chance(r, 1, 8000) { // arrays within arrays without end
				sc.Cfg["deep"] = pick(r, int64(1_500_000), 2_000_000, 3_000_000)
				sc.Cfg["maxsteps"] = 200_000_000
				sc.Cfg["fin"] = 1
				delete(sc.Cfg, "maxseg")
				sc.Net = nil
			}
			return sc
		},
		Run: func(e *Env) {
			deep := e.cfg("deep")
			if deep > 0 {
				// a quarter of the usual limit, so that running into it costs less memory
				defer debug.SetMaxStack(debug.SetMaxStack(256 << 20))
			}
			s := e.sim(false)
			e.addNet()
			var in string
			var exp []string
			cut := false // the expected messages are followed by something that is not one
			for _, o := range e.Sc.Setup {
				if o.C == "msg" && !cut {
					v, ok := parseResp(o.A[0])
					if !ok || v.size != len(o.A[0]) {
						return
					}
					exp = append(exp, v.text())
				} else {
					cut = true
				}
				in += o.A[0]
			}
			if deep > 0 {
				in, cut = in+strings.Repeat("*1\r\n", int(deep)), true
			}
			exact := true
			ends := cut || e.cfg("fin") != 0
			for _, f := range e.Sc.Net {
				if f.At <= int64(len(in)) {
					ends = true
					full := parseCount(e.Sc.Setup, f.At)
					if full < len(exp) {
						exp = exp[:full]
					}
					if f.Kind == "rst" {
						exact = false
					}
				}
			}
			if !ends {
				return
			}
			srv := &script{}
			srv.onOpen = func(c *simnet.Conn) {
				c.ServerSend([]byte(in))
				switch e.cfg("fin") {
				case 1:
					c.ServerClose()
				case 2:
					s.After(20*sec, func() { s.Fire("connection-reset"); c.Abort(fmt.Errorf("connection reset by peer")) })
				}
				if cut {
					s.Fire("malformed-or-short-message")
				}
			}
			e.Net.Servers[addr] = srv
			var msgs []string
			var err error
			var m0, m1 runtime.MemStats
			e.main(func() {
				conn, cerr := redis.Connect(addr)
				if cerr != nil {
					e.Fail("connect", "connecting to a reachable server failed: %v", cerr)
					return
				}
				runtime.ReadMemStats(&m0)
				msgs, err = recvAll(e, conn, len(exp)+1)
				runtime.ReadMemStats(&m1)
			})
			if e.class != "" {
				return
			}
			for i := range msgs {
				if i >= len(exp) {
					e.Fail("made-up", "after %d complete messages the stream broke, yet another message was received: %s", len(exp), short(msgs[i]))
				} else if msgs[i] != exp[i] {
					e.Fail("receive-wrong", "message %d was sent as %s and received as %s", i+1, short(exp[i]), short(msgs[i]))
				}
			}
			if err == nil {
				e.Fail("no-error", "the stream broke after %d complete messages, but no receive returned an error", len(exp))
			}
			if exact && len(msgs) < len(exp) {
				e.Fail("lost", "%d complete messages arrived before the stream broke, only %d were received: %v", len(exp), len(msgs), err)
			}
			if d := m1.TotalAlloc - m0.TotalAlloc; d > 48<<20+uint64(len(in))*200 {
				e.Fail("allocation", "%d MB were allocated while receiving a stream of %d bytes", d>>20, len(in))
			}
		}})
}

func parseCount(msgs []model.Op, at int64) int {
	p := int64(0)
	for i, o := range msgs {
		p += int64(len(o.A[0]))
		if p > at {
			return i
		}
	}
	return len(msgs)
}

func diffAt(a, b string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}

var _ = simfs.Fault{}
