// Package simnet is the simulated network: TCP connections between the code under test
// (blocking net.Conn side) and simulated servers (callback side). Bytes of one direction
// arrive in order, split and delayed as the simulator chooses; connections are refused,
// reset, closed, stalled, partitioned and timed out by a fault plan.
package simnet

import (
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"syscall"
	"time"

	"verifsim/rt"
)

// Fault is one planned fault of a run.
type Fault struct {
	Kind string `json:"kind"`
	Conn int    `json:"conn"`           // index in order of dialling
	Dir  string `json:"dir,omitempty"`  // s2c or c2s
	At   int64  `json:"at"`             // byte offset in the stream, or simulated ns
	Dur  int64  `json:"dur,omitempty"`  // simulated ns
	N    int64  `json:"n,omitempty"`    // of a drip: how many bytes from At on come in pieces
	Step int64  `json:"step,omitempty"` // of a drip: bytes in a piece, each Dur after the one before
	Arg  string `json:"arg,omitempty"`
}

func (f Fault) String() string {
	return fmt.Sprintf("%s conn=%d dir=%s at=%d dur=%s", f.Kind, f.Conn, f.Dir, f.At, time.Duration(f.Dur))
}

// Server accepts connections of one address.
type Server interface {
	Open(c *Conn)
	Data(c *Conn, b []byte)
	Closed(c *Conn, err error)
}

type Config struct {
	Latency   int64 // minimum one-way delay, ns
	Jitter    int64
	Fragment  bool
	MaxSeg    int
	TCPTO     int64 // unacknowledged data older than this aborts the connection
	SndBuf    int64
	DialTO    int64
	ShortRead bool
}

type Net struct {
	Cfg     Config
	Sim     *rt.Sim
	Servers map[string]Server
	Conns   []*Conn
	Dials   int
	DialAt  []int64 // when each began
	NoReply []int64 // when those began that got no answer because of a planned fault
	Faults  []Fault
	DownTo  int64            // server process down until
	AddrTo  map[string]int64 // the same of one server among several
	PartTo  int64            // partition until
	Open    int
	MaxOpen int
	Off     int64 // from this time on the faults of single connections no longer strike
	OnOpen  func(c *Conn)
}

func New(s *rt.Sim, cfg Config) *Net {
	if cfg.TCPTO == 0 {
		cfg.TCPTO = int64(900 * time.Second)
	}
	if cfg.SndBuf == 0 {
		cfg.SndBuf = 1 << 18
	}
	if cfg.DialTO == 0 {
		cfg.DialTO = int64(127 * time.Second)
	}
	n := &Net{Cfg: cfg, Sim: s, Servers: map[string]Server{}}
	s.Ext["net"] = n
	return n
}

// Plan installs the run's faults; the timed ones become events.
func (n *Net) Plan(fs []Fault) {
	n.Faults = append(n.Faults, fs...)
	for _, f := range fs {
		f := f
		switch f.Kind {
		case "down":
			n.Sim.At(f.At, func() { n.Down(f.Dur) })
		case "partition":
			n.Sim.At(f.At, func() { n.Partition(f.Dur) })
		case "down-addr": // the server at address Arg crashes and is back after Dur
			n.Sim.At(f.At, func() {
				n.Sim.Fire("server-restart")
				if n.AddrTo == nil {
					n.AddrTo = map[string]int64{}
				}
				n.AddrTo[f.Arg] = n.Sim.Now() + f.Dur
				for _, c := range n.Conns {
					if c.Addr == f.Arg {
						c.Abort(syscall.ECONNRESET)
					}
				}
			})
		case "rst-all":
			n.Sim.At(f.At, func() {
				for _, c := range n.Conns {
					if c.Alive() {
						n.Sim.Fire("connection-reset")
						c.Abort(syscall.ECONNRESET)
					}
				}
			})
		}
	}
}

// Down crashes the server process: every connection is reset and dials are refused until
// it is back.
func (n *Net) Down(d int64) {
	n.Sim.Fire("server-restart")
	n.DownTo = n.Sim.Now() + d
	for _, c := range n.Conns {
		c.Abort(syscall.ECONNRESET)
	}
}

func (n *Net) Partition(d int64) {
	n.Sim.Fire("partition")
	if t := n.Sim.Now() + d; t > n.PartTo {
		n.PartTo = t
	}
}

func Get() *Net {
	if rt.S == nil {
		return nil
	}
	n, _ := rt.S.Ext["net"].(*Net)
	return n
}

func opErr(op string, err error) error {
	if e, ok := err.(syscall.Errno); ok {
		err = os.NewSyscallError(op, e)
	}
	return &net.OpError{Op: op, Net: "tcp", Err: err}
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

type dir struct {
	queue     []func() // what is under way, in order
	last      int64    // delivery time of the last segment
	sent      int64
	delivered int64
	fin       bool
}

type Conn struct {
	ID       int
	Addr     string
	n        *Net
	srv      Server
	segs     [][]byte
	eof      bool
	err      error
	closed   bool // closed by the code under test
	srvGone  bool // the server side has been told
	rdl, wdl int64
	s2c, c2s dir
	Proc     int
	OpenedAt int64
	Dead     bool // owner process was killed
	UserData any
	GotBytes int64 // bytes the client has read
	reading  *rt.G
	Overlap  string
	Written  []byte // everything the client handed to the network
	Reads    []ReadAt
	Writes   []int64 // when the client called Write
	EndedAt  int64   // when the connection broke or the peer closed it
	Lost     bool    // received bytes were thrown away by a reset
}

// ReadAt says how many bytes the client had read at a time.
type ReadAt struct{ T, Got int64 }

func (c *Conn) Alive() bool { return !c.closed && c.err == nil && !c.srvGone }

// Dial connects to a simulated server.
func Dial(address string, timeout int64) (net.Conn, error) {
	n := Get()
	if n == nil {
		panic("simnet: dial without a simulated network: " + address)
	}
	s := n.Sim
	if s.Dead() {
		return nil, opErr("dial", syscall.EINTR)
	}
	rt.YS()
	idx := n.Dials
	n.Dials++
	n.DialAt = append(n.DialAt, n.Sim.Now())
	s.Note("dial", idx, address)
	to, limited := n.Cfg.DialTO, false
	if timeout > 0 && timeout < to {
		to, limited = timeout, true
	}
	fail := func(err error) (net.Conn, error) { return nil, opErr("dial", err) }
	timedOut := func() (net.Conn, error) {
		rt.Sleep(to)
		if limited {
			return nil, &net.OpError{Op: "dial", Net: "tcp", Err: os.ErrDeadlineExceeded}
		}
		return fail(syscall.ETIMEDOUT)
	}
	rtt := 2 * (n.Cfg.Latency + n.jit("dial"))
	for _, f := range n.Faults {
		if f.Conn != idx || n.off() {
			continue
		}
		switch f.Kind {
		case "dial-refuse":
			s.Fire("dial-refused")
			rt.Sleep(rtt)
			return fail(syscall.ECONNREFUSED)
		case "dial-timeout":
			s.Fire("dial-timeout")
			n.NoReply = append(n.NoReply, n.DialAt[idx])
			return timedOut()
		}
	}
	if n.PartTo > s.Now() {
		left := n.PartTo - s.Now()
		if left >= to {
			return timedOut()
		}
		rt.Sleep(left)
	}
	if rtt >= to {
		return timedOut()
	}
	rt.Sleep(rtt)
	srv := n.Servers[address]
	if srv == nil || n.DownTo > s.Now() || n.AddrTo[address] > s.Now() {
		return fail(syscall.ECONNREFUSED)
	}
	c := &Conn{ID: idx, Addr: address, n: n, srv: srv, Proc: s.Cur().Proc, OpenedAt: s.Now()}
	n.Conns = append(n.Conns, c)
	n.Open++
	if n.Open > n.MaxOpen {
		n.MaxOpen = n.Open
	}
	s.Note("open", c.ID)
	if n.OnOpen != nil {
		n.OnOpen(c)
	}
	srv.Open(c)
	return c, nil
}

func (n *Net) off() bool { return n.Off > 0 && n.Sim.Now() >= n.Off }

func (n *Net) jit(name string) int64 {
	if n.Cfg.Jitter <= 0 {
		return 0
	}
	return int64(n.Sim.Choose(name, func(r *rand.Rand) int {
		if r.IntN(8) == 0 {
			return int(r.Int64N(n.Cfg.Jitter*8) / 1000)
		}
		return int(r.Int64N(n.Cfg.Jitter) / 1000)
	})) * 1000
}

func (n *Net) faultsFor(c *Conn, d string) []Fault {
	var out []Fault
	if n.off() {
		return nil
	}
	for _, f := range n.Faults {
		if f.Conn == c.ID && f.Dir == d {
			out = append(out, f)
		}
	}
	return out
}

// transmit splits b into segments and schedules their delivery.
func (c *Conn) transmit(d *dir, name string, b []byte, deliver func(seg []byte), cut func(kind string)) {
	n := c.n
	fs := n.faultsFor(c, name)
	for len(b) > 0 {
		k := len(b)
		if n.Cfg.Fragment && k > 1 {
			v := n.Sim.Choose("seg-"+name, func(r *rand.Rand) int {
				switch r.IntN(4) {
				case 0:
					return 0
				case 1:
					return 1 + r.IntN(min(k, 4))
				}
				return 1 + r.IntN(k)
			})
			if v > 0 && v < k {
				k = v
			}
		}
		if n.Cfg.MaxSeg > 0 && k > n.Cfg.MaxSeg {
			k = n.Cfg.MaxSeg
		}
		delay := n.Cfg.Latency + n.jit("net-"+name)
		kind := ""
		gap := int64(0)
		for _, f := range fs {
			if f.Kind == "drip" && f.Step > 0 && f.At < d.sent+int64(k) && d.sent < f.At+f.N {
				if f.At > d.sent {
					k = int(f.At - d.sent)
				} else {
					n.Sim.Fire("drip-" + name)
					k = min(k, int(f.Step))
					gap = f.Dur
				}
				continue
			}
			if f.At < d.sent || f.At > d.sent+int64(k) {
				continue
			}
			switch f.Kind {
			case "stall":
				if f.At < d.sent+int64(k) {
					if f.At > d.sent {
						k = int(f.At - d.sent)
					} else {
						n.Sim.Fire("stall-" + name)
						delay += f.Dur
					}
				}
			case "rst", "fin":
				if f.At < d.sent+int64(k) || (f.At == d.sent+int64(k) && k > 0) {
					k = int(f.At - d.sent)
					kind = f.Kind
				}
			}
			if k == 0 {
				break
			}
		}
		seg := append([]byte(nil), b[:k]...)
		b = b[k:]
		d.sent += int64(k)
		at := max(n.Sim.Now()+delay+gap, d.last+gap+1)
		d.last = at
		if kind != "" {
			c.schedule(d, at, func() {
				if len(seg) > 0 {
					deliver(seg)
					d.delivered += int64(len(seg))
				}
				cut(kind)
			})
			return
		}
		c.schedule(d, at, func() { deliver(seg); d.delivered += int64(len(seg)) })
		mark := d.sent
		n.Sim.At(n.Sim.Now()+n.Cfg.TCPTO, func() {
			if d.delivered < mark && c.err == nil && !c.closed && !c.Dead {
				n.Sim.Fire("tcp-timeout")
				c.Abort(syscall.ETIMEDOUT)
			}
		})
	}
}

// schedule runs fn at t, or when the partition then in force heals, after everything
// scheduled before in the same direction.
func (c *Conn) schedule(d *dir, t int64, fn func()) {
	d.queue = append(d.queue, fn)
	c.arrive(d, t)
}

func (c *Conn) arrive(d *dir, t int64) {
	c.n.Sim.At(t, func() {
		if c.n.PartTo > c.n.Sim.Now() {
			c.arrive(d, c.n.PartTo)
			return
		}
		next := d.queue[0]
		d.queue = d.queue[1:]
		next()
	})
}

// ServerSend transmits bytes from the server to the client.
func (c *Conn) ServerSend(b []byte) {
	if c.err != nil || c.srvGone || c.s2c.fin {
		return
	}
	c.transmit(&c.s2c, "s2c", b, func(seg []byte) {
		if c.err == nil && !c.closed {
			c.segs = append(c.segs, seg)
			c.n.Sim.Note("rx", c.ID, len(seg))
		}
	}, c.cut)
}

func (c *Conn) cut(kind string) {
	if c.eof || c.err != nil {
		return
	}
	if kind == "fin" {
		c.n.Sim.Fire("connection-eof")
		c.eof = true
		c.s2c.fin = true
		c.serverSide(io.EOF)
		return
	}
	c.n.Sim.Fire("connection-reset")
	c.Abort(syscall.ECONNRESET)
}

// ServerClose closes the server side after what was sent has been delivered.
func (c *Conn) ServerClose() {
	if c.s2c.fin {
		return
	}
	c.s2c.fin = true
	at := max(c.n.Sim.Now()+c.n.Cfg.Latency, c.s2c.last+1)
	c.schedule(&c.s2c, at, func() { c.eof = true })
	c.serverSide(io.EOF)
}

// Abort breaks the connection for both sides at once.
func (c *Conn) Abort(err error) {
	if c.err != nil {
		return
	}
	c.err = err
	c.n.Sim.Note("abort", c.ID, err)
	c.serverSide(err)
}

func (c *Conn) serverSide(err error) {
	if !c.srvGone {
		c.srvGone = true
		c.EndedAt = c.n.Sim.Now()
		c.n.Open--
		c.srv.Closed(c, err)
	}
}

func (c *Conn) expired(dl int64) bool { return dl != 0 && c.n.Sim.Now() >= dl }

func (c *Conn) Read(p []byte) (int, error) {
	s := c.n.Sim
	if s.Dead() {
		return 0, opErr("read", syscall.EINTR)
	}
	rt.YS()
	if c.reading != nil && c.reading != s.Cur() {
		c.Overlap = fmt.Sprintf("two goroutines read connection %d at once", c.ID)
	}
	c.reading = s.Cur()
	if c.rdl != 0 {
		s.At(c.rdl, func() {})
	}
	rt.Park("net read", func() bool {
		return c.closed || len(c.segs) > 0 || c.eof || c.err != nil || c.expired(c.rdl)
	})
	rt.IOSync(true)
	c.reading = nil
	switch {
	case c.closed:
		return 0, opErr("read", net.ErrClosed)
	case c.expired(c.rdl):
		s.Probe("read-deadline")
		return 0, opErr("read", os.ErrDeadlineExceeded)
	case len(c.segs) > 0:
		if len(p) == 0 {
			return 0, nil
		}
		n := copy(p, c.segs[0])
		if n == len(c.segs[0]) {
			c.segs = c.segs[1:]
			// already delivered segments may be returned together
			for n < len(p) && len(c.segs) > 0 && s.Choose("coalesce", func(r *rand.Rand) int { return r.IntN(2) }) == 0 {
				k := copy(p[n:], c.segs[0])
				n += k
				if k == len(c.segs[0]) {
					c.segs = c.segs[1:]
				} else {
					c.segs[0] = c.segs[0][k:]
				}
			}
		} else {
			c.segs[0] = c.segs[0][n:]
		}
		c.GotBytes += int64(n)
		c.Reads = append(c.Reads, ReadAt{s.Now(), c.GotBytes})
		return n, nil
	case c.err != nil:
		return 0, opErr("read", c.err)
	}
	return 0, io.EOF
}

func (c *Conn) Write(p []byte) (int, error) {
	s := c.n.Sim
	if s.Dead() {
		return 0, opErr("write", syscall.EINTR)
	}
	rt.YS()
	rt.IOSync(false)
	c.Writes = append(c.Writes, s.Now())
	if c.wdl != 0 {
		s.At(c.wdl, func() {})
	}
	done := 0
	for {
		// a full send buffer takes more once a quarter of it is free, as a kernel does
		room := min(max(c.n.Cfg.SndBuf/4, 1), max(int64(len(p)-done), 1))
		rt.Park("net write", func() bool {
			return c.closed || c.err != nil || c.expired(c.wdl) || c.n.Cfg.SndBuf-(c.c2s.sent-c.c2s.delivered) >= room
		})
		switch {
		case c.closed:
			return done, opErr("write", net.ErrClosed)
		case c.err != nil:
			return done, opErr("write", syscall.EPIPE)
		case c.expired(c.wdl):
			s.Probe("write-deadline")
			return done, opErr("write", os.ErrDeadlineExceeded)
		}
		if done == len(p) {
			return done, nil
		}
		k := int(min(int64(len(p)-done), c.n.Cfg.SndBuf-(c.c2s.sent-c.c2s.delivered)))
		for _, f := range c.n.faultsFor(c, "c2s") {
			if f.Kind == "wshort" && f.At >= c.c2s.sent && f.At < c.c2s.sent+int64(k) {
				k = int(f.At - c.c2s.sent)
				s.Fire("short-write")
				chunk := p[done : done+k]
				c.Written = append(c.Written, chunk...)
				c.clientSend(chunk)
				c.Abort(syscall.ECONNRESET)
				return done + k, opErr("write", syscall.ECONNRESET)
			}
		}
		chunk := append([]byte(nil), p[done:done+k]...)
		c.Written = append(c.Written, chunk...)
		c.clientSend(chunk)
		done += k
		if done == len(p) {
			return done, nil
		}
	}
}

func (c *Conn) clientSend(b []byte) {
	if c.srvGone {
		// the peer has closed: it answers with a reset
		at := max(c.n.Sim.Now()+2*c.n.Cfg.Latency, c.c2s.last+1)
		c.n.Sim.At(at, func() {
			if c.err == nil {
				c.err = syscall.ECONNRESET
			}
		})
		return
	}
	c.n.Sim.Note("tx", c.ID, len(b))
	c.transmit(&c.c2s, "c2s", b, func(seg []byte) {
		if c.err == nil && !c.srvGone {
			c.srv.Data(c, seg)
		}
	}, c.cut)
}

// Close is the client's close: data already sent is still delivered, then FIN.
func (c *Conn) Close() error {
	s := c.n.Sim
	if s.Dead() {
		return nil
	}
	rt.YS()
	if c.closed {
		return opErr("close", net.ErrClosed)
	}
	rt.IOSync(false)
	c.closed = true
	s.Note("close", c.ID)
	c.finish()
	return nil
}

func (c *Conn) finish() {
	at := max(c.n.Sim.Now()+c.n.Cfg.Latency, c.c2s.last+1)
	c.schedule(&c.c2s, at, func() { c.serverSide(io.EOF) })
}

// ClosedByClient reports whether the code under test has closed its side (or can no
// longer use it: the connection broke).
func (c *Conn) ClosedByClient() bool { return c.closed }
func (c *Conn) Err() error           { return c.err }
func (c *Conn) Pending() int {
	n := 0
	for _, s := range c.segs {
		n += len(s)
	}
	return n
}
func (c *Conn) SentS2C() int64   { return c.s2c.sent }
func (c *Conn) InFlight() int64  { return c.s2c.sent - c.s2c.delivered }
func (c *Conn) UnsentC2S() int64 { return c.c2s.sent - c.c2s.delivered }

// KillProc closes the connections of a killed process as its kernel would.
func (n *Net) KillProc(p int) {
	for _, c := range n.Conns {
		if c.Proc == p && !c.closed {
			c.closed, c.Dead = true, true
			c.finish()
		}
	}
}

func (c *Conn) LocalAddr() net.Addr  { return addr(fmt.Sprintf("10.0.0.1:%d", 40000+c.ID)) }
func (c *Conn) RemoteAddr() net.Addr { return addr(c.Addr) }

func toNs(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	left := t.Sub(time.Unix(0, rt.S.Unix())).Nanoseconds()
	d := left + rt.S.Now()
	if left > 0 && d < left {
		d = left
	}
	if d <= 0 {
		d = 1
	}
	return d
}

func (c *Conn) SetDeadline(t time.Time) error {
	_ = c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	if c.n.Sim.Dead() {
		return nil
	}
	rt.YS()
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.rdl = toNs(t)
	if c.rdl != 0 {
		c.n.Sim.At(c.rdl, func() {})
	}
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	if c.n.Sim.Dead() {
		return nil
	}
	rt.YS()
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.wdl = toNs(t)
	if c.wdl != 0 {
		c.n.Sim.At(c.wdl, func() {})
	}
	return nil
}

// TCP options a program may set.
func (c *Conn) SetKeepAlive(bool) error                { return nil }
func (c *Conn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *Conn) SetNoDelay(bool) error                  { return nil }
func (c *Conn) SetLinger(int) error                    { return nil }
