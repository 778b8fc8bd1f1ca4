package model

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"

	"verifsim/rt"
	"verifsim/simnet"
)

// Exec is one command the simulated server executed.
type Exec struct {
	Conn  int
	DB    int
	Args  []string
	Reply string
	Sent  string // what was really sent back, when a fault replaced it
	T     int64
	Authd bool
}

// Ver is one version of a key of database 0: the value it holds from T on.
type Ver struct {
	T    int64
	Kind string // "" absent
	Str  string
}

type Ack struct {
	T    int64
	Off  int64
	Sent int64 // stream bytes handed to the network so far, plus the snapshot's offset
}

// Server is the simulated Redis: command execution, and the master side of replication.
type Server struct {
	Sim      *rt.Sim
	Net      *simnet.Net
	St       *Store
	Password string
	Log      []Exec
	Delay    int64 // processing time of a command is up to this
	Proto    []string
	Faults   []simnet.Fault

	Track bool
	Hist  map[string][]Ver

	RDB       RDBOpt
	RDBSeed   uint64
	KeepAlive int
	SnapDelay int64
	PingEvery int64
	ReplOff   int64
	Payload   func(b []byte) []byte // damage or replace the snapshot
	Replicas  []*Replica
	streamDB  int
	pinging   bool
	Used      map[string]int
	OnSync    func(r *Replica)
	Streamed  []StreamCmd
	NoPing    bool
	EOFMark   int   // where the last snapshot has its end marker
	Off       int64 // from this time on faults no longer strike
}

type StreamCmd struct {
	DB   int
	Args []string
	Off  int64 // stream offset after it
}

// Replica is one replication link.
type Replica struct {
	Conn     *simnet.Conn
	Base     int64
	Sent     int64 // stream bytes sent after the snapshot
	Ready    bool
	Gone     bool
	buf      []byte
	Payload  []byte
	Head     []byte
	StreamAt int64 // bytes of the connection before the stream
	SnapT    int64
	Acks     []Ack
	Marks    []RDBMark
	Snapshot *Store
}

type rconn struct {
	c      *simnet.Conn
	buf    []byte
	db     int
	authd  bool
	busy   int64
	nreply int64
	rep    *Replica
	open   bool
}

func NewServer(s *rt.Sim, n *simnet.Net, addr string) *Server {
	d := &Server{Sim: s, Net: n, St: NewStore(), Hist: map[string][]Ver{}, streamDB: -1, Used: map[string]int{}, RDB: RDBOpt{Offset: 0}}
	n.Servers[addr] = d
	return d
}

const EpochMs = int64(rt.Epoch) * 1000

func (d *Server) NowMs() int64 { return d.Sim.Unix() / 1e6 }

func (d *Server) Open(c *simnet.Conn) {
	rc := &rconn{c: c, open: true, authd: d.Password == ""}
	c.UserData = rc
	for _, f := range d.Faults {
		if f.Kind == "maxclients" && f.Conn == c.ID && !d.off() {
			d.Sim.Fire("max-clients")
			c.ServerSend([]byte("-ERR max number of clients reached\r\n"))
			c.ServerClose()
		}
	}
}

func (d *Server) Closed(c *simnet.Conn, err error) {
	rc := c.UserData.(*rconn)
	rc.open = false
	if rc.rep != nil {
		rc.rep.Gone = true
	}
}

func (d *Server) Data(c *simnet.Conn, b []byte) {
	rc := c.UserData.(*rconn)
	rc.buf = append(rc.buf, b...)
	for {
		args, n, err := ParseCmd(rc.buf)
		if err != nil {
			d.Proto = append(d.Proto, fmt.Sprintf("connection %d: %v", c.ID, err))
			c.ServerSend([]byte("-ERR Protocol error: " + err.Error() + "\r\n"))
			c.ServerClose()
			rc.buf = nil
			return
		}
		if n == 0 {
			return
		}
		rc.buf = rc.buf[n:]
		if len(args) == 0 {
			continue
		}
		delay := int64(0)
		if d.Delay > 0 {
			delay = int64(d.Sim.Choose("server", func(r *rand.Rand) int { return int(r.Int64N(d.Delay)/1000 + 1) })) * 1000
		}
		at := max(d.Sim.Now()+delay, rc.busy+1)
		rc.busy = at
		d.Sim.At(at, func() { d.run(rc, args) })
	}
}

// ParseCmd reads one command (an array of bulk strings) from the front of b.
func ParseCmd(b []byte) (args []string, n int, err error) {
	line := func(p int) (string, int) {
		i := bytes.Index(b[p:], []byte("\r\n"))
		if i < 0 {
			return "", -1
		}
		return string(b[p : p+i]), p + i + 2
	}
	if len(b) == 0 {
		return nil, 0, nil
	}
	if b[0] != '*' {
		return nil, 0, fmt.Errorf("expected '*', got %q", b[0])
	}
	s, p := line(1)
	if p < 0 {
		return nil, 0, nil
	}
	cnt, e := strconv.Atoi(s)
	if e != nil || cnt < 0 || cnt > 1<<20 {
		return nil, 0, fmt.Errorf("invalid multibulk length %q", s)
	}
	for i := 0; i < cnt; i++ {
		if p >= len(b) {
			return nil, 0, nil
		}
		if b[p] != '$' {
			return nil, 0, fmt.Errorf("expected '$', got %q", b[p])
		}
		var q int
		if s, q = line(p + 1); q < 0 {
			return nil, 0, nil
		}
		l, e := strconv.Atoi(s)
		if e != nil || l < 0 || l > 1<<29 {
			return nil, 0, fmt.Errorf("invalid bulk length %q", s)
		}
		if q+l+2 > len(b) {
			return nil, 0, nil
		}
		if string(b[q+l:q+l+2]) != "\r\n" {
			return nil, 0, fmt.Errorf("bulk string not terminated")
		}
		args = append(args, string(b[q:q+l]))
		p = q + l + 2
	}
	if args == nil {
		args = []string{}
	}
	return args, p, nil
}

func (d *Server) run(rc *rconn, args []string) {
	if !rc.open {
		return
	}
	c := strings.ToLower(args[0])
	if rc.rep != nil || c == "replconf" {
		if len(args) == 3 && c == "replconf" && strings.ToLower(args[1]) == "ack" && rc.rep != nil {
			n, err := strconv.ParseInt(args[2], 10, 64)
			if err != nil {
				n = -1
			}
			rc.rep.Acks = append(rc.rep.Acks, Ack{d.Sim.Now(), n, rc.rep.Base + rc.rep.Sent})
			d.Sim.Probe("ack")
			return
		}
		if rc.rep == nil {
			d.reply(rc, args, ROK)
		}
		return
	}
	var reply string
	switch {
	case c == "auth":
		switch {
		case d.Password == "":
			reply = "-ERR Client sent AUTH, but no password is set\r\n"
		case len(args) == 2 && args[1] == d.Password && !d.hit("authfail", rc):
			rc.authd = true
			reply = ROK
		default:
			reply = d.authError(rc)
		}
	case !rc.authd:
		reply = "-NOAUTH Authentication required.\r\n"
	case c == "ping" && d.hit("ping-error", rc):
		reply = "-MASTERDOWN Link with MASTER is down\r\n"
	case d.hit("loading", rc):
		reply = "-LOADING Redis is loading the dataset in memory\r\n"
	case c == "echo" && len(args) == 2:
		reply = RBulk(args[1])
	case c == "select":
		n, ok := int64(0), false
		if len(args) == 2 {
			n, ok = parseInt(args[1])
		}
		if !ok || n < 0 || n > 1<<20 {
			reply = "-ERR DB index is out of range\r\n"
		} else {
			rc.db = int(n)
			reply = ROK
		}
	case c == "sync" || c == "psync":
		d.sync(rc, args)
		return
	default:
		reply = d.Do(rc.db, args...)
	}
	d.reply(rc, args, reply)
}

func (d *Server) off() bool { return d.Off > 0 && d.Sim.Now() >= d.Off }

// authError is how the password is refused: different versions word it differently, and
// one that is still starting or was configured otherwise refuses as well.
func (d *Server) authError(rc *rconn) string {
	for _, f := range d.Faults {
		if f.Kind == "authfail" && f.Conn == rc.c.ID {
			return []string{"-WRONGPASS invalid username-password pair\r\n", "-ERR invalid password\r\n", "-ERR Client sent AUTH, but no password is set\r\n",
				"-LOADING Redis is loading the dataset in memory\r\n", "-ERR AUTH <password> called without any password configured for the default user\r\n"}[min(max(f.N, 0), 4)]
		}
	}
	return "-WRONGPASS invalid username-password pair\r\n"
}

func (d *Server) hit(kind string, rc *rconn) bool {
	if d.off() {
		return false
	}
	for _, f := range d.Faults {
		if f.Kind == kind && f.Conn == rc.c.ID {
			d.Sim.Fire(kind)
			return true
		}
	}
	return false
}

func (d *Server) reply(rc *rconn, args []string, reply string) {
	e := Exec{Conn: rc.c.ID, DB: rc.db, Args: args, Reply: reply, T: d.Sim.Now(), Authd: rc.authd}
	i := rc.nreply
	rc.nreply++
	d.Sim.Note("exec", rc.c.ID, strings.Join(args, " "))
	for _, f := range d.Faults {
		if f.Conn != rc.c.ID || f.At != i || d.off() {
			continue
		}
		switch f.Kind {
		case "garble":
			d.Sim.Fire("garbled-reply")
			e.Sent = Garble(f.Arg, strings.ToLower(args[0]), reply)
			d.Log = append(d.Log, e)
			rc.c.ServerSend([]byte(e.Sent))
			return
		case "noreply":
			d.Sim.Fire("no-reply")
			e.Sent = "(none)"
			d.Log = append(d.Log, e)
			return
		}
	}
	d.Log = append(d.Log, e)
	rc.c.ServerSend([]byte(reply))
}

// GarbleKinds are the ways a reply can be malformed at once (without waiting for more).
var GarbleKinds = []string{"proto", "badlen", "neglen", "badint", "nolen", "badarr", "html", "odd0", "odd1", "odd2"}

func Garble(kind, cmd, reply string) string {
	switch kind {
	case "odd0", "odd1", "odd2": // well formed, but not of the kind the command is answered with
		var l []string
		switch cmd {
		case "set", "setex", "psetex", "mset":
			l = []string{"+QUEUED\r\n", ":1\r\n", "*0\r\n"}
		case "strlen", "append", "setrange", "incr", "incrby", "decr", "decrby", "msetnx":
			l = []string{"+OK\r\n", "$3\r\nabc\r\n", "*0\r\n"}
		case "incrbyfloat":
			l = []string{"$3\r\nabc\r\n", "+QUEUED\r\n", "$0\r\n\r\n"}
		case "mget":
			l = []string{":1\r\n", "+QUEUED\r\n", "$3\r\nabc\r\n"}
		default: // those answered with one value
			l = []string{"*0\r\n", "*1\r\n$1\r\na\r\n", "*2\r\n$1\r\na\r\n:1\r\n"}
		}
		return l[kind[3]-'0']
	case "proto":
		return "?" + reply
	case "badlen":
		return "$x3\r\nabc\r\n"
	case "neglen":
		return "$-7\r\n"
	case "badint":
		return ":12a\r\n"
	case "nolen":
		return "$\r\n\r\n"
	case "badarr":
		return "*q\r\n"
	}
	return "HTTP/1.1 400 Bad Request\r\n\r\n"
}

// Do executes a command on the server itself (a client elsewhere) and feeds replicas.
func (d *Server) Do(db int, args ...string) string {
	if d.Track {
		d.purge()
	}
	reply, prop := d.St.Exec(db, args, d.NowMs())
	for _, p := range prop {
		d.Feed(db, p)
	}
	d.note()
	d.expirySweep()
	return reply
}

// Script runs a script that was called with database db selected and sets a key of
// database target, as masters that replicate scripts verbatim do.
func (d *Server) Script(db, target int, k, v, name string) {
	d.purge()
	d.St.db(target)[k] = &RVal{Kind: "string", Str: v}
	body := "redis.call('select',...) return redis.call('set',...)"
	switch strings.ToLower(name) {
	case "":
		name = "eval"
	case "evalsha":
		body = "4e6d8fc8bb01276962cce5371fa795a7763657ae"
	case "fcall":
		body = "setit"
	}
	d.Feed(db, []string{name, body, "0"})
	d.note()
}

// Store leaves v, or nothing, under a key and tells the replicas the command that did it.
func (d *Server) Store(db int, k string, v *RVal, args []string) {
	d.purge()
	if v == nil {
		delete(d.St.db(db), k)
	} else {
		d.St.db(db)[k] = v
	}
	d.Feed(db, args)
	d.note()
}

// note records the versions of the keys of database 0.
func (d *Server) note() {
	if !d.Track {
		return
	}
	now := d.Sim.Now()
	cur := d.St.db(0)
	for _, k := range d.St.Keys(0) {
		v := cur[k]
		kind, str := v.Kind, v.Str
		h := d.Hist[k]
		if len(h) == 0 || h[len(h)-1].Kind != kind || h[len(h)-1].Str != str {
			d.Hist[k] = append(h, Ver{now, kind, str})
		}
	}
	for k, h := range d.Hist {
		if cur[k] == nil && h[len(h)-1].Kind != "" {
			d.Hist[k] = append(h, Ver{now, "", ""})
		}
	}
}

// StartTracking records the dataset the run starts with.
func (d *Server) StartTracking() { d.Track = true; d.note(); d.expirySweep() }

// expirySweep deletes expired keys (as Redis does some time after their deadline) and
// tells the replicas.
func (d *Server) expirySweep() {
	if !d.Track {
		return
	}
	next := d.purge()
	d.note()
	if next != 0 {
		lag := int64(d.Sim.ChooseN("expiry", 500))
		d.Sim.At(d.Sim.FromUnix((next+1+lag)*1e6), d.expirySweep)
	}
}

// purge deletes the expired keys and returns the next deadline.
func (d *Server) purge() (next int64) {
	now := d.NowMs()
	for _, db := range d.St.DBs() {
		for _, k := range d.St.Keys(db) {
			v := d.St.DB[db][k]
			if v.Exp == 0 {
				continue
			}
			if v.Exp <= now {
				delete(d.St.DB[db], k)
				d.Feed(db, []string{"DEL", k})
				d.Sim.Probe("master-expired-key")
			} else if next == 0 || v.Exp < next {
				next = v.Exp
			}
		}
	}
	return
}

// Held reports whether a key of database 0 held the string str (or, with kind "", was no
// string) at some time in [from, to].
func (d *Server) Held(k, kind, str string, from, to int64) bool {
	h := d.Hist[k]
	if kind == "" && (len(h) == 0 || h[0].T > from) {
		return true
	}
	for i, v := range h {
		if v.T > to || (i+1 < len(h) && h[i+1].T < from) {
			continue
		}
		if (kind == "string") == (v.Kind == "string") && (kind == "" || v.Str == str) {
			return true
		}
	}
	return false
}

// Feed sends one write command to the replicas.
func (d *Server) Feed(db int, args []string) {
	if len(d.live()) == 0 {
		return
	}
	if db != d.streamDB {
		d.FeedRaw([]byte(EncodeCmd("SELECT", strconv.Itoa(db))))
		d.streamDB = db
	}
	d.FeedRaw([]byte(EncodeCmd(args...)))
	d.Streamed = append(d.Streamed, StreamCmd{db, args, d.ReplOff})
}

func (d *Server) live() (l []*Replica) {
	for _, r := range d.Replicas {
		if !r.Gone {
			l = append(l, r)
		}
	}
	return
}

// FeedRaw sends bytes on the replication stream.
func (d *Server) FeedRaw(b []byte) {
	d.ReplOff += int64(len(b))
	for _, r := range d.live() {
		if !r.Ready {
			r.buf = append(r.buf, b...)
			continue
		}
		r.Sent += int64(len(b))
		r.Conn.ServerSend(b)
	}
}

func (d *Server) ping() {
	if len(d.live()) == 0 || d.NoPing {
		d.pinging = false
		return
	}
	d.FeedRaw([]byte(EncodeCmd("PING")))
	d.Sim.After(d.PingEvery, d.ping)
}

func (d *Server) sync(rc *rconn, args []string) {
	d.Sim.Note("sync", rc.c.ID)
	for _, f := range d.Faults {
		if f.Kind == "sync-error" && (f.Conn == rc.c.ID || f.Conn < 0) && !d.off() {
			d.Sim.Fire("sync-error")
			msg := f.Arg
			if msg == "" {
				msg = "-ERR Can't SYNC while not connected with my master\r\n"
			}
			rc.c.ServerSend([]byte(msg))
			return
		}
	}
	r := &Replica{Conn: rc.c}
	rc.rep = r
	d.Replicas = append(d.Replicas, r)
	// the snapshot is taken now; it is sent later, followed by what was written meanwhile
	r.Base = d.ReplOff
	r.SnapT = d.Sim.Now()
	d.streamDB = -1
	r.Snapshot = d.St.Clone()
	o := d.RDB
	if o.Offset >= 0 {
		o.Offset = r.Base
	}
	var used map[string]int
	r.Payload, r.Marks, used = EncodeRDB(r.Snapshot, rand.New(rand.NewPCG(d.RDBSeed, 5)), o)
	for k, n := range used {
		d.Used[k] += n
	}
	for _, m := range r.Marks {
		if m.What == "eof" {
			d.EOFMark = m.Off
		}
	}
	if d.Payload != nil {
		r.Payload = d.Payload(r.Payload)
	}
	if d.OnSync != nil {
		d.OnSync(r)
	}
	gap := d.SnapDelay / int64(d.KeepAlive+1)
	for i := 1; i <= d.KeepAlive; i++ {
		d.Sim.After(gap*int64(i), func() {
			if !r.Gone {
				d.Sim.Probe("keepalive-newline")
				r.Conn.ServerSend([]byte("\n"))
			}
		})
	}
	d.Sim.After(d.SnapDelay+1, func() {
		if r.Gone {
			return
		}
		r.Head = []byte("$" + strconv.Itoa(len(r.Payload)) + "\r\n")
		r.Conn.ServerSend(append(append([]byte(nil), r.Head...), r.Payload...))
		r.Ready = true
		r.StreamAt = r.Conn.SentS2C()
		if len(r.buf) > 0 {
			r.Sent += int64(len(r.buf))
			r.Conn.ServerSend(r.buf)
			r.buf = nil
		}
		if d.PingEvery > 0 && !d.pinging {
			d.pinging = true
			d.Sim.After(d.PingEvery, d.ping)
		}
	})
}
