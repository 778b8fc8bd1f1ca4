package model

import (
	"bytes"
	"encoding/binary"
	"hash/crc64"
	"math"
	"math/rand/v2"
	"sort"
	"strconv"
)

// An independent encoder of Redis snapshot files (RDB), written from the file format and
// using every encoding of every type the loader under test claims to support.

type RDBOpt struct {
	Rich     bool  // use rare encodings and lengths
	Offset   int64 // repl-offset aux field, -1: none
	NoResize bool
	Version  int
}

// RDBMark remembers where the parts of a snapshot lie.
type RDBMark struct {
	Off  int
	What string
}

type rdbw struct {
	b     bytes.Buffer
	r     *rand.Rand
	rich  bool
	marks []RDBMark
	used  map[string]int
}

func (w *rdbw) use(s string) { w.used[s]++ }

func (w *rdbw) length(n uint64) {
	form := 0
	switch {
	case n < 64:
		form = 6
	case n < 16384:
		form = 14
	case n <= math.MaxUint32:
		form = 32
	default:
		form = 64
	}
	if w.rich && w.r.IntN(6) == 0 {
		fs := []int{6, 14, 32, 64}
		f := fs[w.r.IntN(4)]
		if f > form {
			form = f
		}
	}
	w.use("len" + strconv.Itoa(form))
	switch form {
	case 6:
		w.b.WriteByte(byte(n))
	case 14:
		w.b.WriteByte(0x40 | byte(n>>8))
		w.b.WriteByte(byte(n))
	case 32:
		w.b.WriteByte(0x80)
		_ = binary.Write(&w.b, binary.BigEndian, uint32(n))
	case 64:
		w.b.WriteByte(0x81)
		_ = binary.Write(&w.b, binary.BigEndian, n)
	}
}

// str writes a string object in some encoding that holds it.
func (w *rdbw) str(s string) {
	if n, ok := parseInt(s); ok && len(s) <= 11 && (!w.rich || w.r.IntN(4) != 0) {
		switch {
		case n >= -128 && n <= 127:
			w.use("int8")
			w.b.WriteByte(0xC0)
			w.b.WriteByte(byte(int8(n)))
			return
		case n >= -32768 && n <= 32767:
			w.use("int16")
			w.b.WriteByte(0xC1)
			_ = binary.Write(&w.b, binary.LittleEndian, int16(n))
			return
		case n >= math.MinInt32 && n <= math.MaxInt32:
			w.use("int32")
			w.b.WriteByte(0xC2)
			_ = binary.Write(&w.b, binary.LittleEndian, int32(n))
			return
		}
	}
	if len(s) > 20 && (!w.rich || w.r.IntN(3) != 0) {
		if c := lzfCompress([]byte(s)); len(c) < len(s)-4 || (w.rich && w.r.IntN(4) == 0) {
			w.use("lzf")
			w.b.WriteByte(0xC3)
			w.length(uint64(len(c)))
			w.length(uint64(len(s)))
			w.b.Write(c)
			return
		}
	}
	w.use("raw")
	w.length(uint64(len(s)))
	w.b.WriteString(s)
}

// lzfCompress produces the LZF format: literal runs and back references.
func lzfCompress(in []byte) []byte {
	var out []byte
	var lit []byte
	flush := func() {
		for len(lit) > 0 {
			n := min(len(lit), 32)
			out = append(out, byte(n-1))
			out = append(out, lit[:n]...)
			lit = lit[n:]
		}
		lit = nil
	}
	last := map[[3]byte]int{}
	for i := 0; i < len(in); {
		if i+2 < len(in) {
			k := [3]byte{in[i], in[i+1], in[i+2]}
			j, ok := last[k]
			last[k] = i
			if ok && i-j <= 8192 {
				n := 3
				for n < 264 && i+n < len(in) && in[j+n] == in[i+n] {
					n++
				}
				flush()
				off := i - j - 1
				l := n - 2
				if l < 7 {
					out = append(out, byte(l<<5|off>>8), byte(off))
				} else {
					out = append(out, byte(7<<5|off>>8), byte(l-7), byte(off))
				}
				i += n
				continue
			}
		}
		lit = append(lit, in[i])
		i++
	}
	flush()
	return out
}

func (w *rdbw) zlEntry(prev int, s string) []byte {
	var b bytes.Buffer
	if prev < 254 {
		b.WriteByte(byte(prev))
	} else {
		w.use("zl-prevlen5")
		b.WriteByte(254)
		_ = binary.Write(&b, binary.LittleEndian, uint32(prev))
	}
	if n, ok := parseInt(s); ok && len(s) <= 20 && (!w.rich || w.r.IntN(6) != 0) {
		switch {
		case n >= 0 && n <= 12:
			w.use("zl-imm")
			b.WriteByte(0xF1 + byte(n))
		case n >= -128 && n <= 127:
			w.use("zl-int8")
			b.WriteByte(0xFE)
			b.WriteByte(byte(int8(n)))
		case n >= -32768 && n <= 32767:
			w.use("zl-int16")
			b.WriteByte(0xC0)
			_ = binary.Write(&b, binary.LittleEndian, int16(n))
		case n >= -(1<<23) && n < 1<<23:
			w.use("zl-int24")
			b.WriteByte(0xF0)
			u := uint32(int32(n))
			b.Write([]byte{byte(u), byte(u >> 8), byte(u >> 16)})
		case n >= math.MinInt32 && n <= math.MaxInt32:
			w.use("zl-int32")
			b.WriteByte(0xD0)
			_ = binary.Write(&b, binary.LittleEndian, int32(n))
		default:
			w.use("zl-int64")
			b.WriteByte(0xE0)
			_ = binary.Write(&b, binary.LittleEndian, n)
		}
		return b.Bytes()
	}
	form := 6
	if len(s) >= 64 {
		form = 14
	}
	if len(s) >= 16384 {
		form = 32
	}
	if w.rich && w.r.IntN(8) == 0 {
		form = []int{14, 32}[w.r.IntN(2)]
		if len(s) >= 16384 {
			form = 32
		}
	}
	w.use("zl-str" + strconv.Itoa(form))
	switch form {
	case 6:
		b.WriteByte(byte(len(s)))
	case 14:
		b.WriteByte(0x40 | byte(len(s)>>8))
		b.WriteByte(byte(len(s)))
	case 32:
		b.WriteByte(0x80)
		_ = binary.Write(&b, binary.BigEndian, uint32(len(s)))
	}
	b.WriteString(s)
	return b.Bytes()
}

func (w *rdbw) ziplist(items []string) string {
	var body []byte
	prev, tail := 0, 10
	for _, s := range items {
		tail = 10 + len(body)
		e := w.zlEntry(prev, s)
		prev = len(e)
		body = append(body, e...)
	}
	var b bytes.Buffer
	_ = binary.Write(&b, binary.LittleEndian, uint32(10+len(body)+1))
	_ = binary.Write(&b, binary.LittleEndian, uint32(tail))
	_ = binary.Write(&b, binary.LittleEndian, uint16(min(len(items), math.MaxUint16)))
	b.Write(body)
	b.WriteByte(255)
	return b.String()
}

func (w *rdbw) intset(ns []int64) string {
	enc := 2
	for _, n := range ns {
		if n < math.MinInt32 || n > math.MaxInt32 {
			enc = 8
		} else if (n < math.MinInt16 || n > math.MaxInt16) && enc < 4 {
			enc = 4
		}
	}
	w.use("intset" + strconv.Itoa(enc*8))
	var b bytes.Buffer
	_ = binary.Write(&b, binary.LittleEndian, uint32(enc))
	_ = binary.Write(&b, binary.LittleEndian, uint32(len(ns)))
	for _, n := range ns {
		switch enc {
		case 2:
			_ = binary.Write(&b, binary.LittleEndian, int16(n))
		case 4:
			_ = binary.Write(&b, binary.LittleEndian, int32(n))
		case 8:
			_ = binary.Write(&b, binary.LittleEndian, n)
		}
	}
	return b.String()
}

func (w *rdbw) zipmap(h map[string]string, fs []string) string {
	var b bytes.Buffer
	l := func(n int) {
		if n < 254 {
			b.WriteByte(byte(n))
		} else {
			w.use("zipmap-len5")
			b.WriteByte(254)
			_ = binary.Write(&b, binary.LittleEndian, uint32(n))
		}
	}
	if len(fs) < 254 {
		b.WriteByte(byte(len(fs)))
	} else {
		b.WriteByte(254)
	}
	for _, f := range fs {
		l(len(f))
		b.WriteString(f)
		l(len(h[f]))
		free := 0
		if w.rich {
			free = w.r.IntN(4)
		}
		b.WriteByte(byte(free))
		b.WriteString(h[f])
		b.Write(make([]byte, free))
	}
	b.WriteByte(255)
	return b.String()
}

func (w *rdbw) asciiDouble(f float64) {
	switch {
	case math.IsInf(f, 1):
		w.b.WriteByte(254)
	case math.IsInf(f, -1):
		w.b.WriteByte(255)
	default:
		s := strconv.FormatFloat(f, 'g', 17, 64)
		w.b.WriteByte(byte(len(s)))
		w.b.WriteString(s)
	}
}

func scoreText(f float64) string {
	switch {
	case math.IsInf(f, 1):
		return "inf"
	case math.IsInf(f, -1):
		return "-inf"
	case f == math.Trunc(f) && math.Abs(f) < 1e15:
		return strconv.FormatInt(int64(f), 10)
	}
	return strconv.FormatFloat(f, 'g', 17, 64)
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func shuffled(r *rand.Rand, l []string) []string {
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}

func (w *rdbw) value(k string, v *RVal) {
	w.marks = append(w.marks, RDBMark{w.b.Len(), "key " + Quote(k)})
	if v.Exp != 0 {
		if v.Exp%1000 == 0 && v.Exp/1000 < 1<<32 && w.r.IntN(2) == 0 {
			w.use("expire-s")
			w.b.WriteByte(253)
			_ = binary.Write(&w.b, binary.LittleEndian, uint32(v.Exp/1000))
		} else {
			w.use("expire-ms")
			w.b.WriteByte(252)
			_ = binary.Write(&w.b, binary.LittleEndian, uint64(v.Exp))
		}
	}
	if w.rich {
		switch w.r.IntN(6) {
		case 0:
			w.use("freq")
			w.b.WriteByte(249)
			w.b.WriteByte(byte([]int{0, 255, w.r.IntN(256), w.r.IntN(256)}[w.r.IntN(4)]))
		case 1:
			w.use("idle")
			w.b.WriteByte(248)
			w.length([]uint64{0, 1, w.r.Uint64N(100000), w.r.Uint64N(1 << 40)}[w.r.IntN(4)])
		}
	}
	head := func(t int, name string) {
		w.use("type-" + name)
		w.b.WriteByte(byte(t))
		w.str(k)
	}
	switch v.Kind {
	case "string":
		head(0, "string")
		w.str(v.Str)
	case "list":
		switch w.r.IntN(3) {
		case 0:
			head(1, "list")
			w.length(uint64(len(v.List)))
			for _, x := range v.List {
				w.str(x)
			}
		case 1:
			head(10, "list-ziplist")
			w.str(w.ziplist(v.List))
		default:
			head(14, "list-quicklist")
			var nodes [][]string
			rest := v.List
			for len(rest) > 0 {
				n := 1 + w.r.IntN(len(rest))
				nodes = append(nodes, rest[:n])
				rest = rest[n:]
			}
			w.length(uint64(len(nodes)))
			for _, n := range nodes {
				w.str(w.ziplist(n))
			}
		}
	case "set":
		ints := true
		var ns []int64
		ks := sortedKeys(v.Set)
		for _, x := range ks {
			n, ok := parseInt(x)
			ints = ints && ok
			ns = append(ns, n)
		}
		if ints && w.r.IntN(4) != 0 {
			sort.Slice(ns, func(i, j int) bool { return ns[i] < ns[j] })
			head(11, "set-intset")
			w.str(w.intset(ns))
			return
		}
		head(2, "set")
		w.length(uint64(len(ks)))
		for _, x := range shuffled(w.r, ks) {
			w.str(x)
		}
	case "zset":
		ks := sortedKeys(v.Z)
		sort.SliceStable(ks, func(i, j int) bool { return v.Z[ks[i]] < v.Z[ks[j]] })
		switch w.r.IntN(3) {
		case 0:
			head(3, "zset")
			w.length(uint64(len(ks)))
			for _, m := range ks {
				w.str(m)
				w.asciiDouble(v.Z[m])
			}
		case 1:
			head(5, "zset2")
			w.length(uint64(len(ks)))
			for _, m := range ks {
				w.str(m)
				_ = binary.Write(&w.b, binary.LittleEndian, v.Z[m])
			}
		default:
			head(12, "zset-ziplist")
			var l []string
			for _, m := range ks {
				l = append(l, m, scoreText(v.Z[m]))
			}
			w.str(w.ziplist(l))
		}
	case "hash":
		fs := shuffled(w.r, sortedKeys(v.Hash))
		switch w.r.IntN(3) {
		case 0:
			head(4, "hash")
			w.length(uint64(len(fs)))
			for _, f := range fs {
				w.str(f)
				w.str(v.Hash[f])
			}
		case 1:
			head(9, "hash-zipmap")
			w.str(w.zipmap(v.Hash, fs))
		default:
			head(13, "hash-ziplist")
			var l []string
			for _, f := range fs {
				l = append(l, f, v.Hash[f])
			}
			w.str(w.ziplist(l))
		}
	case "stream":
		head(15, "stream")
		w.length(1)
		w.str("0123456789abcdef")
		w.str("listpack")
		for i := 0; i < 4; i++ {
			w.length(0)
		}
	case "module":
		head(7, "module")
		w.length(12345)
		w.length(0)
	case "newtype": // a type of a later Redis version
		head(18, "newtype")
		w.length(1)
		w.length(2)
		w.str("listpack")
	}
}

// EncodeRDB writes the snapshot of a keyspace. r decides among the encodings.
func EncodeRDB(st *Store, r *rand.Rand, o RDBOpt) (file []byte, marks []RDBMark, used map[string]int) {
	w := &rdbw{r: r, rich: o.Rich, used: map[string]int{}}
	ver := "0009"
	if o.Rich {
		ver = []string{"0006", "0007", "0008", "0009"}[r.IntN(4)]
	}
	w.b.WriteString("REDIS" + ver)
	aux := func(k, v string) {
		w.b.WriteByte(250)
		w.str(k)
		w.str(v)
	}
	w.marks = append(w.marks, RDBMark{w.b.Len(), "aux"})
	aux("redis-ver", "5.0.7")
	aux("redis-bits", "64")
	if o.Rich && r.IntN(2) == 0 {
		aux("ctime", strconv.Itoa(r.IntN(1<<31)))
		aux("used-mem", strconv.Itoa(800_000+r.IntN(1<<30)))
		if r.IntN(2) == 0 {
			aux([]string{"aof-preamble", "aof-base", "valkey-ver", ""}[r.IntN(4)], []string{"0", "1", "", "x"}[r.IntN(4)])
		}
	}
	if o.Rich && r.IntN(2) == 0 {
		aux("lua", "return redis.call('get', KEYS[1])")
	}
	if o.Offset >= 0 {
		aux("repl-stream-db", "0")
		aux("repl-id", "8371b4fb1155b71f4a04d3e1bc3e18c4a990aeeb")
		aux("repl-offset", strconv.FormatInt(o.Offset, 10))
	}
	if o.Rich && r.IntN(8) == 0 {
		w.use("module-aux")
		w.b.WriteByte(247)
		w.length(77)
		w.length(2)
		w.length(1)
		w.length(0)
	}
	for _, db := range st.DBs() {
		w.marks = append(w.marks, RDBMark{w.b.Len(), "select " + strconv.Itoa(db)})
		w.b.WriteByte(254)
		w.length(uint64(db))
		ks := st.Keys(db)
		if !o.NoResize {
			exp := 0
			for _, k := range ks {
				if st.DB[db][k].Exp != 0 {
					exp++
				}
			}
			w.b.WriteByte(251)
			w.length(uint64(len(ks)))
			w.length(uint64(exp))
		}
		for _, k := range shuffled(r, ks) {
			w.value(k, st.DB[db][k])
		}
	}
	w.marks = append(w.marks, RDBMark{w.b.Len(), "eof"})
	w.b.WriteByte(255)
	sum := make([]byte, 8)
	binary.LittleEndian.PutUint64(sum, redisCRC(w.b.Bytes()))
	w.b.Write(sum)
	w.marks = append(w.marks, RDBMark{w.b.Len(), "end"})
	return w.b.Bytes(), w.marks, w.used
}

var crcTab = crc64.MakeTable(0x95ac9329ac4bc9b5)

// redisCRC is the CRC-64 (Jones) of Redis: no inversion before or after.
func redisCRC(b []byte) uint64 { return ^crc64.Update(^uint64(0), crcTab, b) }
