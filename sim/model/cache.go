// Package model holds the reference models the simulated runs are judged against: a
// sequential cache with Redis semantics and a linearizability checker, a small Redis
// server, and an independent snapshot (RDB) encoder.
package model

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Op is one operation of a workload. The same form serves every scenario.
type Op struct {
	C string   `json:"c"`
	K string   `json:"k,omitempty"`
	A []string `json:"a,omitempty"`
	N int64    `json:"n,omitempty"`
	M int64    `json:"m,omitempty"`
	F float64  `json:"f,omitempty"`
}

// L1 maps bytes to runes one by one, so that any string survives JSON.
func L1(s string) string {
	r := make([]rune, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = rune(s[i])
	}
	return string(r)
}

func UnL1(s string) string {
	var b []byte
	for _, r := range s {
		b = append(b, byte(r))
	}
	return string(b)
}

type jsonOp Op

func (o Op) MarshalJSON() ([]byte, error) {
	o.K = L1(o.K)
	a := o.A
	o.A = nil
	for _, x := range a {
		o.A = append(o.A, L1(x))
	}
	return json.Marshal(jsonOp(o))
}

func (o *Op) UnmarshalJSON(b []byte) error {
	if err := json.Unmarshal(b, (*jsonOp)(o)); err != nil {
		return err
	}
	o.K = UnL1(o.K)
	for i := range o.A {
		o.A[i] = UnL1(o.A[i])
	}
	return nil
}

// Amount is what a float command adds: F, or what no JSON number can say.
func (o Op) Amount() float64 {
	switch o.M {
	case 1:
		return math.Inf(1)
	case 2:
		return math.Inf(-1)
	case 3:
		return math.NaN()
	}
	return o.F
}

func (o Op) String() string {
	s := o.C + "("
	if o.K != "" {
		s += strconv.Quote(o.K)
	}
	for _, a := range o.A {
		if len(a) > 60 {
			a = a[:60] + "..."
		}
		s += " " + strconv.Quote(a)
	}
	if o.N != 0 || o.M != 0 {
		s += fmt.Sprintf(" n=%d", o.N)
	}
	if o.M != 0 {
		s += fmt.Sprintf(" m=%d", o.M)
	}
	if o.F != 0 {
		s += fmt.Sprintf(" f=%v", o.F)
	}
	return s + ")"
}

// Rec is one completed operation of a history.
type Rec struct {
	Op     Op
	Thread int
	Res    string
	Call   int64 // event sequence numbers
	Ret    int64
	CallT  int64 // simulated ns
	RetT   int64
}

func (r Rec) String() string {
	return fmt.Sprintf("t%d [%d..%d] %.4fs..%.4fs %s -> %s", r.Thread, r.Call, r.Ret, float64(r.CallT)/1e9, float64(r.RetT)/1e9, r.Op, r.Res)
}

const (
	Nil = "(nil)"
	Err = "(error)"
)

// Quote marks a string result, so that it cannot be taken for Nil or Err.
func Quote(s string) string { return strconv.Quote(s) }

func Int(n int64) string { return strconv.FormatInt(n, 10) }

func Float(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

func FmtFloat(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

type val struct {
	str    string
	hash   map[string]string
	hasD   bool
	lo, hi int64 // the deadline lies in here

	sumOf string // the key sum was taken for; a value is not changed after that
	sum   *digest
}

type digest [2]uint64

func (v *val) clone() *val {
	n := *v
	n.sum = nil
	if v.hash != nil {
		n.hash = make(map[string]string, len(v.hash))
		for k, x := range v.hash {
			n.hash[k] = x
		}
	}
	return &n
}

type state map[string]*val

func (s state) clone() state {
	n := make(state, len(s))
	for k, v := range s {
		n[k] = v
	}
	return n
}

// edit returns a copy of s in which the value of k may be changed.
func (s state) edit(k string) (state, *val) {
	n := s.clone()
	v := n[k]
	if v != nil {
		v = v.clone()
		n[k] = v
	}
	return n, v
}

func (s state) with(k string, v *val) state { n := s.clone(); n[k] = v; return n }
func (s state) without(k string) state      { n := s.clone(); delete(n, k); return n }

// digest is a fingerprint of the state; equal states have equal ones.
func (s state) digest() (d digest) {
	for k, v := range s {
		if v.sum == nil || v.sumOf != k {
			v.sumOf, v.sum = k, v.digest(k)
		}
		d[0] += v.sum[0]
		d[1] += v.sum[1]
	}
	return d
}

func (v *val) digest(k string) *digest {
	h := sha256.New()
	put := func(s string) {
		var n [8]byte
		binary.LittleEndian.PutUint64(n[:], uint64(len(s)))
		h.Write(n[:])
		io.WriteString(h, s)
	}
	put(k)
	if v.hash != nil {
		fs := make([]string, 0, len(v.hash))
		for f := range v.hash {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		put("hash")
		for _, f := range fs {
			put(f)
			put(v.hash[f])
		}
	} else {
		put("str")
		put(v.str)
	}
	if v.hasD {
		put(fmt.Sprintf("@%d-%d", v.lo, v.hi))
	}
	b := h.Sum(nil)
	return &digest{binary.LittleEndian.Uint64(b), binary.LittleEndian.Uint64(b[8:])}
}

type outcome struct {
	res string
	st  state
}

func one(res string, st state) []outcome { return []outcome{{res, st}} }

// parseInt is Redis's string2ll: only the canonical decimal form is an integer.
func parseInt(s string) (int64, bool) {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil || strconv.FormatInt(n, 10) != s {
		return 0, false
	}
	return n, true
}

// addInt adds, fits is false when the sum is not an int64.
func addInt(a, b int64) (sum int64, fits bool) {
	sum = a + b
	return sum, (b >= 0) == (sum >= a)
}

func parseFloat(s string) (float64, bool) {
	if s == "" || strings.TrimSpace(s) != s || strings.ContainsAny(s, "_xXpP") {
		return 0, false
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsNaN(f) || math.IsInf(f, 0) {
		return 0, false
	}
	return f, true
}

// resolve decides, for every key with a deadline among keys, whether it has passed for an
// operation that takes effect between call and ret.
func (s state) resolve(keys []string, call, ret int64) []state {
	out := []state{s}
	done := map[string]bool{}
	for _, k := range keys {
		if done[k] {
			continue
		}
		done[k] = true
		var next []state
		for _, st := range out {
			v := st[k]
			if v == nil || !v.hasD {
				next = append(next, st)
				continue
			}
			if v.hi >= call { // still there
				if v.lo < call {
					n, w := st.edit(k)
					w.lo = call
					next = append(next, n)
				} else {
					next = append(next, st)
				}
			}
			if v.lo <= ret { // gone
				next = append(next, st.without(k))
			}
		}
		out = next
	}
	return out
}

// Keys lists the keys an operation touches.
func (o Op) Keys() []string {
	switch o.C {
	case "MSet", "MSetNX":
		var ks []string
		for i := 0; i+1 < len(o.A); i += 2 {
			ks = append(ks, o.A[i])
		}
		return ks
	case "MGet", "Exists":
		return o.A
	case "Flush":
		return nil
	}
	return []string{o.K}
}

func (s state) apply(o Op, call, ret int64) []outcome {
	if o.C == "Flush" {
		return one("ok", state{})
	}
	var out []outcome
	for _, st := range s.resolve(o.Keys(), call, ret) {
		out = append(out, st.step(o, call, ret)...)
	}
	return out
}

func clampRange(s string, start, end int64) string {
	n := int64(len(s))
	if start < 0 && end < 0 && start > end {
		return ""
	}
	if start < 0 {
		start += n
	}
	if end < 0 {
		end += n
	}
	start, end = max(start, 0), max(end, 0)
	end = min(end, n-1)
	if start > end || n == 0 {
		return ""
	}
	return s[start : end+1]
}

func (s state) step(o Op, call, ret int64) []outcome {
	v := s[o.K]
	isStr := v != nil && v.hash == nil
	isHash := v != nil && v.hash != nil
	put := func(str string) state { return s.with(o.K, &val{str: str}) }
	keep := func(str string) state { // in place: the deadline stays
		n, w := s.edit(o.K)
		if w == nil {
			w = &val{}
			n[o.K] = w
		}
		w.str = str
		return n
	}
	switch o.C {
	case "Set":
		return one("ok", put(o.A[0]))
	case "SetNX":
		if v != nil {
			return one("0", s)
		}
		return one("1", put(o.A[0]))
	case "SetEX", "PSetEX":
		unit := int64(1e9)
		if o.C == "PSetEX" {
			unit = 1e6
		}
		if o.N <= 0 {
			return one(Err, s)
		}
		d := int64(math.MaxInt64 / 4) // longer than any run
		if o.N < d/unit {
			d = o.N * unit
		}
		return one("ok", s.with(o.K, &val{str: o.A[0], hasD: true, lo: call + d, hi: ret + d}))
	case "Get":
		if v == nil {
			return one(Nil, s)
		}
		if isHash {
			return one(Err, s)
		}
		return one(Quote(v.str), s)
	case "GetSet":
		if isHash {
			return one(Err, s)
		}
		if v == nil {
			return one(Nil, put(o.A[0]))
		}
		return one(Quote(v.str), put(o.A[0]))
	case "StrLen":
		if isHash {
			return one(Err, s)
		}
		if v == nil {
			return one("0", s)
		}
		return one(Int(int64(len(v.str))), s)
	case "Append":
		if isHash {
			return one(Err, s)
		}
		t := o.A[0]
		if isStr {
			t = v.str + t
		}
		return one(Int(int64(len(t))), keep(t))
	case "SetRange":
		if isHash || o.N < 0 {
			return one(Err, s)
		}
		t := ""
		if isStr {
			t = v.str
		}
		if o.A[0] == "" {
			return one(Int(int64(len(t))), s)
		}
		if o.N > 1<<29-int64(len(o.A[0])) {
			return one(Err, s)
		}
		b := []byte(t)
		for int64(len(b)) < o.N+int64(len(o.A[0])) {
			b = append(b, 0)
		}
		copy(b[o.N:], o.A[0])
		return one(Int(int64(len(b))), keep(string(b)))
	case "GetRange":
		if isHash {
			return one(Err, s)
		}
		if v == nil {
			return one(Quote(""), s)
		}
		return one(Quote(clampRange(v.str, o.N, o.M)), s)
	case "Incr", "IncrBy", "Decr", "DecrBy":
		d := map[string]int64{"Incr": 1, "Decr": -1, "IncrBy": o.N, "DecrBy": -o.N}[o.C]
		if isHash {
			return one(Err, s)
		}
		n := int64(0)
		if isStr {
			var ok bool
			if n, ok = parseInt(v.str); !ok {
				return one(Err, s)
			}
		}
		if sum, fits := addInt(n, d); !fits || (o.C == "DecrBy" && o.N == math.MinInt64) {
			return one(Err, s)
		} else {
			return one(Int(sum), keep(Int(sum)))
		}
	case "IncrByFloat":
		if isHash {
			return one(Err, s)
		}
		f := 0.0
		if isStr {
			var ok bool
			if f, ok = parseFloat(v.str); !ok {
				return one(Err, s)
			}
		}
		if math.IsInf(f+o.Amount(), 0) || math.IsNaN(f+o.Amount()) {
			return one(Err, s)
		}
		return one(Float(f+o.Amount()), keep(FmtFloat(f+o.Amount())))
	case "Del":
		if v == nil {
			return one("0", s)
		}
		return one("1", s.without(o.K))
	case "Exists":
		n := 0
		for _, k := range o.A {
			if s[k] != nil {
				n++
			}
		}
		return one(Int(int64(n)), s)
	case "Type":
		switch {
		case v == nil:
			return one("none", s)
		case isHash:
			return one("hash", s)
		}
		return one("string", s)
	case "MSet":
		n := s.clone()
		for i := 0; i+1 < len(o.A); i += 2 {
			n[o.A[i]] = &val{str: o.A[i+1]}
		}
		return one("ok", n)
	case "MSetNX":
		n := s.clone()
		for i := 0; i+1 < len(o.A); i += 2 {
			if s[o.A[i]] != nil {
				return one("0", s)
			}
			n[o.A[i]] = &val{str: o.A[i+1]}
		}
		return one(Int(int64(len(o.A)/2)), n)
	case "MGet":
		var parts []string
		for _, k := range o.A {
			if w := s[k]; w == nil || w.hash != nil {
				parts = append(parts, Nil)
			} else {
				parts = append(parts, Quote(w.str))
			}
		}
		return one(strings.Join(parts, " "), s)
	}
	return s.stepHash(o, v)
}

func (s state) stepHash(o Op, v *val) []outcome {
	if v != nil && v.hash == nil {
		return one(Err, s)
	}
	h := map[string]string{}
	if v != nil {
		h = v.hash
	}
	edit := func(f func(m map[string]string)) state {
		n, w := s.edit(o.K)
		if w == nil {
			w = &val{hash: map[string]string{}}
			n[o.K] = w
		}
		f(w.hash)
		if len(w.hash) == 0 {
			delete(n, o.K)
		}
		return n
	}
	field := ""
	if len(o.A) > 0 {
		field = o.A[0]
	}
	old, has := h[field]
	switch o.C {
	case "HSet":
		r := "1"
		if has {
			r = "0"
		}
		return one(r, edit(func(m map[string]string) { m[field] = o.A[1] }))
	case "HSetNX":
		if has {
			return one("0", s)
		}
		return one("1", edit(func(m map[string]string) { m[field] = o.A[1] }))
	case "HGet":
		if !has {
			return one(Nil, s)
		}
		return one(Quote(old), s)
	case "HExists":
		if has {
			return one("1", s)
		}
		return one("0", s)
	case "HDel":
		n := 0
		st := edit(func(m map[string]string) {
			for _, f := range o.A {
				if _, ok := m[f]; ok {
					n++
					delete(m, f)
				}
			}
		})
		return one(Int(int64(n)), st)
	case "HLen":
		return one(Int(int64(len(h))), s)
	case "HStrLen":
		return one(Int(int64(len(old))), s)
	case "HIncrBy":
		n := int64(0)
		var extra []outcome
		if has {
			var ok bool
			if n, ok = parseInt(old); !ok {
				if old != "" {
					return one(Err, s)
				}
				extra = one(Err, s) // an empty field counts as zero here, as an error in Redis
			}
		}
		if _, fits := addInt(n, o.N); !fits {
			return one(Err, s)
		}
		return append(one(Int(n+o.N), edit(func(m map[string]string) { m[field] = Int(n + o.N) })), extra...)
	case "HIncrByFloat":
		f := 0.0
		var extra []outcome
		if has {
			var ok bool
			if f, ok = parseFloat(old); !ok {
				if old != "" {
					return one(Err, s)
				}
				extra = one(Err, s)
			}
		}
		if math.IsInf(f+o.Amount(), 0) || math.IsNaN(f+o.Amount()) {
			return one(Err, s)
		}
		return append(one(Float(f+o.Amount()), edit(func(m map[string]string) { m[field] = FmtFloat(f + o.Amount()) })), extra...)
	case "HMSet":
		n := 0
		st := edit(func(m map[string]string) {
			for i := 0; i+1 < len(o.A); i += 2 {
				if _, ok := m[o.A[i]]; !ok {
					n++
				}
				m[o.A[i]] = o.A[i+1]
			}
		})
		return one(Int(int64(n)), st)
	case "HMGet":
		var parts []string
		for _, f := range o.A {
			if x, ok := h[f]; ok {
				parts = append(parts, Quote(x))
			} else {
				parts = append(parts, Nil)
			}
		}
		return one(strings.Join(parts, " "), s)
	case "HKeys":
		var l []string
		for f := range h {
			l = append(l, f)
		}
		return one(SortedList(l), s)
	case "HVals":
		var l []string
		for _, x := range h {
			l = append(l, x)
		}
		return one(SortedList(l), s)
	case "HGetAll":
		return one(MapText(h), s)
	}
	panic("model: unknown operation " + o.C)
}

func SortedList(l []string) string {
	q := make([]string, len(l))
	for i, x := range l {
		q[i] = Quote(x)
	}
	sort.Strings(q)
	return "[" + strings.Join(q, " ") + "]"
}

func MapText(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, Quote(k)+":"+Quote(v))
	}
	sort.Strings(l)
	return "{" + strings.Join(l, " ") + "}"
}

// Linearizable reports whether some one-at-a-time order of the history, consistent with
// real time, gives every result. known is false when the search gave up.
func Linearizable(hist []Rec) (ok, known bool) {
	hist = splitReads(hist)
	single := true
	for _, r := range hist {
		if len(r.Op.Keys()) != 1 {
			single = false
		}
	}
	if !single {
		return linearize(hist)
	}
	parts := map[string][]Rec{}
	var ks []string
	for _, r := range hist {
		k := r.Op.Keys()[0]
		if parts[k] == nil {
			ks = append(ks, k)
		}
		parts[k] = append(parts[k], r)
	}
	known = true
	for _, k := range ks {
		o, kn := linearize(parts[k])
		if kn && !o {
			return false, true
		}
		known = known && kn
	}
	return true, known
}

// splitReads takes apart the reads of several keys in a history with deadlines. The clock
// goes on during such a read, so each key is as it was at an instant of its own: two reads
// that overlap can each find the other's second key expired. That no command of another
// goroutine comes in between is checked on histories without deadlines.
func splitReads(hist []Rec) []Rec {
	deadlines := false
	for _, r := range hist {
		deadlines = deadlines || r.Op.C == "SetEX" || r.Op.C == "PSetEX"
	}
	if !deadlines {
		return hist
	}
	var out []Rec
	for _, r := range hist {
		res := mgetResults(r)
		switch {
		case r.Op.C == "MGet" && len(r.Op.A) > 1 && len(res) == len(r.Op.A):
			for i, k := range r.Op.A {
				one := r
				one.Op.A, one.Res = []string{k}, res[i]
				out = append(out, one)
			}
		case r.Op.C == "Exists" && len(r.Op.A) > 1 && overlaps(hist, r):
			// a number only: nothing to hold against each key
		default:
			out = append(out, r)
		}
	}
	return out
}

func overlaps(hist []Rec, r Rec) bool {
	for _, q := range hist {
		if q.Call != r.Call && q.Call < r.Ret && r.Call < q.Ret {
			return true
		}
	}
	return false
}

func mgetResults(r Rec) (l []string) {
	for s := r.Res; s != "" && r.Op.C == "MGet"; s = strings.TrimPrefix(s, " ") {
		if strings.HasPrefix(s, Nil) {
			l, s = append(l, Nil), s[len(Nil):]
			continue
		}
		q, err := strconv.QuotedPrefix(s)
		if err != nil {
			return nil
		}
		l, s = append(l, q), s[len(q):]
	}
	return l
}

var pureRead = map[string]bool{"Get": true, "StrLen": true, "GetRange": true, "Type": true, "Exists": true, "MGet": true, "HGet": true,
	"HExists": true, "HLen": true, "HStrLen": true, "HMGet": true, "HKeys": true, "HVals": true, "HGetAll": true}

const maxNodes = 60000

func linearize(hist []Rec) (ok, known bool) {
	h := append([]Rec(nil), hist...)
	sort.SliceStable(h, func(i, j int) bool { return h[i].Call < h[j].Call })
	n := len(h)
	words := (n + 63) / 64
	seen := map[string]bool{}
	nodes := 0
	var dfs func(done []uint64, left int, st state) bool
	gaveUp := false
	dfs = func(done []uint64, left int, st state) bool {
		if left == 0 {
			return true
		}
		nodes++
		if nodes > maxNodes {
			gaveUp = true
			return false
		}
		sd := st.digest()
		var kb strings.Builder
		for _, w := range append(done[:len(done):len(done)], sd[:]...) {
			kb.WriteString(strconv.FormatUint(w, 36))
			kb.WriteByte(',')
		}
		k := kb.String()
		if seen[k] {
			return false
		}
		seen[k] = true
		minRet := int64(math.MaxInt64)
		for i := 0; i < n; i++ {
			if done[i/64]&(1<<(i%64)) == 0 && h[i].Ret < minRet {
				minRet = h[i].Ret
			}
		}
		// A read that fits here loses nothing by being put here: it leaves everything as
		// it is, and the others can follow as they would have without it.
		for i := 0; i < n; i++ {
			if !pureRead[h[i].Op.C] || done[i/64]&(1<<(i%64)) != 0 || h[i].Call > minRet {
				continue
			}
			for _, o := range st.apply(h[i].Op, h[i].CallT, h[i].RetT) {
				if o.res == h[i].Res && o.st.digest() == sd {
					d := append([]uint64(nil), done...)
					d[i/64] |= 1 << (i % 64)
					return dfs(d, left-1, o.st)
				}
			}
		}
		for i := 0; i < n; i++ {
			if done[i/64]&(1<<(i%64)) != 0 || h[i].Call > minRet {
				continue
			}
			for _, o := range st.apply(h[i].Op, h[i].CallT, h[i].RetT) {
				if o.res != h[i].Res {
					continue
				}
				d := append([]uint64(nil), done...)
				d[i/64] |= 1 << (i % 64)
				if dfs(d, left-1, o.st) {
					return true
				}
				if gaveUp {
					return false
				}
			}
		}
		return false
	}
	ok = dfs(make([]uint64, words), n, state{})
	return ok, !gaveUp
}
