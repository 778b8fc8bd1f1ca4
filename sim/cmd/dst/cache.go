package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand/v2"
	"strings"

	"github.com/liujiangwei/xxcache/cache"

	"verifsim/model"
	"verifsim/rt"
)

func errText(err error) string {
	if errors.Is(err, cache.ErrKeyNil) {
		return model.Nil
	}
	return model.Err
}

func strRes(s string, err error) string {
	if err != nil {
		return errText(err)
	}
	return model.Quote(s)
}

func okRes(s string, err error) string {
	if err != nil {
		return errText(err)
	}
	if s != "OK" {
		return model.Quote(s)
	}
	return "ok"
}

func intRes(n int, err error) string {
	if err != nil {
		return errText(err)
	}
	return model.Int(int64(n))
}

func floatRes(f float64, err error) string {
	if err != nil {
		return errText(err)
	}
	return model.Float(f)
}

func listRes(l []interface{}) string {
	var p []string
	for _, x := range l {
		switch v := x.(type) {
		case string:
			p = append(p, model.Quote(v))
		case error:
			p = append(p, model.Nil)
		default:
			p = append(p, fmt.Sprintf("?%T", x))
		}
	}
	return strings.Join(p, " ")
}

func pairs(a []string) map[string]string {
	m := map[string]string{}
	for i := 0; i+1 < len(a); i += 2 {
		m[a[i]] = a[i+1]
	}
	return m
}

// cacheDo applies one operation to the cache under test.
func cacheDo(c *cache.Cache, o model.Op) string { return (&owner{}).do(c, o) }

// owner is a caller that does as it likes with what it handed over or was given: the maps
// and lists are its own. It spoils them (1), or looks at the results again in the end (2).
type owner struct {
	mode int64
	long string // what every name of a key starts with, under the cache's eyes only
	kept []kept
}

type kept struct {
	op   model.Op
	text string
	now  func() string
}

func (w *owner) keep(o model.Op, f func() string) string {
	text := f()
	if w.mode == 2 {
		w.kept = append(w.kept, kept{o, text, f})
	}
	return text
}

func (w *owner) list(o model.Op, l []interface{}) string {
	text := w.keep(o, func() string { return listRes(l) })
	for i := 0; i < cap(l) && w.mode == 1; i++ {
		l[:cap(l)][i] = "spoilt"
	}
	return text
}

func (w *owner) strings(o model.Op, l []string) string {
	text := w.keep(o, func() string { return model.SortedList(l) })
	w.spoil(l)
	return text
}

func (w *owner) spoil(l []string) {
	for i := 0; i < cap(l) && w.mode == 1; i++ {
		l[:cap(l)][i] = "spoilt"
	}
}

func (w *owner) spoilMap(m map[string]string) {
	if w.mode != 1 {
		return
	}
	for k := range m {
		m[k] = "spoilt"
	}
	if m != nil {
		m["spoilt"] = "spoilt"
	}
}

// do applies one operation to the cache under test.
func (w *owner) do(c *cache.Cache, o model.Op) string {
	args := o.A
	switch o.C {
	case "Exists", "MGet":
		args = nil
		for _, k := range o.A {
			args = append(args, w.long+k)
		}
		defer w.spoil(args)
	case "HDel", "HMGet":
		args = append([]string(nil), o.A...)
		defer w.spoil(args)
	}
	if w.long != "" {
		o.K = w.long + o.K
	}
	var kv map[string]string
	switch o.C {
	case "MSet", "MSetNX", "HMSet":
		kv = pairs(o.A)
		if o.C != "HMSet" && w.long != "" {
			kv = map[string]string{}
			for k, v := range pairs(o.A) {
				kv[w.long+k] = v
			}
		}
		defer w.spoilMap(kv)
	}
	a := func(i int) string {
		if i < len(o.A) {
			return o.A[i]
		}
		return ""
	}
	switch o.C {
	case "Set":
		return okRes(c.Set(o.K, a(0)))
	case "SetNX":
		return intRes(c.SetNX(o.K, a(0)))
	case "SetEX":
		return okRes(c.SetEX(o.K, a(0), o.N))
	case "PSetEX":
		return okRes(c.PSetEX(o.K, a(0), o.N))
	case "Get":
		return strRes(c.Get(o.K))
	case "GetSet":
		return strRes(c.GetSet(o.K, a(0)))
	case "StrLen":
		return intRes(c.StrLen(o.K))
	case "Append":
		return intRes(c.Append(o.K, a(0)))
	case "SetRange":
		return intRes(c.SetRange(o.K, int(o.N), a(0)))
	case "GetRange":
		return strRes(c.GetRange(o.K, int(o.N), int(o.M)))
	case "Incr":
		return intRes(c.Incr(o.K))
	case "IncrBy":
		return intRes(c.IncrBy(o.K, o.N))
	case "IncrByFloat":
		return floatRes(c.IncrByFloat(o.K, o.Amount()))
	case "Decr":
		return intRes(c.Decr(o.K))
	case "DecrBy":
		return intRes(c.DecrBy(o.K, o.N))
	case "Del":
		return model.Int(int64(c.Del(o.K)))
	case "Exists":
		return model.Int(int64(c.Exists(args...)))
	case "Type":
		return c.Type(o.K)
	case "MSet":
		return okRes(c.MSet(kv), nil)
	case "MSetNX":
		return model.Int(int64(c.MSetNX(kv)))
	case "MGet":
		return w.list(o, c.MGet(args...))
	case "Flush":
		c.Flush()
		return "ok"
	case "HSet":
		return intRes(c.HSet(o.K, a(0), a(1)))
	case "HSetNX":
		return intRes(c.HSetNX(o.K, a(0), a(1)))
	case "HGet":
		return strRes(c.HGet(o.K, a(0)))
	case "HExists":
		return intRes(c.HExists(o.K, a(0)))
	case "HDel":
		return intRes(c.HDel(o.K, args...))
	case "HLen":
		return intRes(c.HLen(o.K))
	case "HStrLen":
		return intRes(c.HStrLen(o.K, a(0)))
	case "HIncrBy":
		return intRes(c.HIncrBy(o.K, a(0), int(o.N)))
	case "HIncrByFloat":
		return floatRes(c.HIncrByFloat(o.K, a(0), o.Amount()))
	case "HMSet":
		return intRes(c.HMSet(o.K, kv))
	case "HMGet":
		l, err := c.HMGet(o.K, args...)
		if err != nil {
			return errText(err)
		}
		return w.list(o, l)
	case "HKeys":
		l, err := c.HKeys(o.K)
		if err != nil {
			return errText(err)
		}
		return w.strings(o, l)
	case "HVals":
		l, err := c.HVals(o.K)
		if err != nil {
			return errText(err)
		}
		return w.strings(o, l)
	case "HGetAll":
		m, err := c.HGetAll(o.K)
		if err != nil {
			return errText(err)
		}
		defer w.spoilMap(m)
		return w.keep(o, func() string { return model.MapText(m) })
	}
	panic("harness: unknown cache operation " + o.C)
}

// profile says which operations and values a generated workload uses.
type profile struct {
	keys   []string
	ops    []string
	vals   []string
	fields []string
	floats bool
	ttl    int64 // shortest time to live in seconds; 0: any
	empty  bool  // lists of keys and fields may be empty
	nodup  bool  // no key twice in one command: its deadline may pass in between
	r      *rand.Rand
	n      int
	large  int // some values are this long or nearly so
}

var weird = []string{"", "a", "hello", "007", "+5", "-0", "0", "1e3", "1.50", "inf", "NaN", "0x10", " 5", "5 ", "9223372036854775807",
	"-9223372036854775808", "9223372036854775808", "123456789012345678901234567890", "1_000", "\x00\xff\r\n", "-12", "3.0", ".5", "5.", "1e400",
	"Infinity", "-inf", "0.1", "1.10", "1E5", "+Inf", "nan", "0b1", "0o7", "3.14159265358979323846", "1.0e-7", "-1.50", "00", "-00", "1e-400", "ünï",
	"2147483647", "2147483648", "-2147483649", "4294967295", "4294967296", "9007199254740993", "9223372036854775806", "18446744073709551615", "1e308", "123456789.123456789", "0.30000000000000004"}

var intVals = []string{"0", "1", "2147483647", "-2147483648", "9223372036854775806", "-9223372036854775808", "5", "10", "-3", "41", "99", "-100", "1000000", "x", "", "12a"}
var floatVals = []string{"0", "1", "1e308", "-1e308", "0.1", "1e17", "10", "-3", "3.0", "1.10", "1e2", "0.5", "-2.5", "2.25", "x", "100", "7.75", "+2", "5.", ".5", "-.5", "1E2", "00.5"}

func (p *profile) val() string {
	p.n++
	switch {
	case chance(p.r, 1, 5):
		return fmt.Sprintf("v%d", p.n)
	case chance(p.r, 1, 40):
		return strings.Repeat(pick(p.r, "z", "12", "\x01"), 20+p.r.IntN(200))
	case p.large > 0 && chance(p.r, 1, 3):
		return strings.Repeat(pick(p.r, "L", "\x00", "lm"), pick(p.r, 1<<15-1, 1<<15, 1<<16-1, 1<<16, 1<<16+1, 100_000, p.large))
	case chance(p.r, 1, 200):
		return strings.Repeat(pick(p.r, "y", "\x80", "1", "ab"), pick(p.r, 256, 1000, 1024, 4096, 5000, 10000))
	}
	return pick(p.r, p.vals...)
}

func (p *profile) key() string { return pick(p.r, p.keys...) }

func (p *profile) kv() (l []string) {
	ks := p.r.Perm(len(p.keys))
	n := 1 + p.r.IntN(len(ks))
	if n == 1 && len(ks) > 1 {
		n = 2
	}
	for _, i := range ks[:n] {
		l = append(l, p.keys[i], p.val())
	}
	return
}

func (p *profile) step() int64 {
	if chance(p.r, 1, 12) {
		return pick[int64](p.r, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 1<<32, 1<<53+1, -1<<40, math.MaxInt64-1)
	}
	return pick(p.r, int64(0), 1, 1, 2, -7, 10, 1000)
}

func (p *profile) fstep() float64 {
	if chance(p.r, 1, 12) {
		return pick(p.r, 1e308, -1e308, 1e17, 1e-7, 123456789.125, -0.25, 3e40)
	}
	return pick(p.r, 0.5, 1, -1.5, 2.25, 100, 0)
}

func (p *profile) op() model.Op {
	o := p.anyOp()
	if strings.HasSuffix(o.C, "IncrByFloat") && chance(p.r, 1, 12) {
		o.M = span(p.r, 1, 3) // infinite or not a number
	}
	if p.empty && chance(p.r, 1, 12) {
		switch o.C {
		case "MSet", "MSetNX", "MGet", "Exists", "HMSet", "HMGet", "HDel":
			o.A = nil
		}
	}
	return o
}

func (p *profile) anyOp() model.Op {
	r := p.r
	c := pick(r, p.ops...)
	o := model.Op{C: c, K: p.key()}
	f := func() string { return pick(r, p.fields...) }
	switch c {
	case "Set", "SetNX", "GetSet":
		o.A = []string{p.val()}
	case "Append":
		o.A = []string{pick(r, p.val(), "5", "0", ".5", "q", "")}
	case "SetEX":
		o.A, o.N = []string{p.val()}, span(r, 1, 3)
		if p.ttl > 0 {
			o.N = p.ttl + span(r, 0, 1000)
		}
		if chance(r, 1, 20) {
			o.N = oddTTL(r, 1e9)
		}
	case "PSetEX":
		o.A, o.N = []string{p.val()}, pick(r, int64(1), 2, 3, 5, 10, 100, 1000, 1500)
		if p.ttl > 0 {
			o.N = 1000*p.ttl + span(r, 0, 1000)
		}
		if chance(r, 1, 20) {
			o.N = oddTTL(r, 1e6)
		}
	case "SetRange":
		o.A, o.N = []string{pick(r, "", "q", "77", "long replacement")}, pick(r, int64(0), 1, 2, 5, 12, -1)
		if chance(r, 1, 20) {
			o.N = pick[int64](r, math.MaxInt64, math.MaxInt64-1, math.MinInt64, 1<<29, 1<<40, math.MaxInt64-15)
		}
		if p.large > 0 {
			o.N = pick(r, 0, 1<<15, 1<<16-1, 1<<16, 1<<16+1, 1<<17+1, span(r, 0, int64(p.large)))
		}
	case "GetRange":
		o.N, o.M = pick(r, int64(0), 1, 3, -1, -3, -100, 50), pick(r, int64(0), 2, 5, -1, -2, 100, -100)
		if chance(r, 1, 12) {
			o.N = pick[int64](r, math.MinInt64, math.MinInt64+1, math.MaxInt64, math.MinInt32)
		}
		if chance(r, 1, 12) {
			o.M = pick[int64](r, math.MinInt64, math.MinInt64+1, math.MaxInt64, math.MaxInt64-1, math.MaxInt32)
		}
		if p.large > 0 && chance(r, 2, 3) {
			o.N = pick(r, 0, 1<<16-2, 1<<16, -3, -1<<16, span(r, 0, int64(p.large)))
			o.M = pick(r, -1, 1<<16, 1<<16+1, 1<<17, span(r, 0, int64(p.large)))
		}
	case "IncrBy", "DecrBy":
		o.N = p.step()
	case "IncrByFloat":
		o.F = p.fstep()
	case "Exists", "MGet":
		o.K = ""
		n := 1 + r.IntN(min(3, len(p.keys)))
		if chance(r, 1, 4) {
			n = len(p.keys)
		}
		for _, i := range r.Perm(len(p.keys))[:n] {
			o.A = append(o.A, p.keys[i])
		}
		if chance(r, 1, 6) && !p.nodup {
			o.A = append(o.A, o.A[0])
		}
	case "MSet", "MSetNX":
		o.K = ""
		o.A = p.kv()
	case "Flush":
		o.K = ""
	case "HSet", "HSetNX":
		o.A = []string{f(), p.val()}
	case "HGet", "HExists", "HStrLen":
		o.A = []string{f()}
	case "HDel", "HMGet":
		n := 1 + r.IntN(len(p.fields))
		for _, i := range r.Perm(len(p.fields))[:n] {
			o.A = append(o.A, p.fields[i])
		}
		if chance(r, 1, 6) {
			o.A = append(o.A, o.A[0])
		}
	case "HIncrBy":
		o.A, o.N = []string{f()}, p.step()
	case "HIncrByFloat":
		o.A, o.F = []string{f()}, p.fstep()
	case "HMSet":
		n := 1 + r.IntN(len(p.fields))
		for _, i := range r.Perm(len(p.fields))[:n] {
			o.A = append(o.A, p.fields[i], p.val())
		}
	}
	return o
}

var stringOps = []string{"Set", "Set", "SetNX", "Get", "Get", "GetSet", "StrLen", "Append", "Append", "SetRange", "GetRange", "Incr", "IncrBy", "Decr", "DecrBy", "Del", "Exists", "Type"}
var hashOps = []string{"HSet", "HSet", "HSetNX", "HGet", "HExists", "HDel", "HDel", "HLen", "HLen", "HStrLen", "HIncrBy", "HMSet", "HMSet", "HMGet", "HKeys", "HVals", "HGetAll"}

// oddTTL is a time to live, in units of so many nanoseconds, which is not positive or
// which is longer than 292 years.
func oddTTL(r *rand.Rand, unit int64) int64 {
	top := math.MaxInt64 / unit
	return pick(r, 0, -1, -5, math.MinInt64, math.MaxInt64, top, top+1, 2*top+3, 2*top+3+span(r, 0, 1000), 2*top+2, 4*top+5)
}

func (p *profile) tune() {
	r := p.r
	switch r.IntN(3) {
	case 0:
		p.vals = weird
	case 1:
		p.vals = intVals
	default:
		p.vals = floatVals
		p.floats = true
	}
}

// rare makes a few cases unlike the others: long keys, large values.
func (p *profile) rare(sc *Scenario) {
	r := p.r
	if chance(r, 1, 50) {
		sc.Cfg["keylen"] = pick[int64](r, 31, 63, 254, 255, 256, 1023, 70_000)
	}
	if chance(r, 1, 500) {
		p.large = pick(r, 1<<17, 300_000, 1<<20)
		sc.Cfg["large"], sc.Cfg["maxsteps"] = 1, 100_000_000
	}
}

// wideKeys is a workload of commands over very many keys at once.
func wideKeys(r *rand.Rand) *Scenario {
	sc := &Scenario{Cfg: baseCfg(r)}
	sc.Cfg["gap"], sc.Cfg["maxsteps"] = pick(r, int64(60), 200, 1000, 5000), 20_000_000
	n := pick(r, 33, 65, 70, 130, 200, 257, 300, 520, 600, 1030)
	var keys []string
	for i := 0; i < n; i++ {
		keys = append(keys, fmt.Sprintf("k%d", i))
	}
	tag := 0
	mset := func(c string) model.Op {
		tag++
		o := model.Op{C: c}
		for _, i := range r.Perm(n) {
			o.A = append(o.A, keys[i], fmt.Sprintf("%d", tag))
		}
		return o
	}
	all := func(c string) model.Op {
		o := model.Op{C: c}
		for _, i := range r.Perm(n) {
			o.A = append(o.A, keys[i])
		}
		return o
	}
	some := func() model.Op {
		switch r.IntN(9) {
		case 0, 1, 2:
			return mset("MSet")
		case 3:
			return mset("MSetNX")
		case 4, 5:
			return all("MGet")
		case 6:
			return all("Exists")
		case 7:
			return model.Op{C: "Flush"}
		}
		return op(pick(r, "Get", "Incr", "Del"), pick(r, keys...))
	}
	if chance(r, 2, 3) {
		sc.Setup = append(sc.Setup, mset("MSet"))
	}
	for t := 2 + r.IntN(2); t > 0; t-- {
		var l []model.Op
		for j := 1 + r.IntN(3); j > 0; j-- {
			l = append(l, some())
		}
		sc.Threads = append(sc.Threads, l)
	}
	return sc
}

// wideHash is a workload on one hash of very many fields.
func wideHash(r *rand.Rand) *Scenario {
	sc := &Scenario{Cfg: baseCfg(r)}
	sc.Cfg["gap"], sc.Cfg["maxsteps"] = pick(r, int64(60), 200, 1000, 5000), 20_000_000
	n := pick(r, 33, 65, 70, 130, 200, 257, 300, 513, 600, 1030)
	var fields []string
	for i := 0; i < n; i++ {
		fields = append(fields, fmt.Sprintf("f%d", i))
	}
	tag := 0
	hmset := func(part int) model.Op {
		tag++
		o := op("HMSet", "h")
		for _, i := range r.Perm(n)[:n/part] {
			o.A = append(o.A, fields[i], fmt.Sprintf("%d", tag))
		}
		return o
	}
	names := func(c string, part int) model.Op {
		o := op(c, "h")
		for _, i := range r.Perm(n)[:n/part] {
			o.A = append(o.A, fields[i])
		}
		return o
	}
	some := func() model.Op {
		switch r.IntN(10) {
		case 0, 1, 2:
			return hmset(pick(r, 1, 1, 2))
		case 3:
			return names("HDel", pick(r, 1, 2, 3))
		case 4:
			return names("HMGet", 1)
		case 5, 6, 7:
			return op(pick(r, "HGetAll", "HKeys", "HVals", "HLen"), "h")
		case 8:
			return op("Del", "h")
		}
		o := op(pick(r, "HSet", "HSetNX", "HGet", "HIncrBy"), "h")
		o.A, o.N = []string{pick(r, fields...), "7"}, 1
		return o
	}
	if chance(r, 2, 3) {
		sc.Setup = append(sc.Setup, hmset(pick(r, 1, 2)))
	}
	for t := 2 + r.IntN(2); t > 0; t-- {
		var l []model.Op
		for j := 1 + r.IntN(3); j > 0; j-- {
			l = append(l, some())
		}
		sc.Threads = append(sc.Threads, l)
	}
	return sc
}

func baseCfg(r *rand.Rand) map[string]int64 {
	return map[string]int64{"gap": pick(r, int64(4), 8, 20, 60, 200, 1000)}
}

func threadsOf(r *rand.Rand, p *profile, maxT, maxN int) [][]model.Op {
	var th [][]model.Op
	nt := 2 + r.IntN(maxT-1)
	if chance(r, 1, 10) {
		nt = 1
	}
	per := 1 + r.IntN(maxN)
	if nt == 1 {
		per = 4 + r.IntN(3*maxN)
	}
	for t := 0; t < nt; t++ {
		var ops []model.Op
		for i := 0; i < per; i++ {
			ops = append(ops, p.op())
		}
		th = append(th, ops)
	}
	return th
}

// audit reads everything back at the end of a run.
func audit(keys []string, hash bool) (l []model.Op) {
	for _, k := range keys {
		l = append(l, op("Get", k), op("StrLen", k), op("Type", k), model.Op{C: "Exists", A: []string{k}})
		if hash {
			l = append(l, op("HGetAll", k), op("HLen", k), op("HKeys", k), op("HVals", k))
		}
	}
	return l
}

func (e *Env) playCache(cron bool, after func(c *cache.Cache)) []model.Rec {
	e.hist = nil
	w := &owner{mode: e.cfg("own"), long: strings.Repeat("k", int(e.cfg("keylen")))}
	e.main(func() {
		c := cache.New()
		if cron {
			c.Cron()
		}
		for _, o := range e.Sc.Setup {
			if !wait(e.S, o) {
				e.call(-1, o, func() string { return w.do(c, o) })
			}
		}
		var fns []func()
		for t, ops := range e.Sc.Threads {
			t, ops := t, ops
			fns = append(fns, func() {
				for _, o := range ops {
					o := o
					if !wait(e.S, o) {
						e.call(t, o, func() string { return w.do(c, o) })
					}
				}
			})
		}
		par(fns...)
		for _, o := range auditOf(e.Sc) {
			o := o
			e.call(-2, o, func() string { return w.do(c, o) })
		}
		if after != nil {
			after(c)
		}
	})
	for _, k := range w.kept {
		if now := k.now(); e.class == "" && now != k.text {
			e.Fail("result-changed", "what %s returned was %s and later became %s", k.op, k.text, now)
		}
	}
	return e.hist
}

// auditOf lists the final reads: every key of the scenario.
func auditOf(sc *Scenario) []model.Op {
	ks := map[string]bool{}
	hash := false
	see := func(o model.Op) {
		if o.C == "sleep" || o.C == "until" {
			return
		}
		for _, k := range o.Keys() {
			ks[k] = true
		}
		if o.C[0] == 'H' {
			hash = true
		}
	}
	for _, o := range sc.Setup {
		see(o)
	}
	for _, t := range sc.Threads {
		for _, o := range t {
			see(o)
		}
	}
	keys := sortedKeys(ks)
	if len(keys) <= 50 {
		return audit(keys, hash)
	}
	l := []model.Op{{C: "MGet", A: keys}, {C: "Exists", A: keys}}
	for i := 0; i < len(keys); i += len(keys) / 20 {
		l = append(l, audit(keys[i:i+1], hash)...)
	}
	return l
}

func histText(h []model.Rec) string {
	var l []string
	for _, r := range h {
		l = append(l, "    "+r.String())
	}
	return strings.Join(l, "\n")
}

func (e *Env) checkLin(what string) {
	if e.class != "" {
		return
	}
	ok, known := model.Linearizable(e.hist)
	if !known {
		e.S.Probe("linearizability-unknown")
		return
	}
	if !ok {
		e.Fail("not-linearizable", "no one-at-a-time order explains these results (%s):\n%s", what, histText(e.hist))
	}
}

var cacheReal = []string{"package cache (all of it, instrumented: every statement is a scheduling point)"}
var cacheStub = []string{"goroutine scheduler, sync.RWMutex, sync.Map, time: simulated", "package redis: linked, not exercised"}

func init() {
	register(&Prop{ID: "C01", Quick: 800000, Thorough: 6000000, Real: cacheReal, Stub: cacheStub,
		Rule: "a case is a random workload of 2-5 goroutines issuing single-key string commands on 1-3 keys with ordinary and extreme arguments, under one random schedule; non-trivial: at least three switches between goroutines happened inside the run; distinct by workload and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			p := &profile{r: r, empty: true, keys: []string{"a", "b", "c"}[:1+r.IntN(3)], ops: append([]string(nil), stringOps...)}
			p.tune()
			if p.floats {
				p.ops = append(p.ops, "IncrByFloat", "IncrByFloat", "IncrByFloat")
			}
			if chance(r, 1, 5) { // the keys that expire do so long after the run
				p.ops, p.ttl = append(p.ops, "SetEX", "PSetEX"), 100_000
			}
			if chance(r, 1, 3) { // a narrow mix collides more
				var l []string
				for j := 0; j < 4; j++ {
					l = append(l, pick(r, p.ops...))
				}
				p.ops = append(l, "Get")
			}
			if chance(r, 1, 6) {
				p.ops = append(p.ops, "Flush")
			}
			sc := &Scenario{Cfg: baseCfg(r)}
			p.rare(sc)
			for j := r.IntN(4); j > 0; j-- {
				sc.Setup = append(sc.Setup, model.Op{C: "Set", K: p.key(), A: []string{p.val()}})
			}
			sc.Threads = threadsOf(r, p, 5, 7)
			for t := range sc.Threads {
				for j, o := range sc.Threads[t] {
					if o.C == "Exists" {
						sc.Threads[t][j].A = o.A[:min(1, len(o.A))]
					}
				}
			}
			return sc
		},
		Run: func(e *Env) {
			e.sim(false)
			e.playCache(false, nil)
			e.checkLin("string commands")
		}})

	register(&Prop{ID: "C02", Quick: 600000, Thorough: 6000000, Real: cacheReal, Stub: cacheStub,
		Rule: "a case is a random workload of 2-5 goroutines issuing hash commands, Del, Exists, Type and string writes on 1-2 keys with 1-4 fields, under one random schedule; non-trivial: at least three switches between goroutines; distinct by workload and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			if chance(r, 1, 300) {
				return wideHash(r)
			}
			p := &profile{r: r, empty: true, keys: []string{"h", "g"}[:1+r.IntN(2)], fields: []string{"f", "g", "", "x y"}[:1+r.IntN(4)], ops: append([]string(nil), hashOps...)}
			p.tune()
			if p.floats {
				p.ops = append(p.ops, "HIncrByFloat", "HIncrByFloat", "HIncrByFloat")
			}
			switch r.IntN(3) {
			case 0:
				p.ops = append(p.ops, "Del", "Exists", "Type")
			case 1:
				p.ops = append(p.ops, "Del", "Exists", "Type", "Set", "SetNX", "GetSet", "Append", "Incr", "Get")
			default:
				var l []string
				for j := 0; j < 4; j++ {
					l = append(l, pick(r, p.ops...))
				}
				p.ops = append(l, "HLen", "HGetAll")
			}
			if chance(r, 1, 4) {
				p.ops = append(p.ops, "Flush")
			}
			if chance(r, 1, 12) { // hashes of many fields
				p.fields = nil
				for j := 10 + r.IntN(30); j > 0; j-- {
					p.fields = append(p.fields, fmt.Sprintf("f%d", j))
				}
			}
			if chance(r, 1, 40) { // long names, alike but for their last letters
				l := strings.Repeat("n", pick(r, 31, 32, 63, 64, 255, 256, 1024, 70_000))
				p.fields = append(p.fields, l, l+"1", l+"2")
			}
			sc := &Scenario{Cfg: baseCfg(r)}
			p.rare(sc)
			for j := r.IntN(4); j > 0; j-- {
				sc.Setup = append(sc.Setup, model.Op{C: "HSet", K: p.key(), A: []string{pick(r, p.fields...), p.val()}})
			}
			sc.Threads = threadsOf(r, p, 5, 6)
			for t := range sc.Threads {
				for j, o := range sc.Threads[t] {
					if o.C == "Exists" {
						sc.Threads[t][j].A = o.A[:min(1, len(o.A))]
					}
				}
			}
			return sc
		},
		Run: func(e *Env) {
			e.sim(false)
			e.playCache(false, nil)
			e.checkLin("hash commands")
		}})

	register(&Prop{ID: "C03", Quick: 600000, Thorough: 6000000, Real: cacheReal, Stub: cacheStub,
		Rule: "a case is a random workload of 2-4 goroutines issuing MSet, MSetNX, MGet, Exists, Flush and single-key commands on 2-4 shared keys, under one random schedule; non-trivial: at least three switches between goroutines; distinct by workload and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			if chance(r, 1, 300) {
				return wideKeys(r)
			}
			p := &profile{r: r, empty: true, keys: []string{"a", "b", "c", "d"}[:2+r.IntN(3)], fields: []string{"f"}}
			p.vals = []string{"1", "2", "x", "yy"}
			p.ops = []string{"MSet", "MSet", "MSet", "MSetNX", "MSetNX", "MGet", "MGet", "MGet", "Exists", "Exists"}
			if chance(r, 1, 10) { // many keys
				for j := 8 + r.IntN(24); j > 0; j-- {
					p.keys = append(p.keys, fmt.Sprintf("k%d", j))
				}
			}
			p.ttl = 100_000
			switch r.IntN(6) {
			case 0:
			case 1:
				p.ops = append(p.ops, "Flush", "Flush")
			case 2:
				p.ops = append(p.ops, "Flush", "Set", "Get", "Del", "Append", "SetNX")
			case 3:
				p.ops = append(p.ops, "Del", "Incr", "GetSet", "HSet", "HLen")
			case 4:
				p.ops = append(p.ops, "SetEX", "PSetEX", "StrLen", "GetRange", "SetRange", "Type", "Decr", "Flush")
			default:
				p.ops = append(p.ops, "HSet", "HDel", "HMSet", "HGetAll", "HIncrBy", "Type", "Del", "SetEX")
			}
			sc := &Scenario{Cfg: baseCfg(r)}
			p.rare(sc)
			for j := r.IntN(4); j > 0; j-- {
				if chance(r, 1, 5) {
					sc.Setup = append(sc.Setup, model.Op{C: "PSetEX", K: p.key(), A: []string{p.val()}, N: 1}, model.Op{C: "sleep", N: 2 * ms})
				} else {
					sc.Setup = append(sc.Setup, model.Op{C: "Set", K: p.key(), A: []string{p.val()}})
				}
			}
			sc.Threads = threadsOf(r, p, 4, 5)
			return sc
		},
		Run: func(e *Env) {
			e.sim(false)
			e.playCache(false, nil)
			e.checkLin("multi-key commands")
		}})

	register(&Prop{ID: "C04", Quick: 800000, Thorough: 6000000, Real: cacheReal, Stub: cacheStub,
		Rule: "a case is a workload of 1-4 goroutines issuing SetEX, PSetEX and every other command around the deadlines of 1-2 keys (sleeping to just before, at and after them), with random process stalls, under one random schedule; non-trivial: three switches or a stall; distinct by workload and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			p := &profile{r: r, nodup: true, keys: []string{"a", "b"}[:1+r.IntN(2)], fields: []string{"f", "g"}, vals: []string{"1", "10", "x", "007", "hello", "2.5"}}
			all := append([]string{"IncrByFloat", "MSet", "MSetNX", "MGet", "MGet", "SetEX", "PSetEX", "PSetEX"}, stringOps...)
			if chance(r, 1, 3) {
				all = append(all, "HSet", "HLen", "HGetAll", "HDel", "HExists", "HIncrBy", "HSetNX", "HMSet", "HKeys", "Flush")
			}
			if chance(r, 1, 12) {
				all = append([]string{"Flush", "Flush", "Flush", "SetEX", "SetEX", "PSetEX", "PSetEX"}, pick(r, all...), pick(r, all...), "Get")
			}
			p.ops = all
			sc := &Scenario{Cfg: baseCfg(r)}
			p.rare(sc)
			if chance(r, 1, 3) {
				sc.Cfg["stallp"], sc.Cfg["stallmax"] = pick(r, int64(20), 100, 400), pick(r, 100*us, 2*ms, 20*ms)
			}
			// deadlines: the first writes happen close to time 0
			var dl []int64
			for _, k := range p.keys {
				if chance(r, 1, 3) {
					n := span(r, 1, 2)
					sc.Setup = append(sc.Setup, model.Op{C: "SetEX", K: k, A: []string{p.val()}, N: n})
					dl = append(dl, n*sec)
				} else {
					n := pick(r, int64(1), 2, 3, 5, 20, 700, 1500)
					sc.Setup = append(sc.Setup, model.Op{C: "PSetEX", K: k, A: []string{p.val()}, N: n})
					dl = append(dl, n*ms)
				}
				if chance(r, 1, 3) {
					sc.Setup = append(sc.Setup, p.op())
				}
			}
			sc.Threads = threadsOf(r, p, 4, 5)
			long := int64(0)
			if chance(r, 1, 30) { // a key nobody asks for until long after its deadline
				long = pick(r, int64(3600), 86400, 40*86400, 400*86400, 3000*86400) * sec
				sc.Cfg["maxtime"] = 20 * (long + 1000*sec)
				if chance(r, 1, 2) { // nor until shortly before it
					d := long + pick(r, 0, ms, 37*ms, 500*ms, 999*ms)
					sc.Setup = append(sc.Setup, model.Op{C: "PSetEX", K: p.key(), A: []string{p.val()}, N: d / ms})
					dl = append(dl, d, d-pick(r, 100*ms, 300*ms, 800*ms, 3*sec, 50*sec))
				}
			}
			for t, ops := range sc.Threads {
				var out []model.Op
				for _, o := range ops {
					if chance(r, 1, 2) {
						d := pick(r, dl...)
						out = append(out, model.Op{C: "until", N: max(d+pick(r, -2*ms, -ms, -200*us, -20*us, -5*us, -us, 0, us, 5*us, 20*us, 200*us, ms, 2*ms), 1)})
					} else if chance(r, 1, 6) {
						n := pick(r, us, 50*us, ms, 999*ms, 1001*ms)
						if long > 0 {
							n = pick(r, n, long)
						}
						out = append(out, model.Op{C: "sleep", N: n})
					}
					out = append(out, o)
				}
				sc.Threads[t] = out
			}
			return sc
		},
		Run: func(e *Env) {
			e.sim(false)
			e.playCache(false, nil)
			e.checkLin("times to live")
		}})

	register(&Prop{ID: "C05", Quick: 400000, Thorough: 6000000, Real: cacheReal, Stub: cacheStub,
		Rule: "a case is a workload of 1-4 goroutines over several ticks of the sweep, with operations placed at the ticks and at deadlines between them, under one random schedule, judged against the same reference model as without the sweep; non-trivial: three switches or a stall; distinct by workload and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			p := &profile{r: r, nodup: true, keys: []string{"a", "b", "c"}[:1+r.IntN(3)], fields: []string{"f", "g"}, vals: []string{"1", "10", "x", "007", "hello"}}
			p.ops = append([]string{"MSet", "MSetNX", "MGet", "SetEX", "PSetEX", "PSetEX", "HSet", "HSet", "HLen", "HGetAll", "HDel", "HIncrBy", "Flush"}, stringOps...)
			sc := &Scenario{Cfg: baseCfg(r)}
			p.rare(sc)
			sc.Cfg["maxtime"] = 100 * sec
			if chance(r, 1, 4) {
				sc.Cfg["stallp"], sc.Cfg["stallmax"] = pick(r, int64(20), 100), pick(r, 100*us, 2*ms, 20*ms)
			}
			for j := r.IntN(4); j > 0; j-- {
				k := p.key()
				switch r.IntN(4) {
				case 0:
					sc.Setup = append(sc.Setup, model.Op{C: "Set", K: k, A: []string{p.val()}})
				case 1:
					sc.Setup = append(sc.Setup, model.Op{C: "SetEX", K: k, A: []string{p.val()}, N: span(r, 1, 4)})
				case 2:
					sc.Setup = append(sc.Setup, model.Op{C: "PSetEX", K: k, A: []string{p.val()}, N: pick(r, int64(1), 1999, 2000, 2001, 3000, 3999)})
				default:
					sc.Setup = append(sc.Setup, model.Op{C: "HSet", K: k, A: []string{"f", p.val()}})
				}
			}
			if chance(r, 1, 8) { // one sweep with much to do
				for j := 3 + r.IntN(20); j > 0; j-- {
					k := fmt.Sprintf("e%d", j)
					sc.Setup = append(sc.Setup, model.Op{C: "PSetEX", K: k, A: []string{p.val()}, N: pick(r, int64(1), 1500, 1999, 2000, 3000)})
					if chance(r, 1, 4) {
						p.keys = append(p.keys, k)
					}
				}
			}
			sc.Threads = threadsOf(r, p, 4, 5)
			for t, ops := range sc.Threads {
				var out []model.Op
				at := int64(0)
				for _, o := range ops {
					if chance(r, 1, 2) {
						if chance(r, 2, 3) {
							at += 2 * sec
						}
						out = append(out, model.Op{C: "until", N: max(at+pick(r, -ms, -20*us, -5*us, -2*us, -us, 0, us, 2*us, 3*us, 5*us, 10*us, 20*us, 100*us, ms), 1)})
					}
					out = append(out, o)
				}
				sc.Threads[t] = out
			}
			if chance(r, 1, 2) {
				sc.Threads = append(sc.Threads, []model.Op{{C: "until", N: pick(r, 2*sec, 4*sec, 6*sec) + span(r, -100, 100)*us}, p.op(), p.op()})
			}
			return sc
		},
		Run: func(e *Env) {
			e.sim(false)
			e.playCache(true, nil)
			hist := e.hist
			e.checkLin("with the sweep running")
			if e.class == "" {
				return
			}
			// is the sweep to blame? the same workload must be right without it
			class, viol := e.class, e.viol
			for k := 0; k < 25; k++ {
				f := &Env{Case: &Case{Prop: e.Prop, Seed: e.Seed + uint64(k)*7919, Sc: e.Sc}}
				f.sim(true)
				f.playCache(false, nil)
				f.checkLin("without the sweep")
				if f.class != "" {
					e.sims[0].Probe("wrong-without-sweep-too")
					e.class, e.viol, e.hist = "", "", hist
					return
				}
			}
			e.class, e.viol, e.hist = class, viol, hist
		}})

	register(&Prop{ID: "C06", Quick: 600000, Thorough: 6000000, Real: cacheReal, Stub: cacheStub,
		Rule: "a case is a workload of 2-6 goroutines mixing every implemented command (extreme numbers and empty lists included) over string, hash, expired and absent keys with Flush or the sweep running, while other goroutines apply wrong-type commands to two fixed keys; non-trivial: three switches or a stall; distinct by workload and schedule",
		Gen: func(r *rand.Rand, i int) *Scenario {
			p := &profile{r: r, empty: true, keys: []string{"a", "h", "c"}, fields: []string{"f", "g"}}
			p.tune()
			p.ops = append([]string{"MSet", "MSetNX", "MGet", "SetEX", "PSetEX", "IncrByFloat", "HIncrByFloat"}, stringOps...)
			p.ops = append(p.ops, hashOps...)
			sc := &Scenario{Cfg: baseCfg(r)}
			p.rare(sc)
			sc.Cfg["maxtime"] = 200 * sec
			sc.Cfg["cron"] = int64(r.IntN(2))
			if chance(r, 1, 4) {
				sc.Cfg["stallp"], sc.Cfg["stallmax"] = pick(r, int64(20), 100), pick(r, ms, 20*ms)
			}
			if chance(r, 1, 2) {
				sc.Setup = append(sc.Setup, model.Op{C: "Set", K: "sfix", A: []string{pick(r, "plain", "12", "0.5", "")}}, model.Op{C: "HMSet", K: "hfix", A: []string{"f", "1", "g", "two"}})
				p.keys = append(p.keys, "sfix", "hfix")
				// these two keys only ever see commands of the other type
				fs := append([]string{"IncrByFloat"}, "GetSet", "StrLen", "Append", "SetRange", "GetRange", "Incr", "IncrBy", "Decr", "DecrBy", "Get")
				fh := append([]string{"HIncrByFloat"}, hashOps...)
				q := &profile{r: r, keys: []string{"hfix"}, ops: fs, vals: intVals, fields: []string{"f", "g"}}
				h := &profile{r: r, keys: []string{"sfix"}, ops: fh, vals: intVals, fields: []string{"f", "g"}}
				var ops []model.Op
				for j := 0; j < 6; j++ {
					o := q.op()
					if chance(r, 1, 2) {
						o = h.op()
					}
					if o.C == "SetRange" && o.A[0] == "" {
						o.A[0] = "q"
					}
					ops = append(ops, o)
				}
				sc.Cfg["fix"] = 1
				p.keys = p.keys[:3]
				sc.Threads = append(sc.Threads, ops)
			} else if chance(r, 1, 2) {
				p.ops = append(p.ops, "Flush")
			}
			sc.Threads = append(sc.Threads, threadsOf(r, p, 5, 8)...)
			for t := range sc.Threads {
				if chance(r, 1, 3) {
					j := r.IntN(len(sc.Threads[t]) + 1)
					rest := append([]model.Op{{C: "sleep", N: pick(r, ms, 2*ms, sec, 2*sec, 3*sec)}}, sc.Threads[t][j:]...)
					sc.Threads[t] = append(append([]model.Op(nil), sc.Threads[t][:j]...), rest...)
				}
			}
			return sc
		},
		Run: func(e *Env) {
			s := e.sim(false)
			e.playCache(e.cfg("cron") != 0, func(c *cache.Cache) {
				if e.cfg("cron") != 0 {
					rt.Sleep(5 * sec) // the sweep itself must complete too
					e.call(-2, op("Get", "a"), func() string { return cacheDo(c, op("Get", "a")) })
				}
			})
			_ = s
			if e.class != "" || e.cfg("fix") == 0 || len(e.Sc.Setup) < 2 {
				return
			}
			sfix, hfix := "", ""
			for _, o := range e.Sc.Setup {
				if o.K == "sfix" && o.C == "Set" {
					sfix = o.A[0]
				}
				if o.K == "hfix" && o.C == "HMSet" {
					hfix = model.MapText(pairs(o.A))
				}
			}
			for _, r := range e.hist {
				if r.Thread == -1 {
					continue
				}
				switch {
				case r.Op.K == "sfix" && r.Op.C[0] == 'H':
					if r.Res != model.Err {
						e.Fail("wrong-type", "%s was applied to a string key and returned %s instead of an error", r.Op, r.Res)
					}
				case r.Op.K == "hfix" && r.Op.C[0] != 'H' && r.Op.C != "Type":
					if r.Res != model.Err {
						e.Fail("wrong-type", "%s was applied to a hash key and returned %s instead of an error", r.Op, r.Res)
					}
				case r.Op.K == "sfix" && r.Op.C == "Get":
					if r.Res != model.Quote(sfix) {
						e.Fail("wrong-type-change", "string key held %q, commands of the wrong type were applied, now it reads %s", sfix, r.Res)
					}
				case r.Op.K == "hfix" && r.Op.C == "HGetAll":
					if r.Res != hfix {
						e.Fail("wrong-type-change", "hash key held %s, commands of the wrong type were applied, now it reads %s", hfix, r.Res)
					}
				}
			}
		}})
}
