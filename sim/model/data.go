package model

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// RVal is a value of the simulated Redis server.
type RVal struct {
	Kind string             `json:"kind"` // string list set zset hash
	Str  string             `json:"str,omitempty"`
	List []string           `json:"list,omitempty"`
	Set  map[string]bool    `json:"set,omitempty"`
	Z    map[string]float64 `json:"z,omitempty"`
	Hash map[string]string  `json:"hash,omitempty"`
	Exp  int64              `json:"exp,omitempty"` // unix ms, 0: none
}

func (v *RVal) each(f func(string) string) *RVal {
	n := &RVal{Kind: v.Kind, Str: f(v.Str), Exp: v.Exp}
	for _, x := range v.List {
		n.List = append(n.List, f(x))
	}
	for k := range v.Set {
		if n.Set == nil {
			n.Set = map[string]bool{}
		}
		n.Set[f(k)] = true
	}
	for k, x := range v.Z {
		if n.Z == nil {
			n.Z = map[string]float64{}
		}
		n.Z[f(k)] = x
	}
	for k, x := range v.Hash {
		if n.Hash == nil {
			n.Hash = map[string]string{}
		}
		n.Hash[f(k)] = f(x)
	}
	return n
}

type jsonVal struct {
	Kind string            `json:"kind"`
	Str  string            `json:"str,omitempty"`
	List []string          `json:"list,omitempty"`
	Set  map[string]bool   `json:"set,omitempty"`
	Z    map[string]string `json:"z,omitempty"`
	Hash map[string]string `json:"hash,omitempty"`
	Exp  int64             `json:"exp,omitempty"`
}

func (v *RVal) MarshalJSON() ([]byte, error) {
	w := v.each(L1)
	j := jsonVal{Kind: w.Kind, Str: w.Str, List: w.List, Set: w.Set, Hash: w.Hash, Exp: w.Exp}
	for k, x := range w.Z {
		if j.Z == nil {
			j.Z = map[string]string{}
		}
		j.Z[k] = strconv.FormatFloat(x, 'g', -1, 64)
	}
	return json.Marshal(j)
}

func (v *RVal) UnmarshalJSON(b []byte) error {
	var j jsonVal
	if err := json.Unmarshal(b, &j); err != nil {
		return err
	}
	w := &RVal{Kind: j.Kind, Str: j.Str, List: j.List, Set: j.Set, Hash: j.Hash, Exp: j.Exp}
	for k, x := range j.Z {
		if w.Z == nil {
			w.Z = map[string]float64{}
		}
		w.Z[k], _ = strconv.ParseFloat(x, 64)
	}
	*v = *w.each(UnL1)
	return nil
}

func (v *RVal) Clone() *RVal {
	n := *v
	n.List = append([]string(nil), v.List...)
	if v.Set != nil {
		n.Set = map[string]bool{}
		for k := range v.Set {
			n.Set[k] = true
		}
	}
	if v.Z != nil {
		n.Z = map[string]float64{}
		for k, x := range v.Z {
			n.Z[k] = x
		}
	}
	if v.Hash != nil {
		n.Hash = map[string]string{}
		for k, x := range v.Hash {
			n.Hash[k] = x
		}
	}
	return &n
}

// Text is a canonical form for comparison.
func (v *RVal) Text() string {
	s := v.Kind
	switch v.Kind {
	case "string":
		s += Quote(v.Str)
	case "list":
		s += fmt.Sprintf("%q", v.List)
	case "set":
		var l []string
		for k := range v.Set {
			l = append(l, k)
		}
		s += SortedList(l)
	case "zset":
		var l []string
		for k, f := range v.Z {
			l = append(l, Quote(k)+"="+strconv.FormatFloat(f, 'g', -1, 64))
		}
		sort.Strings(l)
		s += strings.Join(l, " ")
	case "hash":
		s += MapText(v.Hash)
	}
	if v.Exp != 0 {
		s += fmt.Sprintf(" expires at %dms", v.Exp)
	}
	return s
}

// Store is the keyspace of a Redis server.
type Store struct {
	DB  map[int]map[string]*RVal
	One bool // every database number names the same keyspace
}

func NewStore() *Store { return &Store{DB: map[int]map[string]*RVal{}} }

func (s *Store) Clone() *Store {
	n := NewStore()
	n.One = s.One
	for i, d := range s.DB {
		m := map[string]*RVal{}
		for k, v := range d {
			m[k] = v.Clone()
		}
		n.DB[i] = m
	}
	return n
}

func (s *Store) db(i int) map[string]*RVal {
	if s.One {
		i = 0
	}
	if s.DB[i] == nil {
		s.DB[i] = map[string]*RVal{}
	}
	return s.DB[i]
}

func (s *Store) Put(db int, k string, v *RVal) { s.db(db)[k] = v }

// Get returns the live value of a key.
func (s *Store) Get(db int, k string, nowMs int64) *RVal {
	v := s.db(db)[k]
	if v == nil || (v.Exp != 0 && v.Exp <= nowMs) {
		return nil
	}
	return v
}

func (s *Store) Keys(db int) []string {
	var l []string
	for k := range s.db(db) {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (s *Store) DBs() []int {
	var l []int
	for i, d := range s.DB {
		if len(d) > 0 {
			l = append(l, i)
		}
	}
	sort.Ints(l)
	return l
}

// Text lists the whole keyspace.
func (s *Store) Text() map[string]string {
	m := map[string]string{}
	for i, d := range s.DB {
		for k, v := range d {
			m[fmt.Sprintf("db%d %q", i, k)] = v.Text()
		}
	}
	return m
}

// RESP replies.
const (
	ROK       = "+OK\r\n"
	RNil      = "$-1\r\n"
	RWrong    = "-WRONGTYPE Operation against a key holding the wrong kind of value\r\n"
	RNotInt   = "-ERR value is not an integer or out of range\r\n"
	RNotFloat = "-ERR value is not a valid float\r\n"
	RSyntax   = "-ERR syntax error\r\n"
)

func RInt(n int64) string   { return ":" + strconv.FormatInt(n, 10) + "\r\n" }
func RBulk(s string) string { return "$" + strconv.Itoa(len(s)) + "\r\n" + s + "\r\n" }
func RArr(l ...string) string {
	return "*" + strconv.Itoa(len(l)) + "\r\n" + strings.Join(l, "")
}

// EncodeCmd is the wire form of a command.
func EncodeCmd(args ...string) string {
	l := make([]string, len(args))
	for i, a := range args {
		l[i] = RBulk(a)
	}
	return RArr(l...)
}

func fmtRedisFloat(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

func parseScore(s string) (float64, bool) {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil && !math.IsInf(f, 0) || math.IsNaN(f) {
		return 0, false
	}
	return f, true
}

// Exec runs one command. prop is what a master would send its replicas for it (nil: no
// change).
func (s *Store) Exec(db int, args []string, nowMs int64) (reply string, prop [][]string) {
	c := strings.ToLower(args[0])
	d := s.db(db)
	arity := func(n int) bool {
		if n < 0 {
			return len(args) >= -n
		}
		return len(args) == n
	}
	bad := "-ERR wrong number of arguments for '" + c + "' command\r\n"
	get := func(k string) *RVal {
		v := d[k]
		if v != nil && v.Exp != 0 && v.Exp <= nowMs {
			delete(d, k)
			return nil
		}
		return v
	}
	same := [][]string{args}
	num := func(x string) (int64, bool) { return parseInt(x) }
	str := func(k string) (v *RVal, wrong bool) {
		v = get(k)
		return v, v != nil && v.Kind != "string"
	}
	switch c {
	case "ping":
		return "+PONG\r\n", nil
	case "set":
		if len(args) < 3 {
			return bad, nil
		}
		v := &RVal{Kind: "string", Str: args[2]}
		old := get(args[1])
		for i := 3; i < len(args); i++ {
			switch o := strings.ToLower(args[i]); o {
			case "nx":
				if old != nil {
					return RNil, nil
				}
			case "xx":
				if old == nil {
					return RNil, nil
				}
			case "keepttl":
				if old != nil {
					v.Exp = old.Exp
				}
			case "ex", "px", "exat", "pxat":
				if i+1 >= len(args) {
					return RSyntax, nil
				}
				n, ok := num(args[i+1])
				if !ok {
					return RNotInt, nil
				}
				i++
				switch o {
				case "ex":
					v.Exp = nowMs + n*1000
				case "px":
					v.Exp = nowMs + n
				case "exat":
					v.Exp = n * 1000
				case "pxat":
					v.Exp = n
				}
			default:
				return RSyntax, nil
			}
		}
		d[args[1]] = v
		return ROK, same
	case "setnx":
		if !arity(3) {
			return bad, nil
		}
		if get(args[1]) != nil {
			return RInt(0), nil
		}
		d[args[1]] = &RVal{Kind: "string", Str: args[2]}
		return RInt(1), same
	case "setex", "psetex":
		if !arity(4) {
			return bad, nil
		}
		n, ok := num(args[2])
		if !ok {
			return RNotInt, nil
		}
		if n <= 0 {
			return "-ERR invalid expire time in '" + c + "' command\r\n", nil
		}
		if c == "setex" {
			n *= 1000
		}
		d[args[1]] = &RVal{Kind: "string", Str: args[3], Exp: nowMs + n}
		return ROK, same
	case "get":
		if !arity(2) {
			return bad, nil
		}
		v, w := str(args[1])
		if w {
			return RWrong, nil
		}
		if v == nil {
			return RNil, nil
		}
		return RBulk(v.Str), nil
	case "getset":
		if !arity(3) {
			return bad, nil
		}
		v, w := str(args[1])
		if w {
			return RWrong, nil
		}
		d[args[1]] = &RVal{Kind: "string", Str: args[2]}
		if v == nil {
			return RNil, same
		}
		return RBulk(v.Str), same
	case "strlen":
		if !arity(2) {
			return bad, nil
		}
		v, w := str(args[1])
		if w {
			return RWrong, nil
		}
		if v == nil {
			return RInt(0), nil
		}
		return RInt(int64(len(v.Str))), nil
	case "append":
		if !arity(3) {
			return bad, nil
		}
		v, w := str(args[1])
		if w {
			return RWrong, nil
		}
		if v == nil {
			v = &RVal{Kind: "string"}
			d[args[1]] = v
		}
		v.Str += args[2]
		return RInt(int64(len(v.Str))), same
	case "setrange":
		if !arity(4) {
			return bad, nil
		}
		n, ok := num(args[2])
		if !ok {
			return RNotInt, nil
		}
		if n < 0 || n > 1<<20 {
			return "-ERR offset is out of range\r\n", nil
		}
		v, w := str(args[1])
		if w {
			return RWrong, nil
		}
		if args[3] == "" {
			if v == nil {
				return RInt(0), nil
			}
			return RInt(int64(len(v.Str))), nil
		}
		if v == nil {
			v = &RVal{Kind: "string"}
			d[args[1]] = v
		}
		b := []byte(v.Str)
		for int64(len(b)) < n+int64(len(args[3])) {
			b = append(b, 0)
		}
		copy(b[n:], args[3])
		v.Str = string(b)
		return RInt(int64(len(b))), same
	case "getrange":
		if !arity(4) {
			return bad, nil
		}
		a, ok1 := num(args[2])
		b, ok2 := num(args[3])
		if !ok1 || !ok2 {
			return RNotInt, nil
		}
		v, w := str(args[1])
		if w {
			return RWrong, nil
		}
		if v == nil {
			return RBulk(""), nil
		}
		return RBulk(clampRange(v.Str, a, b)), nil
	case "incr", "decr", "incrby", "decrby":
		n := int64(1)
		want := 2
		if strings.HasSuffix(c, "by") {
			want = 3
		}
		if !arity(want) {
			return bad, nil
		}
		if want == 3 {
			var ok bool
			if n, ok = num(args[2]); !ok {
				return RNotInt, nil
			}
		}
		if c[0] == 'd' {
			n = -n
		}
		v, w := str(args[1])
		if w {
			return RWrong, nil
		}
		if v == nil {
			v = &RVal{Kind: "string", Str: "0"}
		}
		x, ok := num(v.Str)
		if !ok {
			return RNotInt, nil
		}
		v.Str = strconv.FormatInt(x+n, 10)
		d[args[1]] = v
		return RInt(x + n), same
	case "incrbyfloat":
		if !arity(3) {
			return bad, nil
		}
		n, ok := parseFloat(args[2])
		if !ok {
			return RNotFloat, nil
		}
		v, w := str(args[1])
		if w {
			return RWrong, nil
		}
		if v == nil {
			v = &RVal{Kind: "string", Str: "0"}
		}
		x, ok := parseFloat(v.Str)
		if !ok {
			return RNotFloat, nil
		}
		v.Str = fmtRedisFloat(x + n)
		d[args[1]] = v
		return RBulk(v.Str), [][]string{{"SET", args[1], v.Str, "KEEPTTL"}}
	case "mset", "msetnx":
		if len(args) < 3 || len(args)%2 == 0 {
			return bad, nil
		}
		if c == "msetnx" {
			for i := 1; i < len(args); i += 2 {
				if get(args[i]) != nil {
					return RInt(0), nil
				}
			}
		}
		for i := 1; i < len(args); i += 2 {
			d[args[i]] = &RVal{Kind: "string", Str: args[i+1]}
		}
		if c == "msetnx" {
			return RInt(1), same
		}
		return ROK, same
	case "mget":
		if len(args) < 2 {
			return bad, nil
		}
		var l []string
		for _, k := range args[1:] {
			if v := get(k); v == nil || v.Kind != "string" {
				l = append(l, RNil)
			} else {
				l = append(l, RBulk(v.Str))
			}
		}
		return RArr(l...), nil
	case "del", "unlink":
		if len(args) < 2 {
			return bad, nil
		}
		n := int64(0)
		for _, k := range args[1:] {
			if get(k) != nil {
				n++
				delete(d, k)
			}
		}
		if n > 0 {
			prop = same
		}
		return RInt(n), prop
	case "exists":
		n := int64(0)
		for _, k := range args[1:] {
			if get(k) != nil {
				n++
			}
		}
		return RInt(n), nil
	case "expire", "pexpire", "expireat", "pexpireat":
		if !arity(3) {
			return bad, nil
		}
		n, ok := num(args[2])
		if !ok {
			return RNotInt, nil
		}
		v := get(args[1])
		if v == nil {
			return RInt(0), nil
		}
		if c[0] != 'p' {
			n *= 1000
		}
		if !strings.HasSuffix(c, "at") {
			n += nowMs
		}
		v.Exp = n
		if n <= nowMs {
			delete(d, args[1])
			return RInt(1), [][]string{{"DEL", args[1]}}
		}
		return RInt(1), [][]string{{"PEXPIREAT", args[1], strconv.FormatInt(n, 10)}}
	case "persist":
		v := get(args[1])
		if v == nil || v.Exp == 0 {
			return RInt(0), nil
		}
		v.Exp = 0
		return RInt(1), same
	case "rename":
		if !arity(3) {
			return bad, nil
		}
		v := get(args[1])
		if v == nil {
			return "-ERR no such key\r\n", nil
		}
		delete(d, args[1])
		d[args[2]] = v
		return ROK, same
	case "move":
		if !arity(3) {
			return bad, nil
		}
		n, ok := num(args[2])
		v := get(args[1])
		if !ok || v == nil || s.db(int(n))[args[1]] != nil || int(n) == db {
			return RInt(0), nil
		}
		delete(d, args[1])
		s.db(int(n))[args[1]] = v
		return RInt(1), same
	case "copy":
		if len(args) < 3 {
			return bad, nil
		}
		to := db
		repl := false
		for i := 3; i < len(args); i++ {
			switch strings.ToLower(args[i]) {
			case "db":
				if i+1 < len(args) {
					n, _ := num(args[i+1])
					to = int(n)
					i++
				}
			case "replace":
				repl = true
			}
		}
		v := get(args[1])
		if v == nil || (s.db(to)[args[2]] != nil && !repl) || (to == db && args[1] == args[2]) {
			return RInt(0), nil
		}
		s.db(to)[args[2]] = v.Clone()
		return RInt(1), same
	case "swapdb":
		if !arity(3) {
			return bad, nil
		}
		a, ok1 := num(args[1])
		b, ok2 := num(args[2])
		if !ok1 || !ok2 || s.One {
			return RNotInt, nil
		}
		s.DB[int(a)], s.DB[int(b)] = s.db(int(b)), s.db(int(a))
		return ROK, same
	case "flushdb":
		for k := range d {
			delete(d, k)
		}
		return ROK, same
	case "flushall":
		s.DB = map[int]map[string]*RVal{}
		return ROK, same
	case "getdel":
		v, w := str(args[1])
		if w {
			return RWrong, nil
		}
		if v == nil {
			return RNil, nil
		}
		delete(d, args[1])
		return RBulk(v.Str), [][]string{{"DEL", args[1]}}
	case "hset", "hmset":
		if len(args) < 4 || len(args)%2 != 0 {
			return bad, nil
		}
		v := get(args[1])
		if v != nil && v.Kind != "hash" {
			return RWrong, nil
		}
		if v == nil {
			v = &RVal{Kind: "hash", Hash: map[string]string{}}
			d[args[1]] = v
		}
		n := int64(0)
		for i := 2; i < len(args); i += 2 {
			if _, ok := v.Hash[args[i]]; !ok {
				n++
			}
			v.Hash[args[i]] = args[i+1]
		}
		if c == "hmset" {
			return ROK, same
		}
		return RInt(n), same
	case "hdel":
		v := get(args[1])
		if v == nil {
			return RInt(0), nil
		}
		if v.Kind != "hash" {
			return RWrong, nil
		}
		n := int64(0)
		for _, f := range args[2:] {
			if _, ok := v.Hash[f]; ok {
				n++
				delete(v.Hash, f)
			}
		}
		if len(v.Hash) == 0 {
			delete(d, args[1])
		}
		if n > 0 {
			prop = same
		}
		return RInt(n), prop
	case "rpush", "lpush":
		if len(args) < 3 {
			return bad, nil
		}
		v := get(args[1])
		if v != nil && v.Kind != "list" {
			return RWrong, nil
		}
		if v == nil {
			v = &RVal{Kind: "list"}
			d[args[1]] = v
		}
		for _, x := range args[2:] {
			if c == "rpush" {
				v.List = append(v.List, x)
			} else {
				v.List = append([]string{x}, v.List...)
			}
		}
		return RInt(int64(len(v.List))), same
	case "rpop", "lpop":
		v := get(args[1])
		if v == nil {
			return RNil, nil
		}
		if v.Kind != "list" {
			return RWrong, nil
		}
		var x string
		if c == "rpop" {
			x, v.List = v.List[len(v.List)-1], v.List[:len(v.List)-1]
		} else {
			x, v.List = v.List[0], v.List[1:]
		}
		if len(v.List) == 0 {
			delete(d, args[1])
		}
		return RBulk(x), same
	case "sadd":
		if len(args) < 3 {
			return bad, nil
		}
		v := get(args[1])
		if v != nil && v.Kind != "set" {
			return RWrong, nil
		}
		if v == nil {
			v = &RVal{Kind: "set", Set: map[string]bool{}}
			d[args[1]] = v
		}
		n := int64(0)
		for _, x := range args[2:] {
			if !v.Set[x] {
				n++
				v.Set[x] = true
			}
		}
		return RInt(n), same
	case "zadd":
		if len(args) < 4 || len(args)%2 != 0 {
			return bad, nil
		}
		v := get(args[1])
		if v != nil && v.Kind != "zset" {
			return RWrong, nil
		}
		z := map[string]float64{}
		for i := 2; i < len(args); i += 2 {
			f, ok := parseScore(args[i])
			if !ok {
				return RNotFloat, nil
			}
			z[args[i+1]] = f
		}
		if v == nil {
			v = &RVal{Kind: "zset", Z: map[string]float64{}}
			d[args[1]] = v
		}
		n := int64(0)
		for m, f := range z {
			if _, ok := v.Z[m]; !ok {
				n++
			}
			v.Z[m] = f
		}
		return RInt(n), same
	}
	return "-ERR unknown command '" + args[0] + "'\r\n", nil
}
