package rt

import (
	"fmt"
	"math/rand/v2"
	"sort"
)

// Order returns a permutation of 0..n-1 chosen by the simulator: the iteration order of
// a map.
func Order(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if S == nil || n < 2 {
		return p
	}
	v := S.Choose("order", func(r *rand.Rand) int { return int(r.Uint32()) })
	if v != 0 {
		rand.New(rand.NewPCG(uint64(v), 77)).Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	}
	return p
}

type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func MapRange[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V) {
	var k K
	var v V
	it := &MapIter[K, V]{m: m}
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	names := make([]string, len(keys))
	for i, k := range keys {
		names[i] = fmt.Sprintf("%v", k)
	}
	sort.Sort(&byName[K]{keys, names})
	for _, i := range Order(len(keys)) {
		it.keys = append(it.keys, keys[i])
	}
	return it, k, v
}

func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

type byName[K any] struct {
	k []K
	n []string
}

func (b *byName[K]) Len() int           { return len(b.k) }
func (b *byName[K]) Less(i, j int) bool { return b.n[i] < b.n[j] }
func (b *byName[K]) Swap(i, j int) {
	b.k[i], b.k[j] = b.k[j], b.k[i]
	b.n[i], b.n[j] = b.n[j], b.n[i]
}
