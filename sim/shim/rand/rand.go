// Package rand replaces math/rand: global draws come from the simulator's choices.
package rand

import (
	real "math/rand"
	v2 "math/rand/v2"

	"verifsim/rt"
)

func draw() int64 {
	if rt.S == nil {
		return 1
	}
	v := rt.S.Choose("rand", func(r *v2.Rand) int { return int(r.Int64()) })
	return int64(v) & (1<<63 - 1)
}

func Seed(int64)                         {}
func Int() int                           { return int(draw()) }
func Int63() int64                       { return draw() }
func Int31() int32                       { return int32(draw() >> 32) }
func Uint32() uint32                     { return uint32(draw() >> 31) }
func Uint64() uint64                     { return uint64(draw())<<1 | uint64(draw())&1 }
func Intn(n int) int                     { return int(draw() % int64(n)) }
func Int31n(n int32) int32               { return int32(draw() % int64(n)) }
func Int63n(n int64) int64               { return draw() % n }
func Float64() float64                   { return float64(draw()>>10) / (1 << 53) }
func Float32() float32                   { return float32(draw()>>39) / (1 << 24) }
func Perm(n int) []int                   { return real.New(real.NewSource(draw())).Perm(n) }
func Shuffle(n int, swap func(i, j int)) { real.New(real.NewSource(draw())).Shuffle(n, swap) }
