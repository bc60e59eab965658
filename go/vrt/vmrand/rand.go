// Package vmrand replaces the global source of math/rand with the world's deterministic one.
package vmrand

import (
	"math/rand"
	"vrt"
)

type src struct{}

var fallback = rand.New(rand.NewSource(1))

func (src) Int63() int64 {
	if vrt.W == nil {
		return fallback.Int63()
	}
	return int64(vrt.W.Rand() >> 1)
}
func (src) Uint64() uint64 {
	if vrt.W == nil {
		return fallback.Uint64()
	}
	return vrt.W.Rand()
}
func (src) Seed(int64) {}

func r() *rand.Rand { return rand.New(src{}) }

func New(s rand.Source) *rand.Rand     { return rand.New(s) }
func NewSource(seed int64) rand.Source { return rand.NewSource(seed) }
func Seed(int64)                       {}
func Int() int                         { return r().Int() }
func Intn(n int) int                   { return r().Intn(n) }
func Int31() int32                     { return r().Int31() }
func Int31n(n int32) int32             { return r().Int31n(n) }
func Int63() int64                     { return r().Int63() }
func Int63n(n int64) int64             { return r().Int63n(n) }
func Uint32() uint32                   { return r().Uint32() }
func Uint64() uint64                   { return r().Uint64() }
func Float64() float64                 { return r().Float64() }
func Float32() float32                 { return r().Float32() }
func Perm(n int) []int                 { return r().Perm(n) }
func Shuffle(n int, f func(i, j int))  { r().Shuffle(n, f) }
func Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(src{}.Uint64() >> 32)
	}
	return len(b), nil
}
