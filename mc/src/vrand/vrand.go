// Package vrand stands in for math/rand: what is drawn is a choice of the
// model checker.
package vrand

import (
	"math/rand"

	"gRedis/zzverif/vrt"
)

type (
	Source   = rand.Source
	Source64 = rand.Source64
)

func NewSource(seed int64) Source { return rand.NewSource(seed) }
func New(src Source) *Rand        { return &Rand{} }
func Seed(seed int64)             {}

func below(n uint64) uint64 { return vrt.Pick(n) }

func shuffle(n int, swap func(i, j int)) {
	if n < 0 {
		panic("invalid argument to Shuffle")
	}
	for i := n - 1; i > 0; i-- {
		swap(i, int(below(uint64(i+1))))
	}
}

func perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	shuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}

func pos(n int64, what string) uint64 {
	if n <= 0 {
		panic("invalid argument to " + what)
	}
	return uint64(n)
}

// Rand stands in for rand.Rand.
type Rand struct{}

var g = &Rand{}

func (r *Rand) Seed(seed int64) {}

func (r *Rand) Int63() int64 { return int64(below(1 << 63)) }
func Int63() int64           { return g.Int63() }

func (r *Rand) Uint32() uint32 { return uint32(below(1 << 32)) }
func Uint32() uint32           { return g.Uint32() }

func (r *Rand) Uint64() uint64 { return below(1<<64 - 1) }
func Uint64() uint64           { return g.Uint64() }

func (r *Rand) Int31() int32 { return int32(below(1 << 31)) }
func Int31() int32           { return g.Int31() }

func (r *Rand) Int() int { return int(below(1 << 63)) }
func Int() int           { return g.Int() }

func (r *Rand) Int63n(n int64) int64 { return int64(below(pos(n, "Int63n"))) }
func Int63n(n int64) int64           { return g.Int63n(n) }

func (r *Rand) Int31n(n int32) int32 { return int32(below(pos(int64(n), "Int31n"))) }
func Int31n(n int32) int32           { return g.Int31n(n) }

func (r *Rand) Intn(n int) int { return int(below(pos(int64(n), "Intn"))) }
func Intn(n int) int           { return g.Intn(n) }

func (r *Rand) Float64() float64 { return float64(below(1000)) / 1000 }
func Float64() float64           { return g.Float64() }

func (r *Rand) Float32() float32 { return float32(below(1000)) / 1000 }
func Float32() float32           { return g.Float32() }

func (r *Rand) NormFloat64() float64 { return float64(below(1000))/500 - 1 }
func NormFloat64() float64           { return g.NormFloat64() }

func (r *Rand) ExpFloat64() float64 { return float64(below(1000)) / 500 }
func ExpFloat64() float64           { return g.ExpFloat64() }

func (r *Rand) Perm(n int) []int { return perm(n) }
func Perm(n int) []int           { return g.Perm(n) }

func (r *Rand) Shuffle(n int, swap func(i, j int)) { shuffle(n, swap) }
func Shuffle(n int, swap func(i, j int))           { shuffle(n, swap) }

func (r *Rand) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(below(256))
	}
	return len(p), nil
}
func Read(p []byte) (int, error) { return g.Read(p) }
