// Package vrand2 stands in for math/rand/v2: what is drawn is a choice of the
// model checker.
package vrand2

import (
	"math/rand/v2"

	"gRedis/zzverif/vrt"
)

type (
	Source  = rand.Source
	PCG     = rand.PCG
	ChaCha8 = rand.ChaCha8
)

func NewPCG(a, b uint64) *PCG           { return rand.NewPCG(a, b) }
func NewChaCha8(seed [32]byte) *ChaCha8 { return rand.NewChaCha8(seed) }
func New(src Source) *Rand              { return &Rand{} }

// N stands in for rand.N.
func N[I interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n I) I {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return I(below(uint64(n)))
}

func below(n uint64) uint64 { return vrt.Pick(n) }

func shuffle(n int, swap func(i, j int)) {
	if n < 0 {
		panic("invalid argument to Shuffle")
	}
	for i := n - 1; i > 0; i-- {
		swap(i, int(below(uint64(i+1))))
	}
}

func perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	shuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}

func pos(n int64, what string) uint64 {
	if n <= 0 {
		panic("invalid argument to " + what)
	}
	return uint64(n)
}

// Rand stands in for rand.Rand.
type Rand struct{}

var g = &Rand{}

func (r *Rand) Int64() int64 { return int64(below(1 << 63)) }
func Int64() int64           { return g.Int64() }

func (r *Rand) Uint32() uint32 { return uint32(below(1 << 32)) }
func Uint32() uint32           { return g.Uint32() }

func (r *Rand) Uint64() uint64 { return below(1<<64 - 1) }
func Uint64() uint64           { return g.Uint64() }

func (r *Rand) Uint() uint { return uint(below(1<<64 - 1)) }
func Uint() uint           { return g.Uint() }

func (r *Rand) Int32() int32 { return int32(below(1 << 31)) }
func Int32() int32           { return g.Int32() }

func (r *Rand) Int() int { return int(below(1 << 63)) }
func Int() int           { return g.Int() }

func (r *Rand) Int64N(n int64) int64 { return int64(below(pos(n, "Int64N"))) }
func Int64N(n int64) int64           { return g.Int64N(n) }

func (r *Rand) Int32N(n int32) int32 { return int32(below(pos(int64(n), "Int32N"))) }
func Int32N(n int32) int32           { return g.Int32N(n) }

func (r *Rand) IntN(n int) int { return int(below(pos(int64(n), "IntN"))) }
func IntN(n int) int           { return g.IntN(n) }

func (r *Rand) Uint64N(n uint64) uint64 { return below(n) }
func Uint64N(n uint64) uint64           { return g.Uint64N(n) }

func (r *Rand) Uint32N(n uint32) uint32 { return uint32(below(uint64(n))) }
func Uint32N(n uint32) uint32           { return g.Uint32N(n) }

func (r *Rand) UintN(n uint) uint { return uint(below(uint64(n))) }
func UintN(n uint) uint           { return g.UintN(n) }

func (r *Rand) Float64() float64 { return float64(below(1000)) / 1000 }
func Float64() float64           { return g.Float64() }

func (r *Rand) Float32() float32 { return float32(below(1000)) / 1000 }
func Float32() float32           { return g.Float32() }

func (r *Rand) NormFloat64() float64 { return float64(below(1000))/500 - 1 }
func NormFloat64() float64           { return g.NormFloat64() }

func (r *Rand) ExpFloat64() float64 { return float64(below(1000)) / 500 }
func ExpFloat64() float64           { return g.ExpFloat64() }

func (r *Rand) Perm(n int) []int { return perm(n) }
func Perm(n int) []int           { return g.Perm(n) }

func (r *Rand) Shuffle(n int, swap func(i, j int)) { shuffle(n, swap) }
func Shuffle(n int, swap func(i, j int))           { shuffle(n, swap) }
