// Package rand replaces math/rand/v2 inside instrumented code: what the
// package functions give is chosen by the simulator.
package rand

import (
	"math/rand/v2"

	"verifsim/rt"
)

type (
	Rand    = rand.Rand
	Source  = rand.Source
	Zipf    = rand.Zipf
	PCG     = rand.PCG
	ChaCha8 = rand.ChaCha8
)

var (
	New        = rand.New
	NewPCG     = rand.NewPCG
	NewChaCha8 = rand.NewChaCha8
	NewZipf    = rand.NewZipf
)

type env struct{}

var outside = rt.NewRng(1)

func (env) Uint64() uint64 {
	if r := rt.Env(); r != nil {
		return r.U64()
	}
	return outside.U64()
}

func g() *Rand { return rand.New(env{}) }

func ExpFloat64() float64                { return g().ExpFloat64() }
func NormFloat64() float64               { return g().NormFloat64() }
func Float32() float32                   { return g().Float32() }
func Float64() float64                   { return g().Float64() }
func Int() int                           { return g().Int() }
func Int32() int32                       { return g().Int32() }
func Int32N(n int32) int32               { return g().Int32N(n) }
func Int64() int64                       { return g().Int64() }
func Int64N(n int64) int64               { return g().Int64N(n) }
func IntN(n int) int                     { return g().IntN(n) }
func Perm(n int) []int                   { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }
func Uint() uint                         { return uint(g().Uint64()) }
func Uint32() uint32                     { return g().Uint32() }
func Uint32N(n uint32) uint32            { return g().Uint32N(n) }
func Uint64() uint64                     { return g().Uint64() }
func Uint64N(n uint64) uint64            { return g().Uint64N(n) }
func UintN(n uint) uint                  { return uint(g().Uint64N(uint64(n))) }
