// Package rand replaces math/rand inside instrumented code: what the package
// functions give is chosen by the simulator.
package rand

import (
	"math/rand"

	"verifsim/rt"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

var (
	New       = rand.New
	NewSource = rand.NewSource
	NewZipf   = rand.NewZipf
)

type env struct{}

var outside = rt.NewRng(1)

func (env) Uint64() uint64 {
	if r := rt.Env(); r != nil {
		return r.U64()
	}
	return outside.U64()
}
func (e env) Int63() int64 { return int64(e.Uint64() >> 1) }
func (env) Seed(int64)     {}

func g() *Rand { return rand.New(env{}) }

func Seed(int64)                         {}
func ExpFloat64() float64                { return g().ExpFloat64() }
func NormFloat64() float64               { return g().NormFloat64() }
func Float32() float32                   { return g().Float32() }
func Float64() float64                   { return g().Float64() }
func Int() int                           { return g().Int() }
func Int31() int32                       { return g().Int31() }
func Int31n(n int32) int32               { return g().Int31n(n) }
func Int63() int64                       { return g().Int63() }
func Int63n(n int64) int64               { return g().Int63n(n) }
func Intn(n int) int                     { return g().Intn(n) }
func Perm(n int) []int                   { return g().Perm(n) }
func Read(p []byte) (int, error)         { return g().Read(p) }
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }
func Uint32() uint32                     { return g().Uint32() }
func Uint64() uint64                     { return g().Uint64() }
