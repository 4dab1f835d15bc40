// Package simrand replaces math/rand in the code under test: the process-wide
// generator draws from the run's environment.
package simrand

import (
	"math/rand"

	"vsim/rt"
)

type (
	Rand   = rand.Rand
	Source = rand.Source
)

func New(s Source) *Rand          { return rand.New(s) }
func NewSource(seed int64) Source { return rand.NewSource(seed) }

func g() *rand.Rand { return rand.New(rand.NewSource(int64(rt.EnvRand() >> 1))) }

func Seed(int64)                         {}
func Int() int                           { return g().Int() }
func Intn(n int) int                     { return g().Intn(n) }
func IntN(n int) int                     { return g().Intn(n) }
func Int31() int32                       { return g().Int31() }
func Int31n(n int32) int32               { return g().Int31n(n) }
func Int63() int64                       { return g().Int63() }
func Int63n(n int64) int64               { return g().Int63n(n) }
func Int64() int64                       { return g().Int63() }
func Int64N(n int64) int64               { return g().Int63n(n) }
func Uint32() uint32                     { return g().Uint32() }
func Uint64() uint64                     { return g().Uint64() }
func Float64() float64                   { return g().Float64() }
func Float32() float32                   { return g().Float32() }
func Perm(n int) []int                   { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }
func Read(p []byte) (n int, err error)   { return g().Read(p) }

// VrtShim marks the simulated package.
const VrtShim = 0

func Uint() uint              { return uint(g().Uint64()) }
func Int32() int32            { return g().Int31() }
func Int32N(n int32) int32    { return g().Int31n(n) }
func UintN(n uint) uint       { return uint(g().Int63n(int64(n))) }
func Uint32N(n uint32) uint32 { return uint32(g().Int63n(int64(n))) }
func Uint64N(n uint64) uint64 { return g().Uint64() % n }
func ExpFloat64() float64     { return g().ExpFloat64() }
func NormFloat64() float64    { return g().NormFloat64() }
func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	return T(g().Uint64() % uint64(n))
}
