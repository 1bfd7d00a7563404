// Package rand is package math/rand drawing from the run's seed.
package rand

import (
	"math/rand"

	"simmod/simrt"
)

type src struct{}

func (src) Uint64() uint64 { return simrt.Rand() }
func (src) Int63() int64   { return int64(simrt.Rand() >> 1) }
func (src) Seed(int64)     {}

func r() *rand.Rand { return rand.New(src{}) }

func Seed(int64)                      {}
func Int63() int64                    { return r().Int63() }
func Uint32() uint32                  { return r().Uint32() }
func Uint64() uint64                  { return r().Uint64() }
func Int31() int32                    { return r().Int31() }
func Int() int                        { return r().Int() }
func Int63n(n int64) int64            { return r().Int63n(n) }
func Int31n(n int32) int32            { return r().Int31n(n) }
func Intn(n int) int                  { return r().Intn(n) }
func Float64() float64                { return r().Float64() }
func Float32() float32                { return r().Float32() }
func Perm(n int) []int                { return r().Perm(n) }
func Shuffle(n int, f func(i, j int)) { r().Shuffle(n, f) }
func Read(p []byte) (int, error)      { return r().Read(p) }
func NormFloat64() float64            { return r().NormFloat64() }
func ExpFloat64() float64             { return r().ExpFloat64() }
