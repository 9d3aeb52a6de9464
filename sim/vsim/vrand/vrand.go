// Package vrand replaces math/rand in instrumented code.
package vrand

import (
	"math/rand"

	"verif.local/vsim"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

type src struct{}

func (src) Int63() int64   { return int64(vsim.Aux().U64() >> 1) }
func (src) Uint64() uint64 { return vsim.Aux().U64() }
func (src) Seed(int64)     {}

func r() *rand.Rand { return rand.New(src{}) }

func New(s Source) *Rand                                       { return rand.New(s) }
func NewSource(seed int64) Source                              { return rand.NewSource(seed) }
func NewZipf(x *Rand, s float64, v float64, imax uint64) *Zipf { return rand.NewZipf(x, s, v, imax) }
func Seed(int64)                                               {}
func Int63() int64                                             { return r().Int63() }
func Uint32() uint32                                           { return r().Uint32() }
func Uint64() uint64                                           { return r().Uint64() }
func Int31() int32                                             { return r().Int31() }
func Int() int                                                 { return r().Int() }
func Int63n(n int64) int64                                     { return r().Int63n(n) }
func Int31n(n int32) int32                                     { return r().Int31n(n) }
func Intn(n int) int                                           { return r().Intn(n) }
func Float64() float64                                         { return r().Float64() }
func Float32() float32                                         { return r().Float32() }
func Perm(n int) []int                                         { return r().Perm(n) }
func Shuffle(n int, f func(i, j int))                          { r().Shuffle(n, f) }
func NormFloat64() float64                                     { return r().NormFloat64() }
func ExpFloat64() float64                                      { return r().ExpFloat64() }
