// Package rand is the simulated stand-in for math/rand/v2.
package rand

import (
	srand "math/rand/v2"
	"verifsim/sim"
)

type src struct{}

func (src) Uint64() uint64 { return sim.ProgRand() }

var g = srand.New(src{})

func Int() int                            { return g.Int() }
func IntN(n int) int                      { return g.IntN(n) }
func Int32() int32                        { return g.Int32() }
func Int32N(n int32) int32                { return g.Int32N(n) }
func Int64() int64                        { return g.Int64() }
func Int64N(n int64) int64                { return g.Int64N(n) }
func Uint32() uint32                      { return g.Uint32() }
func Uint64() uint64                      { return g.Uint64() }
func Uint32N(n uint32) uint32             { return g.Uint32N(n) }
func Uint64N(n uint64) uint64             { return g.Uint64N(n) }
func Float32() float32                    { return g.Float32() }
func Float64() float64                    { return g.Float64() }
func Perm(n int) []int                    { return g.Perm(n) }
func Shuffle(n int, f func(i, j int))     { g.Shuffle(n, f) }
