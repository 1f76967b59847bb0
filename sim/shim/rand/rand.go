// Package rand stands in for math/rand: the default source belongs to the world.
package rand

import (
	"lhasim/vsim"
	"math/rand"
)

type (
	Rand   = rand.Rand
	Source = rand.Source
)

func r() *rand.Rand {
	n := 0
	if vsim.W != nil {
		vsim.W.TmpSeq++
		n = vsim.W.TmpSeq
	}
	return rand.New(rand.NewSource(int64(vsim.Mix(uint64(n), 5))))
}
func New(s Source) *Rand              { return rand.New(s) }
func NewSource(n int64) Source        { return rand.NewSource(n) }
func Seed(int64)                      {}
func Int() int                        { return r().Int() }
func Intn(n int) int                  { return r().Intn(n) }
func Int31() int32                    { return r().Int31() }
func Int31n(n int32) int32            { return r().Int31n(n) }
func Int63() int64                    { return r().Int63() }
func Int63n(n int64) int64            { return r().Int63n(n) }
func Uint32() uint32                  { return r().Uint32() }
func Uint64() uint64                  { return r().Uint64() }
func Float64() float64                { return r().Float64() }
func Float32() float32                { return r().Float32() }
func Perm(n int) []int                { return r().Perm(n) }
func Read(b []byte) (int, error)      { return r().Read(b) }
func Shuffle(n int, f func(i, j int)) { r().Shuffle(n, f) }
