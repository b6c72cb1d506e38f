//go:build go1.22

// Package rand is the controlled scheduler's math/rand: the package-level
// functions follow a fixed sequence.
package rand

import (
	"math/rand"

	"github.com/NVIDIA/vdisc/zzverif/vs"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

func New(src Source) *Rand        { return rand.New(src) }
func NewSource(seed int64) Source { return rand.NewSource(1) }
func Seed(seed int64)             {}
func Uint64() uint64              { return vs.Rand() }
func Uint32() uint32              { return uint32(vs.Rand() >> 32) }
func Int63() int64                { return int64(vs.Rand() >> 1) }
func Int31() int32                { return int32(vs.Rand() >> 33) }
func Int() int                    { return int(vs.Rand() >> 1) }
func Int63n(n int64) int64        { return Int63() % n }
func Int31n(n int32) int32        { return Int31() % n }
func Intn(n int) int              { return Int() % n }
func Float64() float64            { return float64(vs.Rand()>>11) / (1 << 53) }
func Float32() float32            { return float32(vs.Rand()>>40) / (1 << 24) }
func NormFloat64() float64        { return Float64() }
func ExpFloat64() float64         { return Float64() }
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(vs.Rand())
	}
	return len(p), nil
}

func Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	Shuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}

func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
