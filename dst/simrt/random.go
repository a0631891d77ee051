package simrt

import (
	"io"
	"math/rand"
	"sync"
)

// Randomness the library draws from math/rand/v2 and crypto/rand comes from
// the run's seed.
var (
	libMu   sync.Mutex
	libRand = rand.New(rand.NewSource(1))
)

// SeedRand starts a run's randomness.
func SeedRand(seed uint64) {
	libMu.Lock()
	defer libMu.Unlock()
	libRand = rand.New(rand.NewSource(int64(seed)))
}

func draw[T any](f func(r *rand.Rand) T) T {
	libMu.Lock()
	defer libMu.Unlock()
	return f(libRand)
}

func V2IntN(n int) int          { return draw(func(r *rand.Rand) int { return r.Intn(n) }) }
func V2Int() int                { return draw(func(r *rand.Rand) int { return r.Int() }) }
func V2Int32() int32            { return draw(func(r *rand.Rand) int32 { return r.Int31() }) }
func V2Int32N(n int32) int32    { return draw(func(r *rand.Rand) int32 { return r.Int31n(n) }) }
func V2Int64() int64            { return draw(func(r *rand.Rand) int64 { return r.Int63() }) }
func V2Int64N(n int64) int64    { return draw(func(r *rand.Rand) int64 { return r.Int63n(n) }) }
func V2Uint32() uint32          { return draw(func(r *rand.Rand) uint32 { return r.Uint32() }) }
func V2Uint32N(n uint32) uint32 { return uint32(V2Int64N(int64(n))) }
func V2Uint64() uint64          { return draw(func(r *rand.Rand) uint64 { return r.Uint64() }) }
func V2Float64() float64        { return draw(func(r *rand.Rand) float64 { return r.Float64() }) }
func V2Float32() float32        { return draw(func(r *rand.Rand) float32 { return r.Float32() }) }
func V2NormFloat64() float64    { return draw(func(r *rand.Rand) float64 { return r.NormFloat64() }) }
func V2ExpFloat64() float64     { return draw(func(r *rand.Rand) float64 { return r.ExpFloat64() }) }
func V2Perm(n int) []int        { return draw(func(r *rand.Rand) []int { return r.Perm(n) }) }

func V2Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, V2IntN(i+1))
	}
}

type libReader struct{}

func (libReader) Read(p []byte) (int, error) { return V2Read(p) }

// V2Reader stands for crypto/rand.Reader.
var V2Reader io.Reader = libReader{}

func V2Read(p []byte) (int, error) {
	return draw(func(r *rand.Rand) int { n, _ := r.Read(p); return n }), nil
}
