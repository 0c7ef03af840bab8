package vsched

import (
	"math"
	"math/rand"
	"sync/atomic"
)

// Draws, if set, makes the random values of math/rand in instrumented packages.
type Draws interface {
	Int63n(n int64) int64 // uniform in [0, n), n > 0
	Norm() float64        // standard normal
	Word() uint64         // 64 random bits
}

var draws atomic.Pointer[Draws]

// SetDraws makes d the source of random values; nil restores math/rand.
func SetDraws(d Draws) {
	if d == nil {
		draws.Store(nil)
	} else {
		draws.Store(&d)
	}
}

func bounded(n int64) (int64, bool) {
	d := draws.Load()
	if d == nil || n <= 0 {
		return 0, false
	}
	return (*d).Int63n(n), true
}

func word() (uint64, bool) {
	d := draws.Load()
	if d == nil {
		return 0, false
	}
	return (*d).Word(), true
}

func RandIntn(n int) int {
	if v, ok := bounded(int64(n)); ok {
		return int(v)
	}
	return rand.Intn(n)
}

func RandInt31n(n int32) int32 {
	if v, ok := bounded(int64(n)); ok {
		return int32(v)
	}
	return rand.Int31n(n)
}

func RandInt63n(n int64) int64 {
	if v, ok := bounded(n); ok {
		return v
	}
	return rand.Int63n(n)
}

func RandInt63() int64 {
	if w, ok := word(); ok {
		return int64(w & math.MaxInt64)
	}
	return rand.Int63()
}

func RandInt() int {
	if w, ok := word(); ok {
		return int(w & math.MaxInt64)
	}
	return rand.Int()
}

func RandInt31() int32 {
	if w, ok := word(); ok {
		return int32(w >> 33)
	}
	return rand.Int31()
}

func RandUint32() uint32 {
	if w, ok := word(); ok {
		return uint32(w >> 32)
	}
	return rand.Uint32()
}

func RandUint64() uint64 {
	if w, ok := word(); ok {
		return w
	}
	return rand.Uint64()
}

func RandFloat64() float64 {
	if w, ok := word(); ok {
		return float64(w>>11) / (1 << 53)
	}
	return rand.Float64()
}

func RandFloat32() float32 {
	if w, ok := word(); ok {
		return float32(w>>40) / (1 << 24)
	}
	return rand.Float32()
}

func RandNormFloat64() float64 {
	if d := draws.Load(); d != nil {
		return (*d).Norm()
	}
	return rand.NormFloat64()
}

// SourceMisuse counts calls of a source made by rand.NewSource, which is not
// safe for concurrent use, during another call of it.
var SourceMisuse atomic.Int64

type source struct {
	src  rand.Source
	busy atomic.Bool
}

// RandNewSource returns a source that checks that it is not used concurrently.
func RandNewSource(seed int64) rand.Source { return &source{src: rand.NewSource(seed)} }

func (s *source) use(f func()) {
	if s.busy.Swap(true) {
		SourceMisuse.Add(1)
		return // and do not make it worse
	}
	defer s.busy.Store(false)
	f()
	TryPoint()
}

func (s *source) Int63() (v int64) {
	s.use(func() {
		if w, ok := word(); ok {
			v = int64(w & math.MaxInt64)
		} else {
			v = s.src.Int63()
		}
	})
	return
}

func (s *source) Uint64() (v uint64) {
	s.use(func() {
		if w, ok := word(); ok {
			v = w
		} else if x, ok := s.src.(rand.Source64); ok {
			v = x.Uint64()
		} else {
			v = uint64(s.src.Int63())>>31 | uint64(s.src.Int63())<<32
		}
	})
	return
}

func (s *source) Seed(seed int64) { s.use(func() { s.src.Seed(seed) }) }
