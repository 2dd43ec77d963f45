package main

import (
	"math/bits"
	"math/rand/v2"
	"reflect"
	"time"
	"unsafe"

	"pgregory.net/rapid"
)

// Coverage-guided search over the same generators: a case is the result of the
// random bits its generator drew. Bits that reached code or comparisons not
// reached before are kept, mutated and continued with fresh ones.

// bitSource feeds a generator: first buf, then random bits (or zeros).
type bitSource struct {
	buf  []uint64
	rnd  *rand.Rand
	rec  []uint64
	over int
}

type tooLong struct{}

func (s *bitSource) drawBits(n int) uint64 {
	var u uint64
	switch {
	case len(s.rec) < len(s.buf):
		u = s.buf[len(s.rec)]
	case s.rnd != nil:
		u = s.rnd.Uint64()
	default:
		if s.over++; s.over > 100000 {
			panic(tooLong{})
		}
	}
	if n < 64 {
		u &= 1<<n - 1
	}
	s.rec = append(s.rec, u)
	return u
}
func (s *bitSource) beginGroup(label string, standalone bool) int { return 0 }
func (s *bitSource) endGroup(i int, discard bool)                 {}

// bitStream has the methods of rapid's interface of that name.
type bitStream interface {
	drawBits(n int) uint64
	beginGroup(label string, standalone bool) int
	endGroup(i int, discard bool)
}

var tOffsets = func() (o struct {
	s  uintptr
	ok bool
}) {
	f, ok := reflect.TypeOf(rapid.T{}).FieldByName("s")
	if ok && f.Type.Kind() == reflect.Interface && f.Type.NumMethod() == reflect.TypeOf((*bitStream)(nil)).Elem().NumMethod() {
		o.s, o.ok = f.Offset, true
		for i := 0; i < f.Type.NumMethod(); i++ { // same table of methods
			m, w := f.Type.Method(i), reflect.TypeOf((*bitStream)(nil)).Elem().Method(i)
			if m.Name != w.Name || m.Type != w.Type {
				o.ok = false
			}
		}
	}
	return
}()

// generate runs the property's generator on the bits.
func (p *Prop) generate(src *bitSource) (c any, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			// tooLong, or rapid's way to say that these draws make no case
			if _, long := e.(tooLong); long || reflect.TypeOf(e).Name() == "invalidData" {
				c, ok = nil, false
				return
			}
			panic(e)
		}
	}()
	rt := new(rapid.T)
	*(*bitStream)(unsafe.Add(unsafe.Pointer(rt), tOffsets.s)) = src
	return p.gen(rt), true
}

func canGuide() bool { return tOffsets.ok && len(covCounters()) > 0 }

type seedCase struct {
	bits []uint64
	hits int
}

// guided runs n cases; it stops at a violation or when stop says so.
func (w *worker) guided(n int, seed uint64, stop func() bool) {
	rnd := rand.New(rand.NewPCG(seed, 1))
	cov := covCounters()
	seen := make([]byte, len(cov))
	seenCmp := make([]byte, len(cmpSeen))
	var corpus []seedCase
	var plain, plains time.Duration // what cases of fresh draws take
	for i := 0; i < n && !stop(); i++ {
		src := &bitSource{rnd: rnd}
		from := -1
		if len(corpus) > 0 && rnd.IntN(100) < 75 {
			from = rnd.IntN(len(corpus))
			if k := len(corpus) - 1 - rnd.IntN(min(len(corpus), 50)); rnd.IntN(2) == 0 {
				from = k // newer ones are asked more often
			}
			src.buf = mutateBits(rnd, corpus[from].bits, corpus[rnd.IntN(len(corpus))].bits)
		}
		c, ok := w.p.generate(src)
		if !ok {
			continue
		}
		clear(cov)
		clear(cmpSeen[:])
		cmpOn = true
		start := time.Now()
		err := w.one(c)
		took := time.Since(start)
		cmpOn = false
		if from < 0 {
			plain += took
			plains++
		}
		if err != nil {
			w.shrink(src.rec)
			return
		}
		fresh := false
		for j, v := range cov {
			if v != 0 {
				if b := byte(1) << (bits.Len8(v) - 1); seen[j]&b == 0 {
					seen[j] |= b
					fresh = true
				}
			}
		}
		for j, v := range cmpSeen {
			if v > seenCmp[j] {
				seenCmp[j] = v
				fresh = true
			}
		}
		if fresh && len(src.rec) < 20000 && took < 4*plain/max(plains, 1)+time.Millisecond { // costly cases would breed costlier ones
			corpus = append(corpus, seedCase{bits: src.rec})
			if from >= 0 {
				corpus[from].hits++
			}
		}
	}
	edges := 0
	for _, v := range seen {
		if v != 0 {
			edges++
		}
	}
	w.res.Corpus, w.res.Edges = len(corpus), edges
}

// mutateBits changes a recorded run of draws in one to six places.
func mutateBits(rnd *rand.Rand, a, other []uint64) []uint64 {
	out := append([]uint64{}, a...)
	for k := 1 << rnd.IntN(3); k > 0 && len(out) > 0; k-- {
		i := rnd.IntN(len(out))
		switch rnd.IntN(12) {
		case 0: // the rest is drawn anew
			out = out[:i]
		case 1, 2:
			out[i] = rnd.Uint64()
		case 3, 4:
			out[i] = uint64(rnd.IntN(16))
		case 5:
			out[i] += uint64(rnd.IntN(9)) - 4
		case 6:
			out[i] ^= 1 << rnd.IntN(64)
		case 7:
			out[i] = out[rnd.IntN(len(out))]
		case 8: // drop some draws
			j := min(len(out), i+1+rnd.IntN(12))
			out = append(out[:i], out[j:]...)
		case 9: // repeat some draws
			j := min(len(out), i+1+rnd.IntN(30))
			out = append(out[:j], append(append([]uint64{}, out[i:j]...), out[j:]...)...)
		case 10: // take some draws of another case
			if len(other) > 0 {
				x := rnd.IntN(len(other))
				y := min(len(other), x+1+rnd.IntN(60))
				out = append(out[:i], append(append([]uint64{}, other[x:y]...), out[i:]...)...)
			}
		case 11: // continue as another case does
			if len(other) > i {
				out = append(out[:i], other[i:]...)
			}
		}
	}
	return out
}

// shrink looks for fewer and smaller draws that still fail; every failing case
// it meets replaces the violation.
func (w *worker) shrink(best []uint64) {
	end := shrinkDeadline()
	try := func(cand []uint64) bool {
		src := &bitSource{buf: cand}
		c, ok := w.p.generate(src)
		if !ok || len(src.rec) > len(best) && len(cand) >= len(best) {
			return false
		}
		keep := w.res.Violation
		if w.one(c) == nil {
			w.res.Violation = keep
			return false
		}
		if len(src.rec) < len(cand) {
			cand = src.rec
		}
		best = append([]uint64{}, cand...)
		return true
	}
	for again := true; again && !end(); {
		again = false
		for size := len(best); size > 0 && !end(); size /= 2 {
			for i := len(best) - size; i >= 0 && !end(); i -= size {
				if i+size <= len(best) && try(append(append([]uint64{}, best[:i]...), best[i+size:]...)) {
					again = true
				}
			}
		}
		for i := 0; i < len(best) && !end(); i++ {
			for _, v := range []uint64{0, best[i] >> 32, best[i] >> 8, best[i] / 2, best[i] - 1} {
				if i < len(best) && v < best[i] {
					cand := append([]uint64{}, best...)
					cand[i] = v
					if try(cand) {
						again = true
						break
					}
				}
			}
		}
	}
}
