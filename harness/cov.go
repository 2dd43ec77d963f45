//go:build verifcov

package main

import (
	"math/bits"
	"unsafe"
)

// The code under test is compiled with -d=libfuzzer (see tools/build.sh): the
// compiler adds a counter per edge and a call per comparison.

//go:linkname covFirst internal/fuzz._counters
//go:linkname covLast internal/fuzz._ecounters
var covFirst, covLast [0]byte

func covCounters() []byte {
	p := unsafe.Pointer(&covFirst)
	return unsafe.Slice((*byte)(p), uintptr(unsafe.Pointer(&covLast))-uintptr(p))
}

// cmpSeen holds the closest each comparison came to equality in this case.
var cmpSeen [1 << 15]byte
var cmpOn bool

func cmpNote(pc uint, close int) {
	if cmpOn {
		h := (pc ^ pc>>13) * 0x9e3779b1 % (1 << 15)
		if v := byte(close); v > cmpSeen[h] {
			cmpSeen[h] = v
		}
	}
}

//go:linkname libfuzzerTraceCmp1 runtime.libfuzzerTraceCmp1
//go:linkname libfuzzerTraceCmp2 runtime.libfuzzerTraceCmp2
//go:linkname libfuzzerTraceCmp4 runtime.libfuzzerTraceCmp4
//go:linkname libfuzzerTraceCmp8 runtime.libfuzzerTraceCmp8
//go:linkname libfuzzerTraceConstCmp1 runtime.libfuzzerTraceConstCmp1
//go:linkname libfuzzerTraceConstCmp2 runtime.libfuzzerTraceConstCmp2
//go:linkname libfuzzerTraceConstCmp4 runtime.libfuzzerTraceConstCmp4
//go:linkname libfuzzerTraceConstCmp8 runtime.libfuzzerTraceConstCmp8
//go:linkname libfuzzerHookStrCmp runtime.libfuzzerHookStrCmp
//go:linkname libfuzzerHookEqualFold runtime.libfuzzerHookEqualFold

func near(a, b uint64) int {
	if a == b {
		return 65
	}
	d := a - b
	if b > a {
		d = b - a
	}
	return bits.LeadingZeros64(d) + 1
}

func libfuzzerTraceCmp1(a, b uint8, pc uint)       { cmpNote(pc, near(uint64(a), uint64(b))) }
func libfuzzerTraceCmp2(a, b uint16, pc uint)      { cmpNote(pc, near(uint64(a), uint64(b))) }
func libfuzzerTraceCmp4(a, b uint32, pc uint)      { cmpNote(pc, near(uint64(a), uint64(b))) }
func libfuzzerTraceCmp8(a, b uint64, pc uint)      { cmpNote(pc, near(a, b)) }
func libfuzzerTraceConstCmp1(a, b uint8, pc uint)  { cmpNote(pc, near(uint64(a), uint64(b))) }
func libfuzzerTraceConstCmp2(a, b uint16, pc uint) { cmpNote(pc, near(uint64(a), uint64(b))) }
func libfuzzerTraceConstCmp4(a, b uint32, pc uint) { cmpNote(pc, near(uint64(a), uint64(b))) }
func libfuzzerTraceConstCmp8(a, b uint64, pc uint) { cmpNote(pc, near(a, b)) }
func libfuzzerHookEqualFold(a, b string, pc uint)  { libfuzzerHookStrCmp(a, b, pc) }

func libfuzzerHookStrCmp(a, b string, pc uint) {
	if !cmpOn {
		return
	}
	n := 0
	for n < len(a) && n < len(b) && n < 40 && a[n] == b[n] {
		n++
	}
	if n == len(a) && n == len(b) {
		n = 60
	}
	cmpNote(pc, n+1)
}
