// Package vc holds the specification vocabulary of the contracts. The verifier
// interprets these functions; the bodies are the executable meaning.
package vc

import "unsafe"

// Varint is the canonical (minimal) base-128 varint encoding of v.
func Varint(v uint64) []byte {
	var b []byte
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

// VarintLen is len(Varint(v)).
func VarintLen(v uint64) int { return len(Varint(v)) }

// Assert is a proof obligation.
func Assert(b bool) {
	if !b {
		panic("assertion")
	}
}

// Assume restricts the states under consideration (listed as an assumption).
func Assume(b bool) {}

// SameBytes reports equal length and content.
func SameBytes(a, b []byte) bool { return string(a) == string(b) }

// OrNil is f or nil: a table may lack an entry, but what it holds must be f.
func OrNil[F any](f F) F { return f }

// Regrow is b, kept in its array or moved to a new one: the capacity of the
// result, and what the array of b holds behind b, are unspecified.
func Regrow(b []byte) []byte { return append(b[:len(b):len(b)], 0)[:len(b)] }

// Fresh is the address of n bytes of new zeroed memory.
func Fresh(n int) unsafe.Pointer { return unsafe.Pointer(unsafe.SliceData(make([]uint64, (n+7)/8))) }

// FreshOf is the address of new memory for n bytes, aligned to align, scanned by
// the garbage collector (and zeroed) if abi is not 0.
func FreshOf(n, align int, abi uintptr) unsafe.Pointer { return Fresh(n) }

// Err is some non-nil error.
func Err() error { return errT{} }

type errT struct{}

func (errT) Error() string { return "error" }
