package prutal

// Contracts of the block allocator (P09): what Malloc returns is aligned, lies
// within one block of memory and apart from everything returned before.

import (
	"unsafe"

	"github.com/cloudwego/prutal/internal/vc"
)

// Ghost_BlockSize is the size of the block the runtime allocated at p
func Ghost_BlockSize(p uintptr) uintptr { return 0 }

// Ghost_BlockType is the type the collector scans the block at p by, 0 if it does not
func Ghost_BlockType(p uintptr) uintptr { return 0 }
func Ghost_Zeroed(p uintptr) bool       { return false }

// Ghost_Held: p is a block that was in use before
func Ghost_Held(p uintptr) bool { return false }

func Model_mallocgc(size uintptr, typ unsafe.Pointer, needzero bool) unsafe.Pointer {
	p := vc.Fresh(int(size))
	q := uintptr(p)
	vc.Assume(Ghost_BlockType(q) == uintptr(typ) && Ghost_Zeroed(q) == needzero)
	vc.Assume(Ghost_BlockSize(q) == size && q%8 == 0 && q < 1<<47 && !Ghost_Held(q))
	return p
}

// block: the block of s is memory of its own, in use up to s.p
func block(s *span) bool {
	return 0 <= s.p && s.p <= s.n && s.n < 1<<40 && uintptr(s.b) < 1<<47 && Ghost_BlockSize(uintptr(s.b)) == uintptr(s.n)
}

func Lemma_span_init(s *span) {
	s.init()
	vc.Assert(block(s) && s.p == 0)
}

func Lemma_span_Malloc(s *span, n, align int) {
	vc.Assume(block(s) && Ghost_Held(uintptr(s.b)))
	vc.Assume(0 <= n && n < 1<<30 && (align == 1 || align == 2 || align == 4 || align == 8))
	p, b := s.p, s.b
	q := uintptr(s.Malloc(n, align))
	vc.Assert(block(s))
	vc.Assert(q%uintptr(align) == 0)
	lo := uintptr(s.b)
	if s.b == b {
		lo += uintptr(p)
	}
	// q[:n] lies behind everything allocated before and in front of everything after
	vc.Assert(lo <= q && q+uintptr(n) <= uintptr(s.b)+uintptr(s.p))
}

// Lemma_Decoder_Malloc: whatever the way, the memory is apart from all other
// memory, aligned, large enough, and scanned by the collector if it has to be
func Lemma_Decoder_Malloc(d *Decoder, n, align int, abi uintptr) {
	s := &d.s
	vc.Assume(block(s) && Ghost_Held(uintptr(s.b)))
	vc.Assume(0 <= n && n < 1<<30 && (align == 1 || align == 2 || align == 4 || align == 8))
	p, b := s.p, s.b
	q := uintptr(d.Malloc(n, align, abi))
	vc.Assert(block(s))
	vc.Assert(q%uintptr(align) == 0)
	lo := uintptr(s.b)
	if s.b == b {
		lo += uintptr(p)
	}
	fresh := Ghost_BlockSize(q) == uintptr(n) && !Ghost_Held(q) && Ghost_BlockType(q) == abi && (abi == 0 || Ghost_Zeroed(q))
	vc.Assert(fresh || abi == 0 && lo <= q && q+uintptr(n) <= uintptr(s.b)+uintptr(s.p))
}
