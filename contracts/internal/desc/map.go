package desc

// Contracts of the descriptor cache (P11). A slot is an immutable list behind
// an atomic pointer: Get reads the list it loaded, Set stores a new one and
// leaves the old one, which other goroutines may be reading, as it is.

func Spec_mapStructDesc_Get(m *mapStructDesc, abiType uintptr) *StructDesc {
	p := m.buckets[abiType&mapStructDescBuckets].Load()
	if p == nil {
		return nil
	}
	l := *p
	for i := 0; i < len(l); i++ {
		if l[i].abiType == abiType {
			return l[i].sd
		}
	}
	return nil
}

func Opaque_mapStructDesc_Get() {}

func Spec_mapStructDesc_Set(m *mapStructDesc, abiType uintptr, sd *StructDesc) {
	if m.Get(abiType) == sd {
		return
	}
	b := &m.buckets[abiType&mapStructDescBuckets]
	var old []mapStructDescItem
	if p := b.Load(); p != nil {
		old = *p
	}
	l := make([]mapStructDescItem, len(old), len(old)+1)
	copy(l, old)
	k := 0
	for k < len(l) && l[k].abiType != abiType {
		k++
	}
	if k < len(l) {
		l[k].sd = sd
	} else {
		l = append(l, mapStructDescItem{abiType, sd})
	}
	b.Store(&l)
}
