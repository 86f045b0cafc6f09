package main

// Symbolic parameters of a function under verification.

import "go/types"

// symParam: slices of scalars are buffers of their own, pointers of the hack
// package and unsafe pointers are raw addresses, other pointers are typed
func (x *Exec) symParam(st *State, name string, t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Slice:
		ws := compWidths(u.Elem())
		n, cp := mkVar(name+".len", 64), mkVar(name+".cap", 64)
		st.assume(tUle(n, cp))
		st.assume(tUlt(cp, i64(int64(lenMax))))
		bn := name + ":" + regionOf(t)
		src := &Src{name: bn, key: bn}
		content := mkSeq(ws, Seg{kind: sgSub, src: src, off: i64(0), n: cp})
		id := st.newBuf(content, cp, 0)
		isnil := mkVar(name+".nil", 0)
		st.assume(tImp(isnil, tEq(cp, i64(0))))
		x.paramBufs[id] = n
		return SliceV{elem: u.Elem(), kind: pkBuf, buf: id, off: i64(0), n: n, cap: cp, isnil: isnil}
	case *types.Signature:
		s := mkVar(name, 64)
		return FuncV{sym: s, nilF: tEq(s, i64(0)), org: "param:" + name, typ: t}
	case *types.Interface:
		return IfaceV{tag: mkVar(name+".tag", 64), data: mkVar(name+".val", 64), typ: t}
	case *types.Pointer:
		if _, isStruct := under(u.Elem()).(*types.Struct); !isStruct && !isRawPtrType(t) {
			return PtrV{kind: pkRaw, addr: mkVar(name, 64)}
		}
	}
	return st.symValue(name, t)
}
