//go:build go1.22

package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unsafe"
)

var bytesT = reflect.TypeOf([]byte(nil))

type fieldT struct {
	num     int64
	enc     string
	rep     bool
	packed  bool
	offset  uintptr
	t       reflect.Type // the Go type of the field (of the wrapper's member for a oneof)
	oneof   bool
	ifaceT  reflect.Type
	wrapper reflect.Type // struct type
	ptr     bool         // singular pointer (t = *base)
	base    reflect.Type // singular: pointed-to type; list: element type without pointer
	elemPtr bool         // list of pointers
	isMap   bool
	kEnc    string
	vEnc    string
	vPtr    bool
	vBase   reflect.Type
	name    string
}

type msgT struct {
	t      reflect.Type
	fields []*fieldT
	byNum  map[int64]*fieldT
	unk    int // 1: []byte, 2: *[]byte
	unkOff uintptr
}

var (
	msgMu sync.Mutex
	msgs  = map[reflect.Type]*msgT{}
)

func isBytesT(t reflect.Type) bool { return t == bytesT }

func schemaOf(t reflect.Type) *msgT {
	msgMu.Lock()
	defer msgMu.Unlock()
	return schemaOfLocked(t)
}

func parseTag(tag string) (num int64, enc string, rep, packed bool) {
	for _, s := range strings.Split(tag, ",") {
		switch s {
		case "varint", "zigzag32", "zigzag64", "fixed32", "fixed64", "bytes":
			enc = s
		case "rep":
			rep = true
		case "packed":
			packed = true
		default:
			if n, err := strconv.ParseInt(s, 10, 64); err == nil {
				num = n
			}
		}
	}
	return
}

func mkField(name string, off uintptr, t reflect.Type, tag reflect.StructTag) *fieldT {
	f := &fieldT{name: name, offset: off, t: t}
	f.num, f.enc, f.rep, f.packed = parseTag(tag.Get("protobuf"))
	switch {
	case t.Kind() == reflect.Map:
		f.isMap = true
		_, f.kEnc, _, _ = parseTag(tag.Get("protobuf_key"))
		_, f.vEnc, _, _ = parseTag(tag.Get("protobuf_val"))
		f.vBase = t.Elem()
		if f.vBase.Kind() == reflect.Pointer {
			f.vPtr, f.vBase = true, f.vBase.Elem()
		}
	case f.rep:
		f.base = t.Elem()
		if f.base.Kind() == reflect.Pointer {
			f.elemPtr, f.base = true, f.base.Elem()
		}
	default:
		f.base = t
		if t.Kind() == reflect.Pointer {
			f.ptr, f.base = true, t.Elem()
		}
	}
	return f
}

func schemaOfLocked(t reflect.Type) *msgT {
	if m := msgs[t]; m != nil {
		return m
	}
	m := &msgT{t: t, byNum: map[int64]*fieldT{}}
	msgs[t] = m
	var wrappers []interface{}
	switch x := reflect.New(t).Interface().(type) {
	case interface{ XXX_OneofWrappers() []interface{} }:
		wrappers = x.XXX_OneofWrappers()
	case interface{ ProtoReflect() *prInfo }:
		wrappers = x.ProtoReflect().Inner.OneofWrappers
	}
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		if sf.Name == "unknownFields" || sf.Name == "XXX_unrecognized" {
			if sf.Type == bytesT {
				m.unk = 1
			} else {
				m.unk = 2
			}
			m.unkOff = sf.Offset
			continue
		}
		if sf.Tag.Get("protobuf_oneof") != "" {
			for _, w := range wrappers {
				wt := reflect.TypeOf(w)
				if !wt.Implements(sf.Type) {
					continue
				}
				wf := wt.Elem().Field(0)
				f := mkField(sf.Name, sf.Offset, wf.Type, wf.Tag)
				f.oneof, f.ifaceT, f.wrapper = true, sf.Type, wt.Elem()
				m.fields = append(m.fields, f)
			}
			continue
		}
		if sf.Tag.Get("protobuf") != "" {
			m.fields = append(m.fields, mkField(sf.Name, sf.Offset, sf.Type, sf.Tag))
		}
	}
	sort.SliceStable(m.fields, func(i, j int) bool { return m.fields[i].num < m.fields[j].num })
	for _, f := range m.fields {
		m.byNum[f.num] = f
	}
	return m
}

func at(t reflect.Type, p unsafe.Pointer) reflect.Value { return reflect.NewAt(t, p).Elem() }

func (m *msgT) unkStore(p unsafe.Pointer) []byte {
	switch m.unk {
	case 1:
		return *(*[]byte)(unsafe.Add(p, m.unkOff))
	case 2:
		if x := *(**[]byte)(unsafe.Add(p, m.unkOff)); x != nil {
			return *x
		}
	}
	return nil
}

func (m *msgT) setUnk(p unsafe.Pointer, b []byte) {
	switch m.unk {
	case 1:
		*(*[]byte)(unsafe.Add(p, m.unkOff)) = b
	case 2:
		*(**[]byte)(unsafe.Add(p, m.unkOff)) = &b
	}
}

// selected returns the address of the oneof member's value if f is the selected member.
func (f *fieldT) selected(p unsafe.Pointer) (unsafe.Pointer, bool) {
	iv := at(f.ifaceT, unsafe.Add(p, f.offset))
	if iv.IsNil() || iv.Elem().Type() != reflect.PointerTo(f.wrapper) || iv.Elem().IsNil() {
		return nil, false
	}
	return iv.Elem().UnsafePointer(), true
}

func (f *fieldT) String() string {
	return fmt.Sprintf("#%d %s (%s %v)", f.num, f.name, f.enc, f.t)
}

func describe(t reflect.Type) string {
	if t.Name() != "" {
		return t.Name()
	}
	return t.String()
}
