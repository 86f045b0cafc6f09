//go:build go1.22

package main

import (
	"reflect"
	"unsafe"
)

func unmarshalNode(x *Node, b []byte) (err, bad error) {
	return unmarshal(reflect.TypeOf(*x), unsafe.Pointer(x), b)
}
