// Package cfake stands in for cgo when the C wrapper (rawpanel-lib-c/main.go)
// is compiled into the simulation.
package cfake

import "unsafe"

type Char byte
type Int int32
type Size_t uint64

func CBytes(b []byte) unsafe.Pointer {
	c := append([]byte{}, b...)
	if len(c) == 0 {
		c = make([]byte, 1)
	}
	return unsafe.Pointer(&c[0])
}

func CString(s string) *Char {
	return (*Char)(CBytes(append([]byte(s), 0)))
}

func GoString(c *Char) string {
	if c == nil {
		return ""
	}
	var b []byte
	for p := unsafe.Pointer(c); *(*byte)(p) != 0; p = unsafe.Add(p, 1) {
		b = append(b, *(*byte)(p))
	}
	return string(b)
}

func GoBytes(p unsafe.Pointer, n Int) []byte {
	return append([]byte{}, unsafe.Slice((*byte)(p), int(n))...)
}

func Free(unsafe.Pointer) {}
