// Package zzc stands in for the pseudo package C where the source of the C binding is checked (see engine/cbind.go).
package zzc

// Pointer is memory handed to C: what it points to.
type Pointer = []byte

// Char is the text a C string pointer refers to.
type Char struct{ S string }

type Int int32
type Uint uint32

func CBytes(b []byte) Pointer { return append([]byte{}, b...) }

// CString: texts hold no zero bytes here.
func CString(s string) *Char {
	return &Char{s}
}

func GoString(c *Char) string { return c.S }

func Free(Pointer) {}
