PROP = "C05"; PKG = "xdr"
EDITS = [("xdr/lib.go", "xs.buf[:n:n]", "xs.buf[:n]")]
NEEDS = "a caller that appends to a decoded byte string and then uses the input again"
BREAKS = "appending to decoded opaque data overwrites the input that follows it"
TEST = '''
package xdr

import "testing"

func TestDemo(t *testing.T) {
	in := []byte{0, 0, 0, 4, 1, 2, 3, 4, 0, 0, 0, 9}
	var v []byte
	rd := MakeReader(in)
	XdrVarArray(rd, -1, &v)
	_ = append(v, 7, 7, 7, 7)
	var n uint32
	XdrU32(rd, &n)
	if n != 9 {
		t.Fatalf("input changed: %x", n)
	}
}
'''
