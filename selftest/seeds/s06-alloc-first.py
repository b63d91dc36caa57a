PROP = "C06"; PKG = "xdr"
EDITS = [("xdr/lib.go", "		*v = xdrR(xs, sz)\n", "		data := make([]byte, sz)\n		xdrRW(xs, data)\n		*v = data\n")]
NEEDS = "a length prefix that announces far more bytes than follow"
BREAKS = "a four-byte input makes the decoder allocate the announced length"
TEST = '''
package xdr

import (
	"runtime"
	"testing"
)

func TestDemo(t *testing.T) {
	in := []byte{0x10, 0, 0, 0}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	var v []byte
	rd := MakeReader(in)
	XdrVarArray(rd, -1, &v)
	runtime.ReadMemStats(&b)
	if rd.Error() == nil || b.TotalAlloc-a.TotalAlloc > 1<<20 {
		t.Fatalf("4 bytes of input allocated %d bytes (%v)", b.TotalAlloc-a.TotalAlloc, rd.Error())
	}
}
'''
