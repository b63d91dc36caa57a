PROP = "C03"; PKG = "xdr"
EDITS = [("xdr/lib.go", "	if len(xs.buf) < n {\n		xs.err", "	if cap(xs.buf) < n {\n		xs.err"),
         ("xdr/lib.go", "	xs.buf = xs.buf[n:]\n	return res", "	if n > len(xs.buf) {\n		n = len(xs.buf)\n	}\n	xs.buf = xs.buf[n:]\n	return res")]
NEEDS = "an input slice with spare capacity (such as a reused buffer) and a length prefix that runs past its end"
BREAKS = "opaque data that is cut short decodes from bytes behind the end of the input instead of failing"
TEST = '''
package xdr

import "testing"

func TestDemo(t *testing.T) {
	backing := []byte{0, 0, 0, 8, 1, 2, 3, 4, 5, 6, 7, 8}
	for n := 4; n < 12; n++ {
		var v []byte
		rd := MakeReader(backing[:n])
		XdrVarArray(rd, -1, &v)
		if rd.Error() == nil {
			t.Fatalf("%d bytes of 12 decoded as %v", n, v)
		}
	}
}
'''
