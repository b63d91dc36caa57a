PROP = 'C26'; PKG = 'xdr'
EDITS = [('xdr/lib.go', '\tres := xs.buf[:n:n]\n\txs.buf = xs.buf[n:]\n\treturn res\n}', '\tres := make([]byte, n)\n\tcopyOut(res, xs.buf[:n])\n\txs.buf = xs.buf[n:]\n\treturn res\n}\n\n// copyOut copies src piece by piece, so that short data stays in the cache.\nfunc copyOut(dst, src []byte) {\n\tif len(src) <= 64 {\n\t\tcopy(dst, src)\n\t\treturn\n\t}\n\tn := copy(dst, src[:64])\n\tcopyOut(dst[n:], src[n:])\n}')]
NEEDS = 'an opaque value or string of many megabytes'
BREAKS = 'decoding it recurses once per 64 bytes of data'
TEST = r'''
package xdr

import (
	"runtime/debug"
	"testing"
)

func TestDemo(t *testing.T) {
	debug.SetMaxStack(1 << 20)
	n := 8 << 20
	b := make([]byte, 4+n)
	b[1] = byte(n >> 16)
	xs := MakeReader(b)
	var v []byte
	done := make(chan bool)
	go func() { XdrVarArray(xs, -1, &v); done <- true }()
	<-done
	if xs.Error() != nil || len(v) != n {
		t.Fatal(xs.Error(), len(v))
	}
}
'''
ARGS = ''
