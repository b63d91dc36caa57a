PROP = 'C27'; PKG = 'rfc1057'
EDITS = [('rfc1057/server.go', '\treturn make([]byte, buflen)\n}', '\t// Leave room for longer requests that follow\n\treturn make([]byte, buflen, 2*buflen)\n}')]
NEEDS = 'a record header that announces a long message which never arrives'
BREAKS = 'the server allocates twice the announced length'
TEST = r'''
package rfc1057

import (
	"bytes"
	"runtime"
	"testing"
)

func TestDemo(t *testing.T) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	rw := bytes.NewBuffer([]byte{0x84, 0, 0, 0})
	if MakeServer().Run(rw) == nil {
		t.Fatal("no error")
	}
	runtime.ReadMemStats(&b)
	if n := b.TotalAlloc - a.TotalAlloc; n > 80<<20 {
		t.Fatalf("%d bytes allocated", n)
	}
}
'''
ARGS = ''
