PROP = 'C31'; PKG = 'xdr'
EDITS = [('xdr/lib.go', '\t\tvar szbuf [4]byte\n\t\tbinary.BigEndian.PutUint32(szbuf[:], uint32(len(*v)))\n\t\txdrRW(xs, szbuf[:])\n\t\txdrRW(xs, *v)\n', '\t\tszbuf := sizeWord[:]\n\t\tbinary.BigEndian.PutUint32(szbuf, uint32(len(*v)))\n\t\txdrRW(xs, szbuf)\n\t\txdrRW(xs, *v)\n'), ('xdr/lib.go', 'type XdrState struct {\n', '// sizeWord holds the length that is being encoded.\nvar sizeWord [4]byte\n\ntype XdrState struct {\n')]
NEEDS = 'two goroutines that encode opaque data of different lengths at the same time'
BREAKS = 'the length prefix of one encoding ends up in the other'
TEST = r'''
package xdr

import (
	"encoding/binary"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 1; g <= 4; g++ {
		b := make([]byte, 4*g)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300000; i++ {
				xs := MakeWriter(nil)
				XdrVarArray(xs, -1, &b)
				if n := binary.BigEndian.Uint32(xs.WriteBuf()); int(n) != len(b) {
					t.Errorf("length %d encoded as %d", len(b), n)
					return
				}
			}
		}()
	}
	wg.Wait()
}
'''
ARGS = '-race'
