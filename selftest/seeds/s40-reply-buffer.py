PROP = 'C31'; PKG = 'rfc1057'
EDITS = [('rfc1057/client.go', '\tbuf := make([]byte, hlen&0x7fffffff)\n', '\tbuf := getReqBuf(int(hlen & 0x7fffffff))\n\tdefer putReqBuf(buf)\n')]
NEEDS = 'two calls, and the result of the first looked at after the second'
BREAKS = 'the opaque data of the first result changes'
TEST = r'''
package rfc1057

import (
	"bytes"
	"io"
	"testing"

	"github.com/zeldovich/go-rpcgen/xdr"
)

type data struct{ B []byte }

func (d *data) Xdr(xs *xdr.XdrState) { xdr.XdrVarArray(xs, -1, &d.B) }

type rw struct {
	io.Reader
	io.Writer
}

func TestDemo(t *testing.T) {
	bad := 0
	for i := 0; i < 50; i++ {
		var in bytes.Buffer
		for xid := uint32(1); xid <= 2; xid++ {
			var m Rpc_msg
			m.Xid = xid
			m.Body.Mtype = REPLY
			w := xdr.MakeWriter(nil)
			m.Xdr(w)
			(&data{bytes.Repeat([]byte{byte(xid)}, 8)}).Xdr(w)
			b := w.WriteBuf()
			in.Write([]byte{0x80, 0, 0, byte(len(b))})
			in.Write(b)
		}
		c := MakeClient(rw{&in, io.Discard}, 1, 1)
		var none data
		var a, b data
		if err := c.Call(1, Opaque_auth{}, Opaque_auth{}, &none, &a); err != nil {
			t.Fatal(err)
		}
		if err := c.Call(1, Opaque_auth{}, Opaque_auth{}, &none, &b); err != nil {
			t.Fatal(err)
		}
		if a.B[0] != 1 {
			bad++
		}
	}
	if bad > 0 {
		t.Fatalf("the result of the first call changed (%d of 50)", bad)
	}
}
'''
ARGS = ''
