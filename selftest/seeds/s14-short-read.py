PROP = "C14"; PKG = "rfc1057"
EDITS = [("rfc1057/client.go", "	_, err = io.ReadFull(c.rw, buf)\n", "	_, err = io.ReadAtLeast(c.rw, buf, len(buf)/2)\n")]
NEEDS = "a connection that delivers a reply in more than one piece"
BREAKS = "a short read of a reply is taken for a whole record; the rest of the buffer is zero"
TEST = '''
package rfc1057

import (
	"bytes"
	"encoding/binary"
	"io"
	"testing"
	"testing/iotest"

	"github.com/zeldovich/go-rpcgen/xdr"
)

type rw struct {
	io.Reader
	io.Writer
}

func TestDemo(t *testing.T) {
	for _, slow := range []bool{false, true} {
		var m Rpc_msg
		m.Xid = 1
		m.Body.Mtype = REPLY
		v := xdr.Uint64(0x0102030405060708)
		w := xdr.MakeWriter(make([]byte, 4))
		m.Xdr(w)
		v.Xdr(w)
		b := w.WriteBuf()
		binary.BigEndian.PutUint32(b, 1<<31|uint32(len(b)-4))
		var in io.Reader = bytes.NewReader(b)
		if slow {
			in = iotest.OneByteReader(in)
		}
		c := MakeClient(rw{in, io.Discard}, 1, 1)
		var res xdr.Uint64
		err := c.Call(1, Opaque_auth{}, Opaque_auth{}, &xdr.Void{}, &res)
		if err != nil || res != v {
			t.Fatalf("got %x, %v", res, err)
		}
	}
}
'''
