PROP = "C19"; PKG = "rfc1057"
EDITS = [("rfc1057/client.go", '''	if res.Xid != req.Xid {
		return''', '''	if res.Xid > req.Xid {
		return''')]
NEEDS = "a reply to an earlier call (after that call failed on the client) arriving in place of the expected one"
BREAKS = "a stale reply to an earlier call is taken as the reply to this one"
TEST = '''
package rfc1057

import (
	"bytes"
	"encoding/binary"
	"io"
	"testing"

	"github.com/zeldovich/go-rpcgen/xdr"
)

type rw struct {
	io.Reader
	io.Writer
}

func TestDemo(t *testing.T) {
	for _, xid := range []uint32{1, 0, 2} {
		var m Rpc_msg
		m.Xid = xid
		m.Body.Mtype = REPLY
		w := xdr.MakeWriter(make([]byte, 4))
		m.Xdr(w)
		b := w.WriteBuf()
		binary.BigEndian.PutUint32(b, 1<<31|uint32(len(b)-4))
		c := MakeClient(rw{bytes.NewReader(b), io.Discard}, 1, 1)
		err := c.Call(1, Opaque_auth{}, Opaque_auth{}, &xdr.Void{}, &xdr.Void{})
		if (err == nil) != (xid == 1) {
			t.Fatalf("reply with xid %d: %v", xid, err)
		}
	}
}
'''
