PROP = "C20"; PKG = "rfc1057"
EDITS = [("rfc1057/client.go", "	c.xid++\n\n	var req Rpc_msg\n	req.Xid = c.xid\n", "	var req Rpc_msg\n	req.Xid = c.xid + 1\n"),
  ("rfc1057/client.go", "	rd := xdr.MakeReader(buf)\n	var res Rpc_msg\n", "	c.xid = req.Xid\n	rd := xdr.MakeReader(buf)\n	var res Rpc_msg\n")]
NEEDS = "a call that fails after its request was written (no reply, time-out), followed by another one"
BREAKS = "the next call after a failed one repeats its transaction id"
TEST = '''
package rfc1057

import (
	"encoding/binary"
	"io"
	"testing"

	"github.com/zeldovich/go-rpcgen/xdr"
)

type conn struct{ out []byte }

func (c *conn) Read([]byte) (int, error) { return 0, io.ErrUnexpectedEOF }
func (c *conn) Write(b []byte) (int, error) {
	c.out = append(c.out, b...)
	return len(b), nil
}

func TestDemo(t *testing.T) {
	c := &conn{}
	cl := MakeClient(c, 1, 1)
	seen := map[uint32]bool{}
	for k := 0; k < 3; k++ {
		c.out = nil
		if err := cl.Call(1, Opaque_auth{}, Opaque_auth{}, &xdr.Void{}, &xdr.Void{}); err == nil {
			t.Fatal("no error")
		}
		x := binary.BigEndian.Uint32(c.out[4:])
		if seen[x] {
			t.Fatalf("id %d repeated", x)
		}
		seen[x] = true
	}
}
'''
