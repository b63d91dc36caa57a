PROP = "C18"; PKG = "rfc1057"
EDITS = [("rfc1057/server.go", "	var res Rpc_msg\n	var resdata xdr.Xdrable\n", "	var res Rpc_msg\n	var resdata xdr.Xdrable\n	if req.Body.Cbody.Cred.Flavor == AUTH_SHORT {\n		// Echo the handle so that the client keeps using it\n		res.Body.Rbody.Areply.Verf.Flavor = AUTH_SHORT\n		res.Body.Rbody.Areply.Verf.Body = req.Body.Cbody.Cred.Body[:8]\n	}\n")]
NEEDS = "a call with an AUTH_SHORT credential of less than eight bytes"
BREAKS = "a short credential makes the server panic"
TEST = '''
package rfc1057

import (
	"bytes"
	"encoding/binary"
	"testing"
	"time"

	"github.com/zeldovich/go-rpcgen/xdr"
)

type conn struct {
	bytes.Reader
	out chan []byte
}

func (c *conn) Write(b []byte) (int, error) {
	c.out <- append([]byte(nil), b...)
	return len(b), nil
}

func TestDemo(t *testing.T) {
	for _, body := range [][]byte{make([]byte, 8), make([]byte, 0), make([]byte, 4)} {
		var m Rpc_msg
		m.Xid = 1
		m.Body.Cbody.Rpcvers = 2
		m.Body.Cbody.Cred = Opaque_auth{AUTH_SHORT, body}
		b, _ := xdr.EncodeBuf(&m)
		h := make([]byte, 4)
		binary.BigEndian.PutUint32(h, 1<<31|uint32(len(b)))
		c := &conn{out: make(chan []byte, 100)}
		c.Reader.Reset(append(h, b...))
		MakeServer().Run(c)
		select {
		case <-c.out:
		case <-time.After(5 * time.Second):
			t.Fatal("no reply")
		}
	}
}
'''
