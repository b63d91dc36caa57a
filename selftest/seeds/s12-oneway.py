PROP = "C12"; PKG = "rfc1057"
EDITS = [("rfc1057/server.go", '''	res.Xid = req.Xid
''', '''	res.Xid = req.Xid
	if req.Xid == 0 {
		// No transaction to answer
		res.Xid = req.Body.Cbody.Proc
	}
''')]
NEEDS = "a call whose transaction id is zero (after wrap-around of the client's counter)"
BREAKS = "the reply to transaction 0 carries another id"
TEST = '''
package rfc1057

import (
	"bytes"
	"encoding/binary"
	"testing"
	"time"

	"github.com/zeldovich/go-rpcgen/xdr"
)

type conn struct {
	bytes.Reader
	out chan []byte
}

func (c *conn) Write(b []byte) (int, error) {
	c.out <- append([]byte(nil), b...)
	return len(b), nil
}

func TestDemo(t *testing.T) {
	for _, xid := range []uint32{1, 0, 1<<32 - 1} {
		var m Rpc_msg
		m.Xid = xid
		m.Body.Cbody.Rpcvers = 2
		m.Body.Cbody.Proc = 4
		b, _ := xdr.EncodeBuf(&m)
		h := make([]byte, 4)
		binary.BigEndian.PutUint32(h, 1<<31|uint32(len(b)))
		c := &conn{out: make(chan []byte, 100)}
		c.Reader.Reset(append(h, b...))
		MakeServer().Run(c)
		var got []byte
		for len(got) < 8 {
			select {
			case o := <-c.out:
				got = append(got, o...)
			case <-time.After(5 * time.Second):
				t.Fatal("no reply")
			}
		}
		if binary.BigEndian.Uint32(got[4:]) != xid {
			t.Fatalf("reply to %d is %x", xid, got)
		}
	}
}
'''
