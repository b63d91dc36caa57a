PROP = "C13"; PKG = "rfc1057"
EDITS = [("rfc1057/server.go", "	if !versok {\n", "	if !versok || proc == 0 {\n")]
NEEDS = "a registration of procedure 0 after other procedures of the same version"
BREAKS = "registering the NULL procedure drops the procedures registered before it"
TEST = '''
package rfc1057

import (
	"bytes"
	"encoding/binary"
	"testing"
	"time"

	"github.com/zeldovich/go-rpcgen/xdr"
)

type conn struct {
	bytes.Reader
	out chan []byte
}

func (c *conn) Write(b []byte) (int, error) {
	c.out <- append([]byte(nil), b...)
	return len(b), nil
}

func TestDemo(t *testing.T) {
	s := MakeServer()
	for _, p := range []uint32{2, 1, 0} {
		s.Register(7, 1, p, func(*xdr.XdrState) (xdr.Xdrable, error) { return &xdr.Void{}, nil })
	}
	for p := uint32(0); p < 3; p++ {
		var m Rpc_msg
		m.Xid = 9
		m.Body.Cbody.Rpcvers = 2
		m.Body.Cbody.Prog = 7
		m.Body.Cbody.Vers = 1
		m.Body.Cbody.Proc = p
		b, _ := xdr.EncodeBuf(&m)
		h := make([]byte, 4)
		binary.BigEndian.PutUint32(h, 1<<31|uint32(len(b)))
		c := &conn{out: make(chan []byte, 100)}
		c.Reader.Reset(append(h, b...))
		s.Run(c)
		var got []byte
		for len(got) < 4 || len(got) < 4+int(binary.BigEndian.Uint32(got)&0x7fffffff) {
			select {
			case o := <-c.out:
				got = append(got, o...)
			case <-time.After(5 * time.Second):
				t.Fatal("no reply")
			}
		}
		var r Rpc_msg
		if err := xdr.DecodeBuf(got[4:], &r); err != nil || r.Body.Rbody.Areply.Reply_data.Stat != SUCCESS {
			t.Fatalf("procedure %d: %x", p, got)
		}
	}
}
'''
