PROP = 'C13'; PKG = 'rfc1057'
EDITS = [('rfc1057/server.go', '\t\t\tres.Body.Rbody.Areply.Reply_data.Stat = GARBAGE_ARGS\n\t\t\tgoto reply\n', '\t\t\treturn err\n')]
NEEDS = 'a call whose arguments do not decode'
BREAKS = 'the caller is never told GARBAGE_ARGS'
TEST = r'''
package rfc1057

import (
	"bytes"
	"encoding/binary"
	"testing"
	"time"

	"github.com/zeldovich/go-rpcgen/xdr"
)

type conn struct {
	bytes.Reader
	out chan []byte
}

func (c *conn) Write(b []byte) (int, error) {
	c.out <- append([]byte(nil), b...)
	return len(b), nil
}

func TestDemo(t *testing.T) {
	s := MakeServer()
	s.Register(7, 1, 1, func(args *xdr.XdrState) (xdr.Xdrable, error) {
		var in Auth_unix
		in.Xdr(args)
		return &xdr.Void{}, args.Error()
	})
	var m Rpc_msg
	m.Xid = 9
	m.Body.Cbody.Rpcvers = 2
	m.Body.Cbody.Prog = 7
	m.Body.Cbody.Vers = 1
	m.Body.Cbody.Proc = 1
	b, _ := xdr.EncodeBuf(&m)
	b = append(b, 0, 0, 0) // arguments cut short
	h := make([]byte, 4)
	binary.BigEndian.PutUint32(h, 1<<31|uint32(len(b)))
	c := &conn{out: make(chan []byte, 100)}
	c.Reader.Reset(append(h, b...))
	s.Run(c)
	var got []byte
	for len(got) < 4 || len(got) < 4+int(binary.BigEndian.Uint32(got)&0x7fffffff) {
		select {
		case o := <-c.out:
			got = append(got, o...)
		case <-time.After(5 * time.Second):
			t.Fatal("no reply")
		}
	}
	var r Rpc_msg
	if err := xdr.DecodeBuf(got[4:], &r); err != nil || r.Body.Rbody.Areply.Reply_data.Stat != GARBAGE_ARGS {
		t.Fatalf("reply %x", got)
	}
}
'''
ARGS = ''
