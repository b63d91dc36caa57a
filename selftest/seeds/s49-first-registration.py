PROP = 'C13'; PKG = 'rfc1057'
EDITS = [('rfc1057/server.go', '\ts.handlers[prog][vers][proc] = handler\n', '\tif _, procok := s.handlers[prog][vers][proc]; !procok {\n\t\ts.handlers[prog][vers][proc] = handler\n\t}\n')]
NEEDS = 'registering a procedure again with another handler'
BREAKS = 'calls still reach the handler that was replaced'
TEST = r'''
package rfc1057

import (
	"bytes"
	"encoding/binary"
	"testing"
	"time"

	"github.com/zeldovich/go-rpcgen/xdr"
)

type conn struct {
	bytes.Reader
	out chan []byte
}

func (c *conn) Write(b []byte) (int, error) {
	c.out <- append([]byte(nil), b...)
	return len(b), nil
}

func TestDemo(t *testing.T) {
	s := MakeServer()
	for n := uint32(1); n <= 2; n++ {
		n := n
		s.RegisterMany([]xdr.ProcRegistration{{Prog: 7, Vers: 1, Proc: 1, Handler: func(args *xdr.XdrState) (xdr.Xdrable, error) {
			r := xdr.Uint32(n)
			return &r, args.Error()
		}}})
	}
	var m Rpc_msg
	m.Xid = 9
	m.Body.Cbody.Rpcvers = 2
	m.Body.Cbody.Prog = 7
	m.Body.Cbody.Vers = 1
	m.Body.Cbody.Proc = 1
	b, _ := xdr.EncodeBuf(&m)
	h := make([]byte, 4)
	binary.BigEndian.PutUint32(h, 1<<31|uint32(len(b)))
	c := &conn{out: make(chan []byte, 100)}
	c.Reader.Reset(append(h, b...))
	s.Run(c)
	var got []byte
	for len(got) < 4 || len(got) < 4+int(binary.BigEndian.Uint32(got)&0x7fffffff) {
		select {
		case o := <-c.out:
			got = append(got, o...)
		case <-time.After(5 * time.Second):
			t.Fatal("no reply")
		}
	}
	if got[len(got)-1] != 2 {
		t.Fatalf("answered by the handler that was replaced: %x", got)
	}
}
'''
ARGS = ''
