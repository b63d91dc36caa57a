PROP = "C17"; PKG = "rfc1057"
ARGS = "-race"
EDITS = [("rfc1057/server.go", "		vermap, progok := sc.s.handlers[req.Body.Cbody.Prog]\n		if !progok {\n", "		vermap, progok := sc.s.handlers[req.Body.Cbody.Prog]\n		if !progok {\n			// Remember programs that are not there\n			sc.s.handlers[req.Body.Cbody.Prog] = nil\n"),
  ("rfc1057/server.go", "	_, progok := s.handlers[prog]\n	if !progok {", "	if s.handlers[prog] == nil {"),
  ("rfc1057/server.go", "vermap, progok := sc.s.handlers[req.Body.Cbody.Prog]\n		if !progok {", "vermap := sc.s.handlers[req.Body.Cbody.Prog]\n		if vermap == nil {")]
NEEDS = "two concurrent calls of programs that are not registered"
BREAKS = "serving a request writes to the handler table that all requests read"
TEST = '''
package rfc1057

import (
	"bytes"
	"encoding/binary"
	"testing"
	"time"

	"github.com/zeldovich/go-rpcgen/xdr"
)

type conn struct {
	bytes.Reader
	out chan []byte
}

func (c *conn) Write(b []byte) (int, error) {
	c.out <- append([]byte(nil), b...)
	return len(b), nil
}

func TestDemo(t *testing.T) {
	var in []byte
	for x := uint32(1); x <= 200; x++ {
		var m Rpc_msg
		m.Xid = x
		m.Body.Cbody.Rpcvers = 2
		m.Body.Cbody.Prog = 7 + x
		b, _ := xdr.EncodeBuf(&m)
		h := make([]byte, 4)
		binary.BigEndian.PutUint32(h, 1<<31|uint32(len(b)))
		in = append(append(in, h...), b...)
	}
	c := &conn{out: make(chan []byte, 1000)}
	c.Reader.Reset(in)
	s := MakeServer()
	s.Run(c)
	for n := 0; n < 200; n++ {
		select {
		case <-c.out:
		case <-time.After(5 * time.Second):
			t.Fatal("no reply")
		}
	}
}
'''
