PROP = "C15"; PKG = "rfc1057"
EDITS = [("rfc1057/server.go", "	_, err = sc.rw.Write(wbuf)\n	return err", '''	for len(wbuf) > 0 {
		n := len(wbuf)
		if n > 1<<16 {
			n = 1 << 16
		}
		if _, err = sc.rw.Write(wbuf[:n]); err != nil {
			return err
		}
		wbuf = wbuf[n:]
	}
	return nil''')]
NEEDS = "two concurrent requests with replies of more than 64 KB"
BREAKS = "a large reply is written in pieces between which pieces of other replies can come"
TEST = '''
package rfc1057

import (
	"bytes"
	"encoding/binary"
	"sync"
	"testing"
	"time"

	"github.com/zeldovich/go-rpcgen/xdr"
)

type blob []byte

func (b *blob) Xdr(xs *xdr.XdrState) { xdr.XdrVarArray(xs, -1, (*[]byte)(b)) }

// conn lets a second reply go ahead whenever one writes.
type conn struct {
	bytes.Reader
	mu  sync.Mutex
	out []byte
}

func (c *conn) Write(b []byte) (int, error) {
	c.mu.Lock()
	c.out = append(c.out, b...)
	c.mu.Unlock()
	time.Sleep(50 * time.Millisecond)
	return len(b), nil
}

func TestDemo(t *testing.T) {
	s := MakeServer()
	const size = 200000
	s.Register(7, 1, 1, func(*xdr.XdrState) (xdr.Xdrable, error) {
		b := blob(make([]byte, size))
		return &b, nil
	})
	var in []byte
	for x := uint32(1); x <= 2; x++ {
		var m Rpc_msg
		m.Xid = x
		m.Body.Cbody.Rpcvers = 2
		m.Body.Cbody.Prog = 7
		m.Body.Cbody.Vers = 1
		m.Body.Cbody.Proc = 1
		b, _ := xdr.EncodeBuf(&m)
		h := make([]byte, 4)
		binary.BigEndian.PutUint32(h, 1<<31|uint32(len(b)))
		in = append(append(in, h...), b...)
	}
	c := &conn{}
	c.Reader.Reset(in)
	s.Run(c)
	for i := 0; i < 200; i++ {
		time.Sleep(50 * time.Millisecond)
		c.mu.Lock()
		n := len(c.out)
		c.mu.Unlock()
		if n >= 2*size {
			break
		}
	}
	time.Sleep(200 * time.Millisecond)
	c.mu.Lock()
	out := c.out
	c.mu.Unlock()
	for k := 0; k < 2; k++ {
		if len(out) < 4 {
			t.Fatal("too short")
		}
		n := int(binary.BigEndian.Uint32(out) & 0x7fffffff)
		if len(out) < 4+n {
			t.Fatalf("record of %d bytes, %d left", n, len(out))
		}
		var r Rpc_msg
		var v blob
		rd := xdr.MakeReader(out[4 : 4+n])
		r.Xdr(rd)
		v.Xdr(rd)
		if rd.Error() != nil || len(v) != size {
			t.Fatal("damaged reply")
		}
		for _, x := range v {
			if x != 0 {
				t.Fatal("reply holds bytes of another one")
			}
		}
		out = out[4+n:]
	}
}
'''
