PROP = "C16"; PKG = "rfc1057"
EDITS = [("rfc1057/server.go", "	defer putReqBuf(buf)\n\n	err := sc.handleReqErr(buf)\n", "	err := sc.handleReqErr(buf)\n"),
         ("rfc1057/server.go", "		resdata, err = h(rd)\n", "		resdata, err = h(rd)\n		putReqBuf(buf)\n")]
NEEDS = "a handler whose result refers to its arguments (an echo), and another request of the same size arriving before the reply is encoded"
BREAKS = "the request buffer is back in the pool while the reply is still made from it"
TEST = '''
package rfc1057

import (
	"bytes"
	"encoding/binary"
	"io"
	"runtime"
	"testing"
	"time"

	"github.com/zeldovich/go-rpcgen/xdr"
)

type blob []byte

func (b *blob) Xdr(xs *xdr.XdrState) { xdr.XdrVarArray(xs, -1, (*[]byte)(b)) }

// res waits, when it is encoded, until the next request has been received.
type res struct {
	b    blob
	wait chan bool
}

func (r *res) Xdr(xs *xdr.XdrState) {
	select {
	case <-r.wait:
	case <-time.After(2 * time.Second):
	}
	r.b.Xdr(xs)
}

type conn struct {
	io.Reader
	out chan []byte
}

func (c *conn) Write(b []byte) (int, error) {
	c.out <- append([]byte(nil), b...)
	return len(b), nil
}

func call(xid uint32, fill byte) []byte {
	var m Rpc_msg
	m.Xid = xid
	m.Body.Cbody.Rpcvers = 2
	m.Body.Cbody.Prog = 7
	m.Body.Cbody.Vers = 1
	m.Body.Cbody.Proc = 1
	w := xdr.MakeWriter(make([]byte, 4))
	m.Xdr(w)
	b := blob(bytes.Repeat([]byte{fill}, 4096))
	b.Xdr(w)
	buf := w.WriteBuf()
	binary.BigEndian.PutUint32(buf, 1<<31|uint32(len(buf)-4))
	return buf
}

func TestDemo(t *testing.T) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	for round := 0; round < 20; round++ {
		pr, pw := io.Pipe()
		c := &conn{pr, make(chan []byte, 10)}
		entered := make(chan bool, 10)
		wait := make(chan bool)
		n := 0
		s := MakeServer()
		s.Register(7, 1, 1, func(args *xdr.XdrState) (xdr.Xdrable, error) {
			var b blob
			b.Xdr(args)
			n++
			entered <- true
			if n == 1 {
				return &res{b, wait}, args.Error()
			}
			return &b, args.Error()
		})
		go s.Run(c)
		pw.Write(call(1, 'a'))
		<-entered
		time.Sleep(5 * time.Millisecond)
		pw.Write(call(2, 'b'))
		<-entered
		close(wait)
		for k := 0; k < 2; k++ {
			var o []byte
			select {
			case o = <-c.out:
			case <-time.After(5 * time.Second):
				t.Fatal("no reply")
			}
			var r Rpc_msg
			var v blob
			rd := xdr.MakeReader(o[4:])
			r.Xdr(rd)
			v.Xdr(rd)
			want := byte('a' + r.Xid - 1)
			if rd.Error() != nil || len(v) != 4096 || v[0] != want || v[4095] != want {
				t.Fatalf("reply to %d holds %q", r.Xid, v[:1])
			}
		}
		pw.Close()
	}
}
'''
