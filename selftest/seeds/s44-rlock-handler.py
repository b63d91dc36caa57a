PROP = 'C28'; PKG = 'rfc1057'
EDITS = [('rfc1057/server.go', 'type Server struct {\n', 'type Server struct {\n\tmu       sync.RWMutex // guards handlers\n'), ('rfc1057/server.go', '\t_, progok := s.handlers[prog]\n', '\ts.mu.Lock()\n\tdefer s.mu.Unlock()\n\n\t_, progok := s.handlers[prog]\n'), ('rfc1057/server.go', '\trd := xdr.MakeReader(buf)\n\n\tvar req Rpc_msg\n', '\trd := xdr.MakeReader(buf)\n\n\tsc.s.mu.RLock()\n\tdefer sc.s.mu.RUnlock()\n\n\tvar req Rpc_msg\n')]
NEEDS = 'a registration while a handler runs, and another call after it'
BREAKS = 'the second call waits until the first handler returns: a pending writer stops later readers'
TEST = r'''
package rfc1057

import (
	"net"
	"testing"
	"time"

	"github.com/zeldovich/go-rpcgen/xdr"
)

func TestDemo(t *testing.T) {
	s := MakeServer()
	stop := make(chan bool)
	started := make(chan bool, 1)
	s.Register(7, 1, 1, func(args *xdr.XdrState) (xdr.Xdrable, error) {
		started <- true
		<-stop
		return &xdr.Void{}, nil
	})
	s.Register(7, 1, 2, func(args *xdr.XdrState) (xdr.Xdrable, error) { return &xdr.Void{}, nil })
	call := func(proc uint32) error {
		a, b := net.Pipe()
		go s.Run(b)
		var v xdr.Void
		return MakeClient(a, 7, 1).Call(proc, Opaque_auth{}, Opaque_auth{}, &v, &v)
	}
	go call(1)
	<-started
	go s.Register(7, 1, 3, func(args *xdr.XdrState) (xdr.Xdrable, error) { return &xdr.Void{}, nil })
	time.Sleep(200 * time.Millisecond)
	done := make(chan error, 1)
	go func() { done <- call(2) }()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("a call waits for the handler of another one")
	}
	close(stop)
}
'''
ARGS = ''
