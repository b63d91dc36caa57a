PROP = 'C31'; PKG = 'rfc1057'
EDITS = [('rfc1057/server.go', '\treturn &Server{\n\t\thandlers: make(map[uint32]map[uint32]map[uint32]ProcHandler),\n\t}\n', '\treturn &Server{\n\t\thandlers: registered,\n\t}\n'), ('rfc1057/server.go', 'type Server struct {\n', '// registered holds the procedures to serve.\nvar registered = make(map[uint32]map[uint32]map[uint32]ProcHandler)\n\ntype Server struct {\n')]
NEEDS = 'two servers in one process'
BREAKS = 'a procedure registered with one server is served by all of them'
TEST = r'''
package rfc1057

import (
	"testing"

	"github.com/zeldovich/go-rpcgen/xdr"
)

func TestDemo(t *testing.T) {
	a, b := MakeServer(), MakeServer()
	a.Register(7, 1, 0, func(args *xdr.XdrState) (xdr.Xdrable, error) { return nil, nil })
	if len(b.handlers) != 0 {
		t.Fatal("registered with another server")
	}
}
'''
ARGS = ''
