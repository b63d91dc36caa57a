PROP = "C11"; PKG = "rfc1813"
EDITS = [("rfc1813/xdr.go", '''	var in Dirpath3
	in.Xdr(args)
	err = args.Error()
	if err != nil {
		return
	}
	var out xdr.Void
	w.h.MOUNTPROC3_UMNT(in)
	return &out, nil''', '''	var in Dirpath3
	in.Xdr(args)
	var out xdr.Void
	w.h.MOUNTPROC3_UMNT(in)
	return &out, args.Error()''')]
NEEDS = "an UMNT call whose argument is cut short"
BREAKS = "the handler runs on arguments that did not decode"
TEST = '''
package rfc1813

import (
	"testing"

	"github.com/zeldovich/go-rpcgen/xdr"
)

type fake struct {
	MOUNT_PROGRAM_MOUNT_V3_handler
	n int
}

func (f *fake) MOUNTPROC3_UMNT(Dirpath3) { f.n++ }

func TestDemo(t *testing.T) {
	f := &fake{}
	for _, r := range MOUNT_PROGRAM_MOUNT_V3_regs(f) {
		if r.Proc == 3 {
			if _, err := r.Handler(xdr.MakeReader([]byte{0, 0, 0, 9, 'a'})); err == nil {
				t.Fatal("no error")
			}
		}
	}
	if f.n != 0 {
		t.Fatal("handler called")
	}
}
'''
