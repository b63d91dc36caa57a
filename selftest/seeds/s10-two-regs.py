PROP = "C10"; PKG = "rfc1813"
EDITS = [("rfc1813/xdr.go", "			Handler: w.NFSPROC3_FSSTAT,", "			Handler: w.NFSPROC3_FSINFO,"),]
NEEDS = "a call of FSSTAT through a server; FSINFO has the same argument encoding"
BREAKS = "FSSTAT is served by the FSINFO handler"
TEST = '''
package rfc1813

import (
	"testing"

	"github.com/zeldovich/go-rpcgen/xdr"
)

type fake struct {
	NFS_PROGRAM_NFS_V3_handler
	got string
}

func (f *fake) NFSPROC3_FSSTAT(FSSTAT3args) (r FSSTAT3res) { f.got = "FSSTAT"; return }
func (f *fake) NFSPROC3_FSINFO(FSINFO3args) (r FSINFO3res) { f.got = "FSINFO"; return }

func TestDemo(t *testing.T) {
	var args FSSTAT3args
	b, err := xdr.EncodeBuf(&args)
	if err != nil {
		t.Fatal(err)
	}
	f := &fake{}
	for _, r := range NFS_PROGRAM_NFS_V3_regs(f) {
		if r.Proc == 18 {
			if _, err := r.Handler(xdr.MakeReader(b)); err != nil {
				t.Fatal(err)
			}
		}
	}
	if f.got != "FSSTAT" {
		t.Fatalf("procedure 18 is served by %q", f.got)
	}
}
'''
