PROP = "C09"; PKG = "rfc1813"
EDITS = [("rfc1813/xdr.go", "	(*Count3)(&((v).Dircount)).Xdr(xs)\n	(*Count3)(&((v).Maxcount)).Xdr(xs)", "	(*Count3)(&((v).Maxcount)).Xdr(xs)\n	(*Count3)(&((v).Dircount)).Xdr(xs)")]
NEEDS = "a peer that is not this implementation: READDIRPLUS with two different counts"
BREAKS = "READDIRPLUS3args has its two counts in the wrong order on the wire, both ways"
TEST = '''
package rfc1813

import (
	"testing"

	"github.com/zeldovich/go-rpcgen/xdr"
)

func TestDemo(t *testing.T) {
	v := READDIRPLUS3args{Dircount: 1, Maxcount: 2}
	b, err := xdr.EncodeBuf(&v)
	if err != nil || len(b) < 8 || b[len(b)-5] != 1 || b[len(b)-1] != 2 {
		t.Fatalf("%x %v", b, err)
	}
}
'''
