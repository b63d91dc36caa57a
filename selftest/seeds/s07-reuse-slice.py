PROP = "C07"; PKG = "rfc1057"
EDITS = [("rfc1057/xdr.go", "				*&((v).Gids) = make([]uint32, __arraysz)\n", "				if len(v.Gids) < int(__arraysz) {\n					v.Gids = make([]uint32, __arraysz)\n				}\n")]
NEEDS = "decoding twice into one value, the second time a shorter list"
BREAKS = "the tail of an earlier, longer gid list survives decoding"
TEST = '''
package rfc1057

import (
	"bytes"
	"testing"

	"github.com/zeldovich/go-rpcgen/xdr"
)

func TestDemo(t *testing.T) {
	long, _ := xdr.EncodeBuf(&Auth_unix{Machinename: "a", Gids: []uint32{1, 2, 3}})
	short, _ := xdr.EncodeBuf(&Auth_unix{Machinename: "a", Gids: []uint32{4}})
	var v Auth_unix
	if err := xdr.DecodeBuf(long, &v); err != nil {
		t.Fatal(err)
	}
	if err := xdr.DecodeBuf(short, &v); err != nil {
		t.Fatal(err)
	}
	again, _ := xdr.EncodeBuf(&v)
	if !bytes.Equal(again, short) {
		t.Fatalf("gids %v", v.Gids)
	}
}
'''
