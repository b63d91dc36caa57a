PROP = "C01"; PKG = "xdr"
EDITS = [("xdr/lib.go", "		*v = int64(binary.BigEndian.Uint64(buf[:]))", "		hi := int32(binary.BigEndian.Uint32(buf[:4]))\n		lo := int32(binary.BigEndian.Uint32(buf[4:]))\n		*v = int64(hi)<<32 | int64(lo)")]
NEEDS = "a signed hyper whose low word has its top bit set"
BREAKS = "decoding a 64-bit signed integer sign-extends the low word over the high word"
TEST = '''
package xdr

import "testing"

func TestDemo(t *testing.T) {
	for _, v := range []int64{0, 1, -1, 1 << 31, 1<<40 + 1<<31, -(1 << 40), 1<<63 - 1, 0x1234567890abcdef} {
		a := Int64(v)
		buf, err := EncodeBuf(&a)
		if err != nil {
			t.Fatal(err)
		}
		var b Int64
		if err := DecodeBuf(buf, &b); err != nil || a != b {
			t.Fatalf("%x decoded as %x (%v)", int64(a), int64(b), err)
		}
	}
}
'''
