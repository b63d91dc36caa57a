PROP = "C02"; PKG = "xdr"
EDITS = [("xdr/lib.go", '''		if (maxlen >= 0 && sz > maxlen) || sz < 0 {
			xs.SetError("string too large")''', '''		if (maxlen >= 0 && (sz+3)/4 > (maxlen+3)/4) || sz < 0 {
			xs.SetError("string too large")''')]
NEEDS = "a maximum that is not a multiple of four and a string one to three bytes longer than it"
BREAKS = "the bound of a string is enforced on its padded length only when decoding"
TEST = '''
package xdr

import "testing"

func TestDemo(t *testing.T) {
	for max := 0; max < 20; max++ {
		for n := 0; n < 24; n++ {
			s := string(make([]byte, n))
			w := MakeWriter(nil)
			XdrString(w, -1, &s)
			var r string
			rd := MakeReader(w.WriteBuf())
			XdrString(rd, max, &r)
			if (rd.Error() == nil) != (n <= max) {
				t.Fatalf("maximum %d, length %d: %v", max, n, rd.Error())
			}
		}
	}
}
'''
