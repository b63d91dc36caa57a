PROP = "C04"; PKG = "xdr"
EDITS = [("xdr/lib.go", '''		xdrRW(xs, make([]byte, (4-len(*v)%4)%4))
	}
}

func XdrArray''', '''		xdrRW(xs, make([]byte, (4-len(*v)%4)%4))
		if xs.reader && len(xs.buf) == 0 {
			// Be liberal: padding may be missing at the end
			xs.err = nil
		}
	}
}

func XdrArray''')]
NEEDS = "a truncated message: opaque data as the last field whose bytes are missing, of a length that is no multiple of four once an earlier read has failed"
BREAKS = "a failed coding state is reset to success"
TEST = '''
package xdr

import "testing"

func TestDemo(t *testing.T) {
	full := []byte{0, 0, 0, 5, 1, 2, 3, 4, 5, 0, 0, 0}
	for n := 0; n < len(full); n++ {
		var v []byte
		rd := MakeReader(full[:n:n])
		XdrVarArray(rd, -1, &v)
		if rd.Error() == nil {
			t.Fatalf("prefix of %d bytes decoded without error", n)
		}
	}
}
'''
