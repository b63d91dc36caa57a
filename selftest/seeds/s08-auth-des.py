PROP = "C08"; PKG = "rfc1057"
EDITS = [("rfc1057/xdr.go", '''	case RPC_MISMATCH:
		xdr.XdrU32(xs, (*uint32)(&((&((v).Mismatch_info)).Low)))
		xdr.XdrU32(xs, (*uint32)(&((&((v).Mismatch_info)).High)))
	case AUTH_ERROR:
		(*Auth_stat)(&((v).Astat)).Xdr(xs)
	}''', '''	case RPC_MISMATCH:
		xdr.XdrU32(xs, (*uint32)(&((&((v).Mismatch_info)).Low)))
		xdr.XdrU32(xs, (*uint32)(&((&((v).Mismatch_info)).High)))
	default:
		(*Auth_stat)(&((v).Astat)).Xdr(xs)
	}''')]
NEEDS = "a rejected reply with a reject_stat other than RPC_MISMATCH and AUTH_ERROR"
BREAKS = "an arm the union does not have consumes and produces an auth_stat"
TEST = '''
package rfc1057

import (
	"testing"

	"github.com/zeldovich/go-rpcgen/xdr"
)

func TestDemo(t *testing.T) {
	v := Rejected_reply{Stat: 7}
	b, err := xdr.EncodeBuf(&v)
	if err != nil || len(b) != 4 {
		t.Fatalf("%x %v", b, err)
	}
}
'''
