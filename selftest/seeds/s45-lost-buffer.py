PROP = 'C29'; PKG = 'rfc1057'
EDITS = [('rfc1057/server.go', '\tdefer putReqBuf(buf)\n\n\terr := sc.handleReqErr(buf)\n\tif err != nil {\n\t\tfmt.Fprintf(os.Stderr, "%v\\n", err)\n\t}\n', '\terr := sc.handleReqErr(buf)\n\tif err != nil {\n\t\tfmt.Fprintf(os.Stderr, "%v\\n", err)\n\t\treturn\n\t}\n\n\tputReqBuf(buf)\n')]
NEEDS = 'requests that fail (here: records that do not decode)'
BREAKS = 'their buffers are lost to the pool, every such request allocates a new one'
TEST = r'''
package rfc1057

import (
	"encoding/binary"
	"net"
	"runtime"
	"runtime/debug"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	s := MakeServer()
	a, b := net.Pipe()
	go s.Run(b)
	rec := make([]byte, 4+1<<18)
	binary.BigEndian.PutUint32(rec, 1<<31|1<<18)
	binary.BigEndian.PutUint32(rec[8:], 77) // no such message type
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	for i := 0; i < 100; i++ {
		if _, err := a.Write(rec); err != nil {
			t.Fatal(err)
		}
		time.Sleep(5 * time.Millisecond)
	}
	runtime.ReadMemStats(&after)
	if n := (after.TotalAlloc - before.TotalAlloc) >> 18; n > 50 {
		t.Fatalf("100 requests one after the other used about %d buffers", n)
	}
}
'''
ARGS = ''
