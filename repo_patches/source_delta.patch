From df74bfa903633bbebb42aca69e235f19909b70e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:20 +0000
Subject: [PATCH 01/16] fix: generate compilable codecs for fixed-length arrays

The element expression &(*(p)[i]) dereferenced the element instead of the
array pointer, and the bound i < N does not compile when N is a typed
constant (-const-type), so any fixed-length array other than opaque
produced Go code that does not build.
---
 out.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/out.go b/out.go
index 5931268..5388ef1 100644
--- a/out.go
+++ b/out.go
@@ -54,8 +54,8 @@ func (t declTypeArray) goType() string {
 
 func (t declTypeArray) goXdr(valPtr string) string {
 	var res string
-	res += fmt.Sprintf("for i := 0; i < %s; i++ {\n", t.sz)
-	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&(*(%s)[i])", valPtr)))
+	res += fmt.Sprintf("for i := 0; i < len(*(%s)); i++ {\n", valPtr)
+	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[i])", valPtr)))
 	res += fmt.Sprintf("}\n")
 	return res
 }
-- 
2.43.0


From c57386913cdeddd0239496deb0e29cb97848a7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:20 +0000
Subject: [PATCH 02/16] fix: do not capture the index of an enclosing array in
 nested arrays

The codec of an array nested in the elements of another array used the
same loop variable i, so element expressions of the inner loop indexed the
outer array with the inner index: struct { int a<>; } b<>; was encoded
wrongly or panicked.
---
 out.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/out.go b/out.go
index 5388ef1..bd46fec 100644
--- a/out.go
+++ b/out.go
@@ -43,6 +43,16 @@ func (t declTypeTypespec) goXdr(valPtr string) string {
 	return t.t.goXdr(valPtr)
 }
 
+// loopVar picks a loop variable that does not capture an index used in valPtr,
+// for arrays nested inside the elements of another array.
+func loopVar(valPtr string) string {
+	v := "i"
+	for strings.Contains(valPtr, "["+v+"]") {
+		v += "i"
+	}
+	return v
+}
+
 type declTypeArray struct {
 	t  typespec
 	sz string
@@ -53,9 +63,10 @@ func (t declTypeArray) goType() string {
 }
 
 func (t declTypeArray) goXdr(valPtr string) string {
+	idx := loopVar(valPtr)
 	var res string
-	res += fmt.Sprintf("for i := 0; i < len(*(%s)); i++ {\n", valPtr)
-	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[i])", valPtr)))
+	res += fmt.Sprintf("for %s := 0; %s < len(*(%s)); %s++ {\n", idx, idx, valPtr, idx)
+	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[%s])", valPtr, idx)))
 	res += fmt.Sprintf("}\n")
 	return res
 }
@@ -70,6 +81,7 @@ func (t declTypeVarArray) goType() string {
 }
 
 func (t declTypeVarArray) goXdr(valPtr string) string {
+	idx := loopVar(valPtr)
 	var res string
 	res += fmt.Sprintf("{\n")
 	res += fmt.Sprintf("var __arraysz uint32\n")
@@ -79,8 +91,8 @@ func (t declTypeVarArray) goXdr(valPtr string) string {
 		res += fmt.Sprintf("if __arraysz > %s { xs.SetError(\"array too large\") } else {\n", t.sz)
 	}
 	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, __arraysz); }\n", valPtr, t.t.goType())
-	res += fmt.Sprintf("for i := uint64(0); i < uint64(__arraysz); i++ {\n")
-	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[i])", valPtr)))
+	res += fmt.Sprintf("for %s := uint64(0); %s < uint64(__arraysz); %s++ {\n", idx, idx, idx)
+	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[%s])", valPtr, idx)))
 	res += fmt.Sprintf("}\n")
 	if t.sz != "" {
 		res += fmt.Sprintf("}\n")
-- 
2.43.0


From cd0a4dc86f354436d69591ba63a809036c801677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:38 +0000
Subject: [PATCH 03/16] fix: decoding an absent optional clears the destination

Decoding a FALSE optional left whatever pointer the destination already
held, so decoding an empty list into a reused reply kept the old list
(e.g. PMAPPROC_DUMP into a Pmaplist used before).
---
 out.go         |  2 ++
 rfc1057/xdr.go |  2 ++
 rfc1813/xdr.go | 20 ++++++++++++++++++++
 3 files changed, 24 insertions(+)

diff --git a/out.go b/out.go
index bd46fec..1907998 100644
--- a/out.go
+++ b/out.go
@@ -169,6 +169,8 @@ func (t declTypePtr) goXdr(valPtr string) string {
 	res += fmt.Sprintf("if opted {\n")
 	res += fmt.Sprintf("*(%s) = new(%s)\n", valPtr, t.t.goType())
 	res += t.t.goXdr(fmt.Sprintf("*(%s)", valPtr))
+	res += fmt.Sprintf("} else {\n")
+	res += fmt.Sprintf("*(%s) = nil\n", valPtr)
 	res += fmt.Sprintf("}\n")
 	res += fmt.Sprintf("}\n")
 	return res
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index 3ed725a..ebbd2d3 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -116,6 +116,8 @@ func (v *Pmaplist) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&v.P) = new(Pmaplistelem)
 			(*Pmaplistelem)(*(&v.P)).Xdr(xs)
+		} else {
+			*(&v.P) = nil
 		}
 	}
 }
diff --git a/rfc1813/xdr.go b/rfc1813/xdr.go
index 9e7a294..24f00ca 100644
--- a/rfc1813/xdr.go
+++ b/rfc1813/xdr.go
@@ -950,6 +950,8 @@ func (v *Entry3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Nextentry)) = new(Entry3)
 			(*Entry3)(*(&((v).Nextentry))).Xdr(xs)
+		} else {
+			*(&((v).Nextentry)) = nil
 		}
 	}
 }
@@ -967,6 +969,8 @@ func (v *Dirlist3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Entries)) = new(Entry3)
 			(*Entry3)(*(&((v).Entries))).Xdr(xs)
+		} else {
+			*(&((v).Entries)) = nil
 		}
 	}
 	xdr.XdrBool(xs, (*bool)(&((v).Eof)))
@@ -1014,6 +1018,8 @@ func (v *Entryplus3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Nextentry)) = new(Entryplus3)
 			(*Entryplus3)(*(&((v).Nextentry))).Xdr(xs)
+		} else {
+			*(&((v).Nextentry)) = nil
 		}
 	}
 }
@@ -1031,6 +1037,8 @@ func (v *Dirlistplus3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Entries)) = new(Entryplus3)
 			(*Entryplus3)(*(&((v).Entries))).Xdr(xs)
+		} else {
+			*(&((v).Entries)) = nil
 		}
 	}
 	xdr.XdrBool(xs, (*bool)(&((v).Eof)))
@@ -1298,6 +1306,8 @@ func (v *Mount3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Ml_next)) = new(Mount3)
 			(*Mount3)(*(&((v).Ml_next))).Xdr(xs)
+		} else {
+			*(&((v).Ml_next)) = nil
 		}
 	}
 }
@@ -1315,6 +1325,8 @@ func (v *Mountopt3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&v.P) = new(Mount3)
 			(*Mount3)(*(&v.P)).Xdr(xs)
+		} else {
+			*(&v.P) = nil
 		}
 	}
 }
@@ -1333,6 +1345,8 @@ func (v *Groups3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Gr_next)) = new(Groups3)
 			(*Groups3)(*(&((v).Gr_next))).Xdr(xs)
+		} else {
+			*(&((v).Gr_next)) = nil
 		}
 	}
 }
@@ -1351,6 +1365,8 @@ func (v *Exports3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Ex_groups)) = new(Groups3)
 			(*Groups3)(*(&((v).Ex_groups))).Xdr(xs)
+		} else {
+			*(&((v).Ex_groups)) = nil
 		}
 	}
 	if xs.Encoding() {
@@ -1366,6 +1382,8 @@ func (v *Exports3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Ex_next)) = new(Exports3)
 			(*Exports3)(*(&((v).Ex_next))).Xdr(xs)
+		} else {
+			*(&((v).Ex_next)) = nil
 		}
 	}
 }
@@ -1383,6 +1401,8 @@ func (v *Exportsopt3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&v.P) = new(Exports3)
 			(*Exports3)(*(&v.P)).Xdr(xs)
+		} else {
+			*(&v.P) = nil
 		}
 	}
 }
-- 
2.43.0


From fb8a7c1567b767b6a307a682505552f275a56584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:20 +0000
Subject: [PATCH 04/16] fix: refuse array sizes that the input cannot hold
 before allocating

A 4-byte size prefix alone made the decoder of an unbounded array allocate
up to 2^32-1 elements (and loop as often): 8 bytes of Mountres3_ok input
allocated 1 GB and more.
---
 out.go         |  3 ++-
 rfc1057/xdr.go |  1 +
 rfc1813/xdr.go |  1 +
 xdr/lib.go     | 18 ++++++++++++++++++
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/out.go b/out.go
index 1907998..4fca602 100644
--- a/out.go
+++ b/out.go
@@ -86,7 +86,8 @@ func (t declTypeVarArray) goXdr(valPtr string) string {
 	res += fmt.Sprintf("{\n")
 	res += fmt.Sprintf("var __arraysz uint32\n")
 	res += fmt.Sprintf("xs.EncodingSetSize(&__arraysz, len(*%s));\n", valPtr)
-	res += fmt.Sprintf("%s\n", typeInt{true}.goXdr("&__arraysz"))
+	res += fmt.Sprintf("%s", typeInt{true}.goXdr("&__arraysz"))
+	res += fmt.Sprintf("xs.DecodingCheckSize(&__arraysz);\n\n")
 	if t.sz != "" {
 		res += fmt.Sprintf("if __arraysz > %s { xs.SetError(\"array too large\") } else {\n", t.sz)
 	}
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index ebbd2d3..0ebf460 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -82,6 +82,7 @@ func (v *Auth_unix) Xdr(xs *xdr.XdrState) {
 		var __arraysz uint32
 		xs.EncodingSetSize(&__arraysz, len(*&((v).Gids)))
 		xdr.XdrU32(xs, (*uint32)(&__arraysz))
+		xs.DecodingCheckSize(&__arraysz)
 
 		if __arraysz > 16 {
 			xs.SetError("array too large")
diff --git a/rfc1813/xdr.go b/rfc1813/xdr.go
index 24f00ca..d30c0db 100644
--- a/rfc1813/xdr.go
+++ b/rfc1813/xdr.go
@@ -1272,6 +1272,7 @@ func (v *Mountres3_ok) Xdr(xs *xdr.XdrState) {
 		var __arraysz uint32
 		xs.EncodingSetSize(&__arraysz, len(*&((v).Auth_flavors)))
 		xdr.XdrU32(xs, (*uint32)(&__arraysz))
+		xs.DecodingCheckSize(&__arraysz)
 
 		if xs.Decoding() {
 			*&((v).Auth_flavors) = make([]uint32, __arraysz)
diff --git a/xdr/lib.go b/xdr/lib.go
index fea9757..0fab879 100644
--- a/xdr/lib.go
+++ b/xdr/lib.go
@@ -55,6 +55,24 @@ func (xs *XdrState) EncodingSetSize(arraysz *uint32, len int) {
 	*arraysz = uint32(len)
 }
 
+// DecodingCheckSize is called before allocating a decoded array of arraysz
+// elements.  Every element takes at least 4 bytes, so a size that does not
+// fit in the remaining input is an error, for which arraysz is set to 0.
+func (xs *XdrState) DecodingCheckSize(arraysz *uint32) {
+	if xs.err != nil {
+		return
+	}
+
+	if !xs.reader {
+		return
+	}
+
+	if uint64(*arraysz) > uint64(len(xs.buf)/4) {
+		xs.SetError("not enough bytes for array")
+		*arraysz = 0
+	}
+}
+
 func (xs *XdrState) Encoding() bool {
 	return xs.err == nil && xs.reader == false
 }
-- 
2.43.0


From 7e16c2a01c45d5ed1d64b8d3673dc11de1d833f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:33 +0000
Subject: [PATCH 05/16] fix: spell constants the same way where they are
 defined and used

Constant definitions and array bounds kept the spelling of the
specification while enum items and union cases were capitalised, so a
lower-case constant used as a union case, or a lower-case enum item used as
a bound or value, produced Go code that does not build.  Bounds are also
converted, so that an enum item can bound a variable array.
---
 out.go         | 22 +++++++++++-----------
 rfc1057/xdr.go |  2 +-
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/out.go b/out.go
index 4fca602..ab893f4 100644
--- a/out.go
+++ b/out.go
@@ -59,7 +59,7 @@ type declTypeArray struct {
 }
 
 func (t declTypeArray) goType() string {
-	return fmt.Sprintf("[%s]%s", t.sz, t.t.goType())
+	return fmt.Sprintf("[%s]%s", i(t.sz), t.t.goType())
 }
 
 func (t declTypeArray) goXdr(valPtr string) string {
@@ -89,7 +89,7 @@ func (t declTypeVarArray) goXdr(valPtr string) string {
 	res += fmt.Sprintf("%s", typeInt{true}.goXdr("&__arraysz"))
 	res += fmt.Sprintf("xs.DecodingCheckSize(&__arraysz);\n\n")
 	if t.sz != "" {
-		res += fmt.Sprintf("if __arraysz > %s { xs.SetError(\"array too large\") } else {\n", t.sz)
+		res += fmt.Sprintf("if __arraysz > uint32(%s) { xs.SetError(\"array too large\") } else {\n", i(t.sz))
 	}
 	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, __arraysz); }\n", valPtr, t.t.goType())
 	res += fmt.Sprintf("for %s := uint64(0); %s < uint64(__arraysz); %s++ {\n", idx, idx, idx)
@@ -107,7 +107,7 @@ type declTypeOpaqueArray struct {
 }
 
 func (t declTypeOpaqueArray) goType() string {
-	return fmt.Sprintf("[%s]byte", t.sz)
+	return fmt.Sprintf("[%s]byte", i(t.sz))
 }
 
 func (t declTypeOpaqueArray) goXdr(valPtr string) string {
@@ -123,9 +123,9 @@ func (t declTypeOpaqueVarArray) goType() string {
 }
 
 func (t declTypeOpaqueVarArray) goXdr(valPtr string) string {
-	sz := t.sz
-	if sz == "" {
-		sz = "-1"
+	sz := "-1"
+	if t.sz != "" {
+		sz = i(t.sz)
 	}
 	return fmt.Sprintf("xdr.XdrVarArray(xs, int(%s), (*[]byte)(%s));\n", sz, valPtr)
 }
@@ -139,9 +139,9 @@ func (t declTypeString) goType() string {
 }
 
 func (t declTypeString) goXdr(valPtr string) string {
-	sz := t.sz
-	if sz == "" {
-		sz = "-1"
+	sz := "-1"
+	if t.sz != "" {
+		sz = i(t.sz)
 	}
 	return fmt.Sprintf("xdr.XdrString(xs, int(%s), (*string)(%s));\n", sz, valPtr)
 }
@@ -457,7 +457,7 @@ func emitProg(d progDef) {
 }
 
 func emitConst(ident string, val string) {
-	fmt.Fprintf(tout, "const %s %s = %s\n", ident, *constTypeFlag, val)
+	fmt.Fprintf(tout, "const %s %s = %s\n", i(ident), *constTypeFlag, val)
 }
 
 func emitTypedef(val decl) {
@@ -495,7 +495,7 @@ func emitEnum(ident string, val []enumItem) {
 	fmt.Fprintf(out, "}\n")
 
 	for _, v := range val {
-		fmt.Fprintf(tout, "const %s %s = %s\n", i(v.name), i(ident), v.val)
+		fmt.Fprintf(tout, "const %s %s = %s\n", i(v.name), i(ident), i(v.val))
 	}
 }
 
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index 0ebf460..67bfbb8 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -84,7 +84,7 @@ func (v *Auth_unix) Xdr(xs *xdr.XdrState) {
 		xdr.XdrU32(xs, (*uint32)(&__arraysz))
 		xs.DecodingCheckSize(&__arraysz)
 
-		if __arraysz > 16 {
+		if __arraysz > uint32(16) {
 			xs.SetError("array too large")
 		} else {
 			if xs.Decoding() {
-- 
2.43.0


From fbdda2c5a40298cce9dee085660cf39310dad343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:50 +0000
Subject: [PATCH 06/16] fix: line breaks in a specification are not semicolons

The Go scanner inserts semicolons at line ends, so a specification with a
line break before '{', ';' or '}' was rejected, and one that lacks a
semicolon at the end of a line was accepted.
---
 scan.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scan.go b/scan.go
index 23ab8ca..f0e7500 100644
--- a/scan.go
+++ b/scan.go
@@ -16,6 +16,11 @@ const eof = 0
 
 func (l *lexer) Lex(lval *xdrSymType) int {
 	pos, tok, lit := l.s.Scan()
+	for tok == token.SEMICOLON && lit != ";" {
+		// Inserted by the scanner at the end of a line (as in Go)
+		pos, tok, lit = l.s.Scan()
+	}
+
 	if tok == token.EOF {
 		return eof
 	}
-- 
2.43.0


From c85d5f91708d7c2364510384e141a851acdff294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:10 +0000
Subject: [PATCH 07/16] fix: report scanner errors instead of ignoring them

Without an error handler the scanner skips an unterminated comment, so
every definition after it was silently left out of the output.
---
 main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 8ad23cf..648d145 100644
--- a/main.go
+++ b/main.go
@@ -43,7 +43,9 @@ func main() {
 	f := fset.AddFile(*inputFile, -1, len(src))
 
 	var l lexer
-	l.s.Init(f, src, nil, 0)
+	l.s.Init(f, src, func(pos token.Position, msg string) {
+		panic(fmt.Sprintf("%v: %s", pos, msg))
+	}, 0)
 
 	outTmp := *outputFile + ".tmp"
 	outf, err := os.OpenFile(outTmp, os.O_WRONLY|os.O_EXCL|os.O_CREATE|os.O_TRUNC, 0666)
-- 
2.43.0


From 8b6174aae78840b99405e35cb0dbf02841e88460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:26 +0000
Subject: [PATCH 08/16] fix: report write errors and write outputs only when
 all are complete

Errors writing the intermediate files were ignored, so a full disk could
silently truncate the output at the end of a definition.  The codec output
was also replaced before the types output had been formatted, so a
formatting error left the two inconsistent.
---
 main.go | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/main.go b/main.go
index 648d145..31100d1 100644
--- a/main.go
+++ b/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bufio"
 	"flag"
 	"fmt"
 	"go/format"
@@ -54,13 +55,15 @@ func main() {
 	}
 
 	defer os.Remove(outTmp)
-	out = outf
+	outw := bufio.NewWriter(outf)
+	out = outw
 
 	fmt.Fprintf(out, "package %s\n", *outputPackage)
 	fmt.Fprintf(out, "import \"github.com/zeldovich/go-rpcgen/xdr\"\n")
 
 	var toutTmp string
 	var toutf *os.File
+	var toutw *bufio.Writer
 	if *typesFile != "" {
 		toutTmp = *typesFile + ".tmp"
 		toutf, err = os.OpenFile(toutTmp, os.O_WRONLY|os.O_EXCL|os.O_CREATE|os.O_TRUNC, 0666)
@@ -69,24 +72,41 @@ func main() {
 		}
 
 		defer os.Remove(toutTmp)
-		tout = toutf
+		toutw = bufio.NewWriter(toutf)
+		tout = toutw
 
 		fmt.Fprintf(tout, "package %s\n", *outputPackage)
 	} else {
-		tout = outf
+		tout = out
 	}
 
 	xdrParse(&l)
-	outf.Close()
-	refmt(outTmp, *outputFile)
+	finish(outw, outf)
+	outBuf := refmt(outTmp)
 
 	if *typesFile != "" {
-		toutf.Close()
-		refmt(toutTmp, *typesFile)
+		finish(toutw, toutf)
+		toutBuf := refmt(toutTmp)
+		writeOutput(*typesFile, toutBuf)
+	}
+
+	writeOutput(*outputFile, outBuf)
+}
+
+// finish makes sure that everything written to w has reached f.
+func finish(w *bufio.Writer, f *os.File) {
+	err := w.Flush()
+	if err != nil {
+		panic(err)
+	}
+
+	err = f.Close()
+	if err != nil {
+		panic(err)
 	}
 }
 
-func refmt(infile string, outfile string) {
+func refmt(infile string) []byte {
 	buf, err := ioutil.ReadFile(infile)
 	if err != nil {
 		panic(err)
@@ -97,7 +117,11 @@ func refmt(infile string, outfile string) {
 		panic(err)
 	}
 
-	err = ioutil.WriteFile(outfile, buf, 0666)
+	return buf
+}
+
+func writeOutput(outfile string, buf []byte) {
+	err := ioutil.WriteFile(outfile, buf, 0666)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 7f00f7b9f02975ff8ba0249ed7e18a160ee4791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:53 +0000
Subject: [PATCH 09/16] fix: report the supported versions in mismatch replies

RPC_MISMATCH and PROG_MISMATCH replies must carry the lowest and highest
supported version (RFC 1057 section 8); both were always 0 and 0.
---
 rfc1057/server.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/rfc1057/server.go b/rfc1057/server.go
index cbb5ee9..f7f0e2e 100644
--- a/rfc1057/server.go
+++ b/rfc1057/server.go
@@ -66,6 +66,21 @@ func (s *Server) RegisterMany(regs []xdr.ProcRegistration) {
 	}
 }
 
+// versRange returns the lowest and highest registered version in vermap.
+func versRange(vermap map[uint32]map[uint32]ProcHandler) (low, high uint32) {
+	first := true
+	for vers := range vermap {
+		if first || vers < low {
+			low = vers
+		}
+		if first || vers > high {
+			high = vers
+		}
+		first = false
+	}
+	return
+}
+
 func (s *Server) Run(rw io.ReadWriter) error {
 	sc := &serverConn{
 		s:  s,
@@ -126,6 +141,8 @@ func (sc *serverConn) handleReqErr(buf []byte) error {
 	if req.Body.Cbody.Rpcvers != 2 {
 		res.Body.Rbody.Stat = MSG_DENIED
 		res.Body.Rbody.Rreply.Stat = RPC_MISMATCH
+		res.Body.Rbody.Rreply.Mismatch_info.Low = 2
+		res.Body.Rbody.Rreply.Mismatch_info.High = 2
 	} else {
 		res.Body.Rbody.Stat = MSG_ACCEPTED
 		vermap, progok := sc.s.handlers[req.Body.Cbody.Prog]
@@ -137,6 +154,9 @@ func (sc *serverConn) handleReqErr(buf []byte) error {
 		procmap, verok := vermap[req.Body.Cbody.Vers]
 		if !verok {
 			res.Body.Rbody.Areply.Reply_data.Stat = PROG_MISMATCH
+			low, high := versRange(vermap)
+			res.Body.Rbody.Areply.Reply_data.Mismatch_info.Low = low
+			res.Body.Rbody.Areply.Reply_data.Mismatch_info.High = high
 			goto reply
 		}
 
-- 
2.43.0


From 38eeb2b6620e2b41a1a4c1821ea78bfa920667fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:53 +0000
Subject: [PATCH 10/16] fix: do not append result data to a GARBAGE_ARGS reply

A handler that returned both a result and an error had its result encoded
after a reply header that says there is none.
---
 rfc1057/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rfc1057/server.go b/rfc1057/server.go
index f7f0e2e..1121e40 100644
--- a/rfc1057/server.go
+++ b/rfc1057/server.go
@@ -168,6 +168,7 @@ func (sc *serverConn) handleReqErr(buf []byte) error {
 
 		resdata, err = h(rd)
 		if err != nil {
+			resdata = nil
 			res.Body.Rbody.Areply.Reply_data.Stat = GARBAGE_ARGS
 			goto reply
 		}
-- 
2.43.0


From 8db002e87a496ac29253df30fe857175a5cdd733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:53 +0000
Subject: [PATCH 11/16] fix: refuse messages that do not fit in a record
 fragment

A message of 2^31 bytes or more was sent under a header that holds only
the low bits of its length, which desynchronises the connection.
---
 rfc1057/client.go | 6 ++++++
 rfc1057/server.go | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/rfc1057/client.go b/rfc1057/client.go
index ce797f3..f700ea3 100644
--- a/rfc1057/client.go
+++ b/rfc1057/client.go
@@ -8,6 +8,9 @@ import (
 	"github.com/zeldovich/go-rpcgen/xdr"
 )
 
+// maxRecordLen is the longest message that fits in a single record fragment.
+const maxRecordLen = 0x7fffffff
+
 type Client struct {
 	rw   io.ReadWriter
 	xid  uint32
@@ -51,6 +54,9 @@ func (c *Client) Call(proc uint32, cred, verf Opaque_auth, args xdr.Xdrable, res
 	}
 
 	wbuf := wr.WriteBuf()
+	if len(wbuf) > maxRecordLen {
+		return fmt.Errorf("request too large: %d bytes", len(wbuf))
+	}
 	var hdr [4]byte
 	binary.BigEndian.PutUint32(hdr[:], (1<<31)|uint32(len(wbuf)))
 	_, err = c.rw.Write(append(hdr[:], wbuf...))
diff --git a/rfc1057/server.go b/rfc1057/server.go
index 1121e40..0e6c4eb 100644
--- a/rfc1057/server.go
+++ b/rfc1057/server.go
@@ -196,6 +196,9 @@ reply:
 	}
 
 	wbuf := wr.WriteBuf()
+	if len(wbuf)-4 > maxRecordLen {
+		return fmt.Errorf("reply too large: %d bytes", len(wbuf)-4)
+	}
 	binary.BigEndian.PutUint32(wbuf[0:4], (1<<31)|uint32(len(wbuf)-4))
 
 	_, err = sc.rw.Write(wbuf)
-- 
2.43.0


From ea998138bc01742abbf2c4fcb226e2fda327ba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:24 +0000
Subject: [PATCH 12/16] fix: accept the other Go keywords as identifiers

---
 scan.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scan.go b/scan.go
index f0e7500..212fd77 100644
--- a/scan.go
+++ b/scan.go
@@ -149,6 +149,12 @@ func (l *lexer) Lex(lval *xdrSymType) int {
 		return CONST
 
 	default:
+		if tok.IsKeyword() {
+			// Reserved in Go, but not in XDR
+			lval.str = lit
+			return IDENT
+		}
+
 		fmt.Printf("NOT HANDLED: pos=%v, tok=%v, lit=%v\n", pos, tok, lit)
 		panic("token not handled")
 	}
-- 
2.43.0


From 25abd31d9b3997008c71c1664927624f2f0664b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:24 +0000
Subject: [PATCH 13/16] fix: reject procedures whose argument or result type
 has no name

---
 out.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/out.go b/out.go
index ab893f4..24d7be3 100644
--- a/out.go
+++ b/out.go
@@ -195,6 +195,18 @@ func (t typespecOpt) maybeGoType() string {
 	return t.t.goType()
 }
 
+// checkNamed rejects argument and result types without a name of their own:
+// only named types have the Xdr method that the emitted code relies on.
+func (t typespecOpt) checkNamed(proc string) {
+	if t.isVoid {
+		return
+	}
+
+	if _, ok := t.t.(typeIdent); !ok {
+		panic(fmt.Sprintf("%s: argument and result must be void or a named type", proc))
+	}
+}
+
 type typeInt struct {
 	unsig bool
 }
@@ -398,6 +410,9 @@ func emitProg(d progDef) {
 		fmt.Fprintf(tout, "const %s uint32 = %s\n", i(v.name), v.id)
 
 		for _, c := range v.calls {
+			c.arg.checkNamed(c.name)
+			c.res.checkNamed(c.name)
+
 			fmt.Fprintf(tout, "const %s uint32 = %s\n", i(c.name), c.id)
 		}
 
-- 
2.43.0


From a1f448f6a30f56be1ed39cc8ed083537376e396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:24 +0000
Subject: [PATCH 14/16] fix: declare a procedure that several versions share
 only once

---
 out.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/out.go b/out.go
index 24d7be3..3abf713 100644
--- a/out.go
+++ b/out.go
@@ -406,6 +406,7 @@ type progDef struct {
 
 func emitProg(d progDef) {
 	fmt.Fprintf(tout, "const %s uint32 = %s\n", i(d.name), d.id)
+	procs := make(map[string]string)
 	for _, v := range d.vers {
 		fmt.Fprintf(tout, "const %s uint32 = %s\n", i(v.name), v.id)
 
@@ -413,6 +414,15 @@ func emitProg(d progDef) {
 			c.arg.checkNamed(c.name)
 			c.res.checkNamed(c.name)
 
+			// Versions may share procedures; one constant serves them all
+			if id, ok := procs[c.name]; ok {
+				if id != c.id {
+					panic(fmt.Sprintf("%s: different numbers in different versions", c.name))
+				}
+				continue
+			}
+			procs[c.name] = c.id
+
 			fmt.Fprintf(tout, "const %s uint32 = %s\n", i(c.name), c.id)
 		}
 
-- 
2.43.0


From 0b67082f38141dd55ead6d86f78b8aa2df3d3a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:24 +0000
Subject: [PATCH 15/16] fix: emit compiling code for a specification without
 codecs

---
 main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.go b/main.go
index 31100d1..50480a2 100644
--- a/main.go
+++ b/main.go
@@ -61,6 +61,9 @@ func main() {
 	fmt.Fprintf(out, "package %s\n", *outputPackage)
 	fmt.Fprintf(out, "import \"github.com/zeldovich/go-rpcgen/xdr\"\n")
 
+	// Use the import even if the specification needs no codec
+	fmt.Fprintf(out, "var _ *xdr.XdrState\n")
+
 	var toutTmp string
 	var toutf *os.File
 	var toutw *bufio.Writer
-- 
2.43.0


From f84621ab4a51bc5c50fdca9cc9f9663b820522bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:38 +0000
Subject: [PATCH 16/16] fix: emit compiling code for a version without
 procedures

---
 out.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/out.go b/out.go
index 3abf713..6a74194 100644
--- a/out.go
+++ b/out.go
@@ -466,7 +466,9 @@ func emitProg(d progDef) {
 		}
 
 		fmt.Fprintf(out, "func %s_%s_regs(h %s_%s_handler) []xdr.ProcRegistration {\n", i(d.name), i(v.name), i(d.name), i(v.name))
-		fmt.Fprintf(out, "w := &%s_%s_handler_wrapper{h}\n", i(d.name), i(v.name))
+		if len(v.calls) > 0 {
+			fmt.Fprintf(out, "w := &%s_%s_handler_wrapper{h}\n", i(d.name), i(v.name))
+		}
 		fmt.Fprintf(out, "return []xdr.ProcRegistration{\n")
 		for _, c := range v.calls {
 			fmt.Fprintf(out, "xdr.ProcRegistration{\n")
-- 
2.43.0

