From 4558dfeba7f048dc44c79308f7a89c89501995d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:17 +0000
Subject: [PATCH 01/16] fix: clear optional data that is absent when decoding
 into a used value

---
 out.go         |  2 ++
 rfc1057/xdr.go |  2 ++
 rfc1813/xdr.go | 20 ++++++++++++++++++++
 3 files changed, 24 insertions(+)

diff --git a/out.go b/out.go
index 5931268..91a17cc 100644
--- a/out.go
+++ b/out.go
@@ -157,6 +157,8 @@ func (t declTypePtr) goXdr(valPtr string) string {
 	res += fmt.Sprintf("if opted {\n")
 	res += fmt.Sprintf("*(%s) = new(%s)\n", valPtr, t.t.goType())
 	res += t.t.goXdr(fmt.Sprintf("*(%s)", valPtr))
+	res += fmt.Sprintf("} else if xs.Decoding() {\n")
+	res += fmt.Sprintf("*(%s) = nil\n", valPtr)
 	res += fmt.Sprintf("}\n")
 	res += fmt.Sprintf("}\n")
 	return res
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index 3ed725a..fd7b221 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -116,6 +116,8 @@ func (v *Pmaplist) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&v.P) = new(Pmaplistelem)
 			(*Pmaplistelem)(*(&v.P)).Xdr(xs)
+		} else if xs.Decoding() {
+			*(&v.P) = nil
 		}
 	}
 }
diff --git a/rfc1813/xdr.go b/rfc1813/xdr.go
index 9e7a294..06542a0 100644
--- a/rfc1813/xdr.go
+++ b/rfc1813/xdr.go
@@ -950,6 +950,8 @@ func (v *Entry3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Nextentry)) = new(Entry3)
 			(*Entry3)(*(&((v).Nextentry))).Xdr(xs)
+		} else if xs.Decoding() {
+			*(&((v).Nextentry)) = nil
 		}
 	}
 }
@@ -967,6 +969,8 @@ func (v *Dirlist3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Entries)) = new(Entry3)
 			(*Entry3)(*(&((v).Entries))).Xdr(xs)
+		} else if xs.Decoding() {
+			*(&((v).Entries)) = nil
 		}
 	}
 	xdr.XdrBool(xs, (*bool)(&((v).Eof)))
@@ -1014,6 +1018,8 @@ func (v *Entryplus3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Nextentry)) = new(Entryplus3)
 			(*Entryplus3)(*(&((v).Nextentry))).Xdr(xs)
+		} else if xs.Decoding() {
+			*(&((v).Nextentry)) = nil
 		}
 	}
 }
@@ -1031,6 +1037,8 @@ func (v *Dirlistplus3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Entries)) = new(Entryplus3)
 			(*Entryplus3)(*(&((v).Entries))).Xdr(xs)
+		} else if xs.Decoding() {
+			*(&((v).Entries)) = nil
 		}
 	}
 	xdr.XdrBool(xs, (*bool)(&((v).Eof)))
@@ -1298,6 +1306,8 @@ func (v *Mount3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Ml_next)) = new(Mount3)
 			(*Mount3)(*(&((v).Ml_next))).Xdr(xs)
+		} else if xs.Decoding() {
+			*(&((v).Ml_next)) = nil
 		}
 	}
 }
@@ -1315,6 +1325,8 @@ func (v *Mountopt3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&v.P) = new(Mount3)
 			(*Mount3)(*(&v.P)).Xdr(xs)
+		} else if xs.Decoding() {
+			*(&v.P) = nil
 		}
 	}
 }
@@ -1333,6 +1345,8 @@ func (v *Groups3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Gr_next)) = new(Groups3)
 			(*Groups3)(*(&((v).Gr_next))).Xdr(xs)
+		} else if xs.Decoding() {
+			*(&((v).Gr_next)) = nil
 		}
 	}
 }
@@ -1351,6 +1365,8 @@ func (v *Exports3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Ex_groups)) = new(Groups3)
 			(*Groups3)(*(&((v).Ex_groups))).Xdr(xs)
+		} else if xs.Decoding() {
+			*(&((v).Ex_groups)) = nil
 		}
 	}
 	if xs.Encoding() {
@@ -1366,6 +1382,8 @@ func (v *Exports3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Ex_next)) = new(Exports3)
 			(*Exports3)(*(&((v).Ex_next))).Xdr(xs)
+		} else if xs.Decoding() {
+			*(&((v).Ex_next)) = nil
 		}
 	}
 }
@@ -1383,6 +1401,8 @@ func (v *Exportsopt3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&v.P) = new(Exports3)
 			(*Exports3)(*(&v.P)).Xdr(xs)
+		} else if xs.Decoding() {
+			*(&v.P) = nil
 		}
 	}
 }
-- 
2.43.0


From 3586062d6b8e1c43dbb9be966583ec2f4ef9953f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:47 +0000
Subject: [PATCH 02/16] fix: generate working code for fixed-length arrays and
 nested inline arrays

---
 out.go         | 20 ++++++++++++++++----
 rfc1057/xdr.go |  4 ++--
 rfc1813/xdr.go |  4 ++--
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/out.go b/out.go
index 91a17cc..8df41ea 100644
--- a/out.go
+++ b/out.go
@@ -43,6 +43,16 @@ func (t declTypeTypespec) goXdr(valPtr string) string {
 	return t.t.goXdr(valPtr)
 }
 
+// loopVar returns an index variable for a loop over the elements of valPtr
+// that does not shadow the index variables of enclosing loops.
+func loopVar(valPtr string) string {
+	v := "__i"
+	for strings.Contains(valPtr, "["+v+"]") {
+		v += "i"
+	}
+	return v
+}
+
 type declTypeArray struct {
 	t  typespec
 	sz string
@@ -54,8 +64,9 @@ func (t declTypeArray) goType() string {
 
 func (t declTypeArray) goXdr(valPtr string) string {
 	var res string
-	res += fmt.Sprintf("for i := 0; i < %s; i++ {\n", t.sz)
-	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&(*(%s)[i])", valPtr)))
+	idx := loopVar(valPtr)
+	res += fmt.Sprintf("for %s := range *(%s) {\n", idx, valPtr)
+	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[%s])", valPtr, idx)))
 	res += fmt.Sprintf("}\n")
 	return res
 }
@@ -79,8 +90,9 @@ func (t declTypeVarArray) goXdr(valPtr string) string {
 		res += fmt.Sprintf("if __arraysz > %s { xs.SetError(\"array too large\") } else {\n", t.sz)
 	}
 	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, __arraysz); }\n", valPtr, t.t.goType())
-	res += fmt.Sprintf("for i := uint64(0); i < uint64(__arraysz); i++ {\n")
-	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[i])", valPtr)))
+	idx := loopVar(valPtr)
+	res += fmt.Sprintf("for %s := uint64(0); %s < uint64(__arraysz); %s++ {\n", idx, idx, idx)
+	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[%s])", valPtr, idx)))
 	res += fmt.Sprintf("}\n")
 	if t.sz != "" {
 		res += fmt.Sprintf("}\n")
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index fd7b221..4d8784a 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -89,8 +89,8 @@ func (v *Auth_unix) Xdr(xs *xdr.XdrState) {
 			if xs.Decoding() {
 				*&((v).Gids) = make([]uint32, __arraysz)
 			}
-			for i := uint64(0); i < uint64(__arraysz); i++ {
-				xdr.XdrU32(xs, (*uint32)(&((*(&((v).Gids)))[i])))
+			for __i := uint64(0); __i < uint64(__arraysz); __i++ {
+				xdr.XdrU32(xs, (*uint32)(&((*(&((v).Gids)))[__i])))
 
 			}
 		}
diff --git a/rfc1813/xdr.go b/rfc1813/xdr.go
index 06542a0..b72809a 100644
--- a/rfc1813/xdr.go
+++ b/rfc1813/xdr.go
@@ -1276,8 +1276,8 @@ func (v *Mountres3_ok) Xdr(xs *xdr.XdrState) {
 		if xs.Decoding() {
 			*&((v).Auth_flavors) = make([]uint32, __arraysz)
 		}
-		for i := uint64(0); i < uint64(__arraysz); i++ {
-			xdr.XdrU32(xs, (*uint32)(&((*(&((v).Auth_flavors)))[i])))
+		for __i := uint64(0); __i < uint64(__arraysz); __i++ {
+			xdr.XdrU32(xs, (*uint32)(&((*(&((v).Auth_flavors)))[__i])))
 
 		}
 	}
-- 
2.43.0


From 39e69210bd4a325be276f6acb118387dbe6e8579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:48 +0000
Subject: [PATCH 03/16] fix: accept array bounds that are typed constants

---
 out.go         | 2 +-
 rfc1057/xdr.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/out.go b/out.go
index 8df41ea..6f5a886 100644
--- a/out.go
+++ b/out.go
@@ -87,7 +87,7 @@ func (t declTypeVarArray) goXdr(valPtr string) string {
 	res += fmt.Sprintf("xs.EncodingSetSize(&__arraysz, len(*%s));\n", valPtr)
 	res += fmt.Sprintf("%s\n", typeInt{true}.goXdr("&__arraysz"))
 	if t.sz != "" {
-		res += fmt.Sprintf("if __arraysz > %s { xs.SetError(\"array too large\") } else {\n", t.sz)
+		res += fmt.Sprintf("if uint64(__arraysz) > uint64(%s) { xs.SetError(\"array too large\") } else {\n", t.sz)
 	}
 	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, __arraysz); }\n", valPtr, t.t.goType())
 	idx := loopVar(valPtr)
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index 4d8784a..3665c24 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -83,7 +83,7 @@ func (v *Auth_unix) Xdr(xs *xdr.XdrState) {
 		xs.EncodingSetSize(&__arraysz, len(*&((v).Gids)))
 		xdr.XdrU32(xs, (*uint32)(&__arraysz))
 
-		if __arraysz > 16 {
+		if uint64(__arraysz) > uint64(16) {
 			xs.SetError("array too large")
 		} else {
 			if xs.Decoding() {
-- 
2.43.0


From d5d5697616ea7c8cb7a35bf80fd5df3dd776acc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:11 +0000
Subject: [PATCH 04/16] fix: do not allocate arrays by announced length when
 decoding

---
 out.go         | 6 +++++-
 rfc1057/xdr.go | 8 +++++++-
 rfc1813/xdr.go | 8 +++++++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/out.go b/out.go
index 6f5a886..5bd80d4 100644
--- a/out.go
+++ b/out.go
@@ -89,10 +89,14 @@ func (t declTypeVarArray) goXdr(valPtr string) string {
 	if t.sz != "" {
 		res += fmt.Sprintf("if uint64(__arraysz) > uint64(%s) { xs.SetError(\"array too large\") } else {\n", t.sz)
 	}
-	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, __arraysz); }\n", valPtr, t.t.goType())
+	// When decoding, grow the array along with the elements that are actually
+	// present, rather than trust the announced length.
+	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, 0); }\n", valPtr, t.t.goType())
 	idx := loopVar(valPtr)
 	res += fmt.Sprintf("for %s := uint64(0); %s < uint64(__arraysz); %s++ {\n", idx, idx, idx)
+	res += fmt.Sprintf("if xs.Decoding() { *%s = append(*%s, make([]%s, 1)...); }\n", valPtr, valPtr, t.t.goType())
 	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[%s])", valPtr, idx)))
+	res += fmt.Sprintf("if xs.Error() != nil { break }\n")
 	res += fmt.Sprintf("}\n")
 	if t.sz != "" {
 		res += fmt.Sprintf("}\n")
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index 3665c24..9aac708 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -87,11 +87,17 @@ func (v *Auth_unix) Xdr(xs *xdr.XdrState) {
 			xs.SetError("array too large")
 		} else {
 			if xs.Decoding() {
-				*&((v).Gids) = make([]uint32, __arraysz)
+				*&((v).Gids) = make([]uint32, 0)
 			}
 			for __i := uint64(0); __i < uint64(__arraysz); __i++ {
+				if xs.Decoding() {
+					*&((v).Gids) = append(*&((v).Gids), make([]uint32, 1)...)
+				}
 				xdr.XdrU32(xs, (*uint32)(&((*(&((v).Gids)))[__i])))
 
+				if xs.Error() != nil {
+					break
+				}
 			}
 		}
 	}
diff --git a/rfc1813/xdr.go b/rfc1813/xdr.go
index b72809a..ba6f9d2 100644
--- a/rfc1813/xdr.go
+++ b/rfc1813/xdr.go
@@ -1274,11 +1274,17 @@ func (v *Mountres3_ok) Xdr(xs *xdr.XdrState) {
 		xdr.XdrU32(xs, (*uint32)(&__arraysz))
 
 		if xs.Decoding() {
-			*&((v).Auth_flavors) = make([]uint32, __arraysz)
+			*&((v).Auth_flavors) = make([]uint32, 0)
 		}
 		for __i := uint64(0); __i < uint64(__arraysz); __i++ {
+			if xs.Decoding() {
+				*&((v).Auth_flavors) = append(*&((v).Auth_flavors), make([]uint32, 1)...)
+			}
 			xdr.XdrU32(xs, (*uint32)(&((*(&((v).Auth_flavors)))[__i])))
 
+			if xs.Error() != nil {
+				break
+			}
 		}
 	}
 }
-- 
2.43.0


From 944f0f3ac8bc46af15d5794e9764a683b9597dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:12 +0000
Subject: [PATCH 05/16] fix: do not allocate record buffers by announced length

---
 rfc1057/client.go |  3 +--
 rfc1057/server.go | 40 ++++++++++++++++++++++++++++++++++++++--
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/rfc1057/client.go b/rfc1057/client.go
index ce797f3..bd8f2ed 100644
--- a/rfc1057/client.go
+++ b/rfc1057/client.go
@@ -68,8 +68,7 @@ func (c *Client) Call(proc uint32, cred, verf Opaque_auth, args xdr.Xdrable, res
 		return fmt.Errorf("fragments not supported")
 	}
 
-	buf := make([]byte, hlen&0x7fffffff)
-	_, err = io.ReadFull(c.rw, buf)
+	buf, err := readRecord(c.rw, nil, int(hlen&0x7fffffff))
 	if err != nil {
 		return err
 	}
diff --git a/rfc1057/server.go b/rfc1057/server.go
index cbb5ee9..8bfe9c2 100644
--- a/rfc1057/server.go
+++ b/rfc1057/server.go
@@ -29,6 +29,42 @@ func putReqBuf(s []byte) {
 	reqBufPool.Put(s)
 }
 
+// eagerBuf bounds how much is allocated for a record before its data arrives.
+const eagerBuf = 1 << 20
+
+func minInt(a, b int) int {
+	if a < b {
+		return a
+	}
+	return b
+}
+
+// readRecord reads n bytes from r, using buf's memory as far as it goes, and
+// allocating more only as the data arrives, so that announcing a large record
+// does not by itself consume memory.
+func readRecord(r io.Reader, buf []byte, n int) ([]byte, error) {
+	buf = buf[:0]
+	for len(buf) < n {
+		if len(buf) == cap(buf) {
+			grow := minInt(2*cap(buf), n)
+			if grow < eagerBuf {
+				grow = minInt(eagerBuf, n)
+			}
+			buf = append(make([]byte, 0, grow), buf...)
+		}
+
+		m, err := io.ReadFull(r, buf[len(buf):minInt(cap(buf), n)])
+		if err == io.EOF && len(buf) > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+		buf = buf[:len(buf)+m]
+		if err != nil {
+			return buf, err
+		}
+	}
+	return buf, nil
+}
+
 type ProcHandler func(args *xdr.XdrState) (res xdr.Xdrable, err error)
 
 type Server struct {
@@ -85,8 +121,8 @@ func (s *Server) Run(rw io.ReadWriter) error {
 		}
 
 		buflen := int(hlen & 0x7fffffff)
-		buf := getReqBuf(buflen)
-		_, err = io.ReadFull(sc.rw, buf)
+		buf := getReqBuf(minInt(buflen, eagerBuf))
+		buf, err = readRecord(sc.rw, buf, buflen)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 80026d97cd1f86e146ef9856e0c6738fea3ccccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:13 +0000
Subject: [PATCH 06/16] fix: report supported versions in version mismatch
 replies

---
 rfc1057/server.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rfc1057/server.go b/rfc1057/server.go
index 8bfe9c2..f285cbe 100644
--- a/rfc1057/server.go
+++ b/rfc1057/server.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"sync"
 
@@ -162,6 +163,8 @@ func (sc *serverConn) handleReqErr(buf []byte) error {
 	if req.Body.Cbody.Rpcvers != 2 {
 		res.Body.Rbody.Stat = MSG_DENIED
 		res.Body.Rbody.Rreply.Stat = RPC_MISMATCH
+		res.Body.Rbody.Rreply.Mismatch_info.Low = 2
+		res.Body.Rbody.Rreply.Mismatch_info.High = 2
 	} else {
 		res.Body.Rbody.Stat = MSG_ACCEPTED
 		vermap, progok := sc.s.handlers[req.Body.Cbody.Prog]
@@ -173,6 +176,16 @@ func (sc *serverConn) handleReqErr(buf []byte) error {
 		procmap, verok := vermap[req.Body.Cbody.Vers]
 		if !verok {
 			res.Body.Rbody.Areply.Reply_data.Stat = PROG_MISMATCH
+			info := &res.Body.Rbody.Areply.Reply_data.Mismatch_info
+			info.Low = math.MaxUint32
+			for vers := range vermap {
+				if vers < info.Low {
+					info.Low = vers
+				}
+				if vers > info.High {
+					info.High = vers
+				}
+			}
 			goto reply
 		}
 
-- 
2.43.0


From 8770a59f88f4c791826b70777f43978d66631b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:14 +0000
Subject: [PATCH 07/16] fix: send no results in a GARBAGE_ARGS reply

---
 rfc1057/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rfc1057/server.go b/rfc1057/server.go
index f285cbe..dc2696a 100644
--- a/rfc1057/server.go
+++ b/rfc1057/server.go
@@ -198,6 +198,7 @@ func (sc *serverConn) handleReqErr(buf []byte) error {
 		resdata, err = h(rd)
 		if err != nil {
 			res.Body.Rbody.Areply.Reply_data.Stat = GARBAGE_ARGS
+			resdata = nil
 			goto reply
 		}
 
-- 
2.43.0


From dba790aa92a9c9989e21c0da859c570329ec54a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:38 +0000
Subject: [PATCH 08/16] fix: reply SYSTEM_ERR when a procedure's results cannot
 be encoded

---
 rfc1057/server.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/rfc1057/server.go b/rfc1057/server.go
index dc2696a..a658829 100644
--- a/rfc1057/server.go
+++ b/rfc1057/server.go
@@ -66,6 +66,10 @@ func readRecord(r io.Reader, buf []byte, n int) ([]byte, error) {
 	return buf, nil
 }
 
+// systemErr is the SYSTEM_ERR accept_stat of RFC 5531, sent when a procedure's
+// results cannot be encoded.
+const systemErr Accept_stat = 5
+
 type ProcHandler func(args *xdr.XdrState) (res xdr.Xdrable, err error)
 
 type Server struct {
@@ -211,18 +215,20 @@ reply:
 
 	wr := xdr.MakeWriter(reserveLen[:])
 	res.Xdr(wr)
-	err = wr.Error()
-	if err != nil {
-		return err
-	}
-
 	if resdata != nil {
 		resdata.Xdr(wr)
-		err = wr.Error()
-		if err != nil {
-			return err
+		if wr.Error() != nil || len(wr.WriteBuf())-4 > math.MaxInt32 {
+			// Never leave the caller without a reply.
+			fmt.Fprintf(os.Stderr, "cannot send result: %v\n", wr.Error())
+			res.Body.Rbody.Areply.Reply_data.Stat = systemErr
+			wr = xdr.MakeWriter(reserveLen[:])
+			res.Xdr(wr)
 		}
 	}
+	err = wr.Error()
+	if err != nil {
+		return err
+	}
 
 	wbuf := wr.WriteBuf()
 	binary.BigEndian.PutUint32(wbuf[0:4], (1<<31)|uint32(len(wbuf)-4))
-- 
2.43.0


From 85322612cbf5d649acf318e02b939c6af6eaa0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:39 +0000
Subject: [PATCH 09/16] fix: refuse calls too large for a record mark

---
 rfc1057/client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rfc1057/client.go b/rfc1057/client.go
index bd8f2ed..d70a4da 100644
--- a/rfc1057/client.go
+++ b/rfc1057/client.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/zeldovich/go-rpcgen/xdr"
 )
@@ -51,6 +52,10 @@ func (c *Client) Call(proc uint32, cred, verf Opaque_auth, args xdr.Xdrable, res
 	}
 
 	wbuf := wr.WriteBuf()
+	if len(wbuf) > math.MaxInt32 {
+		return fmt.Errorf("call too large: %d bytes", len(wbuf))
+	}
+
 	var hdr [4]byte
 	binary.BigEndian.PutUint32(hdr[:], (1<<31)|uint32(len(wbuf)))
 	_, err = c.rw.Write(append(hdr[:], wbuf...))
-- 
2.43.0


From 4a21da4cdb168e4087d8e8efd3074db9295320c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:40 +0000
Subject: [PATCH 10/16] fix: ignore semicolons inserted by the Go scanner at
 line ends

---
 scan.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scan.go b/scan.go
index 23ab8ca..f990bac 100644
--- a/scan.go
+++ b/scan.go
@@ -16,6 +16,10 @@ const eof = 0
 
 func (l *lexer) Lex(lval *xdrSymType) int {
 	pos, tok, lit := l.s.Scan()
+	for tok == token.SEMICOLON && lit == "\n" {
+		// Inserted by the Go scanner at a line end; not part of XDR.
+		pos, tok, lit = l.s.Scan()
+	}
 	if tok == token.EOF {
 		return eof
 	}
-- 
2.43.0


From 1829912ee06120722fb9e7c9a7a5ddf68293a53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:41 +0000
Subject: [PATCH 11/16] fix: treat lexical errors in the specification as fatal

---
 main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 8ad23cf..648d145 100644
--- a/main.go
+++ b/main.go
@@ -43,7 +43,9 @@ func main() {
 	f := fset.AddFile(*inputFile, -1, len(src))
 
 	var l lexer
-	l.s.Init(f, src, nil, 0)
+	l.s.Init(f, src, func(pos token.Position, msg string) {
+		panic(fmt.Sprintf("%v: %s", pos, msg))
+	}, 0)
 
 	outTmp := *outputFile + ".tmp"
 	outf, err := os.OpenFile(outTmp, os.O_WRONLY|os.O_EXCL|os.O_CREATE|os.O_TRUNC, 0666)
-- 
2.43.0


From a96a4dbb83a7db3155c48aa8d2f59375f521837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:42 +0000
Subject: [PATCH 12/16] fix: write no output file unless all outputs are valid

---
 main.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/main.go b/main.go
index 648d145..09ee44c 100644
--- a/main.go
+++ b/main.go
@@ -78,15 +78,18 @@ func main() {
 
 	xdrParse(&l)
 	outf.Close()
-	refmt(outTmp, *outputFile)
+	buf := refmt(outTmp)
 
 	if *typesFile != "" {
 		toutf.Close()
-		refmt(toutTmp, *typesFile)
+		tbuf := refmt(toutTmp)
+		writeFile(*typesFile, tbuf)
 	}
+
+	writeFile(*outputFile, buf)
 }
 
-func refmt(infile string, outfile string) {
+func refmt(infile string) []byte {
 	buf, err := ioutil.ReadFile(infile)
 	if err != nil {
 		panic(err)
@@ -97,7 +100,11 @@ func refmt(infile string, outfile string) {
 		panic(err)
 	}
 
-	err = ioutil.WriteFile(outfile, buf, 0666)
+	return buf
+}
+
+func writeFile(outfile string, buf []byte) {
+	err := ioutil.WriteFile(outfile, buf, 0666)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 0387b06c52c1194396578e7446dbbf7e8a5b09c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:09 +0000
Subject: [PATCH 13/16] fix: support built-in types as procedure arguments and
 results

The generated stubs for such procedures did not compile, and types that
are not supported at all were accepted in that position.
---
 out.go | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/out.go b/out.go
index 5bd80d4..741a32f 100644
--- a/out.go
+++ b/out.go
@@ -198,6 +198,29 @@ func (t typespecOpt) maybeGoType() string {
 	return t.t.goType()
 }
 
+// xdrable returns a pointer to the value that valPtr points to, as a type that
+// implements xdr.Xdrable, for use as a procedure's argument or result.
+func (t typespecOpt) xdrable(valPtr string) string {
+	switch v := t.t.(type) {
+	case typeIdent:
+		return valPtr
+	case typeInt:
+		if v.unsig {
+			return fmt.Sprintf("(*xdr.Uint32)(%s)", valPtr)
+		}
+		return fmt.Sprintf("(*xdr.Int32)(%s)", valPtr)
+	case typeHyper:
+		if v.unsig {
+			return fmt.Sprintf("(*xdr.Uint64)(%s)", valPtr)
+		}
+		return fmt.Sprintf("(*xdr.Int64)(%s)", valPtr)
+	case typeBool:
+		return fmt.Sprintf("(*xdr.Bool)(%s)", valPtr)
+	default:
+		panic("unsupported type for procedure argument or result")
+	}
+}
+
 type typeInt struct {
 	unsig bool
 }
@@ -419,7 +442,11 @@ func emitProg(d progDef) {
 				i(d.name), i(v.name), i(c.name))
 			if !c.arg.isVoid {
 				fmt.Fprintf(out, "var in %s\n", c.arg.t.goType())
-				fmt.Fprintf(out, "in.Xdr(args)\n")
+				if _, ok := c.arg.t.(typeIdent); ok {
+					fmt.Fprintf(out, "in.Xdr(args)\n")
+				} else {
+					fmt.Fprintf(out, "%s.Xdr(args)\n", c.arg.xdrable("&in"))
+				}
 				fmt.Fprintf(out, "err = args.Error()\n")
 				fmt.Fprintf(out, "if err != nil { return }\n")
 			}
@@ -439,7 +466,11 @@ func emitProg(d progDef) {
 			}
 			fmt.Fprintf(out, ")\n")
 
-			fmt.Fprintf(out, "return &out, nil")
+			if c.res.isVoid {
+				fmt.Fprintf(out, "return &out, nil")
+			} else {
+				fmt.Fprintf(out, "return %s, nil", c.res.xdrable("&out"))
+			}
 			fmt.Fprintf(out, "}\n")
 		}
 
-- 
2.43.0


From 5f50314a6a067e585b52b0bedfe41e230b958cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:19 +0000
Subject: [PATCH 14/16] fix: accept Go keywords that are not XDR keywords as
 identifiers

Only type and map were; a specification with a field called range or var
was refused.
---
 scan.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scan.go b/scan.go
index f990bac..b26fe3b 100644
--- a/scan.go
+++ b/scan.go
@@ -148,6 +148,11 @@ func (l *lexer) Lex(lval *xdrSymType) int {
 		return CONST
 
 	default:
+		if tok.IsKeyword() {
+			// Reserved in Go but not in XDR.
+			lval.str = lit
+			return IDENT
+		}
 		fmt.Printf("NOT HANDLED: pos=%v, tok=%v, lit=%v\n", pos, tok, lit)
 		panic("token not handled")
 	}
-- 
2.43.0


From 1ce8b4b847df54ef7d4b45a084bc0cbfdf8f8ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:46 +0000
Subject: [PATCH 15/16] fix: check that outputs can be overwritten before
 writing any

With -o naming a directory, the types file was replaced although the
generator then failed.
---
 main.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/main.go b/main.go
index 09ee44c..cc04dfa 100644
--- a/main.go
+++ b/main.go
@@ -76,6 +76,11 @@ func main() {
 		tout = outf
 	}
 
+	checkOutput(*outputFile)
+	if *typesFile != "" {
+		checkOutput(*typesFile)
+	}
+
 	xdrParse(&l)
 	outf.Close()
 	buf := refmt(outTmp)
@@ -103,6 +108,20 @@ func refmt(infile string) []byte {
 	return buf
 }
 
+// checkOutput panics if an existing output file cannot be overwritten.
+func checkOutput(outfile string) {
+	f, err := os.OpenFile(outfile, os.O_WRONLY, 0)
+	if os.IsNotExist(err) {
+		return
+	}
+
+	if err != nil {
+		panic(err)
+	}
+
+	f.Close()
+}
+
 func writeFile(outfile string, buf []byte) {
 	err := ioutil.WriteFile(outfile, buf, 0666)
 	if err != nil {
-- 
2.43.0


From eab45bbd559df2a7027a3daef131a60471e93fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:25 +0000
Subject: [PATCH 16/16] fix: replace outputs only once all of them are written

A failed write (a full disk, say) was ignored while code was emitted, which
could leave out part of the specification, and one while the result was
stored left a truncated output file.
---
 main.go | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/main.go b/main.go
index cc04dfa..e5f2a4b 100644
--- a/main.go
+++ b/main.go
@@ -54,7 +54,7 @@ func main() {
 	}
 
 	defer os.Remove(outTmp)
-	out = outf
+	out = fileWriter{outf}
 
 	fmt.Fprintf(out, "package %s\n", *outputPackage)
 	fmt.Fprintf(out, "import \"github.com/zeldovich/go-rpcgen/xdr\"\n")
@@ -69,11 +69,11 @@ func main() {
 		}
 
 		defer os.Remove(toutTmp)
-		tout = toutf
+		tout = fileWriter{toutf}
 
 		fmt.Fprintf(tout, "package %s\n", *outputPackage)
 	} else {
-		tout = outf
+		tout = out
 	}
 
 	checkOutput(*outputFile)
@@ -83,18 +83,33 @@ func main() {
 
 	xdrParse(&l)
 	outf.Close()
-	buf := refmt(outTmp)
+	refmt(outTmp)
 
 	if *typesFile != "" {
 		toutf.Close()
-		tbuf := refmt(toutTmp)
-		writeFile(*typesFile, tbuf)
+		refmt(toutTmp)
+		rename(toutTmp, *typesFile)
 	}
 
-	writeFile(*outputFile, buf)
+	rename(outTmp, *outputFile)
 }
 
-func refmt(infile string) []byte {
+// fileWriter panics when a write fails, so that incomplete output is not used.
+type fileWriter struct {
+	f *os.File
+}
+
+func (w fileWriter) Write(p []byte) (int, error) {
+	n, err := w.f.Write(p)
+	if err != nil {
+		panic(err)
+	}
+
+	return n, nil
+}
+
+// refmt formats a file in place.
+func refmt(infile string) {
 	buf, err := ioutil.ReadFile(infile)
 	if err != nil {
 		panic(err)
@@ -105,7 +120,10 @@ func refmt(infile string) []byte {
 		panic(err)
 	}
 
-	return buf
+	err = ioutil.WriteFile(infile, buf, 0666)
+	if err != nil {
+		panic(err)
+	}
 }
 
 // checkOutput panics if an existing output file cannot be overwritten.
@@ -122,8 +140,8 @@ func checkOutput(outfile string) {
 	f.Close()
 }
 
-func writeFile(outfile string, buf []byte) {
-	err := ioutil.WriteFile(outfile, buf, 0666)
+func rename(from, to string) {
+	err := os.Rename(from, to)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0

