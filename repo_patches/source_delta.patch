From 62479a3d1698eb1c3f3e5acb9d11c48e7c2f234b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:48 +0000
Subject: [PATCH 01/19] fix: server reads whole messages, however the stream is
 segmented or cut

A header that arrived in pieces ended the connection, a message cut off by
the end of the connection was dispatched as if it were complete, and so was
one whose size is smaller than its own header.
---
 protocol/server.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/protocol/server.go b/protocol/server.go
index 3da8bd5..7ebecab 100644
--- a/protocol/server.go
+++ b/protocol/server.go
@@ -212,16 +212,20 @@ func (c *conn) serve() {
 
 	for !c.dead {
 		l := make([]byte, 7)
-		if n, err := c.rwc.Read(l); err != nil || n < 7 {
+		if _, err := io.ReadFull(c.rwc, l); err != nil {
 			c.logf("readNetPackets: short read: %v", err)
 			c.dead = true
 			return
 		}
 		sz := int64(l[0]) + int64(l[1])<<8 + int64(l[2])<<16 + int64(l[3])<<24
+		if sz < 7 {
+			c.logf("readNetPackets: bad message size %d", sz)
+			c.dead = true
+			return
+		}
 		t := MType(l[4])
 		b := bytes.NewBuffer(l[5:])
-		r := io.LimitReader(c.rwc, sz-7)
-		if _, err := io.Copy(b, r); err != nil {
+		if _, err := io.CopyN(b, c.rwc, sz-7); err != nil {
 			c.logf("readNetPackets: short read: %v", err)
 			c.dead = true
 			return
-- 
2.43.0


From fe35ec11492ba778519c55eaca446706b67e3671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:05 +0000
Subject: [PATCH 02/19] fix: decoders report messages that are cut short

An integer cut short was completed with bytes left over from the field before
it, and a data length beyond the end of the message panicked or returned bytes
from outside it. genout.go is regenerated.
---
 protocol/gen.go    |   8 +-
 protocol/genout.go | 364 +++++++++++++++++++++++----------------------
 2 files changed, 195 insertions(+), 177 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index 17e6cf2..efaa632 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -143,8 +143,8 @@ return
 	ufunc = template.Must(template.New("mr").Parse(`func Unmarshal{{.UFunc}}Pkt (b *bytes.Buffer) ({{.URet}} t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
@@ -217,7 +217,7 @@ func emitEncodeInt(v interface{}, n string, l int, e *emitter) {
 func emitDecodeInt(v interface{}, n string, l int, e *emitter) {
 	t := reflect.ValueOf(v).Type().Name()
 	debug("emit reflect.ValueOf(v) %s %v, %v", t, n, l)
-	e.UCode.WriteString(fmt.Sprintf("\tif _, err = b.Read(u[:%v]); err != nil {\n\t\terr = fmt.Errorf(\"pkt too short for uint%v: need %v, have %%d\", b.Len())\n\treturn\n\t}\n", l, l*8, l))
+	e.UCode.WriteString(fmt.Sprintf("\tif n, _ := b.Read(u[:%v]); n < %v {\n\t\terr = fmt.Errorf(\"pkt too short for uint%v: need %v, have %%d\", n)\n\treturn\n\t}\n", l, l, l*8, l))
 	e.UCode.WriteString(fmt.Sprintf("\t%v = %s(u[0])\n", n, t))
 	for i := 1; i < l; i++ {
 		e.UCode.WriteString(fmt.Sprintf("\t%v |= %s(u[%d])<<%v\n", n, t, i, i*8))
@@ -339,11 +339,13 @@ func genDecodeSlice(v interface{}, n string, e *emitter) error {
 	case "[]byte", "[]uint8":
 		var u uint64
 		emitDecodeInt(u, "l", 4, e)
+		e.UCode.WriteString("\tif uint64(b.Len()) < l {\n\t\terr = fmt.Errorf(\"pkt too short for data: need %d, have %d\", l, b.Len())\n\treturn\n\t}\n")
 		e.UCode.WriteString(fmt.Sprintf("\t%v = b.Bytes()[:l]\n", n))
 		e.UCode.WriteString("\t_ = b.Next(int(l))\n")
 	case "[]protocol.DataCnt16":
 		var u uint64
 		emitDecodeInt(u, "l", 2, e)
+		e.UCode.WriteString("\tif uint64(b.Len()) < l {\n\t\terr = fmt.Errorf(\"pkt too short for data: need %d, have %d\", l, b.Len())\n\treturn\n\t}\n")
 		e.UCode.WriteString(fmt.Sprintf("\t%v = b.Bytes()[:l]\n", n))
 		e.UCode.WriteString("\t_ = b.Next(int(l))\n")
 	default:
diff --git a/protocol/genout.go b/protocol/genout.go
index 05107d6..f60da4a 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -24,14 +24,14 @@ return
 func UnmarshalRerrorPkt (b *bytes.Buffer) (Error string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
-		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
+	if n, _ := b.Read(u[:2]); n < 2 {
+		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", n)
 	return
 	}
 	l = uint64(u[0])
@@ -71,22 +71,22 @@ return
 func UnmarshalRversionPkt (b *bytes.Buffer) (RMsize MaxSize, RVersion string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	RMsize = MaxSize(u[0])
 	RMsize |= MaxSize(u[1])<<8
 	RMsize |= MaxSize(u[2])<<16
 	RMsize |= MaxSize(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
-		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
+	if n, _ := b.Read(u[:2]); n < 2 {
+		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", n)
 	return
 	}
 	l = uint64(u[0])
@@ -126,22 +126,22 @@ return
 func UnmarshalTversionPkt (b *bytes.Buffer) (TMsize MaxSize, TVersion string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	TMsize = MaxSize(u[0])
 	TMsize |= MaxSize(u[1])<<8
 	TMsize |= MaxSize(u[2])<<16
 	TMsize |= MaxSize(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
-		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
+	if n, _ := b.Read(u[:2]); n < 2 {
+		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", n)
 	return
 	}
 	l = uint64(u[0])
@@ -220,27 +220,27 @@ return
 func UnmarshalRattachPkt (b *bytes.Buffer) (QID QID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:1]); err != nil {
-		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
+	if n, _ := b.Read(u[:1]); n < 1 {
+		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", n)
 	return
 	}
 	QID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	QID.Version = uint32(u[0])
 	QID.Version |= uint32(u[1])<<8
 	QID.Version |= uint32(u[2])<<16
 	QID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
-		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
+	if n, _ := b.Read(u[:8]); n < 8 {
+		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", n)
 	return
 	}
 	QID.Path = uint64(u[0])
@@ -287,30 +287,30 @@ return
 func UnmarshalTattachPkt (b *bytes.Buffer) (SFID FID, AFID FID, Uname string, Aname string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	SFID = FID(u[0])
 	SFID |= FID(u[1])<<8
 	SFID |= FID(u[2])<<16
 	SFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	AFID = FID(u[0])
 	AFID |= FID(u[1])<<8
 	AFID |= FID(u[2])<<16
 	AFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
-		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
+	if n, _ := b.Read(u[:2]); n < 2 {
+		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", n)
 	return
 	}
 	l = uint64(u[0])
@@ -321,8 +321,8 @@ t = Tag(l)
 	}
 	Uname = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
-		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
+	if n, _ := b.Read(u[:2]); n < 2 {
+		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", n)
 	return
 	}
 	l = uint64(u[0])
@@ -388,8 +388,8 @@ return
 func UnmarshalRflushPkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
@@ -419,14 +419,14 @@ return
 func UnmarshalTflushPkt (b *bytes.Buffer) (OTag Tag,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
-		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
+	if n, _ := b.Read(u[:2]); n < 2 {
+		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", n)
 	return
 	}
 	OTag = Tag(u[0])
@@ -504,35 +504,35 @@ return
 func UnmarshalRwalkPkt (b *bytes.Buffer) (QIDs []QID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
-		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
+	if n, _ := b.Read(u[:2]); n < 2 {
+		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", n)
 	return
 	}
 	l = uint64(u[0])
 	l |= uint64(u[1])<<8
 	QIDs = make([]QID, l)
 for i := range QIDs {
-	if _, err = b.Read(u[:1]); err != nil {
-		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
+	if n, _ := b.Read(u[:1]); n < 1 {
+		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", n)
 	return
 	}
 	QIDs[i].Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	QIDs[i].Version = uint32(u[0])
 	QIDs[i].Version |= uint32(u[1])<<8
 	QIDs[i].Version |= uint32(u[2])<<16
 	QIDs[i].Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
-		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
+	if n, _ := b.Read(u[:8]); n < 8 {
+		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", n)
 	return
 	}
 	QIDs[i].Path = uint64(u[0])
@@ -582,38 +582,38 @@ return
 func UnmarshalTwalkPkt (b *bytes.Buffer) (SFID FID, NewFID FID, Paths []string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	SFID = FID(u[0])
 	SFID |= FID(u[1])<<8
 	SFID |= FID(u[2])<<16
 	SFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	NewFID = FID(u[0])
 	NewFID |= FID(u[1])<<8
 	NewFID |= FID(u[2])<<16
 	NewFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
-		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
+	if n, _ := b.Read(u[:2]); n < 2 {
+		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", n)
 	return
 	}
 	l = uint64(u[0])
 	l |= uint64(u[1])<<8
 	Paths = make([]string, l)
 for i := range Paths {
-	if _, err = b.Read(u[:2]); err != nil {
-		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
+	if n, _ := b.Read(u[:2]); n < 2 {
+		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", n)
 	return
 	}
 	l = uint64(u[0])
@@ -697,27 +697,27 @@ return
 func UnmarshalRopenPkt (b *bytes.Buffer) (OQID QID, IOUnit MaxSize,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:1]); err != nil {
-		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
+	if n, _ := b.Read(u[:1]); n < 1 {
+		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", n)
 	return
 	}
 	OQID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	OQID.Version = uint32(u[0])
 	OQID.Version |= uint32(u[1])<<8
 	OQID.Version |= uint32(u[2])<<16
 	OQID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
-		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
+	if n, _ := b.Read(u[:8]); n < 8 {
+		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", n)
 	return
 	}
 	OQID.Path = uint64(u[0])
@@ -728,8 +728,8 @@ t = Tag(l)
 	OQID.Path |= uint64(u[5])<<40
 	OQID.Path |= uint64(u[6])<<48
 	OQID.Path |= uint64(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	IOUnit = MaxSize(u[0])
@@ -764,22 +764,22 @@ return
 func UnmarshalTopenPkt (b *bytes.Buffer) (OFID FID, Omode Mode,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	OFID = FID(u[0])
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:1]); err != nil {
-		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
+	if n, _ := b.Read(u[:1]); n < 1 {
+		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", n)
 	return
 	}
 	Omode = Mode(u[0])
@@ -855,27 +855,27 @@ return
 func UnmarshalRcreatePkt (b *bytes.Buffer) (OQID QID, IOUnit MaxSize,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:1]); err != nil {
-		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
+	if n, _ := b.Read(u[:1]); n < 1 {
+		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", n)
 	return
 	}
 	OQID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	OQID.Version = uint32(u[0])
 	OQID.Version |= uint32(u[1])<<8
 	OQID.Version |= uint32(u[2])<<16
 	OQID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
-		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
+	if n, _ := b.Read(u[:8]); n < 8 {
+		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", n)
 	return
 	}
 	OQID.Path = uint64(u[0])
@@ -886,8 +886,8 @@ t = Tag(l)
 	OQID.Path |= uint64(u[5])<<40
 	OQID.Path |= uint64(u[6])<<48
 	OQID.Path |= uint64(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	IOUnit = MaxSize(u[0])
@@ -929,22 +929,22 @@ return
 func UnmarshalTcreatePkt (b *bytes.Buffer) (OFID FID, Name string, CreatePerm Perm, Omode Mode,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	OFID = FID(u[0])
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
-		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
+	if n, _ := b.Read(u[:2]); n < 2 {
+		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", n)
 	return
 	}
 	l = uint64(u[0])
@@ -955,16 +955,16 @@ t = Tag(l)
 	}
 	Name = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	CreatePerm = Perm(u[0])
 	CreatePerm |= Perm(u[1])<<8
 	CreatePerm |= Perm(u[2])<<16
 	CreatePerm |= Perm(u[3])<<24
-	if _, err = b.Read(u[:1]); err != nil {
-		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
+	if n, _ := b.Read(u[:1]); n < 1 {
+		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", n)
 	return
 	}
 	Omode = Mode(u[0])
@@ -1026,18 +1026,22 @@ return
 func UnmarshalRstatPkt (b *bytes.Buffer) (B []byte,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
-		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
+	if n, _ := b.Read(u[:2]); n < 2 {
+		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", n)
 	return
 	}
 	l = uint64(u[0])
 	l |= uint64(u[1])<<8
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	B = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1067,14 +1071,14 @@ return
 func UnmarshalTstatPkt (b *bytes.Buffer) (OFID FID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	OFID = FID(u[0])
@@ -1136,8 +1140,8 @@ return
 func UnmarshalRwstatPkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
@@ -1172,26 +1176,30 @@ return
 func UnmarshalTwstatPkt (b *bytes.Buffer) (OFID FID, B []byte,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	OFID = FID(u[0])
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
-		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
+	if n, _ := b.Read(u[:2]); n < 2 {
+		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", n)
 	return
 	}
 	l = uint64(u[0])
 	l |= uint64(u[1])<<8
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	B = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1249,8 +1257,8 @@ return
 func UnmarshalRclunkPkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
@@ -1282,14 +1290,14 @@ return
 func UnmarshalTclunkPkt (b *bytes.Buffer) (OFID FID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	OFID = FID(u[0])
@@ -1351,8 +1359,8 @@ return
 func UnmarshalRremovePkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
@@ -1384,14 +1392,14 @@ return
 func UnmarshalTremovePkt (b *bytes.Buffer) (OFID FID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	OFID = FID(u[0])
@@ -1458,20 +1466,24 @@ return
 func UnmarshalRreadPkt (b *bytes.Buffer) (Data []uint8,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	l = uint64(u[0])
 	l |= uint64(u[1])<<8
 	l |= uint64(u[2])<<16
 	l |= uint64(u[3])<<24
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	Data = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1513,22 +1525,22 @@ return
 func UnmarshalTreadPkt (b *bytes.Buffer) (OFID FID, Off Offset, Len Count,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	OFID = FID(u[0])
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
-		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
+	if n, _ := b.Read(u[:8]); n < 8 {
+		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", n)
 	return
 	}
 	Off = Offset(u[0])
@@ -1539,8 +1551,8 @@ t = Tag(l)
 	Off |= Offset(u[5])<<40
 	Off |= Offset(u[6])<<48
 	Off |= Offset(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	Len = Count(u[0])
@@ -1606,14 +1618,14 @@ return
 func UnmarshalRwritePkt (b *bytes.Buffer) (RLen Count,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	RLen = Count(u[0])
@@ -1660,22 +1672,22 @@ return
 func UnmarshalTwritePkt (b *bytes.Buffer) (OFID FID, Off Offset, Data []uint8,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
-err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
+if n, _ := b.Read(u[:2]); n < 2 {
+err = fmt.Errorf("pkt too short for Tag; need 2, have %d", n)
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	OFID = FID(u[0])
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
-		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
+	if n, _ := b.Read(u[:8]); n < 8 {
+		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", n)
 	return
 	}
 	Off = Offset(u[0])
@@ -1686,14 +1698,18 @@ t = Tag(l)
 	Off |= Offset(u[5])<<40
 	Off |= Offset(u[6])<<48
 	Off |= Offset(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	l = uint64(u[0])
 	l |= uint64(u[1])<<8
 	l |= uint64(u[2])<<16
 	l |= uint64(u[3])<<24
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	Data = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1807,35 +1823,35 @@ func Unmarshaldir (b *bytes.Buffer) (D Dir,  err error) {
 var u [8]uint8
 var l uint64
 _ = b.Next(2) // eat the length too
-	if _, err = b.Read(u[:2]); err != nil {
-		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
+	if n, _ := b.Read(u[:2]); n < 2 {
+		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", n)
 	return
 	}
 	D.Type = uint16(u[0])
 	D.Type |= uint16(u[1])<<8
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	D.Dev = uint32(u[0])
 	D.Dev |= uint32(u[1])<<8
 	D.Dev |= uint32(u[2])<<16
 	D.Dev |= uint32(u[3])<<24
-	if _, err = b.Read(u[:1]); err != nil {
-		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
+	if n, _ := b.Read(u[:1]); n < 1 {
+		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", n)
 	return
 	}
 	D.QID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	D.QID.Version = uint32(u[0])
 	D.QID.Version |= uint32(u[1])<<8
 	D.QID.Version |= uint32(u[2])<<16
 	D.QID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
-		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
+	if n, _ := b.Read(u[:8]); n < 8 {
+		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", n)
 	return
 	}
 	D.QID.Path = uint64(u[0])
@@ -1846,32 +1862,32 @@ _ = b.Next(2) // eat the length too
 	D.QID.Path |= uint64(u[5])<<40
 	D.QID.Path |= uint64(u[6])<<48
 	D.QID.Path |= uint64(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	D.Mode = uint32(u[0])
 	D.Mode |= uint32(u[1])<<8
 	D.Mode |= uint32(u[2])<<16
 	D.Mode |= uint32(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	D.Atime = uint32(u[0])
 	D.Atime |= uint32(u[1])<<8
 	D.Atime |= uint32(u[2])<<16
 	D.Atime |= uint32(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
-		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
+	if n, _ := b.Read(u[:4]); n < 4 {
+		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", n)
 	return
 	}
 	D.Mtime = uint32(u[0])
 	D.Mtime |= uint32(u[1])<<8
 	D.Mtime |= uint32(u[2])<<16
 	D.Mtime |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
-		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
+	if n, _ := b.Read(u[:8]); n < 8 {
+		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", n)
 	return
 	}
 	D.Length = uint64(u[0])
@@ -1882,8 +1898,8 @@ _ = b.Next(2) // eat the length too
 	D.Length |= uint64(u[5])<<40
 	D.Length |= uint64(u[6])<<48
 	D.Length |= uint64(u[7])<<56
-	if _, err = b.Read(u[:2]); err != nil {
-		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
+	if n, _ := b.Read(u[:2]); n < 2 {
+		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", n)
 	return
 	}
 	l = uint64(u[0])
@@ -1894,8 +1910,8 @@ _ = b.Next(2) // eat the length too
 	}
 	D.Name = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
-		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
+	if n, _ := b.Read(u[:2]); n < 2 {
+		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", n)
 	return
 	}
 	l = uint64(u[0])
@@ -1906,8 +1922,8 @@ _ = b.Next(2) // eat the length too
 	}
 	D.User = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
-		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
+	if n, _ := b.Read(u[:2]); n < 2 {
+		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", n)
 	return
 	}
 	l = uint64(u[0])
@@ -1918,8 +1934,8 @@ _ = b.Next(2) // eat the length too
 	}
 	D.Group = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
-		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
+	if n, _ := b.Read(u[:2]); n < 2 {
+		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", n)
 	return
 	}
 	l = uint64(u[0])
-- 
2.43.0


From 42854e36188a3cf9e46f0be23beb81d7e295b0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 03/19] fix: a request that does not decode is answered with an
 error, not executed

The stubs ignored the decoder's error and called the file server with whatever
had been decoded, zero values for the rest. genout.go is regenerated.
---
 protocol/gen.go    |  6 ++--
 protocol/genout.go | 72 ++++++++++++++++++++++++++++++----------------
 2 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index efaa632..6de6f5d 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -158,8 +158,10 @@ return
 `))
 	sfunc = template.Must(template.New("s").Parse(`func (s *Server) Srv{{.R.UFunc}}(b*bytes.Buffer) (err error) {
 	{{.T.MList}}{{.T.MLsep}} t, err := Unmarshal{{.T.MFunc}}Pkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	return err
+}
 	if {{.R.MList}}{{.R.MLsep}} err := s.NS.{{.R.MFunc}}({{.T.MList}}); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
diff --git a/protocol/genout.go b/protocol/genout.go
index f60da4a..18d131f 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -160,8 +160,10 @@ return
 }
 func (s *Server) SrvRversion(b*bytes.Buffer) (err error) {
 	TMsize, TVersion,  t, err := UnmarshalTversionPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	return err
+}
 	if RMsize, RVersion,  err := s.NS.Rversion(TMsize, TVersion); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -341,8 +343,10 @@ return
 }
 func (s *Server) SrvRattach(b*bytes.Buffer) (err error) {
 	SFID, AFID, Uname, Aname,  t, err := UnmarshalTattachPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	return err
+}
 	if QID,  err := s.NS.Rattach(SFID, AFID, Uname, Aname); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -439,8 +443,10 @@ return
 }
 func (s *Server) SrvRflush(b*bytes.Buffer) (err error) {
 	OTag,  t, err := UnmarshalTflushPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	return err
+}
 	if  err := s.NS.Rflush(OTag); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -633,8 +639,10 @@ return
 }
 func (s *Server) SrvRwalk(b*bytes.Buffer) (err error) {
 	SFID, NewFID, Paths,  t, err := UnmarshalTwalkPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	return err
+}
 	if QIDs,  err := s.NS.Rwalk(SFID, NewFID, Paths); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -791,8 +799,10 @@ return
 }
 func (s *Server) SrvRopen(b*bytes.Buffer) (err error) {
 	OFID, Omode,  t, err := UnmarshalTopenPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	return err
+}
 	if OQID, IOUnit,  err := s.NS.Ropen(OFID, Omode); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -976,8 +986,10 @@ return
 }
 func (s *Server) SrvRcreate(b*bytes.Buffer) (err error) {
 	OFID, Name, CreatePerm, Omode,  t, err := UnmarshalTcreatePkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	return err
+}
 	if OQID, IOUnit,  err := s.NS.Rcreate(OFID, Name, CreatePerm, Omode); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1093,8 +1105,10 @@ return
 }
 func (s *Server) SrvRstat(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTstatPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	return err
+}
 	if B,  err := s.NS.Rstat(OFID); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1210,8 +1224,10 @@ return
 }
 func (s *Server) SrvRwstat(b*bytes.Buffer) (err error) {
 	OFID, B,  t, err := UnmarshalTwstatPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	return err
+}
 	if  err := s.NS.Rwstat(OFID, B); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1312,8 +1328,10 @@ return
 }
 func (s *Server) SrvRclunk(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTclunkPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	return err
+}
 	if  err := s.NS.Rclunk(OFID); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1414,8 +1432,10 @@ return
 }
 func (s *Server) SrvRremove(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTremovePkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	return err
+}
 	if  err := s.NS.Rremove(OFID); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1567,8 +1587,10 @@ return
 }
 func (s *Server) SrvRread(b*bytes.Buffer) (err error) {
 	OFID, Off, Len,  t, err := UnmarshalTreadPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	return err
+}
 	if Data,  err := s.NS.Rread(OFID, Off, Len); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1720,8 +1742,10 @@ return
 }
 func (s *Server) SrvRwrite(b*bytes.Buffer) (err error) {
 	OFID, Off, Data,  t, err := UnmarshalTwritePkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	return err
+}
 	if RLen,  err := s.NS.Rwrite(OFID, Off, Data); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
-- 
2.43.0


From 9374b39f5063fd76adc790481a4ea0fcc025db78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:07 +0000
Subject: [PATCH 04/19] fix: an error text too long for the wire no longer
 corrupts the reply

Walking many names to a fid in use, for one, makes such a text: its 16-bit
length wrapped around and the client could not decode the Rerror.
genout.go is regenerated.
---
 protocol/gen.go    |  2 +-
 protocol/genout.go | 24 ++++++++++++------------
 protocol/server.go | 11 +++++++++++
 3 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index 6de6f5d..f2a026f 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -163,7 +163,7 @@ return
 	return err
 }
 	if {{.R.MList}}{{.R.MLsep}} err := s.NS.{{.R.MFunc}}({{.T.MList}}); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	marshalError(b, t, err)
 } else {
 	Marshal{{.R.MFunc}}Pkt(b, t, {{.R.MList}})
 }
diff --git a/protocol/genout.go b/protocol/genout.go
index 18d131f..1a1e40f 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -165,7 +165,7 @@ func (s *Server) SrvRversion(b*bytes.Buffer) (err error) {
 	return err
 }
 	if RMsize, RVersion,  err := s.NS.Rversion(TMsize, TVersion); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	marshalError(b, t, err)
 } else {
 	MarshalRversionPkt(b, t, RMsize, RVersion)
 }
@@ -348,7 +348,7 @@ func (s *Server) SrvRattach(b*bytes.Buffer) (err error) {
 	return err
 }
 	if QID,  err := s.NS.Rattach(SFID, AFID, Uname, Aname); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	marshalError(b, t, err)
 } else {
 	MarshalRattachPkt(b, t, QID)
 }
@@ -448,7 +448,7 @@ func (s *Server) SrvRflush(b*bytes.Buffer) (err error) {
 	return err
 }
 	if  err := s.NS.Rflush(OTag); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	marshalError(b, t, err)
 } else {
 	MarshalRflushPkt(b, t, )
 }
@@ -644,7 +644,7 @@ func (s *Server) SrvRwalk(b*bytes.Buffer) (err error) {
 	return err
 }
 	if QIDs,  err := s.NS.Rwalk(SFID, NewFID, Paths); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	marshalError(b, t, err)
 } else {
 	MarshalRwalkPkt(b, t, QIDs)
 }
@@ -804,7 +804,7 @@ func (s *Server) SrvRopen(b*bytes.Buffer) (err error) {
 	return err
 }
 	if OQID, IOUnit,  err := s.NS.Ropen(OFID, Omode); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	marshalError(b, t, err)
 } else {
 	MarshalRopenPkt(b, t, OQID, IOUnit)
 }
@@ -991,7 +991,7 @@ func (s *Server) SrvRcreate(b*bytes.Buffer) (err error) {
 	return err
 }
 	if OQID, IOUnit,  err := s.NS.Rcreate(OFID, Name, CreatePerm, Omode); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	marshalError(b, t, err)
 } else {
 	MarshalRcreatePkt(b, t, OQID, IOUnit)
 }
@@ -1110,7 +1110,7 @@ func (s *Server) SrvRstat(b*bytes.Buffer) (err error) {
 	return err
 }
 	if B,  err := s.NS.Rstat(OFID); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	marshalError(b, t, err)
 } else {
 	MarshalRstatPkt(b, t, B)
 }
@@ -1229,7 +1229,7 @@ func (s *Server) SrvRwstat(b*bytes.Buffer) (err error) {
 	return err
 }
 	if  err := s.NS.Rwstat(OFID, B); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	marshalError(b, t, err)
 } else {
 	MarshalRwstatPkt(b, t, )
 }
@@ -1333,7 +1333,7 @@ func (s *Server) SrvRclunk(b*bytes.Buffer) (err error) {
 	return err
 }
 	if  err := s.NS.Rclunk(OFID); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	marshalError(b, t, err)
 } else {
 	MarshalRclunkPkt(b, t, )
 }
@@ -1437,7 +1437,7 @@ func (s *Server) SrvRremove(b*bytes.Buffer) (err error) {
 	return err
 }
 	if  err := s.NS.Rremove(OFID); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	marshalError(b, t, err)
 } else {
 	MarshalRremovePkt(b, t, )
 }
@@ -1592,7 +1592,7 @@ func (s *Server) SrvRread(b*bytes.Buffer) (err error) {
 	return err
 }
 	if Data,  err := s.NS.Rread(OFID, Off, Len); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	marshalError(b, t, err)
 } else {
 	MarshalRreadPkt(b, t, Data)
 }
@@ -1747,7 +1747,7 @@ func (s *Server) SrvRwrite(b*bytes.Buffer) (err error) {
 	return err
 }
 	if RLen,  err := s.NS.Rwrite(OFID, Off, Data); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	marshalError(b, t, err)
 } else {
 	MarshalRwritePkt(b, t, RLen)
 }
diff --git a/protocol/server.go b/protocol/server.go
index 7ebecab..dfe9454 100644
--- a/protocol/server.go
+++ b/protocol/server.go
@@ -10,6 +10,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 	"net"
 	"sync"
 	"time"
@@ -247,6 +248,16 @@ func (c *conn) serve() {
 	}
 }
 
+// marshalError makes b the Rerror for err. The text of an error is not ours and
+// a string on the wire has a 16-bit length, so what does not fit is cut off.
+func marshalError(b *bytes.Buffer, t Tag, err error) {
+	s := fmt.Sprintf("%v", err)
+	if len(s) > math.MaxUint16 {
+		s = s[:math.MaxUint16]
+	}
+	MarshalRerrorPkt(b, t, s)
+}
+
 // Dispatch dispatches request to different functions.
 // It's also the the first place we try to establish server semantics.
 // We could do this with interface assertions and such a la rsc/fuse
-- 
2.43.0


From c5ac7d128d98ce5ca4b494ff8d55311072fc07a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:41 +0000
Subject: [PATCH 05/19] fix: a client without a Trace function no longer panics
 on its first reply

---
 protocol/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index 9f67f3c..1750f8b 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -160,9 +160,10 @@ func (c *Client) IO() {
 		if int(t-1) >= len(c.RPC) {
 			panic(fmt.Sprintf("tag %d >= len(c.RPC) %d", t, len(c.RPC)))
 		}
-		c.Trace("RPC %v ", c.RPC[t-1])
 		rrr := c.RPC[t-1]
-		c.Trace("rrr %v ", rrr)
+		if c.Trace != nil {
+			c.Trace("RPC %v ", rrr)
+		}
 		rrr.Reply <- r.b
 		c.Tags <- t
 	}
-- 
2.43.0


From b3181d64b40c9ffaa51001ca3da819387b1f5ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 06/19] fix: losing the server fails the calls instead of
 crashing or hanging the client

Once the connection was lost the receiver dereferenced a nil reply, a failed
write ended the process, and calls waiting for a reply or made later blocked
forever, although the documentation says that all requests to a dead client
fail. A reply with a tag that is not outstanding panicked or blocked the
receiver, and a reply of the wrong type was decoded as if it were the right
one. Replies are also read whole, however the stream is segmented.
genout.go is regenerated.
---
 protocol/client.go | 137 ++++++++++++++++++++++++++++++++++--------
 protocol/gen.go    |  12 ++--
 protocol/genout.go | 144 +++++++++++++++++++--------------------------
 3 files changed, 177 insertions(+), 116 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index 1750f8b..f93eddf 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -8,10 +8,12 @@ package protocol
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 	"log"
 	"runtime"
+	"sync"
 	"sync/atomic"
 )
 
@@ -33,8 +35,15 @@ type Client struct {
 	Msize      uint32
 	Dead       bool
 	Trace      Tracer
+
+	// done is closed when the client is marked Dead.
+	done chan struct{}
+	// mu guards Dead and RPC.
+	mu sync.Mutex
 }
 
+var errDead = errors.New("client is dead: connection to server lost")
+
 func NewClient(opts ...ClientOpt) (*Client, error) {
 	var c = &Client{}
 
@@ -51,6 +60,7 @@ func NewClient(opts ...ClientOpt) (*Client, error) {
 	}
 	c.FromClient = make(chan *RPCCall, NumTags)
 	c.FromServer = make(chan *RPCReply)
+	c.done = make(chan struct{})
 	go c.IO()
 	go c.readNetPackets()
 	return c, nil
@@ -74,12 +84,61 @@ func (c *Client) GetFID() FID {
 	return FID(atomic.AddUint64(&c.FID, 1))
 }
 
+// kill marks the client dead: calls that have no reply yet, and all calls made
+// from now on, fail.
+func (c *Client) kill(why string) {
+	c.mu.Lock()
+	dead := c.Dead
+	c.Dead = true
+	c.mu.Unlock()
+	if dead {
+		return
+	}
+	close(c.done)
+	if c.ToNet != nil {
+		c.ToNet.Close()
+	}
+	if c.FromNet != nil {
+		c.FromNet.Close()
+	}
+	if c.Trace != nil {
+		c.Trace("%v, marking dead", why)
+	}
+}
+
+// rpc sends the request in b and returns the reply to it. The reply is of type
+// want or an Rerror.
+func (c *Client) rpc(b []byte, want MType) ([]byte, error) {
+	if c.Trace != nil {
+		c.Trace("%v, FID %v", RPCNames[MType(b[4])], atomic.LoadUint64(&c.FID))
+	}
+	// There is room for the reply so that delivering it never blocks.
+	r := make(chan []byte, 1)
+	select {
+	case c.FromClient <- &RPCCall{b: b, Reply: r}:
+	case <-c.done:
+		return nil, errDead
+	}
+	var bb []byte
+	select {
+	case bb = <-r:
+	case <-c.done:
+		// The reply may have come in just before the connection was lost.
+		select {
+		case bb = <-r:
+		default:
+			return nil, errDead
+		}
+	}
+	if t := MType(bb[4]); t != want && t != Rerror {
+		return nil, fmt.Errorf("reply to %v has type %d", RPCNames[MType(b[4])], t)
+	}
+	return bb, nil
+}
+
 func (c *Client) readNetPackets() {
 	if c.FromNet == nil {
-		if c.Trace != nil {
-			c.Trace("c.FromNet is nil, marking dead")
-		}
-		c.Dead = true
+		c.kill("c.FromNet is nil")
 		return
 	}
 	defer c.FromNet.Close()
@@ -87,44 +146,55 @@ func (c *Client) readNetPackets() {
 	if c.Trace != nil {
 		c.Trace("Starting readNetPackets")
 	}
-	for !c.Dead {
+	for {
 		l := make([]byte, 7)
 		if c.Trace != nil {
 			c.Trace("Before read")
 		}
 
-		if n, err := c.FromNet.Read(l); err != nil || n < 7 {
+		if _, err := io.ReadFull(c.FromNet, l); err != nil {
 			log.Printf("readNetPackets: short read: %v", err)
-			c.Dead = true
 			return
 		}
 		if c.Trace != nil {
 			c.Trace("Server reads %v", l)
 		}
 		s := int64(l[0]) + int64(l[1])<<8 + int64(l[2])<<16 + int64(l[3])<<24
+		if s < 7 {
+			log.Printf("readNetPackets: bad message size %d", s)
+			return
+		}
 		b := bytes.NewBuffer(l)
-		r := io.LimitReader(c.FromNet, s-7)
-		if _, err := io.Copy(b, r); err != nil {
+		if _, err := io.CopyN(b, c.FromNet, s-7); err != nil {
 			log.Printf("readNetPackets: short read: %v", err)
-			c.Dead = true
 			return
 		}
 		if c.Trace != nil {
 			c.Trace("readNetPackets: got %v, len %d, sending to IO", RPCNames[MType(l[4])], b.Len())
 		}
-		c.FromServer <- &RPCReply{b: b.Bytes()}
-	}
-	if c.Trace != nil {
-		c.Trace("Client %v is all done", c)
+		select {
+		case c.FromServer <- &RPCReply{b: b.Bytes()}:
+		case <-c.done:
+			return
+		}
 	}
-
 }
 
 func (c *Client) IO() {
 	go func() {
 		for {
-			r := <-c.FromClient
-			t := <-c.Tags
+			var r *RPCCall
+			var t Tag
+			select {
+			case r = <-c.FromClient:
+			case <-c.done:
+				return
+			}
+			select {
+			case t = <-c.Tags:
+			case <-c.done:
+				return
+			}
 			if c.Trace != nil {
 				c.Trace(fmt.Sprintf("Tag for request is %v", t))
 			}
@@ -133,20 +203,31 @@ func (c *Client) IO() {
 			if c.Trace != nil {
 				c.Trace(fmt.Sprintf("Tag for request is %v", t))
 			}
+			c.mu.Lock()
 			c.RPC[int(t)-1] = r
+			c.mu.Unlock()
 			if c.Trace != nil {
 				c.Trace("Write %v to ToNet", r.b)
 			}
 			if _, err := c.ToNet.Write(r.b); err != nil {
-				c.Dead = true
-				log.Fatalf("Write to server: %v", err)
+				c.kill(fmt.Sprintf("Write to server: %v", err))
 				return
 			}
 		}
 	}()
 
 	for {
-		r := <-c.FromServer
+		var r *RPCReply
+		var ok bool
+		select {
+		case r, ok = <-c.FromServer:
+		case <-c.done:
+			return
+		}
+		if !ok {
+			c.kill("Connection to server lost")
+			return
+		}
 		if c.Trace != nil {
 			c.Trace("Read %v FromServer", r.b)
 		}
@@ -154,13 +235,17 @@ func (c *Client) IO() {
 		if c.Trace != nil {
 			c.Trace(fmt.Sprintf("Tag for reply is %v", t))
 		}
-		if t < 1 {
-			panic(fmt.Sprintf("tag %d < 1", t))
+		var rrr *RPCCall
+		if t >= 1 && int(t-1) < len(c.RPC) {
+			c.mu.Lock()
+			rrr = c.RPC[t-1]
+			c.RPC[t-1] = nil
+			c.mu.Unlock()
 		}
-		if int(t-1) >= len(c.RPC) {
-			panic(fmt.Sprintf("tag %d >= len(c.RPC) %d", t, len(c.RPC)))
+		if rrr == nil {
+			c.kill(fmt.Sprintf("Reply to no request, tag %v", t))
+			return
 		}
-		rrr := c.RPC[t-1]
 		if c.Trace != nil {
 			c.Trace("RPC %v ", rrr)
 		}
@@ -170,6 +255,8 @@ func (c *Client) IO() {
 }
 
 func (c *Client) String() string {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	z := map[bool]string{false: "Alive", true: "Dead"}
 	return fmt.Sprintf("%v tags available, Msize %v, %v FromNet %v ToNet %v", len(c.Tags), c.Msize, z[c.Dead],
 		c.FromNet, c.ToNet)
diff --git a/protocol/gen.go b/protocol/gen.go
index f2a026f..dae6971 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -173,13 +173,11 @@ return
 	cfunc = template.Must(template.New("s").Parse(`
 func (c *Client)Call{{.T.MFunc}} ({{.T.MParms}}) ({{.R.URet}} err error) {
 var b = bytes.Buffer{}
-if c.Trace != nil {c.Trace("%v", {{.T.MFunc}})}
-t := Tag(0)
-r := make (chan []byte)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
-Marshal{{.T.MFunc}}Pkt(&b, t, {{.T.MList}})
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+Marshal{{.T.MFunc}}Pkt(&b, Tag(0), {{.T.MList}})
+bb, err := c.rpc(b.Bytes(), {{.R.MFunc}})
+if err != nil {
+	return {{.R.UList}} err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
diff --git a/protocol/genout.go b/protocol/genout.go
index 1a1e40f..30e5301 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -174,13 +174,11 @@ func (s *Server) SrvRversion(b*bytes.Buffer) (err error) {
 
 func (c *Client)CallTversion (TMsize MaxSize, TVersion string) (RMsize MaxSize, RVersion string,  err error) {
 var b = bytes.Buffer{}
-if c.Trace != nil {c.Trace("%v", Tversion)}
-t := Tag(0)
-r := make (chan []byte)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
-MarshalTversionPkt(&b, t, TMsize, TVersion)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+MarshalTversionPkt(&b, Tag(0), TMsize, TVersion)
+bb, err := c.rpc(b.Bytes(), Rversion)
+if err != nil {
+	return RMsize, RVersion,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -357,13 +355,11 @@ func (s *Server) SrvRattach(b*bytes.Buffer) (err error) {
 
 func (c *Client)CallTattach (SFID FID, AFID FID, Uname string, Aname string) (QID QID,  err error) {
 var b = bytes.Buffer{}
-if c.Trace != nil {c.Trace("%v", Tattach)}
-t := Tag(0)
-r := make (chan []byte)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
-MarshalTattachPkt(&b, t, SFID, AFID, Uname, Aname)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+MarshalTattachPkt(&b, Tag(0), SFID, AFID, Uname, Aname)
+bb, err := c.rpc(b.Bytes(), Rattach)
+if err != nil {
+	return QID,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -457,13 +453,11 @@ func (s *Server) SrvRflush(b*bytes.Buffer) (err error) {
 
 func (c *Client)CallTflush (OTag Tag) ( err error) {
 var b = bytes.Buffer{}
-if c.Trace != nil {c.Trace("%v", Tflush)}
-t := Tag(0)
-r := make (chan []byte)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
-MarshalTflushPkt(&b, t, OTag)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+MarshalTflushPkt(&b, Tag(0), OTag)
+bb, err := c.rpc(b.Bytes(), Rflush)
+if err != nil {
+	return  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -653,13 +647,11 @@ func (s *Server) SrvRwalk(b*bytes.Buffer) (err error) {
 
 func (c *Client)CallTwalk (SFID FID, NewFID FID, Paths []string) (QIDs []QID,  err error) {
 var b = bytes.Buffer{}
-if c.Trace != nil {c.Trace("%v", Twalk)}
-t := Tag(0)
-r := make (chan []byte)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
-MarshalTwalkPkt(&b, t, SFID, NewFID, Paths)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+MarshalTwalkPkt(&b, Tag(0), SFID, NewFID, Paths)
+bb, err := c.rpc(b.Bytes(), Rwalk)
+if err != nil {
+	return QIDs,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -813,13 +805,11 @@ func (s *Server) SrvRopen(b*bytes.Buffer) (err error) {
 
 func (c *Client)CallTopen (OFID FID, Omode Mode) (OQID QID, IOUnit MaxSize,  err error) {
 var b = bytes.Buffer{}
-if c.Trace != nil {c.Trace("%v", Topen)}
-t := Tag(0)
-r := make (chan []byte)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
-MarshalTopenPkt(&b, t, OFID, Omode)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+MarshalTopenPkt(&b, Tag(0), OFID, Omode)
+bb, err := c.rpc(b.Bytes(), Ropen)
+if err != nil {
+	return OQID, IOUnit,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1000,13 +990,11 @@ func (s *Server) SrvRcreate(b*bytes.Buffer) (err error) {
 
 func (c *Client)CallTcreate (OFID FID, Name string, CreatePerm Perm, Omode Mode) (OQID QID, IOUnit MaxSize,  err error) {
 var b = bytes.Buffer{}
-if c.Trace != nil {c.Trace("%v", Tcreate)}
-t := Tag(0)
-r := make (chan []byte)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
-MarshalTcreatePkt(&b, t, OFID, Name, CreatePerm, Omode)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+MarshalTcreatePkt(&b, Tag(0), OFID, Name, CreatePerm, Omode)
+bb, err := c.rpc(b.Bytes(), Rcreate)
+if err != nil {
+	return OQID, IOUnit,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1119,13 +1107,11 @@ func (s *Server) SrvRstat(b*bytes.Buffer) (err error) {
 
 func (c *Client)CallTstat (OFID FID) (B []byte,  err error) {
 var b = bytes.Buffer{}
-if c.Trace != nil {c.Trace("%v", Tstat)}
-t := Tag(0)
-r := make (chan []byte)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
-MarshalTstatPkt(&b, t, OFID)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+MarshalTstatPkt(&b, Tag(0), OFID)
+bb, err := c.rpc(b.Bytes(), Rstat)
+if err != nil {
+	return B,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1238,13 +1224,11 @@ func (s *Server) SrvRwstat(b*bytes.Buffer) (err error) {
 
 func (c *Client)CallTwstat (OFID FID, B []byte) ( err error) {
 var b = bytes.Buffer{}
-if c.Trace != nil {c.Trace("%v", Twstat)}
-t := Tag(0)
-r := make (chan []byte)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
-MarshalTwstatPkt(&b, t, OFID, B)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+MarshalTwstatPkt(&b, Tag(0), OFID, B)
+bb, err := c.rpc(b.Bytes(), Rwstat)
+if err != nil {
+	return  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1342,13 +1326,11 @@ func (s *Server) SrvRclunk(b*bytes.Buffer) (err error) {
 
 func (c *Client)CallTclunk (OFID FID) ( err error) {
 var b = bytes.Buffer{}
-if c.Trace != nil {c.Trace("%v", Tclunk)}
-t := Tag(0)
-r := make (chan []byte)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
-MarshalTclunkPkt(&b, t, OFID)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+MarshalTclunkPkt(&b, Tag(0), OFID)
+bb, err := c.rpc(b.Bytes(), Rclunk)
+if err != nil {
+	return  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1446,13 +1428,11 @@ func (s *Server) SrvRremove(b*bytes.Buffer) (err error) {
 
 func (c *Client)CallTremove (OFID FID) ( err error) {
 var b = bytes.Buffer{}
-if c.Trace != nil {c.Trace("%v", Tremove)}
-t := Tag(0)
-r := make (chan []byte)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
-MarshalTremovePkt(&b, t, OFID)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+MarshalTremovePkt(&b, Tag(0), OFID)
+bb, err := c.rpc(b.Bytes(), Rremove)
+if err != nil {
+	return  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1601,13 +1581,11 @@ func (s *Server) SrvRread(b*bytes.Buffer) (err error) {
 
 func (c *Client)CallTread (OFID FID, Off Offset, Len Count) (Data []uint8,  err error) {
 var b = bytes.Buffer{}
-if c.Trace != nil {c.Trace("%v", Tread)}
-t := Tag(0)
-r := make (chan []byte)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
-MarshalTreadPkt(&b, t, OFID, Off, Len)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+MarshalTreadPkt(&b, Tag(0), OFID, Off, Len)
+bb, err := c.rpc(b.Bytes(), Rread)
+if err != nil {
+	return Data,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1756,13 +1734,11 @@ func (s *Server) SrvRwrite(b*bytes.Buffer) (err error) {
 
 func (c *Client)CallTwrite (OFID FID, Off Offset, Data []uint8) (RLen Count,  err error) {
 var b = bytes.Buffer{}
-if c.Trace != nil {c.Trace("%v", Twrite)}
-t := Tag(0)
-r := make (chan []byte)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
-MarshalTwritePkt(&b, t, OFID, Off, Data)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+MarshalTwritePkt(&b, Tag(0), OFID, Off, Data)
+bb, err := c.rpc(b.Bytes(), Rwrite)
+if err != nil {
+	return RLen,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
-- 
2.43.0


From d1ce0e936bfcf33a3c05c6b87a65794e99680c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:12 +0000
Subject: [PATCH 07/19] fix: names a client supplies can't lead out of the root

Dot-dot elements in walk and create names and in absolute rename targets, and
a rename of the root itself, reached files outside the directory given with
-root. The root can't be removed either.
---
 filesystem/filesystem.go | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 2523097..9efd708 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -79,6 +79,16 @@ func (e *FileServer) getFile(fid protocol.FID) (*file, error) {
 	return f, nil
 }
 
+// join returns the path of name in the directory dir, neither of which leads
+// out of the root of this server: as usual, dot-dot in the root is the root.
+func (e *FileServer) join(dir, name string) (string, error) {
+	rel, err := filepath.Rel(e.rootPath, dir)
+	if err != nil {
+		return "", err
+	}
+	return path.Join(e.rootPath, path.Join("/", filepath.ToSlash(rel), name)), nil
+}
+
 func (e *FileServer) Rattach(fid protocol.FID, afid protocol.FID, uname string, aname string) (protocol.QID, error) {
 	if afid != protocol.NOFID {
 		return protocol.QID{}, fmt.Errorf("We don't do auth attach")
@@ -124,8 +134,11 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 
 	var i int
 	for i = range paths {
-		p = path.Join(p, paths[i])
-		st, err := os.Lstat(p)
+		var st os.FileInfo
+		var err error
+		if p, err = e.join(p, paths[i]); err == nil {
+			st, err = os.Lstat(p)
+		}
 		if err != nil {
 			// From the RFC: If the first element cannot be walked for any
 			// reason, Rerror is returned. Otherwise, the walk will return an
@@ -185,7 +198,10 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	if f.file != nil {
 		return protocol.QID{}, 0, fmt.Errorf("FID already open")
 	}
-	n := path.Join(f.fullName, name)
+	n, err := e.join(f.fullName, name)
+	if err != nil {
+		return protocol.QID{}, 0, err
+	}
 	if perm&protocol.Perm(protocol.DMDIR) != 0 {
 		p := os.FileMode(int(perm) & 0777)
 		err := os.Mkdir(n, p)
@@ -275,14 +291,17 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		// If we path.Join dir.Name to / before adding it to
 		// the fid path, that ensures nobody gets to walk out of the
 		// root of this server.
-		newname := path.Join(path.Dir(f.fullName), path.Join("/", dir.Name))
+		newname, err := e.join(path.Dir(f.fullName), path.Join("/", dir.Name))
+		if err != nil {
+			return err
+		}
 
 		// absolute renaming. Ufs can do this, so let's support it.
 		// We'll allow an absolute path in the Name and, if it is,
 		// we will make it relative to root. This is a gigantic performance
 		// improvement in systems that allow it.
 		if filepath.IsAbs(dir.Name) {
-			newname = path.Join(e.rootPath, dir.Name)
+			newname = path.Join(e.rootPath, path.Join("/", dir.Name))
 		}
 
 		// If to exists, and to is a directory, we can't do the
@@ -358,6 +377,9 @@ func (e *FileServer) Rremove(fid protocol.FID) error {
 	if err != nil {
 		return err
 	}
+	if f.fullName == path.Clean(e.rootPath) {
+		return fmt.Errorf("can't remove the root")
+	}
 	return os.Remove(f.fullName)
 }
 
@@ -451,6 +473,9 @@ func NewUFS(opts ...protocol.ListenerOpt) (*protocol.Listener, error) {
 		f := &FileServer{}
 		f.files = make(map[protocol.FID]*file)
 		f.rootPath = *root // for now.
+		if f.rootPath == "" {
+			f.rootPath = "/"
+		}
 		f.IOunit = 8192
 		// any opts for the ufs layer can be added here too ...
 		var d protocol.NineServer = f
-- 
2.43.0


From 3ae6dfc1ed440ecf67ad20b5ce0a39bd43561172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:12 +0000
Subject: [PATCH 08/19] fix: fids in use or open are not silently replaced or
 shared

Attaching to a fid in use, opening an open fid and walking an open fid to
itself dropped an open file, a clone of an open fid shared its open file, so
that clunking one closed the other, and a walk of no names to the fid itself
was refused.
---
 filesystem/filesystem.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 9efd708..5f24c20 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -102,6 +102,11 @@ func (e *FileServer) Rattach(fid protocol.FID, afid protocol.FID, uname string,
 	}
 	r := &file{fullName: aname}
 	r.QID = fileInfoToQID(st)
+	e.mu.Lock()
+	defer e.mu.Unlock()
+	if _, ok := e.files[fid]; ok {
+		return protocol.QID{}, fmt.Errorf("FID in use: attach, fid %d", fid)
+	}
 	e.files[fid] = r
 	e.root = r
 	return r.QID, nil
@@ -119,14 +124,17 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 		return nil, fmt.Errorf("does not exist")
 	}
 	if len(paths) == 0 {
+		if fid == newfid {
+			return []protocol.QID{}, nil
+		}
 		e.mu.Lock()
 		defer e.mu.Unlock()
 		_, ok := e.files[newfid]
 		if ok {
 			return nil, fmt.Errorf("FID in use: clone walk, fid %d newfid %d", fid, newfid)
 		}
-		nf := *f
-		e.files[newfid] = &nf
+		// The clone is not open, even if fid is.
+		e.files[newfid] = &file{fullName: f.fullName, QID: f.QID}
 		return []protocol.QID{}, nil
 	}
 	p := f.fullName
@@ -169,6 +177,8 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 		if _, ok := e.files[newfid]; ok {
 			return nil, fmt.Errorf("FID in use: walk to %v, fid %v, newfid %v", paths, fid, newfid)
 		}
+	} else if f.file != nil {
+		return nil, fmt.Errorf("FID already open")
 	}
 	e.files[newfid] = &file{fullName: p, QID: q[i]}
 	return q, nil
@@ -181,6 +191,9 @@ func (e *FileServer) Ropen(fid protocol.FID, mode protocol.Mode) (protocol.QID,
 	if !ok {
 		return protocol.QID{}, 0, fmt.Errorf("does not exist")
 	}
+	if f.file != nil {
+		return protocol.QID{}, 0, fmt.Errorf("FID already open")
+	}
 
 	var err error
 	f.file, err = os.OpenFile(f.fullName, modeToUnixFlags(mode), 0)
-- 
2.43.0


From 6bc9d73a9b000d4c9200adf2ea5639aec168f560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:12 +0000
Subject: [PATCH 09/19] fix: creating a directory whose name is taken fails

The error of Mkdir was overwritten, and the request succeeded, giving the
client whatever file has that name.
---
 filesystem/filesystem.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 5f24c20..6d072c7 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -217,7 +217,9 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	}
 	if perm&protocol.Perm(protocol.DMDIR) != 0 {
 		p := os.FileMode(int(perm) & 0777)
-		err := os.Mkdir(n, p)
+		if err := os.Mkdir(n, p); err != nil {
+			return protocol.QID{}, 0, err
+		}
 		_, q, err := stat(n)
 		if err != nil {
 			return protocol.QID{}, 0, err
-- 
2.43.0


From c3d7c72bf6e9a3a200eda58894cd1872433ccd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:13 +0000
Subject: [PATCH 10/19] fix: a read count can't crash the server nor make the
 reply exceed msize

A negative count (one beyond 2^31) panicked, and the reply to a large one was
longer than the message size negotiated with the client.
---
 filesystem/filesystem.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 6d072c7..909023b 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -35,12 +35,17 @@ type FileServer struct {
 	rootPath  string
 	Versioned bool
 	IOunit    protocol.MaxSize
+	// msize is the message size negotiated with the client.
+	msize protocol.MaxSize
 
 	// mu guards below
 	mu    sync.Mutex
 	files map[protocol.FID]*file
 }
 
+// rreadHdrSz is the non-data size of an Rread message.
+const rreadHdrSz = 4 + 1 + 2 + 4
+
 var (
 	debug = flag.Int("debug", 0, "print debug messages")
 	root  = flag.String("root", "/", "Set the root for all attaches")
@@ -65,6 +70,7 @@ func (e *FileServer) Rversion(msize protocol.MaxSize, version string) (protocol.
 		return 0, "", fmt.Errorf("%v not supported; only 9P2000", version)
 	}
 	e.Versioned = true
+	e.msize = msize
 	return msize, version, nil
 }
 
@@ -406,6 +412,16 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 	if f.file == nil {
 		return nil, fmt.Errorf("FID not open")
 	}
+	if c < 0 {
+		return nil, fmt.Errorf("bad count %d", c)
+	}
+	// The reply must not exceed msize.
+	if max := int64(e.msize) - rreadHdrSz; e.Versioned && int64(c) > max {
+		if max <= 0 {
+			return nil, fmt.Errorf("msize %d is too small to read", e.msize)
+		}
+		c = protocol.Count(max)
+	}
 	if f.QID.Type&protocol.QTDIR != 0 {
 		if o == 0 {
 			f.oflow = nil
-- 
2.43.0


From d776ae9abd07e403cb9f1fc1bcdb395b6fef639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:31 +0000
Subject: [PATCH 11/19] fix: a directory entry that does not fit the count is
 kept, not dropped

It was skipped, so that the listing lacked it. The saved entry was never used,
since encoding the next entry resets the buffer.
---
 filesystem/filesystem.go | 42 ++++++++++++++--------------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 909023b..376bc4a 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -431,23 +431,14 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 		}
 
 		// We make the assumption that they can always fit at least one
-		// directory entry into a read. If that assumption does not hold
-		// so many things are broken that we can't fix them here.
-		// But we'll drop out of the loop below having returned nothing
-		// anyway.
-		b := bytes.NewBuffer(f.oflow)
-		f.oflow = nil
-		pos := 0
-
-		for {
-			if b.Len() > int(c) {
-				f.oflow = b.Bytes()[pos:]
-				return b.Bytes()[:pos], nil
-			}
-			pos += b.Len()
+		// directory entry into a read. If it does not fit, as in the
+		// last of the reads with which Linux fills a buffer, we return
+		// nothing and start with it on the next read.
+		// Otherwise we return one entry at a time.
+		if f.oflow == nil {
 			st, err := f.file.Readdir(1)
 			if err == io.EOF {
-				return b.Bytes(), nil
+				return nil, nil
 			}
 			if err != nil {
 				return nil, err
@@ -457,19 +448,16 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 			if err != nil {
 				return nil, err
 			}
-			protocol.Marshaldir(b, *d9p)
-			// Seen on linux clients: sometimes the math is wrong and
-			// they end up asking for the last element with not enough data.
-			// Linux bug or bug with this server? Not sure yet.
-			if b.Len() > int(c) {
-				log.Printf("Warning: Server bug? %v, need %d bytes;count is %d: skipping", d9p, b.Len(), c)
-				return nil, nil
-			}
-			// We're not quite doing the array right.
-			// What does work is returning one thing so, for now, do that.
-			return b.Bytes(), nil
+			var b bytes.Buffer
+			protocol.Marshaldir(&b, *d9p)
+			f.oflow = b.Bytes()
 		}
-		return b.Bytes(), nil
+		if len(f.oflow) > int(c) {
+			return nil, nil
+		}
+		b := f.oflow
+		f.oflow = nil
+		return b, nil
 	}
 
 	// N.B. even if they ask for 0 bytes on some file systems it is important to pass
-- 
2.43.0


From 7c6948c362a3aed0f0414fcaeac158e332a55749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:28 +0000
Subject: [PATCH 12/19] fix: a wstat refused for its owner or name no longer
 changes the mode

The mode was changed before the rest of the request was looked at.
---
 filesystem/filesystem.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 376bc4a..ed8758f 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -282,14 +282,6 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 	if err != nil {
 		return err
 	}
-	if dir.Mode != 0xFFFFFFFF {
-		changed = true
-		mode := dir.Mode & 0777
-		if err := os.Chmod(f.fullName, os.FileMode(mode)); err != nil {
-			return err
-		}
-	}
-
 	// Try to find local uid, gid by name.
 	if dir.User != "" || dir.Group != "" {
 		return fmt.Errorf("Permission denied")
@@ -307,6 +299,7 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		}
 	*/
 
+	// Rename first: if that is refused nothing has been changed.
 	if dir.Name != "" {
 		changed = true
 		// If we path.Join dir.Name to / before adding it to
@@ -338,6 +331,14 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		f.fullName = newname
 	}
 
+	if dir.Mode != 0xFFFFFFFF {
+		changed = true
+		mode := dir.Mode & 0777
+		if err := os.Chmod(f.fullName, os.FileMode(mode)); err != nil {
+			return err
+		}
+	}
+
 	if dir.Length != 0xFFFFFFFFFFFFFFFF {
 		changed = true
 		if err := os.Truncate(f.fullName, int64(dir.Length)); err != nil {
-- 
2.43.0


From 4e2571e1b64da1495915f1c46e1473fb31adf0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:28 +0000
Subject: [PATCH 13/19] fix: a wstat of only the modification time leaves the
 access time alone

It set the access time to that of 'don't touch', in the year 2106.
---
 filesystem/filesystem.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index ed8758f..9b22a8c 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -360,7 +360,8 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 			case true:
 				mt = st.ModTime()
 			default:
-				//at = atime(st.Sys().(*syscall.Stat_t))
+				// The zero time leaves it alone.
+				at = time.Time{}
 			}
 		}
 		if err := os.Chtimes(f.fullName, at, mt); err != nil {
-- 
2.43.0


From da42a07884de36aad36896c924b2d6c08b96c9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:39 +0000
Subject: [PATCH 14/19] fix: open files are closed when their session ends

They stayed open after the connection had ended, until garbage collection, and
a new version request, which starts a session without fids, left the old ones
in place.
---
 filesystem/filesystem.go | 17 +++++++++++++++++
 pkg/debugfs/debug.go     |  9 +++++++++
 protocol/server.go       |  5 +++++
 3 files changed, 31 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 9b22a8c..56c1018 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -69,11 +69,27 @@ func (e *FileServer) Rversion(msize protocol.MaxSize, version string) (protocol.
 	if version != "9P2000" {
 		return 0, "", fmt.Errorf("%v not supported; only 9P2000", version)
 	}
+	// A new session starts without any fids.
+	e.Close()
 	e.Versioned = true
 	e.msize = msize
 	return msize, version, nil
 }
 
+// Close releases all fids. The session is over.
+func (e *FileServer) Close() error {
+	e.mu.Lock()
+	fids := make([]protocol.FID, 0, len(e.files))
+	for fid := range e.files {
+		fids = append(fids, fid)
+	}
+	e.mu.Unlock()
+	for _, fid := range fids {
+		e.clunk(fid)
+	}
+	return nil
+}
+
 func (e *FileServer) getFile(fid protocol.FID) (*file, error) {
 	e.mu.Lock()
 	defer e.mu.Unlock()
@@ -243,6 +259,7 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	}
 	_, q, err := stat(n)
 	if err != nil {
+		of.Close()
 		return protocol.QID{}, 0, err
 	}
 	f.fullName = n
diff --git a/pkg/debugfs/debug.go b/pkg/debugfs/debug.go
index e157c9a..41415ce 100644
--- a/pkg/debugfs/debug.go
+++ b/pkg/debugfs/debug.go
@@ -6,6 +6,7 @@ package debugfs
 
 import (
 	"bytes"
+	"io"
 	"log"
 
 	"github.com/Harvey-OS/ninep/protocol"
@@ -15,6 +16,14 @@ type DebugFileServer struct {
 	FileServer protocol.NineServer
 }
 
+// Close closes the file server if it can be closed.
+func (dfs *DebugFileServer) Close() error {
+	if c, ok := dfs.FileServer.(io.Closer); ok {
+		return c.Close()
+	}
+	return nil
+}
+
 func (dfs *DebugFileServer) Rversion(msize protocol.MaxSize, version string) (protocol.MaxSize, string, error) {
 	log.Printf(">>> Tversion %v %v\n", msize, version)
 	msize, version, err := dfs.FileServer.Rversion(msize, version)
diff --git a/protocol/server.go b/protocol/server.go
index dfe9454..f74ceb4 100644
--- a/protocol/server.go
+++ b/protocol/server.go
@@ -209,6 +209,11 @@ func (c *conn) serve() {
 
 	defer c.rwc.Close()
 
+	// A file server that can be closed is told that its connection is gone.
+	if ns, ok := c.server.NS.(io.Closer); ok {
+		defer ns.Close()
+	}
+
 	c.logf("Starting readNetPackets")
 
 	for !c.dead {
-- 
2.43.0


From 22b529cfa813ddac3b301aaa760a880f0767c2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:45 +0000
Subject: [PATCH 15/19] fix: a client's msize is limited, so a read can't
 allocate gigabytes

---
 filesystem/filesystem.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 56c1018..5c5638c 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -72,6 +72,10 @@ func (e *FileServer) Rversion(msize protocol.MaxSize, version string) (protocol.
 	// A new session starts without any fids.
 	e.Close()
 	e.Versioned = true
+	// The client asks, we decide: it can't make us allocate what it likes.
+	if msize > protocol.MSIZE {
+		msize = protocol.MSIZE
+	}
 	e.msize = msize
 	return msize, version, nil
 }
-- 
2.43.0


From 39e3867b17e1ace14411e5997cd04d3360a3e7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:23 +0000
Subject: [PATCH 16/19] fix: create with no name, dot or dot-dot no longer
 truncates the fid's own file

---
 filesystem/filesystem.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 5c5638c..aeb34d8 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -237,6 +237,11 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	if f.file != nil {
 		return protocol.QID{}, 0, fmt.Errorf("FID already open")
 	}
+	switch name {
+	case "", ".", "..":
+		// These are not new files but ones that are there, fid itself even.
+		return protocol.QID{}, 0, fmt.Errorf("bad name %q", name)
+	}
 	n, err := e.join(f.fullName, name)
 	if err != nil {
 		return protocol.QID{}, 0, err
-- 
2.43.0


From 140b2f68dcc7113995ce94f2fb83f87a463ed67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:21 +0000
Subject: [PATCH 17/19] fix: removing files while their directory is read no
 longer crashes the server

---
 filesystem/filesystem.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index aeb34d8..bf95886 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -464,7 +464,13 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 		// nothing and start with it on the next read.
 		// Otherwise we return one entry at a time.
 		if f.oflow == nil {
-			st, err := f.file.Readdir(1)
+			// For an entry that has been removed in the meantime
+			// Readdir returns neither an entry nor an error.
+			var st []os.FileInfo
+			var err error
+			for len(st) == 0 && err == nil {
+				st, err = f.file.Readdir(1)
+			}
 			if err == io.EOF {
 				return nil, nil
 			}
-- 
2.43.0


From a48168c7dac9f71d1a979701ef3b929f8ae4869a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:49 +0000
Subject: [PATCH 18/19] fix: opening a named pipe blocked its connection for
 ever, even after the client was gone

---
 filesystem/ninep.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filesystem/ninep.go b/filesystem/ninep.go
index bb119c2..a84c841 100644
--- a/filesystem/ninep.go
+++ b/filesystem/ninep.go
@@ -9,6 +9,7 @@ package ufs
 import (
 	"flag"
 	"os"
+	"syscall"
 
 	"github.com/Harvey-OS/ninep/protocol"
 )
@@ -41,7 +42,9 @@ func modeToUnixFlags(mode protocol.Mode) int {
 		ret |= os.O_TRUNC
 	}
 
-	return ret
+	// Never wait for the other end of a named pipe or for a device: there may
+	// never be one, and the connection could not even be closed.
+	return ret | syscall.O_NONBLOCK
 }
 
 func dirToQIDType(d os.FileInfo) uint8 {
-- 
2.43.0


From 53eb01409fe7180e31ddfd0c7c5f1a12dc8af06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:34 +0000
Subject: [PATCH 19/19] fix: report an iounit that the negotiated message size
 has room for

An open or create told the client to transfer 8192 or 8000 bytes at a time
although with a message size of, say, 8192 a read of that many is cut short
and a write of that many is a larger message than agreed.
---
 filesystem/filesystem.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index bf95886..3dd5281 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -210,6 +210,19 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 	return q, nil
 }
 
+// iounit returns the number of bytes a client may read or write with one
+// message: IOunit, or what the negotiated message size leaves room for. Zero
+// promises nothing.
+func (e *FileServer) iounit() protocol.MaxSize {
+	if max := int64(e.msize) - protocol.IOHDRSZ; e.Versioned && int64(e.IOunit) > max {
+		if max < 0 {
+			max = 0
+		}
+		return protocol.MaxSize(max)
+	}
+	return e.IOunit
+}
+
 func (e *FileServer) Ropen(fid protocol.FID, mode protocol.Mode) (protocol.QID, protocol.MaxSize, error) {
 	e.mu.Lock()
 	f, ok := e.files[fid]
@@ -227,7 +240,7 @@ func (e *FileServer) Ropen(fid protocol.FID, mode protocol.Mode) (protocol.QID,
 		return protocol.QID{}, 0, err
 	}
 
-	return f.QID, e.IOunit, nil
+	return f.QID, e.iounit(), nil
 }
 func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm, mode protocol.Mode) (protocol.QID, protocol.MaxSize, error) {
 	f, err := e.getFile(fid)
@@ -257,7 +270,7 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 		}
 		f.fullName = n
 		f.QID = q
-		return q, 8000, err
+		return q, e.iounit(), err
 	}
 
 	m := modeToUnixFlags(mode) | os.O_CREATE | os.O_TRUNC
@@ -274,7 +287,7 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	f.fullName = n
 	f.QID = q
 	f.file = of
-	return q, 8000, err
+	return q, e.iounit(), err
 }
 func (e *FileServer) Rclunk(fid protocol.FID) error {
 	_, err := e.clunk(fid)
-- 
2.43.0

