From e9ac6356f65ffb43411d356e955bf902f490d8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:22 +0000
Subject: [PATCH 001/142] fix: mqo: read negative integers

M(-1) and negative shader parameters were written but read back as 0 and
made the rest of the line unreadable.
---
 mqo/mqo_parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index 8ea4f75..cfb6252 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -71,12 +71,17 @@ func (p *Parser) readFloat() float32 {
 
 func (p *Parser) readInt() int {
 	tok := p.s.Scan()
+	s := 1
+	if p.s.TokenText() == "-" {
+		tok = p.s.Scan()
+		s = -1
+	}
 	if tok != scanner.Int {
 		log.Printf("  Invalid num  %s\n", p.s.TokenText())
 		return 0
 	}
 	n, _ := strconv.Atoi(p.s.TokenText())
-	return n
+	return n * s
 }
 
 func (p *Parser) readStr() string {
-- 
2.43.0


From 200b499e356a193f64f4145800624db4eeeef805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:23 +0000
Subject: [PATCH 002/142] fix: mqo: read the locking attribute of objects

---
 mqo/mqo_parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index cfb6252..34039ec 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -258,6 +258,7 @@ func (p *Parser) readObject() *Object {
 		"depth":       func() { o.Depth = p.readInt() },
 		"folding":     func() { o.Folding = p.readInt() > 0 },
 		"visible":     func() { o.Visible = p.readInt() > 0 },
+		"locking":     func() { o.Locked = p.readInt() > 0 },
 		"shading":     func() { o.Shading = p.readInt() },
 		"facet":       func() { o.Facet = p.readFloat() },
 		"patch":       func() { o.Patch = p.readInt() },
-- 
2.43.0


From ea791d9f4aeb72f0ff9fba0879c1cc5bf85a61b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:24 +0000
Subject: [PATCH 003/142] fix: mqo: write the emission color of materials

---
 mqo/mqo_writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index 93c93c6..9f17ca9 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -85,6 +85,9 @@ func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 		fmt.Fprintf(w, " col(%.3f %.3f %.3f %.3f) dif(%.3f) amb(%.3f) emi(%.3f) spc(%.3f) power(%.2f)",
 			mat.Color.X, mat.Color.Y, mat.Color.Z, mat.Color.W,
 			mat.Diffuse, mat.Ambient, mat.Emission, mat.Specular, mat.Power)
+		if mat.EmissionColor != nil {
+			fmt.Fprintf(w, " emi_col(%.3f %.3f %.3f)", mat.EmissionColor.X, mat.EmissionColor.Y, mat.EmissionColor.Z)
+		}
 		if mat.Texture != "" {
 			fmt.Fprintf(w, " tex(\"%v\")", strings.Replace(mat.Texture, "\\", "/", -1))
 		}
-- 
2.43.0


From 553907cdc0345aeba92b5727ba0b5ff3d0d43a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:25 +0000
Subject: [PATCH 004/142] fix: mqo: write shader mappings, color and string
 shader parameters

They were read but either dropped or written as malformed int values.
Parameters are written in a stable order.
---
 mqo/mqo_writer.go | 56 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index 9f17ca9..cdf22fe 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 )
 
@@ -32,6 +33,28 @@ func boolToInt(b bool) int {
 	return 0
 }
 
+func writeShaderParams(w io.Writer, params map[string]interface{}) {
+	var names []string
+	for name := range params {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		switch v := params[name].(type) {
+		case bool:
+			fmt.Fprintf(w, "\t\t\t%v bool %v\n", name, boolToInt(v))
+		case float64, float32:
+			fmt.Fprintf(w, "\t\t\t%v float %v\n", name, v)
+		case []float32:
+			fmt.Fprintf(w, "\t\t\t%v color %v\n", name, strings.Trim(fmt.Sprint(v), "[]"))
+		case string:
+			fmt.Fprintf(w, "\t\t\t%v string \"%v\"\n", name, v)
+		default:
+			fmt.Fprintf(w, "\t\t\t%v int %v\n", name, v)
+		}
+	}
+}
+
 func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 	w := bufio.NewWriter(ww)
 	w.WriteString("Metasequoia Document\n")
@@ -116,19 +139,30 @@ func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 			fmt.Fprintf(w, "\t\tshadertype \"%v\"\n", mat.Ex2.ShaderType)
 			fmt.Fprintf(w, "\t\tshadername \"%v\"\n", mat.Ex2.ShaderName)
 			fmt.Fprintf(w, "\t\tshaderparam %v {\n", len(mat.Ex2.ShaderParams))
-			for name, v := range mat.Ex2.ShaderParams {
-				typ := "int"
-				if b, ok := v.(bool); ok {
-					typ = "bool"
-					v = boolToInt(b)
-				} else if _, ok := v.(float64); ok {
-					typ = "float"
-				} else if _, ok := v.(float32); ok {
-					typ = "float"
+			writeShaderParams(w, mat.Ex2.ShaderParams)
+			w.WriteString("\t\t}\n")
+			if len(mat.Ex2.ShaderMapping) > 0 {
+				fmt.Fprintf(w, "\t\tshadermapping %v {\n", len(mat.Ex2.ShaderMapping))
+				var names []string
+				for name := range mat.Ex2.ShaderMapping {
+					names = append(names, name)
+				}
+				sort.Strings(names)
+				for _, name := range names {
+					fmt.Fprintf(w, "\t\t\t%v \"%v\"\n", name, strings.Replace(mat.Ex2.ShaderMapping[name], "\\", "/", -1))
 				}
-				fmt.Fprintf(w, "\t\t\t%v %v %v\n", name, typ, v)
+				w.WriteString("\t\t}\n")
+			}
+			var names []string
+			for name := range mat.Ex2.ShaderMappingParams {
+				names = append(names, name)
+			}
+			sort.Strings(names)
+			for _, name := range names {
+				fmt.Fprintf(w, "\t\tshadermappingparam %v %v {\n", name, len(mat.Ex2.ShaderMappingParams[name]))
+				writeShaderParams(w, mat.Ex2.ShaderMappingParams[name])
+				w.WriteString("\t\t}\n")
 			}
-			w.WriteString("\t\t}\n")
 			w.WriteString("\t}\n")
 		}
 		w.WriteString("}\n")
-- 
2.43.0


From b8b8bd4a1e3061125d227c1c8ac690baccf4f841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:26 +0000
Subject: [PATCH 005/142] fix: mqx: read physics bodies and joints back

---
 mqo/mqx_parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mqo/mqx_parser.go b/mqo/mqx_parser.go
index 5b39d88..4de88cd 100644
--- a/mqo/mqx_parser.go
+++ b/mqo/mqx_parser.go
@@ -8,8 +8,9 @@ import (
 func ReadMQX(r io.Reader) (*MQXDoc, error) {
 	var data struct {
 		MQXDoc
-		BonePlugin  *BonePlugin
-		MorphPlugin *MorphPlugin
+		BonePlugin    *BonePlugin
+		MorphPlugin   *MorphPlugin
+		PhysicsPlugin *PhysicsPlugin
 	}
 	err := xml.NewDecoder(r).Decode(&data)
 	doc := data.MQXDoc
@@ -19,6 +20,9 @@ func ReadMQX(r io.Reader) (*MQXDoc, error) {
 	if data.MorphPlugin != nil {
 		doc.Plugins = append(doc.Plugins, data.MorphPlugin)
 	}
+	if data.PhysicsPlugin != nil {
+		doc.Plugins = append(doc.Plugins, data.PhysicsPlugin)
+	}
 	for _, p := range doc.Plugins {
 		p.PostDeserialize(nil)
 	}
-- 
2.43.0


From b662c6e50ec3808b4c8dd8a1f3cea7df8f73728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:27 +0000
Subject: [PATCH 006/142] fix: mqx: do not list weighted objects again on every
 save

---
 mqo/bone_plugin.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mqo/bone_plugin.go b/mqo/bone_plugin.go
index 64c6d3e..6871a0c 100644
--- a/mqo/bone_plugin.go
+++ b/mqo/bone_plugin.go
@@ -222,6 +222,7 @@ func (p *BonePlugin) PreSerialize(mqo *Document) {
 		}
 	}
 
+	p.Obj = nil
 	for i, o := range mqo.Objects {
 		id := o.UID
 		if id <= 0 {
-- 
2.43.0


From ecc3f44616d82b78b1018570539b3a5441bce248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:28 +0000
Subject: [PATCH 007/142] fix: mqo: make names unique when saving as mqoz as
 well

---
 mqo/mqo_writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index cdf22fe..6d2b70c 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -304,6 +304,7 @@ func SaveMQOZ(doc *Document, path string) error {
 }
 
 func Save(doc *Document, path string) error {
+	doc.FixNames()
 	if strings.HasSuffix(path, ".mqoz") {
 		return SaveMQOZ(doc, path)
 	}
@@ -312,6 +313,5 @@ func Save(doc *Document, path string) error {
 		return err
 	}
 	defer w.Close()
-	doc.FixNames()
 	return NewWriter(path).WriteMQO(doc, w)
 }
-- 
2.43.0


From 312b79eea7ea4b9a57ae6fcba8df09545ff7e6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:24 +0000
Subject: [PATCH 008/142] fix: pmx: write joint bodies with the rigid body
 index width

---
 mmd/pmx_writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmd/pmx_writer.go b/mmd/pmx_writer.go
index e7de800..ce88a15 100644
--- a/mmd/pmx_writer.go
+++ b/mmd/pmx_writer.go
@@ -368,8 +368,8 @@ func (w *PMXWriter) writeJoint(j *Joint) {
 	w.writeText(j.NameEn)
 	w.writeUint8(j.Type)
 
-	w.writeIndex(AttrBoneIndexSz, j.Body1)
-	w.writeIndex(AttrBoneIndexSz, j.Body2)
+	w.writeIndex(AttrRBIndexSz, j.Body1)
+	w.writeIndex(AttrRBIndexSz, j.Body2)
 
 	w.write(&j.Position)
 	w.write(&j.Rotation)
-- 
2.43.0


From 6b818774c09f13bf9dfbf0b1b67ae9db9ad65c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:25 +0000
Subject: [PATCH 009/142] fix: pmx: the external parent key of a bone is a 4
 byte integer

---
 mmd/pmx_parser.go | 4 ++--
 mmd/pmx_writer.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmd/pmx_parser.go b/mmd/pmx_parser.go
index fad066a..ba3ae59 100644
--- a/mmd/pmx_parser.go
+++ b/mmd/pmx_parser.go
@@ -181,8 +181,8 @@ func (p *PMXParser) readBone() *Bone {
 	}
 
 	if b.Flags&8192 != 0 {
-		// ??
-		p.readIndex(AttrBoneIndexSz)
+		// external parent key
+		p.readInt()
 	}
 
 	if b.Flags&32 != 0 {
diff --git a/mmd/pmx_writer.go b/mmd/pmx_writer.go
index ce88a15..f5dd8d2 100644
--- a/mmd/pmx_writer.go
+++ b/mmd/pmx_writer.go
@@ -283,8 +283,8 @@ func (w *PMXWriter) writeBone(b *Bone) {
 	}
 
 	if b.Flags&8192 != 0 {
-		// ??
-		w.writeIndex(AttrBoneIndexSz, -1)
+		// external parent key
+		w.writeInt(-1)
 	}
 
 	if b.Flags&32 != 0 {
-- 
2.43.0


From 74553b3c2fc6f692665101f86751fd184fd36acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:26 +0000
Subject: [PATCH 010/142] fix: pmx: write index sizes that fit the document and
 complete headers

---
 mmd/pmx_writer.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/mmd/pmx_writer.go b/mmd/pmx_writer.go
index f5dd8d2..866da0b 100644
--- a/mmd/pmx_writer.go
+++ b/mmd/pmx_writer.go
@@ -77,6 +77,10 @@ type PMXWriter struct {
 
 func (w *PMXWriter) Write(doc *Document) error {
 	// header
+	if doc.Header == nil {
+		doc.Header = &Header{}
+	}
+	fixHeader(doc.Header, doc)
 	w.writeHeader(doc.Header)
 	w.writeText(doc.Name)
 	w.writeText(doc.NameEn)
@@ -150,6 +154,35 @@ func (w *PMXWriter) writeUIndex(attrTyp int, v int) {
 	w.writeVUInt(w.header.Info[attrTyp], v)
 }
 
+// fixHeader makes the header valid for .pmx and the index sizes large enough for the document.
+func fixHeader(h *Header, doc *Document) {
+	if string(h.Format) != "PMX " || len(h.Info) <= AttrRBIndexSz {
+		*h = *NewDocument().Header
+	}
+	for _, v := range doc.Vertexes {
+		if len(v.ExtUVs) > int(h.Info[AttrExtUV]) {
+			h.Info[AttrExtUV] = byte(len(v.ExtUVs))
+		}
+	}
+	require := func(attrTyp int, n, max1, max2 int) {
+		sz := byte(1)
+		if n > max2 {
+			sz = 4
+		} else if n > max1 {
+			sz = 2
+		}
+		if h.Info[attrTyp] < sz {
+			h.Info[attrTyp] = sz
+		}
+	}
+	require(AttrVertIndexSz, len(doc.Vertexes), 1<<8, 1<<16)
+	require(AttrTexIndexSz, len(doc.Textures), 1<<7, 1<<15)
+	require(AttrMatIndexSz, len(doc.Materials), 1<<7, 1<<15)
+	require(AttrBoneIndexSz, len(doc.Bones), 1<<7, 1<<15)
+	require(AttrMorphIndexSz, len(doc.Morphs), 1<<7, 1<<15)
+	require(AttrRBIndexSz, len(doc.Bodies), 1<<7, 1<<15)
+}
+
 func (w *PMXWriter) writeHeader(h *Header) {
 	w.header = h
 
@@ -168,6 +201,7 @@ func (w *PMXWriter) writeVertex(v *Vertex) {
 	w.write(&v.Normal)
 	w.write(&v.UV)
 	w.write(&v.ExtUVs)
+	w.write(make([]Vector4, int(w.header.Info[AttrExtUV])-len(v.ExtUVs)))
 
 	var wehghtType uint8
 	switch len(v.BoneWeights) {
-- 
2.43.0


From 3bda63b943cfb4a6924aafd4e2119f67101fdc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:27 +0000
Subject: [PATCH 011/142] fix: pmx: read additional UV morphs

---
 mmd/mmd.go        | 2 +-
 mmd/pmx_parser.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmd/mmd.go b/mmd/mmd.go
index f893a12..fff30b2 100644
--- a/mmd/mmd.go
+++ b/mmd/mmd.go
@@ -141,7 +141,7 @@ type MorphVertex struct {
 	Offset Vector3
 }
 
-// type 3
+// type 3, 4-7(additional UV)
 type MorphUV struct {
 	Target int
 	Value  Vector4
diff --git a/mmd/pmx_parser.go b/mmd/pmx_parser.go
index ba3ae59..aa15c44 100644
--- a/mmd/pmx_parser.go
+++ b/mmd/pmx_parser.go
@@ -232,7 +232,7 @@ func (p *PMXParser) readMorph() *Morph {
 			p.read(&Vector3{})
 			p.read(&Vector4{})
 			break
-		case 3:
+		case 3, 4, 5, 6, 7:
 			var v MorphUV
 			v.Target = p.readUIndex(AttrVertIndexSz)
 			p.read(&v.Value)
-- 
2.43.0


From 599ec979406779ec9f7342329eeac4a108240f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:28 +0000
Subject: [PATCH 012/142] fix: pmd: morphs are vertex morphs

---
 mmd/pmd_parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmd/pmd_parser.go b/mmd/pmd_parser.go
index fa31023..a77d5d9 100644
--- a/mmd/pmd_parser.go
+++ b/mmd/pmd_parser.go
@@ -98,6 +98,7 @@ func (p *PMDParser) readBone() *Bone {
 func (p *PMDParser) readMorph() *Morph {
 	var m Morph
 	m.Name = p.readString(20)
+	m.MorphType = 1
 	vn := p.readInt()
 	p.read(&m.PanelType)
 	for i := 0; i < vn; i++ {
-- 
2.43.0


From 30e2301bbcd000e463d427a048f155d58a62c6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:20 +0000
Subject: [PATCH 013/142] fix: mmd: report read errors instead of ignoring them
 or exiting

---
 mmd/base_parser.go | 26 +++++++++--------
 mmd/pmd_parser.go  | 30 +++++++++++++-------
 mmd/pmx_parser.go  | 69 +++++++++++++++++++++++-----------------------
 mmd/vmd_parser.go  |  4 +--
 4 files changed, 72 insertions(+), 57 deletions(-)

diff --git a/mmd/base_parser.go b/mmd/base_parser.go
index f2896a4..e91e8d8 100644
--- a/mmd/base_parser.go
+++ b/mmd/base_parser.go
@@ -10,48 +10,52 @@ type baseParser struct {
 	err error
 }
 
+// read reads data and keeps the first error.
 func (p *baseParser) read(v interface{}) error {
-	return binary.Read(p.r, binary.LittleEndian, v)
+	if p.err == nil {
+		p.err = binary.Read(p.r, binary.LittleEndian, v)
+	}
+	return p.err
 }
 
 func (p *baseParser) readUint8() uint8 {
 	var v uint8
-	binary.Read(p.r, binary.LittleEndian, &v)
+	p.read(&v)
 	return v
 }
 
 func (p *baseParser) readUint16() uint16 {
 	var v uint16
-	p.err = binary.Read(p.r, binary.LittleEndian, &v)
+	p.read(&v)
 	return v
 }
 
 func (p *baseParser) readInt() int {
 	var v uint32
-	p.err = binary.Read(p.r, binary.LittleEndian, &v)
+	p.read(&v)
 	return int(v)
 }
 
 func (p *baseParser) readFloat() float32 {
 	var v float32
-	p.err = binary.Read(p.r, binary.LittleEndian, &v)
+	p.read(&v)
 	return v
 }
 
 func (p *baseParser) readVUInt(sz byte) int {
 	if sz == 1 {
 		var v uint8
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	if sz == 2 {
 		var v uint16
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	if sz == 4 {
 		var v uint32
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	return 0
@@ -60,17 +64,17 @@ func (p *baseParser) readVUInt(sz byte) int {
 func (p *baseParser) readVInt(sz byte) int {
 	if sz == 1 {
 		var v int8
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	if sz == 2 {
 		var v int16
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	if sz == 4 {
 		var v int32
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	return 0
diff --git a/mmd/pmd_parser.go b/mmd/pmd_parser.go
index a77d5d9..329b915 100644
--- a/mmd/pmd_parser.go
+++ b/mmd/pmd_parser.go
@@ -40,7 +40,7 @@ func (p *PMDParser) readHeader() error {
 		return fmt.Errorf("Unsupported format")
 	}
 	p.read(&h.Version)
-	return nil
+	return p.err
 }
 
 func (p *PMDParser) readVertex() *Vertex {
@@ -101,7 +101,7 @@ func (p *PMDParser) readMorph() *Morph {
 	m.MorphType = 1
 	vn := p.readInt()
 	p.read(&m.PanelType)
-	for i := 0; i < vn; i++ {
+	for i := 0; i < vn && p.err == nil; i++ {
 		var mv MorphVertex
 		mv.Target = p.readVInt(4)
 		p.read(&mv.Offset)
@@ -124,14 +124,14 @@ func (p *PMDParser) Parse() (*Document, error) {
 	// Vertexes
 	n := p.readInt()
 	model.Vertexes = make([]*Vertex, n)
-	for i := 0; i < n; i++ {
+	for i := 0; i < n && p.err == nil; i++ {
 		model.Vertexes[i] = p.readVertex()
 	}
 
 	// Faces
 	n = p.readInt()
 	model.Faces = make([]*Face, n/3)
-	for i := 0; i < n/3; i++ {
+	for i := 0; i < n/3 && p.err == nil; i++ {
 		var f Face
 		f.Verts[0] = int(p.readUint16())
 		f.Verts[1] = int(p.readUint16())
@@ -142,26 +142,30 @@ func (p *PMDParser) Parse() (*Document, error) {
 	// Materials
 	mn := p.readInt()
 	model.Materials = make([]*Material, mn)
-	for i := 0; i < mn; i++ {
+	for i := 0; i < mn && p.err == nil; i++ {
 		model.Materials[i] = p.readMaterial(&model, i)
 	}
 
 	// Bones
 	bn := int(p.readUint16())
 	model.Bones = make([]*Bone, bn)
-	for i := 0; i < bn; i++ {
+	for i := 0; i < bn && p.err == nil; i++ {
 		model.Bones[i] = p.readBone()
 	}
 
 	// IK
 	n = int(p.readUint16())
-	for i := 0; i < n; i++ {
-		b := model.Bones[p.readUint16()]
+	for i := 0; i < n && p.err == nil; i++ {
+		bi := int(p.readUint16())
+		if bi >= len(model.Bones) {
+			return nil, fmt.Errorf("Invalid IK bone: %v", bi)
+		}
+		b := model.Bones[bi]
 		b.IK.TargetID = p.readVInt(2)
 		ln := int(p.readUint8())
 		b.IK.Loop = int(p.readUint16())
 		p.readFloat()
-		for i := 0; i < ln; i++ {
+		for i := 0; i < ln && p.err == nil; i++ {
 			b.IK.Links = append(b.IK.Links, &Link{TargetID: p.readVInt(2)})
 		}
 	}
@@ -171,13 +175,19 @@ func (p *PMDParser) Parse() (*Document, error) {
 	if n > 0 {
 		base := p.readMorph()
 		model.Morphs = make([]*Morph, n-1)
-		for i := 0; i < n-1; i++ {
+		for i := 0; i < n-1 && p.err == nil; i++ {
 			model.Morphs[i] = p.readMorph()
 			for _, v := range model.Morphs[i].Vertex {
+				if v.Target < 0 || v.Target >= len(base.Vertex) {
+					return nil, fmt.Errorf("Invalid morph vertex: %v", v.Target)
+				}
 				v.Target = base.Vertex[v.Target].Target
 			}
 		}
 	}
 
+	if p.err != nil {
+		return nil, p.err
+	}
 	return &model, nil
 }
diff --git a/mmd/pmx_parser.go b/mmd/pmx_parser.go
index aa15c44..0b8f71f 100644
--- a/mmd/pmx_parser.go
+++ b/mmd/pmx_parser.go
@@ -2,7 +2,6 @@ package mmd
 
 import (
 	"bufio"
-	"encoding/binary"
 	"fmt"
 	"io"
 	"log"
@@ -32,14 +31,17 @@ func (p *PMXParser) readUIndex(attrTyp int) int {
 
 func (p *PMXParser) readText() string {
 	len := p.readInt()
+	if p.err != nil {
+		return ""
+	}
 
 	if p.header.Info[AttrStringEncoding] == 0 {
 		utf16data := make([]uint16, len/2)
-		binary.Read(p.r, binary.LittleEndian, &utf16data)
+		p.read(&utf16data)
 		return string(utf16.Decode(utf16data))
 	}
 	data := make([]byte, len)
-	binary.Read(p.r, binary.LittleEndian, &data)
+	p.read(&data)
 	return string(data)
 }
 
@@ -57,24 +59,19 @@ func (p *PMXParser) readHeader() error {
 	p.read(&h.Version)
 	h.Info = make([]byte, p.readUint8())
 	p.read(&h.Info)
-	return nil
+	if p.err == nil && len(h.Info) <= AttrRBIndexSz {
+		p.err = fmt.Errorf("Unsupported header")
+	}
+	return p.err
 }
 
 func (p *PMXParser) readVertex() *Vertex {
 	var v Vertex
-	if err := p.read(&v.Pos); err != nil {
-		log.Fatal(err)
-	}
-	if err := p.read(&v.Normal); err != nil {
-		log.Fatal(err)
-	}
-	if err := p.read(&v.UV); err != nil {
-		log.Fatal(err)
-	}
+	p.read(&v.Pos)
+	p.read(&v.Normal)
+	p.read(&v.UV)
 	v.ExtUVs = make([]Vector4, p.header.Info[AttrExtUV])
-	if err := p.read(&v.ExtUVs); err != nil {
-		log.Fatal(err)
-	}
+	p.read(&v.ExtUVs)
 	wehghtType := p.readUint8()
 	if wehghtType == 0 {
 		v.Bones = []int{p.readIndex(AttrBoneIndexSz)}
@@ -102,9 +99,8 @@ func (p *PMXParser) readVertex() *Vertex {
 		weights := [11]float32{w, 1 - w}
 		v.BoneWeights = weights[:]
 		p.read(weights[2:])
-	} else {
-		log.Println(v)
-		log.Fatal("unknown weight ", wehghtType)
+	} else if p.err == nil {
+		p.err = fmt.Errorf("unknown weight %v", wehghtType)
 	}
 	v.EdgeScale = p.readFloat()
 	return &v
@@ -190,7 +186,7 @@ func (p *PMXParser) readBone() *Bone {
 		b.IK.Loop = p.readInt()
 		b.IK.LimitRad = p.readFloat()
 		links := p.readInt()
-		for i := 0; i < links; i++ {
+		for i := 0; i < links && p.err == nil; i++ {
 			var l Link
 			l.TargetID = p.readIndex(AttrBoneIndexSz)
 			l.HasLimit = p.readUint8() != 0
@@ -213,7 +209,7 @@ func (p *PMXParser) readMorph() *Morph {
 	p.read(&m.MorphType)
 
 	n := p.readInt()
-	for i := 0; i < n; i++ {
+	for i := 0; i < n && p.err == nil; i++ {
 		switch m.MorphType {
 		case 0:
 			m.Group = append(m.Group, &MorphGroup{
@@ -254,7 +250,7 @@ func (p *PMXParser) readMorph() *Morph {
 			m.Material = append(m.Material, &v)
 			break
 		default:
-			log.Fatal("Unknown morph type ", m.MorphType)
+			p.err = fmt.Errorf("Unknown morph type %v", m.MorphType)
 			break
 		}
 	}
@@ -278,7 +274,7 @@ func (p *PMXParser) readDisplayGroup() {
 	d.NameEn = p.readText()
 	d.Flags = p.readUint8()
 	n := p.readInt()
-	for i := 0; i < n; i++ {
+	for i := 0; i < n && p.err == nil; i++ {
 		t := DisplayTarget{Type: p.readUint8()}
 		if t.Type == 0 {
 			t.Target = p.readIndex(AttrBoneIndexSz)
@@ -351,55 +347,58 @@ func (p *PMXParser) Parse() (*Document, error) {
 
 	vn := p.readInt()
 	pmx.Vertexes = make([]*Vertex, vn)
-	for i := 0; i < vn; i++ {
+	for i := 0; i < vn && p.err == nil; i++ {
 		pmx.Vertexes[i] = p.readVertex()
 	}
 
 	fn := p.readInt() / 3
 	pmx.Faces = make([]*Face, fn)
-	for i := 0; i < fn; i++ {
+	for i := 0; i < fn && p.err == nil; i++ {
 		pmx.Faces[i] = p.readFace()
 	}
 
 	tn := p.readInt()
 	pmx.Textures = make([]string, tn)
-	for i := 0; i < tn; i++ {
+	for i := 0; i < tn && p.err == nil; i++ {
 		pmx.Textures[i] = p.readText()
 	}
 
 	mn := p.readInt()
 	pmx.Materials = make([]*Material, mn)
-	for i := 0; i < mn; i++ {
+	for i := 0; i < mn && p.err == nil; i++ {
 		pmx.Materials[i] = p.readMaterial()
 	}
 
 	bn := p.readInt()
 	pmx.Bones = make([]*Bone, bn)
-	for i := 0; i < bn; i++ {
+	for i := 0; i < bn && p.err == nil; i++ {
 		pmx.Bones[i] = p.readBone()
 	}
 
 	pn := p.readInt()
 	pmx.Morphs = make([]*Morph, pn)
-	for i := 0; i < pn; i++ {
+	for i := 0; i < pn && p.err == nil; i++ {
 		pmx.Morphs[i] = p.readMorph()
 	}
 
 	gn := p.readInt()
-	for i := 0; i < gn; i++ {
+	for i := 0; i < gn && p.err == nil; i++ {
 		p.readDisplayGroup() // TODO
 	}
 
 	rb := p.readInt()
-	for i := 0; i < rb; i++ {
+	for i := 0; i < rb && p.err == nil; i++ {
 		pmx.Bodies = append(pmx.Bodies, p.readRigidBody())
 	}
 
 	jn := p.readInt()
-	for i := 0; i < jn; i++ {
+	for i := 0; i < jn && p.err == nil; i++ {
 		pmx.Joints = append(pmx.Joints, p.readJoint())
 	}
 
+	if p.err != nil {
+		return nil, p.err
+	}
 	return &pmx, nil
 }
 
@@ -407,7 +406,7 @@ func (p *PMXParser) Parse() (*Document, error) {
 func Parse(r io.Reader) (*Document, error) {
 	// check format
 	format := make([]byte, 4)
-	if _, err := r.Read(format[:3]); err != nil {
+	if _, err := io.ReadFull(r, format[:3]); err != nil {
 		return nil, err
 	}
 
@@ -416,7 +415,9 @@ func Parse(r io.Reader) (*Document, error) {
 		p.header = &Header{Format: format[:3]}
 		return p.Parse()
 	}
-	r.Read(format[3:])
+	if _, err := io.ReadFull(r, format[3:]); err != nil {
+		return nil, err
+	}
 	p := NewPMXParser(bufio.NewReader(r))
 	p.header = &Header{Format: format}
 	return p.Parse()
diff --git a/mmd/vmd_parser.go b/mmd/vmd_parser.go
index 8e0755e..858abba 100644
--- a/mmd/vmd_parser.go
+++ b/mmd/vmd_parser.go
@@ -120,7 +120,7 @@ func (p *VMDParser) Parse() (*Animation, error) {
 	anim.Name = p.readString(20)
 
 	frames := p.readInt()
-	for i := 0; i < frames; i++ {
+	for i := 0; i < frames && p.err == nil; i++ {
 		sample := &AnimationBoneSample{}
 		sample.Target = p.readString(15)
 		sample.Frame = p.readInt()
@@ -131,7 +131,7 @@ func (p *VMDParser) Parse() (*Animation, error) {
 	}
 
 	frames = p.readInt()
-	for i := 0; i < frames; i++ {
+	for i := 0; i < frames && p.err == nil; i++ {
 		sample := &AnimationMorphSample{}
 		sample.Target = p.readString(15)
 		sample.Frame = p.readInt()
-- 
2.43.0


From 79d3db2ce74114e137d3266e2cc21acf739574c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:46 +0000
Subject: [PATCH 014/142] fix: pmx: report write errors and close the saved
 file

---
 mmd/mmd.go        |  6 +++++-
 mmd/pmx_writer.go | 35 ++++++++++++++++++++---------------
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/mmd/mmd.go b/mmd/mmd.go
index fff30b2..10018f4 100644
--- a/mmd/mmd.go
+++ b/mmd/mmd.go
@@ -244,5 +244,9 @@ func Save(doc *Document, path string) error {
 	if err != nil {
 		return err
 	}
-	return WritePMX(doc, w)
+	err = WritePMX(doc, w)
+	if cerr := w.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
diff --git a/mmd/pmx_writer.go b/mmd/pmx_writer.go
index 866da0b..f9a2908 100644
--- a/mmd/pmx_writer.go
+++ b/mmd/pmx_writer.go
@@ -7,44 +7,49 @@ import (
 )
 
 type baseWriter struct {
-	w io.Writer
+	w   io.Writer
+	err error
 }
 
+// write writes data and keeps the first error.
 func (p *baseWriter) write(v interface{}) error {
-	return binary.Write(p.w, binary.LittleEndian, v)
+	if p.err == nil {
+		p.err = binary.Write(p.w, binary.LittleEndian, v)
+	}
+	return p.err
 }
 
 func (p *baseWriter) writeUint8(v uint8) {
-	binary.Write(p.w, binary.LittleEndian, &v)
+	p.write(&v)
 }
 
 func (p *baseWriter) writeUint16(v uint16) {
-	binary.Write(p.w, binary.LittleEndian, &v)
+	p.write(&v)
 }
 
 func (p *baseWriter) writeInt(v int) {
 	vv := int32(v)
-	binary.Write(p.w, binary.LittleEndian, &vv)
+	p.write(&vv)
 }
 
 func (p *baseWriter) writeFloat(v float32) {
-	binary.Write(p.w, binary.LittleEndian, &v)
+	p.write(&v)
 }
 
 func (p *baseWriter) writeVUInt(sz byte, vv int) int {
 	if sz == 1 {
 		var v = uint8(vv)
-		binary.Write(p.w, binary.LittleEndian, &v)
+		p.write(&v)
 		return int(v)
 	}
 	if sz == 2 {
 		var v = uint16(vv)
-		binary.Write(p.w, binary.LittleEndian, &v)
+		p.write(&v)
 		return int(v)
 	}
 	if sz == 4 {
 		var v = uint32(vv)
-		binary.Write(p.w, binary.LittleEndian, &v)
+		p.write(&v)
 		return int(v)
 	}
 	return 0
@@ -53,17 +58,17 @@ func (p *baseWriter) writeVUInt(sz byte, vv int) int {
 func (p *baseWriter) writeVInt(sz byte, vv int) int {
 	if sz == 1 {
 		var v = int8(vv)
-		binary.Write(p.w, binary.LittleEndian, &v)
+		p.write(&v)
 		return int(v)
 	}
 	if sz == 2 {
 		var v = int16(vv)
-		binary.Write(p.w, binary.LittleEndian, &v)
+		p.write(&v)
 		return int(v)
 	}
 	if sz == 4 {
 		var v = int32(vv)
-		binary.Write(p.w, binary.LittleEndian, &v)
+		p.write(&v)
 		return int(v)
 	}
 	return 0
@@ -138,12 +143,12 @@ func (w *PMXWriter) Write(doc *Document) error {
 
 	w.writeInt(0)
 
-	return nil
+	return w.err
 }
 
 func (w *PMXWriter) writeText(v string) {
 	w.writeInt(len(v))
-	binary.Write(w.w, binary.LittleEndian, []byte(v))
+	w.write([]byte(v))
 }
 
 func (w *PMXWriter) writeIndex(attrTyp int, v int) {
@@ -420,5 +425,5 @@ func (w *PMXWriter) writeJoint(j *Joint) {
 
 // WritePMX writes .pmx data
 func WritePMX(doc *Document, w io.Writer) error {
-	return (&PMXWriter{baseWriter: baseWriter{w}}).Write(doc)
+	return (&PMXWriter{baseWriter: baseWriter{w: w}}).Write(doc)
 }
-- 
2.43.0


From 69b0a5ffb85596871683297c7bda7f678c0b5595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:46 +0000
Subject: [PATCH 015/142] fix: mqo: report write errors when saving

---
 mqo/mqo_writer.go | 30 +++++++++++++++++++++---------
 mqo/mqx_writer.go | 13 +++++++++----
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index 6d2b70c..9979c20 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -269,17 +269,29 @@ func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 	}
 
 	w.WriteString("Eof\n")
-	w.Flush()
+	if err := w.Flush(); err != nil {
+		return err
+	}
 
 	if mqxFile != "" && writer.Create != nil {
-		w, _ := writer.Create(mqxFile)
-		defer w.Close()
-		WriteMQX(mqo, w, filepath.Base(writer.path))
+		w, err := writer.Create(mqxFile)
+		if err != nil {
+			return err
+		}
+		return closeAfter(w, WriteMQX(mqo, w, filepath.Base(writer.path)))
 	}
 
 	return nil
 }
 
+// closeAfter closes the output and returns the first error.
+func closeAfter(w io.Closer, err error) error {
+	if cerr := w.Close(); err == nil {
+		err = cerr
+	}
+	return err
+}
+
 func SaveMQOZ(doc *Document, path string) error {
 	filename := filepath.Base(path)
 	name := filename[0 : len(filename)-len(filepath.Ext(filename))]
@@ -287,11 +299,12 @@ func SaveMQOZ(doc *Document, path string) error {
 	if err != nil {
 		return err
 	}
-	defer w.Close()
 	zw := zip.NewWriter(w)
-	defer zw.Close()
 
 	mqow, err := zw.Create(name + ".mqo")
+	if err != nil {
+		return closeAfter(w, err)
+	}
 	writer := NewWriter(path)
 	writer.Create = func(name string) (io.WriteCloser, error) {
 		w, err := zw.Create(name)
@@ -300,7 +313,7 @@ func SaveMQOZ(doc *Document, path string) error {
 			io.Closer
 		}{w, io.NopCloser(nil)}, err
 	}
-	return writer.WriteMQO(doc, mqow)
+	return closeAfter(w, closeAfter(zw, writer.WriteMQO(doc, mqow)))
 }
 
 func Save(doc *Document, path string) error {
@@ -312,6 +325,5 @@ func Save(doc *Document, path string) error {
 	if err != nil {
 		return err
 	}
-	defer w.Close()
-	return NewWriter(path).WriteMQO(doc, w)
+	return closeAfter(w, NewWriter(path).WriteMQO(doc, w))
 }
diff --git a/mqo/mqx_writer.go b/mqo/mqx_writer.go
index 2ef14ed..4de21e6 100644
--- a/mqo/mqx_writer.go
+++ b/mqo/mqx_writer.go
@@ -18,8 +18,13 @@ func WriteMQX(mqo *Document, w io.Writer, mqoName string) error {
 		p.PreSerialize(mqo)
 	}
 
-	xmlBuf, _ := xml.MarshalIndent(mqx, "", "    ")
-	w.Write([]byte(xml.Header))
-	w.Write(xmlBuf)
-	return nil
+	xmlBuf, err := xml.MarshalIndent(mqx, "", "    ")
+	if err != nil {
+		return err
+	}
+	if _, err := w.Write([]byte(xml.Header)); err != nil {
+		return err
+	}
+	_, err = w.Write(xmlBuf)
+	return err
 }
-- 
2.43.0


From 859b0efbec101e80e73bdecb2fb784d36d900abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:46 +0000
Subject: [PATCH 016/142] fix: fbx: report write errors when saving

---
 fbx/fbx.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/fbx/fbx.go b/fbx/fbx.go
index 122da9a..c2016bb 100644
--- a/fbx/fbx.go
+++ b/fbx/fbx.go
@@ -1,6 +1,7 @@
 package fbx
 
 import (
+	"bufio"
 	"fmt"
 	"io"
 	"os"
@@ -29,12 +30,15 @@ func Save(doc *Document, path string) error {
 	if err != nil {
 		return err
 	}
-	defer w.Close()
-
-	return Write(w, doc)
+	err = Write(w, doc)
+	if cerr := w.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
 
-func Write(w io.Writer, doc *Document) error {
+func Write(ww io.Writer, doc *Document) error {
+	w := bufio.NewWriter(ww)
 	fmt.Fprintln(w, "; FBX 7.5.0 project file")
 	fmt.Fprintln(w, "; Generator: https://github.com/binzume/modelconv")
 	fmt.Fprintln(w, "; -----------------------------------------------")
@@ -44,5 +48,5 @@ func Write(w io.Writer, doc *Document) error {
 			n.Dump(w, 0, true)
 		}
 	}
-	return nil
+	return w.Flush()
 }
-- 
2.43.0


From 56bd6b0c585aba9f2f8f69c1f27b3ab9c3ef94a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:40 +0000
Subject: [PATCH 017/142] fix: fbx: report truncated binary files

---
 fbx/binary_parser.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/fbx/binary_parser.go b/fbx/binary_parser.go
index 74774d1..5c115ce 100644
--- a/fbx/binary_parser.go
+++ b/fbx/binary_parser.go
@@ -135,7 +135,9 @@ func (p *binaryParser) readPropArray(typ uint8) *Attribute {
 		if p.err == nil {
 			p.err = err
 		}
-		p.r.SkipTo(next)
+		if p.err == nil {
+			p.err = p.r.SkipTo(next)
+		}
 	}
 	return &Attribute{buf}
 }
@@ -197,13 +199,12 @@ func (p *binaryParser) readNode() *Node {
 	}
 	n.Name = p.readName()
 
-	if uint64(nprop)*2 > uint64(propsz) {
-		// invalid node?
-		p.err = p.r.SkipTo(int64(next))
+	if p.err != nil || next == 0 {
 		return nil
 	}
 
-	if next == 0 {
+	if uint64(nprop)*2 > uint64(propsz) {
+		p.err = fmt.Errorf("invalid node: %q", n.Name)
 		return nil
 	}
 
@@ -214,7 +215,7 @@ func (p *binaryParser) readNode() *Node {
 
 		}
 	}
-	if p.err != nil && p.err != io.EOF {
+	if p.err != nil {
 		return nil
 	}
 
@@ -228,7 +229,7 @@ func (p *binaryParser) readNode() *Node {
 	if p.err == nil {
 		p.err = p.r.SkipTo(next)
 	}
-	if p.err != nil && p.err != io.EOF {
+	if p.err != nil {
 		return nil
 	}
 	return n
@@ -236,6 +237,9 @@ func (p *binaryParser) readNode() *Node {
 
 func (p *binaryParser) Parse() (*Node, error) {
 	magic := p.readString(21)
+	if p.err != nil {
+		return nil, p.err
+	}
 	if magic != "Kaydara FBX Binary  \x00" {
 		// try parse texy. TODO
 		if magic[0] == ';' {
@@ -250,11 +254,12 @@ func (p *binaryParser) Parse() (*Node, error) {
 
 	for p.err == nil {
 		node := p.readNode()
-		if node != nil {
-			root.AddChild(node)
+		if node == nil {
+			break // end of node list
 		}
+		root.AddChild(node)
 	}
-	if p.err != nil && p.err != io.EOF {
+	if p.err != nil {
 		return nil, p.err
 	}
 	return root, nil
-- 
2.43.0


From 33404fc9e979eca7ed0dc22b8fcc301a06134502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:41 +0000
Subject: [PATCH 018/142] fix: fbx: keep the position when skipping in a stream
 that cannot seek

---
 fbx/binary_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbx/binary_parser.go b/fbx/binary_parser.go
index 5c115ce..e275a3b 100644
--- a/fbx/binary_parser.go
+++ b/fbx/binary_parser.go
@@ -26,8 +26,8 @@ func (r *positionReader) SkipTo(pos int64) error {
 	if offset < 0 {
 		return fmt.Errorf("cannot rewind")
 	}
-	r.position = pos
 	if s, ok := r.r.(io.Seeker); ok {
+		r.position = pos
 		_, err := s.Seek(pos, 0)
 		return err
 	}
-- 
2.43.0


From 164af0a0f32a2e853a8f4dded728ed6740915939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:43 +0000
Subject: [PATCH 019/142] fix: fbx: read exponents and 64 bit integers of text
 files

---
 fbx/text_parser.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/fbx/text_parser.go b/fbx/text_parser.go
index 375ee9e..be2c3b0 100644
--- a/fbx/text_parser.go
+++ b/fbx/text_parser.go
@@ -72,7 +72,7 @@ func (p *textParser) getToken() (tokenType, string) {
 		} else if c >= '0' && c <= '9' || c == '.' || c == '-' {
 			buf := []byte{c}
 			c = p.read()
-			for (c >= '0' && c <= '9' || c == '.' || c == 'e' || c == '-') && p.err == nil {
+			for (c >= '0' && c <= '9' || c == '.' || c == 'e' || c == 'E' || c == '-' || c == '+') && p.err == nil {
 				buf = append(buf, c)
 				c = p.read()
 			}
@@ -126,7 +126,8 @@ func (p *textParser) parseArrayProp() *Attribute {
 		}
 	}
 	var dvalues []float64
-	var hasPoint bool
+	var ivalues []int64
+	var hasPoint, hasInt64 bool
 	for i := 0; i < int(size) && p.err == nil; {
 		typ, s := p.getToken()
 		if typ == EOL || typ == Comma {
@@ -134,9 +135,15 @@ func (p *textParser) parseArrayProp() *Attribute {
 		} else if typ == BlockEnd {
 			break
 		} else if typ == Number {
-			v, _ := strconv.ParseFloat(s, 64)
+			v, err := strconv.ParseFloat(s, 64)
+			if err != nil {
+				p.errorf("failed to parse num: '%v'", s)
+			}
+			i, err := strconv.ParseInt(s, 10, 64)
 			dvalues = append(dvalues, v)
-			hasPoint = hasPoint || strings.Contains(s, ".")
+			ivalues = append(ivalues, i)
+			hasPoint = hasPoint || err != nil
+			hasInt64 = hasInt64 || i != int64(int32(i))
 		} else {
 			p.errorf("Invalid token: %v", s)
 			break
@@ -148,10 +155,13 @@ func (p *textParser) parseArrayProp() *Attribute {
 	var values interface{} = dvalues
 	if !hasPoint {
 		var i32values []int32
-		for _, v := range dvalues {
+		for _, v := range ivalues {
 			i32values = append(i32values, int32(v))
 		}
 		values = i32values
+		if hasInt64 {
+			values = ivalues
+		}
 	}
 	return &Attribute{Value: values}
 }
@@ -179,7 +189,7 @@ func (p *textParser) parseNodeList() []*Node {
 					node.Children = p.parseNodeList()
 					break
 				} else if typ == Number {
-					if strings.Contains(s, ".") {
+					if strings.ContainsAny(s, ".eE") {
 						v, err := strconv.ParseFloat(s, 64)
 						if err != nil {
 							p.errorf("failed to parse float: '%v'", s)
-- 
2.43.0


From 7cca094f6bd49d727928da3589e2158a882d665c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:44 +0000
Subject: [PATCH 020/142] fix: fbx: write strings in a form that reads back
 unchanged

---
 fbx/fbx_node.go    | 2 +-
 fbx/text_parser.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/fbx/fbx_node.go b/fbx/fbx_node.go
index 5880884..98b0da5 100644
--- a/fbx/fbx_node.go
+++ b/fbx/fbx_node.go
@@ -265,7 +265,7 @@ func (p *Attribute) String() string {
 		if len(segments) == 2 {
 			segments[0], segments[1] = segments[1], segments[0]
 		}
-		return fmt.Sprintf("%q", strings.Join(segments, "::"))
+		return "\"" + textEscaper.Replace(strings.Join(segments, "::")) + "\""
 	case []byte:
 		return fmt.Sprintf("\"%v\"", v)
 	default:
diff --git a/fbx/text_parser.go b/fbx/text_parser.go
index be2c3b0..668e0c5 100644
--- a/fbx/text_parser.go
+++ b/fbx/text_parser.go
@@ -7,6 +7,9 @@ import (
 	"strings"
 )
 
+var textEscaper = strings.NewReplacer("\"", "&quot;", "\n", "&lf;", "\r", "&cr;")
+var textUnescaper = strings.NewReplacer("&quot;", "\"", "&lf;", "\n", "&cr;", "\r")
+
 type tokenType int
 
 const (
@@ -90,7 +93,7 @@ func (p *textParser) getToken() (tokenType, string) {
 				buf = append(buf, c)
 				c = p.read()
 			}
-			return String, string(buf)
+			return String, textUnescaper.Replace(string(buf))
 		} else if c >= 'A' && c <= 'z' {
 			buf := []byte{}
 			for (c >= 'A' && c <= 'z' || c >= '0' && c <= '9' || c == '-') && p.err == nil {
-- 
2.43.0


From b52cd820b31ca7c55cca9f5f689b7da30155ceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:45 +0000
Subject: [PATCH 021/142] fix: fbx: do not reorder the first bytes of text
 files

---
 fbx/text_parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbx/text_parser.go b/fbx/text_parser.go
index 668e0c5..ab1288e 100644
--- a/fbx/text_parser.go
+++ b/fbx/text_parser.go
@@ -80,7 +80,7 @@ func (p *textParser) getToken() (tokenType, string) {
 				c = p.read()
 			}
 			if p.err == nil {
-				p.buf = append(p.buf, c)
+				p.buf = append([]byte{c}, p.buf...)
 			}
 			return Number, string(buf)
 		} else if c == '\n' {
@@ -101,7 +101,7 @@ func (p *textParser) getToken() (tokenType, string) {
 				c = p.read()
 			}
 			if p.err == nil {
-				p.buf = append(p.buf, c)
+				p.buf = append([]byte{c}, p.buf...)
 			}
 			return Ident, string(buf)
 		}
-- 
2.43.0


From 546541d1c053f683490b4ab678a92aac083066d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:46 +0000
Subject: [PATCH 022/142] fix: fbx: write raw data as base64

---
 fbx/fbx_node.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fbx/fbx_node.go b/fbx/fbx_node.go
index 98b0da5..46dbbcd 100644
--- a/fbx/fbx_node.go
+++ b/fbx/fbx_node.go
@@ -1,6 +1,7 @@
 package fbx
 
 import (
+	"encoding/base64"
 	"fmt"
 	"io"
 	"reflect"
@@ -148,7 +149,7 @@ func (p AttributeList) ToVector3(x, y, z float32) *geom.Vector3 {
 
 func (p Attribute) Len() uint {
 	rv := reflect.ValueOf(p.Value)
-	if rv.Kind() == reflect.Slice {
+	if _, raw := p.Value.([]byte); !raw && rv.Kind() == reflect.Slice {
 		return uint(rv.Len())
 	}
 	return 0
@@ -267,7 +268,7 @@ func (p *Attribute) String() string {
 		}
 		return "\"" + textEscaper.Replace(strings.Join(segments, "::")) + "\""
 	case []byte:
-		return fmt.Sprintf("\"%v\"", v)
+		return "\"" + base64.StdEncoding.EncodeToString(v) + "\""
 	default:
 		return fmt.Sprint(v)
 	}
-- 
2.43.0


From 314f314c68f9d5116de3f862f75ad16ae5d44895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:47 +0000
Subject: [PATCH 023/142] fix: fbx: byte and int attributes are numbers

---
 fbx/fbx_node.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/fbx/fbx_node.go b/fbx/fbx_node.go
index 46dbbcd..8e42da5 100644
--- a/fbx/fbx_node.go
+++ b/fbx/fbx_node.go
@@ -171,6 +171,10 @@ func (p *Attribute) ToInt64(defvalue int64) int64 {
 		return int64(v)
 	} else if v, ok := p.Value.(int64); ok {
 		return int64(v)
+	} else if v, ok := p.Value.(int); ok {
+		return int64(v)
+	} else if v, ok := p.Value.(uint8); ok {
+		return int64(v)
 	}
 	return defvalue
 }
@@ -187,14 +191,10 @@ func (p *Attribute) ToFloat64(defvalue float64) float64 {
 		return float64(v)
 	} else if v, ok := p.Value.(float64); ok {
 		return float64(v)
-	} else if v, ok := p.Value.(int8); ok {
-		return float64(v)
-	} else if v, ok := p.Value.(int16); ok {
-		return float64(v)
-	} else if v, ok := p.Value.(int32); ok {
-		return float64(v)
-	} else if v, ok := p.Value.(int64); ok {
-		return float64(v)
+	}
+	switch p.Value.(type) {
+	case int8, int16, int32, int64, int, uint8:
+		return float64(p.ToInt64(0))
 	}
 	return defvalue
 }
-- 
2.43.0


From bb2551558e8a0cee0ac821073569b2f1c1b2d796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:48 +0000
Subject: [PATCH 024/142] fix: fbx: store the values of layer elements

---
 fbx/fbx_geometry.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbx/fbx_geometry.go b/fbx/fbx_geometry.go
index 9e07936..cc44e59 100644
--- a/fbx/fbx_geometry.go
+++ b/fbx/fbx_geometry.go
@@ -101,6 +101,7 @@ func (g *Geometry) GetShapes() []*GeometryShape {
 
 func (g *Geometry) setLayerElementNode(name string, typeIndex int, values []*Node) {
 	node := NewNode(name, 0)
+	node.Children = values
 	if g.AddOrReplaceChild(node) {
 		layer := g.FindChild("Layer")
 		el := NewNode("LayerElement")
@@ -125,7 +126,7 @@ func (g *Geometry) SetLayerElementUVIndexed(uv []*geom.Vector2, indices []int32,
 	for _, v := range uv {
 		floatArray = append(floatArray, v.X, v.Y)
 	}
-	g.setLayerElementNode("LayerElementNormal", 0, []*Node{
+	g.setLayerElementNode("LayerElementUV", 0, []*Node{
 		NewNode("MappingInformationType", string(mappingType)),
 		NewNode("ReferenceInformationType", "IndexToDirect"),
 		NewNode("UV", floatArray),
-- 
2.43.0


From 96adb5e528e5081fd17216bb3440ca4a760ebc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:32 +0000
Subject: [PATCH 025/142] fix: fbx: resolve object names of text and binary
 files alike

---
 converter/fbx2mqo.go |  4 ++--
 fbx/fbx_document.go  |  2 +-
 fbx/fbx_geometry.go  |  4 +---
 fbx/fbx_object.go    | 12 +++++++++++-
 4 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index 59add09..c224998 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -107,7 +107,7 @@ func (c *fbxToMqoState) convertMaterial(m *fbx.Material) *mqo.Material {
 
 func (c *fbxToMqoState) convertModel(m *fbx.Model, d int, parentTransform *geom.Matrix4) {
 	dst := c.dst
-	obj := mqo.NewObject(strings.TrimSuffix(strings.TrimPrefix(m.Name(), "Model::"), "::Model"))
+	obj := mqo.NewObject(strings.TrimSuffix(m.Name(), "::Model"))
 	dst.Objects = append(dst.Objects, obj)
 	obj.UID = len(dst.Objects)
 	obj.Depth = d
@@ -306,7 +306,7 @@ func (c *fbxToMqoState) convertDeformer(sub *fbx.Deformer, objID int) {
 		pos := c.coordMat.Mul(m.GetWorldMatrix()).ApplyTo(&geom.Vector3{})
 		b := &mqo.Bone{
 			ID:     len(c.bones) + 1,
-			Name:   strings.TrimPrefix(m.Name(), "Model::"),
+			Name:   strings.TrimSuffix(m.Name(), "::Model"),
 			Pos:    mqo.Vector3Attr{Vector3: *pos},
 			Parent: c.boneNodeMap[m.Parent],
 		}
diff --git a/fbx/fbx_document.go b/fbx/fbx_document.go
index b65a76b..63baf46 100644
--- a/fbx/fbx_document.go
+++ b/fbx/fbx_document.go
@@ -82,7 +82,7 @@ func BuildDocument(root *Node) (*Document, error) {
 		templates[node.GetString()] = &Obj{Node: node.FindChild("PropertyTemplate")}
 	}
 	doc.GlobalSettings = &Obj{Node: root.FindChild("GlobalSettings"), Template: templates["GlobalSettings"]}
-	objectByName := map[string]Object{"Scene\x00\x01Model": doc.Scene}
+	objectByName := map[string]Object{"Scene\x00\x01Model": doc.Scene, "Model::Scene": doc.Scene}
 	for _, node := range root.FindChild("Objects").GetChildren() {
 		if fbxVersion == 6100 {
 			// TODO: clone
diff --git a/fbx/fbx_geometry.go b/fbx/fbx_geometry.go
index cc44e59..258c127 100644
--- a/fbx/fbx_geometry.go
+++ b/fbx/fbx_geometry.go
@@ -1,8 +1,6 @@
 package fbx
 
 import (
-	"strings"
-
 	"github.com/binzume/modelconv/geom"
 )
 
@@ -193,7 +191,7 @@ type GeometryShape struct {
 
 func (s *GeometryShape) Name() string {
 	if len(s.Attributes) >= 3 {
-		return strings.ReplaceAll(s.Attr(1).ToString(), "\x00\x01", "::")
+		return objectName(s.Attr(1).ToString())
 	}
 	return s.GetString()
 }
diff --git a/fbx/fbx_object.go b/fbx/fbx_object.go
index c3285c0..c8016e1 100644
--- a/fbx/fbx_object.go
+++ b/fbx/fbx_object.go
@@ -50,7 +50,17 @@ func (o *Obj) ID() int64 {
 	return o.Attr(0).ToInt64(0)
 }
 func (o *Obj) Name() string {
-	return strings.ReplaceAll(o.Attr(1).ToString(), "\x00\x01", "::")
+	return objectName(o.Attr(1).ToString())
+}
+
+// objectName returns NAME::TYPE (binary: NAME\x00\x01TYPE, text: TYPE::NAME)
+func objectName(s string) string {
+	if !strings.Contains(s, "\x00\x01") {
+		if segments := strings.SplitN(s, "::", 2); len(segments) == 2 {
+			return segments[1] + "::" + segments[0]
+		}
+	}
+	return strings.ReplaceAll(s, "\x00\x01", "::")
 }
 func (o *Obj) Kind() string {
 	return o.Attr(2).ToString()
-- 
2.43.0


From f9a86ee87945b3dec55f90626da2563e5130a74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:33 +0000
Subject: [PATCH 026/142] fix: fbx: tolerate objects without complete
 properties

---
 fbx/fbx_object.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fbx/fbx_object.go b/fbx/fbx_object.go
index c8016e1..b0d815f 100644
--- a/fbx/fbx_object.go
+++ b/fbx/fbx_object.go
@@ -69,6 +69,9 @@ func (o *Obj) GetProperty(name string) *Property {
 	if o.properties == nil {
 		o.properties = map[string]*Property{}
 		for _, node := range o.FindChild("Properties70").GetChildren() {
+			if len(node.Attributes) < 4 {
+				continue
+			}
 			o.properties[node.Attr(0).ToString()] = &Property{
 				AttributeList: node.Attributes[4:],
 				Type:          node.Attr(1).ToString(),
@@ -95,6 +98,10 @@ func (o *Obj) SetProperty(name string, prop *Property) *Property {
 	}
 	attrs = append(attrs, prop.AttributeList...)
 	properties70 := o.FindChild("Properties70")
+	if properties70 == nil {
+		properties70 = NewNode("Properties70")
+		o.AddChild(properties70)
+	}
 	for _, node := range properties70.GetChildren() {
 		if node.Attr(0).ToString() == name {
 			node.Attributes = attrs
-- 
2.43.0


From f3af326b7454cfff2a8417053ac40c867e21110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:34 +0000
Subject: [PATCH 027/142] fix: fbx: connecting models builds the model tree

---
 fbx/fbx_document.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fbx/fbx_document.go b/fbx/fbx_document.go
index 63baf46..d5b40fc 100644
--- a/fbx/fbx_document.go
+++ b/fbx/fbx_document.go
@@ -156,6 +156,11 @@ func (doc *Document) AddObject(obj Object) int64 {
 
 func (doc *Document) AddConnection(parent, child Object) {
 	parent.AddRef(child)
+	if model, ok := child.(*Model); ok {
+		if p, ok := parent.(*Model); ok {
+			model.Parent = p
+		}
+	}
 	conns := doc.RawNode.FindChild("Connections")
 	conns.Children = append(conns.Children, NewNode("C", "OO", child.ID(), parent.ID()))
 }
-- 
2.43.0


From 19001aa0d891411b3ddb4ddec90d5912e26b4627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:35 +0000
Subject: [PATCH 028/142] fix: mqo: detect the code page for readers that
 return little data at once

---
 mqo/mqo_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index 34039ec..764cce6 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -335,7 +335,7 @@ func (p *Parser) readObject() *Object {
 
 func (p *Parser) detectCodePage() {
 	buf := make([]byte, 128)
-	n, _ := p.r.Read(buf)
+	n, _ := io.ReadFull(p.r, buf)
 	p.r = io.MultiReader(bytes.NewReader(buf[:n]), p.r)
 	if matched, _ := regexp.Match(`CodePage\s+utf8`, buf[:n]); !matched {
 		p.r = transform.NewReader(p.r, transform.Chain(japanese.ShiftJIS.NewDecoder(), &basckSlashReplacer{}))
-- 
2.43.0


From 86d6b709644a9449dbe6ce5064a1c6524c8e3b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:36 +0000
Subject: [PATCH 029/142] fix: mqo: report truncated files

---
 mqo/mqo_parser.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index 764cce6..9bbf3c2 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -146,6 +146,9 @@ func (p *Parser) skipBlock() {
 
 func (p *Parser) procArray(init, elem func(n int), name string) {
 	n := p.readInt()
+	if n < 0 {
+		n = 0
+	}
 	p.skip("{")
 	init(n)
 	for i := 0; i < n; i++ {
@@ -283,6 +286,9 @@ func (p *Parser) readObject() *Object {
 				var f Face
 				o.Faces[i] = &f
 				vn := p.readInt()
+				if vn < 0 {
+					vn = 0
+				}
 				p.procAttrs(map[string]func(){
 					"V": func() {
 						f.Verts = make([]int, vn)
@@ -348,6 +354,7 @@ func (p *Parser) Parse() (*Document, error) {
 
 	var doc Document
 	var mqxFile string
+	var complete bool
 	for tok := p.s.Scan(); tok != scanner.EOF; tok = p.s.Scan() {
 		if tok == scanner.Ident && p.s.TokenText() == "Material" {
 			p.procArray(func(n int) {}, func(i int) {
@@ -384,6 +391,7 @@ func (p *Parser) Parse() (*Document, error) {
 		} else if tok == scanner.Ident && p.s.TokenText() == "IncludeXml" {
 			mqxFile = p.readStr()
 		} else if tok == scanner.Ident && p.s.TokenText() == "Eof" {
+			complete = true
 			break
 		} else {
 			// log.Println(" > ", p.s.TokenText())
@@ -392,13 +400,18 @@ func (p *Parser) Parse() (*Document, error) {
 	if p.s.ErrorCount > 0 {
 		return &doc, fmt.Errorf("Parse error (count:%d)", p.s.ErrorCount)
 	}
+	if !complete {
+		return &doc, io.ErrUnexpectedEOF
+	}
 	if mqxFile != "" && p.Open != nil {
 		r, _ := p.Open(mqxFile)
 		if r != nil {
 			defer r.Close()
-			if mqx, err := ReadMQX(r); err == nil {
-				doc.Plugins = mqx.Plugins
+			mqx, err := ReadMQX(r)
+			if err != nil {
+				return &doc, err
 			}
+			doc.Plugins = mqx.Plugins
 		}
 	}
 	return &doc, nil
-- 
2.43.0


From d30112f6b7df35539c905dbedf53f8d2e2d7db6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:43 +0000
Subject: [PATCH 030/142] fix: gltf: report failed writes of GLB files

---
 cmd/modelconv/main.go  |  6 +++---
 gltfutil/gltf_utils.go | 38 ++++++++++++++++++++++++++++++++++++++
 vrm/vrm_writer.go      | 19 ++-----------------
 3 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index fd79fef..9ba2719 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -80,7 +80,7 @@ func saveGltfDocument(doc *gltf.Document, output, ext, srcDir, vrmConf string) e
 		if err != nil {
 			return err
 		}
-		return gltf.SaveBinary(doc, output)
+		return gltfutil.SaveBinary(doc, output)
 	} else if ext == ".gltf" {
 		for i, b := range doc.Buffers {
 			if b.URI == "" {
@@ -106,10 +106,10 @@ func saveGltfDocument(doc *gltf.Document, output, ext, srcDir, vrmConf string) e
 			log.Print(err)
 		}
 		if err != nil {
-			gltf.SaveBinary(doc, output) // for debug
+			gltfutil.SaveBinary(doc, output) // for debug
 			return err
 		}
-		return gltf.SaveBinary(doc, output)
+		return gltfutil.SaveBinary(doc, output)
 	}
 	return fmt.Errorf("Unsuppored output type: %v", ext)
 }
diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index fc71355..8060de6 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -1,6 +1,9 @@
 package gltfutil
 
 import (
+	"bufio"
+	"io"
+	"io/fs"
 	"io/ioutil"
 	"log"
 	"math"
@@ -18,6 +21,41 @@ func Load(path string) (*gltf.Document, error) {
 	return gltf.Open(path)
 }
 
+// SaveBinary saves doc as a GLB file.
+func SaveBinary(doc *gltf.Document, path string) error {
+	f, err := os.Create(path)
+	if err != nil {
+		return err
+	}
+	dir := filepath.Dir(path)
+	err = WriteBinary(doc, f, dir)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	return err
+}
+
+// WriteBinary writes doc as GLB to w. External buffers are stored in dir.
+func WriteBinary(doc *gltf.Document, w io.Writer, dir string) error {
+	// gltf.Encoder ignores some write errors, bufio.Writer keeps the first one.
+	bw := bufio.NewWriter(w)
+	e := gltf.NewEncoderFS(bw, &createFS{os.DirFS(dir), dir})
+	e.AsBinary = true
+	if err := e.Encode(doc); err != nil {
+		return err
+	}
+	return bw.Flush()
+}
+
+type createFS struct {
+	fs.FS
+	dir string
+}
+
+func (f *createFS) Create(name string) (io.WriteCloser, error) {
+	return os.Create(filepath.Join(f.dir, name))
+}
+
 func RemoveExtension(doc *gltf.Document, extension string) {
 	for _, n := range doc.Accessors {
 		delete(n.Extensions, extension)
diff --git a/vrm/vrm_writer.go b/vrm/vrm_writer.go
index 20f050e..6d01fb4 100644
--- a/vrm/vrm_writer.go
+++ b/vrm/vrm_writer.go
@@ -2,28 +2,13 @@ package vrm
 
 import (
 	"io"
-	"io/fs"
-	"os"
 	"path/filepath"
 
+	"github.com/binzume/modelconv/gltfutil"
 	"github.com/qmuntal/gltf"
 )
 
-type createfs struct {
-	fs.FS
-	dir string
-}
-
-func (f *createfs) Create(name string) (io.WriteCloser, error) {
-	return os.Create(f.dir + "/" + name)
-}
-
 // Write vrm file
 func Write(doc *Document, w io.Writer, path string) error {
-	e := gltf.NewEncoderFS(w, &createfs{os.DirFS(filepath.Dir(path)), path})
-	e.AsBinary = true
-	if err := e.Encode((*gltf.Document)(doc)); err != nil {
-		return err
-	}
-	return nil
+	return gltfutil.WriteBinary((*gltf.Document)(doc), w, filepath.Dir(path))
 }
-- 
2.43.0


From 18b5534630566949ea8b811da842aa9d4cc21467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:44 +0000
Subject: [PATCH 031/142] fix: gltf: report truncated buffers

---
 cmd/modelconv/utils.go |  4 ++--
 gltfutil/gltf_utils.go | 17 ++++++++++++++++-
 vrm/vrm_parser.go      |  4 ++++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/cmd/modelconv/utils.go b/cmd/modelconv/utils.go
index 2c132f2..4d260eb 100644
--- a/cmd/modelconv/utils.go
+++ b/cmd/modelconv/utils.go
@@ -9,10 +9,10 @@ import (
 
 	"github.com/binzume/modelconv/converter"
 	"github.com/binzume/modelconv/fbx"
+	"github.com/binzume/modelconv/gltfutil"
 	"github.com/binzume/modelconv/mmd"
 	"github.com/binzume/modelconv/mqo"
 	"github.com/binzume/modelconv/unity"
-	"github.com/qmuntal/gltf"
 )
 
 func loadAnimation(input string) (*mmd.Animation, error) {
@@ -32,7 +32,7 @@ func loadDocument(input string) (*mqo.Document, error) {
 	case isMQO(ext):
 		return mqo.Load(input)
 	case isGltf(ext):
-		doc, err := gltf.Open(input)
+		doc, err := gltfutil.Load(input)
 		if err != nil {
 			return nil, err
 		}
diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index 8060de6..c60ec10 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -2,6 +2,7 @@ package gltfutil
 
 import (
 	"bufio"
+	"fmt"
 	"io"
 	"io/fs"
 	"io/ioutil"
@@ -18,7 +19,21 @@ import (
 )
 
 func Load(path string) (*gltf.Document, error) {
-	return gltf.Open(path)
+	doc, err := gltf.Open(path)
+	if err != nil {
+		return nil, err
+	}
+	return doc, CheckBuffers(doc)
+}
+
+// CheckBuffers returns an error if some buffer is shorter than it should be.
+func CheckBuffers(doc *gltf.Document) error {
+	for i, b := range doc.Buffers {
+		if len(b.Data) < int(b.ByteLength) {
+			return fmt.Errorf("buffer %d is truncated: %d < %d bytes", i, len(b.Data), b.ByteLength)
+		}
+	}
+	return nil
 }
 
 // SaveBinary saves doc as a GLB file.
diff --git a/vrm/vrm_parser.go b/vrm/vrm_parser.go
index 2824185..205ebf8 100644
--- a/vrm/vrm_parser.go
+++ b/vrm/vrm_parser.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"path/filepath"
 
+	"github.com/binzume/modelconv/gltfutil"
 	"github.com/qmuntal/gltf"
 )
 
@@ -15,5 +16,8 @@ func Parse(r io.Reader, path string) (*Document, error) {
 	if err := dec.Decode(&doc); err != nil {
 		return nil, err
 	}
+	if err := gltfutil.CheckBuffers(&doc); err != nil {
+		return nil, err
+	}
 	return (*Document)(&doc), nil
 }
-- 
2.43.0


From 4765ca0c7e9f959fe8a5d08147f10661bd2d63e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:26 +0000
Subject: [PATCH 032/142] fix: vrm: parse data that arrives in small portions

---
 vrm/vrm_parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vrm/vrm_parser.go b/vrm/vrm_parser.go
index 205ebf8..61bc41b 100644
--- a/vrm/vrm_parser.go
+++ b/vrm/vrm_parser.go
@@ -1,6 +1,7 @@
 package vrm
 
 import (
+	"bytes"
 	"io"
 	"os"
 	"path/filepath"
@@ -11,8 +12,13 @@ import (
 
 // Parse vrm data
 func Parse(r io.Reader, path string) (*Document, error) {
+	// gltf.Decoder requires a reader that returns as much data as requested.
+	data, err := io.ReadAll(r)
+	if err != nil {
+		return nil, err
+	}
 	var doc gltf.Document
-	dec := gltf.NewDecoderFS(r, os.DirFS(filepath.Dir(path)))
+	dec := gltf.NewDecoderFS(bytes.NewReader(data), os.DirFS(filepath.Dir(path)))
 	if err := dec.Decode(&doc); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 9fcfc85e3d68bc48dd832ed5fa451680efe9ef7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:36 +0000
Subject: [PATCH 033/142] fix: geom: polygon corners on the edge of a clipped
 triangle

---
 geom/utils.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/geom/utils.go b/geom/utils.go
index 5d54cde..d207fdd 100644
--- a/geom/utils.go
+++ b/geom/utils.go
@@ -27,6 +27,12 @@ func IsInTriangle(p, a, b, c *Vector3) bool {
 	return c1.Dot(c2) > 0 && c2.Dot(c3) > 0 && c3.Dot(c1) > 0
 }
 
+// isOnSegment returns true if p is on the segment a-b (excluding a and b).
+func isOnSegment(p, a, b *Vector3) bool {
+	pa, pb := a.Sub(p), b.Sub(p)
+	return pa.Cross(pb).LenSqr() == 0 && pa.Dot(pb) < 0
+}
+
 func Triangulate(poly []*Vector3) [][3]int {
 	var dst [][3]int
 	if len(poly) < 3 {
@@ -60,7 +66,7 @@ func Triangulate(poly []*Vector3) [][3]int {
 				tmp = append(tmp, ii[:i]...)
 				tmp = append(tmp, ii[i+1:]...)
 				for _, i := range tmp {
-					if IsInTriangle(poly[i], v0, v1, v2) {
+					if IsInTriangle(poly[i], v0, v1, v2) || isOnSegment(poly[i], v0, v2) {
 						ok = false
 						break
 					}
-- 
2.43.0


From b871ae03beb07e7948cee106411bd3af467f1b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:17 +0000
Subject: [PATCH 034/142] fix: geom: orientation of non-convex polygons

---
 geom/utils.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/geom/utils.go b/geom/utils.go
index d207fdd..c1eda9b 100644
--- a/geom/utils.go
+++ b/geom/utils.go
@@ -42,10 +42,9 @@ func Triangulate(poly []*Vector3) [][3]int {
 	ii := make([]int, len(poly))
 	for i := range poly {
 		ii[i] = i
-		v0 := poly[(i+len(poly)-1)%len(poly)]
-		v1 := poly[i]
-		v2 := poly[(i+1)%len(poly)]
-		n = n.Add(v0.Sub(v1).Cross(v2.Sub(v1)))
+		v1 := poly[i].Sub(poly[0])
+		v2 := poly[(i+1)%len(poly)].Sub(poly[0])
+		n = n.Add(v2.Cross(v1))
 	}
 	n = n.Normalize()
 
-- 
2.43.0


From 84755545cf5de5949840c1b2f90869f8d5ef95db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:35 +0000
Subject: [PATCH 035/142] fix: geom: Euler angles of matrices close to gimbal
 lock

---
 geom/euler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geom/euler.go b/geom/euler.go
index e613db3..bdb7ab8 100644
--- a/geom/euler.go
+++ b/geom/euler.go
@@ -25,7 +25,7 @@ func NewEulerFromQuaternion(q *Quaternion, order RotationOrder) *EulerAngles {
 }
 
 func NewEulerFromMatrix4(mat *Matrix4, order RotationOrder) *EulerAngles {
-	const eps = 0.00000001
+	const eps = 0.0000003 // a few float32 ulps below 1.0
 	m11, m21, m31 := float64(mat[0]), float64(mat[1]), float64(mat[2])
 	m12, m22, m32 := float64(mat[4]), float64(mat[5]), float64(mat[6])
 	m13, m23, m33 := float64(mat[8]), float64(mat[9]), float64(mat[10])
-- 
2.43.0


From c59fe311cce194ecb4f68a7cd4e25e0c4b5bf729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:39 +0000
Subject: [PATCH 036/142] fix: mqo: world transforms of objects follow their
 ancestors

---
 mqo/mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqo/mqo.go b/mqo/mqo.go
index 9ed9d77..be8c702 100644
--- a/mqo/mqo.go
+++ b/mqo/mqo.go
@@ -51,7 +51,7 @@ func (doc *Document) GetWorldTransforms() map[*Object]*Matrix4 {
 	dt := []*Matrix4{geom.NewMatrix4()}
 
 	for _, o := range doc.Objects {
-		for len(dd) > 1 && dd[len(dd)-1] <= o.Depth {
+		for len(dd) > 1 && dd[len(dd)-1] >= o.Depth {
 			dd = dd[:len(dd)-1]
 			dt = dt[:len(dt)-1]
 		}
-- 
2.43.0


From 7e2438d4af9dc886320a946e8c62c3b202e319ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:40 +0000
Subject: [PATCH 037/142] fix: mqo: set object rotations in the order they are
 read

---
 mqo/mqo.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mqo/mqo.go b/mqo/mqo.go
index be8c702..5f9d69c 100644
--- a/mqo/mqo.go
+++ b/mqo/mqo.go
@@ -286,8 +286,7 @@ func NewObject(name string) *Object {
 }
 
 func (o *Object) SetRotation(r *geom.Quaternion) {
-	// RotationOrderYXZ?
-	o.Rotation = geom.NewEulerFromQuaternion(r, geom.RotationOrderZXY).Vector3.Scale(180 / math.Pi)
+	o.Rotation = geom.NewEulerFromQuaternion(r, geom.RotationOrderYXZ).Vector3.Scale(180 / math.Pi)
 }
 
 func (o *Object) GetRotation() *geom.Quaternion {
-- 
2.43.0


From b4153a49c38f710f57696720a6ae4ee7f942b5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:41 +0000
Subject: [PATCH 038/142] fix: mqo: keep normals at unit length when scaling

---
 mqo/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqo/utils.go b/mqo/utils.go
index 1de0fd7..52baaeb 100644
--- a/mqo/utils.go
+++ b/mqo/utils.go
@@ -21,7 +21,7 @@ func (o *Object) ApplyTransform(transform *Matrix4) {
 	for _, f := range o.Faces {
 		for i, n := range f.Normals {
 			if n != nil {
-				f.Normals[i] = normalTransform.ApplyTo(n)
+				f.Normals[i] = normalTransform.ApplyTo(n).Normalize()
 			}
 		}
 	}
-- 
2.43.0


From 4f917f87d4d9155f8bb0f956d4c4df3fdada26d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:41 +0000
Subject: [PATCH 039/142] fix: mqo: transform the local coordinates of nested
 objects once

---
 mqo/utils.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mqo/utils.go b/mqo/utils.go
index 52baaeb..b95af66 100644
--- a/mqo/utils.go
+++ b/mqo/utils.go
@@ -1,6 +1,10 @@
 package mqo
 
-import "github.com/binzume/modelconv/geom"
+import (
+	"math"
+
+	"github.com/binzume/modelconv/geom"
+)
 
 type transformable interface {
 	ApplyTransform(transform *Matrix4)
@@ -29,8 +33,13 @@ func (o *Object) ApplyTransform(transform *Matrix4) {
 
 // Transform all objects and plugins
 func (doc *Document) ApplyTransform(transform *Matrix4) {
+	rootDepth := math.MaxInt32
 	for _, o := range doc.Objects {
-		o.SetLocalTransform(transform.Mul(o.GetLocalTransform()))
+		if o.Depth <= rootDepth {
+			// descendants follow the local transform of the root
+			rootDepth = o.Depth
+			o.SetLocalTransform(transform.Mul(o.GetLocalTransform()))
+		}
 		o.ApplyTransform(transform)
 	}
 	for _, p := range doc.Plugins {
-- 
2.43.0


From 84f478797701cf45f8aab3df8563ee996babc1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:42 +0000
Subject: [PATCH 040/142] fix: mqo: transform joints together with their bodies

---
 mqo/physics_plugin.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mqo/physics_plugin.go b/mqo/physics_plugin.go
index 30ce287..b7a3df9 100644
--- a/mqo/physics_plugin.go
+++ b/mqo/physics_plugin.go
@@ -99,4 +99,8 @@ func (p *PhysicsPlugin) ApplyTransform(transform *Matrix4) {
 			s.Size.X, s.Size.Y, s.Size.Z = geom.Abs(s.Size.X*scale.X), geom.Abs(s.Size.Y*scale.Y), geom.Abs(s.Size.Z*scale.Z)
 		}
 	}
+	for _, c := range p.Constraints {
+		pos := geom.Vector3(c.Position)
+		c.Position = Vector3XmlAttr(*transform.ApplyTo(&pos))
+	}
 }
-- 
2.43.0


From 258f95b786322d69bf8dbb74d4c0b08f3f2354e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:43 +0000
Subject: [PATCH 041/142] fix: mqo: pose all descendants of a bone in any order

---
 mqo/bone_plugin.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mqo/bone_plugin.go b/mqo/bone_plugin.go
index 6871a0c..ec2cb0e 100644
--- a/mqo/bone_plugin.go
+++ b/mqo/bone_plugin.go
@@ -252,11 +252,14 @@ func (doc *Document) BoneTransform(baseBone *Bone, rot *geom.Quaternion, boneFn
 	}
 	boneFn(baseBone)
 
-	// broken if bone.Parent > bone.ID ...
-	for _, b := range bones {
-		if b.Parent > 0 && targetBones[boneByID[b.Parent]] && !targetBones[b] {
-			boneFn(b)
-			targetBones[b] = true
+	// parents may follow their children in the list
+	for n := 0; n != len(targetBones); {
+		n = len(targetBones)
+		for _, b := range bones {
+			if b.Parent > 0 && targetBones[boneByID[b.Parent]] && !targetBones[b] {
+				boneFn(b)
+				targetBones[b] = true
+			}
 		}
 	}
 
-- 
2.43.0


From 9a2669ee15ae9d61ac91972b12a144334f14f3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:44 +0000
Subject: [PATCH 042/142] fix: mqo: add up bone weights in a fixed order

---
 mqo/bone_plugin.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mqo/bone_plugin.go b/mqo/bone_plugin.go
index ec2cb0e..8138529 100644
--- a/mqo/bone_plugin.go
+++ b/mqo/bone_plugin.go
@@ -278,7 +278,10 @@ func (doc *Document) BoneTransform(baseBone *Bone, rot *geom.Quaternion, boneFn
 	}
 
 	verts := map[*Vector3]float32{}
-	for b := range targetBones {
+	for _, b := range bones {
+		if !targetBones[b] {
+			continue
+		}
 		verts[&b.Pos.Vector3] = 1
 		for _, bw := range b.Weights {
 			objectIDs := append(morphObjs[bw.ObjectID], bw.ObjectID)
-- 
2.43.0


From 859f0e247d418b7d65eca57073aed2dfbd47fb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:45 +0000
Subject: [PATCH 043/142] fix: mqo: ignore weights of missing vertices when
 posing

---
 mqo/bone_plugin.go | 5 +++--
 mqo/mqo.go         | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/mqo/bone_plugin.go b/mqo/bone_plugin.go
index 8138529..18444ee 100644
--- a/mqo/bone_plugin.go
+++ b/mqo/bone_plugin.go
@@ -292,8 +292,9 @@ func (doc *Document) BoneTransform(baseBone *Bone, rot *geom.Quaternion, boneFn
 				}
 				for _, vw := range bw.Vertexes {
 					w := vw.Weight / 100
-					v := obj.Vertexes[obj.GetVertexIndexByID(vw.VertexID)]
-					verts[v] += w
+					if vi := obj.GetVertexIndexByID(vw.VertexID); vi >= 0 {
+						verts[obj.Vertexes[vi]] += w
+					}
 				}
 			}
 		}
diff --git a/mqo/mqo.go b/mqo/mqo.go
index 5f9d69c..9743523 100644
--- a/mqo/mqo.go
+++ b/mqo/mqo.go
@@ -322,10 +322,10 @@ func (o *Object) Clone() *Object {
 }
 
 func (o *Object) GetVertexIndexByID(uid int) int {
-	if v, ok := o.VertexByUID[uid]; ok {
+	if v, ok := o.VertexByUID[uid]; ok && v >= 0 && v < len(o.Vertexes) {
 		return v
 	}
-	if len(o.Vertexes) >= uid {
+	if uid > 0 && uid <= len(o.Vertexes) {
 		return uid - 1
 	}
 	return -1
-- 
2.43.0


From 2ba12815bf63523f0868e01c2dfb6ed1a93d8fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:46 +0000
Subject: [PATCH 044/142] fix: mqo: ignore material morphs of missing materials

---
 mqo/morph_plugin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqo/morph_plugin.go b/mqo/morph_plugin.go
index d601695..dece800 100644
--- a/mqo/morph_plugin.go
+++ b/mqo/morph_plugin.go
@@ -68,7 +68,7 @@ func (p *MorphPlugin) ApplyMaterialMorph(doc *Document, name string, value float
 	for _, m := range doc.Materials {
 		if strings.HasPrefix(m.Name, morphPrefix) {
 			t := matByID[m.Name[len(morphPrefix):]]
-			if m == nil {
+			if t == nil {
 				continue
 			}
 			t.Color = *t.Color.Scale(1 - value).Add(m.Color.Scale(value))
-- 
2.43.0


From 6e86e2819ee1f4919a945b2f1f849a56da7c6c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:47 +0000
Subject: [PATCH 045/142] fix: mqo: assign unused object ids

---
 mqo/mqo.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mqo/mqo.go b/mqo/mqo.go
index 9743523..6627855 100644
--- a/mqo/mqo.go
+++ b/mqo/mqo.go
@@ -29,9 +29,18 @@ func (doc *Document) GetPlugins() []Plugin {
 }
 
 func (doc *Document) FixObjectID() {
+	used := map[int]bool{0: true}
+	for _, obj := range doc.Objects {
+		used[obj.UID] = true
+	}
 	for i, obj := range doc.Objects {
 		if obj.UID == 0 {
-			obj.UID = i + 1 // TODO: unique id
+			id := i + 1
+			for n := len(doc.Objects) + 1; used[id]; n++ {
+				id = n
+			}
+			obj.UID = id
+			used[id] = true
 		}
 	}
 }
-- 
2.43.0


From b785a71e32a1952f7cca105e72bf0a5700344b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:48 +0000
Subject: [PATCH 046/142] fix: mqo: do not rename elements whose names are
 unique

---
 mqo/mqo.go | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/mqo/mqo.go b/mqo/mqo.go
index 6627855..857305a 100644
--- a/mqo/mqo.go
+++ b/mqo/mqo.go
@@ -72,27 +72,35 @@ func (doc *Document) GetWorldTransforms() map[*Object]*Matrix4 {
 }
 
 func (doc *Document) FixNames() {
-	objNames := map[string]bool{}
+	var objNames []*string
 	for _, obj := range doc.Objects {
-		if objNames[obj.Name] {
-			n := 2
-			for objNames[fmt.Sprintf("%s_%d", obj.Name, n)] {
-				n++
-			}
-			obj.Name = fmt.Sprintf("%s_%d", obj.Name, n)
-		}
-		objNames[obj.Name] = true
+		objNames = append(objNames, &obj.Name)
 	}
-	matNames := map[string]bool{}
+	fixNames(objNames)
+	var matNames []*string
 	for _, mat := range doc.Materials {
-		if matNames[mat.Name] {
+		matNames = append(matNames, &mat.Name)
+	}
+	fixNames(matNames)
+}
+
+// fixNames renames duplicates. Generated names do not conflict with existing names.
+func fixNames(names []*string) {
+	used := map[string]bool{}
+	for _, name := range names {
+		used[*name] = true
+	}
+	seen := map[string]bool{}
+	for _, name := range names {
+		if seen[*name] {
 			n := 2
-			for matNames[fmt.Sprintf("%s_%d", mat.Name, n)] {
+			for used[fmt.Sprintf("%s_%d", *name, n)] {
 				n++
 			}
-			mat.Name = fmt.Sprintf("%s_%d", mat.Name, n)
+			*name = fmt.Sprintf("%s_%d", *name, n)
+			used[*name] = true
 		}
-		matNames[mat.Name] = true
+		seen[*name] = true
 	}
 }
 
-- 
2.43.0


From c23c3c02746b492a6dec857ee71e2dc380506310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:49 +0000
Subject: [PATCH 047/142] fix: mqo: copy all attributes of cloned objects

---
 mqo/mqo.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/mqo/mqo.go b/mqo/mqo.go
index 857305a..2823c57 100644
--- a/mqo/mqo.go
+++ b/mqo/mqo.go
@@ -330,14 +330,40 @@ func (o *Object) Clone() *Object {
 	}
 	cp.Faces = make([]*Face, len(o.Faces))
 	for i, v := range o.Faces {
-		d := &Face{Material: v.Material, Verts: make([]int, len(v.Verts)), UVs: make([]Vector2, len(v.UVs))}
+		d := &Face{UID: v.UID, Material: v.Material, Verts: make([]int, len(v.Verts)), UVs: make([]Vector2, len(v.UVs)), Normals: make([]*Vector3, len(v.Normals))}
 		copy(d.Verts, v.Verts)
 		copy(d.UVs, v.UVs)
+		for i, n := range v.Normals {
+			d.Normals[i] = cloneVector3(n)
+		}
 		cp.Faces[i] = d
 	}
+	cp.Scale = cloneVector3(o.Scale)
+	cp.Rotation = cloneVector3(o.Rotation)
+	cp.Translation = cloneVector3(o.Translation)
+	cp.Color = cloneVector3(o.Color)
+	cp.VertexByUID = map[int]int{}
+	for k, v := range o.VertexByUID {
+		cp.VertexByUID[k] = v
+	}
+	cp.Extra = map[string]interface{}{}
+	for k, v := range o.Extra {
+		cp.Extra[k] = v
+	}
+	if o.InternalTransform != nil {
+		cp.InternalTransform = o.InternalTransform.Clone()
+	}
 	return &cp
 }
 
+func cloneVector3(v *Vector3) *Vector3 {
+	if v == nil {
+		return nil
+	}
+	vv := *v
+	return &vv
+}
+
 func (o *Object) GetVertexIndexByID(uid int) int {
 	if v, ok := o.VertexByUID[uid]; ok && v >= 0 && v < len(o.Vertexes) {
 		return v
-- 
2.43.0


From 50d9a78330eb615681481366b3030819e028f21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:35 +0000
Subject: [PATCH 048/142] fix: mmd2mqo: bone weights of missing bones and of
 morphed faces

---
 converter/mmd2mqo.go | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index d447620..9897400 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -121,7 +121,7 @@ func (c *mmdToMQO) setWeight(pmx *mmd.Document, bones []*mqo.Bone, objid int, vm
 		v := pmx.Vertexes[pmv]
 		c := map[int]*mqo.VertexWeight{}
 		for bi, b := range v.Bones {
-			if v.BoneWeights[bi] > 0 {
+			if b >= 0 && b < len(bones) && v.BoneWeights[bi] > 0 {
 				if c[b] != nil {
 					c[b].Weight += 100 * v.BoneWeights[bi]
 					continue
@@ -282,19 +282,7 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 		morphTargets.Base = o.Name
 		vmap := map[int]int{}
 		c.convertFaces(pmx, faces, face2mat, o, vmap)
-		for pmv, mqv := range vmap {
-			v := pmx.Vertexes[pmv]
-			c := map[int]*mqo.VertexWeight{}
-			for bi, b := range v.Bones {
-				if v.BoneWeights[bi] > 0 {
-					if c[b] != nil {
-						c[b].Weight += v.BoneWeights[bi]
-						continue
-					}
-					c[b] = bones[b].SetVertexWeight(len(mq.Objects)+1, mqv+1, 100*v.BoneWeights[bi])
-				}
-			}
-		}
+		c.setWeight(pmx, bones, len(mq.Objects)+1, vmap)
 
 		mq.Objects = append(mq.Objects, o)
 		base := o
-- 
2.43.0


From 5055bc58dd7d4e6d3115570cfd820de6f666ebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:36 +0000
Subject: [PATCH 049/142] fix: mmd2mqo: write vertex weights in a fixed order

---
 converter/mmd2mqo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index 9897400..7e24eb2 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -117,7 +117,11 @@ func (c *mmdToMQO) convertFaces(pmx *mmd.Document, faces []int, face2mat []int,
 }
 
 func (c *mmdToMQO) setWeight(pmx *mmd.Document, bones []*mqo.Bone, objid int, vmap map[int]int) {
+	verts := make([]int, len(vmap))
 	for pmv, mqv := range vmap {
+		verts[mqv] = pmv
+	}
+	for mqv, pmv := range verts {
 		v := pmx.Vertexes[pmv]
 		c := map[int]*mqo.VertexWeight{}
 		for bi, b := range v.Bones {
-- 
2.43.0


From ac1a80edaa59068173e5c0009fee9cd5194b553a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:36 +0000
Subject: [PATCH 050/142] fix: mmd2mqo: ignore references to missing bones and
 textures

---
 converter/mmd2mqo.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index 7e24eb2..0613558 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -35,7 +35,7 @@ func (c *mmdToMQO) convertMaterial(mat *mmd.Material, model *mmd.Document) *mqo.
 	m.Ambient = 1.4
 	m.Power = mat.Specularity
 	m.DoubleSided = mat.Flags&mmd.MaterialFlagDoubleSided != 0
-	if mat.TextureID >= 0 {
+	if mat.TextureID >= 0 && mat.TextureID < len(model.Textures) {
 		m.Texture = model.Textures[mat.TextureID]
 	}
 
@@ -62,7 +62,7 @@ func (c *mmdToMQO) convertBones(pmx *mmd.Document) []*mqo.Bone {
 		}
 		if pmBone.Flags&mmd.BoneFlagInheritRotation > 0 &&
 			pmBone.InheritParentInfluence > c.InheritParentThreshold &&
-			len(pmx.Bones) > pmBone.InheritParentID {
+			pmBone.InheritParentID >= 0 && len(pmx.Bones) > pmBone.InheritParentID {
 			for _, n := range c.KnownBoneNames {
 				if n == pmx.Bones[pmBone.InheritParentID].Name {
 					mqBone.Parent = pmBone.InheritParentID + 1
@@ -82,6 +82,9 @@ func (c *mmdToMQO) convertBones(pmx *mmd.Document) []*mqo.Bone {
 			if pmBone.TailID > 0 && pmBone.TailID < len(pmx.Bones) {
 				tipName = pmx.Bones[pmBone.TailID].Name
 			}
+			if pmBone.IK.TargetID < 0 || pmBone.IK.TargetID >= len(bones) {
+				continue
+			}
 			bones[pmBone.IK.TargetID].IK = &mqo.BoneIK{
 				ChainCount: len(pmBone.IK.Links) + 1,
 				Name:       pmBone.Name,
-- 
2.43.0


From 0d879f6fd8d1e9f86bd550d2de211c71b8af775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:37 +0000
Subject: [PATCH 051/142] fix: mmd2mqo: do not move the first vertex for morphs
 of unused vertices

---
 converter/mmd2mqo.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index 0613558..f1b02d8 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -302,7 +302,11 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 			o.Visible = false
 			morphTargets.Target = append(morphTargets.Target, &mqo.MorphTarget{Name: o.Name})
 			for _, mv := range morph.Vertex {
-				v := o.Vertexes[vmap[mv.Target]]
+				mqv, ok := vmap[mv.Target]
+				if !ok {
+					continue
+				}
+				v := o.Vertexes[mqv]
 				v.X += mv.Offset.X
 				v.Y += mv.Offset.Y
 				v.Z += mv.Offset.Z * -1
@@ -315,10 +319,11 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 			}
 
 			for _, mu := range morph.UV {
-				if mu.Target < 0 {
+				mqv, ok := vmap[mu.Target]
+				if !ok {
 					continue
 				}
-				for _, fv := range vertToFV[vmap[mu.Target]] {
+				for _, fv := range vertToFV[mqv] {
 					uv := &o.Faces[fv[0]].UVs[fv[1]]
 					uv.X += mu.Value.X
 					uv.Y += mu.Value.Y
-- 
2.43.0


From b97cd0e3f330d085854ad142519030f7d01a94ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:38 +0000
Subject: [PATCH 052/142] fix: mmd2mqo: keep sizes of rigid bodies positive

---
 converter/mmd2mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index f1b02d8..b6a100c 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -372,7 +372,7 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 				Name: b.Name,
 				Shapes: []*mqo.PhysicsShape{{
 					Type:     shapeType,
-					Size:     mqo.Vector3XmlAttr(*c.convertVec3(&b.Size)),
+					Size:     mqo.Vector3XmlAttr(b.Size),
 					Position: mqo.Vector3XmlAttr(*c.convertVec3(&b.Position)),
 					Rotation: mqo.Vector3XmlAttr(b.Rotation),
 				}},
-- 
2.43.0


From 8f4c6c8f0aa1987518a26fca5485942087a905b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:35 +0000
Subject: [PATCH 053/142] fix: mmd2mqo: do not apply morphs of additional UVs
 to the base UV

---
 converter/mmd2mqo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index b6a100c..1ef865a 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -319,6 +319,9 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 			}
 
 			for _, mu := range morph.UV {
+				if morph.MorphType > 3 {
+					break // additional UVs are not supported
+				}
 				mqv, ok := vmap[mu.Target]
 				if !ok {
 					continue
-- 
2.43.0


From adcedfa839c6eebd2c6d2688f2a98f0f4d4bd8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:37 +0000
Subject: [PATCH 054/142] fix: mqo2mmd: keep the depth of morph offsets

---
 converter/mqo2mmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index ec5a9ac..bfc3704 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -98,7 +98,7 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 										p := c.convertVec3(target.Vertexes[v])
 										morphTargets[t.Name].Vertex = append(morphTargets[t.Name].Vertex, &mmd.MorphVertex{
 											Target: verts[i],
-											Offset: mmd.Vector3{X: p.X - vert.Pos.X, Y: p.Y - vert.Pos.Y},
+											Offset: mmd.Vector3{X: p.X - vert.Pos.X, Y: p.Y - vert.Pos.Y, Z: p.Z - vert.Pos.Z},
 										})
 									}
 								}
-- 
2.43.0


From da0d1785167591c7c6571adbd00c1c6dc25a7db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:38 +0000
Subject: [PATCH 055/142] fix: mqo2mmd: mirror normals like positions

---
 converter/mqo2mmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index bfc3704..e85b7ff 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -87,7 +87,7 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 						vert := &mmd.Vertex{
 							Pos:       *c.convertVec3(obj.Vertexes[v]),
 							UV:        mmd.Vector2{X: uv.X, Y: uv.Y},
-							Normal:    mmd.Vector3{X: normals[v].X, Y: normals[v].Y, Z: normals[v].Z},
+							Normal:    mmd.Vector3{X: normals[v].X, Y: normals[v].Y, Z: normals[v].Z * -1},
 							EdgeScale: 1,
 						}
 						dst.Vertexes = append(dst.Vertexes, vert)
-- 
2.43.0


From 7812cce93a809e56b6030f7e6fae85dfc8b41be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:39 +0000
Subject: [PATCH 056/142] fix: mqo2mmd: dynamic and kinematic bodies were
 swapped

---
 converter/mqo2mmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index e85b7ff..3762b83 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -207,7 +207,7 @@ func (c *mqoToMMD) convertBody(b *mqo.PhysicsBody, boneIndexByID map[int]int) []
 		if i > 0 {
 			body.Name += "_" + fmt.Sprint(i)
 		}
-		if b.Kinematic {
+		if !b.Kinematic {
 			body.Mode = 1
 		}
 		bodies = append(bodies, body)
-- 
2.43.0


From 9696368cc0d1976d0fca45ac6739cfb87318ecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:39 +0000
Subject: [PATCH 057/142] fix: mqo2mmd: keep sizes of rigid bodies positive

---
 converter/mqo2mmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index 3762b83..c553b1d 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -192,7 +192,7 @@ func (c *mqoToMMD) convertBody(b *mqo.PhysicsBody, boneIndexByID map[int]int) []
 			Name:  b.Name,
 			Shape: shapeType,
 
-			Size:           *c.convertVec3(shape.Size.Vec3()),
+			Size:           *shape.Size.Vec3().Scale(c.Scale),
 			Position:       *c.convertVec3(shape.Position.Vec3()),
 			Rotation:       mmd.Vector3(shape.Rotation),
 			Mass:           b.Mass,
-- 
2.43.0


From 6605cf4ace15d5d8a1b025cc96af8190debae3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:40 +0000
Subject: [PATCH 058/142] fix: mqo2mmd: do not refer to the first texture as
 environment map

---
 converter/mqo2mmd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index c553b1d..6394786 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -168,6 +168,7 @@ func (c *mqoToMMD) convertMaterial(m *mqo.Material, faceCount, texture int) *mmd
 		Color:       mmd.Vector4{X: m.Color.X, Y: m.Color.Y, Z: m.Color.Z, W: m.Color.W},
 		Specularity: m.Power,
 		TextureID:   texture,
+		EnvID:       -1,
 		Toon:        -1,
 		Count:       faceCount * 3,
 	}
-- 
2.43.0


From a4f8faa52b216af4a62d59e97da909f5bc61f0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:41 +0000
Subject: [PATCH 059/142] fix: mqo2mmd: references to missing bones

---
 converter/mqo2mmd.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index 6394786..f09e08c 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -25,7 +25,10 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 	}
 	for i, b := range bones {
 		if b.Parent > 0 {
-			parentID := boneIndexByID[b.Parent]
+			parentID, ok := boneIndexByID[b.Parent]
+			if !ok {
+				continue
+			}
 			dst.Bones[i].ParentID = parentID
 			dst.Bones[parentID].TailID = i
 			dst.Bones[parentID].Flags = dst.Bones[parentID].Flags | mmd.BoneFlagTailIndex
@@ -203,7 +206,10 @@ func (c *mqoToMMD) convertBody(b *mqo.PhysicsBody, boneIndexByID map[int]int) []
 			AngularDamping: b.AngularDamping,
 			Restitution:    b.Restitution,
 			Friction:       b.Friction,
-			Bone:           boneIndexByID[b.TargetBoneID],
+			Bone:           -1,
+		}
+		if bone, ok := boneIndexByID[b.TargetBoneID]; ok {
+			body.Bone = bone
 		}
 		if i > 0 {
 			body.Name += "_" + fmt.Sprint(i)
-- 
2.43.0


From 651ddfb0229de35b7f47ff14d157578ee75afad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:42 +0000
Subject: [PATCH 060/142] fix: mqo2mmd: split concave polygons correctly

---
 converter/mqo2mmd.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index f09e08c..c1c6e38 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -3,6 +3,7 @@ package converter
 import (
 	"fmt"
 
+	"github.com/binzume/modelconv/geom"
 	"github.com/binzume/modelconv/mmd"
 	"github.com/binzume/modelconv/mqo"
 )
@@ -109,9 +110,16 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 						}
 					}
 				}
-				// convex polygon only. TODO: triangulation.
-				for n := 0; n < len(verts)-2; n++ {
-					dst.Faces = append(dst.Faces, &mmd.Face{Verts: [3]int{verts[0], verts[n+1], verts[n+2]}})
+				triangles := [][3]int{{0, 1, 2}}
+				if len(verts) > 3 {
+					var poly []*mqo.Vector3
+					for _, v := range f.Verts {
+						poly = append(poly, obj.Vertexes[v])
+					}
+					triangles = geom.Triangulate(poly)
+				}
+				for _, t := range triangles {
+					dst.Faces = append(dst.Faces, &mmd.Face{Verts: [3]int{verts[t[0]], verts[t[1]], verts[t[2]]}})
 					faceCount++
 				}
 			}
-- 
2.43.0


From b817954bd08436c26da2a64c1bc246bca1739891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:45 +0000
Subject: [PATCH 061/142] fix: mqo2gltf: bones with a missing parent are roots

---
 converter/mqo2gltf.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 89ffa8b..0e1c500 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -190,8 +190,7 @@ func (m *mqoToGltf) addBoneNodes(bones []*mqo.Bone) (map[int]uint32, map[uint32]
 
 	for _, b := range bones {
 		node := m.Nodes[idmap[b.ID]]
-		if b.Parent > 0 {
-			parent := bonemap[b.Parent]
+		if parent, ok := bonemap[b.Parent]; ok && b.Parent > 0 {
 			node.Translation[0] = ((b.Pos.X - parent.Pos.X) * scale)
 			node.Translation[1] = ((b.Pos.Y - parent.Pos.Y) * scale)
 			node.Translation[2] = ((b.Pos.Z - parent.Pos.Z) * scale)
-- 
2.43.0


From bd1118e0660369ce4120bb2ac1004be8ae497a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:45 +0000
Subject: [PATCH 062/142] fix: mqo2gltf: ignore missing morph targets

---
 converter/mqo2gltf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 0e1c500..cd3341e 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -821,7 +821,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 		if m.convertMorph {
 			if morph, ok := morphBases[obj.Name]; ok {
 				for _, t := range morph.Target {
-					if len(objectByName[t.Name].Vertexes) != len(obj.Vertexes) {
+					if target := objectByName[t.Name]; target == nil || len(target.Vertexes) != len(obj.Vertexes) {
 						log.Print("unmached morph target: ", t.Name)
 						continue
 					}
-- 
2.43.0


From 0ab2c374487f7a272d9ffd688346f2bbfd5d7649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:46 +0000
Subject: [PATCH 063/142] fix: mqo2gltf: morph targets of objects without
 normals

---
 converter/mqo2gltf.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index cd3341e..f64e4ed 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -702,10 +702,13 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 			v := morphObj.Vertexes[i]
 			mv = append(mv, [3]float32{v.X*scale - vertexes[i][0], v.Y*scale - vertexes[i][1], v.Z*scale - vertexes[i][2]})
 		}
-		targets = append(targets, map[string]uint32{
+		target := map[string]uint32{
 			"POSITION": modeler.WritePosition(m.Document, mv),
-			"NORMAL":   attributes["NORMAL"], // for UniVRM. TODO
-		})
+		}
+		if normal, ok := attributes["NORMAL"]; ok {
+			target["NORMAL"] = normal // for UniVRM. TODO
+		}
+		targets = append(targets, target)
 		targetNames = append(targetNames, morphObj.Name)
 	}
 
-- 
2.43.0


From 8e4047feb6793b33b7a67afbb9046e4ceff39d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:47 +0000
Subject: [PATCH 064/142] fix: mqo2gltf: do not add skins to nodes without mesh

---
 converter/mqo2gltf.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index f64e4ed..a8bbbc3 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -848,9 +848,9 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 			if len(mesh.Primitives) > 0 {
 				node.Mesh = gltf.Index(uint32(len(m.Document.Meshes)))
 				m.Document.Meshes = append(m.Document.Meshes, mesh)
-			}
-			if len(joints) > 0 {
-				node.Skin = gltf.Index(m.addSkin(joints, jointToBone))
+				if len(joints) > 0 {
+					node.Skin = gltf.Index(m.addSkin(joints, jointToBone))
+				}
 			}
 			if m.ExportLights {
 				if lightParam, ok := obj.Extra["light"].(map[string]interface{}); ok {
-- 
2.43.0


From ce86cb2d3a3016706128834bf32f323b6a88822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:48 +0000
Subject: [PATCH 065/142] fix: mqo2gltf: parent nodes when depths are skipped

---
 converter/mqo2gltf.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index a8bbbc3..2835df2 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -819,6 +819,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 
 	var lights []map[string]interface{}
 	var nodePath []*gltf.Node
+	var nodeDepth []int
 	for i, obj := range targetObjects {
 		var morphTargets []*mqo.Object
 		if m.convertMorph {
@@ -876,8 +877,9 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 		}
 		m.Nodes[i] = node
 		// node.AddChild()
-		if len(nodePath) > obj.Depth {
-			nodePath = nodePath[:obj.Depth]
+		for len(nodePath) > 0 && nodeDepth[len(nodePath)-1] >= obj.Depth {
+			nodePath = nodePath[:len(nodePath)-1]
+			nodeDepth = nodeDepth[:len(nodePath)]
 		}
 		if !m.IgnoreObjectHierarchy && len(nodePath) > 0 {
 			parent := nodePath[len(nodePath)-1]
@@ -887,6 +889,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 		}
 		if node.MatrixOrDefault() == gltf.DefaultMatrix {
 			nodePath = append(nodePath, node)
+			nodeDepth = append(nodeDepth, obj.Depth)
 		}
 
 		// Physics
-- 
2.43.0


From 4e0854670b005bd453259386e804cd5c9b5870a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:48 +0000
Subject: [PATCH 066/142] fix: mqo2gltf: normalize weights after choosing the
 largest ones

---
 converter/mqo2gltf.go | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 2835df2..6d6c5a9 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -235,6 +235,10 @@ func (m *mqoToGltf) getWeights(bones []*mqo.Bone, obj *mqo.Object, boneIDToJoint
 			jointIds = append(jointIds, boneIDToJoint[b.ID])
 			for _, vw := range bw.Vertexes {
 				v := obj.GetVertexIndexByID(vw.VertexID)
+				if v < 0 || v >= vs {
+					log.Println("invalid weight. V:", vw.VertexID, " O:", obj.Name)
+					continue
+				}
 				jindex := njoint[v]
 				njoint[v]++
 				if jindex >= 4 {
@@ -250,28 +254,23 @@ func (m *mqoToGltf) getWeights(bones []*mqo.Bone, obj *mqo.Object, boneIDToJoint
 						continue
 					}
 				}
-				if v < 0 || v >= vs {
-					log.Fatal("invalid weight. V:", vw.VertexID, " O:", obj.Name)
-				}
 				joints[v][jindex] = uint16(len(jointIds)) - 1
 				weights[v][jindex] = vw.Weight * 0.01
 			}
-			for _, vw := range bw.Vertexes {
-				v := obj.GetVertexIndexByID(vw.VertexID)
-				if njoint[v] > 4 {
-					log.Println("WWARNING: njoint > 4. V:", vw.VertexID, " O:", obj.Name)
-					var sum float32 = 0
-					for _, w := range weights[v] {
-						sum += w
-					}
-					if sum > 0 {
-						for i := range weights[v] {
-							weights[v][i] /= sum
-						}
-					}
-				}
+		}
+	}
+	for v := range weights {
+		if njoint[v] > 4 {
+			log.Println("WWARNING: njoint > 4. V:", v, " O:", obj.Name)
+		}
+		var sum float32 = 0
+		for _, w := range weights[v] {
+			sum += w
+		}
+		if sum > 0 {
+			for i := range weights[v] {
+				weights[v][i] /= sum
 			}
-
 		}
 	}
 	return jointIds, joints, weights
-- 
2.43.0


From 724177738cf8cf7d9be67df260de4afe8b3c78be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:06 +0000
Subject: [PATCH 067/142] fix: mqo: fill in single missing normals of a face

---
 mqo/utils.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mqo/utils.go b/mqo/utils.go
index b95af66..1c672fb 100644
--- a/mqo/utils.go
+++ b/mqo/utils.go
@@ -74,15 +74,23 @@ func (obj *Object) GetSmoothNormals() []Vector3 {
 func (obj *Object) FixhNormals() {
 	var normals []Vector3
 	for _, f := range obj.Faces {
-		if len(f.Normals) == len(f.Verts) {
+		missing := len(f.Normals) != len(f.Verts)
+		for _, n := range f.Normals {
+			missing = missing || n == nil
+		}
+		if !missing {
 			continue
 		}
 		if normals == nil {
 			normals = obj.GetSmoothNormals()
 		}
-		f.Normals = make([]*Vector3, len(f.Verts))
+		if len(f.Normals) != len(f.Verts) {
+			f.Normals = make([]*Vector3, len(f.Verts))
+		}
 		for i, v := range f.Verts {
-			f.Normals[i] = &normals[v]
+			if f.Normals[i] == nil {
+				f.Normals[i] = &normals[v]
+			}
 		}
 	}
 }
-- 
2.43.0


From 77467646b1f89676ed950f11563e7c9ea6d6253f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:07 +0000
Subject: [PATCH 068/142] fix: mqo2gltf: keep different normals of faces
 sharing a vertex

---
 converter/mqo2gltf.go | 75 ++++++++++++++++++++++---------------------
 1 file changed, 38 insertions(+), 37 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 6d6c5a9..a511f58 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -30,6 +30,7 @@ import (
 )
 
 var TextureUVEpsilon float32 = 0.0001
+var NormalEpsilon float32 = 0.0001
 
 type MQOToGLTFOption struct {
 	Scale      float32 // Default: 0.001
@@ -612,47 +613,47 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 		}
 		verts := make([]int, len(f.Verts))
 		copy(verts, f.Verts)
-		if len(f.UVs) > 0 {
+		uvs := f.UVs
+		if len(uvs) > 0 {
 			useTexcood0 = true
-			bounds := uvBounds[f.Material]
-			if bounds == nil {
-				bounds = newUVRectFromPoint(f.UVs[0])
-				uvBounds[f.Material] = bounds
-			}
-
-			for i, index := range verts {
-				assigned := indicesMap[index]
-				normal := f.Normals[i]
-				if assigned != nil {
-					vi := -1
-					for _, v := range assigned {
-						if f.UVs[i].Sub(&geom.Vector2{X: texcood0[v][0], Y: texcood0[v][1]}).LenSqr() < TextureUVEpsilon {
-							verts[i] = v
-							vi = v
-						}
-					}
-					if vi >= 0 {
-						continue
-					}
-					verts[i] = len(vertexes)
-					srcIndices = append(srcIndices, index)
-					vertexes = append(vertexes, vertexes[index])
-					texcood0 = append(texcood0, [2]float32{})
-					normals = append(normals, [3]float32{})
-					if len(joints) > 0 {
-						joints0 = append(joints0, joints0[index])
-						weights0 = append(weights0, weights0[index])
-					}
-				}
-				indicesMap[index] = append(indicesMap[index], verts[i])
-				texcood0[verts[i]] = [2]float32{f.UVs[i].X, f.UVs[i].Y}
-				normal.ToArray(normals[verts[i]][:])
-				bounds.Add(f.UVs[i])
+			if uvBounds[f.Material] == nil {
+				uvBounds[f.Material] = newUVRectFromPoint(uvs[0])
+			}
+			for _, uv := range uvs {
+				uvBounds[f.Material].Add(uv)
 			}
 		} else {
-			for i, index := range verts {
-				f.Normals[i].ToArray(normals[index][:])
+			uvs = make([]geom.Vector2, len(verts))
+		}
+		for i, index := range verts {
+			assigned := indicesMap[index]
+			normal := f.Normals[i]
+			if assigned != nil {
+				vi := -1
+				for _, v := range assigned {
+					n := geom.Vector3{X: normals[v][0], Y: normals[v][1], Z: normals[v][2]}
+					if uvs[i].Sub(&geom.Vector2{X: texcood0[v][0], Y: texcood0[v][1]}).LenSqr() < TextureUVEpsilon &&
+						normal.Sub(&n).LenSqr() < NormalEpsilon {
+						verts[i] = v
+						vi = v
+					}
+				}
+				if vi >= 0 {
+					continue
+				}
+				verts[i] = len(vertexes)
+				srcIndices = append(srcIndices, index)
+				vertexes = append(vertexes, vertexes[index])
+				texcood0 = append(texcood0, [2]float32{})
+				normals = append(normals, [3]float32{})
+				if len(joints) > 0 {
+					joints0 = append(joints0, joints0[index])
+					weights0 = append(weights0, weights0[index])
+				}
 			}
+			indicesMap[index] = append(indicesMap[index], verts[i])
+			texcood0[verts[i]] = [2]float32{uvs[i].X, uvs[i].Y}
+			normal.ToArray(normals[verts[i]][:])
 		}
 		if _, exists := indices[mat]; !exists {
 			materials = append(materials, mat)
-- 
2.43.0


From 8a01962483ff10e2432841c9d9e519505eea0aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:08 +0000
Subject: [PATCH 069/142] fix: mqo2gltf: instances of shared geometry with
 different materials

---
 converter/mqo2gltf.go | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index a511f58..be408f6 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -139,10 +139,25 @@ func (c *textureCache) getImage(name string) (image.Image, error) {
 type geomCache struct {
 	count      int
 	attributes map[string]uint32
+	faces      [][]uint32
 	indices    []uint32
 	matrix     *geom.Matrix4
 }
 
+// find returns an accessor containing the same indices.
+func (c *geomCache) find(faces []uint32) (uint32, bool) {
+	for i, f := range c.faces {
+		same := len(f) == len(faces)
+		for j := 0; same && j < len(f); j++ {
+			same = f[j] == faces[j]
+		}
+		if same {
+			return c.indices[i], true
+		}
+	}
+	return 0, false
+}
+
 func NewMQOToGLTFConverter(options *MQOToGLTFOption) *mqoToGltf {
 	if options == nil {
 		options = &MQOToGLTFOption{}
@@ -688,7 +703,9 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 
 	if !partial && shared != nil && shared.attributes == nil {
 		shared.attributes = attributes
+		shared.matrix = obj.InternalTransform.Inverse()
 		for _, mat := range materials {
+			shared.faces = append(shared.faces, indices[mat])
 			shared.indices = append(shared.indices, modeler.WriteIndices(m.Document, indices[mat]))
 		}
 	}
@@ -713,12 +730,14 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 	}
 
 	var indicesAccessors []uint32
-	if !partial && shared != nil {
-		indicesAccessors = shared.indices
-	} else {
-		for _, mat := range materials {
-			indicesAccessors = append(indicesAccessors, modeler.WriteIndices(m.Document, indices[mat]))
+	for _, mat := range materials {
+		if !partial && shared != nil {
+			if acc, ok := shared.find(indices[mat]); ok {
+				indicesAccessors = append(indicesAccessors, acc)
+				continue
+			}
 		}
+		indicesAccessors = append(indicesAccessors, modeler.WriteIndices(m.Document, indices[mat]))
 	}
 
 	// make primitive for each materials
@@ -837,12 +856,9 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 		node := &gltf.Node{Name: obj.Name}
 		if obj.Visible {
 			var shared *geomCache
-			if key, ok := obj.Extra["sharedGeometryKey"].(string); m.ReuseGeometry && ok {
+			if key, ok := obj.Extra["sharedGeometryKey"].(string); m.ReuseGeometry && ok && obj.InternalTransform != nil {
 				if sharedGeoms[key] != nil && sharedGeoms[key].count > 1 {
 					shared = sharedGeoms[key]
-					if shared.matrix == nil {
-						shared.matrix = obj.InternalTransform.Inverse()
-					}
 				}
 			}
 			mesh, joints := m.ConvertObject(obj, bones, boneIDToJoint, morphTargets, materialMap, shared, uvBounds)
@@ -862,6 +878,9 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 					lights = append(lights, lightParam)
 				}
 			}
+			if len(mesh.Primitives) == 0 || shared != nil && mesh.Primitives[0].Attributes["POSITION"] != shared.attributes["POSITION"] {
+				shared = nil // not shared
+			}
 			if (m.ExportLights && obj.Extra["light"] != nil || shared != nil) && obj.InternalTransform != nil {
 				m := obj.InternalTransform.TranslationScale(m.Scale)
 				if shared != nil {
-- 
2.43.0


From 752d75dd939edcc78122c1ffb79b57ae98ed0f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:35 +0000
Subject: [PATCH 070/142] fix: mqo2gltf: scale of instances of shared geometry

---
 converter/mqo2gltf.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index be408f6..0ac8241 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -882,11 +882,11 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 				shared = nil // not shared
 			}
 			if (m.ExportLights && obj.Extra["light"] != nil || shared != nil) && obj.InternalTransform != nil {
-				m := obj.InternalTransform.TranslationScale(m.Scale)
+				mat := obj.InternalTransform
 				if shared != nil {
-					m = m.Mul(shared.matrix)
+					mat = mat.Mul(shared.matrix)
 				}
-				m.ToArray(node.Matrix[:])
+				mat.TranslationScale(m.Scale).ToArray(node.Matrix[:])
 				// workaround: avoid missing mesh issue in Windows 3D viewer?
 				node.Matrix[3] = 0
 				node.Matrix[7] = 0
-- 
2.43.0


From 227044c745993f9e0ef1f05100a70026ea6dfbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:35 +0000
Subject: [PATCH 071/142] fix: mqo2gltf: first instance of shared geometry
 without some faces

---
 converter/mqo2gltf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 0ac8241..cb7d056 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -878,7 +878,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 					lights = append(lights, lightParam)
 				}
 			}
-			if len(mesh.Primitives) == 0 || shared != nil && mesh.Primitives[0].Attributes["POSITION"] != shared.attributes["POSITION"] {
+			if len(mesh.Primitives) == 0 || shared != nil && (shared.attributes == nil || mesh.Primitives[0].Attributes["POSITION"] != shared.attributes["POSITION"]) {
 				shared = nil // not shared
 			}
 			if (m.ExportLights && obj.Extra["light"] != nil || shared != nil) && obj.InternalTransform != nil {
-- 
2.43.0


From 036eee1a9f68de9c3d137b0df5895948f2d46892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:53 +0000
Subject: [PATCH 072/142] fix: mqo2gltf: keep textures that are scaled below
 one pixel

---
 converter/mqo2gltf.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index cb7d056..3ed9a5d 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -357,7 +357,14 @@ func scaleTexture(texture string, mime string, textures *textureCache, scale flo
 	}
 
 	if scale != 1.0 {
-		dst := image.NewRGBA(image.Rect(0, 0, int(float32(rect.Dx())*scale), int(float32(rect.Dy())*scale)))
+		w, h := int(float32(rect.Dx())*scale), int(float32(rect.Dy())*scale)
+		if w < 1 {
+			w = 1
+		}
+		if h < 1 {
+			h = 1
+		}
+		dst := image.NewRGBA(image.Rect(0, 0, w, h))
 		draw.CatmullRom.Scale(dst, dst.Bounds(), img, rect, draw.Over, nil)
 		img = dst
 	}
-- 
2.43.0


From e31ffdf6267490bd7d8646cc833825b8000db8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:54 +0000
Subject: [PATCH 073/142] fix: mqo2gltf: morph targets of objects without
 vertices

---
 converter/mqo2gltf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 3ed9a5d..043adb5 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -721,6 +721,9 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 	var targets []map[string]uint32
 	var targetNames []string
 	for _, morphObj := range morphObjs {
+		if len(vertexes) == 0 {
+			break
+		}
 		var mv [][3]float32
 		for _, i := range srcIndices {
 			v := morphObj.Vertexes[i]
-- 
2.43.0


From 4b349b5678b00a1bd12673d1ad7af5d60023c9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:55 +0000
Subject: [PATCH 074/142] fix: mqo2gltf: detect alpha at the right and bottom
 edge of textures

---
 converter/mqo2gltf.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 043adb5..48653cf 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -74,14 +74,25 @@ type uvrect struct {
 }
 
 func newUVRectFromPoint(p geom.Vector2) *uvrect {
-	x := p.X - float32(math.Floor(float64(p.X)))
-	y := p.Y - float32(math.Floor(float64(p.Y)))
-	return &uvrect{y, y, x, x}
+	return &uvrect{p.Y, p.Y, p.X, p.X}
+}
+
+// bounds returns the pixels covered by the rectangle. The whole image if the texture is repeated.
+func (b *uvrect) bounds(img image.Rectangle) image.Rectangle {
+	wrap := func(from, to float32, n int) (int, int) {
+		base := math.Floor(float64(from))
+		if float64(to) > base+1 {
+			return 0, n
+		}
+		return int((float64(from) - base) * float64(n)), int(math.Ceil((float64(to) - base) * float64(n)))
+	}
+	x0, x1 := wrap(b.left, b.right, img.Dx())
+	y0, y1 := wrap(b.top, b.bottom, img.Dy())
+	return image.Rect(x0, y0, x1, y1).Add(img.Min)
 }
 
 func (b *uvrect) Add(p geom.Vector2) {
-	x := p.X - float32(math.Floor(float64(p.X)))
-	y := p.Y - float32(math.Floor(float64(p.Y)))
+	x, y := p.X, p.Y
 	if x < b.left {
 		b.left = x
 	}
@@ -323,12 +334,7 @@ func (m *mqoToGltf) hasAlpha(texture string, textures *textureCache, rect *uvrec
 		if s, ok := img.(interface {
 			SubImage(r image.Rectangle) image.Image
 		}); ok {
-			b := img.Bounds()
-			r := image.Rectangle{
-				Min: image.Point{X: int(float32(b.Dx()) * rect.left), Y: int(float32(b.Dy()) * rect.top)},
-				Max: image.Point{X: int(float32(b.Dx()) * rect.right), Y: int(float32(b.Dy()) * rect.bottom)},
-			}
-			img = s.SubImage(r)
+			img = s.SubImage(rect.bounds(img.Bounds()))
 		}
 	}
 	switch img.ColorModel() {
-- 
2.43.0


From aeb50fe73f84f00318666641e6c594e261e882c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:45 +0000
Subject: [PATCH 075/142] fix: mqo2gltf: weights of objects without vertices

---
 converter/mqo2gltf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 48653cf..0f677b3 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -709,7 +709,7 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 		}
 	}
 
-	if len(joints) > 0 {
+	if len(joints) > 0 && len(vertexes) > 0 {
 		attributes["JOINTS_0"] = modeler.WriteJoints(m.Document, joints0)
 		attributes["WEIGHTS_0"] = modeler.WriteWeights(m.Document, weights0)
 	}
-- 
2.43.0


From 3a4027c03b643dbcec07c8830ff9bfdde412e431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:25 +0000
Subject: [PATCH 076/142] fix: gltf2mqo: alpha mode and cutoff of materials

---
 converter/gltf2mqo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 837204d..8f7d588 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -35,8 +35,8 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 		ShaderType: "hlsl",
 		ShaderName: "glTF",
 		ShaderParams: map[string]interface{}{
-			"AlphaMode":   m.AlphaMode,
-			"AlphaCutoff": m.AlphaCutoffOrDefault(),
+			"AlphaMode":   int(m.AlphaMode) + mqo.AlphaModeOpaque,
+			"AlphaCutOff": m.AlphaCutoffOrDefault(),
 		},
 	}
 	if m.PBRMetallicRoughness != nil {
-- 
2.43.0


From 6c85885d1a35f6ffe2de7b6c90fee91a82d4c185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:26 +0000
Subject: [PATCH 077/142] fix: gltf2mqo: color of materials without
 pbrMetallicRoughness

---
 converter/gltf2mqo.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 8f7d588..7e067b5 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -29,6 +29,7 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 	mat := &mqo.Material{}
 	mat.Name = m.Name
 	mat.DoubleSided = m.DoubleSided
+	mat.Color = mqo.Vector4{X: 1, Y: 1, Z: 1, W: 1}
 	mat.Shader = 2
 	mat.EmissionColor = &mqo.Vector3{X: m.EmissiveFactor[0], Y: m.EmissiveFactor[1], Z: m.EmissiveFactor[2]}
 	mat.Ex2 = &mqo.MaterialEx2{
-- 
2.43.0


From 63f61ec9ce4326d9056cba4c111186a16004376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:27 +0000
Subject: [PATCH 078/142] fix: gltf2mqo: textures without source

---
 converter/gltf2mqo.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 7e067b5..5659284 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -48,7 +48,9 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 		mat.Ex2.ShaderParams["Roughness"] = m.PBRMetallicRoughness.RoughnessFactorOrDefault()
 		if m.PBRMetallicRoughness.BaseColorTexture != nil {
 			i := m.PBRMetallicRoughness.BaseColorTexture.Index
-			mat.Texture = src.Images[*src.Textures[i].Source].URI
+			if source := src.Textures[i].Source; source != nil {
+				mat.Texture = src.Images[*source].URI
+			}
 		}
 	}
 	return mat
-- 
2.43.0


From 112780d8a506f5b1363bbe94e9bcafb37066ee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:28 +0000
Subject: [PATCH 079/142] fix: gltf2mqo: vertex indices of meshes with multiple
 primitives

---
 converter/gltf2mqo.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 5659284..6f71f46 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -62,6 +62,7 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 		if p.Indices == nil {
 			continue
 		}
+		base := len(obj.Vertexes)
 		if a, ok := p.Attributes["POSITION"]; ok {
 			acr := src.Accessors[a]
 			pos, err := modeler.ReadPosition(src, acr, [][3]float32{})
@@ -94,7 +95,7 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 			mat = int(*p.Material)
 		}
 		for i := 0; i < len(indices)/3; i++ {
-			f := &mqo.Face{Material: mat, Verts: []int{int(indices[i*3]), int(indices[i*3+2]), int(indices[i*3+1])}}
+			f := &mqo.Face{Material: mat, Verts: []int{base + int(indices[i*3]), base + int(indices[i*3+2]), base + int(indices[i*3+1])}}
 			if len(texCoord) > int(indices[i*3]) {
 				f.UVs = []mqo.Vector2{
 					{X: texCoord[indices[i*3]][0], Y: texCoord[indices[i*3]][1]},
-- 
2.43.0


From a0435f6877529fdc67e825366bd953ab155dc4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:29 +0000
Subject: [PATCH 080/142] fix: gltf2mqo: return errors instead of exiting

---
 converter/gltf2mqo.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 6f71f46..a27c409 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -1,8 +1,6 @@
 package converter
 
 import (
-	"log"
-
 	"github.com/binzume/modelconv/geom"
 	"github.com/binzume/modelconv/mqo"
 	"github.com/qmuntal/gltf"
@@ -56,7 +54,7 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 	return mat
 }
 
-func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
+func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) (*mqo.Object, error) {
 	obj := mqo.NewObject(m.Name)
 	for _, p := range m.Primitives {
 		if p.Indices == nil {
@@ -67,8 +65,7 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 			acr := src.Accessors[a]
 			pos, err := modeler.ReadPosition(src, acr, [][3]float32{})
 			if err != nil {
-				log.Fatalf("err %v", err)
-				continue
+				return nil, err
 			}
 			for _, v := range pos {
 				obj.Vertexes = append(obj.Vertexes, &mqo.Vector3{X: v[0], Y: v[1], Z: v[2]})
@@ -80,15 +77,13 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 			t, err := modeler.ReadTextureCoord(src, acr, [][2]float32{})
 			texCoord = t
 			if err != nil {
-				log.Fatalf("err %v", err)
-				continue
+				return nil, err
 			}
 		}
 		acr := src.Accessors[*p.Indices]
 		indices, err := modeler.ReadIndices(src, acr, []uint32{})
 		if err != nil {
-			log.Fatalf("err %v", err)
-			continue
+			return nil, err
 		}
 		mat := 0
 		if p.Material != nil {
@@ -105,7 +100,7 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 			obj.Faces = append(obj.Faces, f)
 		}
 	}
-	return obj
+	return obj, nil
 }
 
 func (c *gltfToMqo) convertBones(src *gltf.Document, node uint32, parent int, bones []*mqo.Bone) []*mqo.Bone {
@@ -137,7 +132,11 @@ func (c *gltfToMqo) Convert(src *gltf.Document) (*mqo.Document, error) {
 
 	for _, node := range src.Nodes {
 		if node.Mesh != nil {
-			mqdoc.Objects = append(mqdoc.Objects, c.convertMesh(src, src.Meshes[*node.Mesh]))
+			obj, err := c.convertMesh(src, src.Meshes[*node.Mesh])
+			if err != nil {
+				return nil, err
+			}
+			mqdoc.Objects = append(mqdoc.Objects, obj)
 		}
 	}
 
-- 
2.43.0


From 0e12f054cbbf9710c1a1717ef1d8be4529c0a0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:29 +0000
Subject: [PATCH 081/142] fix: gltf2mqo: primitives without indices, triangle
 strips and fans

---
 converter/gltf2mqo.go | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index a27c409..4b64fcf 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -54,12 +54,42 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 	return mat
 }
 
+// triangleIndices returns the vertex indices of the triangles of p.
+func (c *gltfToMqo) triangleIndices(src *gltf.Document, p *gltf.Primitive, vertexCount int) ([]uint32, error) {
+	var indices []uint32
+	if p.Indices != nil {
+		var err error
+		if indices, err = modeler.ReadIndices(src, src.Accessors[*p.Indices], nil); err != nil {
+			return nil, err
+		}
+	} else {
+		for i := 0; i < vertexCount; i++ {
+			indices = append(indices, uint32(i))
+		}
+	}
+	var triangles []uint32
+	switch p.Mode {
+	case gltf.PrimitiveTriangles:
+		return indices, nil
+	case gltf.PrimitiveTriangleStrip:
+		for i := 2; i < len(indices); i++ {
+			if i%2 == 0 {
+				triangles = append(triangles, indices[i-2], indices[i-1], indices[i])
+			} else {
+				triangles = append(triangles, indices[i-2], indices[i], indices[i-1])
+			}
+		}
+	case gltf.PrimitiveTriangleFan:
+		for i := 2; i < len(indices); i++ {
+			triangles = append(triangles, indices[0], indices[i-1], indices[i])
+		}
+	}
+	return triangles, nil // points and lines have no faces
+}
+
 func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) (*mqo.Object, error) {
 	obj := mqo.NewObject(m.Name)
 	for _, p := range m.Primitives {
-		if p.Indices == nil {
-			continue
-		}
 		base := len(obj.Vertexes)
 		if a, ok := p.Attributes["POSITION"]; ok {
 			acr := src.Accessors[a]
@@ -80,8 +110,7 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) (*mqo.Object,
 				return nil, err
 			}
 		}
-		acr := src.Accessors[*p.Indices]
-		indices, err := modeler.ReadIndices(src, acr, []uint32{})
+		indices, err := c.triangleIndices(src, p, len(obj.Vertexes)-base)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 23e9d5e2c3146e5ddf5f5c1e6e537cc97e3f3d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:30 +0000
Subject: [PATCH 082/142] fix: gltf2mqo: apply transforms of nodes to meshes

---
 converter/gltf2mqo.go | 53 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 4 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 4b64fcf..ca1af1b 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -87,7 +87,42 @@ func (c *gltfToMqo) triangleIndices(src *gltf.Document, p *gltf.Primitive, verte
 	return triangles, nil // points and lines have no faces
 }
 
-func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) (*mqo.Object, error) {
+// worldMatrices returns the transform of each node.
+func (c *gltfToMqo) worldMatrices(src *gltf.Document) []*geom.Matrix4 {
+	matrices := make([]*geom.Matrix4, len(src.Nodes))
+	parents := make([]int, len(src.Nodes))
+	for i, node := range src.Nodes {
+		for _, child := range node.Children {
+			parents[child] = i + 1
+		}
+	}
+	var get func(i int) *geom.Matrix4
+	get = func(i int) *geom.Matrix4 {
+		if matrices[i] != nil {
+			return matrices[i]
+		}
+		node := src.Nodes[i]
+		var mat *geom.Matrix4
+		if m := node.MatrixOrDefault(); m != gltf.DefaultMatrix {
+			mat = geom.NewMatrix4FromSlice(m[:])
+		} else {
+			r, s := node.RotationOrDefault(), node.ScaleOrDefault()
+			mat = geom.NewTRSMatrix4(geom.NewVector3FromArray(node.Translation),
+				&geom.Quaternion{X: r[0], Y: r[1], Z: r[2], W: r[3]}, geom.NewVector3FromArray(s))
+		}
+		matrices[i] = mat // for invalid hierarchy
+		if parents[i] > 0 {
+			matrices[i] = get(parents[i] - 1).Mul(mat)
+		}
+		return matrices[i]
+	}
+	for i := range src.Nodes {
+		get(i)
+	}
+	return matrices
+}
+
+func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh, transform *geom.Matrix4) (*mqo.Object, error) {
 	obj := mqo.NewObject(m.Name)
 	for _, p := range m.Primitives {
 		base := len(obj.Vertexes)
@@ -98,7 +133,7 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) (*mqo.Object,
 				return nil, err
 			}
 			for _, v := range pos {
-				obj.Vertexes = append(obj.Vertexes, &mqo.Vector3{X: v[0], Y: v[1], Z: v[2]})
+				obj.Vertexes = append(obj.Vertexes, transform.ApplyTo(&mqo.Vector3{X: v[0], Y: v[1], Z: v[2]}))
 			}
 		}
 		var texCoord [][2]float32
@@ -129,6 +164,11 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) (*mqo.Object,
 			obj.Faces = append(obj.Faces, f)
 		}
 	}
+	if transform.Det() < 0 {
+		for _, f := range obj.Faces {
+			f.Flip()
+		}
+	}
 	return obj, nil
 }
 
@@ -159,9 +199,14 @@ func (c *gltfToMqo) Convert(src *gltf.Document) (*mqo.Document, error) {
 		mqdoc.Materials = append(mqdoc.Materials, c.convertMaterial(src, mat))
 	}
 
-	for _, node := range src.Nodes {
+	transforms := c.worldMatrices(src)
+	for i, node := range src.Nodes {
 		if node.Mesh != nil {
-			obj, err := c.convertMesh(src, src.Meshes[*node.Mesh])
+			transform := transforms[i]
+			if node.Skin != nil {
+				transform = geom.NewMatrix4() // the transform of skinned meshes is ignored
+			}
+			obj, err := c.convertMesh(src, src.Meshes[*node.Mesh], transform)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 15a932395a1535cbdea840d465455ed6a35b3d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 083/142] fix: gltf2mqo: positions of bones below rotated or
 scaled nodes

---
 converter/gltf2mqo.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index ca1af1b..f70eb4c 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -172,12 +172,9 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh, transform *geo
 	return obj, nil
 }
 
-func (c *gltfToMqo) convertBones(src *gltf.Document, node uint32, parent int, bones []*mqo.Bone) []*mqo.Bone {
+func (c *gltfToMqo) convertBones(src *gltf.Document, node uint32, parent int, bones []*mqo.Bone, transforms []*geom.Matrix4) []*mqo.Bone {
 	n := src.Nodes[node]
-	pos := geom.NewVector3FromArray(n.Translation)
-	if parent > 0 {
-		pos = pos.Add(&bones[parent-1].Pos.Vector3)
-	}
+	pos := transforms[node].ApplyTo(&geom.Vector3{})
 	b := &mqo.Bone{
 		ID:     len(bones) + 1,
 		Name:   n.Name,
@@ -187,7 +184,7 @@ func (c *gltfToMqo) convertBones(src *gltf.Document, node uint32, parent int, bo
 	}
 	bones = append(bones, b)
 	for _, child := range n.Children {
-		bones = c.convertBones(src, child, b.ID, bones)
+		bones = c.convertBones(src, child, b.ID, bones, transforms)
 	}
 	return bones
 }
@@ -220,7 +217,7 @@ func (c *gltfToMqo) Convert(src *gltf.Document) (*mqo.Document, error) {
 		if skin.Skeleton != nil {
 			if _, exist := bonemap[*skin.Skeleton]; !exist {
 				bonemap[*skin.Skeleton] = true
-				bones = c.convertBones(src, *skin.Skeleton, 0, bones)
+				bones = c.convertBones(src, *skin.Skeleton, 0, bones, transforms)
 			}
 		}
 	}
-- 
2.43.0


From 2cb5040072f8dea0e7adf8cbb6be6aef131d7d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:32 +0000
Subject: [PATCH 084/142] fix: gltf2mqo: bones of skins without skeleton and
 overlapping skins

---
 converter/gltf2mqo.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index f70eb4c..f3bd901 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -212,13 +212,33 @@ func (c *gltfToMqo) Convert(src *gltf.Document) (*mqo.Document, error) {
 	}
 
 	bonemap := map[uint32]bool{}
-	var bones []*mqo.Bone
+	var addBones func(node uint32)
+	addBones = func(node uint32) {
+		if !bonemap[node] {
+			bonemap[node] = true
+			for _, child := range src.Nodes[node].Children {
+				addBones(child)
+			}
+		}
+	}
 	for _, skin := range src.Skins {
 		if skin.Skeleton != nil {
-			if _, exist := bonemap[*skin.Skeleton]; !exist {
-				bonemap[*skin.Skeleton] = true
-				bones = c.convertBones(src, *skin.Skeleton, 0, bones, transforms)
-			}
+			addBones(*skin.Skeleton)
+		}
+		for _, joint := range skin.Joints {
+			addBones(joint)
+		}
+	}
+	hasParent := map[uint32]bool{}
+	for node := range bonemap {
+		for _, child := range src.Nodes[node].Children {
+			hasParent[child] = true
+		}
+	}
+	var bones []*mqo.Bone
+	for i := range src.Nodes {
+		if node := uint32(i); bonemap[node] && !hasParent[node] {
+			bones = c.convertBones(src, node, 0, bones, transforms)
 		}
 	}
 	mqo.GetBonePlugin(mqdoc).SetBones(bones)
-- 
2.43.0


From b4bfaeac568af659b2350b88c27a4ccd0b332057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:56 +0000
Subject: [PATCH 085/142] fix: gltf2mqo: metallic and roughness of materials
 without pbrMetallicRoughness

---
 converter/gltf2mqo.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index f3bd901..dd34f19 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -27,7 +27,6 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 	mat := &mqo.Material{}
 	mat.Name = m.Name
 	mat.DoubleSided = m.DoubleSided
-	mat.Color = mqo.Vector4{X: 1, Y: 1, Z: 1, W: 1}
 	mat.Shader = 2
 	mat.EmissionColor = &mqo.Vector3{X: m.EmissiveFactor[0], Y: m.EmissiveFactor[1], Z: m.EmissiveFactor[2]}
 	mat.Ex2 = &mqo.MaterialEx2{
@@ -38,17 +37,19 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 			"AlphaCutOff": m.AlphaCutoffOrDefault(),
 		},
 	}
-	if m.PBRMetallicRoughness != nil {
-		col := m.PBRMetallicRoughness.BaseColorFactorOrDefault()
-		mat.Color = mqo.Vector4{X: col[0], Y: col[1], Z: col[2], W: col[3]}
-		mat.Specular = m.PBRMetallicRoughness.MetallicFactorOrDefault()
-		mat.Ex2.ShaderParams["Metallic"] = m.PBRMetallicRoughness.MetallicFactorOrDefault()
-		mat.Ex2.ShaderParams["Roughness"] = m.PBRMetallicRoughness.RoughnessFactorOrDefault()
-		if m.PBRMetallicRoughness.BaseColorTexture != nil {
-			i := m.PBRMetallicRoughness.BaseColorTexture.Index
-			if source := src.Textures[i].Source; source != nil {
-				mat.Texture = src.Images[*source].URI
-			}
+	pbr := m.PBRMetallicRoughness
+	if pbr == nil {
+		pbr = &gltf.PBRMetallicRoughness{}
+	}
+	col := pbr.BaseColorFactorOrDefault()
+	mat.Color = mqo.Vector4{X: col[0], Y: col[1], Z: col[2], W: col[3]}
+	mat.Specular = pbr.MetallicFactorOrDefault()
+	mat.Ex2.ShaderParams["Metallic"] = pbr.MetallicFactorOrDefault()
+	mat.Ex2.ShaderParams["Roughness"] = pbr.RoughnessFactorOrDefault()
+	if pbr.BaseColorTexture != nil {
+		i := pbr.BaseColorTexture.Index
+		if source := src.Textures[i].Source; source != nil {
+			mat.Texture = src.Images[*source].URI
 		}
 	}
 	return mat
-- 
2.43.0


From f65fe4b18de29e8697eda8f33050c11f0abbe8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:29 +0000
Subject: [PATCH 086/142] fix: gltfutil: find images relative to the source
 directory

---
 gltfutil/gltf_utils.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index c60ec10..d397e7e 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -105,8 +105,7 @@ func ToSingleFile(doc *gltf.Document, srcDir string) error {
 	}
 	for _, m := range doc.Images {
 		if m.BufferView == nil && m.URI != "" {
-			path, _ := filepath.Rel(srcDir, m.URI)
-			f, err := os.Open(path)
+			f, err := os.Open(filepath.Join(srcDir, m.URI))
 			if err != nil {
 				log.Print(err)
 				continue
-- 
2.43.0


From 4367f1e4aa092d0f6cfb3fcd417411ce76b723a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:30 +0000
Subject: [PATCH 087/142] fix: gltfutil: merge buffers of documents with
 multiple buffers

---
 gltfutil/gltf_utils.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index d397e7e..7a1fb22 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -103,6 +103,22 @@ func ToSingleFile(doc *gltf.Document, srcDir string) error {
 	for _, b := range doc.Buffers {
 		b.URI = ""
 	}
+	if len(doc.Buffers) > 1 {
+		// GLB has only one binary chunk
+		offsets := make([]uint32, len(doc.Buffers))
+		merged := &gltf.Buffer{}
+		for i, b := range doc.Buffers {
+			merged.Data = append(merged.Data, make([]byte, (4-len(merged.Data)%4)%4)...)
+			offsets[i] = uint32(len(merged.Data))
+			merged.Data = append(merged.Data, b.Data...)
+		}
+		merged.ByteLength = uint32(len(merged.Data))
+		for _, v := range doc.BufferViews {
+			v.ByteOffset += offsets[v.Buffer]
+			v.Buffer = 0
+		}
+		doc.Buffers = []*gltf.Buffer{merged}
+	}
 	for _, m := range doc.Images {
 		if m.BufferView == nil && m.URI != "" {
 			f, err := os.Open(filepath.Join(srcDir, m.URI))
-- 
2.43.0


From 55bcd28f68604399dfe427e1bfaca8cb05a00cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:31 +0000
Subject: [PATCH 088/142] fix: gltfutil: apply scale to nodes, morph targets
 and bind matrices

---
 gltfutil/gltf_utils.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index 7a1fb22..fbd3316 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -150,7 +150,7 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 	if transformMat == nil {
 		return
 	}
-	scaleMat := geom.NewMatrix4().Clone()
+	scaleMat := transformMat.Clone()
 	scaleMat[12], scaleMat[13], scaleMat[14] = 0, 0, 0 // remove translate
 
 	accs := map[uint32]bool{}
@@ -213,12 +213,7 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 				for i := range skin.Joints {
 					offset := bufferView.ByteOffset + uint32(i)*64
 					mat := readMatrix(data[offset : offset+64])
-					// apply scale
-					scaleMat.Mul(geom.NewMatrix4FromSlice(mat[:])).ToArray(mat[:])
-					// normalize rotation
-					geom.NewVector3FromSlice(mat[0:3]).Normalize().ToArray(mat[0:3])
-					geom.NewVector3FromSlice(mat[4:7]).Normalize().ToArray(mat[4:7])
-					geom.NewVector3FromSlice(mat[8:11]).Normalize().ToArray(mat[8:11])
+					scaleMat.Mul(geom.NewMatrix4FromSlice(mat[:])).Mul(scaleMat.Inverse()).ToArray(mat[:])
 					writeMatrix(data[offset:offset+64], mat)
 				}
 			}
-- 
2.43.0


From 659da4aacb2ba330468d62b9a4daff584055be56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:32 +0000
Subject: [PATCH 089/142] fix: gltfutil: offset of bind matrices, skins that
 share bind matrices

---
 gltfutil/gltf_joint.go | 27 +++++++++++++++++++++++++++
 gltfutil/gltf_utils.go | 25 +++++++++----------------
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index 09258aa..694bca1 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -25,6 +25,33 @@ func writeMatrix(data []byte, mat [16]float32) {
 	}
 }
 
+// inverseBindMatrices returns the stored matrix of each joint.
+func inverseBindMatrices(doc *gltf.Document, skin *gltf.Skin) [][]byte {
+	if skin.InverseBindMatrices == nil {
+		return nil
+	}
+	accessor := doc.Accessors[*skin.InverseBindMatrices]
+	if accessor.BufferView == nil {
+		return nil
+	}
+	bufferView := doc.BufferViews[*accessor.BufferView]
+	// TODO: support sparse data.
+	data := doc.Buffers[bufferView.Buffer].Data
+	if len(data) == 0 {
+		return nil
+	}
+	stride := bufferView.ByteStride
+	if stride == 0 {
+		stride = 64
+	}
+	var matrices [][]byte
+	for i := range skin.Joints {
+		offset := bufferView.ByteOffset + accessor.ByteOffset + uint32(i)*stride
+		matrices = append(matrices, data[offset:offset+64])
+	}
+	return matrices
+}
+
 func ResetJointMatrix(doc *gltf.Document) {
 	for _, skin := range doc.Skins {
 		if skin.InverseBindMatrices != nil {
diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index fbd3316..7c4b235 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -200,23 +200,16 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 	for _, node := range doc.Nodes {
 		scaleMat.ApplyTo(geom.NewVector3FromArray(node.Translation)).ToArray(node.Translation[:])
 	}
+	ibms := map[uint32]bool{}
 	for _, skin := range doc.Skins {
-		if skin.InverseBindMatrices != nil {
-			accessor := doc.Accessors[*skin.InverseBindMatrices]
-			if accessor.BufferView != nil {
-				bufferView := doc.BufferViews[*accessor.BufferView]
-				// TODO: support sparse data.
-				data := doc.Buffers[bufferView.Buffer].Data
-				if len(data) == 0 {
-					continue
-				}
-				for i := range skin.Joints {
-					offset := bufferView.ByteOffset + uint32(i)*64
-					mat := readMatrix(data[offset : offset+64])
-					scaleMat.Mul(geom.NewMatrix4FromSlice(mat[:])).Mul(scaleMat.Inverse()).ToArray(mat[:])
-					writeMatrix(data[offset:offset+64], mat)
-				}
-			}
+		if skin.InverseBindMatrices == nil || ibms[*skin.InverseBindMatrices] {
+			continue
+		}
+		ibms[*skin.InverseBindMatrices] = true
+		for _, data := range inverseBindMatrices(doc, skin) {
+			mat := readMatrix(data)
+			scaleMat.Mul(geom.NewMatrix4FromSlice(mat[:])).Mul(scaleMat.Inverse()).ToArray(mat[:])
+			writeMatrix(data, mat)
 		}
 	}
 }
-- 
2.43.0


From 6dcc45cfbac5c232a795bd488386486a02466d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:33 +0000
Subject: [PATCH 090/142] fix: gltfutil: apply scale to nodes with matrix

---
 gltfutil/gltf_utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index 7c4b235..7726d21 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -198,6 +198,9 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 		}
 	}
 	for _, node := range doc.Nodes {
+		if node.MatrixOrDefault() != gltf.DefaultMatrix {
+			scaleMat.Mul(geom.NewMatrix4FromSlice(node.Matrix[:])).Mul(scaleMat.Inverse()).ToArray(node.Matrix[:])
+		}
 		scaleMat.ApplyTo(geom.NewVector3FromArray(node.Translation)).ToArray(node.Translation[:])
 	}
 	ibms := map[uint32]bool{}
-- 
2.43.0


From 6bdcecaf4afd15affa62bf1a16a4e6ccc6e0a190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:34 +0000
Subject: [PATCH 091/142] fix: gltfutil: apply scale to animated translations

---
 gltfutil/gltf_utils.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index 7726d21..a3a9e18 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -166,6 +166,15 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 			}
 		}
 	}
+	for _, animation := range doc.Animations {
+		for _, channel := range animation.Channels {
+			if channel.Target.Path == gltf.TRSTranslation && channel.Sampler != nil {
+				if a := animation.Samplers[*channel.Sampler].Output; a != nil {
+					accs[*a] = true
+				}
+			}
+		}
+	}
 	for a, diff := range accs {
 		acr := doc.Accessors[a]
 		pos, err := modeler.ReadPosition(doc, acr, [][3]float32{})
-- 
2.43.0


From 56346c9ed833189a91b321614ad1783b7ad1224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:36 +0000
Subject: [PATCH 092/142] fix: gltfutil: apply scale to sparse accessors and
 accessors without buffer view

---
 gltfutil/gltf_utils.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index a3a9e18..35ba378 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -146,6 +146,14 @@ func ToSingleFile(doc *gltf.Document, srcDir string) error {
 	return nil
 }
 
+// replaceAccessorData stores data in a new buffer view.
+func replaceAccessorData(doc *gltf.Document, acr *gltf.Accessor, data interface{}) {
+	count := len(doc.Accessors)
+	a := doc.Accessors[modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, data)]
+	doc.Accessors = doc.Accessors[:count]
+	acr.BufferView, acr.ByteOffset, acr.ComponentType, acr.Sparse = a.BufferView, 0, a.ComponentType, nil
+}
+
 func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 	if transformMat == nil {
 		return
@@ -175,16 +183,16 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 			}
 		}
 	}
-	for a, diff := range accs {
-		acr := doc.Accessors[a]
+	for a, acr := range doc.Accessors {
+		diff, ok := accs[uint32(a)]
+		if !ok || acr.BufferView == nil && acr.Sparse == nil {
+			continue
+		}
 		pos, err := modeler.ReadPosition(doc, acr, [][3]float32{})
 		if err != nil {
 			log.Fatalf("err %v", err)
 			continue
 		}
-		if acr.Sparse != nil {
-			log.Fatal("TODO: support sparsed accessor")
-		}
 
 		acr.Min = []float32{math.MaxFloat32, math.MaxFloat32, math.MaxFloat32}
 		acr.Max = []float32{-math.MaxFloat32, -math.MaxFloat32, -math.MaxFloat32}
@@ -199,6 +207,10 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 				acr.Max[t] = float32(math.Max(float64(acr.Max[t]), float64(v)))
 			}
 		}
+		if acr.Sparse != nil {
+			replaceAccessorData(doc, acr, pos)
+			continue
+		}
 		bufferView := doc.BufferViews[*acr.BufferView]
 		buffer := doc.Buffers[bufferView.Buffer]
 		err = binary.Write(buffer.Data[bufferView.ByteOffset+acr.ByteOffset:], bufferView.ByteStride, pos)
-- 
2.43.0


From cef9f66cdd9393ba1f6ac9728f59bd8d9316537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:37 +0000
Subject: [PATCH 093/142] fix: gltfutil: convert joint indices in shared buffer
 views

---
 gltfutil/gltf_joint.go | 36 +++++++++---------------------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index 694bca1..becca5d 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/binzume/modelconv/geom"
 	"github.com/qmuntal/gltf"
+	"github.com/qmuntal/gltf/modeler"
 )
 
 type Quaternion = geom.Vector4
@@ -119,35 +120,16 @@ func ResetJointMatrix(doc *gltf.Document) {
 }
 
 func FixJointComponentType(doc *gltf.Document) {
-	fixedbuffer := map[uint32]bool{}
 	for _, mesh := range doc.Meshes {
 		for _, primitiv := range mesh.Primitives {
-			for k, attr := range primitiv.Attributes {
-				accessor := doc.Accessors[attr]
-				if k == "JOINTS_0" && doc.Accessors[attr].ComponentType == 2 { // byte
-					bufferView := doc.BufferViews[*accessor.BufferView]
-					buffer := doc.Buffers[bufferView.Buffer]
-
-					accessor.ComponentType = 4
-					if fixedbuffer[*accessor.BufferView] {
-						continue
-					}
-					fixedbuffer[*accessor.BufferView] = true
-
-					// byte to uint16
-					src := buffer.Data[bufferView.ByteOffset : bufferView.ByteOffset+bufferView.ByteLength]
-					dst := make([]byte, bufferView.ByteLength*2)
-					for i, b := range src {
-						binary.LittleEndian.PutUint16(dst[i*2:i*2+2], uint16(b))
-					}
-
-					bufferView.ByteLength *= 2
-					bufferView.ByteStride *= 2
-					bufferView.ByteOffset = uint32(len(buffer.Data))
-
-					buffer.Data = append(buffer.Data, dst...)
-					buffer.ByteLength += uint32(len(dst))
-				}
+			attr, ok := primitiv.Attributes["JOINTS_0"]
+			if !ok || doc.Accessors[attr].ComponentType != gltf.ComponentUbyte {
+				continue
+			}
+			// byte to uint16 (the buffer view may contain other data)
+			joints, err := modeler.ReadJoints(doc, doc.Accessors[attr], nil)
+			if err == nil && len(joints) > 0 {
+				replaceAccessorData(doc, doc.Accessors[attr], joints)
 			}
 		}
 	}
-- 
2.43.0


From b629edf055c45ee61540c45b6b105715ff8878ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:10 +0000
Subject: [PATCH 094/142] fix: gltfutil: keep meshes in place when joint
 rotations are reset

---
 converter/gltf2mqo.go  |  38 +--------
 gltfutil/gltf_joint.go | 172 ++++++++++++++++++++++++++++-------------
 2 files changed, 120 insertions(+), 90 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index dd34f19..f8e7a4c 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -2,6 +2,7 @@ package converter
 
 import (
 	"github.com/binzume/modelconv/geom"
+	"github.com/binzume/modelconv/gltfutil"
 	"github.com/binzume/modelconv/mqo"
 	"github.com/qmuntal/gltf"
 	"github.com/qmuntal/gltf/modeler"
@@ -88,41 +89,6 @@ func (c *gltfToMqo) triangleIndices(src *gltf.Document, p *gltf.Primitive, verte
 	return triangles, nil // points and lines have no faces
 }
 
-// worldMatrices returns the transform of each node.
-func (c *gltfToMqo) worldMatrices(src *gltf.Document) []*geom.Matrix4 {
-	matrices := make([]*geom.Matrix4, len(src.Nodes))
-	parents := make([]int, len(src.Nodes))
-	for i, node := range src.Nodes {
-		for _, child := range node.Children {
-			parents[child] = i + 1
-		}
-	}
-	var get func(i int) *geom.Matrix4
-	get = func(i int) *geom.Matrix4 {
-		if matrices[i] != nil {
-			return matrices[i]
-		}
-		node := src.Nodes[i]
-		var mat *geom.Matrix4
-		if m := node.MatrixOrDefault(); m != gltf.DefaultMatrix {
-			mat = geom.NewMatrix4FromSlice(m[:])
-		} else {
-			r, s := node.RotationOrDefault(), node.ScaleOrDefault()
-			mat = geom.NewTRSMatrix4(geom.NewVector3FromArray(node.Translation),
-				&geom.Quaternion{X: r[0], Y: r[1], Z: r[2], W: r[3]}, geom.NewVector3FromArray(s))
-		}
-		matrices[i] = mat // for invalid hierarchy
-		if parents[i] > 0 {
-			matrices[i] = get(parents[i] - 1).Mul(mat)
-		}
-		return matrices[i]
-	}
-	for i := range src.Nodes {
-		get(i)
-	}
-	return matrices
-}
-
 func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh, transform *geom.Matrix4) (*mqo.Object, error) {
 	obj := mqo.NewObject(m.Name)
 	for _, p := range m.Primitives {
@@ -197,7 +163,7 @@ func (c *gltfToMqo) Convert(src *gltf.Document) (*mqo.Document, error) {
 		mqdoc.Materials = append(mqdoc.Materials, c.convertMaterial(src, mat))
 	}
 
-	transforms := c.worldMatrices(src)
+	transforms := gltfutil.WorldMatrices(src)
 	for i, node := range src.Nodes {
 		if node.Mesh != nil {
 			transform := transforms[i]
diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index becca5d..f9cdc45 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -53,70 +53,134 @@ func inverseBindMatrices(doc *gltf.Document, skin *gltf.Skin) [][]byte {
 	return matrices
 }
 
+// WorldMatrices returns the transform of each node.
+func WorldMatrices(doc *gltf.Document) []*geom.Matrix4 {
+	matrices := make([]*geom.Matrix4, len(doc.Nodes))
+	parents := make([]int, len(doc.Nodes))
+	for i, node := range doc.Nodes {
+		for _, child := range node.Children {
+			parents[child] = i + 1
+		}
+	}
+	var get func(i int) *geom.Matrix4
+	get = func(i int) *geom.Matrix4 {
+		if matrices[i] != nil {
+			return matrices[i]
+		}
+		node := doc.Nodes[i]
+		var mat *geom.Matrix4
+		if m := node.MatrixOrDefault(); m != gltf.DefaultMatrix {
+			mat = geom.NewMatrix4FromSlice(m[:])
+		} else {
+			r, s := node.RotationOrDefault(), node.ScaleOrDefault()
+			mat = geom.NewTRSMatrix4(geom.NewVector3FromArray(node.Translation),
+				&geom.Quaternion{X: r[0], Y: r[1], Z: r[2], W: r[3]}, geom.NewVector3FromArray(s))
+		}
+		matrices[i] = mat // for invalid hierarchy
+		if parents[i] > 0 {
+			matrices[i] = get(parents[i] - 1).Mul(mat)
+		}
+		return matrices[i]
+	}
+	for i := range doc.Nodes {
+		get(i)
+	}
+	return matrices
+}
+
+// ResetJointMatrix removes rotations of nodes without mesh. Nothing moves in the current pose.
 func ResetJointMatrix(doc *gltf.Document) {
-	for _, skin := range doc.Skins {
-		if skin.InverseBindMatrices != nil {
-			accessor := doc.Accessors[*skin.InverseBindMatrices]
-			if accessor.BufferView != nil {
-				bufferView := doc.BufferViews[*accessor.BufferView]
-				// TODO: support sparse data.
-				data := doc.Buffers[bufferView.Buffer].Data
-				if len(data) == 0 {
-					continue
-				}
-				for i := range skin.Joints {
-					// fix inverseBindMatrix
-					offset := bufferView.ByteOffset + uint32(i)*64
-					mat := readMatrix(data[offset : offset+64])
-
-					x := mat[0]*mat[12] + mat[1]*mat[13] + mat[2]*mat[14]
-					y := mat[4]*mat[12] + mat[5]*mat[13] + mat[6]*mat[14]
-					z := mat[8]*mat[12] + mat[9]*mat[13] + mat[10]*mat[14]
-					writeMatrix(data[offset:offset+64], [16]float32{
-						1, 0, 0, 0,
-						0, 1, 0, 0,
-						0, 0, 1, 0,
-						x, y, z, 1,
-					})
-				}
-			}
+	before := WorldMatrices(doc)
+
+	hasParent := map[uint32]bool{}
+	for _, node := range doc.Nodes {
+		for _, c := range node.Children {
+			hasParent[c] = true
+		}
+	}
+	for i := range doc.Nodes {
+		if !hasParent[uint32(i)] {
+			resetRotation(doc, uint32(i))
 		}
 	}
 
-	// TODO: check node dependency
-	for i := 0; i < 10; i++ {
-		fixed := 0
-		for _, node := range doc.Nodes {
-			if node.Rotation == [4]float32{0, 0, 0, 1} || node.Skin != nil {
+	after := WorldMatrices(doc)
+	fixed := map[uint32]bool{}
+	for _, skin := range doc.Skins {
+		if skin.InverseBindMatrices == nil {
+			moved := false
+			for _, joint := range skin.Joints {
+				moved = moved || *before[joint] != *after[joint]
+			}
+			if !moved {
 				continue
 			}
-			fixed++
-			a := Quaternion{X: node.Rotation[0], Y: node.Rotation[1], Z: node.Rotation[2], W: node.Rotation[3]}
-			node.Rotation = [4]float32{0, 0, 0, 1}
-			for _, c := range node.Children {
-				child := doc.Nodes[c]
-
-				pos := child.Translation
-				p := Quaternion{X: pos[0], Y: pos[1], Z: pos[2], W: 1}
-				p2 := a.Mul(&p).Mul(a.Inverse()) // p2 = a * p * ~a
-
-				child.Translation[0] = p2.X
-				child.Translation[1] = p2.Y
-				child.Translation[2] = p2.Z
-
-				rot := child.Rotation
-				b := Quaternion{X: rot[0], Y: rot[1], Z: rot[2], W: rot[3]}
-				q := a.Mul(&b)
-				child.Rotation[0] = q.X
-				child.Rotation[1] = q.Y
-				child.Rotation[2] = q.Z
-				child.Rotation[3] = q.W
+			a := modeler.WriteAccessor(doc, gltf.TargetNone, make([][4][4]float32, len(skin.Joints)))
+			skin.InverseBindMatrices = gltf.Index(a)
+			for _, data := range inverseBindMatrices(doc, skin) {
+				writeMatrix(data, gltf.DefaultMatrix)
 			}
 		}
-		if fixed == 0 {
-			break
+		if fixed[*skin.InverseBindMatrices] {
+			continue
 		}
+		fixed[*skin.InverseBindMatrices] = true
+		for i, data := range inverseBindMatrices(doc, skin) {
+			joint := skin.Joints[i]
+			mat := readMatrix(data)
+			after[joint].Inverse().Mul(before[joint]).Mul(geom.NewMatrix4FromSlice(mat[:])).ToArray(mat[:])
+			writeMatrix(data, mat)
+		}
+	}
+}
+
+// resetRotation moves the rotation of the node to its children.
+func resetRotation(doc *gltf.Document, n uint32) {
+	node := doc.Nodes[n]
+	if node.Mesh == nil {
+		decomposeMatrix(node)
+	}
+	a := Quaternion{X: node.Rotation[0], Y: node.Rotation[1], Z: node.Rotation[2], W: node.Rotation[3]}
+	reset := node.Mesh == nil && node.RotationOrDefault() != gltf.DefaultRotation
+	if reset {
+		node.Rotation = gltf.DefaultRotation
+	}
+	for _, c := range node.Children {
+		if reset {
+			child := doc.Nodes[c]
+			decomposeMatrix(child)
+
+			pos := child.Translation
+			p := Quaternion{X: pos[0], Y: pos[1], Z: pos[2], W: 0}
+			p2 := a.Mul(&p).Mul(a.Inverse()) // p2 = a * p * ~a
+
+			child.Translation[0] = p2.X
+			child.Translation[1] = p2.Y
+			child.Translation[2] = p2.Z
+
+			rot := child.RotationOrDefault()
+			b := Quaternion{X: rot[0], Y: rot[1], Z: rot[2], W: rot[3]}
+			q := a.Mul(&b)
+			child.Rotation[0] = q.X
+			child.Rotation[1] = q.Y
+			child.Rotation[2] = q.Z
+			child.Rotation[3] = q.W
+		}
+		resetRotation(doc, c)
+	}
+}
+
+// decomposeMatrix replaces the matrix of the node by translation, rotation and scale.
+func decomposeMatrix(node *gltf.Node) {
+	mat := node.MatrixOrDefault()
+	if mat == gltf.DefaultMatrix {
+		return
 	}
+	t, r, s := geom.NewMatrix4FromSlice(mat[:]).Decompose()
+	t.ToArray(node.Translation[:])
+	node.Rotation = [4]float32{r.X, r.Y, r.Z, r.W}
+	s.ToArray(node.Scale[:])
+	node.Matrix = gltf.DefaultMatrix
 }
 
 func FixJointComponentType(doc *gltf.Document) {
-- 
2.43.0


From c48ee57d1dfcda2ff01e8c74a3dafd9ab652230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:26 +0000
Subject: [PATCH 095/142] fix: fbx2mqo: face direction of mirrored models

---
 converter/fbx2mqo.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index c224998..238aa65 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -222,6 +222,7 @@ func (c *fbxToMqoState) convertGeometry(g *fbx.Geometry, obj *mqo.Object, transf
 	rs[12], rs[13], rs[14] = 0, 0, 0
 	normalTransform := rs.Inverse().Transposed()
 
+	mirrored := transform.Det() < 0
 	vcount := 0
 	for i, f := range g.Polygons {
 		face := &mqo.Face{}
@@ -255,7 +256,9 @@ func (c *fbxToMqoState) convertGeometry(g *fbx.Geometry, obj *mqo.Object, transf
 			}
 		}
 		vcount += len(f)
-		face.Flip()
+		if !mirrored {
+			face.Flip()
+		}
 		obj.Faces = append(obj.Faces, face)
 	}
 
-- 
2.43.0


From 7a021ca238aac111b988563298b8663f1fd50206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:27 +0000
Subject: [PATCH 096/142] fix: fbx2mqo: bone weights are percentages

---
 converter/fbx2mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index 238aa65..f8fee22 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -322,7 +322,7 @@ func (c *fbxToMqoState) convertDeformer(sub *fbx.Deformer, objID int) {
 	indexes := sub.GetIndexes()
 	if len(weights) == len(indexes) {
 		for i := range indexes {
-			bone.SetVertexWeight(objID, int(indexes[i])+1, weights[i])
+			bone.SetVertexWeight(objID, int(indexes[i])+1, weights[i]*100)
 		}
 	} else {
 		log.Println("ERR: Deformer weights ", len(weights), len(indexes))
-- 
2.43.0


From 63989c33304827b8c676c3e5cb0cd10cc0febbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:28 +0000
Subject: [PATCH 097/142] fix: fbx2mqo: meshes attached to limb nodes

---
 converter/fbx2mqo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index f8fee22..81171be 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -77,7 +77,7 @@ func (c *fbxToMqoState) convert() {
 		return
 	}
 	for _, m := range c.src.Scene.GetChildModels() {
-		if c.ConvertWholeNode || (m.Kind() != "LimbNode" && hasGeometryNode(m)) {
+		if c.ConvertWholeNode || hasGeometryNode(m) {
 			c.convertModel(m, c.ObjectDepth, transform)
 		}
 	}
@@ -167,7 +167,7 @@ func (c *fbxToMqoState) convertModel(m *fbx.Model, d int, parentTransform *geom.
 		}
 	}
 	for _, m := range m.GetChildModels() {
-		if c.ConvertWholeNode || m.Kind() != "LimbNode" {
+		if c.ConvertWholeNode || m.Kind() != "LimbNode" || hasGeometryNode(m) {
 			c.convertModel(m, d+1, transform)
 		}
 	}
-- 
2.43.0


From a534bc5d88f695b84721214fa35ce77f1fcc5c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:29 +0000
Subject: [PATCH 098/142] fix: fbx: find textures of materials by connected
 property

---
 fbx/fbx_document.go |  8 ++++++--
 fbx/fbx_material.go | 12 ++++++++----
 fbx/fbx_object.go   | 11 +++++++++++
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/fbx/fbx_document.go b/fbx/fbx_document.go
index d5b40fc..79874ab 100644
--- a/fbx/fbx_document.go
+++ b/fbx/fbx_document.go
@@ -125,7 +125,11 @@ func BuildDocument(root *Node) (*Document, error) {
 				to = objectByName[node.Attr(2).ToString()]
 			}
 			if to != nil && from != nil {
-				to.AddRef(from)
+				if ctype == "OP" {
+					to.addPropRef(from, node.Attr(3).ToString())
+				} else {
+					to.AddRef(from)
+				}
 
 				// build model tree
 				if toModel, ok := to.(*Model); ok {
@@ -166,7 +170,7 @@ func (doc *Document) AddConnection(parent, child Object) {
 }
 
 func (doc *Document) AddPropConnection(parent, child Object, prop string) {
-	parent.AddRef(child)
+	parent.addPropRef(child, prop)
 	conns := doc.RawNode.FindChild("Connections")
 	conns.Children = append(conns.Children, NewNode("C", "OP", child.ID(), parent.ID(), prop))
 }
diff --git a/fbx/fbx_material.go b/fbx/fbx_material.go
index b2efff9..fd1480d 100644
--- a/fbx/fbx_material.go
+++ b/fbx/fbx_material.go
@@ -32,10 +32,14 @@ func (m *Material) GetFactor(name string, def float32) float32 {
 }
 
 func (m *Material) GetTexture(name string) *Obj {
-	// TOOD: m.GetPropertyRef(name)...
-	textures := m.FindRefs("Texture")
-	if len(textures) > 0 {
-		return textures[0].(*Obj)
+	textures := m.propRefs[name]
+	if len(m.propRefs) == 0 {
+		textures = m.Refs
+	}
+	for _, t := range textures {
+		if texture, ok := t.(*Obj); ok && texture.NodeName() == "Texture" {
+			return texture
+		}
 	}
 	return nil
 }
diff --git a/fbx/fbx_object.go b/fbx/fbx_object.go
index b0d815f..1faf1e2 100644
--- a/fbx/fbx_object.go
+++ b/fbx/fbx_object.go
@@ -21,12 +21,14 @@ type Object interface {
 	SetProperty(name string, prop *Property) *Property
 	FindRefs(name string) []Object
 	AddRef(o Object)
+	addPropRef(o Object, prop string)
 }
 
 type Obj struct {
 	*Node
 	Template   *Obj
 	Refs       []Object
+	propRefs   map[string][]Object
 	properties map[string]*Property // lazty initialize
 }
 
@@ -141,6 +143,15 @@ func (o *Obj) AddRef(ref Object) {
 	o.Refs = append(o.Refs, ref)
 }
 
+// addPropRef adds a reference connected to the property.
+func (o *Obj) addPropRef(ref Object, prop string) {
+	o.AddRef(ref)
+	if o.propRefs == nil {
+		o.propRefs = map[string][]Object{}
+	}
+	o.propRefs[prop] = append(o.propRefs[prop], ref)
+}
+
 func (o *Obj) AddOrReplaceChild(node *Node) bool {
 	for i, c := range o.Children {
 		if c.Name == node.Name {
-- 
2.43.0


From 117d2a01e39242215e9d5629ab800886f53dfb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:31 +0000
Subject: [PATCH 099/142] fix: fbx2mqo: mapping types of normals and texture
 coordinates

---
 converter/fbx2mqo.go | 45 +++++++++++---------------------------------
 fbx/fbx_geometry.go  | 31 ++++++++++++++++++++++++++++--
 2 files changed, 40 insertions(+), 36 deletions(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index 81171be..bb1fe9e 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -197,26 +197,8 @@ func (c *fbxToMqoState) convertGeometry(g *fbx.Geometry, obj *mqo.Object, transf
 	matAllSame := matType == "AllSame" && len(matArray) > 0
 	normalNode := g.GetLayerElementNormal()
 	normArray := normalNode.Array.GetVec3Array()
-	normByVertex := normalNode.GetMappingInformationType() == "ByControlPoint" && len(normArray) >= len(g.Vertices)
-	normByPolygonVertex := normalNode.GetMappingInformationType() == "ByPolygonVertex"
-
 	uvnode := g.GetLayerElementUV()
-	var uv []*geom.Vector2
-	var uvIndex []int32
-	if uvnode.GetMappingInformationType() == "ByPolygonVertex" {
-		uv = uvnode.Array.GetVec2Array()
-		if uvnode.GetReferenceInformationType() == "IndexToDirect" {
-			uvIndex = uvnode.GetIndexes()
-			if len(uvIndex) < g.PolygonVertexCount {
-				uv = nil
-				uvIndex = nil
-			}
-		} else {
-			if len(uv) < g.PolygonVertexCount {
-				uv = nil
-			}
-		}
-	}
+	uv := uvnode.Array.GetVec2Array()
 
 	rs := transform.Clone()
 	rs[12], rs[13], rs[14] = 0, 0, 0
@@ -237,24 +219,19 @@ func (c *fbxToMqoState) convertGeometry(g *fbx.Geometry, obj *mqo.Object, transf
 		}
 		for n, v := range f {
 			face.Verts = append(face.Verts, v)
-			// TODO: normal transformation
-			if normByVertex && v < len(normArray) {
-				face.Normals = append(face.Normals, normalTransform.ApplyTo(normArray[v]).Normalize())
-			} else if normByPolygonVertex && vcount+n < len(normArray) {
-				face.Normals = append(face.Normals, normalTransform.ApplyTo(normArray[vcount+n]).Normalize())
-			}
-		}
-		if uvIndex != nil { // Indexed
-			for n := range f {
-				v := uv[uvIndex[vcount+n]]
-				face.UVs = append(face.UVs, geom.Vector2{X: v.X, Y: 1 - v.Y})
+			if idx := normalNode.Index(i, vcount+n, v); idx >= 0 && idx < len(normArray) {
+				face.Normals = append(face.Normals, normalTransform.ApplyTo(normArray[idx]).Normalize())
 			}
-		} else if uv != nil {
-			for n := range f {
-				v := uv[vcount+n]
-				face.UVs = append(face.UVs, geom.Vector2{X: v.X, Y: 1 - v.Y})
+			if idx := uvnode.Index(i, vcount+n, v); idx >= 0 && idx < len(uv) {
+				face.UVs = append(face.UVs, geom.Vector2{X: uv[idx].X, Y: 1 - uv[idx].Y})
 			}
 		}
+		if len(face.Normals) != len(f) {
+			face.Normals = nil
+		}
+		if len(face.UVs) != len(f) {
+			face.UVs = nil
+		}
 		vcount += len(f)
 		if !mirrored {
 			face.Flip()
diff --git a/fbx/fbx_geometry.go b/fbx/fbx_geometry.go
index 258c127..2119444 100644
--- a/fbx/fbx_geometry.go
+++ b/fbx/fbx_geometry.go
@@ -25,6 +25,7 @@ type LayerElement struct {
 	*Node
 	Array     *Node
 	IndexNode *Node
+	indexes   []int32
 }
 
 func NewGeometry(name string, verts []*geom.Vector3, faces [][]int) *Geometry {
@@ -146,7 +147,7 @@ func (g *Geometry) SetLayerElementNormal(normals []*geom.Vector3, mappingType Ma
 
 func (g *Geometry) GetLayerElement(name string, arrayName string, indexName string) *LayerElement {
 	node := g.FindChild(name)
-	return &LayerElement{node, node.FindChild(arrayName), node.FindChild(indexName)}
+	return &LayerElement{Node: node, Array: node.FindChild(arrayName), IndexNode: node.FindChild(indexName)}
 }
 
 func (g *Geometry) GetLayerElementUV() *LayerElement {
@@ -182,7 +183,33 @@ func (e *LayerElement) GetReferenceInformationType() string {
 }
 
 func (e *LayerElement) GetIndexes() []int32 {
-	return e.IndexNode.GetInt32Array()
+	if e.indexes == nil {
+		e.indexes = e.IndexNode.GetInt32Array()
+	}
+	return e.indexes
+}
+
+// Index returns index in e.Array for the vertex v of the polygon. polygonVertex is serial number of the vertex in all polygons.
+func (e *LayerElement) Index(polygon, polygonVertex, v int) int {
+	index := -1
+	switch e.GetMappingInformationType() {
+	case ByPolygonVertex:
+		index = polygonVertex
+	case ByControlPoint, ByVertice:
+		index = v
+	case ByPolygon:
+		index = polygon
+	case AllSame:
+		index = 0
+	}
+	if e.GetReferenceInformationType() == "IndexToDirect" {
+		indexes := e.GetIndexes()
+		if index < 0 || index >= len(indexes) {
+			return -1
+		}
+		index = int(indexes[index])
+	}
+	return index
 }
 
 type GeometryShape struct {
-- 
2.43.0


From 004c39ff313825777cb3cc5b4fe83f55ccc68e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:55 +0000
Subject: [PATCH 100/142] fix: unity: remove the temporary directory when
 opening a package fails

---
 unity/unity_assets.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unity/unity_assets.go b/unity/unity_assets.go
index 98e357e..36cb9e1 100644
--- a/unity/unity_assets.go
+++ b/unity/unity_assets.go
@@ -71,9 +71,15 @@ func OpenPackage(packagePath string) (Assets, error) {
 	}
 	err = extractPackage(packagePath, tmpDir)
 	if err != nil {
+		_ = os.RemoveAll(tmpDir)
 		return nil, err
 	}
-	return scanPackage(tmpDir, true, packagePath)
+	pkg, err := scanPackage(tmpDir, true, packagePath)
+	if err != nil {
+		_ = os.RemoveAll(tmpDir)
+		return nil, err
+	}
+	return pkg, nil
 }
 
 type assets struct {
-- 
2.43.0


From 0d2a9ea496ace280a5d3a3d6f363121f808f5986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:57 +0000
Subject: [PATCH 101/142] fix: unity: reject package entries that would be
 extracted outside the destination

---
 unity/unity_assets.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unity/unity_assets.go b/unity/unity_assets.go
index 36cb9e1..cad8459 100644
--- a/unity/unity_assets.go
+++ b/unity/unity_assets.go
@@ -3,6 +3,7 @@ package unity
 import (
 	"archive/tar"
 	"compress/gzip"
+	"fmt"
 	"io"
 	"io/fs"
 	"io/ioutil"
@@ -216,6 +217,9 @@ func extractPackage(pacakage, dst string) error {
 		}
 
 		name := filepath.Join(dst, header.Name)
+		if rel, err := filepath.Rel(dst, name); err != nil || rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
+			return fmt.Errorf("invalid path in package: %s", header.Name)
+		}
 
 		switch header.Typeflag {
 		case tar.TypeDir:
-- 
2.43.0


From d45e7820f990bfcc108d765844c91997b7f3a4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:59 +0000
Subject: [PATCH 102/142] fix: unity: extract packages that have no directory
 entries

---
 unity/unity_assets.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unity/unity_assets.go b/unity/unity_assets.go
index cad8459..3e9b403 100644
--- a/unity/unity_assets.go
+++ b/unity/unity_assets.go
@@ -229,6 +229,9 @@ func extractPackage(pacakage, dst string) error {
 				}
 			}
 		case tar.TypeReg:
+			if err := os.MkdirAll(filepath.Dir(name), 0755); err != nil {
+				return err
+			}
 			f, err := os.Create(name)
 			if err != nil {
 				return err
-- 
2.43.0


From 79b7f04cca67c6f5f6d714cc3bdc782038a28212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:01 +0000
Subject: [PATCH 103/142] fix: unity: use only the first line of pathname files

---
 unity/unity_assets.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unity/unity_assets.go b/unity/unity_assets.go
index 3e9b403..c0e63ac 100644
--- a/unity/unity_assets.go
+++ b/unity/unity_assets.go
@@ -175,7 +175,8 @@ func scanPackage(packageDir string, tmp bool, originalPath string) (*packageFs,
 		if err != nil {
 			return nil, err
 		}
-		path := string(b)
+		// The first line is the path. Other lines may follow.
+		path := strings.TrimSuffix(strings.SplitN(string(b), "\n", 2)[0], "\r")
 		guid := f.Name()
 		asset := &Asset{
 			GUID: guid,
-- 
2.43.0


From defc83e1eae6918597060b6c71c4b69034b9c24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:03 +0000
Subject: [PATCH 104/142] fix: unity: do not register meta files without GUID
 as assets

---
 unity/unity_assets.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unity/unity_assets.go b/unity/unity_assets.go
index c0e63ac..98da952 100644
--- a/unity/unity_assets.go
+++ b/unity/unity_assets.go
@@ -301,7 +301,7 @@ func scanAssets(assetsDir string) (*assetsFs, error) {
 		meta, err := assets.loadMetaFile(path)
 		if err != nil {
 			log.Println(path, err)
-		} else {
+		} else if meta.GUID != "" {
 			guid := meta.GUID
 			asset := &Asset{
 				GUID: guid,
-- 
2.43.0


From c501032aec4d5812ff643e99642ddeb5e491c864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:57 +0000
Subject: [PATCH 105/142] fix: unity: do not recurse forever on prefabs that
 contain themselves

---
 unity/unity_scene.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index 1008096..1b26b4c 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -34,6 +34,18 @@ func LoadScene(assets Assets, scenePath string) (*Scene, error) {
 }
 
 func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
+	return loadSceneAsset(assets, sceneAsset, nil)
+}
+
+// loading contains GUIDs of the scene and prefabs that are being loaded.
+func loadSceneAsset(assets Assets, sceneAsset *Asset, loading []string) (*Scene, error) {
+	for _, guid := range loading {
+		if guid == sceneAsset.GUID {
+			return nil, fmt.Errorf("Recursive prefab: %s", sceneAsset.Path)
+		}
+	}
+	loading = append(loading[:len(loading):len(loading)], sceneAsset.GUID)
+
 	r, err := assets.Open(sceneAsset.Path)
 	if err != nil {
 		return nil, err
@@ -91,7 +103,7 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 				log.Println("prefab not found", prefab.SourcePrefab)
 				continue
 			}
-			s, err := LoadSceneAsset(assets, prefabAsset)
+			s, err := loadSceneAsset(assets, prefabAsset, loading)
 			if err != nil {
 				log.Println("failed to loadPrefab", prefab.SourcePrefab)
 				continue
-- 
2.43.0


From 819a07c685fcd0c3bdbb5c783c9f5182df0d6f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:18 +0000
Subject: [PATCH 106/142] fix: unity: skip GameObject documents without content

---
 unity/unity_scene.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index 1b26b4c..06e9108 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -81,6 +81,10 @@ func loadSceneAsset(assets Assets, sceneAsset *Asset, loading []string) (*Scene,
 				GameObject *GameObject `yaml:"GameObject" typeid:"unity3d.com,2011:1"`
 			}
 			err = doc.Decode(&d)
+			if d.GameObject == nil {
+				log.Println("invalid GameObject", err, scene.GUID, fileId)
+				continue
+			}
 			d.GameObject.init(scene)
 			element = d.GameObject
 			objects = append(objects, d.GameObject)
-- 
2.43.0


From 340b5191721b66a3c242086cf49a35024a6a023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:19 +0000
Subject: [PATCH 107/142] fix: unity: accept prefab instances without
 m_TransformParent

---
 unity/unity_scene.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index 06e9108..cc39e9f 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -118,7 +118,10 @@ func loadSceneAsset(assets Assets, sceneAsset *Asset, loading []string) (*Scene,
 				root := s.Objects[0]
 				tr := root.GetTransform()
 				if tr != nil {
-					tr.Father = *prefab.Modification.TransformParent
+					tr.Father = Ref{}
+					if prefab.Modification.TransformParent != nil {
+						tr.Father = *prefab.Modification.TransformParent
+					}
 					tr.Father.GUID = scene.GUID
 					for _, c := range root.Components {
 						if _, ok := s.GetElement2(&c.Ref, root.PrefabInstance).(*Transform); ok {
-- 
2.43.0


From 7db29afc5e1ecaca828c32756520d4a34bfa3829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:20 +0000
Subject: [PATCH 108/142] fix: unity: find the objects behind transforms of
 nested prefabs

---
 unity/unity.go            |  8 +-------
 unity/unity_components.go | 13 +++++++++++++
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/unity/unity.go b/unity/unity.go
index c205f46..f0f3b21 100644
--- a/unity/unity.go
+++ b/unity/unity.go
@@ -40,13 +40,7 @@ func (s *Scene) GetGameObject(ref *Ref) *GameObject {
 
 func (s *Scene) GetTransform(ref *Ref, prefabInstance *Ref) *Transform {
 	if t, ok := s.GetElement2(ref, prefabInstance).(*Transform); ok {
-		// stripped.
-		if !t.GameObject.IsValid() && t.CorrespondingSourceObject.IsValid() {
-			if t2, ok := t.Scene.GetElement2(t.CorrespondingSourceObject, t.PrefabInstance).(*Transform); ok {
-				return t2
-			}
-		}
-		return t
+		return t.resolve()
 	}
 	return nil
 }
diff --git a/unity/unity_components.go b/unity/unity_components.go
index d5d9624..a2b41d7 100644
--- a/unity/unity_components.go
+++ b/unity/unity_components.go
@@ -65,6 +65,19 @@ type Transform struct {
 	children []*Transform
 }
 
+// resolve returns the transform in the prefab if tr is a stripped transform. (may be stripped in the prefab too)
+func (tr *Transform) resolve() *Transform {
+	if tr.GameObject.IsValid() || !tr.CorrespondingSourceObject.IsValid() || !tr.PrefabInstance.IsValid() {
+		return tr
+	}
+	if prefab, ok := tr.Scene.Elements[tr.PrefabInstance.FileID].(*PrefabInstance); ok {
+		if t, ok := prefab.PrefabScene.Elements[tr.CorrespondingSourceObject.FileID].(*Transform); ok {
+			return t.resolve()
+		}
+	}
+	return nil
+}
+
 func (tr *Transform) GetMatrix() *geom.Matrix4 {
 	pos := geom.NewTranslateMatrix4(tr.LocalPosition.X, tr.LocalPosition.Y, -tr.LocalPosition.Z)
 	rot := geom.NewRotationMatrix4FromQuaternion(geom.NewQuaternion(-tr.LocalRotation.X, -tr.LocalRotation.Y, tr.LocalRotation.Z, tr.LocalRotation.W))
-- 
2.43.0


From 97f417a70208767940eee280182c8b62dc60fb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:51 +0000
Subject: [PATCH 109/142] fix: unity: return the parent of prefab instances,
 not an object of the prefab

---
 unity/unity_components.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/unity/unity_components.go b/unity/unity_components.go
index a2b41d7..debfa87 100644
--- a/unity/unity_components.go
+++ b/unity/unity_components.go
@@ -62,6 +62,7 @@ type Transform struct {
 
 	RootOrder int `yaml:"m_RootOrder"`
 
+	parent   *Transform // parent in another scene. (root of prefab instance)
 	children []*Transform
 }
 
@@ -111,6 +112,9 @@ func (tr *Transform) AddChild(child *Transform) bool {
 	if tr.children == nil {
 		tr.GetChildren()
 	}
+	if tr.Scene != child.Scene {
+		child.parent = tr
+	}
 	for _, c := range tr.children {
 		if child == c {
 			return false
@@ -121,9 +125,10 @@ func (tr *Transform) AddChild(child *Transform) bool {
 }
 
 func (tr *Transform) GetParent() *Transform {
-	// TODO: prefab parent
-	t, _ := tr.Scene.GetElement(&tr.Father).(*Transform)
-	return t
+	if tr.parent != nil || tr.Father.GUID != "" && tr.Father.GUID != tr.Scene.GUID {
+		return tr.parent
+	}
+	return tr.Scene.GetTransform(&tr.Father, nil)
 }
 
 type MonoBehaviour struct {
-- 
2.43.0


From f446a223529e39e7dc75d1bae83723cfbe2075cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:52 +0000
Subject: [PATCH 110/142] fix: unity: keep objects added to prefab instances

---
 unity/unity_scene.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index cc39e9f..31fcf78 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -69,7 +69,8 @@ func loadSceneAsset(assets Assets, sceneAsset *Asset, loading []string) (*Scene,
 	scene := NewScene(assets, sceneAsset.GUID)
 	var objects []*GameObject
 
-	addedChildren := map[Ref][]*Transform{}
+	// Children that may not be in the list of the parent.
+	var addedChildren []*Transform
 
 	for _, doc := range ParseYamlDocuments(b) {
 		var element Element
@@ -123,11 +124,7 @@ func loadSceneAsset(assets Assets, sceneAsset *Asset, loading []string) (*Scene,
 						tr.Father = *prefab.Modification.TransformParent
 					}
 					tr.Father.GUID = scene.GUID
-					for _, c := range root.Components {
-						if _, ok := s.GetElement2(&c.Ref, root.PrefabInstance).(*Transform); ok {
-							addedChildren[tr.Father] = append(addedChildren[tr.Father], tr)
-						}
-					}
+					addedChildren = append(addedChildren, tr)
 				}
 				objects = append(objects, root)
 			}
@@ -211,6 +208,9 @@ func loadSceneAsset(assets Assets, sceneAsset *Asset, loading []string) (*Scene,
 				if component, _ := reflect.ValueOf(components).Field(fieldid).Interface().(Component); component != nil {
 					component.init(scene)
 					element = component
+					if tr, ok := component.(*Transform); ok && tr.GameObject.IsValid() && tr.Father.IsValid() {
+						addedChildren = append(addedChildren, tr)
+					}
 				}
 			}
 			if element == nil {
@@ -231,12 +231,9 @@ func loadSceneAsset(assets Assets, sceneAsset *Asset, loading []string) (*Scene,
 		}
 	}
 
-	for pref, children := range addedChildren {
-		parent := scene.GetTransform(&pref, nil)
-		if parent == nil {
-			continue
-		}
-		for _, child := range children {
+	for _, child := range addedChildren {
+		parent := scene.GetTransform(&child.Father, nil)
+		if parent != nil && (parent.Scene != scene || child.Scene != scene) {
 			parent.AddChild(child)
 		}
 	}
-- 
2.43.0


From bdd563b6a1aeb4d259cfd94df2309501e53ae17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:53 +0000
Subject: [PATCH 111/142] fix: unity: apply modifications to the transforms of
 nested prefabs

---
 unity/unity_scene.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index 31fcf78..73a1328 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -130,6 +130,12 @@ func loadSceneAsset(assets Assets, sceneAsset *Asset, loading []string) (*Scene,
 			}
 			for _, mod := range prefab.Modification.Modifications {
 				target := s.GetElement(mod.Target)
+				if tr, ok := target.(*Transform); ok {
+					if tr = tr.resolve(); tr == nil {
+						continue
+					}
+					target = tr
+				}
 				if target == nil {
 					continue
 				}
-- 
2.43.0


From d09a7ea499ca9fe2a7ff7f5b8aa08cfcfbe7fcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:54 +0000
Subject: [PATCH 112/142] fix: unity: keep numeric names and large integers in
 prefab modifications

---
 unity/unity.go       |  8 ++++----
 unity/unity_scene.go | 16 ++++------------
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/unity/unity.go b/unity/unity.go
index f0f3b21..7b1bf4b 100644
--- a/unity/unity.go
+++ b/unity/unity.go
@@ -111,10 +111,10 @@ func (o *GameObject) GetTransform() *Transform {
 type PrefabInstance struct {
 	Modification struct {
 		Modifications []struct {
-			Target          *Ref        `yaml:"target"`
-			PropertyPath    string      `yaml:"propertyPath"`
-			Value           interface{} `yaml:"value"`
-			ObjectReference *Ref        `yaml:"objectReference"`
+			Target          *Ref   `yaml:"target"`
+			PropertyPath    string `yaml:"propertyPath"`
+			Value           string `yaml:"value"`
+			ObjectReference *Ref   `yaml:"objectReference"`
 		} `yaml:"m_Modifications"`
 		TransformParent   *Ref          `yaml:"m_TransformParent"`
 		RemovedComponents []interface{} `yaml:"m_RemovedComponents"`
diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index 73a1328..18e969f 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -139,16 +139,8 @@ func loadSceneAsset(assets Assets, sceneAsset *Asset, loading []string) (*Scene,
 				if target == nil {
 					continue
 				}
-				var flaotValue float32
-				if v, ok := mod.Value.(float32); ok {
-					flaotValue = v
-				} else if v, ok := mod.Value.(float64); ok {
-					flaotValue = float32(v)
-				} else if v, ok := mod.Value.(int64); ok {
-					flaotValue = float32(v)
-				} else if v, ok := mod.Value.(int); ok {
-					flaotValue = float32(v)
-				}
+				doubleValue, _ := strconv.ParseFloat(mod.Value, 64)
+				flaotValue := float32(doubleValue)
 				prop := strings.Split(mod.PropertyPath, ".")
 				typ := reflect.TypeOf(target).Elem()
 				if typ.Kind() != reflect.Struct {
@@ -166,11 +158,11 @@ func loadSceneAsset(assets Assets, sceneAsset *Asset, loading []string) (*Scene,
 							if v, ok := field.(*float32); ok {
 								*v = flaotValue
 							} else if v, ok := field.(*int); ok {
-								*v = int(flaotValue)
+								*v = int(doubleValue)
 							} else if v, ok := field.(**Ref); ok {
 								*v = mod.ObjectReference
 							} else if v, ok := field.(*string); ok {
-								*v, _ = mod.Value.(string)
+								*v = mod.Value
 							} else if v, ok := field.(*Vector3); ok && len(prop) == 2 {
 								if prop[1] == "x" {
 									v.X = flaotValue
-- 
2.43.0


From d3241d5eb06626e95d4652cf47161543e7a681cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:55 +0000
Subject: [PATCH 113/142] fix: unity: do not panic on odd targets and paths of
 prefab modifications

---
 unity/unity_scene.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index 18e969f..f1e12a4 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -142,17 +142,19 @@ func loadSceneAsset(assets Assets, sceneAsset *Asset, loading []string) (*Scene,
 				doubleValue, _ := strconv.ParseFloat(mod.Value, 64)
 				flaotValue := float32(doubleValue)
 				prop := strings.Split(mod.PropertyPath, ".")
-				typ := reflect.TypeOf(target).Elem()
-				if typ.Kind() != reflect.Struct {
+				typ := reflect.TypeOf(target)
+				if typ.Kind() != reflect.Ptr || typ.Elem().Kind() != reflect.Struct {
 					continue
 				}
+				typ = typ.Elem()
 				for i := 0; i < typ.NumField(); i++ {
 					if y := typ.Field(i).Tag.Get("yaml"); y != "" {
 						if (strings.Split(y, ",")[0]) == prop[0] {
 							field := reflect.ValueOf(target).Elem().Field(i).Addr().Interface()
 							if len(prop) == 3 && prop[1] == "Array" && strings.HasPrefix(prop[2], "data[") {
-								if idx, err := strconv.ParseInt(prop[2][5:len(prop[2])-1], 10, 32); err == nil && int(idx) < reflect.ValueOf(target).Elem().Field(i).Len() {
-									field = reflect.ValueOf(target).Elem().Field(i).Index(int(idx)).Addr().Interface()
+								array := reflect.ValueOf(target).Elem().Field(i)
+								if idx, err := strconv.ParseUint(strings.TrimSuffix(prop[2][5:], "]"), 10, 31); err == nil && array.Kind() == reflect.Slice && int(idx) < array.Len() {
+									field = array.Index(int(idx)).Addr().Interface()
 								}
 							}
 							if v, ok := field.(*float32); ok {
-- 
2.43.0


From 3d6372ac6f5b58e9801fa0dc874192ca688bb218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:55 +0000
Subject: [PATCH 114/142] fix: unity2mqo: keep the front of built-in meshes in
 mirrored objects

---
 converter/unity2mqo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index 622e4cf..f34d06b 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -372,6 +372,7 @@ func (c *unityToMqoState) importMesh(mesh *unity.Ref, obj *mqo.Object, materials
 
 func AddGeometry(o *mqo.Object, tr *geom.Matrix4, mat int, vs []*geom.Vector3, faces [][]int, uvs [][]geom.Vector2) {
 	voffset := len(o.Vertexes)
+	mirrored := tr.Det() < 0
 	for _, v := range vs {
 		o.Vertexes = append(o.Vertexes, tr.ApplyTo(v))
 	}
@@ -383,6 +384,9 @@ func AddGeometry(o *mqo.Object, tr *geom.Matrix4, mat int, vs []*geom.Vector3, f
 		if len(uvs) > n {
 			face.UVs = uvs[n]
 		}
+		if mirrored {
+			face.Flip()
+		}
 		o.Faces = append(o.Faces, face)
 	}
 }
-- 
2.43.0


From 1b6d22e706a46ffa79a382098aa57e8d476c6d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:57 +0000
Subject: [PATCH 115/142] fix: unity: do not share texture coordinates between
 the caps of cylinders

---
 unity/unity_builtin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unity/unity_builtin.go b/unity/unity_builtin.go
index cf14140..734a712 100644
--- a/unity/unity_builtin.go
+++ b/unity/unity_builtin.go
@@ -154,7 +154,7 @@ func Cylinder(s int) (vs []*geom.Vector3, faces [][]int, uvs [][]geom.Vector2) {
 		topuv = append(topuv, geom.Vector2{X: float32(i) / float32(s), Y: 1})
 	}
 	faces = append(faces, top, bottom)
-	uvs = append(uvs, topuv, topuv)
+	uvs = append(uvs, topuv, append([]geom.Vector2{}, topuv...))
 	return
 }
 
-- 
2.43.0


From 6ef818c4afd5e58271d5a2688405ace0ae8f654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:57 +0000
Subject: [PATCH 116/142] fix: unity2mqo: accept upper case FBX file extensions

---
 converter/unity2mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index f34d06b..5aa5200 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -336,7 +336,7 @@ func (c *unityToMqoState) importMesh(mesh *unity.Ref, obj *mqo.Object, materials
 	log.Println("Import mesh:", asset, meta.GetRecycleNameByFileID(mesh.FileID))
 
 	if c.lastFbxID != mesh.GUID { // TODO
-		if !strings.HasSuffix(asset.Path, ".fbx") {
+		if !strings.EqualFold(filepath.Ext(asset.Path), ".fbx") {
 			return fmt.Errorf("not supported: %s", asset.Path)
 		}
 
-- 
2.43.0


From 1746b512b01465367d89418a4b945833b2317db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:58 +0000
Subject: [PATCH 117/142] fix: unity2mqo: convert centers of colliders to the
 right handed system

---
 converter/unity2mqo.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index 5aa5200..69f6d71 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -223,12 +223,16 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 	_, rot, sc := transform.Decompose()
 	angle := geom.NewEulerFromQuaternion(rot, geom.RotationOrderZXY)
 
+	toWorld := func(v *geom.Vector3) mqo.Vector3XmlAttr {
+		return mqo.Vector3XmlAttr(*transform.ApplyTo(&geom.Vector3{X: v.X, Y: v.Y, Z: -v.Z}))
+	}
+
 	var boxColliders []*unity.BoxCollider
 	o.GetComponents(&boxColliders)
 	for _, co := range boxColliders {
 		shapes = append(shapes, &mqo.PhysicsShape{
 			Type:     "BOX",
-			Position: mqo.Vector3XmlAttr(*transform.ApplyTo(&co.Center)),
+			Position: toWorld(&co.Center),
 			Size:     mqo.Vector3XmlAttr(*co.Size.Scale(sc.X * 0.5)),
 			Rotation: mqo.Vector3XmlAttr(angle.Vector3),
 		})
@@ -238,7 +242,7 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 	for _, co := range sphereColliders {
 		shapes = append(shapes, &mqo.PhysicsShape{
 			Type:     "SPHERE",
-			Position: mqo.Vector3XmlAttr(*transform.ApplyTo(&co.Center)),
+			Position: toWorld(&co.Center),
 			Size:     mqo.Vector3XmlAttr{X: co.Radius * sc.X, Y: co.Radius * sc.Y, Z: co.Radius * sc.Z},
 			Rotation: mqo.Vector3XmlAttr(angle.Vector3),
 		})
@@ -248,7 +252,7 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 	for _, co := range capsuleColliders {
 		shapes = append(shapes, &mqo.PhysicsShape{
 			Type:     "CAPSULE",
-			Position: mqo.Vector3XmlAttr(*transform.ApplyTo(&co.Center)),
+			Position: toWorld(&co.Center),
 			Size:     mqo.Vector3XmlAttr{X: co.Radius * sc.X, Y: (co.Height - co.Radius*2) * sc.Y, Z: co.Radius * sc.Z},
 			Rotation: mqo.Vector3XmlAttr(angle.Vector3),
 		})
@@ -262,7 +266,7 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 				const size = 1
 				shapes = append(shapes, &mqo.PhysicsShape{
 					Type:     "BOX",
-					Position: mqo.Vector3XmlAttr(*transform.ApplyTo(&geom.Vector3{})),
+					Position: toWorld(&geom.Vector3{}),
 					Rotation: mqo.Vector3XmlAttr(angle.Vector3),
 					Size:     mqo.Vector3XmlAttr{X: size * scale, Y: size * scale, Z: size * scale},
 				})
@@ -270,7 +274,7 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 				const radius = 0.5
 				shapes = append(shapes, &mqo.PhysicsShape{
 					Type:     "SPHERE",
-					Position: mqo.Vector3XmlAttr(*transform.ApplyTo(&geom.Vector3{})),
+					Position: toWorld(&geom.Vector3{}),
 					Size:     mqo.Vector3XmlAttr{X: radius * scale, Y: radius * scale, Z: radius * scale},
 				})
 			default:
-- 
2.43.0


From ac594600301c37bbcfb377572ca72c8463df4138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:59 +0000
Subject: [PATCH 118/142] fix: unity2mqo: scale each side of box colliders

---
 converter/unity2mqo.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index 69f6d71..7794c2e 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -221,6 +221,9 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 	var shapes []*mqo.PhysicsShape
 	scale := c.ConvertScale
 	_, rot, sc := transform.Decompose()
+	if sc.X < 0 { // mirrored
+		sc.X = -sc.X
+	}
 	angle := geom.NewEulerFromQuaternion(rot, geom.RotationOrderZXY)
 
 	toWorld := func(v *geom.Vector3) mqo.Vector3XmlAttr {
@@ -233,7 +236,7 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 		shapes = append(shapes, &mqo.PhysicsShape{
 			Type:     "BOX",
 			Position: toWorld(&co.Center),
-			Size:     mqo.Vector3XmlAttr(*co.Size.Scale(sc.X * 0.5)),
+			Size:     mqo.Vector3XmlAttr{X: co.Size.X * sc.X * 0.5, Y: co.Size.Y * sc.Y * 0.5, Z: co.Size.Z * sc.Z * 0.5},
 			Rotation: mqo.Vector3XmlAttr(angle.Vector3),
 		})
 	}
-- 
2.43.0


From c79b0772bf5bf38d1f62b4de57c93d1a778404f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:00 +0000
Subject: [PATCH 119/142] fix: unity2mqo: skip mesh colliders without a mesh

---
 converter/unity2mqo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index 7794c2e..6a5ed11 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -263,6 +263,9 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 	var meshColliders []*unity.MeshCollider
 	o.GetComponents(&meshColliders)
 	for _, co := range meshColliders {
+		if co.Mesh == nil {
+			continue
+		}
 		if name, ok := unity.UnityMeshes[*co.Mesh]; ok {
 			switch name {
 			case "Cube":
-- 
2.43.0


From e68e4332baac6d4b71cba50bf7e86072494b6607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:01 +0000
Subject: [PATCH 120/142] fix: unity2mqo: size of colliders of built-in meshes

---
 converter/unity2mqo.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index 6a5ed11..cbbdb68 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -219,7 +219,6 @@ func (c *unityToMqoState) convertObject(o *unity.GameObject, d int, parentTransf
 
 func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.Matrix4, obj *mqo.Object) {
 	var shapes []*mqo.PhysicsShape
-	scale := c.ConvertScale
 	_, rot, sc := transform.Decompose()
 	if sc.X < 0 { // mirrored
 		sc.X = -sc.X
@@ -269,19 +268,19 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 		if name, ok := unity.UnityMeshes[*co.Mesh]; ok {
 			switch name {
 			case "Cube":
-				const size = 1
+				const size = 0.5
 				shapes = append(shapes, &mqo.PhysicsShape{
 					Type:     "BOX",
 					Position: toWorld(&geom.Vector3{}),
 					Rotation: mqo.Vector3XmlAttr(angle.Vector3),
-					Size:     mqo.Vector3XmlAttr{X: size * scale, Y: size * scale, Z: size * scale},
+					Size:     mqo.Vector3XmlAttr{X: size * sc.X, Y: size * sc.Y, Z: size * sc.Z},
 				})
 			case "Sphere":
 				const radius = 0.5
 				shapes = append(shapes, &mqo.PhysicsShape{
 					Type:     "SPHERE",
 					Position: toWorld(&geom.Vector3{}),
-					Size:     mqo.Vector3XmlAttr{X: radius * scale, Y: radius * scale, Z: radius * scale},
+					Size:     mqo.Vector3XmlAttr{X: radius * sc.X, Y: radius * sc.Y, Z: radius * sc.Z},
 				})
 			default:
 				shapes = append(shapes, &mqo.PhysicsShape{
-- 
2.43.0


From 9c81a7bd35e623aa623e5053d78517350378cce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:01 +0000
Subject: [PATCH 121/142] fix: unity2mqo: direction and minimum height of
 capsule colliders

---
 converter/unity2mqo.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index cbbdb68..cd6f95a 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -252,11 +253,22 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 	var capsuleColliders []*unity.CapsuleCollider
 	o.GetComponents(&capsuleColliders)
 	for _, co := range capsuleColliders {
+		capsuleRot := rot
+		switch co.Direction {
+		case 0: // X axis
+			capsuleRot = rot.Mul(geom.NewQuaternion(0, 0, math.Sqrt2/2, math.Sqrt2/2))
+		case 2: // Z axis
+			capsuleRot = rot.Mul(geom.NewQuaternion(math.Sqrt2/2, 0, 0, math.Sqrt2/2))
+		}
+		height := co.Height - co.Radius*2
+		if height < 0 {
+			height = 0
+		}
 		shapes = append(shapes, &mqo.PhysicsShape{
 			Type:     "CAPSULE",
 			Position: toWorld(&co.Center),
-			Size:     mqo.Vector3XmlAttr{X: co.Radius * sc.X, Y: (co.Height - co.Radius*2) * sc.Y, Z: co.Radius * sc.Z},
-			Rotation: mqo.Vector3XmlAttr(angle.Vector3),
+			Size:     mqo.Vector3XmlAttr{X: co.Radius * sc.X, Y: height * sc.Y, Z: co.Radius * sc.Z},
+			Rotation: mqo.Vector3XmlAttr(geom.NewEulerFromQuaternion(capsuleRot, geom.RotationOrderZXY).Vector3),
 		})
 	}
 	var meshColliders []*unity.MeshCollider
-- 
2.43.0


From 3ed63181c41249df5bc391f4a938bc904cae2522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:53 +0000
Subject: [PATCH 122/142] fix: vrmconfig: do not panic on presets with material
 settings

---
 converter/vrmconfig.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index adc14b3..2ce34fb 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -95,6 +95,9 @@ func LoadVRMConfig(name string) (*Config, error) {
 }
 
 func (c *Config) MergePreset(preset *Config) {
+	if c.MaterialSettings == nil {
+		c.MaterialSettings = map[string]*MaterialSetting{}
+	}
 	for name, m := range preset.MaterialSettings {
 		if _, exist := c.MaterialSettings[name]; !exist {
 			c.MaterialSettings[name] = m
-- 
2.43.0


From 8379e61860b3b74ce6c85a5dc6f7fa26192f3eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:54 +0000
Subject: [PATCH 123/142] fix: vrmconfig: no first person bone when the head is
 ignored

---
 converter/vrmconfig.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 2ce34fb..67ffcbc 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -356,7 +356,7 @@ func ApplyConfig(doc *vrm.Document, conf *Config) (*vrm.Document, error) {
 	}
 
 	if ext.FirstPerson == nil {
-		if node, ok := foundBones["head"]; ok {
+		if node, ok := foundBones["head"]; ok && node >= 0 {
 			ext.FirstPerson = &vrm.FirstPerson{
 				FirstPersonBone: node,
 			}
-- 
2.43.0


From ee7c20dd834c4967e774a7094109f076fc3e15d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:55 +0000
Subject: [PATCH 124/142] fix: vrmconfig: assign nodes to at most one humanoid
 bone and no mesh nodes

---
 converter/vrmconfig.go |  6 +++++-
 vrm/vrm.go             | 10 ++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 67ffcbc..bea0dcf 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -165,6 +165,10 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 					log.Printf("ERROR: %v is not bone node!", nodeName)
 					continue
 				}
+				if ext.Humanoid.FindByNode(id) != nil {
+					log.Printf("ERROR: %v is already used", nodeName)
+					continue
+				}
 				var b = mapping.Bone
 				foundBones[mapping.Bone.Bone] = id
 				b.Node = id
@@ -367,7 +371,7 @@ func ApplyConfig(doc *vrm.Document, conf *Config) (*vrm.Document, error) {
 		if _, ok := foundBones[name]; ok {
 			continue
 		}
-		if id, ok := nodeMap[name]; ok {
+		if id, ok := nodeMap[name]; ok && doc.Nodes[id].Mesh == nil && ext.Humanoid.FindByNode(id) == nil {
 			ext.Humanoid.Bones = append(ext.Humanoid.Bones, &vrm.Bone{Bone: name, Node: id, UseDefaultValues: true})
 		}
 	}
diff --git a/vrm/vrm.go b/vrm/vrm.go
index fa84be4..dafb60b 100644
--- a/vrm/vrm.go
+++ b/vrm/vrm.go
@@ -79,6 +79,16 @@ type Humanoid struct {
 	Bones []*Bone `json:"humanBones"`
 }
 
+// FindByNode returns the bone that is assigned to the node, or nil.
+func (h *Humanoid) FindByNode(node int) *Bone {
+	for _, b := range h.Bones {
+		if b.Node == node {
+			return b
+		}
+	}
+	return nil
+}
+
 type Bone struct {
 	Bone             string `json:"bone"`
 	Node             int    `json:"node"`
-- 
2.43.0


From e2c71aaabcaea1963c4d1a274ac579f10845efad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:56 +0000
Subject: [PATCH 125/142] fix: vrmconfig: set alpha of materials without base
 color

---
 converter/vrmconfig.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index bea0dcf..daa9973 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -206,7 +206,13 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 			} else if setting.AlphaMode == "opaque" {
 				mat.AlphaMode = gltf.AlphaOpaque
 			}
-			if setting.Alpha > 0 && mat.PBRMetallicRoughness != nil {
+			if setting.Alpha > 0 {
+				if mat.PBRMetallicRoughness == nil {
+					mat.PBRMetallicRoughness = &gltf.PBRMetallicRoughness{}
+				}
+				if mat.PBRMetallicRoughness.BaseColorFactor == nil {
+					mat.PBRMetallicRoughness.BaseColorFactor = &[4]float32{1, 1, 1, 1}
+				}
 				mat.PBRMetallicRoughness.BaseColorFactor[3] = setting.Alpha
 			}
 		}
-- 
2.43.0


From bd39945ba0cd4e9333691910a48e85526a0f1480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:56 +0000
Subject: [PATCH 126/142] fix: vrmconfig: detect spring bones without parent

---
 converter/vrmconfig.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index daa9973..22c42d8 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -427,16 +427,16 @@ func springLen(doc *gltf.Document, node *gltf.Node) int {
 }
 
 func DetectSpringBones(doc *gltf.Document, conf *Config) {
-	parents := map[int]int{}
-	for i, n := range doc.Nodes {
+	parents := map[int]*gltf.Node{}
+	for _, n := range doc.Nodes {
 		for _, c := range n.Children {
-			parents[int(c)] = i
+			parents[int(c)] = n
 		}
 	}
 	var nodeNames []string
 	for i, n := range doc.Nodes {
 		l := springLen(doc, n)
-		if l > 0 && springLen(doc, doc.Nodes[parents[i]]) < 0 {
+		if l > 0 && (parents[i] == nil || springLen(doc, parents[i]) < 0) {
 			log.Println("Add SpringBone:", i, n.Name)
 			nodeNames = append(nodeNames, n.Name)
 		}
-- 
2.43.0


From d31b6dca36e5208c7b7c7e78c15015d8afd58f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:57 +0000
Subject: [PATCH 127/142] fix: gltfutil: remove the declarations of removed
 extensions

---
 gltfutil/gltf_utils.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index 35ba378..5391742 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -71,6 +71,16 @@ func (f *createFS) Create(name string) (io.WriteCloser, error) {
 	return os.Create(filepath.Join(f.dir, name))
 }
 
+func removeString(list []string, s string) []string {
+	var result []string
+	for _, v := range list {
+		if v != s {
+			result = append(result, v)
+		}
+	}
+	return result
+}
+
 func RemoveExtension(doc *gltf.Document, extension string) {
 	for _, n := range doc.Accessors {
 		delete(n.Extensions, extension)
@@ -97,6 +107,8 @@ func RemoveExtension(doc *gltf.Document, extension string) {
 		delete(n.Extensions, extension)
 	}
 	delete(doc.Extensions, extension)
+	doc.ExtensionsUsed = removeString(doc.ExtensionsUsed, extension)
+	doc.ExtensionsRequired = removeString(doc.ExtensionsRequired, extension)
 }
 
 func ToSingleFile(doc *gltf.Document, srcDir string) error {
-- 
2.43.0


From 9166a0dd06d05ce0939e34f9af4de07766d81b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:58 +0000
Subject: [PATCH 128/142] fix: vrmconfig: find morphs of models loaded from
 files

---
 converter/vrmconfig.go | 52 ++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 22c42d8..a80ba7d 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -123,6 +123,22 @@ func matchNodeName(pattern string, nodeMap map[string]int) []int {
 	return result
 }
 
+// morphTargetNames returns extras.targetNames of converted or loaded meshes.
+func morphTargetNames(mesh *gltf.Mesh) []string {
+	extras, _ := mesh.Extras.(map[string]interface{})
+	switch names := extras["targetNames"].(type) {
+	case []string:
+		return names
+	case []interface{}:
+		result := make([]string, len(names))
+		for i, name := range names {
+			result[i], _ = name.(string)
+		}
+		return result
+	}
+	return nil
+}
+
 func findReursive(doc *vrm.Document, target uint32, m map[uint32]string) (string, bool) {
 	if name, ok := m[target]; ok {
 		return name, ok
@@ -262,12 +278,8 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 
 	targets := map[string][2]int{}
 	for mi, mesh := range doc.Meshes {
-		if extras, ok := mesh.Extras.(map[string]interface{}); ok {
-			if names, ok := extras["targetNames"].([]string); ok {
-				for i, name := range names {
-					targets[name] = [2]int{mi, i}
-				}
-			}
+		for i, name := range morphTargetNames(mesh) {
+			targets[name] = [2]int{mi, i}
 		}
 	}
 	for _, mapping := range conf.MorphMappings {
@@ -344,23 +356,19 @@ func ApplyConfig(doc *vrm.Document, conf *Config) (*vrm.Document, error) {
 
 	if conf.ExportAllMorph {
 		for mi, mesh := range doc.Meshes {
-			if extras, ok := mesh.Extras.(map[string]interface{}); ok {
-				if names, ok := extras["targetNames"].([]string); ok {
-					for i, name := range names {
-						if _, used := blendShapeMap[[2]int{mi, i}]; used {
-							continue
-						}
-						m := &vrm.BlendShapeGroup{
-							Name: name,
-							Binds: []*vrm.BlendShapeBind{
-								{
-									Mesh: uint32(mi), Index: i, Weight: 100,
-								},
-							},
-						}
-						ext.BlendShapeMaster.BlendShapeGroups = append(ext.BlendShapeMaster.BlendShapeGroups, m)
-					}
+			for i, name := range morphTargetNames(mesh) {
+				if _, used := blendShapeMap[[2]int{mi, i}]; used {
+					continue
+				}
+				m := &vrm.BlendShapeGroup{
+					Name: name,
+					Binds: []*vrm.BlendShapeBind{
+						{
+							Mesh: uint32(mi), Index: i, Weight: 100,
+						},
+					},
 				}
+				ext.BlendShapeMaster.BlendShapeGroups = append(ext.BlendShapeMaster.BlendShapeGroups, m)
 			}
 		}
 	}
-- 
2.43.0


From bec435a3eaa5d6a33293f0a158bbc3dd95970904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:59 +0000
Subject: [PATCH 129/142] fix: vrmconfig: ignore morph mappings to nodes or
 targets that do not exist

---
 converter/vrmconfig.go | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index a80ba7d..a172cd6 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -139,6 +139,19 @@ func morphTargetNames(mesh *gltf.Mesh) []string {
 	return nil
 }
 
+func hasMorphTarget(doc *vrm.Document, node, target int) bool {
+	mesh := doc.Nodes[node].Mesh
+	if mesh == nil || target < 0 {
+		return false
+	}
+	for _, p := range doc.Meshes[*mesh].Primitives {
+		if target < len(p.Targets) {
+			return true
+		}
+	}
+	return false
+}
+
 func findReursive(doc *vrm.Document, target uint32, m map[uint32]string) (string, bool) {
 	if name, ok := m[target]; ok {
 		return name, ok
@@ -303,21 +316,25 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 			continue
 		}
 
-		if id, ok := nodeMap[mapping.NodeName]; ok {
-			blendShapeMap[[2]int{int(*doc.Nodes[id].Mesh), mapping.TargetIndex}] = mapping.Name
-			m := &vrm.BlendShapeGroup{
-				Name:       mapping.Name,
-				PresetName: mapping.Name,
-				Binds: []*vrm.BlendShapeBind{
-					{
-						Mesh: *doc.Nodes[id].Mesh, Index: mapping.TargetIndex, Weight: 100,
-					},
+		m := &vrm.BlendShapeGroup{
+			Name:           mapping.Name,
+			PresetName:     mapping.Name,
+			MaterialValues: mapping.MaterialValues,
+		}
+		if id, ok := nodeMap[mapping.NodeName]; ok && mapping.NodeName != "" && hasMorphTarget(doc, id, mapping.TargetIndex) {
+			mesh := *doc.Nodes[id].Mesh
+			blendShapeMap[[2]int{int(mesh), mapping.TargetIndex}] = mapping.Name
+			m.Binds = []*vrm.BlendShapeBind{
+				{
+					Mesh: mesh, Index: mapping.TargetIndex, Weight: 100,
 				},
 			}
-			ext.BlendShapeMaster.BlendShapeGroups = append(ext.BlendShapeMaster.BlendShapeGroups, m)
-		} else if mapping.NodeName == "" {
+		} else if mapping.NodeName != "" {
 			log.Println("Morph node not found:", mapping.NodeName, ":", mapping.TargetIndex)
 		}
+		if len(m.Binds) > 0 || len(m.MaterialValues) > 0 {
+			ext.BlendShapeMaster.BlendShapeGroups = append(ext.BlendShapeMaster.BlendShapeGroups, m)
+		}
 	}
 }
 
-- 
2.43.0


From 711a64d4a175509e40473aeaadf409de364b2ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:59 +0000
Subject: [PATCH 130/142] fix: vrmconfig: start spring chains at the topmost
 matched bones

---
 converter/vrmconfig.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index a172cd6..6a27ce6 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	"github.com/binzume/modelconv/gltfutil"
@@ -109,7 +110,8 @@ func (c *Config) MergePreset(preset *Config) {
 	c.ColliderGroups = append(c.ColliderGroups, preset.ColliderGroups...)
 }
 
-func matchNodeName(pattern string, nodeMap map[string]int) []int {
+// matchNodeName returns the matched nodes, parents before their children.
+func matchNodeName(doc *vrm.Document, pattern string, nodeMap map[string]int) []int {
 	var result []int
 	if strings.Contains(pattern, "*") || strings.Contains(pattern, "?") {
 		for name, id := range nodeMap {
@@ -117,6 +119,23 @@ func matchNodeName(pattern string, nodeMap map[string]int) []int {
 				result = append(result, id)
 			}
 		}
+		depth := make([]int, len(doc.Nodes))
+		var visit func(id uint32, d int)
+		visit = func(id uint32, d int) {
+			if d > depth[id] {
+				depth[id] = d
+			}
+			for _, c := range doc.Nodes[id].Children {
+				visit(c, d+1)
+			}
+		}
+		for i := range doc.Nodes {
+			visit(uint32(i), 0)
+		}
+		sort.Slice(result, func(i, j int) bool {
+			a, b := result[i], result[j]
+			return depth[a] < depth[b] || depth[a] == depth[b] && a < b
+		})
 	} else if id, ok := nodeMap[pattern]; ok {
 		result = append(result, id)
 	}
@@ -250,7 +269,7 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 	for _, boneGroup := range conf.AnimationBoneGroups {
 		var b = boneGroup.SecondaryAnimationBoneGroup
 		for _, nodeName := range boneGroup.NodeNames {
-			matched := matchNodeName(nodeName, nodeMap)
+			matched := matchNodeName(doc, nodeName, nodeMap)
 			for _, n := range matched {
 				if doc.Nodes[n].Mesh != nil {
 					log.Printf("ERROR: %v is not bone node!", nodeName)
-- 
2.43.0


From 1198fd52b25558c522c3f763d9b0182887187ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:00 +0000
Subject: [PATCH 131/142] fix: vrmconfig: keep references of spring bones to
 their collider groups

---
 converter/vrmconfig.go | 51 +++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 6a27ce6..c1eae94 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -106,7 +106,17 @@ func (c *Config) MergePreset(preset *Config) {
 	}
 	c.BoneMappings = append(c.BoneMappings, preset.BoneMappings...)
 	c.MorphMappings = append(c.MorphMappings, preset.MorphMappings...)
-	c.AnimationBoneGroups = append(c.AnimationBoneGroups, preset.AnimationBoneGroups...)
+	for _, g := range preset.AnimationBoneGroups {
+		// Indices in the preset are relative to its collider groups.
+		group := *g
+		group.ColliderGroups = nil
+		for _, i := range g.ColliderGroups {
+			if i >= 0 {
+				group.ColliderGroups = append(group.ColliderGroups, i+len(c.ColliderGroups))
+			}
+		}
+		c.AnimationBoneGroups = append(c.AnimationBoneGroups, &group)
+	}
 	c.ColliderGroups = append(c.ColliderGroups, preset.ColliderGroups...)
 }
 
@@ -266,8 +276,33 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 		}
 	}
 
+	colliderIndex := map[int]int{}
+	for i, colliderGroup := range conf.ColliderGroups {
+		var b = colliderGroup.SecondaryAnimationColliderGroup
+		if id, ok := nodeMap[colliderGroup.NodeName]; ok && colliderGroup.NodeName != "" {
+			b.Node = uint32(id)
+		} else {
+			log.Println("Node not found:", colliderGroup.NodeName)
+			continue
+		}
+		if ext.SecondaryAnimation == nil {
+			ext.SecondaryAnimation = &vrm.SecondaryAnimation{}
+		}
+		colliderIndex[i] = len(ext.SecondaryAnimation.ColliderGroups)
+		ext.SecondaryAnimation.ColliderGroups = append(ext.SecondaryAnimation.ColliderGroups, &b)
+	}
+
 	for _, boneGroup := range conf.AnimationBoneGroups {
 		var b = boneGroup.SecondaryAnimationBoneGroup
+		b.ColliderGroups = nil
+		for _, i := range boneGroup.ColliderGroups {
+			if idx, ok := colliderIndex[i]; ok {
+				b.ColliderGroups = append(b.ColliderGroups, idx)
+			}
+		}
+		if b.Center < 0 || b.Center >= len(doc.Nodes) {
+			b.Center = -1
+		}
 		for _, nodeName := range boneGroup.NodeNames {
 			matched := matchNodeName(doc, nodeName, nodeMap)
 			for _, n := range matched {
@@ -294,20 +329,6 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 		}
 	}
 
-	for _, colliderGroup := range conf.ColliderGroups {
-		var b = colliderGroup.SecondaryAnimationColliderGroup
-		if id, ok := nodeMap[colliderGroup.NodeName]; ok {
-			b.Node = uint32(id)
-		} else {
-			log.Println("Node not found:", colliderGroup.NodeName)
-			continue
-		}
-		if ext.SecondaryAnimation == nil {
-			ext.SecondaryAnimation = &vrm.SecondaryAnimation{}
-		}
-		ext.SecondaryAnimation.ColliderGroups = append(ext.SecondaryAnimation.ColliderGroups, &b)
-	}
-
 	targets := map[string][2]int{}
 	for mi, mesh := range doc.Meshes {
 		for i, name := range morphTargetNames(mesh) {
-- 
2.43.0


From 78ad709846fc56e014a3a77d5cee410d2fecc17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:25 +0000
Subject: [PATCH 132/142] fix: vmd: keep one key per frame of a bone or morph

---
 mmd/vmd_parser.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mmd/vmd_parser.go b/mmd/vmd_parser.go
index 858abba..2d6bdb2 100644
--- a/mmd/vmd_parser.go
+++ b/mmd/vmd_parser.go
@@ -70,7 +70,7 @@ type MorphChannel struct {
 }
 
 func (a *Animation) GetBoneChannels() map[string]*BoneChannel {
-	sort.Slice(a.Bone, func(i, j int) bool { return a.Bone[i].Frame < a.Bone[j].Frame })
+	sort.SliceStable(a.Bone, func(i, j int) bool { return a.Bone[i].Frame < a.Bone[j].Frame })
 
 	r := map[string]*BoneChannel{}
 	for _, s := range a.Bone {
@@ -79,6 +79,11 @@ func (a *Animation) GetBoneChannels() map[string]*BoneChannel {
 			a = &BoneChannel{Target: s.Target}
 			r[s.Target] = a
 		}
+		if n := len(a.Frames) - 1; n >= 0 && a.Frames[n] == uint32(s.Frame) {
+			// The last key of the frame is used.
+			a.Rotations[n], a.Positions[n] = &s.Rotation, &s.Position
+			continue
+		}
 		a.Frames = append(a.Frames, uint32(s.Frame))
 		a.Rotations = append(a.Rotations, &s.Rotation)
 		a.Positions = append(a.Positions, &s.Position)
@@ -87,7 +92,7 @@ func (a *Animation) GetBoneChannels() map[string]*BoneChannel {
 }
 
 func (a *Animation) GetMorphChannels() map[string]*MorphChannel {
-	sort.Slice(a.Morph, func(i, j int) bool { return a.Morph[i].Frame < a.Morph[j].Frame })
+	sort.SliceStable(a.Morph, func(i, j int) bool { return a.Morph[i].Frame < a.Morph[j].Frame })
 
 	r := map[string]*MorphChannel{}
 	for _, s := range a.Morph {
@@ -96,6 +101,11 @@ func (a *Animation) GetMorphChannels() map[string]*MorphChannel {
 			a = &MorphChannel{Target: s.Target}
 			r[s.Target] = a
 		}
+		if n := len(a.Frames) - 1; n >= 0 && a.Frames[n] == uint32(s.Frame) {
+			// The last key of the frame is used.
+			a.Weights[n] = s.Value
+			continue
+		}
 		a.Frames = append(a.Frames, uint32(s.Frame))
 		a.Weights = append(a.Weights, s.Value)
 	}
-- 
2.43.0


From 6e400710269f0f1ff1cbf9ff4740a7edcbfe279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:26 +0000
Subject: [PATCH 133/142] fix: glbanim: move child bones relative to their own
 rest position

---
 converter/glbanim.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index 00f9aaf..6d76ff6 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -68,11 +68,9 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 			}
 
 			var rot mqo.Vector3
-			var pos mqo.Vector3
 			qOffset := mqo.Vector4{X: 0, Y: 0, Z: 0, W: 1}
 			if b, ok := bones[uint32(n)]; ok {
 				rot = b.RotationOffset
-				pos = b.Pos.Vector3
 
 				if boneByID[b.Parent] != nil && b.RotationOffset.X != boneByID[b.Parent].RotationOffset.X {
 					// TODO rotation matrix
@@ -132,6 +130,8 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 				})
 			}
 
+			// Keys are relative to the rest position of the node.
+			rest := doc.Nodes[n].Translation
 			translate := false
 			var translations [][3]float32
 			for _, s := range channel.Positions {
@@ -151,7 +151,7 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 				if *s != (mmd.Vector3{X: 0, Y: 0, Z: 0}) {
 					translate = true
 				}
-				translations = append(translations, [3]float32{pos.X*0.001 + r[0], pos.Y*0.001 + r[1], pos.Z*0.001 + r[2]})
+				translations = append(translations, [3]float32{rest[0] + r[0], rest[1] + r[1], rest[2] + r[2]})
 			}
 			if translate {
 				log.Println("Translate channel:", channel.Target)
-- 
2.43.0


From 8a09fab19e3cf5cbce7188d23122062d411ffaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:26 +0000
Subject: [PATCH 134/142] fix: glbanim: write bounds of key times

---
 converter/glbanim.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index 6d76ff6..7255e28 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -22,6 +22,20 @@ func keysEquals(a, b []uint32) bool {
 	return true
 }
 
+// writeKeys adds the key times of a sampler. glTF requires bounds of the times.
+func writeKeys(doc *gltf.Document, frames []uint32) uint32 {
+	keys := make([]float32, len(frames))
+	for i, f := range frames {
+		keys[i] = float32(f) / 30
+	}
+	acc := modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, keys)
+	if len(keys) > 0 {
+		doc.Accessors[acc].Min = []float32{keys[0]}
+		doc.Accessors[acc].Max = []float32{keys[len(keys)-1]}
+	}
+	return acc
+}
+
 func isDefaultRotations(samples []*mmd.Vector4) bool {
 	ident := mmd.Vector4{X: 0, Y: 0, Z: 0, W: 1}
 	for _, q := range samples {
@@ -60,11 +74,7 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 			if prevCh != nil && keysEquals(channel.Frames, prevCh.Frames) {
 				keysAcc = prevKeysAcc
 			} else {
-				var keys []float32
-				for _, k := range channel.Frames {
-					keys = append(keys, float32(k)/30)
-				}
-				keysAcc = modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, keys)
+				keysAcc = writeKeys(doc, channel.Frames)
 			}
 
 			var rot mqo.Vector3
@@ -210,12 +220,7 @@ func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*
 	}
 
 	for ni, mm := range nodeChannels {
-		var keys []float32
-		for _, k := range mm[0].Frames {
-			keys = append(keys, float32(k)/30)
-		}
-
-		sampleCount := len(keys)
+		sampleCount := len(mm[0].Frames)
 		sampleSize := targets[mm[0].Target][2]
 		weights := make([]uint8, sampleSize*sampleCount)
 
@@ -230,7 +235,7 @@ func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*
 		}
 		log.Print(doc.Nodes[ni], weights)
 
-		keysAcc := modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, keys)
+		keysAcc := writeKeys(doc, mm[0].Frames)
 		weightsAcc := modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, weights)
 		doc.Accessors[weightsAcc].Normalized = true
 
-- 
2.43.0


From dd08f093f67f41612586a9ae28211e752804e336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:27 +0000
Subject: [PATCH 135/142] fix: glbanim: drive the morphs of every mesh

---
 converter/glbanim.go | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index 7255e28..69fa306 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -192,8 +192,7 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 }
 
 func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*mmd.MorphChannel) {
-	targets := map[string][3]int{} // targetName => [node, targetIndex]
-	for i, n := range doc.Nodes {
+	for ni, n := range doc.Nodes {
 		if n.Mesh == nil {
 			continue
 		}
@@ -201,27 +200,20 @@ func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*
 			continue
 		}
 
-		if extras, ok := doc.Meshes[*n.Mesh].Extras.(map[string]interface{}); ok {
-			if names, ok := extras["targetNames"].([]string); ok {
-				for ti, name := range names {
-					// TODO multiple mesh
-					targets[name] = [3]int{i, ti, len(names)}
-				}
+		sampleSize := len(doc.Meshes[*n.Mesh].Primitives[0].Targets)
+		targets := map[string]int{} // targetName => targetIndex
+		var mm []*mmd.MorphChannel
+		for ti, name := range morphTargetNames(doc.Meshes[*n.Mesh]) {
+			if m, ok := morphs[name]; ok && ti < sampleSize {
+				targets[name] = ti
+				mm = append(mm, m)
 			}
 		}
-	}
-
-	nodeChannels := map[int][]*mmd.MorphChannel{}
-	for _, m := range morphs {
-		if _, exits := targets[m.Target]; !exits {
+		if len(mm) == 0 {
 			continue
 		}
-		nodeChannels[targets[m.Target][0]] = append(nodeChannels[targets[m.Target][0]], m)
-	}
 
-	for ni, mm := range nodeChannels {
 		sampleCount := len(mm[0].Frames)
-		sampleSize := targets[mm[0].Target][2]
 		weights := make([]uint8, sampleSize*sampleCount)
 
 		for _, m := range mm {
@@ -230,7 +222,7 @@ func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*
 				continue
 			}
 			for f, v := range m.Weights {
-				weights[f*sampleSize+targets[m.Target][1]] = uint8(v * 255)
+				weights[f*sampleSize+targets[m.Target]] = uint8(v * 255)
 			}
 		}
 		log.Print(doc.Nodes[ni], weights)
-- 
2.43.0


From 41d55c7e7c00b5d0acef186eae75925fcddb9d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:28 +0000
Subject: [PATCH 136/142] fix: glbanim: keep morph weights outside of 0 to 1

---
 converter/glbanim.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index 69fa306..57e3525 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -214,7 +214,7 @@ func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*
 		}
 
 		sampleCount := len(mm[0].Frames)
-		weights := make([]uint8, sampleSize*sampleCount)
+		weights := make([]float32, sampleSize*sampleCount)
 
 		for _, m := range mm {
 			if len(m.Frames) != sampleCount {
@@ -222,14 +222,13 @@ func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*
 				continue
 			}
 			for f, v := range m.Weights {
-				weights[f*sampleSize+targets[m.Target]] = uint8(v * 255)
+				weights[f*sampleSize+targets[m.Target]] = v
 			}
 		}
 		log.Print(doc.Nodes[ni], weights)
 
 		keysAcc := writeKeys(doc, mm[0].Frames)
 		weightsAcc := modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, weights)
-		doc.Accessors[weightsAcc].Normalized = true
 
 		a.Samplers = append(a.Samplers, &gltf.AnimationSampler{
 			Input:         gltf.Index(uint32(keysAcc)),
-- 
2.43.0


From ae71ca7fe41f7037f0c01bfb56022e0cfac615e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:28 +0000
Subject: [PATCH 137/142] fix: glbanim: merge the keys of the morphs of a mesh

---
 converter/glbanim.go | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index 57e3525..ac55fc5 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -3,6 +3,7 @@ package converter
 import (
 	"log"
 	"math"
+	"sort"
 
 	"github.com/binzume/modelconv/mmd"
 	"github.com/binzume/modelconv/mqo"
@@ -191,6 +192,35 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 	}
 }
 
+// mergeFrames returns the frames at which any of the channels has a key.
+func mergeFrames(channels []*mmd.MorphChannel) []uint32 {
+	exists := map[uint32]bool{}
+	var frames []uint32
+	for _, c := range channels {
+		for _, f := range c.Frames {
+			if !exists[f] {
+				exists[f] = true
+				frames = append(frames, f)
+			}
+		}
+	}
+	sort.Slice(frames, func(i, j int) bool { return frames[i] < frames[j] })
+	return frames
+}
+
+// morphWeightAt returns the linearly interpolated weight.
+func morphWeightAt(c *mmd.MorphChannel, frame uint32) float32 {
+	i := sort.Search(len(c.Frames), func(i int) bool { return c.Frames[i] >= frame })
+	if i == len(c.Frames) {
+		return c.Weights[i-1]
+	}
+	if i == 0 || c.Frames[i] == frame {
+		return c.Weights[i]
+	}
+	t := float32(frame-c.Frames[i-1]) / float32(c.Frames[i]-c.Frames[i-1])
+	return c.Weights[i-1]*(1-t) + c.Weights[i]*t
+}
+
 func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*mmd.MorphChannel) {
 	for ni, n := range doc.Nodes {
 		if n.Mesh == nil {
@@ -213,21 +243,18 @@ func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*
 			continue
 		}
 
-		sampleCount := len(mm[0].Frames)
+		frames := mergeFrames(mm)
+		sampleCount := len(frames)
 		weights := make([]float32, sampleSize*sampleCount)
 
 		for _, m := range mm {
-			if len(m.Frames) != sampleCount {
-				log.Print("TODO: resample", m.Target, len(m.Frames), sampleCount)
-				continue
-			}
-			for f, v := range m.Weights {
-				weights[f*sampleSize+targets[m.Target]] = v
+			for i, f := range frames {
+				weights[i*sampleSize+targets[m.Target]] = morphWeightAt(m, f)
 			}
 		}
 		log.Print(doc.Nodes[ni], weights)
 
-		keysAcc := writeKeys(doc, mm[0].Frames)
+		keysAcc := writeKeys(doc, frames)
 		weightsAcc := modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, weights)
 
 		a.Samplers = append(a.Samplers, &gltf.AnimationSampler{
-- 
2.43.0


From 550a0820a315c5d8cbbdd0e724d1c3dd9e5d03f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:13 +0000
Subject: [PATCH 138/142] fix: chparent: report a missing parent bone instead
 of crashing

---
 cmd/modelconv/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index 9ba2719..8ad8996 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -285,7 +285,11 @@ func main() {
 				continue
 			}
 			if b, ok := boneByName[boneAndParent[0]]; ok {
-				b.Parent = boneByName[boneAndParent[1]].ID
+				parent, ok := boneByName[boneAndParent[1]]
+				if !ok {
+					log.Fatal("parent bone not found: ", n)
+				}
+				b.Parent = parent.ID
 			}
 		}
 	}
-- 
2.43.0


From 34bcf5743b7d4f22a3e6f8aeac8e37ccbe7d64e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:14 +0000
Subject: [PATCH 139/142] fix: report a vrmconfig that can not be applied
 instead of crashing

---
 cmd/modelconv/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index 8ad8996..d303ddb 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -102,13 +102,13 @@ func saveGltfDocument(doc *gltf.Document, output, ext, srcDir, vrmConf string) e
 			conf.ExportAllMorph = true
 		}
 		vrmdoc, err := converter.ApplyVRMConfig(doc, output, srcDir, conf)
-		if err := vrmdoc.ValidateBones(); err != nil {
-			log.Print(err)
-		}
 		if err != nil {
 			gltfutil.SaveBinary(doc, output) // for debug
 			return err
 		}
+		if err := vrmdoc.ValidateBones(); err != nil {
+			log.Print(err)
+		}
 		return gltfutil.SaveBinary(doc, output)
 	}
 	return fmt.Errorf("Unsuppored output type: %v", ext)
-- 
2.43.0


From df2f78f471129309d1c2058db07f0c1245b0ed26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:26 +0000
Subject: [PATCH 140/142] fix: mqo2gltf: list the used extensions in a fixed
 order

---
 converter/mqo2gltf.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 0f677b3..101fb4b 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -7,6 +7,7 @@ import (
 	"math"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	"github.com/binzume/modelconv/geom"
@@ -960,6 +961,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 	for ext := range m.extensions {
 		m.ExtensionsUsed = append(m.ExtensionsUsed, ext)
 	}
+	sort.Strings(m.ExtensionsUsed)
 
 	if len(m.Document.Textures) > 0 {
 		m.Document.Samplers = []*gltf.Sampler{{}}
-- 
2.43.0


From 637687dd0afe579038791db3987b9b0dfbf4898d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:27 +0000
Subject: [PATCH 141/142] fix: glbanim: write the bone channels in a fixed
 order

---
 converter/glbanim.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index ac55fc5..6be38ce 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -50,10 +50,21 @@ func isDefaultRotations(samples []*mmd.Vector4) bool {
 func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mqo.Bone, bb map[string]*mmd.BoneChannel) {
 	var scale float32 = 80 * 0.001
 
+	var nodes []int
+	for n := range bones {
+		nodes = append(nodes, int(n))
+	}
+	sort.Ints(nodes)
 	boneToNode := map[string]int{}
-	for n, b := range bones {
-		boneToNode[b.Name] = int(n)
+	for _, n := range nodes {
+		boneToNode[bones[uint32(n)].Name] = n
+	}
+
+	var names []string
+	for name := range bb {
+		names = append(names, name)
 	}
+	sort.Strings(names)
 
 	boneByID := map[int]*mqo.Bone{}
 	for _, b := range bones {
@@ -69,7 +80,8 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 
 	var prevCh *mmd.BoneChannel
 	var prevKeysAcc uint32
-	for _, channel := range bb {
+	for _, name := range names {
+		channel := bb[name]
 		if n, ok := boneToNode[channel.Target]; ok {
 			var keysAcc uint32
 			if prevCh != nil && keysEquals(channel.Frames, prevCh.Frames) {
-- 
2.43.0


From 11cd93a11c45df069c1c1506be66cc295aa23696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:12 +0000
Subject: [PATCH 142/142] fix: exported lights no longer move the mesh or
 physics bodies of their object

The vertexes and bodies are in world coordinates. The light gets its own node.
---
 converter/mqo2gltf.go | 44 +++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 101fb4b..8dd36d6 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -871,6 +871,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 		}
 
 		node := &gltf.Node{Name: obj.Name}
+		var lightNode *gltf.Node
 		if obj.Visible {
 			var shared *geomCache
 			if key, ok := obj.Extra["sharedGeometryKey"].(string); m.ReuseGeometry && ok && obj.InternalTransform != nil {
@@ -888,30 +889,32 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 			}
 			if m.ExportLights {
 				if lightParam, ok := obj.Extra["light"].(map[string]interface{}); ok {
-					if node.Extensions == nil {
-						node.Extensions = gltf.Extensions{}
+					lightNode = node
+					if obj.InternalTransform != nil && (node.Mesh != nil || m.ConvertPhysics) {
+						// vertexes and physics bodies are in world coordinates. do not move them.
+						lightNode = &gltf.Node{Name: obj.Name}
 					}
-					node.Extensions["KHR_lights_punctual"] = map[string]interface{}{"light": len(lights)}
+					lightNode.Extensions = gltf.Extensions{}
+					lightNode.Extensions["KHR_lights_punctual"] = map[string]interface{}{"light": len(lights)}
 					lights = append(lights, lightParam)
 				}
 			}
 			if len(mesh.Primitives) == 0 || shared != nil && (shared.attributes == nil || mesh.Primitives[0].Attributes["POSITION"] != shared.attributes["POSITION"]) {
 				shared = nil // not shared
 			}
-			if (m.ExportLights && obj.Extra["light"] != nil || shared != nil) && obj.InternalTransform != nil {
-				mat := obj.InternalTransform
-				if shared != nil {
-					mat = mat.Mul(shared.matrix)
-				}
-				mat.TranslationScale(m.Scale).ToArray(node.Matrix[:])
-				// workaround: avoid missing mesh issue in Windows 3D viewer?
-				node.Matrix[3] = 0
-				node.Matrix[7] = 0
-				node.Matrix[11] = 0
-				node.Matrix[15] = 1
+			if shared != nil && obj.InternalTransform != nil {
+				m.setNodeMatrix(node, obj.InternalTransform.Mul(shared.matrix))
+			}
+			if lightNode != nil && obj.InternalTransform != nil {
+				m.setNodeMatrix(lightNode, obj.InternalTransform)
 			}
 		}
 		m.Nodes[i] = node
+		nodeIDs := []uint32{uint32(i)}
+		if lightNode != nil && lightNode != node {
+			nodeIDs = append(nodeIDs, uint32(len(m.Nodes)))
+			m.Nodes = append(m.Nodes, lightNode)
+		}
 		// node.AddChild()
 		for len(nodePath) > 0 && nodeDepth[len(nodePath)-1] >= obj.Depth {
 			nodePath = nodePath[:len(nodePath)-1]
@@ -919,9 +922,9 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 		}
 		if !m.IgnoreObjectHierarchy && len(nodePath) > 0 {
 			parent := nodePath[len(nodePath)-1]
-			parent.Children = append(parent.Children, uint32(i))
+			parent.Children = append(parent.Children, nodeIDs...)
 		} else {
-			m.Scenes[0].Nodes = append(m.Scenes[0].Nodes, uint32(i))
+			m.Scenes[0].Nodes = append(m.Scenes[0].Nodes, nodeIDs...)
 		}
 		if node.MatrixOrDefault() == gltf.DefaultMatrix {
 			nodePath = append(nodePath, node)
@@ -970,6 +973,15 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 	return m.Document, nil
 }
 
+func (m *mqoToGltf) setNodeMatrix(node *gltf.Node, mat *geom.Matrix4) {
+	mat.TranslationScale(m.Scale).ToArray(node.Matrix[:])
+	// workaround: avoid missing mesh issue in Windows 3D viewer?
+	node.Matrix[3] = 0
+	node.Matrix[7] = 0
+	node.Matrix[11] = 0
+	node.Matrix[15] = 1
+}
+
 func addPhysicsBody(node *gltf.Node, body *mqo.PhysicsBody, scale float32, nodePos *geom.Vector3) {
 	var shapes []map[string]interface{}
 
-- 
2.43.0

