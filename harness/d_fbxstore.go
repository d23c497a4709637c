package main

import (
	"bytes"
	"compress/zlib"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/geom"
)

// FAttr is an abstract attribute: v is a string, or a list of strings.
type FAttr struct {
	K string      `json:"k"`
	V interface{} `json:"v"`
}
type FNode struct {
	N string  `json:"n"`
	A []FAttr `json:"a"`
	C []FNode `json:"c"`
}

// FObs is everything the API says about an attribute.
type FObs struct {
	G  string      `json:"g"`
	V  interface{} `json:"v"`
	I  string      `json:"i"`
	F  string      `json:"f"`
	D  string      `json:"d"`
	S  string      `json:"s"`
	AI []string    `json:"ai"`
	AF []string    `json:"af"`
	AD []string    `json:"ad"`
}
type FONode struct {
	N string   `json:"n"`
	A []FObs   `json:"a"`
	C []FONode `json:"c"`
}

func fs32(v float32) string { return strconv.Itoa(bits(v)) }
func fs64(v float64) string {
	if v == 0 {
		return "0"
	}
	return strconv.FormatFloat(v, 'g', -1, 64)
}
func si(v int64) string    { return strconv.FormatInt(v, 10) }
func mark(s string) string { return strings.ReplaceAll(s, "\x00\x01", "<00><01>") }
func strs(v interface{}) []string {
	r := []string{}
	if a, ok := v.([]interface{}); ok {
		for _, x := range a {
			r = append(r, x.(string))
		}
	}
	if a, ok := v.([]string); ok {
		return a
	}
	return r
}
func str1(v interface{}) string { s, _ := v.(string); return s }

func obsAttr(a *fbx.Attribute) FObs {
	o := FObs{G: "nil", V: "", AI: []string{}, AF: []string{}, AD: []string{}}
	if a == nil {
		return o
	}
	o.I, o.F, o.D, o.S = si(a.ToInt64(-77)), fs32(a.ToFloat32(-77)), fs64(a.ToFloat64(-77)), mark(a.ToString())
	for _, v := range a.ToFloat32Array() {
		o.AF = append(o.AF, fs32(v))
	}
	arr := func(g string, n int, f func(i int) string) {
		l := []string{}
		for i := 0; i < n; i++ {
			l = append(l, f(i))
		}
		o.G, o.V = g, l
	}
	ints := func(g string, n int, f func(i int) int64) {
		arr(g, n, func(i int) string { return si(f(i)) })
		for i := 0; i < n; i++ {
			o.AI = append(o.AI, si(f(i)))
			o.AD = append(o.AD, fs64(float64(f(i))))
		}
		if n > 0 {
			for i, v := range a.ToInt32Array() {
				if int64(v) != f(i) && f(i) == int64(int32(f(i))) {
					o.AI[i] = "int32 view differs: " + si(int64(v))
				}
			}
		}
	}
	switch v := a.Value.(type) {
	case uint8:
		o.G, o.V = "C", si(int64(v))
	case int8:
		o.G, o.V = "B", si(int64(v))
	case int16:
		o.G, o.V = "Y", si(int64(v))
	case int32:
		o.G, o.V = "I", si(int64(v))
	case int64:
		o.G, o.V = "L", si(v)
	case int:
		o.G, o.V = "int", si(int64(v))
	case float32:
		o.G, o.V = "F", fs32(v)
	case float64:
		o.G, o.V = "D", fs64(v)
	case string:
		o.G, o.V = "S", mark(v)
	case []byte:
		o.G, o.V, o.S = "R", base64.StdEncoding.EncodeToString(v), ""
	case []int8:
		ints("b", len(v), func(i int) int64 { return int64(v[i]) })
	case []int16:
		ints("y", len(v), func(i int) int64 { return int64(v[i]) })
	case []int32:
		ints("i", len(v), func(i int) int64 { return int64(v[i]) })
	case []int64:
		ints("l", len(v), func(i int) int64 { return v[i] })
	case []float32:
		arr("f", len(v), func(i int) string { return fs32(v[i]) })
	case []float64:
		arr("d", len(v), func(i int) string { return fs64(v[i]) })
		for i := range v {
			o.AD = append(o.AD, fs64(v[i]))
		}
	default:
		o.G = fmt.Sprintf("%T", v)
	}
	return o
}

func obsNode(n *fbx.Node) FONode {
	o := FONode{N: n.Name, A: []FObs{}, C: []FONode{}}
	for _, a := range n.Attributes {
		o.A = append(o.A, obsAttr(a))
	}
	for _, c := range n.Children {
		o.C = append(o.C, obsNode(c))
	}
	return o
}

// goAttr is the binary value of an abstract attribute.
func attrInt(s string) int64 { v, err := strconv.ParseInt(s, 10, 64); must(err); return v }
func attrF64(s string) float64 {
	v, err := strconv.ParseFloat(s, 64)
	must(err)
	return v
}
func attrF32(s string) float32 { return unbits(int(attrInt(s))) }

// encodeFbx writes the binary form independently of the tool.
func encodeFbx(root FNode, version uint32, compress bool) []byte {
	var b bytes.Buffer
	b.WriteString("Kaydara FBX Binary  \x00\x1a\x00")
	le := binary.LittleEndian
	binary.Write(&b, le, version)
	wide := version >= 7500
	hdr := 13
	if wide {
		hdr = 25
	}
	var enc func(n FNode, base int) []byte
	enc = func(n FNode, base int) []byte {
		var ps bytes.Buffer
		for _, a := range n.A {
			encodeFAttr(&ps, a, compress)
		}
		body := append([]byte{}, ps.Bytes()...)
		pos := base + hdr + len(n.N) + len(body)
		if len(n.C) > 0 || len(n.A) == 0 {
			for _, c := range n.C {
				e := enc(c, pos)
				body = append(body, e...)
				pos += len(e)
			}
			body = append(body, make([]byte, hdr)...)
			pos += hdr
		}
		var o bytes.Buffer
		if wide {
			binary.Write(&o, le, uint64(pos))
			binary.Write(&o, le, uint64(len(n.A)))
			binary.Write(&o, le, uint64(ps.Len()))
		} else {
			binary.Write(&o, le, uint32(pos))
			binary.Write(&o, le, uint32(len(n.A)))
			binary.Write(&o, le, uint32(ps.Len()))
		}
		o.WriteByte(byte(len(n.N)))
		o.WriteString(n.N)
		o.Write(body)
		return o.Bytes()
	}
	for _, c := range root.C {
		b.Write(enc(c, b.Len()))
	}
	b.Write(make([]byte, hdr))
	// footer: ids, padding, version, magic
	b.Write([]byte{0xfa, 0xbc, 0xab, 0x09, 0xd0, 0xc8, 0xd4, 0x66, 0xb1, 0x76, 0xfb, 0x83, 0x1c, 0xf7, 0x26, 0x7e})
	b.Write(make([]byte, 4+(16-b.Len()%16)%16))
	binary.Write(&b, le, version)
	b.Write(make([]byte, 120))
	b.Write([]byte{0xf8, 0x5a, 0x8c, 0x6a, 0xde, 0xf5, 0xd9, 0x7e, 0xec, 0xe9, 0x0c, 0xe3, 0x75, 0x8f, 0x29, 0x0b})
	return b.Bytes()
}

func encodeFAttr(b *bytes.Buffer, a FAttr, compress bool) {
	le := binary.LittleEndian
	w := func(v interface{}) { binary.Write(b, le, v) }
	sv := str1(a.V)
	arr := strs(a.V)
	array := func(one func(w io.Writer, s string)) {
		var d bytes.Buffer
		for _, s := range arr {
			one(&d, s)
		}
		w(uint32(len(arr)))
		if compress {
			var z bytes.Buffer
			zw := zlib.NewWriter(&z)
			zw.Write(d.Bytes())
			zw.Close()
			w(uint32(1))
			w(uint32(z.Len()))
			b.Write(z.Bytes())
		} else {
			w(uint32(0))
			w(uint32(d.Len()))
			b.Write(d.Bytes())
		}
	}
	switch a.K {
	case "N":
		n := strs(a.V)
		s := n[0] + "\x00\x01" + n[1]
		b.WriteByte('S')
		w(uint32(len(s)))
		b.WriteString(s)
		return
	case "R":
		d, err := base64.StdEncoding.DecodeString(sv)
		must(err)
		b.WriteByte('R')
		w(uint32(len(d)))
		b.Write(d)
		return
	}
	b.WriteByte(a.K[0])
	switch a.K {
	case "C":
		w(uint8(attrInt(sv)))
	case "B":
		w(int8(attrInt(sv)))
	case "Y":
		w(int16(attrInt(sv)))
	case "I":
		w(int32(attrInt(sv)))
	case "L":
		w(attrInt(sv))
	case "F":
		w(attrF32(sv))
	case "D":
		w(attrF64(sv))
	case "S":
		w(uint32(len(sv)))
		b.WriteString(sv)
	case "b":
		array(func(d io.Writer, s string) { binary.Write(d, le, int8(attrInt(s))) })
	case "y":
		array(func(d io.Writer, s string) { binary.Write(d, le, int16(attrInt(s))) })
	case "i":
		array(func(d io.Writer, s string) { binary.Write(d, le, int32(attrInt(s))) })
	case "l":
		array(func(d io.Writer, s string) { binary.Write(d, le, attrInt(s)) })
	case "f":
		array(func(d io.Writer, s string) { binary.Write(d, le, attrF32(s)) })
	case "d":
		array(func(d io.Writer, s string) { binary.Write(d, le, attrF64(s)) })
	default:
		panic("harness: attr kind " + a.K)
	}
}

// encodeFbxText writes the text form independently of the tool.
func encodeFbxText(root FNode, head string) []byte {
	var b bytes.Buffer
	b.WriteString(head)
	esc := strings.NewReplacer("\"", "&quot;", "\n", "&lf;", "\r", "&cr;")
	num := func(s string) string {
		f := attrF32(s)
		return strconv.FormatFloat(float64(f), 'g', -1, 32)
	}
	var rec func(n FNode, ind string)
	rec = func(n FNode, ind string) {
		b.WriteString(ind + n.N + ": ")
		first := true
		for _, a := range n.A {
			if strings.Contains("byilfd", a.K) && len(strs(a.V)) == 0 {
				continue
			}
			if !first {
				b.WriteString(", ")
			}
			first = false
			switch a.K {
			case "F":
				b.WriteString(num(str1(a.V)))
			case "S":
				b.WriteString("\"" + esc.Replace(str1(a.V)) + "\"")
			case "N":
				v := strs(a.V)
				b.WriteString("\"" + v[1] + "::" + esc.Replace(v[0]) + "\"")
			case "R":
				b.WriteString("\"" + str1(a.V) + "\"")
			case "b", "y", "i", "l", "d", "f":
				l := strs(a.V)
				fmt.Fprintf(&b, "*%d {\n%s\ta: ", len(l), ind)
				for i, s := range l {
					if a.K == "f" {
						s = num(s)
					}
					if i > 0 {
						b.WriteString(",")
						if i%7 == 0 {
							b.WriteString("\n")
						}
					}
					b.WriteString(s)
				}
				b.WriteString("\n" + ind + "} ")
			default:
				b.WriteString(str1(a.V))
			}
		}
		if len(n.C) > 0 || len(n.A) == 0 {
			b.WriteString(" {\n")
			for _, c := range n.C {
				rec(c, ind+"\t")
			}
			b.WriteString(ind + "}\n")
		} else {
			b.WriteString("\n")
		}
	}
	for _, c := range root.C {
		rec(c, "")
	}
	for b.Len() < 24 {
		b.WriteString("; end\n")
	}
	return b.Bytes()
}

type FProp struct {
	N string      `json:"n"`
	T string      `json:"t"`
	L string      `json:"l"`
	F string      `json:"f"`
	V interface{} `json:"v"`
}
type FObj struct {
	ID     string   `json:"id"`
	Cls    string   `json:"cls"`
	Name   string   `json:"name"`
	Kind   string   `json:"kind"`
	Refs   []string `json:"refs"`
	Parent string   `json:"parent"`
	Props  []FProp  `json:"props"`
}

func objRefs(o fbx.Object) ([]string, string) {
	refs, parent := []string{}, ""
	var l []fbx.Object
	switch x := o.(type) {
	case *fbx.Model:
		l = x.Refs
		if x.Parent != nil {
			parent = si(x.Parent.ID())
		}
	case *fbx.Geometry:
		l = x.Refs
	case *fbx.Material:
		l = x.Refs
	case *fbx.Deformer:
		l = x.Refs
	case *fbx.Obj:
		l = x.Refs
	}
	for _, r := range l {
		refs = append(refs, si(r.ID()))
	}
	return refs, parent
}

// graphOf projects the resolved objects; props are looked up by name.
func graphOf(d *fbx.Document, names []string) []FObj {
	objs := []FObj{}
	for id, o := range d.ObjectByID {
		refs, parent := objRefs(o)
		f := FObj{ID: si(id), Refs: refs, Parent: parent, Props: []FProp{}}
		if id != 0 {
			f.Cls, f.Name, f.Kind = o.NodeName(), o.Name(), o.Kind()
			for _, n := range names {
				p := o.GetProperty(n)
				obs := []FObs{}
				for _, a := range p.AttributeList {
					obs = append(obs, obsAttr(a))
				}
				f.Props = append(f.Props, FProp{n, mark(p.Type), mark(p.Label), mark(p.Flag), obs})
			}
		}
		objs = append(objs, f)
	}
	sort.Slice(objs, func(i, j int) bool { return attrInt(objs[i].ID) < attrInt(objs[j].ID) })
	return objs
}

// apiGraph projects a document built through the API, in id order.
func apiObj(o fbx.Object) FObj {
	refs, parent := objRefs(o)
	f := FObj{ID: si(o.ID()), Refs: refs, Parent: parent, Props: []FProp{}}
	if o.NodeName() == "Scene\x00\x01Model" {
		return f
	}
	f.Cls, f.Name, f.Kind = o.NodeName(), o.Name(), o.Kind()
	vals := func(l []*fbx.Attribute) []string {
		r := []string{}
		for _, a := range l {
			if s, ok := a.Value.(string); ok {
				r = append(r, "s:"+mark(s))
			} else {
				r = append(r, fs32(a.ToFloat32(-77)))
			}
		}
		return r
	}
	for _, p := range o.GetNode().FindChild("Properties70").GetChildren() {
		n := p.Attr(0).ToString()
		q := o.GetProperty(n)
		f.Props = append(f.Props, FProp{n, q.Type, q.Label, q.Flag, vals(q.AttributeList)})
	}
	if g, ok := o.(*fbx.Geometry); ok {
		var l []string
		for _, v := range g.Vertices {
			l = append(l, fs32(v.X), fs32(v.Y), fs32(v.Z))
		}
		l = append(l, fmt.Sprint(g.Polygons))
		m := g.GetLayerElementMaterial()
		l = append(l, string(m.GetMappingInformationType()), m.GetReferenceInformationType(), fmt.Sprint(m.Array.GetInt32Array()))
		n := g.GetLayerElementNormal()
		l = append(l, string(n.GetMappingInformationType()), n.GetReferenceInformationType())
		for _, v := range n.Array.GetFloat32Array() {
			l = append(l, fs32(v))
		}
		u := g.GetLayerElementUV()
		l = append(l, string(u.GetMappingInformationType()), u.GetReferenceInformationType(), fmt.Sprint(u.GetIndexes()))
		for _, v := range u.Array.GetFloat32Array() {
			l = append(l, fs32(v))
		}
		f.Props = append(f.Props, FProp{"#geometry", "", "", "", l})
	}
	return f
}
func apiGraph(d *fbx.Document) []FObj {
	objs := []FObj{}
	for _, o := range d.ObjectByID {
		objs = append(objs, apiObj(o))
	}
	sort.Slice(objs, func(i, j int) bool { return attrInt(objs[i].ID) < attrInt(objs[j].ID) })
	return objs
}

type fbxOp struct {
	Op   string `json:"op"`
	Name string `json:"name,omitempty"`
	P    int    `json:"p"`
	C    int    `json:"c"`
	X    int    `json:"x"`
}
type fbxCase struct {
	Tree *FNode   `json:"tree,omitempty"`
	Fmts []string `json:"fmts,omitempty"`
	Head string   `json:"head,omitempty"`
	Ops  []fbxOp  `json:"ops,omitempty"`
}

type chunkReader struct {
	r io.Reader
	n int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(p) > c.n {
		p = p[:c.n]
	}
	return c.r.Read(p)
}

// parseFbx reads through a seekable file, a plain stream, or a stream delivering small portions.
func parseFbx(data []byte, how string) (*fbx.Document, error) {
	switch how {
	case "stream":
		return fbx.Parse(&chunkReader{bytes.NewReader(data), 1 << 30})
	case "small":
		return fbx.Parse(&chunkReader{bytes.NewReader(data), 3})
	}
	return fbx.Parse(bytes.NewReader(data))
}

func (g *gen) fattr() FAttr {
	n := func() int {
		if g.n(700) == 0 { // longer than any buffer of the readers
			return 4000 + g.n(1500)
		}
		return g.n(5)
	}
	ints := func(lo, hi int64) []string {
		r := []string{}
		for k := n(); k > 0; k-- {
			switch g.n(4) {
			case 0:
				r = append(r, si(lo))
			case 1:
				r = append(r, si(hi))
			default:
				r = append(r, si(lo+int64(g.r.Float64()*float64(hi-lo))))
			}
		}
		return r
	}
	f64 := func() string {
		switch g.n(4) {
		case 0:
			return fs64(float64(g.n(200) - 100))
		case 1:
			return fs64(g.r.NormFloat64() * math.Pow(10, float64(g.n(80)-40)))
		case 2:
			return g.pick("0", "1e-05", "-1e-05", "1e+21", "1.23456789012e+11", "0.1", "1e+300", "5e-324")
		}
		return fs64(g.r.NormFloat64())
	}
	f32 := func() string { return strconv.Itoa(g.f()) }
	switch g.n(16) {
	case 0:
		return FAttr{"C", si(int64(g.n(256)))}
	case 1:
		return FAttr{"B", si(int64(g.n(256) - 128))}
	case 2:
		return FAttr{"Y", si(int64(g.n(65536) - 32768))}
	case 3:
		return FAttr{"I", si(int64(int32(g.r.Uint32())))}
	case 4:
		return FAttr{"L", g.pick(si(int64(g.r.Uint64())), "9223372036854775807", "-9223372036854775808", "0", "46186158000")}
	case 5:
		return FAttr{"F", f32()}
	case 6:
		return FAttr{"D", f64()}
	case 7, 8:
		return FAttr{"S", g.pick("", "a", "Model::x", "頭", "C:\\tex\\n.png", "say \"hi\"", "two\nlines\r\n", "tab\there", "; not a comment", "{", "*3", "a, b", "\\", "é\u00a0", "100%")}
	case 9:
		return FAttr{"N", []string{g.pick("a", "頭", "x y", "ns:joint1", "", "q\"q"), g.pick("Model", "Geometry", "SubDeformer", "Material")}}
	case 10:
		b := make([]byte, g.n(9))
		g.r.Read(b)
		return FAttr{"R", base64.StdEncoding.EncodeToString(b)}
	case 11:
		return FAttr{"b", ints(-128, 127)}
	case 12:
		return FAttr{"i", ints(-2147483648, 2147483647)}
	case 13:
		return FAttr{"l", ints(-9000000000000000, 9000000000000000)}
	case 14:
		r := []string{}
		for k := n(); k > 0; k-- {
			r = append(r, f32())
		}
		return FAttr{"f", r}
	}
	r := []string{}
	for k := n(); k > 0; k-- {
		r = append(r, f64())
	}
	return FAttr{"d", r}
}

func (g *gen) fnode(depth int) FNode {
	n := FNode{N: g.pick("P", "Node", "a", "Properties70", "Layer-X", "N2", "_x", "Version"), A: []FAttr{}, C: []FNode{}}
	for k := g.n(4); k > 0; k-- {
		n.A = append(n.A, g.fattr())
	}
	if depth > 0 {
		for k := g.n(4); k > 0; k-- {
			n.C = append(n.C, g.fnode(depth-1))
		}
	}
	return n
}

func (g *gen) fprops() FNode {
	p := FNode{N: "Properties70", A: []FAttr{}, C: []FNode{}}
	for k := g.n(4); k > 0; k-- {
		a := []FAttr{{"S", g.pick("p1", "p2", "Lcl Scaling", "Color")}, {"S", g.pick("double", "KString")}, {"S", g.pick("", "Number")}, {"S", g.pick("", "A+")}}
		for q := g.n(4); q > 0; q-- {
			a = append(a, g.fattr())
		}
		p.C = append(p.C, FNode{N: "P", A: a, C: []FNode{}})
	}
	return p
}

func (g *gen) ftree() FNode {
	root := FNode{N: "_FBX_ROOT", A: []FAttr{}, C: []FNode{}}
	if g.p(40) {
		for k := g.n(4); k > 0; k-- {
			root.C = append(root.C, g.fnode(3))
		}
		return root
	}
	if g.p(30) {
		root.C = append(root.C, FNode{N: "FileId", A: []FAttr{{"R", "AAEC"}}, C: []FNode{}})
	}
	defs := FNode{N: "Definitions", A: []FAttr{}, C: []FNode{}}
	classes := []string{"Model", "Geometry", "Material", "Deformer", "Texture"}
	for _, c := range classes {
		if g.p(40) {
			o := FNode{N: "ObjectType", A: []FAttr{{"S", c}}, C: []FNode{}}
			if g.p(80) {
				o.C = append(o.C, FNode{N: "PropertyTemplate", A: []FAttr{{"S", "FbxNode"}}, C: []FNode{g.fprops()}})
			}
			defs.C = append(defs.C, o)
		}
	}
	objs := FNode{N: "Objects", A: []FAttr{}, C: []FNode{}}
	conns := FNode{N: "Connections", A: []FAttr{}, C: []FNode{}}
	ids := []string{"0"}
	for k := g.n(6); k > 0; k-- {
		c := classes[g.n(len(classes))]
		id := si(int64(len(ids)*1000 + g.n(100) + g.n(2)*5000000000))
		ids = append(ids, id)
		o := FNode{N: c, A: []FAttr{{"L", id}, {"N", []string{g.pick("a", "b", "頭"), c}}, {"S", g.pick("Mesh", "LimbNode", "")}}, C: []FNode{}}
		if g.p(80) {
			o.C = append(o.C, g.fprops())
		}
		if g.p(40) {
			o.C = append(o.C, g.fnode(1))
		}
		objs.C = append(objs.C, o)
	}
	ids = append(ids, "999")
	for k := g.n(8); k > 0; k-- {
		a := []FAttr{{"S", g.pick("OO", "OO", "OP", "PP")}, {"L", ids[g.n(len(ids))]}, {"L", ids[g.n(len(ids))]}}
		if str1(a[0].V) == "OP" {
			a = append(a, FAttr{"S", "DiffuseColor"})
		}
		conns.C = append(conns.C, FNode{N: "C", A: a, C: []FNode{}})
	}
	root.C = append(root.C, defs, objs, conns)
	return root
}

func propNames(n FNode, set map[string]bool) {
	if n.N == "P" && len(n.A) >= 4 {
		if s, ok := n.A[0].V.(string); ok && n.A[0].K == "S" {
			set[s] = true
		}
	}
	for _, c := range n.C {
		propNames(c, set)
	}
}

func runFbxOps(c fbxCase, emit func(Event)) {
	dir := scratch()
	defer rmScratch(dir)
	d := fbx.NewDocument()
	var objs = []fbx.Object{d.Scene}
	for i, op := range c.Ops {
		f := func(k int) float32 { return float32(i*3+k)*0.25 + unmilli(op.X) }
		switch op.Op {
		case "model":
			m := fbx.NewModel(op.Name, "Mesh")
			d.AddObject(m)
			objs = append(objs, m)
			emit(Event{"op": "add", "name": op.Name, "obj": apiObj(m)})
		case "mat":
			m := fbx.NewMaterial(op.Name)
			d.AddObject(m)
			objs = append(objs, m)
			emit(Event{"op": "add", "name": op.Name, "obj": apiObj(m)})
		case "geom":
			g := fbx.NewGeometry(op.Name, []*geom.Vector3{{X: f(0), Y: 0, Z: 1}, {X: 1, Y: 0, Z: 0}, {X: 1, Y: f(1), Z: 1e-5}, {X: 0, Y: 1, Z: 0}}, [][]int{{0, 1, 2}, {0, 2, 3, 1}})
			g.SetLayerElementMaterialIndex([]int32{0, 1}, fbx.ByPolygon)
			g.SetLayerElementNormal([]*geom.Vector3{{X: 0, Y: 1e-7, Z: f(2)}, {X: 1, Y: 0, Z: 0}}, fbx.ByVertice)
			g.SetLayerElementUVIndexed([]*geom.Vector2{{X: 0.5, Y: f(0)}}, []int32{0, 0, 0, 0, 0, 0, 0}, fbx.ByPolygonVertex)
			d.AddObject(g)
			objs = append(objs, g)
			emit(Event{"op": "add", "name": op.Name, "obj": apiObj(g)})
		case "conn":
			p, ch := objs[op.P], objs[op.C]
			d.AddConnection(p, ch)
			emit(Event{"op": "connect", "parent": si(p.ID()), "child": si(ch.ID())})
		case "settr":
			for _, o := range objs[1:] {
				if m, ok := o.(*fbx.Model); ok {
					m.SetTranslation(&geom.Vector3{X: f(0), Y: f(1), Z: -1e-6})
					emit(Event{"op": "setprop", "id": si(m.ID()), "prop": FProp{"Lcl Translation", "Lcl Translation", "", "A+", []string{fs32(f(0)), fs32(f(1)), fs32(-1e-6)}}})
				}
			}
		case "setcol":
			for _, o := range objs[1:] {
				if m, ok := o.(*fbx.Material); ok {
					m.SetColor("DiffuseColor", &geom.Vector3{X: 1, Y: f(1), Z: 0.1})
					emit(Event{"op": "setprop", "id": si(m.ID()), "prop": FProp{"DiffuseColor", "ColorRGB", "Color", "", []string{fs32(1), fs32(f(1)), fs32(0.1)}}})
				}
			}
		case "save":
			p := filepath.Join(dir, "x.fbx")
			err := fbx.Save(d, p)
			emit(Event{"op": "save", "ok": err == nil})
			d2, err := fbx.Load(p)
			ev := Event{"op": "load", "ok": err == nil, "objs": []FObj{}}
			if err == nil {
				ev["objs"] = apiGraph(d2)
			}
			emit(ev)
			continue
		}
		emit(Event{"op": "state", "objs": apiGraph(d)})
	}
}

func init() {
	reg("fbxstore", &Domain{
		Gen: func(r *rand.Rand, n int) []interface{} {
			var cs []interface{}
			for i := 0; i < n; i++ {
				g := &gen{r: r, exact: true}
				t := g.ftree()
				if g.p(8) { // arrays larger than any buffer
					a := FAttr{K: "i", V: []string{}}
					l := []string{}
					for k := 3000 + g.n(3000); k > 0; k-- {
						l = append(l, si(int64(int32(g.r.Uint32()))))
					}
					a.V = l
					t.C = append([]FNode{{N: "Big", A: []FAttr{a}, C: []FNode{{N: "x", A: []FAttr{{"S", "y"}}, C: []FNode{}}}}}, t.C...)
				}
				cs = append(cs, fbxCase{Tree: &t, Fmts: []string{g.pick("7100", "7400", "7400z"), g.pick("7500", "7500z", "7700z"), "text"}, Head: g.pick("; FBX 7.5.0 project file\n", ";\n", "; x\n\n;\n", "; FBX 7.3.0 project file\r\n; ----\r\n")})
				if i%4 == 0 {
					c := fbxCase{}
					for k := 3 + g.n(12); k > 0; k-- {
						no := 0
						for _, o := range c.Ops {
							if o.Op == "model" || o.Op == "geom" || o.Op == "mat" {
								no++
							}
						}
						op := fbxOp{Op: g.pick("model", "geom", "mat", "conn", "conn", "settr", "setcol", "save"), Name: g.pick("m", "頭", "a b", "n\"q", "x:y"), X: g.n(100000)}
						if op.Op == "conn" {
							if no < 1 {
								continue
							}
							op.C = 1 + g.n(no)
							op.P = g.n(op.C)
						}
						c.Ops = append(c.Ops, op)
					}
					c.Ops = append(c.Ops, fbxOp{Op: "save"})
					cs = append(cs, c)
				}
			}
			return cs
		},
		Run: func(body json.RawMessage, emit func(Event)) {
			var c fbxCase
			must(json.Unmarshal(body, &c))
			if c.Tree == nil {
				runFbxOps(c, emit)
				return
			}
			set := map[string]bool{"nope": true}
			propNames(*c.Tree, set)
			var names []string
			for n := range set {
				names = append(names, n)
			}
			sort.Strings(names)
			if c.Head == "" {
				c.Head = "; FBX 7.5.0 project file\n"
			}
			hows := []string{"file", "stream", "small"}
			for i, f := range c.Fmts {
				var data []byte
				kind := "binary"
				if f == "text" {
					data = encodeFbxText(*c.Tree, c.Head)
					kind = "text"
				} else {
					v := attrInt(strings.TrimSuffix(f, "z"))
					data = encodeFbx(*c.Tree, uint32(v), strings.HasSuffix(f, "z"))
				}
				emit(Event{"op": "file", "fmt": kind, "tree": c.Tree})
				how := hows[(i+len(data))%3]
				read := func(how string) *fbx.Document {
					d, err := parseFbx(data, how)
					ev := Event{"op": "read", "how": how, "ok": err == nil, "tree": FONode{A: []FObs{}, C: []FONode{}}, "objs": []FObj{}}
					if err == nil {
						ev["tree"], ev["objs"] = obsNode(d.RawNode), graphOf(d, names)
					}
					emit(ev)
					return d
				}
				d := read(how)
				if d == nil || i != len(data)%len(c.Fmts) {
					continue
				}
				var buf bytes.Buffer
				err := fbx.Write(&buf, d)
				data = buf.Bytes()
				emit(Event{"op": "write", "ok": err == nil})
				read("file")
			}
		},
	})
}
