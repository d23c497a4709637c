package main

import (
	"bytes"
	"encoding/binary"
	"image"
	"math"
	"sort"

	"github.com/qmuntal/gltf"
)

// Abstract glTF file of the specifications: what a viewer reads from it.
// Places are multiplied by a unit, directions and factors are thousandths.
type glPrim struct {
	Mat  int            `json:"mat"` // -1: none
	Mode int            `json:"mode"`
	Idx  []int          `json:"idx"`
	Pos  [][]int        `json:"pos"`
	UV   [][]int        `json:"uv"`
	Nrm  [][]int        `json:"nrm"`
	J    [][]int        `json:"j"`
	W    [][]int        `json:"w"`
	T    []glTarget     `json:"t"`
	MM   [][]int        `json:"mm"` // minimum and maximum of the position accessor
	Acc  map[string]int `json:"-"`
}
type glTarget struct {
	Pos [][]int `json:"pos"`
	Nrm [][]int `json:"nrm"`
	MM  [][]int `json:"mm"`
}
type glMesh struct {
	Name  string   `json:"name"`
	Prims []glPrim `json:"prims"`
	Names []string `json:"names"`
	W     []int    `json:"weights"`
}
type glNode struct {
	Name string `json:"name"`
	Ch   []int  `json:"ch"` // 1-based
	Mesh int    `json:"mesh"`
	Skin int    `json:"skin"`
	M    []int  `json:"m"` // column major; linear part in thousandths, translation in units
}
type glSkin struct {
	Joints []int   `json:"joints"` // 1-based
	IBM    [][]int `json:"ibm"`
	Skel   int     `json:"skel"`
}
type glMat struct {
	Name string `json:"name"`
	Col  []int  `json:"col"`
	Met  int    `json:"met"`
	Rou  int    `json:"rou"`
	Dbl  bool   `json:"dbl"`
	Emi  []int  `json:"emi"`
	AM   string `json:"am"`
	Cut  int    `json:"cut"`
	Unl  bool   `json:"unl"`
	Tex  glTex  `json:"tex"`
	NTex glTex  `json:"ntex"`
}
type glTex struct {
	File string `json:"file"` // which known file (or uri) the image shows, "": none, "?": unknown picture
	W    int    `json:"w"`
	H    int    `json:"h"`
}
type glView struct {
	Nodes  []glNode `json:"nodes"`
	Roots  []int    `json:"roots"`
	Meshes []glMesh `json:"meshes"`
	Skins  []glSkin `json:"skins"`
	Mats   []glMat  `json:"mats"`
	Acc    [][]int  `json:"acc"` // buffer view (0: none), offset, component size, components, count
	BVs    [][]int  `json:"bvs"` // buffer, offset, length, stride
	Bufs   []int    `json:"bufs"`
	Refs   []string `json:"refs"` // references to missing elements
	Ext    []string `json:"ext"`
	Anims  []glAnim `json:"anims"`
	URIs   []string `json:"uris"`   // external buffers
	Imgs   []string `json:"imgs"`   // external images
	JBytes int      `json:"jbytes"` // joint accessors of bytes
	XNode  []string `json:"xnode"`  // extensions of nodes and materials
}
type glAnim struct {
	Node int     `json:"node"`
	Path string  `json:"path"`
	Mode string  `json:"mode"`
	Keys []int   `json:"keys"` // milliseconds
	Vals [][]int `json:"vals"`
	MM   [][]int `json:"mm"` // minimum and maximum of the key accessor
}

type glReader struct {
	doc   *gltf.Document
	unit  float64
	files map[string][]byte // known pictures
	bad   []string
}

func compSize(t gltf.ComponentType) int {
	switch t {
	case gltf.ComponentByte, gltf.ComponentUbyte:
		return 1
	case gltf.ComponentShort, gltf.ComponentUshort:
		return 2
	}
	return 4
}
func compCount(t gltf.AccessorType) int {
	switch t {
	case gltf.AccessorVec2:
		return 2
	case gltf.AccessorVec3:
		return 3
	case gltf.AccessorVec4, gltf.AccessorMat2:
		return 4
	case gltf.AccessorMat3:
		return 9
	case gltf.AccessorMat4:
		return 16
	}
	return 1
}

// read returns the rows of an accessor as plain numbers.
func (g *glReader) read(i uint32) [][]float64 {
	if int(i) >= len(g.doc.Accessors) {
		g.bad = append(g.bad, "accessor")
		return nil
	}
	a := g.doc.Accessors[i]
	n, sz := compCount(a.Type), compSize(a.ComponentType)
	res := make([][]float64, a.Count)
	var data []byte
	stride := n * sz
	if a.BufferView != nil {
		if int(*a.BufferView) >= len(g.doc.BufferViews) {
			g.bad = append(g.bad, "bufferView")
			return nil
		}
		bv := g.doc.BufferViews[*a.BufferView]
		if int(bv.Buffer) >= len(g.doc.Buffers) {
			g.bad = append(g.bad, "buffer")
			return nil
		}
		data = g.doc.Buffers[bv.Buffer].Data
		if bv.ByteStride > 0 {
			stride = int(bv.ByteStride)
		}
		off := int(bv.ByteOffset) + int(a.ByteOffset)
		if off > len(data) {
			off = len(data)
		}
		data = data[off:]
	}
	for k := range res {
		row := make([]float64, n)
		for c := 0; c < n; c++ {
			p := k*stride + c*sz
			if p+sz > len(data) {
				continue
			}
			b := data[p : p+sz]
			switch a.ComponentType {
			case gltf.ComponentByte:
				row[c] = float64(int8(b[0]))
				if a.Normalized {
					row[c] = math.Max(row[c]/127, -1)
				}
			case gltf.ComponentUbyte:
				row[c] = float64(b[0])
				if a.Normalized {
					row[c] /= 255
				}
			case gltf.ComponentShort:
				row[c] = float64(int16(binary.LittleEndian.Uint16(b)))
				if a.Normalized {
					row[c] = math.Max(row[c]/32767, -1)
				}
			case gltf.ComponentUshort:
				row[c] = float64(binary.LittleEndian.Uint16(b))
				if a.Normalized {
					row[c] /= 65535
				}
			case gltf.ComponentUint:
				row[c] = float64(binary.LittleEndian.Uint32(b))
			default:
				row[c] = float64(math.Float32frombits(binary.LittleEndian.Uint32(b)))
			}
		}
		res[k] = row
	}
	if a.Sparse != nil {
		ia := &gltf.Document{BufferViews: g.doc.BufferViews, Buffers: g.doc.Buffers, Accessors: []*gltf.Accessor{
			{BufferView: gltf.Index(a.Sparse.Indices.BufferView), ByteOffset: a.Sparse.Indices.ByteOffset, ComponentType: a.Sparse.Indices.ComponentType, Type: gltf.AccessorScalar, Count: a.Sparse.Count},
			{BufferView: gltf.Index(a.Sparse.Values.BufferView), ByteOffset: a.Sparse.Values.ByteOffset, ComponentType: a.ComponentType, Type: a.Type, Count: a.Sparse.Count}}}
		q := &glReader{doc: ia, unit: g.unit}
		vals := q.read(1)
		for k, x := range q.read(0) {
			if int(x[0]) < len(res) && k < len(vals) {
				res[int(x[0])] = vals[k]
			}
		}
		g.bad = append(g.bad, q.bad...)
	}
	return res
}

func scaleRow(r []float64, u float64) []int {
	res := make([]int, len(r))
	for i, v := range r {
		res[i] = roundInt(v * u)
	}
	return res
}
func roundInt(v float64) int {
	if math.IsNaN(v) {
		return 2000000001
	}
	v = math.Round(v)
	if v > 2e9 {
		return 2000000000
	}
	if v < -2e9 {
		return -2000000000
	}
	return int(v)
}

// glLimit bounds the numbers of accessors.
var glLimit = 60000

// clamp keeps numbers in a range in which the specifications can compute.
func clamp(v, lim int) int {
	if v > lim {
		return lim + 1
	}
	if v < -lim {
		return -lim - 1
	}
	return v
}
func (g *glReader) rows(attr map[string]uint32, name string, u float64) [][]int {
	i, ok := attr[name]
	if !ok {
		return nil
	}
	return g.rowsAt(i, u)
}
func (g *glReader) rowsAt(i uint32, u float64) [][]int {
	res := [][]int{}
	for _, r := range g.read(i) {
		row := scaleRow(r, u)
		for i := range row {
			row[i] = clamp(row[i], glLimit)
		}
		res = append(res, row)
	}
	return res
}
func (g *glReader) minmax(attr map[string]uint32) [][]int {
	i, ok := attr["POSITION"]
	if !ok || int(i) >= len(g.doc.Accessors) {
		return nil
	}
	a := g.doc.Accessors[i]
	f := func(v []float32) []int {
		r := []float64{}
		for _, x := range v {
			r = append(r, float64(x))
		}
		return scaleRow(r, g.unit)
	}
	return [][]int{f(a.Min), f(a.Max)}
}

// nodeMatrix composes translation, rotation and scale as the glTF standard says.
func nodeMatrix(n *gltf.Node) [16]float64 {
	var res [16]float64
	m := n.MatrixOrDefault()
	if m != gltf.DefaultMatrix {
		for i, v := range m {
			res[i] = float64(v)
		}
		return res
	}
	q, s := n.RotationOrDefault(), n.ScaleOrDefault()
	x, y, z, w := float64(q[0]), float64(q[1]), float64(q[2]), float64(q[3])
	rot := [3][3]float64{ // columns
		{1 - 2*(y*y+z*z), 2 * (x*y + z*w), 2 * (x*z - y*w)},
		{2 * (x*y - z*w), 1 - 2*(x*x+z*z), 2 * (y*z + x*w)},
		{2 * (x*z + y*w), 2 * (y*z - x*w), 1 - 2*(x*x+y*y)},
	}
	for c := 0; c < 3; c++ {
		for r := 0; r < 3; r++ {
			res[c*4+r] = rot[c][r] * float64(s[c])
		}
		res[12+c] = float64(n.Translation[c])
	}
	res[15] = 1
	return res
}
func (g *glReader) matrix(m []float64) []int {
	res := make([]int, 16)
	for i := range res {
		if i < len(m) {
			u := 1000.0
			lim := 10000
			if i >= 12 && i < 15 {
				u, lim = g.unit, 60000
			}
			res[i] = clamp(roundInt(m[i]*u), lim)
		}
	}
	return res
}
func (g *glReader) ref(i *uint32, n int, what string) int {
	if i == nil {
		return 0
	}
	if int(*i) >= n {
		g.bad = append(g.bad, what)
		return 0
	}
	return int(*i) + 1
}

func (g *glReader) texture(i uint32) glTex {
	if int(i) >= len(g.doc.Textures) {
		g.bad = append(g.bad, "texture")
		return glTex{}
	}
	t := g.doc.Textures[i]
	g.ref(t.Sampler, len(g.doc.Samplers), "sampler")
	k := g.ref(t.Source, len(g.doc.Images), "image")
	if k == 0 {
		return glTex{}
	}
	im := g.doc.Images[k-1]
	var data []byte
	if im.BufferView != nil {
		if g.ref(im.BufferView, len(g.doc.BufferViews), "bufferView") == 0 {
			return glTex{}
		}
		bv := g.doc.BufferViews[*im.BufferView]
		b := g.doc.Buffers[bv.Buffer].Data
		if int(bv.ByteOffset+bv.ByteLength) <= len(b) {
			data = b[bv.ByteOffset : bv.ByteOffset+bv.ByteLength]
		}
	} else if im.IsEmbeddedResource() {
		data, _ = im.MarshalData()
	} else {
		return glTex{File: im.URI}
	}
	return g.picture(data)
}

// picture tells which known picture the data shows.
func (g *glReader) picture(data []byte) glTex {
	cfg, format, err := image.DecodeConfig(bytes.NewReader(data))
	if err != nil {
		return glTex{File: "?"}
	}
	t := glTex{File: "?", W: cfg.Width, H: cfg.Height}
	img, _, _ := image.Decode(bytes.NewReader(data))
	for _, name := range sortedKeys(g.files) {
		src, _, err := image.Decode(bytes.NewReader(g.files[name]))
		if err != nil {
			continue
		}
		if bytes.Equal(g.files[name], data) || format == "png" && img != nil && samePicture(src, img) {
			t.File = name
		}
	}
	return t
}
func sortedKeys(m map[string][]byte) []string {
	res := []string{}
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}
func samePicture(a, b image.Image) bool {
	if a.Bounds() != b.Bounds() {
		return false
	}
	r := a.Bounds()
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			ar, ag, ab, aa := a.At(x, y).RGBA()
			br, bg, bb, ba := b.At(x, y).RGBA()
			if ar != br || ag != bg || ab != bb || aa != ba {
				return false
			}
		}
	}
	return true
}

// glOf projects a document, the places multiplied by unit.
func glOf(doc *gltf.Document, unit float64, files map[string][]byte) glView {
	g := &glReader{doc: doc, unit: unit, files: files}
	v := glView{Ext: append([]string{}, doc.ExtensionsUsed...)}
	for _, n := range doc.Nodes {
		m := nodeMatrix(n)
		q := glNode{Name: n.Name, Mesh: g.ref(n.Mesh, len(doc.Meshes), "mesh"), Skin: g.ref(n.Skin, len(doc.Skins), "skin"), M: g.matrix(m[:])}
		for _, c := range n.Children {
			c := c
			q.Ch = append(q.Ch, g.ref(&c, len(doc.Nodes), "node"))
		}
		v.Nodes = append(v.Nodes, q)
	}
	if doc.Scene != nil || len(doc.Scenes) > 0 {
		s := 0
		if doc.Scene != nil {
			s = g.ref(doc.Scene, len(doc.Scenes), "scene") - 1
		}
		if s >= 0 {
			for _, c := range doc.Scenes[s].Nodes {
				c := c
				v.Roots = append(v.Roots, g.ref(&c, len(doc.Nodes), "node"))
			}
		}
	}
	for _, m := range doc.Meshes {
		q := glMesh{Name: m.Name}
		if x, ok := m.Extras.(map[string]interface{}); ok {
			switch names := x["targetNames"].(type) {
			case []interface{}:
				for _, s := range names {
					t, _ := s.(string)
					q.Names = append(q.Names, t)
				}
			case []string:
				q.Names = names
			}
		}
		for _, w := range m.Weights {
			q.W = append(q.W, milli(w))
		}
		for _, p := range m.Primitives {
			r := glPrim{Mat: g.ref(p.Material, len(doc.Materials), "material") - 1, Mode: int(p.Mode), UV: g.rows(p.Attributes, "TEXCOORD_0", 1000), Pos: g.rows(p.Attributes, "POSITION", unit),
				Nrm: g.rows(p.Attributes, "NORMAL", 1000), J: g.rows(p.Attributes, "JOINTS_0", 1), W: g.rows(p.Attributes, "WEIGHTS_0", 1000), MM: g.minmax(p.Attributes)}
			if p.Indices != nil {
				for _, x := range g.rowsAt(*p.Indices, 1) {
					r.Idx = append(r.Idx, x[0])
				}
			} else {
				for k := range r.Pos {
					r.Idx = append(r.Idx, k)
				}
			}
			for _, t := range p.Targets {
				for _, a := range t {
					if int(a) >= len(doc.Accessors) {
						g.bad = append(g.bad, "accessor")
					}
				}
				r.T = append(r.T, glTarget{Pos: g.rows(t, "POSITION", unit), Nrm: g.rows(t, "NORMAL", 1000), MM: g.minmax(t)})
			}
			q.Prims = append(q.Prims, r)
		}
		v.Meshes = append(v.Meshes, q)
	}
	for _, s := range doc.Skins {
		q := glSkin{Skel: g.ref(s.Skeleton, len(doc.Nodes), "node")}
		for _, j := range s.Joints {
			j := j
			q.Joints = append(q.Joints, g.ref(&j, len(doc.Nodes), "node"))
		}
		if s.InverseBindMatrices != nil {
			for _, r := range g.read(*s.InverseBindMatrices) {
				q.IBM = append(q.IBM, g.matrix(r))
			}
		}
		v.Skins = append(v.Skins, q)
	}
	for _, m := range doc.Materials {
		q := glMat{Name: m.Name, Dbl: m.DoubleSided, Emi: []int{milli(m.EmissiveFactor[0]), milli(m.EmissiveFactor[1]), milli(m.EmissiveFactor[2])}, Cut: milli(m.AlphaCutoffOrDefault()), Col: []int{1000, 1000, 1000, 1000}, Met: 1000, Rou: 1000}
		q.AM = map[gltf.AlphaMode]string{gltf.AlphaOpaque: "OPAQUE", gltf.AlphaMask: "MASK", gltf.AlphaBlend: "BLEND"}[m.AlphaMode]
		_, q.Unl = m.Extensions["KHR_materials_unlit"]
		if p := m.PBRMetallicRoughness; p != nil {
			c := p.BaseColorFactorOrDefault()
			q.Col = []int{milli(c[0]), milli(c[1]), milli(c[2]), milli(c[3])}
			q.Met, q.Rou = milli(p.MetallicFactorOrDefault()), milli(p.RoughnessFactorOrDefault())
			if p.BaseColorTexture != nil {
				q.Tex = g.texture(p.BaseColorTexture.Index)
			}
		}
		if m.NormalTexture != nil && m.NormalTexture.Index != nil {
			q.NTex = g.texture(*m.NormalTexture.Index)
		}
		v.Mats = append(v.Mats, q)
	}
	for _, a := range doc.Accessors {
		v.Acc = append(v.Acc, []int{g.ref(a.BufferView, len(doc.BufferViews), "bufferView"), int(a.ByteOffset), compSize(a.ComponentType), compCount(a.Type), int(a.Count)})
	}
	for _, b := range doc.BufferViews {
		bb := b.Buffer
		v.BVs = append(v.BVs, []int{g.ref(&bb, len(doc.Buffers), "buffer"), int(b.ByteOffset), int(b.ByteLength), int(b.ByteStride)})
	}
	for _, b := range doc.Buffers {
		n := int(b.ByteLength)
		if len(b.Data) < n {
			n = len(b.Data)
		}
		v.Bufs = append(v.Bufs, n)
	}
	for i, b := range doc.Buffers {
		if b.URI != "" && !b.IsEmbeddedResource() || i > 0 && b.URI == "" {
			v.URIs = append(v.URIs, b.URI)
		}
	}
	for _, im := range doc.Images {
		if im.URI != "" && !im.IsEmbeddedResource() {
			v.Imgs = append(v.Imgs, im.URI)
		}
	}
	for _, m := range doc.Meshes {
		for _, p := range m.Primitives {
			if a, ok := p.Attributes["JOINTS_0"]; ok && int(a) < len(doc.Accessors) && compSize(doc.Accessors[a].ComponentType) == 1 {
				v.JBytes++
			}
		}
	}
	for _, n := range doc.Nodes {
		for k := range n.Extensions {
			v.XNode = append(v.XNode, k)
		}
	}
	for _, n := range doc.Materials {
		for k := range n.Extensions {
			v.XNode = append(v.XNode, k)
		}
	}
	sort.Strings(v.XNode)
	for _, a := range doc.Animations {
		for _, c := range a.Channels {
			q := glAnim{Node: g.ref(c.Target.Node, len(doc.Nodes), "node"), Path: []string{"translation", "rotation", "scale", "weights"}[c.Target.Path]}
			k := g.ref(c.Sampler, len(a.Samplers), "sampler")
			if k > 0 {
				s := a.Samplers[k-1]
				q.Mode = []string{"LINEAR", "STEP", "CUBICSPLINE"}[s.Interpolation]
				if s.Input != nil && s.Output != nil {
					for _, r := range g.rowsAt(*s.Input, 1000) {
						q.Keys = append(q.Keys, r[0])
					}
					if int(*s.Input) < len(doc.Accessors) {
						acc := doc.Accessors[*s.Input]
						for _, m := range [][]float32{acc.Min, acc.Max} {
							row := []int{}
							for _, x := range m {
								row = append(row, roundInt(float64(x)*1000))
							}
							q.MM = append(q.MM, row)
						}
					}
					u := 1000.0
					if c.Target.Path == gltf.TRSTranslation {
						u = unit
					}
					q.Vals = g.rowsAt(*s.Output, u)
				} else {
					g.bad = append(g.bad, "accessor")
				}
			} else {
				g.bad = append(g.bad, "sampler")
			}
			v.Anims = append(v.Anims, q)
		}
	}
	v.Refs = g.bad
	return v
}

// glbBytes stores a document the way the tool does.
func glbBytes(doc *gltf.Document) ([]byte, error) {
	w := new(bytes.Buffer)
	e := gltf.NewEncoder(w)
	e.AsBinary = true
	err := e.Encode(doc)
	return w.Bytes(), err
}
func glbRead(b []byte) (*gltf.Document, error) {
	doc := new(gltf.Document)
	err := gltf.NewDecoder(bytes.NewReader(b)).Decode(doc)
	return doc, err
}
