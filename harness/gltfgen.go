package main

import (
	"encoding/binary"
	"fmt"
	"math"

	"github.com/qmuntal/gltf"
)

// Abstract glTF file to build (thousandths; numbers from 1, 0: none).
type gbNode struct {
	Name string `json:"name"`
	Ch   []int  `json:"ch"`
	Mesh int    `json:"mesh"`
	Skin int    `json:"skin"`
	T    []int  `json:"t"`
	R    []int  `json:"r"` // quarter turns about x, then y, then z
	S    []int  `json:"s"`
	AsM  bool   `json:"asm"` // stored as a matrix
	Ext  string `json:"ext"` // an extension
}
type gbPrim struct {
	Mat  int       `json:"mat"`
	Mode int       `json:"mode"` // 4 triangles, 5 strip, 6 fan, others: lines or points
	Idx  []int     `json:"idx"`  // empty: none
	Pos  [][]int   `json:"pos"`
	UV   [][]int   `json:"uv"`
	Nrm  [][]int   `json:"nrm"`
	J    [][]int   `json:"j"`
	W    [][]int   `json:"w"`
	T    [][][]int `json:"t"`
	Same int       `json:"same"` // attributes of an earlier primitive of the mesh
}
type gbMesh struct {
	Name  string   `json:"name"`
	Prims []gbPrim `json:"prims"`
	Names []string `json:"names"`
}
type gbSkin struct {
	Joints []int   `json:"joints"`
	IBM    [][]int `json:"ibm"` // column major, thousandths throughout
	Skel   int     `json:"skel"`
}
type gbMat struct {
	Name string `json:"name"`
	PBR  bool   `json:"pbr"`
	Col  []int  `json:"col"`
	Met  int    `json:"met"`
	Rou  int    `json:"rou"`
	Dbl  bool   `json:"dbl"`
	Emi  []int  `json:"emi"`
	AM   int    `json:"am"` // 0 opaque, 1 mask, 2 blend
	Cut  int    `json:"cut"`
	Tex  string `json:"tex"` // external picture
	Src  bool   `json:"src"` // the texture has a source
}
type gbDoc struct {
	Nodes  []gbNode `json:"nodes"`
	Roots  []int    `json:"roots"`
	Meshes []gbMesh `json:"meshes"`
	Skins  []gbSkin `json:"skins"`
	Mats   []gbMat  `json:"mats"`
	Layout int      `json:"layout"` // 0 separate views, 1 one view with offsets, 2 interleaved
	JByte  bool     `json:"jbyte"`
	IdxSz  int      `json:"idxsz"`
	Anims  []gbAnim `json:"anims"`
	Bufs   int      `json:"bufs"`   // buffers, 0: one
	Sparse bool     `json:"sparse"` // displacements are stored as sparse accessors
	Share  bool     `json:"share"`  // skins with the same matrices share them
}
type gbAnim struct {
	Node int     `json:"node"`
	Path int     `json:"path"`
	Keys []int   `json:"keys"`
	Vals [][]int `json:"vals"`
}

type gbWriter struct {
	doc *gltf.Document
	gb  *gbDoc
}

func le32f(b []byte, v float64) { binary.LittleEndian.PutUint32(b, math.Float32bits(float32(v))) }

func (w *gbWriter) view(data []byte, stride int) uint32 {
	bi := len(w.doc.BufferViews) % len(w.doc.Buffers)
	buf := w.doc.Buffers[bi]
	for len(buf.Data)%4 != 0 {
		buf.Data = append(buf.Data, 0)
	}
	w.doc.BufferViews = append(w.doc.BufferViews, &gltf.BufferView{Buffer: uint32(bi), ByteOffset: uint32(len(buf.Data)), ByteLength: uint32(len(data)), ByteStride: uint32(stride)})
	buf.Data = append(buf.Data, data...)
	buf.ByteLength = uint32(len(buf.Data))
	return uint32(len(w.doc.BufferViews) - 1)
}

type column struct {
	name string
	typ  gltf.AccessorType
	ct   gltf.ComponentType
	rows [][]float64
}

func (c *column) bytes(i int) []byte {
	sz := compSize(c.ct)
	res := make([]byte, sz*len(c.rows[i]))
	for k, v := range c.rows[i] {
		switch c.ct {
		case gltf.ComponentFloat:
			le32f(res[k*4:], v)
		case gltf.ComponentUbyte:
			res[k] = byte(v)
		case gltf.ComponentUshort:
			binary.LittleEndian.PutUint16(res[k*2:], uint16(v))
		default:
			binary.LittleEndian.PutUint32(res[k*4:], uint32(v))
		}
	}
	return res
}
func (w *gbWriter) accessor(c *column, bv uint32, off int) uint32 {
	a := &gltf.Accessor{BufferView: gltf.Index(bv), ByteOffset: uint32(off), ComponentType: c.ct, Type: c.typ, Count: uint32(len(c.rows))}
	if c.name == "POSITION" && len(c.rows) > 0 {
		a.Min, a.Max = []float32{1e30, 1e30, 1e30}, []float32{-1e30, -1e30, -1e30}
		for _, r := range c.rows {
			for k, v := range r {
				a.Min[k] = float32(math.Min(float64(a.Min[k]), float64(float32(v))))
				a.Max[k] = float32(math.Max(float64(a.Max[k]), float64(float32(v))))
			}
		}
	}
	w.doc.Accessors = append(w.doc.Accessors, a)
	return uint32(len(w.doc.Accessors) - 1)
}

// columns stores attributes in the layout of the case.
func (w *gbWriter) columns(cols []column) []uint32 {
	res := make([]uint32, len(cols))
	switch w.gb.Layout {
	case 1: // one after the other in one view
		var data []byte
		offs := make([]int, len(cols))
		data = append(data, 1, 2, 3, 4) // not used
		for i := range cols {
			offs[i] = len(data)
			for k := range cols[i].rows {
				data = append(data, cols[i].bytes(k)...)
			}
			for len(data)%4 != 0 {
				data = append(data, 0)
			}
		}
		bv := w.view(data, 0)
		for i := range cols {
			res[i] = w.accessor(&cols[i], bv, offs[i])
		}
	case 2: // interleaved
		var data []byte
		offs := make([]int, len(cols))
		stride := 0
		for k := range cols[0].rows {
			stride = 0
			for i := range cols {
				offs[i] = stride
				b := cols[i].bytes(k)
				for len(b)%4 != 0 {
					b = append(b, 0)
				}
				data = append(data, b...)
				stride += len(b)
			}
		}
		bv := w.view(data, stride)
		for i := range cols {
			res[i] = w.accessor(&cols[i], bv, offs[i])
		}
	default:
		for i := range cols {
			var data []byte
			for k := range cols[i].rows {
				data = append(data, cols[i].bytes(k)...)
			}
			res[i] = w.accessor(&cols[i], w.view(data, 0), 0)
		}
	}
	return res
}

// sparse stores the rows that are not zero.
func (w *gbWriter) sparse(c *column) uint32 {
	ix := column{"", gltf.AccessorScalar, gltf.ComponentUshort, nil}
	vs := column{"", c.typ, c.ct, nil}
	for k, r := range c.rows {
		if r[0] != 0 || r[1] != 0 || r[2] != 0 {
			ix.rows, vs.rows = append(ix.rows, []float64{float64(k)}), append(vs.rows, r)
		}
	}
	n := w.accessor(c, 0, 0)
	a := w.doc.Accessors[n]
	a.BufferView = nil
	if len(ix.rows) > 0 {
		var b1, b2 []byte
		for k := range ix.rows {
			b1, b2 = append(b1, ix.bytes(k)...), append(b2, vs.bytes(k)...)
		}
		a.Sparse = &gltf.Sparse{Count: uint32(len(ix.rows)), Indices: gltf.SparseIndices{BufferView: w.view(b1, 0), ComponentType: gltf.ComponentUshort}, Values: gltf.SparseValues{BufferView: w.view(b2, 0)}}
	}
	return n
}
func frows(rows [][]int, u float64) [][]float64 {
	res := [][]float64{}
	for _, r := range rows {
		q := make([]float64, len(r))
		for i, v := range r {
			q[i] = float64(v) / u
		}
		res = append(res, q)
	}
	return res
}

// quarterQuat is the rotation by quarter turns about x, then y, then z.
func quarterQuat(r []int) [4]float32 {
	q := [4]float64{0, 0, 0, 1}
	for ax := 0; ax < 3 && ax < len(r); ax++ {
		a := float64(r[ax]) * math.Pi / 4
		t := [4]float64{0, 0, 0, math.Cos(a)}
		t[ax] = math.Sin(a)
		q = [4]float64{
			t[3]*q[0] + t[0]*q[3] + t[1]*q[2] - t[2]*q[1],
			t[3]*q[1] - t[0]*q[2] + t[1]*q[3] + t[2]*q[0],
			t[3]*q[2] + t[0]*q[1] - t[1]*q[0] + t[2]*q[3],
			t[3]*q[3] - t[0]*q[0] - t[1]*q[1] - t[2]*q[2],
		}
	}
	return [4]float32{float32(q[0]), float32(q[1]), float32(q[2]), float32(q[3])}
}

func (d *gbDoc) build() *gltf.Document {
	doc := gltf.NewDocument()
	doc.Buffers = []*gltf.Buffer{{}}
	for len(doc.Buffers) < d.Bufs {
		doc.Buffers = append(doc.Buffers, &gltf.Buffer{})
	}
	w := &gbWriter{doc, d}
	idx := func(i int) *uint32 {
		if i <= 0 {
			return nil
		}
		return gltf.Index(uint32(i - 1))
	}
	for _, n := range d.Nodes {
		q := &gltf.Node{Name: n.Name, Mesh: idx(n.Mesh), Skin: idx(n.Skin), Rotation: [4]float32{0, 0, 0, 1}, Scale: [3]float32{1, 1, 1}, Matrix: gltf.DefaultMatrix}
		for _, c := range n.Ch {
			q.Children = append(q.Children, uint32(c-1))
		}
		if n.Ext != "" {
			q.Extensions = gltf.Extensions{n.Ext: map[string]interface{}{"x": 1}}
		}
		for i := range n.T {
			q.Translation[i] = unmilli(n.T[i])
		}
		if len(n.R) == 3 && (n.R[0] != 0 || n.R[1] != 0 || n.R[2] != 0) {
			q.Rotation = quarterQuat(n.R)
		}
		for i := range n.S {
			q.Scale[i] = unmilli(n.S[i])
		}
		if n.AsM {
			m := nodeMatrix(q)
			*q = gltf.Node{Name: q.Name, Extensions: q.Extensions, Mesh: q.Mesh, Skin: q.Skin, Children: q.Children, Rotation: [4]float32{0, 0, 0, 1}, Scale: [3]float32{1, 1, 1}}
			for i, v := range m {
				q.Matrix[i] = float32(v)
			}
		}
		doc.Nodes = append(doc.Nodes, q)
	}
	for _, r := range d.Roots {
		doc.Scenes[0].Nodes = append(doc.Scenes[0].Nodes, uint32(r-1))
	}
	for _, m := range d.Meshes {
		q := &gltf.Mesh{Name: m.Name}
		if len(m.Names) > 0 {
			q.Extras = map[string]interface{}{"targetNames": m.Names}
		}
		for _, p := range m.Prims {
			r := &gltf.Primitive{Material: idx(p.Mat), Attributes: map[string]uint32{}}
			r.Mode = map[int]gltf.PrimitiveMode{0: gltf.PrimitivePoints, 1: gltf.PrimitiveLines, 4: gltf.PrimitiveTriangles, 5: gltf.PrimitiveTriangleStrip, 6: gltf.PrimitiveTriangleFan}[p.Mode]
			if p.Same > 0 {
				s := q.Primitives[p.Same-1]
				r.Attributes, r.Targets = s.Attributes, s.Targets
			} else {
				cols := []column{{"POSITION", gltf.AccessorVec3, gltf.ComponentFloat, frows(p.Pos, 1000)}}
				if len(p.UV) > 0 {
					cols = append(cols, column{"TEXCOORD_0", gltf.AccessorVec2, gltf.ComponentFloat, frows(p.UV, 1000)})
				}
				if len(p.Nrm) > 0 {
					cols = append(cols, column{"NORMAL", gltf.AccessorVec3, gltf.ComponentFloat, frows(p.Nrm, 1000)})
				}
				if len(p.J) > 0 {
					ct := gltf.ComponentUshort
					if d.JByte {
						ct = gltf.ComponentUbyte
					}
					cols = append(cols, column{"JOINTS_0", gltf.AccessorVec4, ct, frows(p.J, 1)}, column{"WEIGHTS_0", gltf.AccessorVec4, gltf.ComponentFloat, frows(p.W, 1000)})
				}
				for i, a := range w.columns(cols) {
					r.Attributes[cols[i].name] = a
				}
				for _, t := range p.T {
					c := []column{{"POSITION", gltf.AccessorVec3, gltf.ComponentFloat, frows(t, 1000)}}
					if d.Sparse && d.Layout != 2 {
						r.Targets = append(r.Targets, map[string]uint32{"POSITION": w.sparse(&c[0])})
						continue
					}
					r.Targets = append(r.Targets, map[string]uint32{"POSITION": w.columns(c)[0]})
				}
			}
			if len(p.Idx) > 0 {
				rows := [][]float64{}
				for _, i := range p.Idx {
					rows = append(rows, []float64{float64(i)})
				}
				ct := []gltf.ComponentType{gltf.ComponentUshort, gltf.ComponentUbyte, gltf.ComponentUint}[d.IdxSz]
				c := column{"", gltf.AccessorScalar, ct, rows}
				var data []byte
				for k := range rows {
					data = append(data, c.bytes(k)...)
				}
				r.Indices = gltf.Index(w.accessor(&c, w.view(data, 0), 0))
			}
			q.Primitives = append(q.Primitives, r)
		}
		doc.Meshes = append(doc.Meshes, q)
	}
	for _, s := range d.Skins {
		q := &gltf.Skin{Skeleton: idx(s.Skel)}
		for _, j := range s.Joints {
			q.Joints = append(q.Joints, uint32(j-1))
		}
		if len(doc.Skins) > 0 && d.Share && len(s.IBM) > 0 && fmt.Sprint(s.IBM) == fmt.Sprint(d.Skins[0].IBM) {
			q.InverseBindMatrices = doc.Skins[0].InverseBindMatrices
		} else if len(s.IBM) > 0 {
			c := []column{{"", gltf.AccessorMat4, gltf.ComponentFloat, frows(s.IBM, 1000)}}
			q.InverseBindMatrices = gltf.Index(w.columns(c)[0])
		}
		doc.Skins = append(doc.Skins, q)
	}
	for _, m := range d.Mats {
		q := &gltf.Material{Name: m.Name, DoubleSided: m.Dbl, AlphaMode: []gltf.AlphaMode{gltf.AlphaOpaque, gltf.AlphaMask, gltf.AlphaBlend}[m.AM]}
		for i := range m.Emi {
			q.EmissiveFactor[i] = unmilli(m.Emi[i])
		}
		if m.AM == 1 {
			q.AlphaCutoff = gltf.Float(unmilli(m.Cut))
		}
		if m.PBR {
			q.PBRMetallicRoughness = &gltf.PBRMetallicRoughness{BaseColorFactor: &[4]float32{unmilli(m.Col[0]), unmilli(m.Col[1]), unmilli(m.Col[2]), unmilli(m.Col[3])}, MetallicFactor: gltf.Float(unmilli(m.Met)), RoughnessFactor: gltf.Float(unmilli(m.Rou))}
			if m.Tex != "" {
				t := &gltf.Texture{}
				if m.Src {
					doc.Images = append(doc.Images, &gltf.Image{URI: m.Tex})
					t.Source = gltf.Index(uint32(len(doc.Images) - 1))
				}
				doc.Textures = append(doc.Textures, t)
				q.PBRMetallicRoughness.BaseColorTexture = &gltf.TextureInfo{Index: uint32(len(doc.Textures) - 1)}
			}
		}
		doc.Materials = append(doc.Materials, q)
	}
	if len(d.Anims) > 0 {
		an := &gltf.Animation{}
		for _, a := range d.Anims {
			keys := [][]float64{}
			for _, k := range a.Keys {
				keys = append(keys, []float64{float64(k) / 1000})
			}
			in := column{"", gltf.AccessorScalar, gltf.ComponentFloat, keys}
			out := column{"", []gltf.AccessorType{gltf.AccessorVec3, gltf.AccessorVec4, gltf.AccessorVec3}[a.Path], gltf.ComponentFloat, frows(a.Vals, 1000)}
			ai, ao := w.columns([]column{in})[0], w.columns([]column{out})[0]
			an.Samplers = append(an.Samplers, &gltf.AnimationSampler{Input: gltf.Index(ai), Output: gltf.Index(ao)})
			an.Channels = append(an.Channels, &gltf.Channel{Sampler: gltf.Index(uint32(len(an.Samplers) - 1)), Target: gltf.ChannelTarget{Node: idx(a.Node), Path: gltf.TRSProperty(a.Path)}})
		}
		doc.Animations = append(doc.Animations, an)
	}
	for len(doc.Buffers) > len(doc.BufferViews) {
		doc.Buffers = doc.Buffers[:len(doc.BufferViews)]
	}
	return doc
}

type gbOpts struct {
	mats, skins, morphs, tris bool
	modes                     bool // other primitive kinds, primitives without indices
	asM                       bool
	scales, mirror            bool
	small                     bool // smaller numbers, at most one reduction
}

// gbDoc is a random file: a forest of nodes, some with meshes, some joints.
func (g *gen) gbDoc(o gbOpts) gbDoc {
	d := gbDoc{Layout: g.n(3), JByte: g.p(50), IdxSz: g.n(3)}
	pos := func() []int {
		if o.small {
			return []int{(g.n(5) - 2) * 1000, (g.n(5) - 2) * 1000, (g.n(5) - 2) * 1000}
		}
		return []int{(g.n(9) - 4) * 1000, (g.n(9) - 4) * 1000, (g.n(9) - 4) * 1000}
	}
	nm := 1 + g.n(3)
	for i := 0; i < nm; i++ {
		d.Mats = append(d.Mats, gbMat{Name: fmt.Sprintf("m%d", i), PBR: g.p(85), Col: []int{g.n(5) * 250, g.n(5) * 250, g.n(5) * 250, 1000 - g.n(3)*250}, Met: g.n(3) * 500, Rou: g.n(3) * 500, Dbl: g.p(50),
			Emi: []int{g.n(3) * 500, g.n(3) * 500, g.n(3) * 500}, AM: g.n(3), Cut: g.n(4) * 250, Tex: g.pick("", "a.png", "tex/b.png"), Src: g.p(90)})
	}
	nn := 1 + g.n(6)
	big, small := 0, 0 // keeps the numbers exact
	for i := 0; i < nn; i++ {
		n := gbNode{Name: fmt.Sprintf("%s%d", g.pick("n", "節", "node "), i), T: pos(), R: []int{0, 0, 0}, S: []int{1000, 1000, 1000}}
		if g.p(40) {
			n.R = []int{g.n(4), g.n(4), g.n(4)}
		}
		if o.scales && g.p(25) {
			s := 1000
			if g.p(50) && big == 0 {
				s = 2000
				big++
			} else if small < 3 && !o.small || small < 1 {
				s = 500
				small++
			}
			n.S = []int{s, s, s}
		}
		if o.mirror && g.p(10) {
			n.S[g.n(3)] *= -1
		}
		n.AsM = o.asM && g.p(25)
		if i > 0 && g.p(65) {
			p := g.n(i)
			d.Nodes[p].Ch = append(d.Nodes[p].Ch, i+1)
		} else {
			d.Roots = append(d.Roots, i+1)
		}
		d.Nodes = append(d.Nodes, n)
	}
	if g.p(40) { // children may be listed before their parents
		perm := g.r.Perm(nn)
		nodes := make([]gbNode, nn)
		for i, n := range d.Nodes {
			for k := range n.Ch {
				n.Ch[k] = perm[n.Ch[k]-1] + 1
			}
			nodes[perm[i]] = n
		}
		for k := range d.Roots {
			d.Roots[k] = perm[d.Roots[k]-1] + 1
		}
		d.Nodes = nodes
	}
	nmesh := 1 + g.n(2)
	for i := 0; i < nmesh; i++ {
		m := gbMesh{Name: fmt.Sprintf("mesh%d", i)}
		nt := 0
		if o.morphs && g.p(40) {
			nt = 1 + g.n(2)
			for k := 0; k < nt; k++ {
				m.Names = append(m.Names, fmt.Sprintf("t%d", k))
			}
		}
		for k := 1 + g.n(3); k > 0; k-- {
			p := gbPrim{Mat: 1 + g.n(nm), Mode: 4}
			if len(m.Prims) > 0 && g.p(30) {
				p.Same = 1
				q := m.Prims[0]
				p.Pos, p.UV, p.Nrm, p.T = q.Pos, q.UV, q.Nrm, append([][][]int{}, q.T...)
			} else {
				uv, nr := g.p(60), g.p(50)
				for v := 3 + g.n(4); v > 0; v-- {
					p.Pos = append(p.Pos, pos())
					if uv {
						p.UV = append(p.UV, []int{g.n(5) * 250, g.n(5) * 250})
					}
					if nr {
						n := []int{0, 0, 0}
						n[g.n(3)] = 1000 - 2000*g.n(2)
						p.Nrm = append(p.Nrm, n)
					}
				}
				for t := 0; t < nt; t++ {
					rows := [][]int{}
					for range p.Pos {
						if g.p(50) {
							rows = append(rows, pos())
						} else {
							rows = append(rows, []int{0, 0, 0})
						}
					}
					p.T = append(p.T, rows)
				}
			}
			nv := len(p.Pos)
			for t := 1 + g.n(3); t > 0; t-- {
				r := g.r.Perm(nv)
				p.Idx = append(p.Idx, r[0], r[1], r[2])
			}
			if o.modes && g.p(25) {
				p.Mode = []int{5, 6, 1, 0}[g.n(4)]
				if p.Mode == 5 || p.Mode == 6 {
					p.Idx = g.r.Perm(nv)
				}
				if p.Mode == 1 {
					p.Idx = []int{0, 1, 1, 2}
				}
			}
			if o.modes && g.p(15) {
				p.Idx = nil
				if p.Mode == 4 {
					p.Same = 0
					for len(p.Pos)%3 != 0 {
						n := len(p.Pos) - 1
						p.Pos = p.Pos[:n]
						if len(p.UV) > 0 {
							p.UV = p.UV[:n]
						}
						if len(p.Nrm) > 0 {
							p.Nrm = p.Nrm[:n]
						}
						for t := range p.T {
							p.T[t] = p.T[t][:n]
						}
					}
				}
			}
			m.Prims = append(m.Prims, p)
		}
		d.Meshes = append(d.Meshes, m)
	}
	for i := range d.Nodes {
		if g.p(45) || i == 0 {
			d.Nodes[i].Mesh = 1 + g.n(nmesh)
		}
	}
	if o.skins && g.p(60) {
		g.gbSkin(&d)
	}
	return d
}

// worlds are the nodes' world matrices.
func (d *gbDoc) worlds() []*[16]float64 {
	doc := (&gbDoc{Nodes: d.Nodes, Roots: d.Roots}).build()
	res := make([]*[16]float64, len(d.Nodes))
	var walk func(i int, up *[16]float64)
	walk = func(i int, up *[16]float64) {
		m := nodeMatrix(doc.Nodes[i])
		var w [16]float64
		for c := 0; c < 4; c++ {
			for r := 0; r < 4; r++ {
				for k := 0; k < 4; k++ {
					w[c*4+r] += up[k*4+r] * float64(m[c*4+k])
				}
			}
		}
		res[i] = &w
		for _, c := range d.Nodes[i].Ch {
			walk(c-1, &w)
		}
	}
	id := &[16]float64{0: 1, 5: 1, 10: 1, 15: 1}
	for _, r := range d.Roots {
		walk(r-1, id)
	}
	return res
}

// inverse of a rotation with one scale and a translation.
func rigidInverse(m *[16]float64) []int {
	s := m[0]*m[0] + m[1]*m[1] + m[2]*m[2]
	var q [16]float64
	for c := 0; c < 3; c++ {
		for r := 0; r < 3; r++ {
			q[c*4+r] = m[r*4+c] / s
		}
	}
	for r := 0; r < 3; r++ {
		q[12+r] = -(q[r]*m[12] + q[4+r]*m[13] + q[8+r]*m[14])
	}
	q[15] = 1
	res := make([]int, 16)
	for i, v := range q {
		res[i] = int(math.Round(v * 1000))
	}
	return res
}

// gbSkin binds some of the mesh nodes to joints among the nodes.
func (g *gen) gbSkin(d *gbDoc) {
	w := d.worlds()
	ns := 1 + g.n(2)
	for s := 0; s < ns; s++ {
		k := gbSkin{}
		for _, i := range g.r.Perm(len(d.Nodes)) {
			if len(k.Joints) < 4 && (g.p(60) || len(k.Joints) == 0) {
				k.Joints = append(k.Joints, i+1)
			}
		}
		if g.p(85) {
			for _, j := range k.Joints {
				k.IBM = append(k.IBM, rigidInverse(w[j-1]))
			}
		}
		d.Skins = append(d.Skins, k)
	}
	for mi := range d.Meshes { // every mesh is skinned by one skin or none
		if g.p(35) {
			continue
		}
		s := 1 + g.n(ns)
		nj := len(d.Skins[s-1].Joints)
		m := &d.Meshes[mi]
		for pi := range m.Prims {
			p := &m.Prims[pi]
			if p.Same > 0 {
				p.J, p.W = m.Prims[p.Same-1].J, m.Prims[p.Same-1].W
				continue
			}
			for range p.Pos {
				j, v := []int{g.n(nj), 0, 0, 0}, []int{1000, 0, 0, 0}
				if nj > 1 && g.p(60) {
					j[1] = (j[0] + 1) % nj
					v[0], v[1] = 250, 750
				}
				p.J, p.W = append(p.J, j), append(p.W, v)
			}
		}
		for n := range d.Nodes {
			if d.Nodes[n].Mesh == mi+1 {
				d.Nodes[n].Skin = s
			}
		}
	}
}
