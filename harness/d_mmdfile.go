package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"math/rand"

	"github.com/binzume/modelconv/mmd"
)

type mmdShape struct {
	Info   []int `json:"info"`
	Skin   int   `json:"skin"`
	Flags  int   `json:"flags"`
	MType  int   `json:"mtype"`
	Toon   int   `json:"toon"`
	Groups int   `json:"groups"`
}
type mmdCounts struct {
	V  int `json:"v"`
	T  int `json:"t"`
	M  int `json:"m"`
	B  int `json:"b"`
	Mo int `json:"mo"`
	RB int `json:"rb"`
}
type mmdCase struct {
	Fmt    string     `json:"fmt"`
	Model  *PModel    `json:"model,omitempty"`
	Pmd    *DModel    `json:"pmd,omitempty"`
	Vmd    *VModel    `json:"vmd,omitempty"`
	Info   []int      `json:"info,omitempty"`
	Groups int        `json:"groups,omitempty"`
	Shape  *mmdShape  `json:"shape,omitempty"`
	Big    *mmdCounts `json:"big,omitempty"`
	Ops    []string   `json:"ops"`
}

// shapeModel is the archetype model of a shape chosen by the specification.
func shapeModel(s mmdShape) PModel {
	one, half := bits(1), bits(0.5)
	v := func(a, b, c float32) []int { return []int{bits(a), bits(b), bits(c)} }
	m := PModel{Name: "名前", NameEn: "name", Comment: "コメント\r\n2", CommentEn: "", Tex: []string{"a.png", "tex/顔.bmp"}}
	for i := 0; i < 3; i++ {
		pv := PVert{Pos: v(float32(i), -1.25, 3), Nrm: v(0, 1, 0), UV: []int{half, bits(float32(i))}, Edge: one}
		for k := 0; k < s.Info[1]; k++ {
			pv.Ext = append(pv.Ext, []int{bits(float32(k)), one, half, bits(-2)})
		}
		switch s.Skin {
		case 0:
			pv.Bones, pv.W = []int{i % 2}, []int{1000}
		case 1:
			pv.Bones, pv.W = []int{1, 0}, []int{250, 750}
		case 2:
			pv.Bones, pv.W = []int{1, 0, 2, -1}, []int{500, 250, 125, 125}
		case 3:
			pv.Bones, pv.W = []int{0, 2}, []int{625, 375}
			pv.SD = append(append(v(1, 2, 3), v(4, 5, 6)...), v(7, 8, 9)...)
		}
		m.Verts = append(m.Verts, pv)
	}
	m.Faces = [][]int{{0, 1, 2}, {2, 1, 0}}
	m.Mats = []PMat{{Name: "材質", NameEn: "m", Col: []int{one, half, 0, one}, Spec: v(1, 0, 0.5), SpecP: bits(5), Amb: v(0.5, 0.5, 0.5), Flags: 0x13, EdgeCol: []int{0, 0, 0, one},
		Edge: half, Tex: 1, Env: -1, EnvMode: 2, ToonType: s.Toon, Toon: s.Toon, Memo: "memo", Count: 6}}
	for i := 0; i < 3; i++ {
		b := PBone{Name: "骨", NameEn: "b", Pos: v(float32(i), 2, 3), Parent: i - 1, Layer: i, Flags: s.Flags, TailID: 2 - i, TailPos: v(0, 1, 0), Inh: 1, InhW: half, Axis: v(0, 0, 1)}
		b.IK = PIK{Target: 1, Loop: 40, Limit: half, Links: []PLink{{T: 0, Has: false, Min: v(0, 0, 0), Max: v(0, 0, 0)}, {T: 2, Has: true, Min: v(-1, 0, 0), Max: v(1, 2, 3)}}}
		m.Bones = append(m.Bones, b)
	}
	mo := PMorph{Name: "笑い", NameEn: "smile", Panel: 2, Type: s.MType}
	switch s.MType {
	case 0:
		mo.Group = [][]int{{1, half}, {0, one}}
	case 1:
		mo.Vertex = [][]int{append([]int{2}, v(1, 2, 3)...), append([]int{0}, v(-1, 0, 0.5)...)}
	case 2:
		mo.Bone = [][]int{{1, one, 0, 0, 0, 0, 0, one}}
	case 3, 4, 5, 6, 7:
		mo.UV = [][]int{{1, one, half, 0, 0}}
	case 8:
		q := PMorphMat{T: -1, Flags: 1}
		for i := 0; i < 28; i++ {
			q.V = append(q.V, bits(float32(i)/4))
		}
		mo.Mat = []PMorphMat{q}
	}
	m.Morphs = []PMorph{mo, {Name: "after", Type: 1, Panel: 1, Vertex: [][]int{append([]int{1}, v(0, 0, 9)...)}}}
	m.Bodies = []PBody{{Name: "剛体", NameEn: "rb", Bone: 2, Group: 15, Mask: 65534, Shape: 2, Size: v(1, 2, 3), Pos: v(4, 5, 6), Rot: v(0.5, 0, 0), Mass: one, LD: half, AD: half, Rest: 0, Fric: one, Mode: 2},
		{Name: "b2", Bone: -1, Shape: 1, Size: v(1, 1, 1), Pos: v(0, 0, 0), Rot: v(0, 0, 0)}}
	m.Joints = []PJoint{{Name: "j", NameEn: "J", B1: 0, B2: 1, V: [][]int{v(1, 2, 3), v(4, 5, 6), v(-1, -2, -3), v(1, 1, 1), v(-0.5, 0, 0), v(0.5, 0, 0), v(7, 8, 9), v(10, 11, 12)}},
		{Name: "j2", B1: 1, B2: -1, V: [][]int{v(0, 0, 0), v(0, 0, 0), v(0, 0, 0), v(0, 0, 0), v(0, 0, 0), v(0, 0, 0), v(0, 0, 0), v(0, 0, 0)}}}
	return m
}

func (g *gen) mname() string {
	return g.pick("", "a", "頭", "左腕ＩＫ", "センター", "Bone 1", "𠮷野家", "x\ny", "é")
}
func (g *gen) sname() string {
	return g.pick("", "a", "頭", "左腕IK", "ｾﾝﾀｰ", "Bone 1", "表")
}
func (g *gen) f4() []int { return []int{g.f(), g.f(), g.f(), g.f()} }

// ref is a valid reference into n elements, or none.
func (g *gen) ref(n int) int {
	if n == 0 || g.p(15) {
		return -1
	}
	return g.n(n)
}

func (g *gen) pmx(ext int) PModel {
	m := PModel{Name: g.mname(), NameEn: g.mname(), Comment: g.mname(), CommentEn: g.mname()}
	nv, nb, nt, nmo := g.n(8), g.n(6), g.n(4), g.n(4)
	nm, nrb := g.n(4), g.n(4)
	for i := 0; i < nv; i++ {
		v := PVert{Pos: g.v3(), Nrm: g.v3(), UV: []int{g.f(), g.f()}, Edge: g.f()}
		for k := 0; k < ext; k++ {
			v.Ext = append(v.Ext, g.f4())
		}
		w := g.n(9) * 125
		switch g.n(4) {
		case 0:
			v.Bones, v.W = []int{g.ref(nb)}, []int{1000}
		case 1:
			v.Bones, v.W = []int{g.ref(nb), g.ref(nb)}, []int{w, 1000 - w}
		case 2:
			v.Bones, v.W = []int{g.ref(nb), g.ref(nb), g.ref(nb), g.ref(nb)}, []int{g.n(9) * 125, g.n(9) * 125, g.n(9) * 125, g.n(9) * 125}
		case 3:
			v.Bones, v.W = []int{g.ref(nb), g.ref(nb)}, []int{w, 1000 - w}
			v.SD = append(append(g.v3(), g.v3()...), g.v3()...)
		}
		m.Verts = append(m.Verts, v)
	}
	if nv > 0 {
		for k := g.n(6); k > 0; k-- {
			m.Faces = append(m.Faces, []int{g.n(nv), g.n(nv), g.n(nv)})
		}
	}
	for i := 0; i < nt; i++ {
		m.Tex = append(m.Tex, g.pick("a.png", "tex\\b.bmp", "顔.tga", ""))
	}
	for i := 0; i < nm; i++ {
		t := PMat{Name: g.mname(), NameEn: g.mname(), Col: g.f4(), Spec: g.v3(), SpecP: g.f(), Amb: g.v3(), Flags: g.n(256), EdgeCol: g.f4(), Edge: g.f(), Tex: g.ref(nt), Env: g.ref(nt), EnvMode: g.n(4),
			ToonType: g.n(2), Memo: g.mname(), Count: g.n(5) * 3}
		if t.ToonType == 0 {
			t.Toon = g.ref(nt)
		} else {
			t.Toon = g.n(10)
		}
		m.Mats = append(m.Mats, t)
	}
	for i := 0; i < nb; i++ {
		b := PBone{Name: g.mname(), NameEn: g.mname(), Pos: g.v3(), Parent: g.ref(nb), Layer: g.n(4), Flags: g.n(16384) & 0x3fff, TailID: g.ref(nb), TailPos: g.v3(), Inh: g.ref(nb), InhW: g.f(), Axis: g.v3(),
			IK: PIK{Target: g.ref(nb), Loop: g.n(300), Limit: g.f()}}
		for k := g.n(4); k > 0; k-- {
			b.IK.Links = append(b.IK.Links, PLink{g.ref(nb), g.p(50), g.v3(), g.v3()})
		}
		m.Bones = append(m.Bones, b)
	}
	for i := 0; i < nmo; i++ {
		o := PMorph{Name: g.mname(), NameEn: g.mname(), Panel: g.n(5)}
		n := g.n(4)
		switch g.n(4) {
		case 0:
			for ; n > 0; n-- {
				o.Group = append(o.Group, []int{g.ref(nmo), g.f()})
			}
		case 1:
			o.Type = 1
			for ; n > 0 && nv > 0; n-- {
				o.Vertex = append(o.Vertex, append([]int{g.n(nv)}, g.v3()...))
			}
		case 2:
			o.Type = 3 + g.n(5)
			for ; n > 0 && nv > 0; n-- {
				o.UV = append(o.UV, append([]int{g.n(nv)}, g.f4()...))
			}
		case 3:
			o.Type = 8
			for ; n > 0; n-- {
				q := PMorphMat{T: g.ref(nm), Flags: g.n(2)}
				for k := 0; k < 28; k++ {
					q.V = append(q.V, g.f())
				}
				o.Mat = append(o.Mat, q)
			}
		}
		m.Morphs = append(m.Morphs, o)
	}
	for i := 0; i < nrb; i++ {
		m.Bodies = append(m.Bodies, PBody{g.mname(), g.mname(), g.ref(nb), g.n(16), g.n(65536), g.n(3), g.v3(), g.v3(), g.v3(), g.f(), g.f(), g.f(), g.f(), g.f(), g.n(3)})
	}
	for k := g.n(3); k > 0; k-- {
		m.Joints = append(m.Joints, PJoint{g.mname(), g.mname(), 0, g.ref(nrb), g.ref(nrb), [][]int{g.v3(), g.v3(), g.v3(), g.v3(), g.v3(), g.v3(), g.v3(), g.v3()}})
	}
	return m
}

func (g *gen) pmd() DModel {
	m := DModel{Name: g.sname(), Comment: g.pick("", "説明\r\n二行目", "x")}
	nv, nb := g.n(8), g.n(6)
	for i := 0; i < nv; i++ {
		b := []int{0, 0}
		if nb > 0 {
			b = []int{g.n(nb), g.n(nb)}
		}
		m.Verts = append(m.Verts, DVert{g.v3(), g.v3(), []int{g.f(), g.f()}, b, g.n(101), g.n(2)})
	}
	if nv > 0 {
		for k := g.n(6); k > 0; k-- {
			m.Faces = append(m.Faces, []int{g.n(nv), g.n(nv), g.n(nv)})
		}
	}
	for k := g.n(4); k > 0; k-- {
		t := DMat{Col: []int{g.f(), g.f(), g.f(), []int{bits(1), bits(0.5), bits(0.98), 0}[g.n(4)]}, SpecP: g.f(), Spec: g.v3(), Amb: g.v3(), Toon: g.pick2(255, g.n(10)), Edge: g.n(2), Count: g.n(4) * 3, Tex: g.pick("", "a.bmp", "顔.tga")}
		if t.Tex != "" && g.p(40) {
			t.Sph = g.pick("b.sph", "c.spa")
		}
		m.Mats = append(m.Mats, t)
	}
	for i := 0; i < nb; i++ {
		p := g.ref(nb)
		m.Bones = append(m.Bones, DBone{g.sname(), p, g.n(nb), g.n(8), g.n(nb), g.v3()})
	}
	if nb > 0 {
		for _, bi := range g.r.Perm(nb)[:g.n(nb+1)] {
			k := DIK{Bone: bi, Target: g.n(nb), Iter: g.n(500), Weight: g.f()}
			for n := g.n(4); n > 0; n-- {
				k.Links = append(k.Links, g.n(nb))
			}
			m.IKs = append(m.IKs, k)
		}
	}
	if nv > 0 && g.p(70) {
		base := DMorph{Name: "base"}
		for _, v := range g.r.Perm(nv)[:1+g.n(nv)] {
			base.V = append(base.V, append([]int{v}, g.v3()...))
		}
		m.Morphs = append(m.Morphs, base)
		for k := g.n(4); k > 0; k-- {
			o := DMorph{Name: g.sname(), Panel: 1 + g.n(4)}
			for n := g.n(4); n > 0; n-- {
				o.V = append(o.V, append([]int{g.n(len(base.V))}, g.v3()...))
			}
			m.Morphs = append(m.Morphs, o)
		}
	}
	return m
}
func (g *gen) pick2(a, b int) int {
	if g.p(50) {
		return a
	}
	return b
}
func (g *gen) vmd() VModel {
	m := VModel{Name: g.sname()}
	for k := g.n(8); k > 0; k-- {
		m.Bones = append(m.Bones, VBone{g.sname(), g.n(1000), g.v3(), g.f4(), g.n(128)})
	}
	for k := g.n(8); k > 0; k-- {
		m.Morphs = append(m.Morphs, VMorph{g.sname(), g.n(1000), g.f()})
	}
	return m
}

func (g *gen) width() int { return []int{1, 2, 4}[g.n(3)] }

func bigDoc(c mmdCounts) *mmd.Document {
	d := mmd.NewDocument()
	for i := 0; i < c.V; i++ {
		d.Vertexes = append(d.Vertexes, &mmd.Vertex{Bones: []int{c.B - 1}, BoneWeights: []float32{1}})
	}
	d.Faces = []*mmd.Face{{Verts: [3]int{c.V - 1, 0, c.V / 2}}}
	for i := 0; i < c.T; i++ {
		d.Textures = append(d.Textures, "t")
	}
	for i := 0; i < c.M; i++ {
		d.Materials = append(d.Materials, &mmd.Material{TextureID: c.T - 1, EnvID: -1, Toon: c.T - 1})
	}
	for i := 0; i < c.B; i++ {
		b := &mmd.Bone{ParentID: c.B - 1, Flags: 1 | 32 | 256, TailID: -1, InheritParentID: c.B - 1}
		b.IK.TargetID = c.B - 1
		b.IK.Links = []*mmd.Link{{TargetID: c.B - 1}}
		d.Bones = append(d.Bones, b)
	}
	for i := 0; i < c.Mo; i++ {
		d.Morphs = append(d.Morphs, &mmd.Morph{Group: []*mmd.MorphGroup{{Target: c.Mo - 1}}})
	}
	d.Morphs = append(d.Morphs, &mmd.Morph{MorphType: 1, Vertex: []*mmd.MorphVertex{{Target: c.V - 1}}},
		&mmd.Morph{MorphType: 3, UV: []*mmd.MorphUV{{Target: c.V - 1}}}, &mmd.Morph{MorphType: 8, Material: []*mmd.MorphMaterial{{Target: c.M - 1}, {Target: -1}}})
	for i := 0; i < c.RB; i++ {
		d.Bodies = append(d.Bodies, &mmd.RigidBody{Bone: c.B - 1})
	}
	d.Joints = []*mmd.Joint{{Name: "j", Body1: c.RB - 1, Body2: -1}}
	return d
}

// bigPmd is a PMD model of the given size whose references are at the ends.
func bigPmd(c mmdCounts) DModel {
	z := []int{0, 0, 0}
	m := DModel{Name: "big"}
	v := DVert{z, z, []int{0, 0}, []int{c.B - 1, 0}, 100, 0}
	for i := 0; i < c.V; i++ {
		m.Verts = append(m.Verts, v)
	}
	m.Faces = [][]int{{c.V - 1, 0, c.V / 2}, {c.V - 2, c.V / 2, 1}}
	m.Mats = []DMat{{Col: []int{0, 0, 0, 0}, Spec: z, Amb: z, Toon: 255, Count: 6}}
	for i := 0; i < c.B; i++ {
		m.Bones = append(m.Bones, DBone{"b", c.B - 1, c.B - 1, 0, 0, z})
	}
	m.IKs = []DIK{{Bone: c.B - 1, Target: c.B - 1, Iter: 1, Links: []int{c.B - 1}}}
	m.Morphs = []DMorph{{Name: "base", V: [][]int{append([]int{0}, z...), append([]int{c.V - 1}, z...)}}}
	for i := 0; i < c.Mo; i++ {
		m.Morphs = append(m.Morphs, DMorph{"m", 1, [][]int{append([]int{1}, z...)}})
	}
	return m
}

func bigPmdRefs(m DModel) []int {
	v, b, o := m.Verts[len(m.Verts)-1], m.Bones[len(m.Bones)-1], m.Morphs[len(m.Morphs)-1]
	r := []int{len(m.Verts), len(m.Faces), len(m.Mats), len(m.Bones), len(m.Morphs) - 1, v.B[0], v.B[1], b.Parent, b.Tail}
	for _, f := range m.Faces {
		r = append(r, f...)
	}
	return append(r, m.IKs[0].Target, m.IKs[0].Links[0], m.Morphs[0].V[o.V[0][0]][0])
}

func pmdRefs(d *mmd.Document) []int {
	r := []int{len(d.Vertexes), len(d.Faces), len(d.Materials), len(d.Bones), len(d.Morphs)}
	if len(d.Vertexes) == 0 || len(d.Bones) == 0 || len(d.Morphs) == 0 {
		return r
	}
	v, b, o := d.Vertexes[len(d.Vertexes)-1], d.Bones[len(d.Bones)-1], d.Morphs[len(d.Morphs)-1]
	r = append(append(r, v.Bones...), b.ParentID, b.TailID)
	for _, f := range d.Faces {
		r = append(r, f.Verts[:]...)
	}
	r = append(r, b.IK.TargetID)
	for _, l := range b.IK.Links {
		r = append(r, l.TargetID)
	}
	for _, x := range o.Vertex {
		r = append(r, x.Target)
	}
	return r
}

// bigRefs projects the counts and the boundary references of a large model.
func bigRefs(d *mmd.Document) []int {
	r := []int{len(d.Vertexes), len(d.Faces), len(d.Textures), len(d.Materials), len(d.Bones), len(d.Morphs), len(d.Bodies), len(d.Joints)}
	for _, f := range d.Faces {
		r = append(r, f.Verts[0], f.Verts[1], f.Verts[2])
	}
	if n := len(d.Vertexes); n > 0 {
		r = append(r, d.Vertexes[n-1].Bones...)
	}
	if n := len(d.Materials); n > 0 {
		t := d.Materials[n-1]
		r = append(r, t.TextureID, t.EnvID, t.Toon)
	}
	if n := len(d.Bones); n > 0 {
		b := d.Bones[n-1]
		r = append(r, b.ParentID, b.TailID, b.InheritParentID, b.IK.TargetID)
		for _, l := range b.IK.Links {
			r = append(r, l.TargetID)
		}
	}
	for i, m := range d.Morphs {
		if i < len(d.Morphs)-4 {
			continue
		}
		for _, x := range m.Group {
			r = append(r, x.Target)
		}
		for _, x := range m.Vertex {
			r = append(r, x.Target)
		}
		for _, x := range m.UV {
			r = append(r, x.Target)
		}
		for _, x := range m.Material {
			r = append(r, x.Target)
		}
	}
	if n := len(d.Bodies); n > 0 {
		r = append(r, d.Bodies[n-1].Bone)
	}
	for _, j := range d.Joints {
		r = append(r, j.Body1, j.Body2)
	}
	return r
}

func hash(b []byte) string {
	h := sha1.Sum(b)
	return hex.EncodeToString(h[:8])
}

func init() {
	reg("mmdfile", &Domain{
		Gen: func(r *rand.Rand, n int) []interface{} {
			var cs []interface{}
			for i := 0; i < n; i++ {
				g := &gen{r: r, exact: true}
				info := []int{g.n(2), g.n(5), g.width(), g.width(), g.width(), g.width(), g.width(), g.width()}
				switch i % 4 {
				case 0:
					m := g.pmx(info[1])
					cs = append(cs, mmdCase{Fmt: "pmx", Model: &m, Info: info, Ops: []string{"build", "write", "read", "write", "read"}})
				case 1:
					m := g.pmx(info[1])
					cs = append(cs, mmdCase{Fmt: "pmx", Model: &m, Info: info, Groups: g.n(3), Ops: []string{"file", "read", "write", "read"}})
				case 2:
					m := g.pmd()
					ops := []string{"file", "read"}
					if g.p(60) {
						for i := range m.Mats {
							m.Mats[i].Toon = g.n(10)
						}
						ops = append(ops, "write", "read")
					}
					cs = append(cs, mmdCase{Fmt: "pmd", Pmd: &m, Ops: ops})
				case 3:
					m := g.vmd()
					cs = append(cs, mmdCase{Fmt: "vmd", Vmd: &m, Ops: []string{"file", "read"}})
				}
			}
			return cs
		},
		Run: func(body json.RawMessage, emit func(Event)) {
			var c mmdCase
			must(json.Unmarshal(body, &c))
			x := bitsNum
			if c.Big != nil && c.Fmt != "pmx" {
				var data []byte
				var want []int
				if c.Fmt == "pmxfile" {
					d := bigDoc(*c.Big)
					data, want = encodePmx(projPmx(d, x), c.Info, 0, x), bigRefs(d)
				} else {
					m := bigPmd(*c.Big)
					data, want = encodePmd(m, x), bigPmdRefs(m)
				}
				d, err := mmd.Parse(bytes.NewReader(data))
				got := []int{}
				if err == nil && c.Fmt == "pmxfile" {
					got = bigRefs(d)
				} else if err == nil {
					got = pmdRefs(d)
				}
				emit(Event{"op": "bigfile", "fmt": c.Fmt, "counts": c.Big, "rok": err == nil, "wrote": want, "read": got})
				return
			}
			if c.Big != nil {
				d := bigDoc(*c.Big)
				want := bigRefs(d)
				var buf bytes.Buffer
				err := mmd.WritePMX(d, &buf)
				d2, err2 := mmd.Parse(bytes.NewReader(buf.Bytes()))
				got := []int{}
				if d2 != nil {
					got = bigRefs(d2)
				}
				emit(Event{"op": "big", "counts": c.Big, "wok": err == nil, "rok": err2 == nil, "wrote": want, "read": got})
				return
			}
			if c.Shape != nil {
				m := shapeModel(*c.Shape)
				c.Model, c.Info, c.Groups = &m, c.Shape.Info, c.Shape.Groups
			}
			var doc *mmd.Document
			var data []byte
			for _, op := range c.Ops {
				switch op {
				case "build":
					doc = buildPmx(*c.Model, c.Info, x)
					emit(Event{"op": "build", "model": c.Model})
				case "write":
					if doc == nil {
						continue
					}
					var buf bytes.Buffer
					err := mmd.WritePMX(doc, &buf)
					data = append([]byte{}, buf.Bytes()...)
					info := []int{}
					for i := 9; i < 17 && i < len(data); i++ {
						info = append(info, int(data[i]))
					}
					emit(Event{"op": "write", "ok": err == nil, "hash": hash(data), "size": len(data), "info": info})
				case "file":
					ev := Event{"op": "file", "fmt": c.Fmt}
					switch c.Fmt {
					case "pmx":
						data = encodePmx(*c.Model, c.Info, c.Groups, x)
						ev["model"] = c.Model
					case "pmd":
						data = encodePmd(*c.Pmd, x)
						ev["pmd"] = c.Pmd
					case "vmd":
						data = encodeVmd(*c.Vmd, x)
						ev["vmd"] = c.Vmd
					}
					emit(ev)
				case "read":
					if c.Fmt == "vmd" {
						a, err := mmd.NewVMDParser(bytes.NewReader(data)).Parse()
						ev := Event{"op": "read", "fmt": "vmd", "ok": err == nil, "vmd": VModel{}}
						if a != nil {
							ev["vmd"] = projVmd(a, x)
						}
						emit(ev)
						continue
					}
					d, err := mmd.Parse(bytes.NewReader(data))
					ev := Event{"op": "read", "fmt": "pmx", "ok": err == nil, "model": PModel{}}
					if d != nil {
						ev["model"] = projPmx(d, x)
						doc = d
					}
					emit(ev)
				}
			}
		},
	})
}
