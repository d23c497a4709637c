package main

import (
	"bytes"
	"encoding/binary"
	"unicode/utf16"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mmd"
	"golang.org/x/text/encoding/japanese"
)

// Abstract MMD model.
type PVert struct {
	Pos   []int   `json:"pos"`
	Nrm   []int   `json:"nrm"`
	UV    []int   `json:"uv"`
	Ext   [][]int `json:"ext"`
	Edge  int     `json:"edge"`
	Bones []int   `json:"bones"`
	W     []int   `json:"w"`  // thousandths
	SD    []int   `json:"sd"` // SDEF parameters (9 numbers) or empty
}
type PMat struct {
	Name     string `json:"name"`
	NameEn   string `json:"nameen"`
	Col      []int  `json:"col"`
	Spec     []int  `json:"spec"`
	SpecP    int    `json:"specp"`
	Amb      []int  `json:"amb"`
	Flags    int    `json:"flags"`
	EdgeCol  []int  `json:"edgecol"`
	Edge     int    `json:"edge"`
	Tex      int    `json:"tex"`
	Env      int    `json:"env"`
	EnvMode  int    `json:"envmode"`
	ToonType int    `json:"toontype"`
	Toon     int    `json:"toon"`
	Memo     string `json:"memo"`
	Count    int    `json:"count"`
}
type PLink struct {
	T   int   `json:"t"`
	Has bool  `json:"has"`
	Min []int `json:"min"`
	Max []int `json:"max"`
}
type PIK struct {
	Target int     `json:"target"`
	Loop   int     `json:"loop"`
	Limit  int     `json:"limit"`
	Links  []PLink `json:"links"`
}
type PBone struct {
	Name    string `json:"name"`
	NameEn  string `json:"nameen"`
	Pos     []int  `json:"pos"`
	Parent  int    `json:"parent"`
	Layer   int    `json:"layer"`
	Flags   int    `json:"flags"`
	TailID  int    `json:"tailid"`
	TailPos []int  `json:"tailpos"`
	Inh     int    `json:"inh"`
	InhW    int    `json:"inhw"`
	Axis    []int  `json:"axis"`
	IK      PIK    `json:"ik"`
}
type PMorphMat struct {
	T     int   `json:"t"`
	Flags int   `json:"flags"`
	V     []int `json:"v"` // 28 numbers
}
type PMorph struct {
	Name   string      `json:"name"`
	NameEn string      `json:"nameen"`
	Panel  int         `json:"panel"`
	Type   int         `json:"type"`
	Group  [][]int     `json:"group"`  // target, weight
	Vertex [][]int     `json:"vertex"` // target, x, y, z
	UV     [][]int     `json:"uv"`     // target, 4 numbers
	Mat    []PMorphMat `json:"mat"`
	Bone   [][]int     `json:"bone"` // target, 7 numbers: only encodable, not represented by the tool
}
type PBody struct {
	Name   string `json:"name"`
	NameEn string `json:"nameen"`
	Bone   int    `json:"bone"`
	Group  int    `json:"group"`
	Mask   int    `json:"mask"` // modulo 65536
	Shape  int    `json:"shape"`
	Size   []int  `json:"size"`
	Pos    []int  `json:"pos"`
	Rot    []int  `json:"rot"`
	Mass   int    `json:"mass"`
	LD     int    `json:"ld"`
	AD     int    `json:"ad"`
	Rest   int    `json:"rest"`
	Fric   int    `json:"fric"`
	Mode   int    `json:"mode"`
}
type PJoint struct {
	Name   string  `json:"name"`
	NameEn string  `json:"nameen"`
	Type   int     `json:"type"`
	B1     int     `json:"b1"`
	B2     int     `json:"b2"`
	V      [][]int `json:"v"` // 8 vectors
}
type PModel struct {
	Name      string   `json:"name"`
	NameEn    string   `json:"nameen"`
	Comment   string   `json:"comment"`
	CommentEn string   `json:"commenten"`
	Verts     []PVert  `json:"verts"`
	Faces     [][]int  `json:"faces"`
	Tex       []string `json:"tex"`
	Mats      []PMat   `json:"mats"`
	Bones     []PBone  `json:"bones"`
	Morphs    []PMorph `json:"morphs"`
	Bodies    []PBody  `json:"bodies"`
	Joints    []PJoint `json:"joints"`
}

func v4(x num, v geom.Vector4) []int { return []int{x.to(v.X), x.to(v.Y), x.to(v.Z), x.to(v.W)} }
func uv4(x num, a []int) geom.Vector4 {
	return geom.Vector4{X: x.from(a[0]), Y: x.from(a[1]), Z: x.from(a[2]), W: x.from(a[3])}
}

func projPmx(d *mmd.Document, x num) PModel {
	m := PModel{Name: d.Name, NameEn: d.NameEn, Comment: d.Comment, CommentEn: d.CommentEn, Tex: append([]string{}, d.Textures...)}
	for _, v := range d.Vertexes {
		pv := PVert{Pos: x.v3(&v.Pos), Nrm: x.v3(&v.Normal), UV: []int{x.to(v.UV.X), x.to(v.UV.Y)}, Edge: x.to(v.EdgeScale), Bones: append([]int{}, v.Bones...)}
		for _, e := range v.ExtUVs {
			pv.Ext = append(pv.Ext, v4(x, e))
		}
		for i, w := range v.BoneWeights {
			if i < len(v.Bones) {
				pv.W = append(pv.W, milli(w))
			} else {
				pv.SD = append(pv.SD, x.to(w))
			}
		}
		m.Verts = append(m.Verts, pv)
	}
	for _, f := range d.Faces {
		m.Faces = append(m.Faces, []int{f.Verts[0], f.Verts[1], f.Verts[2]})
	}
	for _, t := range d.Materials {
		m.Mats = append(m.Mats, PMat{t.Name, t.NameEn, v4(x, t.Color), x.v3(&t.Specular), x.to(t.Specularity), x.v3(&t.AColor), int(t.Flags), v4(x, t.EdgeColor),
			x.to(t.EdgeScale), t.TextureID, t.EnvID, int(t.EnvMode), int(t.ToonType), t.Toon, t.Memo, t.Count})
	}
	for _, b := range d.Bones {
		pb := PBone{Name: b.Name, NameEn: b.NameEn, Pos: x.v3(&b.Pos), Parent: b.ParentID, Layer: b.Layer, Flags: int(b.Flags), TailID: b.TailID, TailPos: x.v3(&b.TailPos),
			Inh: b.InheritParentID, InhW: x.to(b.InheritParentInfluence), Axis: x.v3(&b.FixedAxis), IK: PIK{Target: b.IK.TargetID, Loop: b.IK.Loop, Limit: x.to(b.IK.LimitRad)}}
		for _, l := range b.IK.Links {
			pb.IK.Links = append(pb.IK.Links, PLink{l.TargetID, l.HasLimit, x.v3(&l.LimitMin), x.v3(&l.LimitMax)})
		}
		m.Bones = append(m.Bones, pb)
	}
	for _, o := range d.Morphs {
		pm := PMorph{Name: o.Name, NameEn: o.NameEn, Panel: int(o.PanelType), Type: int(o.MorphType)}
		for _, g := range o.Group {
			pm.Group = append(pm.Group, []int{g.Target, x.to(g.Weight)})
		}
		for _, g := range o.Vertex {
			pm.Vertex = append(pm.Vertex, append([]int{g.Target}, x.v3(&g.Offset)...))
		}
		for _, g := range o.UV {
			pm.UV = append(pm.UV, append([]int{g.Target}, v4(x, g.Value)...))
		}
		for _, g := range o.Material {
			q := PMorphMat{T: g.Target, Flags: int(g.Flags)}
			q.V = append(q.V, v4(x, g.Diffuse)...)
			q.V = append(q.V, x.v3(&g.Specular)...)
			q.V = append(q.V, x.to(g.Specularity))
			q.V = append(q.V, x.v3(&g.Ambient)...)
			q.V = append(q.V, v4(x, g.EdgeColor)...)
			q.V = append(q.V, x.to(g.EdgeSize))
			q.V = append(q.V, v4(x, g.TextureTint)...)
			q.V = append(q.V, v4(x, g.EnvironmentTint)...)
			q.V = append(q.V, v4(x, g.ToonTint)...)
			pm.Mat = append(pm.Mat, q)
		}
		m.Morphs = append(m.Morphs, pm)
	}
	for _, b := range d.Bodies {
		m.Bodies = append(m.Bodies, PBody{b.Name, b.NameEn, b.Bone, b.Group, ((b.GroupTarget % 65536) + 65536) % 65536, int(b.Shape), x.v3(&b.Size), x.v3(&b.Position), x.v3(&b.Rotation),
			x.to(b.Mass), x.to(b.LinearDamping), x.to(b.AngularDamping), x.to(b.Restitution), x.to(b.Friction), int(b.Mode)})
	}
	for _, j := range d.Joints {
		m.Joints = append(m.Joints, PJoint{j.Name, j.NameEn, int(j.Type), j.Body1, j.Body2, [][]int{x.v3(&j.Position), x.v3(&j.Rotation), x.v3(&j.PositionMin), x.v3(&j.PositionMax),
			x.v3(&j.RotationMin), x.v3(&j.RotationMax), x.v3(&j.LinerSpring), x.v3(&j.AngulerSpring)}})
	}
	return m
}

func g3(x num, a []int) geom.Vector3 {
	if v := x.uv3(a); v != nil {
		return *v
	}
	return geom.Vector3{}
}

func buildPmx(m PModel, info []int, x num) *mmd.Document {
	d := mmd.NewDocument()
	for i, v := range info {
		if i < len(d.Header.Info) {
			d.Header.Info[i] = byte(v)
		}
	}
	d.Name, d.NameEn, d.Comment, d.CommentEn, d.Textures = m.Name, m.NameEn, m.Comment, m.CommentEn, append([]string{}, m.Tex...)
	for _, v := range m.Verts {
		pv := &mmd.Vertex{Pos: g3(x, v.Pos), Normal: g3(x, v.Nrm), UV: geom.Vector2{X: x.from(v.UV[0]), Y: x.from(v.UV[1])}, EdgeScale: x.from(v.Edge), Bones: append([]int{}, v.Bones...)}
		for _, e := range v.Ext {
			pv.ExtUVs = append(pv.ExtUVs, uv4(x, e))
		}
		for _, w := range v.W {
			pv.BoneWeights = append(pv.BoneWeights, unmilli(w))
		}
		for _, w := range v.SD {
			pv.BoneWeights = append(pv.BoneWeights, x.from(w))
		}
		d.Vertexes = append(d.Vertexes, pv)
	}
	for _, f := range m.Faces {
		d.Faces = append(d.Faces, &mmd.Face{Verts: [3]int{f[0], f[1], f[2]}})
	}
	for _, t := range m.Mats {
		d.Materials = append(d.Materials, &mmd.Material{Name: t.Name, NameEn: t.NameEn, Color: uv4(x, t.Col), Specular: g3(x, t.Spec), Specularity: x.from(t.SpecP), AColor: g3(x, t.Amb),
			Flags: byte(t.Flags), EdgeColor: uv4(x, t.EdgeCol), EdgeScale: x.from(t.Edge), TextureID: t.Tex, EnvID: t.Env, EnvMode: byte(t.EnvMode), ToonType: byte(t.ToonType), Toon: t.Toon, Memo: t.Memo, Count: t.Count})
	}
	for _, b := range m.Bones {
		pb := &mmd.Bone{Name: b.Name, NameEn: b.NameEn, Pos: g3(x, b.Pos), ParentID: b.Parent, Layer: b.Layer, Flags: uint16(b.Flags), TailID: b.TailID, TailPos: g3(x, b.TailPos),
			InheritParentID: b.Inh, InheritParentInfluence: x.from(b.InhW), FixedAxis: g3(x, b.Axis)}
		pb.IK.TargetID, pb.IK.Loop, pb.IK.LimitRad = b.IK.Target, b.IK.Loop, x.from(b.IK.Limit)
		for _, l := range b.IK.Links {
			pb.IK.Links = append(pb.IK.Links, &mmd.Link{TargetID: l.T, HasLimit: l.Has, LimitMin: g3(x, l.Min), LimitMax: g3(x, l.Max)})
		}
		d.Bones = append(d.Bones, pb)
	}
	for _, o := range m.Morphs {
		pm := &mmd.Morph{Name: o.Name, NameEn: o.NameEn, PanelType: byte(o.Panel), MorphType: byte(o.Type)}
		for _, g := range o.Group {
			pm.Group = append(pm.Group, &mmd.MorphGroup{Target: g[0], Weight: x.from(g[1])})
		}
		for _, g := range o.Vertex {
			pm.Vertex = append(pm.Vertex, &mmd.MorphVertex{Target: g[0], Offset: g3(x, g[1:])})
		}
		for _, g := range o.UV {
			pm.UV = append(pm.UV, &mmd.MorphUV{Target: g[0], Value: uv4(x, g[1:])})
		}
		for _, g := range o.Mat {
			v := g.V
			pm.Material = append(pm.Material, &mmd.MorphMaterial{Target: g.T, Flags: byte(g.Flags), Diffuse: uv4(x, v), Specular: g3(x, v[4:]), Specularity: x.from(v[7]), Ambient: g3(x, v[8:]),
				EdgeColor: uv4(x, v[11:]), EdgeSize: x.from(v[15]), TextureTint: uv4(x, v[16:]), EnvironmentTint: uv4(x, v[20:]), ToonTint: uv4(x, v[24:])})
		}
		d.Morphs = append(d.Morphs, pm)
	}
	for _, b := range m.Bodies {
		d.Bodies = append(d.Bodies, &mmd.RigidBody{Name: b.Name, NameEn: b.NameEn, Bone: b.Bone, Group: b.Group, GroupTarget: b.Mask, Shape: uint8(b.Shape), Size: g3(x, b.Size), Position: g3(x, b.Pos), Rotation: g3(x, b.Rot),
			Mass: x.from(b.Mass), LinearDamping: x.from(b.LD), AngularDamping: x.from(b.AD), Restitution: x.from(b.Rest), Friction: x.from(b.Fric), Mode: uint8(b.Mode)})
	}
	for _, j := range m.Joints {
		d.Joints = append(d.Joints, &mmd.Joint{Name: j.Name, NameEn: j.NameEn, Type: uint8(j.Type), Body1: j.B1, Body2: j.B2, Position: g3(x, j.V[0]), Rotation: g3(x, j.V[1]),
			PositionMin: g3(x, j.V[2]), PositionMax: g3(x, j.V[3]), RotationMin: g3(x, j.V[4]), RotationMax: g3(x, j.V[5]), LinerSpring: g3(x, j.V[6]), AngulerSpring: g3(x, j.V[7])})
	}
	return d
}

// enc writes files independently of the code under test, from the published format descriptions.
type enc struct {
	bytes.Buffer
	info []int // encoding, extra UVs, vertex, texture, material, bone, morph, body widths
	x    num
}

func (e *enc) le(v interface{}) { must(binary.Write(&e.Buffer, binary.LittleEndian, v)) }
func (e *enc) u8(v int)         { e.le(uint8(v)) }
func (e *enc) i32(v int)        { e.le(int32(v)) }
func (e *enc) idx(kind, v int) {
	switch e.info[kind] {
	case 1:
		e.le(uint8(v))
	case 2:
		e.le(uint16(v))
	default:
		e.le(int32(v))
	}
}
func (e *enc) f(a ...int) {
	for _, v := range a {
		e.le(e.x.from(v))
	}
}
func (e *enc) text(s string) {
	if e.info[0] == 0 {
		u := utf16.Encode([]rune(s))
		e.i32(len(u) * 2)
		e.le(u)
		return
	}
	e.i32(len(s))
	e.WriteString(s)
}

func encodePmx(m PModel, info []int, ngroups int, x num) []byte {
	e := &enc{info: info, x: x}
	e.WriteString("PMX ")
	e.le(float32(2))
	e.u8(8)
	for i := 0; i < 8; i++ {
		e.u8(info[i])
	}
	e.text(m.Name)
	e.text(m.NameEn)
	e.text(m.Comment)
	e.text(m.CommentEn)
	e.i32(len(m.Verts))
	for _, v := range m.Verts {
		e.f(v.Pos...)
		e.f(v.Nrm...)
		e.f(v.UV...)
		for _, u := range v.Ext {
			e.f(u...)
		}
		switch {
		case len(v.SD) > 0:
			e.u8(3)
			e.idx(5, v.Bones[0])
			e.idx(5, v.Bones[1])
			e.le(unmilli(v.W[0]))
			e.f(v.SD...)
		case len(v.Bones) == 1:
			e.u8(0)
			e.idx(5, v.Bones[0])
		case len(v.Bones) == 2:
			e.u8(1)
			e.idx(5, v.Bones[0])
			e.idx(5, v.Bones[1])
			e.le(unmilli(v.W[0]))
		default:
			e.u8(2)
			for _, b := range v.Bones {
				e.idx(5, b)
			}
			for _, w := range v.W {
				e.le(unmilli(w))
			}
		}
		e.f(v.Edge)
	}
	e.i32(len(m.Faces) * 3)
	for _, f := range m.Faces {
		for _, v := range f {
			e.idx(2, v)
		}
	}
	e.i32(len(m.Tex))
	for _, t := range m.Tex {
		e.text(t)
	}
	e.i32(len(m.Mats))
	for _, t := range m.Mats {
		e.text(t.Name)
		e.text(t.NameEn)
		e.f(t.Col...)
		e.f(t.Spec...)
		e.f(t.SpecP)
		e.f(t.Amb...)
		e.u8(t.Flags)
		e.f(t.EdgeCol...)
		e.f(t.Edge)
		e.idx(3, t.Tex)
		e.idx(3, t.Env)
		e.u8(t.EnvMode)
		e.u8(t.ToonType)
		if t.ToonType == 0 {
			e.idx(3, t.Toon)
		} else {
			e.u8(t.Toon)
		}
		e.text(t.Memo)
		e.i32(t.Count)
	}
	e.i32(len(m.Bones))
	for _, b := range m.Bones {
		e.text(b.Name)
		e.text(b.NameEn)
		e.f(b.Pos...)
		e.idx(5, b.Parent)
		e.i32(b.Layer)
		e.le(uint16(b.Flags))
		if b.Flags&1 != 0 {
			e.idx(5, b.TailID)
		} else {
			e.f(b.TailPos...)
		}
		if b.Flags&0x300 != 0 {
			e.idx(5, b.Inh)
			e.f(b.InhW)
		}
		if b.Flags&0x400 != 0 {
			e.f(b.Axis...)
		}
		if b.Flags&0x800 != 0 {
			e.f(bits(1), bits(0), bits(0), bits(0), bits(0), bits(1))
		}
		if b.Flags&0x2000 != 0 {
			e.i32(7)
		}
		if b.Flags&0x20 != 0 {
			e.idx(5, b.IK.Target)
			e.i32(b.IK.Loop)
			e.f(b.IK.Limit)
			e.i32(len(b.IK.Links))
			for _, l := range b.IK.Links {
				e.idx(5, l.T)
				if l.Has {
					e.u8(1)
					e.f(l.Min...)
					e.f(l.Max...)
				} else {
					e.u8(0)
				}
			}
		}
	}
	e.i32(len(m.Morphs))
	for _, o := range m.Morphs {
		e.text(o.Name)
		e.text(o.NameEn)
		e.u8(o.Panel)
		e.u8(o.Type)
		e.i32(len(o.Group) + len(o.Vertex) + len(o.UV) + len(o.Mat) + len(o.Bone))
		for _, g := range o.Group {
			e.idx(6, g[0])
			e.f(g[1:]...)
		}
		for _, g := range o.Vertex {
			e.idx(2, g[0])
			e.f(g[1:]...)
		}
		for _, g := range o.UV {
			e.idx(2, g[0])
			e.f(g[1:]...)
		}
		for _, g := range o.Bone {
			e.idx(5, g[0])
			e.f(g[1:]...)
		}
		for _, g := range o.Mat {
			e.idx(4, g.T)
			e.u8(g.Flags)
			e.f(g.V...)
		}
	}
	e.i32(ngroups)
	for i := 0; i < ngroups; i++ {
		e.text("表示枠")
		e.text("g")
		e.u8(i % 2)
		kinds := [][]int{{0, 1}, {1}, {0}, {}, {1, 1, 0}, {1, 0, 0, 1}}[(i+len(m.Verts)+len(m.Faces))%6]
		e.i32(len(kinds))
		for _, k := range kinds {
			e.u8(k)
			e.idx(5+k, 0)
		}
	}
	e.i32(len(m.Bodies))
	for _, b := range m.Bodies {
		e.text(b.Name)
		e.text(b.NameEn)
		e.idx(5, b.Bone)
		e.u8(b.Group)
		e.le(uint16(b.Mask))
		e.u8(b.Shape)
		e.f(b.Size...)
		e.f(b.Pos...)
		e.f(b.Rot...)
		e.f(b.Mass, b.LD, b.AD, b.Rest, b.Fric)
		e.u8(b.Mode)
	}
	e.i32(len(m.Joints))
	for _, j := range m.Joints {
		e.text(j.Name)
		e.text(j.NameEn)
		e.u8(j.Type)
		e.idx(7, j.B1)
		e.idx(7, j.B2)
		for _, v := range j.V {
			e.f(v...)
		}
	}
	return e.Bytes()
}

// PMD and VMD.
type DMat struct {
	Col   []int  `json:"col"`
	SpecP int    `json:"specp"`
	Spec  []int  `json:"spec"`
	Amb   []int  `json:"amb"`
	Toon  int    `json:"toon"`
	Edge  int    `json:"edge"`
	Count int    `json:"count"`
	Tex   string `json:"tex"`
	Sph   string `json:"sph"`
}
type DVert struct {
	Pos  []int `json:"pos"`
	Nrm  []int `json:"nrm"`
	UV   []int `json:"uv"`
	B    []int `json:"b"`
	W    int   `json:"w"`
	Edge int   `json:"edge"`
}
type DBone struct {
	Name   string `json:"name"`
	Parent int    `json:"parent"`
	Tail   int    `json:"tail"`
	Type   int    `json:"type"`
	IKP    int    `json:"ikp"`
	Pos    []int  `json:"pos"`
}
type DIK struct {
	Bone   int   `json:"bone"`
	Target int   `json:"target"`
	Iter   int   `json:"iter"`
	Weight int   `json:"weight"`
	Links  []int `json:"links"`
}
type DMorph struct {
	Name  string  `json:"name"`
	Panel int     `json:"panel"`
	V     [][]int `json:"v"`
}
type DModel struct {
	Name    string   `json:"name"`
	Comment string   `json:"comment"`
	Verts   []DVert  `json:"verts"`
	Faces   [][]int  `json:"faces"`
	Mats    []DMat   `json:"mats"`
	Bones   []DBone  `json:"bones"`
	IKs     []DIK    `json:"iks"`
	Morphs  []DMorph `json:"morphs"`
}

// sjis encodes s into exactly n bytes: NUL terminated, padded with 0xFD like MMD does.
func (e *enc) sjis(s string, n int) {
	b, err := japanese.ShiftJIS.NewEncoder().Bytes([]byte(s))
	must(err)
	if len(b) > n {
		panic("harness: text too long: " + s)
	}
	if len(b) < n {
		b = append(b, 0)
	}
	for len(b) < n {
		b = append(b, 0xFD)
	}
	e.Write(b)
}

func encodePmd(m DModel, x num) []byte {
	e := &enc{x: x}
	e.WriteString("Pmd")
	e.le(float32(1))
	e.sjis(m.Name, 20)
	e.sjis(m.Comment, 256)
	e.i32(len(m.Verts))
	for _, v := range m.Verts {
		e.f(v.Pos...)
		e.f(v.Nrm...)
		e.f(v.UV...)
		e.le(uint16(v.B[0]))
		e.le(uint16(v.B[1]))
		e.u8(v.W)
		e.u8(v.Edge)
	}
	e.i32(len(m.Faces) * 3)
	for _, f := range m.Faces {
		for _, v := range f {
			e.le(uint16(v))
		}
	}
	e.i32(len(m.Mats))
	for _, t := range m.Mats {
		e.f(t.Col...)
		e.f(t.SpecP)
		e.f(t.Spec...)
		e.f(t.Amb...)
		e.u8(t.Toon)
		e.u8(t.Edge)
		e.i32(t.Count)
		tx := t.Tex
		if t.Sph != "" {
			tx += "*" + t.Sph
		}
		e.sjis(tx, 20)
	}
	e.le(uint16(len(m.Bones)))
	for _, b := range m.Bones {
		e.sjis(b.Name, 20)
		e.le(uint16(b.Parent))
		e.le(uint16(b.Tail))
		e.u8(b.Type)
		e.le(uint16(b.IKP))
		e.f(b.Pos...)
	}
	e.le(uint16(len(m.IKs)))
	for _, k := range m.IKs {
		e.le(uint16(k.Bone))
		e.le(uint16(k.Target))
		e.u8(len(k.Links))
		e.le(uint16(k.Iter))
		e.f(k.Weight)
		for _, l := range k.Links {
			e.le(uint16(l))
		}
	}
	e.le(uint16(len(m.Morphs)))
	for _, o := range m.Morphs {
		e.sjis(o.Name, 20)
		e.i32(len(o.V))
		e.u8(o.Panel)
		for _, v := range o.V {
			e.i32(v[0])
			e.f(v[1:]...)
		}
	}
	e.u8(0) // display lists follow in real files
	return e.Bytes()
}

type VBone struct {
	T      string `json:"t"`
	Frame  int    `json:"frame"`
	Pos    []int  `json:"pos"`
	Rot    []int  `json:"rot"`
	Params int    `json:"params"` // first interpolation byte
}
type VMorph struct {
	T     string `json:"t"`
	Frame int    `json:"frame"`
	Val   int    `json:"val"`
}
type VModel struct {
	Name   string   `json:"name"`
	Bones  []VBone  `json:"bones"`
	Morphs []VMorph `json:"morphs"`
}

func encodeVmd(m VModel, x num) []byte {
	e := &enc{x: x}
	e.sjis("Vocaloid Motion Data 0002", 30)
	e.sjis(m.Name, 20)
	e.i32(len(m.Bones))
	for _, b := range m.Bones {
		e.sjis(b.T, 15)
		e.i32(b.Frame)
		e.f(b.Pos...)
		e.f(b.Rot...)
		e.u8(b.Params)
		e.Write(make([]byte, 63))
	}
	e.i32(len(m.Morphs))
	for _, b := range m.Morphs {
		e.sjis(b.T, 15)
		e.i32(b.Frame)
		e.f(b.Val)
	}
	e.i32(0)
	e.i32(0)
	e.i32(0)
	return e.Bytes()
}

func projVmd(a *mmd.Animation, x num) VModel {
	m := VModel{Name: a.Name}
	for _, b := range a.Bone {
		m.Bones = append(m.Bones, VBone{b.Target, b.Frame, x.v3(&b.Position), v4(x, b.Rotation), int(b.Params[0])})
	}
	for _, b := range a.Morph {
		m.Morphs = append(m.Morphs, VMorph{b.Target, b.Frame, x.to(b.Value)})
	}
	return m
}
