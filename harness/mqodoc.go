package main

import (
	"sort"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"
)

// Abstract MQO document: integers (thousandths, or float bit patterns for the
// fields whose textual form is exact), strings and sequences only.
type JParam struct {
	K string `json:"k"`
	T string `json:"t"` // int float bool color string
	V []int  `json:"v"`
	S string `json:"s"`
}
type JKV struct {
	K string `json:"k"`
	S string `json:"s"`
}
type JMParam struct {
	K string   `json:"k"`
	P []JParam `json:"p"`
}
type JEx2 struct {
	Type    string    `json:"type"`
	Name    string    `json:"name"`
	Params  []JParam  `json:"params"`
	Maps    []JKV     `json:"maps"`
	MParams []JMParam `json:"mparams"`
}
type JMat struct {
	Name   string `json:"name"`
	UID    int    `json:"uid"`
	Shader int    `json:"shader"`
	Dbl    bool   `json:"dbl"`
	Col    []int  `json:"col"`
	Dif    int    `json:"dif"`
	Amb    int    `json:"amb"`
	Emi    int    `json:"emi"`
	Spc    int    `json:"spc"`
	Pow    int    `json:"pow"`
	Tex    string `json:"tex"`
	Alpha  string `json:"alpha"`
	Bump   string `json:"bump"`
	EmiCol []int  `json:"emicol"`
	Ex2    []JEx2 `json:"ex2"`
}
type JFace struct {
	V   []int   `json:"v"`
	M   int     `json:"m"`
	UID int     `json:"uid"`
	UV  [][]int `json:"uv"`
	N   [][]int `json:"n"`
}
type JObj struct {
	Name    string  `json:"name"`
	UID     int     `json:"uid"`
	Depth   int     `json:"depth"`
	Fold    bool    `json:"fold"`
	Vis     bool    `json:"vis"`
	Lock    bool    `json:"lock"`
	Shading int     `json:"shading"`
	Facet   int     `json:"facet"`
	Patch   int     `json:"patch"`
	Seg     int     `json:"seg"`
	Mirror  int     `json:"mirror"`
	MDis    int     `json:"mdis"`
	Scale   []int   `json:"scale"`
	Rot     []int   `json:"rot"`
	Trans   []int   `json:"trans"`
	Color   []int   `json:"color"`
	Verts   [][]int `json:"verts"`
	Faces   []JFace `json:"faces"`
	VUIDs   []int   `json:"vuids"`
}
type JWeight struct {
	O int     `json:"o"`
	V [][]int `json:"v"`
}
type JIK struct {
	Chain int    `json:"chain"`
	Name  string `json:"name"`
	Tip   string `json:"tip"`
}
type JBone struct {
	ID      int       `json:"id"`
	Name    string    `json:"name"`
	Group   int       `json:"group"`
	Parent  int       `json:"parent"`
	Pos     []int     `json:"pos"`
	Movable int       `json:"movable"`
	Hide    int       `json:"hide"`
	Dummy   int       `json:"dummy"`
	Color   string    `json:"color"`
	Up      []int     `json:"up"`
	Rotate  []int     `json:"rotate"`
	IK      []JIK     `json:"ik"`
	W       []JWeight `json:"w"`
}
type JPose struct {
	ID   int    `json:"id"`
	Name string `json:"name"`
	Mv   []int  `json:"mv"`
	Rot  []int  `json:"rot"`
	Sc   []int  `json:"sc"`
}
type JTarget struct {
	Name  string `json:"name"`
	Param int    `json:"param"`
}
type JMorph struct {
	Base    string    `json:"base"`
	Targets []JTarget `json:"targets"`
}
type JShape struct {
	Type string `json:"type"`
	Size []int  `json:"size"`
	Pos  []int  `json:"pos"`
	Rot  []int  `json:"rot"`
}
type JBody struct {
	Name   string   `json:"name"`
	Mass   int      `json:"mass"`
	Kin    bool     `json:"kin"`
	Group  int      `json:"group"`
	Mask   int      `json:"mask"`
	Rest   int      `json:"rest"`
	Fric   int      `json:"fric"`
	LD     int      `json:"ld"`
	AD     int      `json:"ad"`
	TB     int      `json:"tb"`
	TO     int      `json:"to"`
	Shapes []JShape `json:"shapes"`
}
type JJoint struct {
	Type string `json:"type"`
	B1   int    `json:"b1"`
	B2   int    `json:"b2"`
	Name string `json:"name"`
	Pos  []int  `json:"pos"`
	Rot  []int  `json:"rot"`
	Lin  []int  `json:"lin"`
	Ang  []int  `json:"ang"`
}
type JScene struct {
	Pos    []int `json:"pos"`
	LookAt []int `json:"lookat"`
	Rot    []int `json:"rot"`
	Zoom2  int   `json:"zoom2"`
	Front  int   `json:"front"`
	Back   int   `json:"back"`
	Ortho  bool  `json:"ortho"`
	Amb    []int `json:"amb"`
}
type JDoc struct {
	Scene   []JScene `json:"scene"`
	Mats    []JMat   `json:"mats"`
	Objs    []JObj   `json:"objs"`
	Bones   []JBone  `json:"bones"`
	Morphs  []JMorph `json:"morphs"`
	Bodies  []JBody  `json:"bodies"`
	Joints  []JJoint `json:"joints"`
	BoneObj []int    `json:"boneobj"`
	Limit   int      `json:"limit"`
	Poses   []JPose  `json:"poses"`
	Plugins []string `json:"plugins"`
}

// num converts between floats and abstract integers.
type num struct {
	to   func(float32) int
	from func(int) float32
}

var milliNum = num{milli, unmilli}
var bitsNum = num{bits, unbits}

func (n num) v3(v *geom.Vector3) []int {
	if v == nil {
		return []int{}
	}
	return []int{n.to(v.X), n.to(v.Y), n.to(v.Z)}
}
func (n num) uv3(a []int) *geom.Vector3 {
	if len(a) < 3 {
		return nil
	}
	return &geom.Vector3{X: n.from(a[0]), Y: n.from(a[1]), Z: n.from(a[2])}
}

func projParams(m map[string]interface{}) []JParam {
	ps := []JParam{}
	for k, v := range m {
		p := JParam{K: k, V: []int{}}
		switch x := v.(type) {
		case int:
			p.T, p.V = "int", []int{x}
		case float32:
			p.T, p.V = "float", []int{milli(x)}
		case float64:
			p.T, p.V = "float", []int{milli(float32(x))}
		case bool:
			p.T = "bool"
			if x {
				p.V = []int{1}
			} else {
				p.V = []int{0}
			}
		case []float32:
			p.T = "color"
			for _, c := range x {
				p.V = append(p.V, milli(c))
			}
		case string:
			p.T, p.S = "string", x
		default:
			p.T = "other"
		}
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].K < ps[j].K })
	return ps
}

func buildParams(ps []JParam) map[string]interface{} {
	m := map[string]interface{}{}
	for _, p := range ps {
		switch p.T {
		case "int":
			m[p.K] = p.V[0]
		case "float":
			m[p.K] = float32(unmilli(p.V[0]))
		case "bool":
			m[p.K] = p.V[0] != 0
		case "color":
			var c []float32
			for _, x := range p.V {
				c = append(c, unmilli(x))
			}
			m[p.K] = c
		case "string":
			m[p.K] = p.S
		default:
			panic("harness: bad param type " + p.T)
		}
	}
	return m
}

func projFace(f *mqo.Face, x num) JFace {
	jf := JFace{V: append([]int{}, f.Verts...), M: f.Material, UID: f.UID, UV: [][]int{}, N: [][]int{}}
	for _, uv := range f.UVs {
		jf.UV = append(jf.UV, []int{x.to(uv.X), x.to(uv.Y)})
	}
	for _, n := range f.Normals {
		jf.N = append(jf.N, x.v3(n))
	}
	return jf
}

func projObj(o *mqo.Object, x num) JObj {
	jo := JObj{Name: o.Name, UID: o.UID, Depth: o.Depth, Fold: o.Folding, Vis: o.Visible, Lock: o.Locked, Shading: o.Shading,
		Facet: milli(o.Facet), Patch: o.Patch, Seg: o.PatchSegment, Mirror: o.Mirror, MDis: milli(o.MirrorDis),
		Scale: x.v3(o.Scale), Rot: x.v3(o.Rotation), Trans: x.v3(o.Translation), Color: milliNum.v3(o.Color),
		Verts: [][]int{}, Faces: []JFace{}, VUIDs: []int{}}
	for _, v := range o.Vertexes {
		jo.Verts = append(jo.Verts, x.v3(v))
	}
	for _, f := range o.Faces {
		jo.Faces = append(jo.Faces, projFace(f, x))
	}
	if len(o.VertexByUID) > 0 {
		jo.VUIDs = make([]int, len(o.Vertexes))
		for uid, i := range o.VertexByUID {
			if i >= 0 && i < len(jo.VUIDs) {
				jo.VUIDs[i] = uid
			}
		}
	}
	return jo
}

func projMat(m *mqo.Material) JMat {
	jm := JMat{Name: m.Name, UID: m.UID, Shader: m.Shader, Dbl: m.DoubleSided,
		Col: []int{milli(m.Color.X), milli(m.Color.Y), milli(m.Color.Z), milli(m.Color.W)},
		Dif: milli(m.Diffuse), Amb: milli(m.Ambient), Emi: milli(m.Emission), Spc: milli(m.Specular), Pow: milli(m.Power),
		Tex: m.Texture, Alpha: m.AlphaTexture, Bump: m.BumpTexture, EmiCol: milliNum.v3(m.EmissionColor), Ex2: []JEx2{}}
	if m.Ex2 != nil {
		e := JEx2{Type: m.Ex2.ShaderType, Name: m.Ex2.ShaderName, Params: projParams(m.Ex2.ShaderParams), Maps: []JKV{}, MParams: []JMParam{}}
		for k, v := range m.Ex2.ShaderMapping {
			e.Maps = append(e.Maps, JKV{k, v})
		}
		sort.Slice(e.Maps, func(i, j int) bool { return e.Maps[i].K < e.Maps[j].K })
		for k, v := range m.Ex2.ShaderMappingParams {
			e.MParams = append(e.MParams, JMParam{k, projParams(v)})
		}
		sort.Slice(e.MParams, func(i, j int) bool { return e.MParams[i].K < e.MParams[j].K })
		jm.Ex2 = []JEx2{e}
	}
	return jm
}

func projBone(b *mqo.Bone, x num) JBone {
	jb := JBone{ID: b.ID, Name: b.Name, Group: b.Group, Parent: b.Parent, Pos: x.v3(&b.Pos.Vector3), Movable: b.Movable, Hide: b.Hide,
		Dummy: b.Dummy, Color: b.Color, Up: []int{}, Rotate: []int{}, IK: []JIK{}, W: []JWeight{}}
	if b.UpVector != nil {
		jb.Up = x.v3(&b.UpVector.Vector3)
	}
	if b.Rotate != nil {
		jb.Rotate = x.v3(&b.Rotate.Vector3)
	}
	if b.IK != nil {
		jb.IK = []JIK{{b.IK.ChainCount, b.IK.Name, b.IK.TipName}}
	}
	for _, w := range b.Weights {
		jw := JWeight{O: w.ObjectID, V: [][]int{}}
		for _, v := range w.Vertexes {
			jw.V = append(jw.V, []int{v.VertexID, x.to(v.Weight)})
		}
		jb.W = append(jb.W, jw)
	}
	return jb
}

func projBody(b *mqo.PhysicsBody, x num) JBody {
	jb := JBody{Name: b.Name, Mass: x.to(b.Mass), Kin: b.Kinematic, Group: b.CollisionGroup, Mask: b.CollisionMask, Rest: x.to(b.Restitution),
		Fric: x.to(b.Friction), LD: x.to(b.LinearDamping), AD: x.to(b.AngularDamping), TB: b.TargetBoneID, TO: b.TargetObjID, Shapes: []JShape{}}
	for _, s := range b.Shapes {
		jb.Shapes = append(jb.Shapes, JShape{s.Type, x.v3(s.Size.Vec3()), x.v3(s.Position.Vec3()), x.v3(s.Rotation.Vec3())})
	}
	return jb
}

func projDoc(d *mqo.Document, x num) JDoc {
	j := JDoc{Scene: []JScene{}, Mats: []JMat{}, Objs: []JObj{}, Bones: []JBone{}, Morphs: []JMorph{}, Bodies: []JBody{}, Joints: []JJoint{}, BoneObj: []int{}, Poses: []JPose{}, Plugins: []string{}}
	if s := d.Scene; s != nil {
		j.Scene = []JScene{{Pos: x.v3(&s.CameraPos), LookAt: x.v3(&s.CameraLookAt), Rot: milliNum.v3(&s.CameraRot), Zoom2: milli(s.Zoom2),
			Front: milli(s.FrontClip), Back: milli(s.BackClip), Ortho: s.Ortho, Amb: milliNum.v3(s.AmbientLight)}}
	}
	for _, m := range d.Materials {
		j.Mats = append(j.Mats, projMat(m))
	}
	for _, o := range d.Objects {
		j.Objs = append(j.Objs, projObj(o, x))
	}
	for _, p := range d.Plugins {
		switch t := p.(type) {
		case *mqo.BonePlugin:
			j.Plugins = append(j.Plugins, "bone")
			for _, b := range t.Bones() {
				j.Bones = append(j.Bones, projBone(b, x))
			}
			for _, o := range t.Obj {
				j.BoneObj = append(j.BoneObj, o.ID)
			}
			sort.Ints(j.BoneObj)
			j.Limit = t.BoneSet2.Limit
			for _, p := range t.PoseSet.BonePoses {
				j.Poses = append(j.Poses, JPose{p.ID, p.Name, []int{x.to(p.MvX), x.to(p.MvY), x.to(p.MvZ)}, []int{x.to(p.RotB), x.to(p.RotH), x.to(p.RotP)}, []int{x.to(p.ScB), x.to(p.ScH), x.to(p.ScP)}})
			}
		case *mqo.MorphPlugin:
			j.Plugins = append(j.Plugins, "morph")
			for _, m := range t.Morphs() {
				jm := JMorph{Base: m.Base, Targets: []JTarget{}}
				for _, tt := range m.Target {
					jm.Targets = append(jm.Targets, JTarget{tt.Name, tt.Param})
				}
				j.Morphs = append(j.Morphs, jm)
			}
		case *mqo.PhysicsPlugin:
			j.Plugins = append(j.Plugins, "physics")
			for _, b := range t.Bodies {
				j.Bodies = append(j.Bodies, projBody(b, x))
			}
			for _, c := range t.Constraints {
				j.Joints = append(j.Joints, JJoint{c.Type, c.Body1, c.Body2, c.Name, x.v3(c.Position.Vec3()), x.v3(c.Rotation.Vec3()), x.v3(c.LinerSpring.Vec3()), x.v3(c.AngulerSpring.Vec3())})
			}
		default:
			j.Plugins = append(j.Plugins, "other")
		}
	}
	sort.Strings(j.Plugins)
	return j
}

func buildObj(o JObj, x num) *mqo.Object {
	ob := mqo.NewObject(o.Name)
	ob.UID, ob.Depth, ob.Folding, ob.Visible, ob.Locked = o.UID, o.Depth, o.Fold, o.Vis, o.Lock
	ob.Shading, ob.Facet = o.Shading, unmilli(o.Facet)
	ob.Patch, ob.PatchSegment, ob.Mirror, ob.MirrorDis = o.Patch, o.Seg, o.Mirror, unmilli(o.MDis)
	if len(o.Scale) == 3 {
		ob.Scale = x.uv3(o.Scale)
	}
	if len(o.Rot) == 3 {
		ob.Rotation = x.uv3(o.Rot)
	}
	if len(o.Trans) == 3 {
		ob.Translation = x.uv3(o.Trans)
	}
	ob.Color = milliNum.uv3(o.Color)
	for _, v := range o.Verts {
		ob.Vertexes = append(ob.Vertexes, x.uv3(v))
	}
	for _, f := range o.Faces {
		mf := &mqo.Face{UID: f.UID, Material: f.M, Verts: append([]int{}, f.V...)}
		for _, uv := range f.UV {
			mf.UVs = append(mf.UVs, geom.Vector2{X: x.from(uv[0]), Y: x.from(uv[1])})
		}
		for _, n := range f.N {
			mf.Normals = append(mf.Normals, x.uv3(n))
		}
		ob.Faces = append(ob.Faces, mf)
	}
	for i, u := range o.VUIDs {
		if u != 0 {
			ob.VertexByUID[u] = i
		}
	}
	return ob
}

func buildMat(m JMat) *mqo.Material {
	mm := &mqo.Material{Name: m.Name, UID: m.UID, Shader: m.Shader, DoubleSided: m.Dbl, Diffuse: unmilli(m.Dif), Ambient: unmilli(m.Amb),
		Emission: unmilli(m.Emi), Specular: unmilli(m.Spc), Power: unmilli(m.Pow), Texture: m.Tex, AlphaTexture: m.Alpha, BumpTexture: m.Bump,
		EmissionColor: milliNum.uv3(m.EmiCol)}
	if len(m.Col) == 4 {
		mm.Color = geom.Vector4{X: unmilli(m.Col[0]), Y: unmilli(m.Col[1]), Z: unmilli(m.Col[2]), W: unmilli(m.Col[3])}
	}
	if len(m.Ex2) > 0 {
		e := m.Ex2[0]
		ex := mqo.NewMaterialEx2(e.Name)
		ex.ShaderType = e.Type
		ex.ShaderParams = buildParams(e.Params)
		for _, kv := range e.Maps {
			ex.ShaderMapping[kv.K] = kv.S
		}
		for _, mp := range e.MParams {
			ex.ShaderMappingParams[mp.K] = buildParams(mp.P)
		}
		mm.Ex2 = ex
	}
	return mm
}

func xmlv(v *geom.Vector3) mqo.Vector3XmlAttr {
	if v == nil {
		return mqo.Vector3XmlAttr{}
	}
	return mqo.Vector3XmlAttr(*v)
}

func buildDoc(j JDoc, x num) *mqo.Document {
	d := mqo.NewDocument()
	if len(j.Scene) > 0 {
		s := j.Scene[0]
		d.Scene = &mqo.Scene{CameraPos: *x.uv3(s.Pos), CameraLookAt: *x.uv3(s.LookAt), CameraRot: *milliNum.uv3(s.Rot), Zoom2: unmilli(s.Zoom2),
			FrontClip: unmilli(s.Front), BackClip: unmilli(s.Back), Ortho: s.Ortho, AmbientLight: milliNum.uv3(s.Amb)}
	}
	for _, m := range j.Mats {
		d.Materials = append(d.Materials, buildMat(m))
	}
	for _, o := range j.Objs {
		d.Objects = append(d.Objects, buildObj(o, x))
	}
	if len(j.Bones) > 0 {
		bp := mqo.GetBonePlugin(d)
		for _, b := range j.Bones {
			mb := &mqo.Bone{ID: b.ID, Name: b.Name, Group: b.Group, Parent: b.Parent, Movable: b.Movable, Hide: b.Hide, Dummy: b.Dummy, Color: b.Color}
			mb.Pos.Vector3 = *x.uv3(b.Pos)
			if v := x.uv3(b.Up); v != nil {
				mb.UpVector = &mqo.Vector3Attr{Vector3: *v}
			}
			if v := x.uv3(b.Rotate); v != nil {
				mb.Rotate = &mqo.Vector3Attr{Vector3: *v}
			}
			if len(b.IK) > 0 {
				mb.IK = &mqo.BoneIK{ChainCount: b.IK[0].Chain, Name: b.IK[0].Name, TipName: b.IK[0].Tip}
			}
			for _, w := range b.W {
				for _, v := range w.V {
					mb.SetVertexWeight(w.O, v[0], x.from(v[1]))
				}
			}
			bp.AddBone(mb)
		}
		bp.BoneSet2.Limit = j.Limit
		for _, p := range j.Poses {
			bp.PoseSet.BonePoses = append(bp.PoseSet.BonePoses, &mqo.BonePose{ID: p.ID, Name: p.Name, MvX: x.from(p.Mv[0]), MvY: x.from(p.Mv[1]), MvZ: x.from(p.Mv[2]),
				RotB: x.from(p.Rot[0]), RotH: x.from(p.Rot[1]), RotP: x.from(p.Rot[2]), ScB: x.from(p.Sc[0]), ScH: x.from(p.Sc[1]), ScP: x.from(p.Sc[2])})
		}
	}
	if len(j.Morphs) > 0 {
		mp := mqo.GetMorphPlugin(d)
		for _, m := range j.Morphs {
			l := &mqo.MorphTargetList{Base: m.Base}
			for _, t := range m.Targets {
				l.Target = append(l.Target, &mqo.MorphTarget{Name: t.Name, Param: t.Param})
			}
			mp.MorphSet.Targets = append(mp.MorphSet.Targets, l)
		}
	}
	if len(j.Bodies) > 0 || len(j.Joints) > 0 {
		pp := mqo.GetPhysicsPlugin(d)
		for _, b := range j.Bodies {
			pb := &mqo.PhysicsBody{Name: b.Name, Mass: x.from(b.Mass), Kinematic: b.Kin, CollisionGroup: b.Group, CollisionMask: b.Mask,
				Restitution: x.from(b.Rest), Friction: x.from(b.Fric), LinearDamping: x.from(b.LD), AngularDamping: x.from(b.AD), TargetBoneID: b.TB, TargetObjID: b.TO}
			for _, s := range b.Shapes {
				pb.Shapes = append(pb.Shapes, &mqo.PhysicsShape{Type: s.Type, Size: xmlv(x.uv3(s.Size)), Position: xmlv(x.uv3(s.Pos)), Rotation: xmlv(x.uv3(s.Rot))})
			}
			pp.Bodies = append(pp.Bodies, pb)
		}
		for _, c := range j.Joints {
			pp.Constraints = append(pp.Constraints, &mqo.PhysicsJointConstraint{Type: c.Type, Body1: c.B1, Body2: c.B2, Name: c.Name,
				Position: xmlv(x.uv3(c.Pos)), Rotation: xmlv(x.uv3(c.Rot)), LinerSpring: xmlv(x.uv3(c.Lin)), AngulerSpring: xmlv(x.uv3(c.Ang))})
		}
	}
	return d
}
