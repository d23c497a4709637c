package main

import (
	"sort"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"
)

// Abstract MQO document of the conversion specifications (thousandths).
type cvFace struct {
	V  []int   `json:"v"` // 1-based
	M  int     `json:"m"` // 0-based, negative: none
	UV [][]int `json:"uv"`
	N  [][]int `json:"n"` // empty: no normal
}
type cvObj struct {
	Name  string   `json:"name"`
	UID   int      `json:"uid"`
	Depth int      `json:"depth"`
	Vis   bool     `json:"vis"`
	Verts [][]int  `json:"verts"`
	Faces []cvFace `json:"faces"`
	VIDs  [][]int  `json:"vids"` // id, vertex (1-based)
	IT    []cvTRS  `json:"it"`   // internal transform, at most one
	L     []cvTRS  `json:"l"`    // local transform, at most one
	Smth  int      `json:"smth"` // shading angle in degrees, 0: default, -1: flat
	Key   string   `json:"key"`  // shared geometry
}

// cvTRS is a signed permutation rotation (rows, each component in -1, 0, 1), a scale and a translation.
type cvTRS struct {
	R [][]int `json:"r"`
	T []int   `json:"t"`
	S []int   `json:"s"`
}
type cvMat struct {
	Name string `json:"name"`
	Col  []int  `json:"col"`
	Tex  string `json:"tex"`
	Dbl  bool   `json:"dbl"`
	Pow  int    `json:"pow"`
	Emi  int    `json:"emi"`
	Shd  string `json:"shd"`
	Edge int    `json:"edge"` // -1 unknown, 0 no, 1 yes
	EC   []int  `json:"ec"`   // emission colour, if any
	Met  int    `json:"met"`  // of the glTF shader
	Rou  int    `json:"rou"`
	AM   int    `json:"am"` // 1 opaque, 2 mask, 3 blend
	Cut  int    `json:"cut"`
	Unl  bool   `json:"unl"`
}
type cvIK struct {
	Chain int    `json:"chain"`
	Name  string `json:"name"`
	Tip   string `json:"tip"`
}
type cvBone struct {
	ID     int     `json:"id"`
	Name   string  `json:"name"`
	Parent int     `json:"parent"`
	Group  int     `json:"group"`
	Pos    []int   `json:"pos"`
	Mov    int     `json:"mov"`
	IK     []cvIK  `json:"ik"`
	W      [][]int `json:"w"` // object id, vertex id, weight (tenths of a percent)
}
type cvMorph struct {
	Base    string   `json:"base"`
	Targets []string `json:"targets"`
}
type cvShape struct {
	Type string `json:"type"`
	Size []int  `json:"size"`
	Pos  []int  `json:"pos"`
	Rot  []int  `json:"rot"`
}
type cvBody struct {
	Name   string    `json:"name"`
	Shapes []cvShape `json:"shapes"`
	Mass   int       `json:"mass"`
	Kin    bool      `json:"kin"`
	Group  int       `json:"group"`
	Mask   int       `json:"mask"`
	LD     int       `json:"ld"`
	AD     int       `json:"ad"`
	Rest   int       `json:"rest"`
	Fric   int       `json:"fric"`
	Bone   int       `json:"bone"`
	Obj    int       `json:"obj"`
}
type cvJoint struct {
	Name string  `json:"name"`
	B1   int     `json:"b1"`
	B2   int     `json:"b2"`
	V    [][]int `json:"v"` // position, rotation, linear spring, angular spring
}
type cvDoc struct {
	Objs   []cvObj   `json:"objs"`
	Mats   []cvMat   `json:"mats"`
	Bones  []cvBone  `json:"bones"`
	Morphs []cvMorph `json:"morphs"`
	Bodies []cvBody  `json:"bodies"`
	Joints []cvJoint `json:"joints"`
}

func mv3(v *geom.Vector3) []int {
	if v == nil {
		return []int{}
	}
	return []int{milli(v.X), milli(v.Y), milli(v.Z)}
}
func umv3(a []int) *geom.Vector3 {
	if len(a) < 3 {
		return nil
	}
	return &geom.Vector3{X: unmilli(a[0]), Y: unmilli(a[1]), Z: unmilli(a[2])}
}
func um3(a []int) geom.Vector3 {
	if v := umv3(a); v != nil {
		return *v
	}
	return geom.Vector3{}
}
func xm3(a []int) mqo.Vector3XmlAttr { return mqo.Vector3XmlAttr(um3(a)) }

// cvOf projects a document; the weights are listed in the order of the document.
func cvOf(doc *mqo.Document) cvDoc {
	d := cvDoc{}
	for _, o := range doc.Objects {
		c := cvObj{Name: o.Name, UID: o.UID, Depth: o.Depth, Vis: o.Visible}
		c.Key, _ = o.Extra["sharedGeometryKey"].(string)
		if o.Shading == 0 {
			c.Smth = -1
		}
		for _, v := range o.Vertexes {
			c.Verts = append(c.Verts, mv3(v))
		}
		for _, f := range o.Faces {
			q := cvFace{M: f.Material}
			for _, v := range f.Verts {
				q.V = append(q.V, v+1)
			}
			for _, u := range f.UVs {
				q.UV = append(q.UV, []int{milli(u.X), milli(u.Y)})
			}
			for _, n := range f.Normals {
				q.N = append(q.N, mv3(n))
			}
			c.Faces = append(c.Faces, q)
		}
		for u, v := range o.VertexByUID {
			c.VIDs = append(c.VIDs, []int{u, v + 1})
		}
		sort.Slice(c.VIDs, func(i, j int) bool { return c.VIDs[i][0] < c.VIDs[j][0] })
		d.Objs = append(d.Objs, c)
	}
	for _, m := range doc.Materials {
		c := cvMat{Name: m.Name, Col: []int{milli(m.Color.X), milli(m.Color.Y), milli(m.Color.Z), milli(m.Color.W)}, Tex: m.Texture, Dbl: m.DoubleSided, Pow: milli(m.Power), Emi: milli(m.Emission), Edge: -1}
		if m.Ex2 != nil {
			c.Shd = m.Ex2.ShaderName
			if e, ok := m.Ex2.ShaderParams["Edge"].(bool); ok {
				c.Edge = 0
				if e {
					c.Edge = 1
				}
			}
		}
		c.EC = mv3(m.EmissionColor)
		if m.Ex2 != nil && m.Ex2.ShaderName == "glTF" {
			c.Met, c.Rou = milli(float32(m.Ex2.FloatParam("Metallic"))), milli(float32(m.Ex2.FloatParam("Roughness")))
			c.AM, c.Cut, c.Unl = m.Ex2.IntParam("AlphaMode"), milli(float32(m.Ex2.FloatParam("AlphaCutOff"))), m.Ex2.BoolParam("Extensions.Unlit")
		}
		d.Mats = append(d.Mats, c)
	}
	for _, p := range doc.Plugins {
		switch x := p.(type) {
		case *mqo.BonePlugin:
			for _, b := range x.Bones() {
				c := cvBone{ID: b.ID, Name: b.Name, Parent: b.Parent, Group: b.Group, Pos: mv3(&b.Pos.Vector3), Mov: b.Movable}
				if b.IK != nil {
					c.IK = []cvIK{{b.IK.ChainCount, b.IK.Name, b.IK.TipName}}
				}
				for _, w := range b.Weights {
					for _, v := range w.Vertexes {
						c.W = append(c.W, []int{w.ObjectID, v.VertexID, unit(v.Weight, 10)})
					}
				}
				d.Bones = append(d.Bones, c)
			}
		case *mqo.MorphPlugin:
			for _, l := range x.Morphs() {
				c := cvMorph{Base: l.Base}
				for _, t := range l.Target {
					c.Targets = append(c.Targets, t.Name)
				}
				d.Morphs = append(d.Morphs, c)
			}
		case *mqo.PhysicsPlugin:
			for _, b := range x.Bodies {
				c := cvBody{Name: b.Name, Mass: milli(b.Mass), Kin: b.Kinematic, Group: b.CollisionGroup, Mask: b.CollisionMask, LD: milli(b.LinearDamping), AD: milli(b.AngularDamping),
					Rest: milli(b.Restitution), Fric: milli(b.Friction), Bone: b.TargetBoneID, Obj: b.TargetObjID}
				for _, s := range b.Shapes {
					c.Shapes = append(c.Shapes, cvShape{s.Type, mv3(s.Size.Vec3()), mv3(s.Position.Vec3()), mv3(s.Rotation.Vec3())})
				}
				d.Bodies = append(d.Bodies, c)
			}
			for _, j := range x.Constraints {
				d.Joints = append(d.Joints, cvJoint{j.Name, j.Body1, j.Body2, [][]int{mv3(j.Position.Vec3()), mv3(j.Rotation.Vec3()), mv3(j.LinerSpring.Vec3()), mv3(j.AngulerSpring.Vec3())}})
			}
		}
	}
	return d
}

func (t cvTRS) matrix() *geom.Matrix4 {
	m := &geom.Matrix4{}
	for row := 0; row < 3; row++ {
		for col := 0; col < 3; col++ {
			m[col*4+row] = float32(t.R[row][col]) * unmilli(t.S[col])
		}
	}
	m[12], m[13], m[14], m[15] = unmilli(t.T[0]), unmilli(t.T[1]), unmilli(t.T[2]), 1
	return m
}

func (d *cvDoc) build() *mqo.Document {
	doc := mqo.NewDocument()
	for _, m := range d.Mats {
		q := &mqo.Material{Name: m.Name, Texture: m.Tex, DoubleSided: m.Dbl, Power: unmilli(m.Pow), Emission: unmilli(m.Emi), Diffuse: 1}
		if len(m.Col) == 4 {
			q.Color = geom.Vector4{X: unmilli(m.Col[0]), Y: unmilli(m.Col[1]), Z: unmilli(m.Col[2]), W: unmilli(m.Col[3])}
		}
		q.EmissionColor = umv3(m.EC)
		if m.Shd != "" {
			q.Ex2 = mqo.NewMaterialEx2(m.Shd)
			if m.Shd == "glTF" {
				q.Ex2.ShaderParams["Metallic"], q.Ex2.ShaderParams["Roughness"] = float64(m.Met)/1000, float64(m.Rou)/1000
				q.Ex2.ShaderParams["AlphaMode"], q.Ex2.ShaderParams["AlphaCutOff"] = m.AM, float64(m.Cut)/1000
				if m.Unl {
					q.Ex2.ShaderParams["Extensions.Unlit"] = true
				}
			}
		}
		doc.Materials = append(doc.Materials, q)
	}
	for _, o := range d.Objs {
		ob := mqo.NewObject(o.Name)
		ob.UID, ob.Depth, ob.Visible = o.UID, o.Depth, o.Vis
		for _, v := range o.Verts {
			ob.Vertexes = append(ob.Vertexes, umv3(v))
		}
		for _, f := range o.Faces {
			q := &mqo.Face{Material: f.M}
			for _, v := range f.V {
				q.Verts = append(q.Verts, v-1)
			}
			for _, u := range f.UV {
				q.UVs = append(q.UVs, geom.Vector2{X: unmilli(u[0]), Y: unmilli(u[1])})
			}
			for _, n := range f.N {
				q.Normals = append(q.Normals, umv3(n))
			}
			ob.Faces = append(ob.Faces, q)
		}
		for _, u := range o.VIDs {
			ob.VertexByUID[u[0]] = u[1] - 1
		}
		for _, t := range o.IT {
			ob.InternalTransform = t.matrix()
		}
		for _, t := range o.L {
			ob.SetLocalTransform(t.matrix())
		}
		if o.Smth > 0 {
			ob.Shading, ob.Facet = 1, float32(o.Smth)
		}
		if o.Smth < 0 {
			ob.Shading = 0
		}
		if o.Key != "" {
			ob.Extra["sharedGeometryKey"] = o.Key
		}
		doc.Objects = append(doc.Objects, ob)
	}
	if len(d.Bones) > 0 {
		p := mqo.GetBonePlugin(doc)
		for _, b := range d.Bones {
			bb := &mqo.Bone{ID: b.ID, Name: b.Name, Parent: b.Parent, Group: b.Group, Movable: b.Mov}
			bb.Pos.Vector3 = um3(b.Pos)
			for _, k := range b.IK {
				bb.IK = &mqo.BoneIK{ChainCount: k.Chain, Name: k.Name, TipName: k.Tip}
			}
			for _, w := range b.W {
				bb.SetVertexWeight(w[0], w[1], float32(w[2])/10)
			}
			p.AddBone(bb)
		}
	}
	if len(d.Morphs) > 0 {
		p := mqo.GetMorphPlugin(doc)
		for _, m := range d.Morphs {
			l := &mqo.MorphTargetList{Base: m.Base}
			for _, t := range m.Targets {
				l.Target = append(l.Target, &mqo.MorphTarget{Name: t})
			}
			p.MorphSet.Targets = append(p.MorphSet.Targets, l)
		}
	}
	if len(d.Bodies)+len(d.Joints) > 0 {
		p := mqo.GetPhysicsPlugin(doc)
		for _, b := range d.Bodies {
			q := &mqo.PhysicsBody{Name: b.Name, Mass: unmilli(b.Mass), Kinematic: b.Kin, CollisionGroup: b.Group, CollisionMask: b.Mask, LinearDamping: unmilli(b.LD), AngularDamping: unmilli(b.AD),
				Restitution: unmilli(b.Rest), Friction: unmilli(b.Fric), TargetBoneID: b.Bone, TargetObjID: b.Obj}
			for _, s := range b.Shapes {
				q.Shapes = append(q.Shapes, &mqo.PhysicsShape{Type: s.Type, Size: xm3(s.Size), Position: xm3(s.Pos), Rotation: xm3(s.Rot)})
			}
			p.Bodies = append(p.Bodies, q)
		}
		for _, j := range d.Joints {
			p.Constraints = append(p.Constraints, &mqo.PhysicsJointConstraint{Name: j.Name, Body1: j.B1, Body2: j.B2, Position: xm3(j.V[0]), Rotation: xm3(j.V[1]), LinerSpring: xm3(j.V[2]), AngulerSpring: xm3(j.V[3])})
		}
	}
	return doc
}
