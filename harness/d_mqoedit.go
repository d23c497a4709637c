package main

import (
	"encoding/json"
	"math/rand"
	"reflect"
	"sort"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"
)

// Abstract document of the edit specification (whole numbers; 1 = one unit).
type edFace struct {
	V   []int   `json:"v"` // 1-based
	M   int     `json:"m"`
	UID int     `json:"uid"`
	UV  bool    `json:"uv"`
	N   [][]int `json:"n"` // tenths; empty = none
}
type edObj struct {
	Name  string   `json:"name"`
	UID   int      `json:"uid"`
	Depth int      `json:"depth"`
	Verts [][]int  `json:"verts"`
	Faces []edFace `json:"faces"`
	G     geoGen   `json:"g"`
	IT    []geoGen `json:"it"`
	UIDs  [][2]int `json:"uids"` // uid, vertex (1-based)
}
type edW struct {
	Obj  int `json:"obj"`
	Vert int `json:"vert"`
	W    int `json:"w"`
}
type edBone struct {
	ID     int   `json:"id"`
	Parent int   `json:"parent"`
	Pos    []int `json:"pos"`
	W      []edW `json:"w"`
}
type edMorph struct {
	Base    string   `json:"base"`
	Targets []string `json:"targets"`
}
type edBody struct {
	Bone int   `json:"bone"`
	Pos  []int `json:"pos"`
	Size []int `json:"size"`
}
type edMat struct {
	Name string `json:"name"`
	Col  []int  `json:"col"` // percent
}
type edDoc struct {
	Objs   []edObj   `json:"objs"`
	Bones  []edBone  `json:"bones"`
	Morphs []edMorph `json:"morphs"`
	Bodies []edBody  `json:"bodies"`
	Joints [][]int   `json:"joints"`
	Mats   []edMat   `json:"mats"`
}
type edOp struct {
	Op   string `json:"op"`
	G    geoGen `json:"g"`
	Obj  int    `json:"obj"`
	Face int    `json:"face"`
	Bone int    `json:"bone"`
	Axis int    `json:"axis"`
	Ang  int    `json:"ang"`
	Name string `json:"name"`
	Val  int    `json:"val"`
	UID  int    `json:"uid"`
}
type edCase struct {
	Doc edDoc  `json:"doc"`
	Ops []edOp `json:"ops"`
}

func iv(a []int) *geom.Vector3 {
	if len(a) < 3 {
		return &geom.Vector3{}
	}
	return &geom.Vector3{X: float32(a[0]), Y: float32(a[1]), Z: float32(a[2])}
}

var quarter = map[int]bool{1: true, 4: true, 7: true, 10: true}

func (d *edDoc) build() *mqo.Document {
	doc := mqo.NewDocument()
	for _, m := range d.Mats {
		mm := &mqo.Material{Name: m.Name}
		if len(m.Col) == 4 {
			mm.Color = geom.Vector4{X: float32(m.Col[0]) / 100, Y: float32(m.Col[1]) / 100, Z: float32(m.Col[2]) / 100, W: float32(m.Col[3]) / 100}
		}
		doc.Materials = append(doc.Materials, mm)
	}
	for _, o := range d.Objs {
		ob := mqo.NewObject(o.Name)
		ob.UID, ob.Depth = o.UID, o.Depth
		for _, v := range o.Verts {
			ob.Vertexes = append(ob.Vertexes, iv(v))
		}
		for i, f := range o.Faces {
			ff := &mqo.Face{UID: f.UID, Material: f.M}
			for k, v := range f.V {
				ff.Verts = append(ff.Verts, v-1)
				if f.UV {
					ff.UVs = append(ff.UVs, geom.Vector2{X: float32(i*8+k) / 64, Y: float32(k) / 8})
				}
			}
			for _, n := range f.N {
				if len(n) < 3 {
					ff.Normals = append(ff.Normals, nil)
				} else {
					ff.Normals = append(ff.Normals, iv(n).Scale(0.1))
				}
			}
			ob.Faces = append(ob.Faces, ff)
		}
		for _, u := range o.UIDs {
			ob.VertexByUID[u[0]] = u[1] - 1
		}
		g := o.G
		if g.E[0] != 0 {
			deg := func(i int) float32 { return float32(float64(angOf(i)) * 180 / 3.141592653589793) }
			ob.Rotation = &geom.Vector3{X: deg(g.E[0]), Y: deg(g.E[1]), Z: deg(g.E[2])}
			ob.Translation = fv(g.T)
			ob.Scale = fv(g.S)
		}
		for _, t := range o.IT {
			ob.InternalTransform = t.trs()
		}
		doc.Objects = append(doc.Objects, ob)
	}
	if len(d.Bones) > 0 {
		p := mqo.GetBonePlugin(doc)
		for _, b := range d.Bones {
			bb := &mqo.Bone{ID: b.ID, Name: "b", Parent: b.Parent}
			bb.Pos.Vector3 = *iv(b.Pos)
			for _, w := range b.W {
				bb.SetVertexWeight(w.Obj, w.Vert, float32(w.W))
			}
			p.AddBone(bb)
		}
	}
	if len(d.Morphs) > 0 {
		p := mqo.GetMorphPlugin(doc)
		for _, m := range d.Morphs {
			l := &mqo.MorphTargetList{Base: m.Base}
			for _, t := range m.Targets {
				l.Target = append(l.Target, &mqo.MorphTarget{Name: t})
			}
			p.MorphSet.Targets = append(p.MorphSet.Targets, l)
		}
	}
	if len(d.Bodies)+len(d.Joints) > 0 {
		p := mqo.GetPhysicsPlugin(doc)
		for _, b := range d.Bodies {
			p.Bodies = append(p.Bodies, &mqo.PhysicsBody{TargetBoneID: b.Bone, Shapes: []*mqo.PhysicsShape{{Type: "BOX",
				Size: mqo.Vector3XmlAttr(*iv(b.Size)), Position: mqo.Vector3XmlAttr(*iv(b.Pos))}}})
		}
		for _, j := range d.Joints {
			p.Constraints = append(p.Constraints, &mqo.PhysicsJointConstraint{Position: mqo.Vector3XmlAttr(*iv(j))})
		}
	}
	return doc
}

func edProj(doc *mqo.Document) Event {
	objs, world, mats := []Event{}, []Event{}, []Event{}
	wt := doc.GetWorldTransforms()
	for _, o := range doc.Objects {
		verts, faces, uids := [][3]int{}, []Event{}, [][2]int{}
		for _, v := range o.Vertexes {
			verts = append(verts, vi(v, 1000))
		}
		for _, f := range o.Faces {
			vs, uv, ns := []int{}, [][2]int{}, []interface{}{}
			for _, v := range f.Verts {
				vs = append(vs, v+1)
			}
			for _, u := range f.UVs {
				uv = append(uv, [2]int{unit(u.X, 1000), unit(u.Y, 1000)})
			}
			for _, n := range f.Normals {
				if n == nil {
					ns = append(ns, []int{})
				} else {
					ns = append(ns, vi(n, 100))
				}
			}
			faces = append(faces, Event{"uid": f.UID, "m": f.Material, "v": vs, "uv": uv, "n": ns})
		}
		for u, v := range o.VertexByUID {
			uids = append(uids, [2]int{u, v + 1})
		}
		sort.Slice(uids, func(i, j int) bool { return uids[i][0] < uids[j][0] })
		it := []Event{}
		if o.InternalTransform != nil {
			it = append(it, mt(o.InternalTransform, 1000))
		}
		objs = append(objs, Event{"name": o.Name, "uid": o.UID, "depth": o.Depth, "verts": verts, "faces": faces, "uids": uids, "loc": mt(o.GetLocalTransform(), 1000), "it": it})
		world = append(world, mt(wt[o], 1000))
	}
	for _, m := range doc.Materials {
		mats = append(mats, Event{"name": m.Name, "col": [4]int{unit(m.Color.X, 1000), unit(m.Color.Y, 1000), unit(m.Color.Z, 1000), unit(m.Color.W, 1000)}})
	}
	bones, morphs, bodies, joints := []Event{}, []Event{}, []Event{}, [][3]int{}
	for _, p := range doc.Plugins {
		switch p := p.(type) {
		case *mqo.BonePlugin:
			for _, b := range p.Bones() {
				ws := []Event{}
				for _, w := range b.Weights {
					for _, v := range w.Vertexes {
						ws = append(ws, Event{"obj": w.ObjectID, "vert": v.VertexID, "w": unit(v.Weight, 1)})
					}
				}
				bones = append(bones, Event{"id": b.ID, "parent": b.Parent, "pos": vi(&b.Pos.Vector3, 1000), "w": ws})
			}
		case *mqo.MorphPlugin:
			for _, m := range p.Morphs() {
				ts := []string{}
				for _, t := range m.Target {
					ts = append(ts, t.Name)
				}
				morphs = append(morphs, Event{"base": m.Base, "targets": ts})
			}
		case *mqo.PhysicsPlugin:
			for _, b := range p.Bodies {
				s := b.Shapes[0]
				r := s.Rotation.Vec3()
				bodies = append(bodies, Event{"bone": b.TargetBoneID, "pos": vi(s.Position.Vec3(), 1000), "size": vi(s.Size.Vec3(), 1000), "rot": vi(r, 1000),
					"rm": m3(geom.NewRotationMatrix4FromQuaternion(geom.NewEuler(r.X, r.Y, r.Z, geom.RotationOrderXYZ).ToQuaternion()), 1000)})
			}
			for _, j := range p.Constraints {
				joints = append(joints, vi(j.Position.Vec3(), 1000))
			}
		}
	}
	return Event{"objs": objs, "world": world, "mats": mats, "bones": bones, "morphs": morphs, "bodies": bodies, "joints": joints}
}

// scramble changes every number, string and truth value reachable from v.
func scramble(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && !seen[v.Pointer()] {
			seen[v.Pointer()] = true
			scramble(v.Elem(), seen)
		}
	case reflect.Interface:
		if !v.IsNil() && v.Elem().Kind() == reflect.Ptr {
			scramble(v.Elem(), seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scramble(v.Field(i), seen)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i), seen)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Value{})
		}
		if !v.IsNil() && v.Type().Key().Kind() == reflect.Int {
			v.SetMapIndex(reflect.ValueOf(77), reflect.ValueOf(7))
		}
		if !v.IsNil() && v.Type().Key().Kind() == reflect.String {
			v.SetMapIndex(reflect.ValueOf("scrambled"), reflect.ValueOf("x"))
		}
	case reflect.Float32, reflect.Float64:
		if v.CanSet() {
			v.SetFloat(v.Float() + 17)
		}
	case reflect.Int:
		if v.CanSet() {
			v.SetInt(v.Int() + 17)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "~")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}

func snap(o *mqo.Object) string {
	b, err := json.Marshal(norm(o))
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b)
}

func edCall(doc *mqo.Document, op edOp, emit func(Event)) {
	ev := Event{"op": op.Op}
	bones := func() []*mqo.Bone { return mqo.GetBonePlugin(doc).Bones() }
	switch op.Op {
	case "setlocal":
		m := op.G.trs()
		doc.Objects[op.Obj-1].SetLocalTransform(m)
		ev["obj"], ev["want"] = op.Obj, mt(m, 1000)
	case "transform":
		m := op.G.trs()
		doc.ApplyTransform(m)
		r := m3(m, 5)
		ev["g"], ev["m"] = op.G, Event{"r": r, "t": op.G.T}
	case "pose":
		var e [3]int = [3]int{1, 1, 1}
		e[op.Axis-1] = op.Ang
		told := []int{}
		idx := map[*mqo.Bone]int{}
		for i, b := range bones() {
			idx[b] = i + 1
		}
		doc.BoneTransform(bones()[op.Bone-1], geoGen{E: e}.euler().ToQuaternion(), func(b *mqo.Bone) { told = append(told, idx[b]) })
		ev["bone"], ev["axis"], ev["ang"], ev["told"] = op.Bone, op.Axis, op.Ang, told
	case "adjust":
		doc.BoneAdjustX(bones()[op.Bone-1])
		ev["bone"] = op.Bone
	case "fixnames":
		doc.FixNames()
	case "fixids":
		doc.FixObjectID()
	case "clone":
		o := doc.Objects[op.Obj-1]
		o.Color = &geom.Vector3{X: 0.5}
		o.Extra["k"] = "v"
		o.Locked, o.Folding, o.Patch, o.PatchSegment, o.Mirror, o.MirrorDis = true, true, 3, 4, 1, 2.5
		before := snap(o)
		c := o.Clone()
		ev["equal"] = snap(c) == before && snap(o) == before
		scramble(reflect.ValueOf(c).Elem(), map[uintptr]bool{})
		ev["origkept"] = snap(o) == before
		after := edProj(doc)
		c2 := o.Clone()
		scramble(reflect.ValueOf(o).Elem(), map[uintptr]bool{})
		ev["copykept"] = snap(c2) == before
		*o = *c2.Clone()
		ev["doc"] = after
		emit(ev)
		return
	case "morph":
		ev["ret"] = mqo.GetMorphPlugin(doc).Apply(doc, op.Name, float32(op.Val)/100)
		ev["name"], ev["val"] = op.Name, op.Val
	case "flip":
		doc.Objects[op.Obj-1].Faces[op.Face-1].Flip()
		ev["obj"], ev["face"] = op.Obj, op.Face
	case "tri":
		doc.Objects[op.Obj-1].Triangulate()
		ev["obj"] = op.Obj
	case "normals":
		doc.Objects[op.Obj-1].FixhNormals()
		ev["obj"] = op.Obj
	case "find":
		o := doc.Objects[op.Obj-1]
		ev["got"] = o.GetVertexIndexByID(op.UID) + 1
		ev["gotobj"] = 0
		if f := doc.GetObjectByID(op.UID); f != nil {
			for i := range doc.Objects {
				if doc.Objects[i] == f {
					ev["gotobj"] = i + 1
				}
			}
		}
		ev["obj"], ev["uid"] = op.Obj, op.UID
		emit(ev)
		return
	default:
		panic("harness: unknown op " + op.Op)
	}
	ev["doc"] = edProj(doc)
	emit(ev)
}

func (g *gen) edGen(small bool) geoGen {
	x := geoGen{E: [3]int{1, 1, 1}, Ord: 1, S: [3]int{1, 1, 1}, T: [3]int{g.n(7) - 3, g.n(7) - 3, g.n(7) - 3}}
	a := func() int {
		if small {
			return []int{1, 4, 7, 10}[g.n(4)]
		}
		return 1 + g.n(12)
	}
	if g.p(70) {
		x.E = [3]int{a(), a(), a()}
	}
	if g.p(50) {
		s := 1 + g.n(2)
		x.S = [3]int{s, s, s}
	}
	return x
}

func (g *gen) edDoc() edDoc {
	var d edDoc
	names := []string{"base", "t1", "t2", "x", "y", "t1_2"}
	no := 1 + g.n(5)
	depth := 0
	aniso := g.p(40)
	v3 := func() []int { return []int{g.n(9) - 4, g.n(9) - 4, g.n(9) - 4} }
	for i := 0; i < no; i++ {
		o := edObj{Name: names[i], UID: (i*7+3)%11 + 1, Depth: depth, G: g.edGen(true)}
		if !aniso {
			o.G = g.edGen(false)
		}
		// axis parallel box corners and some free ones
		k := []int{8, 8, 8, 5, 9}[g.n(5)]
		if i < 3 {
			k = 8
			if g.p(10) {
				k = 5
			}
		}
		for j := 0; j < k; j++ {
			if j < 8 {
				o.Verts = append(o.Verts, []int{(j & 1) * (2 + i), (j >> 1 & 1) * 3, (j >> 2 & 1) * 2})
			} else {
				o.Verts = append(o.Verts, v3())
			}
		}
		if i > 0 && g.p(60) {
			for j := range o.Verts {
				if g.p(50) {
					o.Verts[j] = v3()
				}
			}
		}
		quads := [][]int{{1, 2, 4, 3}, {5, 7, 8, 6}, {1, 3, 7, 5}, {2, 6, 8, 4}, {1, 5, 6, 2}, {3, 4, 8, 7}, {1, 2, 4}, {1, 2}, {5, 6, 8, 7}, {2, 1, 5}, {1, 2, 4, 8}}
		for j := g.n(6); j > 0; j-- {
			q := quads[g.n(len(quads))]
			ok := true
			for _, v := range q {
				ok = ok && v <= k
			}
			if !ok {
				continue
			}
			r := g.n(len(q))
			f := edFace{M: len(o.Faces), UID: g.n(3) * 5, UV: g.p(50)}
			for t := range q {
				f.V = append(f.V, q[(t+r)%len(q)])
			}
			if g.p(40) {
				for range f.V {
					f.N = append(f.N, [][]int{{10, 0, 0}, {0, -10, 0}, {0, 0, 10}, {6, 0, 8}, {0, 8, -6}, {}}[g.n(6)])
				}
			}
			o.Faces = append(o.Faces, f)
		}
		if g.p(30) {
			o.IT = append(o.IT, g.edGen(false))
		}
		if g.p(20) {
			for j := range o.Verts {
				o.UIDs = append(o.UIDs, [2]int{20 + (j*3)%7*10 + j, j + 1})
			}
		}
		d.Objs = append(d.Objs, o)
		depth = g.n(depth + 2)
	}
	nb := g.n(6)
	for i := 0; i < nb; i++ {
		b := edBone{ID: i + 1, Pos: v3(), W: []edW{}}
		if g.p(70) {
			b.Parent = g.n(nb + 1)
		}
		d.Bones = append(d.Bones, b)
	}
	if nb > 0 {
		// no cycles: follow parents
		for i := range d.Bones {
			seen := map[int]bool{}
			for k := i; k >= 0; k = d.Bones[k].Parent - 1 {
				if seen[k] {
					d.Bones[i].Parent = 0
					break
				}
				seen[k] = true
			}
		}
		for oi, o := range d.Objs {
			if oi == 1 || oi == 2 { // targets follow the base
				continue
			}
			for v := range o.Verts {
				left := 100
				for _, bi := range g.r.Perm(nb) {
					if left > 0 && g.p(40) {
						w := []int{left, 25, 50, 10}[g.n(4)]
						if w > left {
							w = left
						}
						left -= w
						id := v + 1
						if len(o.UIDs) > 0 {
							id = o.UIDs[v][0]
						}
						d.Bones[bi].W = append(d.Bones[bi].W, edW{Obj: o.UID, Vert: id, W: w})
					}
				}
			}
		}
		for i := g.n(4); i > 0; i-- {
			d.Bodies = append(d.Bodies, edBody{Bone: g.n(nb + 2), Pos: v3(), Size: []int{1 + g.n(3), 1 + g.n(3), 1 + g.n(3)}})
			d.Joints = append(d.Joints, v3())
		}
	}
	if no > 1 && g.p(70) {
		m := edMorph{Base: "base", Targets: []string{"t1"}}
		if g.p(60) {
			m.Targets = append(m.Targets, "t2")
		}
		if g.p(20) {
			m.Targets = append(m.Targets, "missing")
		}
		d.Morphs = append(d.Morphs, m)
	}
	for i := g.n(5); i > 0; i-- {
		d.Mats = append(d.Mats, edMat{Name: g.pick("m", "n", "$MORPH:t1:m", "$MORPH:t1:zz", "$MORPH:t2:n", "m_2"), Col: []int{g.n(101), g.n(101), g.n(101), g.n(101)}})
	}
	return d
}

func init() {
	reg("mqoedit", &Domain{
		Gen: func(r *rand.Rand, n int) []interface{} {
			var cs []interface{}
			g := &gen{r: r}
			for i := 0; i < n; i++ {
				c := edCase{Doc: g.edDoc()}
				axisAligned := true
				for _, o := range c.Doc.Objs {
					for _, e := range o.G.E {
						axisAligned = axisAligned && quarter[e]
					}
				}
				nodup := map[string]bool{}
				dupmat := false
				for _, m := range c.Doc.Mats {
					dupmat = dupmat || nodup[m.Name]
					nodup[m.Name] = true
				}
				tr, tris := 0, map[int]bool{}
				posed := false
				for k := 1 + g.n(4); k > 0; k-- {
					op := edOp{Op: g.pick("transform", "transform", "pose", "pose", "adjust", "clone", "morph", "morph", "flip", "tri", "normals", "find", "setlocal", "fixnames", "fixids")}
					op.Obj = 1 + g.n(len(c.Doc.Objs))
					switch op.Op {
					case "transform":
						if tr == 2 {
							continue
						}
						tr++
						op.G = g.edGen(false)
						op.G.Ord = g.n(4)
						if axisAligned && tr == 1 && !posed {
							op.G.E = [3]int{[]int{1, 4, 7, 10}[g.n(4)], []int{1, 4, 7, 10}[g.n(4)], []int{1, 4, 7, 10}[g.n(4)]}
							if g.p(50) {
								op.G.E = [3]int{1, 1, 1}
							}
							s := func() int { return []int{1, 2, -1, -2, 1}[g.n(5)] }
							op.G.S = [3]int{s(), s(), s()}
						} else {
							e := [3]int{1, 1, 1}
							e[g.n(3)] = 1 + g.n(12)
							op.G.E = e
						}
						posed = true
						axisAligned = false
					case "setlocal":
						if tr > 0 {
							continue
						}
						op.G = g.edGen(false)
						op.G.Ord = g.n(4)
						axisAligned = false
					case "pose", "adjust":
						if len(c.Doc.Bones) == 0 {
							continue
						}
						op.Bone = 1 + g.n(len(c.Doc.Bones))
						op.Axis, op.Ang = 1+g.n(3), 1+g.n(12)
						if op.Op == "adjust" && posed {
							continue
						}
						posed = true
					case "morph":
						if dupmat {
							continue
						}
						op.Name, op.Val = g.pick("t1", "t2", "missing", "base", "nope"), []int{100, 50, 25, 0, 10}[g.n(5)]
					case "flip":
						if tris[op.Obj] || len(c.Doc.Objs[op.Obj-1].Faces) == 0 {
							continue
						}
						op.Face = 1 + g.n(len(c.Doc.Objs[op.Obj-1].Faces))
					case "tri":
						if tris[op.Obj] {
							continue
						}
						tris[op.Obj] = true
					case "normals":
						if posed || tris[op.Obj] {
							continue
						}
					case "find":
						op.UID = g.n(90) - 2
						if g.p(60) {
							op.UID = g.n(13) - 1
						}
					}
					c.Ops = append(c.Ops, op)
				}
				cs = append(cs, c)
			}
			return cs
		},
		Run: func(body json.RawMessage, emit func(Event)) {
			var c edCase
			must(json.Unmarshal(body, &c))
			doc := c.Doc.build()
			gens := []geoGen{}
			for _, o := range c.Doc.Objs {
				g := o.G
				if g.E[0] == 0 {
					g = geoGen{E: [3]int{1, 1, 1}, S: [3]int{1, 1, 1}}
				}
				g.Ord = 1
				gens = append(gens, g)
			}
			emit(Event{"op": "load", "doc": edProj(doc), "gens": gens})
			for _, op := range c.Ops {
				edCall(doc, op, emit)
			}
		},
	})
}
