package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"
	"github.com/qmuntal/gltf"
)

// Shader settings, lights and bodies of a document, and what becomes of them in a glTF file.
type gxNum struct {
	K string `json:"k"`
	V int    `json:"v"`
}
type gxCol struct {
	K string `json:"k"`
	V []int  `json:"v"`
}
type gxMap struct {
	K string `json:"k"`
	F string `json:"f"`
}
type gxMat struct {
	Name string   `json:"name"`
	Shd  string   `json:"shd"`
	On   []string `json:"on"`  // switches that are true
	Off  []string `json:"off"` // and those that are false
	Nums []gxNum  `json:"nums"`
	Cols []gxCol  `json:"cols"`
	Maps []gxMap  `json:"maps"`
	Used bool     `json:"used"` // by a visible face
}
type gxLight struct {
	Type string `json:"type"`
	Int  int    `json:"int"`
	Rng  int    `json:"rng"`
	Col  []int  `json:"col"`
}
type gxObj struct {
	Name  string    `json:"name"`
	Depth int       `json:"depth"`
	Vis   bool      `json:"vis"`
	Verts [][]int   `json:"verts"` // of one triangle, or none
	Mat   int       `json:"mat"`   // 0-based
	Light []gxLight `json:"light"` // at most one
	At    []cvTRS   `json:"at"`    // at most one
}
type gxBone struct {
	ID     int    `json:"id"`
	Name   string `json:"name"`
	Parent int    `json:"parent"`
	Pos    []int  `json:"pos"`
}
type gxShape struct {
	Type string `json:"type"`
	Size []int  `json:"size"`
	Pos  []int  `json:"pos"`
}
type gxBody struct {
	Bone   int       `json:"bone"` // 0: none
	Obj    int       `json:"obj"`  // 0: none
	Mass   int       `json:"mass"`
	Kin    bool      `json:"kin"`
	Group  int       `json:"group"`
	Mask   int       `json:"mask"`
	Shapes []gxShape `json:"shapes"`
}
type gxCase struct {
	Mats    []gxMat  `json:"mats"`
	Objs    []gxObj  `json:"objs"` // identifiers are the numbers of the objects
	Bones   []gxBone `json:"bones"`
	Bodies  []gxBody `json:"bodies"`
	Scale   int      `json:"scale"`
	Lights  bool     `json:"lights"`
	Physics bool     `json:"physics"`
	Unlit   bool     `json:"unlit"`
	Flat    bool     `json:"flat"`
}

type gxExt struct {
	Name string  `json:"name"`
	Nums []gxNum `json:"nums"`
	Cols []gxCol `json:"cols"`
	Texs []gxMap `json:"texs"`
	Odd  int     `json:"odd"` // values of other kinds
}
type gxMatView struct {
	Name string  `json:"name"`
	Exts []gxExt `json:"exts"`
}
type gxPhys struct {
	Shapes []gxShape `json:"shapes"`
	Boxes  [][]int   `json:"boxes"`
	Mass   int       `json:"mass"`
	Static bool      `json:"static"`
	Group  int       `json:"group"`
	Mask   int       `json:"mask"`
}
type gxNodeView struct {
	Light []gxLight `json:"light"`
	Phys  []gxPhys  `json:"phys"`
}

func (c *gxCase) build() *mqo.Document {
	doc := mqo.NewDocument()
	for _, m := range c.Mats {
		q := &mqo.Material{Name: m.Name, Color: geom.Vector4{X: 1, Y: 1, Z: 1, W: 1}, Diffuse: 1}
		q.Ex2 = &mqo.MaterialEx2{ShaderType: "hlsl", ShaderName: m.Shd, ShaderParams: map[string]interface{}{}, ShaderMapping: map[string]string{}}
		for _, k := range m.Off {
			q.Ex2.ShaderParams[k] = false
		}
		for _, k := range m.On {
			q.Ex2.ShaderParams[k] = true
		}
		for _, n := range m.Nums {
			q.Ex2.ShaderParams[n.K] = float64(n.V) / 1000
		}
		for _, n := range m.Cols {
			v := []float32{}
			for _, x := range n.V {
				v = append(v, unmilli(x))
			}
			q.Ex2.ShaderParams[n.K] = v
		}
		for _, n := range m.Maps {
			q.Ex2.ShaderMapping[n.K] = n.F
		}
		doc.Materials = append(doc.Materials, q)
	}
	for i, o := range c.Objs {
		q := mqo.NewObject(o.Name)
		q.UID, q.Depth, q.Visible = i+1, o.Depth, o.Vis
		for _, v := range o.Verts {
			q.Vertexes = append(q.Vertexes, &geom.Vector3{X: unmilli(v[0]), Y: unmilli(v[1]), Z: unmilli(v[2])})
		}
		if len(o.Verts) > 0 {
			q.Faces = []*mqo.Face{{Verts: []int{0, 1, 2}, Material: o.Mat}}
		}
		q.Extra = map[string]interface{}{}
		for _, l := range o.Light {
			q.Extra["light"] = map[string]interface{}{"type": l.Type, "intensity": unmilli(l.Int), "range": unmilli(l.Rng), "color": []float32{unmilli(l.Col[0]), unmilli(l.Col[1]), unmilli(l.Col[2])}}
		}
		for _, t := range o.At {
			q.InternalTransform = t.matrix()
		}
		doc.Objects = append(doc.Objects, q)
	}
	if len(c.Bones) > 0 {
		var bones []*mqo.Bone
		for _, b := range c.Bones {
			q := &mqo.Bone{ID: b.ID, Name: b.Name, Parent: b.Parent}
			q.Pos.Vector3 = geom.Vector3{X: unmilli(b.Pos[0]), Y: unmilli(b.Pos[1]), Z: unmilli(b.Pos[2])}
			bones = append(bones, q)
		}
		mqo.GetBonePlugin(doc).SetBones(bones)
	}
	ph := mqo.GetPhysicsPlugin(doc)
	for _, b := range c.Bodies {
		q := &mqo.PhysicsBody{Mass: unmilli(b.Mass), Kinematic: b.Kin, CollisionGroup: b.Group, CollisionMask: b.Mask, TargetBoneID: b.Bone, TargetObjID: b.Obj}
		for _, s := range b.Shapes {
			x := &mqo.PhysicsShape{Type: s.Type}
			x.Size = mqo.Vector3XmlAttr{X: unmilli(s.Size[0]), Y: unmilli(s.Size[1]), Z: unmilli(s.Size[2])}
			x.Position = mqo.Vector3XmlAttr{X: unmilli(s.Pos[0]), Y: unmilli(s.Pos[1]), Z: unmilli(s.Pos[2])}
			q.Shapes = append(q.Shapes, x)
		}
		ph.Bodies = append(ph.Bodies, q)
	}
	return doc
}

func gxJSON(v interface{}, to interface{}) {
	b, err := json.Marshal(v)
	must(err)
	json.Unmarshal(b, to) // what does not fit stays empty
}
func gxInts(v []float64, u float64) []int {
	r := []int{}
	for _, x := range v {
		r = append(r, clamp(roundInt(x*u), 1000000))
	}
	return r
}

func gxMats(doc *gltf.Document, files map[string][]byte) []gxMatView {
	rd := &glReader{doc: doc, unit: 1, files: files}
	res := []gxMatView{}
	for _, m := range doc.Materials {
		v := gxMatView{Name: m.Name, Exts: []gxExt{}}
		for name, e := range m.Extensions {
			x := gxExt{Name: name, Nums: []gxNum{}, Cols: []gxCol{}, Texs: []gxMap{}}
			vals := map[string]interface{}{}
			gxJSON(e, &vals)
			for k, y := range vals {
				switch z := y.(type) {
				case float64:
					x.Nums = append(x.Nums, gxNum{k, roundInt(z * 1000)})
				case []interface{}:
					c := []float64{}
					gxJSON(z, &c)
					x.Cols = append(x.Cols, gxCol{k, gxInts(c, 1000)})
				case map[string]interface{}:
					t := struct{ Index uint32 }{1 << 30}
					gxJSON(z, &t)
					x.Texs = append(x.Texs, gxMap{k, rd.texture(t.Index).File})
				default:
					x.Odd++
				}
			}
			sort.Slice(x.Nums, func(i, j int) bool { return x.Nums[i].K < x.Nums[j].K })
			sort.Slice(x.Cols, func(i, j int) bool { return x.Cols[i].K < x.Cols[j].K })
			sort.Slice(x.Texs, func(i, j int) bool { return x.Texs[i].K < x.Texs[j].K })
			v.Exts = append(v.Exts, x)
		}
		sort.Slice(v.Exts, func(i, j int) bool { return v.Exts[i].Name < v.Exts[j].Name })
		res = append(res, v)
	}
	return res
}

func gxNodes(doc *gltf.Document, unit float64) []gxNodeView {
	var ls struct {
		Lights []struct {
			Type      string
			Intensity float64
			Range     float64
			Color     []float64
		}
	}
	gxJSON(doc.Extensions["KHR_lights_punctual"], &ls)
	res := []gxNodeView{}
	for _, n := range doc.Nodes {
		v := gxNodeView{Light: []gxLight{}, Phys: []gxPhys{}}
		if e, ok := n.Extensions["KHR_lights_punctual"]; ok {
			r := struct{ Light int }{-1}
			gxJSON(e, &r)
			if r.Light >= 0 && r.Light < len(ls.Lights) {
				l := ls.Lights[r.Light]
				v.Light = append(v.Light, gxLight{l.Type, roundInt(l.Intensity * 1000), roundInt(l.Range * 1000), gxInts(l.Color, 1000)})
			} else {
				v.Light = append(v.Light, gxLight{Type: "missing", Col: []int{}})
			}
		}
		if e, ok := n.Extensions["BLENDER_physics"]; ok {
			var p struct {
				CollisionShapes []struct {
					BoundingBox       []float64
					ShapeType         string
					OffsetTranslation []float64
					OffsetScale       []float64
				}
				Mass            float64
				Static          bool
				CollisionGroups int
				CollisionMasks  int
			}
			gxJSON(e, &p)
			x := gxPhys{Shapes: []gxShape{}, Boxes: [][]int{}, Mass: roundInt(p.Mass * 1000), Static: p.Static, Group: p.CollisionGroups, Mask: p.CollisionMasks}
			for _, s := range p.CollisionShapes {
				x.Shapes = append(x.Shapes, gxShape{s.ShapeType, gxInts(s.OffsetScale, unit), gxInts(s.OffsetTranslation, unit)})
				x.Boxes = append(x.Boxes, gxInts(s.BoundingBox, unit))
			}
			v.Phys = append(v.Phys, x)
		}
		res = append(res, v)
	}
	return res
}

func gxRun(body json.RawMessage, emit func(Event)) {
	var c gxCase
	must(json.Unmarshal(body, &c))
	dir, files, list := pictures()
	names := []string{}
	for _, p := range list {
		names = append(names, p.Name)
	}
	opt := &converter.MQOToGLTFOption{Scale: float32(float64(c.Scale) / 1e6), ForceUnlit: c.Unlit, IgnoreObjectHierarchy: c.Flat, ExportLights: c.Lights, ConvertPhysics: c.Physics, TextureScale: 1}
	ev := Event{"op": "convert", "ok": false, "c": c, "pics": names, "g": []int{}}
	doc, err := converter.NewMQOToGLTFConverter(opt).Convert(c.build(), dir)
	if err == nil {
		var b []byte
		b, err = glbBytes(doc)
		if err == nil {
			doc, err = glbRead(b)
		}
	}
	if err == nil {
		unit := 1e9 / float64(c.Scale)
		v := glOf(doc, unit, files)
		ev["ok"] = true
		ev["g"] = Event{"nodes": v.Nodes, "roots": v.Roots, "meshes": v.Meshes, "skins": v.Skins, "mats": v.Mats, "ext": v.Ext, "refs": v.Refs, "xmats": gxMats(doc, files), "xnodes": gxNodes(doc, unit), "xdoc": sortedExt(doc.Extensions)}
	}
	emit(ev)
}

func sortedExt(e gltf.Extensions) []string {
	r := []string{}
	for k := range e {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var gxSwitches = []string{"Extensions.SpecularExt", "Extensions.Clearcoat", "Extensions.Sheen", "Extensions.IorExt", "Extensions.Volume", "Extensions.Transmission", "Extensions.Unlit"}
var gxNumKeys = []string{"Extensions.SpecularFactor", "Extensions.ClearcoatFactor", "Extensions.ClearcoatRoughnessFactor", "Extensions.SheenRoughnessFactor", "Extensions.Ior", "Extensions.ThicknessFactor", "Extensions.AttenuationDistance", "Extensions.TransmissionFactor", "Metallic", "Roughness"}
var gxColKeys = []string{"Extensions.SpecularColorFactor", "Extensions.SheenColorFactor", "Extensions.AttenuationColor"}
var gxSlots = []string{"Specular", "SpecularColor", "Clearcoat", "ClearcoatRoughness", "ClearcoatNormal", "SheenColor", "SheenRoughness", "Thickness", "Transmission"}

func (g *gen) gxTRS() cvTRS {
	s := []int{1000, 1000, 500, 2000}[g.n(4)]
	return cvTRS{R: turns[g.n(len(turns))], T: []int{g.n(40)*500 - 10000, g.n(40)*500 - 10000, g.n(40)*500 - 10000}, S: []int{s, s, s}}
}

func (g *gen) gxCase() gxCase {
	c := gxCase{Scale: []int{1000, 10000, 500000, 1000000}[g.n(4)], Lights: g.p(70), Physics: g.p(70), Unlit: g.p(10), Flat: g.p(25)}
	for i := g.n(4); i >= 0; i-- {
		m := gxMat{Name: fmt.Sprint("m", i), Shd: g.pick("glTF", "glTF", "glTF", "glTF", "pmd", "Constant")}
		for _, k := range gxSwitches {
			if g.p(40) {
				m.On = append(m.On, k)
			} else if g.p(40) {
				m.Off = append(m.Off, k)
			}
		}
		for _, k := range gxNumKeys {
			if g.p(70) {
				m.Nums = append(m.Nums, gxNum{k, []int{0, 250, 1000, 1500, 1, g.n(1000)}[g.n(6)]})
			}
		}
		for _, k := range gxColKeys {
			if g.p(50) {
				m.Cols = append(m.Cols, gxCol{k, []int{g.n(5) * 250, g.n(5) * 250, g.n(5) * 250, 1000}})
			}
		}
		for _, k := range gxSlots {
			if g.p(40) {
				m.Maps = append(m.Maps, gxMap{k, g.pick("a.png", "tex/b.png", "b.png", "c.bmp", "e.jpg", "gone.png", "")})
			}
		}
		c.Mats = append(c.Mats, m)
	}
	for i := g.n(6); i >= 0; i-- {
		o := gxObj{Name: fmt.Sprint("o", i), Depth: g.n(3), Vis: g.p(80), Mat: g.n(len(c.Mats))}
		if g.p(60) {
			p := []int{g.n(40)*500 - 10000, g.n(40)*500 - 10000, g.n(40)*500 - 10000}
			o.Verts = [][]int{p, {p[0] + 1000, p[1], p[2]}, {p[0], p[1] + 1000, p[2] + 500}}
		}
		if g.p(50) {
			o.Light = []gxLight{{g.pick("point", "spot", "directional"), 250 * (1 + i), g.n(9) * 500, []int{g.n(5) * 250, g.n(5) * 250, 1000}}}
		}
		if g.p(75) {
			o.At = []cvTRS{g.gxTRS()}
		}
		c.Objs = append(c.Objs, o)
	}
	for i := g.n(4); i > 0; i-- {
		n := len(c.Bones)
		c.Bones = append(c.Bones, gxBone{n + 1, fmt.Sprint("b", n), g.n(n + 1), []int{g.n(40)*500 - 10000, g.n(40)*500 - 10000, g.n(40)*500 - 10000}})
	}
	for i := g.n(6); i > 0; i-- {
		b := gxBody{Mass: g.n(5) * 500, Kin: g.p(30), Group: g.n(16), Mask: g.n(65536)}
		if g.p(60) {
			b.Bone = g.n(len(c.Bones) + 2)
		}
		if b.Bone == 0 || g.p(20) {
			b.Obj = g.n(len(c.Objs) + 2)
		}
		for k := []int{0, 1, 1, 1, 2, 3}[g.n(6)]; k > 0; k-- {
			b.Shapes = append(b.Shapes, gxShape{g.pick("BOX", "SPHERE", "CAPSULE", "CYLINDER"), []int{g.n(9) * 250, g.n(9) * 250, g.n(9) * 250}, []int{g.n(40)*500 - 10000, g.n(40)*500 - 10000, g.n(40)*500 - 10000}})
		}
		c.Bodies = append(c.Bodies, b)
	}
	return c
}

func init() {
	reg("gltfextras", &Domain{Run: gxRun, Gen: func(r *rand.Rand, n int) []interface{} {
		res := []interface{}{}
		for i := 0; i < n; i++ {
			g := &gen{r: r, x: milliNum}
			res = append(res, g.gxCase())
		}
		return res
	}})
}
