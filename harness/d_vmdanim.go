package main

import (
	"bytes"
	"encoding/json"
	"math"
	"math/rand"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

// A motion (VMD file) and the model it is played on.
type vaBone struct {
	Name   string `json:"name"`
	Parent int    `json:"parent"` // 1-based, before the bone; 0: none
	At     []int  `json:"at"`     // millimetres, absolute
}
type vaMesh struct {
	Names []string `json:"names"`
	N     int      `json:"n"` // morph targets
}
type vaKey struct {
	T     string `json:"t"`
	Frame int    `json:"frame"`
	Pos   []int  `json:"pos"`
	Rot   []int  `json:"rot"`
}
type vaMotion struct {
	Bones  []vaKey  `json:"bones"`
	Morphs []VMorph `json:"morphs"`
}
type vaCase struct {
	Bones  []vaBone `json:"bones"`
	Meshes []vaMesh `json:"meshes"`
	MNodes []int    `json:"mnodes"` // mesh of each mesh node, 1-based
	Motion vaMotion `json:"motion"`
	First  bool     `json:"first"`  // mesh nodes before the bones
	Loaded bool     `json:"loaded"` // the model is stored and read before
	Flip   bool     `json:"flip"`   // the model was turned half around
	Conv   bool     `json:"conv"`   // the model is a converted MQO document (bones only)
}
type vaNode struct {
	Bone string `json:"bone"`
	Rest []int  `json:"rest"`
	Mesh int    `json:"mesh"`
}

func (c *vaCase) mqoBones() []*mqo.Bone {
	var bones []*mqo.Bone
	for i, b := range c.Bones {
		x := &mqo.Bone{ID: i + 1, Name: b.Name, Parent: b.Parent}
		if c.Flip {
			x.RotationOffset.Y = math.Pi
		}
		x.Pos.Vector3 = geom.Vector3{X: float32(b.At[0]), Y: float32(b.At[1]), Z: float32(b.At[2])}
		bones = append(bones, x)
	}
	return bones
}

func (c *vaCase) model() (*gltf.Document, map[uint32]*mqo.Bone) {
	if c.Conv {
		m := mqo.NewDocument()
		p := mqo.GetBonePlugin(m)
		p.SetBones(c.mqoBones())
		conv := converter.NewMQOToGLTFConverter(nil)
		doc, err := conv.Convert(m, "")
		must(err)
		return doc, conv.JointNodeToBone
	}
	doc := gltf.NewDocument()
	acc := modeler.WritePosition(doc, [][3]float32{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}})
	for _, m := range c.Meshes {
		p := &gltf.Primitive{Attributes: map[string]uint32{"POSITION": acc}}
		for k := 0; k < m.N; k++ {
			p.Targets = append(p.Targets, map[string]uint32{"POSITION": acc})
		}
		x := &gltf.Mesh{Name: "mesh", Primitives: []*gltf.Primitive{p}}
		if len(m.Names) > 0 {
			x.Extras = map[string]interface{}{"targetNames": append([]string{}, m.Names...)}
		}
		doc.Meshes = append(doc.Meshes, x)
	}
	addMeshes := func() {
		for _, k := range c.MNodes {
			doc.Scenes[0].Nodes = append(doc.Scenes[0].Nodes, uint32(len(doc.Nodes)))
			doc.Nodes = append(doc.Nodes, &gltf.Node{Name: "node", Mesh: gltf.Index(uint32(k - 1))})
		}
	}
	if c.First {
		addMeshes()
	}
	bones := map[uint32]*mqo.Bone{}
	base := len(doc.Nodes)
	for i, b := range c.mqoBones() {
		at := b.Pos.Vector3
		if b.Parent > 0 {
			at = *at.Sub(&bones[uint32(base+b.Parent-1)].Pos.Vector3)
			pn := doc.Nodes[base+b.Parent-1]
			pn.Children = append(pn.Children, uint32(base+i))
		} else {
			doc.Scenes[0].Nodes = append(doc.Scenes[0].Nodes, uint32(base+i))
		}
		bones[uint32(base+i)] = b
		doc.Nodes = append(doc.Nodes, &gltf.Node{Name: b.Name, Translation: [3]float32{at.X * 0.001, at.Y * 0.001, at.Z * 0.001}, Rotation: [4]float32{0, 0, 0, 1}})
	}
	if !c.First {
		addMeshes()
	}
	if c.Loaded {
		b, err := glbBytes(doc)
		must(err)
		doc, err = glbRead(b)
		must(err)
	}
	return doc, bones
}

func vaRun(body json.RawMessage, emit func(Event)) {
	var c vaCase
	must(json.Unmarshal(body, &c))
	doc, bones := c.model()
	nodes := []vaNode{}
	for i, n := range doc.Nodes {
		x := vaNode{}
		if b, ok := bones[uint32(i)]; ok {
			x.Bone = b.Name
		}
		for _, t := range n.Translation {
			x.Rest = append(x.Rest, int(math.Round(float64(t)*100000)))
		}
		if n.Mesh != nil {
			x.Mesh = int(*n.Mesh) + 1
		}
		nodes = append(nodes, x)
	}
	before := glOf(doc, 1000, nil)

	v := VModel{Name: "motion"}
	for _, k := range c.Motion.Bones {
		v.Bones = append(v.Bones, VBone{k.T, k.Frame, k.Pos, k.Rot, 0})
	}
	v.Morphs = c.Motion.Morphs
	anim, err := mmd.NewVMDParser(bytes.NewReader(encodeVmd(v, milliNum))).Parse()
	must(err)
	converter.AddAnimationTpGlb(doc, anim, bones, true)

	ev := Event{"op": "animate", "ok": false, "anims": []int{}, "refs": []int{}, "count": 0, "same": false, "stored": false,
		"case0": Event{"nodes": nodes, "meshes": c.Meshes, "motion": c.Motion, "flip": c.Flip}}
	b, err := glbBytes(doc)
	if err == nil {
		doc, err = glbRead(b)
	}
	if err == nil {
		glLimit = 100000000
		view := glOf(doc, 100000, nil)
		glLimit = 60000
		after := glOf(doc, 1000, nil)
		ev["ok"], ev["anims"], ev["refs"], ev["count"] = true, view.Anims, view.Refs, len(doc.Animations)
		pick := func(v glView) []byte {
			b, err := json.Marshal([]interface{}{v.Nodes, v.Roots, v.Meshes, v.Skins, v.Mats})
			must(err)
			return b
		}
		ev["same"] = bytes.Equal(pick(before), pick(after))
	}
	emit(ev)
}

var vaRots = [][]int{{0, 0, 0, 1000}, {600, 0, 0, 800}, {0, 480, -640, 600}, {-280, 0, 960, 0}, {500, 500, -500, 500}, {0, -1000, 0, 0}, {0, 0, 600, -800}, {0, 0, 0, -1000}}

func (g *gen) vaCase() vaCase {
	c := vaCase{First: g.p(50), Loaded: g.p(30), Conv: g.p(25), Flip: g.p(20)}
	names := []string{"センター", "頭", "a", "右ひじ", "b", "左足ＩＫ"}
	for i := 0; i < g.n(6); i++ {
		c.Bones = append(c.Bones, vaBone{names[i], g.n(i + 1), []int{g.n(4000) - 2000, g.n(4000) - 2000, g.n(4000) - 2000}})
	}
	morphs := []string{"あ", "い", "まばたき", "m", "a"}
	for i := g.n(4); i > 0 && !c.Conv; i-- {
		m := vaMesh{}
		for _, k := range g.r.Perm(len(morphs))[:g.n(4)] {
			m.Names = append(m.Names, morphs[k])
		}
		m.N = len(m.Names)
		if g.p(10) {
			m.N += g.n(2)
		}
		c.Meshes = append(c.Meshes, m)
	}
	for i := g.n(4); i > 0 && len(c.Meshes) > 0; i-- {
		c.MNodes = append(c.MNodes, 1+g.n(len(c.Meshes)))
	}
	span := []int{3, 30, 1000, 100000}[g.n(4)]
	still, stuck := g.p(20), g.p(20)
	for i := g.n(12); i > 0; i-- {
		k := vaKey{names[g.n(len(names))], g.n(span), []int{0, 0, 0}, vaRots[0]}
		if !stuck && g.p(80) {
			k.Pos = []int{g.n(20000) - 10000, g.n(20000) - 10000, g.n(20000) - 10000}
			if g.p(30) {
				k.Pos[g.n(3)], k.Pos[g.n(3)] = 0, 0
			}
		}
		if !still && g.p(80) {
			k.Rot = vaRots[g.n(len(vaRots))]
		}
		c.Motion.Bones = append(c.Motion.Bones, k)
	}
	if g.p(40) { // tracks of equal lengths that differ in a key or two, as motion editors store them
		frames := g.r.Perm(span)
		if len(frames) > 6 {
			frames = frames[:2+g.n(4)]
		}
		c.Motion.Bones = nil
		for _, name := range names[:2+g.n(3)] {
			f := append([]int{}, frames...)
			if g.p(60) {
				f[g.n(len(f))] += 1 + g.n(3)
			}
			for _, t := range f {
				c.Motion.Bones = append(c.Motion.Bones, vaKey{name, t, []int{g.n(3) * 100, g.n(20000) - 10000, 0}, vaRots[g.n(len(vaRots))]})
			}
		}
	}
	for i := g.n(12); i > 0; i-- {
		v := g.n(1001)
		if g.p(10) {
			v = g.n(4000) - 2000
		}
		c.Motion.Morphs = append(c.Motion.Morphs, VMorph{morphs[g.n(len(morphs))], g.n(span), v})
	}
	return c
}

func init() {
	reg("vmdanim", &Domain{Run: vaRun, Gen: func(r *rand.Rand, n int) []interface{} {
		res := []interface{}{}
		for i := 0; i < n; i++ {
			g := &gen{r: r, x: milliNum}
			res = append(res, g.vaCase())
		}
		return res
	}})
}
