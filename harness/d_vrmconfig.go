package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/vrm"
	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

type vcShape struct {
	T  string `json:"t"`
	R  int    `json:"r"`
	At []int  `json:"at"`
}
type vcNode struct {
	Name   string    `json:"name"`
	Kids   []int     `json:"kids"`
	Mesh   int       `json:"mesh"` // 0: none
	Body   string    `json:"body"` // "", "static", "dyn"
	Shapes []vcShape `json:"shapes"`
}
type vcMat struct {
	Name string `json:"name"`
	Mode string `json:"mode"`
	A    int    `json:"a"` // -1: no colour, -2: no parameters at all
}
type vcBone struct {
	Bone  string   `json:"bone"`
	Names []string `json:"names"`
	Lim   bool     `json:"lim"`
	Old   bool     `json:"old"` // the old way of naming a node
}
type vcMorph struct {
	Name   string   `json:"name"`
	Node   string   `json:"node"`
	Target string   `json:"target"`
	Idx    int      `json:"idx"`
	Vals   []string `json:"vals"`
}
type vcSet struct {
	Key   string `json:"key"`
	Unlit bool   `json:"unlit"`
	Mode  string `json:"mode"`
	Alpha int    `json:"alpha"`
}
type vcGroup struct {
	Tag    string   `json:"tag"`
	Pats   []string `json:"pats"`
	CG     []int    `json:"cg"`
	Center int      `json:"center"`
}
type vcBall struct {
	R  int   `json:"r"`
	At []int `json:"at"`
}
type vcCol struct {
	Node string   `json:"node"`
	Cols []vcBall `json:"cols"`
}
type vcConf struct {
	Title   string    `json:"title"`
	Bones   []vcBone  `json:"bones"`
	Morphs  []vcMorph `json:"morphs"`
	Mats    []vcSet   `json:"mats"`
	Groups  []vcGroup `json:"groups"`
	Cols    []vcCol   `json:"cols"`
	All     bool      `json:"all"`
	Phys    bool      `json:"phys"`
	ColPhys bool      `json:"colphys"`
}
type vcCase struct {
	Nodes  []vcNode   `json:"nodes"`
	Meshes [][]string `json:"meshes"`
	Mats   []vcMat    `json:"mats"`
	Conf   vcConf     `json:"conf"`
	Preset []vcConf   `json:"preset"`
	Embed  string     `json:"embed"` // name of a preset that comes with the program
	Lost   bool       `json:"lost"`  // the preset does not exist
	Loaded bool       `json:"loaded"`
	File   bool       `json:"file"` // the configuration is read from its file by the converter
}

func (c *vcConf) norm() {
	if c.Bones == nil {
		c.Bones = []vcBone{}
	}
	for i := range c.Bones {
		if c.Bones[i].Names == nil {
			c.Bones[i].Names = []string{}
		}
	}
	if c.Morphs == nil {
		c.Morphs = []vcMorph{}
	}
	for i := range c.Morphs {
		if c.Morphs[i].Vals == nil {
			c.Morphs[i].Vals = []string{}
		}
	}
	if c.Mats == nil {
		c.Mats = []vcSet{}
	}
	if c.Groups == nil {
		c.Groups = []vcGroup{}
	}
	if c.Cols == nil {
		c.Cols = []vcCol{}
	}
}

// json of the configuration file
func (c *vcConf) encode(preset string) []byte {
	type m = map[string]interface{}
	bones, morphs, groups, cols := []m{}, []m{}, []m{}, []m{}
	for _, b := range c.Bones {
		e := m{"bone": b.Bone, "nodeNames": b.Names}
		if b.Lim {
			e["min"], e["max"], e["center"] = []int{-1, -2, -3}, []int{1, 2, 3}, []int{0, 0, 1}
		}
		if b.Old && len(b.Names) == 1 {
			delete(e, "nodeNames")
			e["nodeName"] = b.Names[0]
		}
		if len(b.Names) == 0 && b.Old {
			delete(e, "nodeNames")
		}
		bones = append(bones, e)
	}
	for _, x := range c.Morphs {
		e := m{"name": x.Name}
		if x.Node != "" {
			e["nodeName"], e["targetIndex"] = x.Node, x.Idx
		}
		if x.Target != "" {
			e["targetName"] = x.Target
		}
		if len(x.Vals) > 0 {
			vs := []m{}
			for _, v := range x.Vals {
				vs = append(vs, m{"materialName": v, "propertyName": "_Color", "targetValue": []float64{1, 0.5, 0, 1}})
			}
			e["materialValues"] = vs
		}
		morphs = append(morphs, e)
	}
	sets := m{}
	for _, s := range c.Mats {
		e := m{}
		if s.Unlit {
			e["forceUnlit"] = true
		}
		if s.Mode != "" {
			e["alphaMode"] = s.Mode
		}
		if s.Alpha != 0 {
			e["alpha"] = float64(s.Alpha) / 1000
		}
		sets[s.Key] = e
	}
	for _, g := range c.Groups {
		e := m{"comment": g.Tag, "nodeNames": g.Pats, "center": g.Center, "stiffiness": 1, "dragForce": 0.5}
		if len(g.CG) > 0 {
			e["colliderGroups"] = g.CG
		}
		groups = append(groups, e)
	}
	for _, x := range c.Cols {
		bs := []m{}
		for _, b := range x.Cols {
			bs = append(bs, m{"radius": float64(b.R) / 1000, "offset": m{"x": float64(b.At[0]) / 1000, "y": float64(b.At[1]) / 1000, "z": float64(b.At[2]) / 1000}})
		}
		cols = append(cols, m{"nodeName": x.Node, "colliders": bs})
	}
	r := m{"meta": m{"title": c.Title, "version": "1"}}
	if len(bones) > 0 {
		r["boneMappings"] = bones
	}
	if len(morphs) > 0 {
		r["morphMappings"] = morphs
	}
	if len(sets) > 0 {
		r["materialSettings"] = sets
	}
	if len(groups) > 0 {
		r["animationBoneGroups"] = groups
	}
	if len(cols) > 0 {
		r["colliderGroups"] = cols
	}
	if c.All {
		r["exportAllMorph"] = true
	}
	if c.Phys {
		r["animationBoneFromPhysics"] = true
	}
	if c.ColPhys {
		r["convertPhysicsCollider"] = true
	}
	if preset != "" {
		r["preset"] = preset
	}
	data, err := json.Marshal(r)
	must(err)
	return data
}

// embedded reads the bones, expressions and material settings of a preset of the repository.
func vcEmbedded(name string) vcConf {
	data, err := ioutil.ReadFile(filepath.Join("/repo/converter/vrmconfig_presets", name+".json"))
	must(err)
	var p struct {
		BoneMappings []struct {
			Bone      string   `json:"bone"`
			NodeName  string   `json:"nodeName"`
			NodeNames []string `json:"nodeNames"`
		} `json:"boneMappings"`
		MorphMappings []struct {
			Name       string `json:"name"`
			TargetName string `json:"targetName"`
		} `json:"morphMappings"`
		MaterialSettings map[string]struct {
			ForceUnlit bool    `json:"forceUnlit"`
			AlphaMode  string  `json:"alphaMode"`
			Alpha      float64 `json:"alpha"`
		} `json:"materialSettings"`
	}
	must(json.Unmarshal(data, &p))
	c := vcConf{}
	for _, b := range p.BoneMappings {
		if b.NodeName != "" {
			b.NodeNames = append(b.NodeNames, b.NodeName)
		}
		c.Bones = append(c.Bones, vcBone{Bone: b.Bone, Names: b.NodeNames})
	}
	for _, b := range p.MorphMappings {
		c.Morphs = append(c.Morphs, vcMorph{Name: b.Name, Target: b.TargetName})
	}
	for k, s := range p.MaterialSettings {
		c.Mats = append(c.Mats, vcSet{Key: k, Unlit: s.ForceUnlit, Mode: s.AlphaMode, Alpha: int(s.Alpha*1000 + 0.5)})
	}
	return c
}

var vcModes = map[string]gltf.AlphaMode{"opaque": gltf.AlphaOpaque, "mask": gltf.AlphaMask, "blend": gltf.AlphaBlend}

func (c *vcCase) model() *gltf.Document {
	doc := gltf.NewDocument()
	acc := modeler.WritePosition(doc, [][3]float32{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}})
	for i, names := range c.Meshes {
		p := &gltf.Primitive{Attributes: map[string]uint32{"POSITION": acc}}
		for range names {
			p.Targets = append(p.Targets, map[string]uint32{"POSITION": acc})
		}
		m := &gltf.Mesh{Name: fmt.Sprint("mesh", i), Primitives: []*gltf.Primitive{p}}
		if len(names) > 0 {
			m.Extras = map[string]interface{}{"targetNames": names}
		}
		doc.Meshes = append(doc.Meshes, m)
	}
	child := map[int]bool{}
	for i, n := range c.Nodes {
		x := &gltf.Node{Name: n.Name, Translation: [3]float32{0, float32(i), 0}}
		for _, k := range n.Kids {
			x.Children = append(x.Children, uint32(k-1))
			child[k-1] = true
		}
		if n.Mesh > 0 {
			x.Mesh = gltf.Index(uint32(n.Mesh - 1))
		}
		if n.Body != "" {
			b := &converter.BlenderPhysicsBody{Mass: 1, Static: n.Body == "static", CollisionGroups: 1, CollisionMasks: 1}
			for _, s := range n.Shapes {
				f := func(v int) float32 { return float32(v) / 1000 }
				b.Shapes = append(b.Shapes, map[string]interface{}{"shapeType": s.T, "offsetScale": [3]float32{f(s.R), f(s.R), f(s.R)}, "offsetTranslation": [3]float32{f(s.At[0]), f(s.At[1]), f(s.At[2])}})
			}
			x.Extensions = gltf.Extensions{converter.BlenderPhysicsName: b}
			if len(doc.ExtensionsUsed) == 0 {
				doc.ExtensionsUsed = []string{converter.BlenderPhysicsName}
			}
		}
		doc.Nodes = append(doc.Nodes, x)
	}
	for i := range c.Nodes {
		if !child[i] {
			doc.Scenes[0].Nodes = append(doc.Scenes[0].Nodes, uint32(i))
		}
	}
	for _, m := range c.Mats {
		x := &gltf.Material{Name: m.Name, AlphaMode: vcModes[m.Mode]}
		if m.A > -2 {
			x.PBRMetallicRoughness = &gltf.PBRMetallicRoughness{}
			if m.A >= 0 {
				x.PBRMetallicRoughness.BaseColorFactor = &[4]float32{0.5, 0.25, 1, float32(m.A) / 1000}
			}
		}
		doc.Materials = append(doc.Materials, x)
	}
	return doc
}

// vcView is what a reader finds in the model.
func vcView(doc *vrm.Document) Event {
	ext := doc.VRM()
	bones := []Event{}
	for _, b := range ext.Humanoid.Bones {
		lim := b.Min != nil && b.Max != nil && b.Center != nil && *b.Min == [3]float32{-1, -2, -3} && *b.Max == [3]float32{1, 2, 3} && *b.Center == [3]float32{0, 0, 1}
		bones = append(bones, Event{"bone": b.Bone, "node": b.Node + 1, "lim": lim, "def": b.UseDefaultValues})
	}
	first := []int{}
	if ext.FirstPerson != nil {
		first = append(first, ext.FirstPerson.FirstPersonBone+1)
	}
	exprs := []Event{}
	for _, g := range ext.BlendShapeMaster.BlendShapeGroups {
		binds, w, vals := [][]int{}, []int{}, []string{}
		for _, b := range g.Binds {
			binds = append(binds, []int{int(b.Mesh) + 1, b.Index + 1})
			w = append(w, milli(float32(b.Weight)))
		}
		for _, v := range g.MaterialValues {
			s := v.MaterialName
			if v.PropertyName != "_Color" || fmt.Sprint(v.TargetValue) != "[1 0.5 0 1]" {
				s = "(changed) " + s
			}
			vals = append(vals, s)
		}
		exprs = append(exprs, Event{"name": g.Name, "binds": binds, "w": w, "vals": vals})
	}
	cols, springs := []Event{}, []Event{}
	if s := ext.SecondaryAnimation; s != nil {
		for _, g := range s.ColliderGroups {
			bs := []Event{}
			for _, b := range g.Colliders {
				bs = append(bs, Event{"r": milli(float32(b.Radius)), "at": []int{milli(float32(b.Offset["x"])), milli(float32(b.Offset["y"])), milli(float32(b.Offset["z"]))}})
			}
			cols = append(cols, Event{"node": int(g.Node) + 1, "cols": bs})
		}
		for _, g := range s.BoneGroups {
			b, cg := []int{}, []int{}
			for _, n := range g.Bones {
				b = append(b, n+1)
			}
			springs = append(springs, Event{"tag": g.Comment, "bones": b, "cg": append(cg, g.ColliderGroups...), "center": g.Center})
		}
	}
	mats, props := []Event{}, []string{}
	for _, m := range doc.Materials {
		a := 1000
		if m.PBRMetallicRoughness != nil && m.PBRMetallicRoughness.BaseColorFactor != nil {
			a = milli(m.PBRMetallicRoughness.BaseColorFactor[3])
		}
		mode := ""
		for k, v := range vcModes {
			if v == m.AlphaMode {
				mode = k
			}
		}
		_, unlit := m.Extensions["KHR_materials_unlit"]
		mats = append(mats, Event{"name": m.Name, "mode": mode, "a": a, "unlit": unlit})
	}
	for _, p := range ext.MaterialProperties {
		props = append(props, p.Name)
	}
	exts := append([]string{}, doc.ExtensionsUsed...)
	for _, n := range doc.Nodes {
		for k := range n.Extensions {
			exts = append(exts, k)
		}
	}
	missing := append([]string{}, ext.CheckRequiredBones()...)
	if (doc.ValidateBones() == nil) != (len(missing) == 0) {
		missing = append(missing, "(ValidateBones)")
	}
	return Event{"bones": bones, "first": first, "exprs": exprs, "cols": cols, "springs": springs, "mats": mats, "props": props, "ext": exts, "missing": missing, "title": ext.Meta.Title}
}

func vcRun(body json.RawMessage, emit func(Event)) {
	var c vcCase
	must(json.Unmarshal(body, &c))
	c.Conf.norm()
	dir, err := ioutil.TempDir(os.Getenv("HARNESS_SCRATCH"), "vc")
	must(err)
	defer os.RemoveAll(dir)
	preset := ""
	if c.Embed != "" {
		preset = c.Embed
		c.Preset = []vcConf{vcEmbedded(c.Embed)}
	} else if len(c.Preset) > 0 {
		preset = filepath.Join(dir, "preset.json")
		must(ioutil.WriteFile(preset, c.Preset[0].encode(""), 0644))
	}
	if c.Lost {
		preset = []string{"nosuchpreset", filepath.Join(dir, "nosuch.json")}[len(c.Nodes)%2]
	}
	for i := range c.Preset {
		c.Preset[i].norm()
	}
	if c.Preset == nil {
		c.Preset = []vcConf{}
	}
	for i := range c.Nodes {
		if c.Nodes[i].Shapes == nil {
			c.Nodes[i].Shapes = []vcShape{}
		}
		if c.Nodes[i].Kids == nil {
			c.Nodes[i].Kids = []int{}
		}
	}
	ms := c.Mats
	c.Mats = append([]vcMat{}, ms...)
	for i := range c.Mats {
		if c.Mats[i].A < 0 {
			c.Mats[i].A = -1
		}
	}
	desc := Event{"nodes": c.Nodes, "meshes": c.Meshes, "mats": c.Mats, "conf": c.Conf, "preset": c.Preset, "lost": c.Lost}
	c.Mats = ms
	conf := filepath.Join(dir, "model.json")
	must(ioutil.WriteFile(conf, c.Conf.encode(preset), 0644))
	src := c.model()
	if c.Loaded {
		var buf bytes.Buffer
		must(gltf.NewEncoder(&buf).Encode(src))
		src = &gltf.Document{}
		must(gltf.NewDecoder(bytes.NewReader(buf.Bytes())).Decode(src))
	}
	var doc *vrm.Document
	if c.File && !c.Conf.Phys && !c.Conf.ColPhys {
		converterDoc, err2 := converter.ToVRM(src, filepath.Join(dir, "out.vrm"), dir, conf)
		doc, err = converterDoc, err2
		if err == nil {
			doc.ExtensionsUsed = without(doc.ExtensionsUsed, converter.BlenderPhysicsName)
			for _, n := range doc.Nodes {
				delete(n.Extensions, converter.BlenderPhysicsName)
			}
		}
	} else {
		cf, err2 := converter.LoadVRMConfig(conf)
		must(err2)
		doc, err = converter.ApplyVRMConfig(src, filepath.Join(dir, "out.vrm"), dir, cf)
	}
	if err != nil {
		emit(Event{"op": "apply", "ok": false, "c": desc})
		return
	}
	var buf bytes.Buffer
	if err := vrm.Write(doc, &buf, filepath.Join(dir, "out.vrm")); err != nil {
		emit(Event{"op": "apply", "ok": false, "c": desc})
		return
	}
	mem := vcView(doc)
	back, err := vrm.Parse(&buf, filepath.Join(dir, "out.vrm"))
	if err != nil {
		emit(Event{"op": "apply", "ok": false, "c": desc})
		return
	}
	emit(Event{"op": "apply", "ok": true, "c": desc, "mem": mem, "file": vcView(back)})
}
func without(s []string, x string) []string {
	r := []string{}
	for _, v := range s {
		if v != x {
			r = append(r, v)
		}
	}
	return r
}

var vcBoneNames = []string{"hips", "spine", "chest", "neck", "head", "leftHand", "leftEye", "rightFoot"}

func (g *gen) vcConf(names, morphs, mats []string, phys bool) vcConf {
	c := vcConf{Title: g.pick("", "T", "題 1")}
	any := func() string {
		if g.p(20) {
			return g.pick("nothing", "?", "xyz")
		}
		return names[g.n(len(names))]
	}
	for i := g.n(5); i > 0; i-- {
		b := vcBone{Bone: vcBoneNames[g.n(len(vcBoneNames))], Names: []string{}, Lim: g.p(20), Old: g.p(40)}
		for k := g.n(4); k > 0; k-- {
			b.Names = append(b.Names, any())
		}
		c.Bones = append(c.Bones, b)
	}
	for i := g.n(4); i > 0; i-- {
		m := vcMorph{Name: g.pick("joy", "A", "m1", "custom"), Vals: []string{}}
		if g.p(60) {
			m.Target = g.pick("nothing", morphs[g.n(len(morphs))], morphs[g.n(len(morphs))])
		} else if g.p(90) {
			m.Node, m.Idx = any(), g.n(5)-1
			if g.p(60) {
				m.Node = g.pick("mesh0", "mesh1", "face")
			}
		}
		for g.p(30) && len(m.Vals) < 2 {
			m.Vals = append(m.Vals, mats[g.n(len(mats))])
		}
		c.Morphs = append(c.Morphs, m)
	}
	for _, k := range append([]string{"*", "nothing"}, mats...) {
		if g.p(30) {
			c.Mats = append(c.Mats, vcSet{Key: k, Unlit: g.p(40), Mode: g.pick("", "blend", "mask", "opaque", "other"), Alpha: []int{0, 0, 250, 1000}[g.n(4)]})
		}
	}
	for i := g.n(3); i > 0; i-- {
		x := vcCol{Node: any(), Cols: []vcBall{}}
		if g.p(10) {
			x.Node = ""
		}
		for k := 1 + g.n(2); k > 0; k-- {
			x.Cols = append(x.Cols, vcBall{R: 1 + g.n(3000), At: []int{g.n(9) * 125, -500, g.n(3) * 250}})
		}
		c.Cols = append(c.Cols, x)
	}
	for i := g.n(3); i > 0; i-- {
		x := vcGroup{Tag: fmt.Sprint("g", i, g.n(1000)), Pats: []string{}, CG: []int{}, Center: []int{-1, -1, 0, 2, 99}[g.n(5)]}
		for k := 1 + g.n(2); k > 0; k-- {
			x.Pats = append(x.Pats, g.pick("hair*", "*", "h?ir1", "*1", "?a*", "nothing*", any(), any(), any()))
		}
		for k := range c.Cols {
			if g.p(50) {
				x.CG = append(x.CG, k)
			}
		}
		if g.p(8) {
			x.CG = append(x.CG, []int{99, -1}[g.n(2)])
		}
		c.Groups = append(c.Groups, x)
	}
	c.All, c.Phys, c.ColPhys = g.p(40), phys && g.p(70), phys && g.p(60)
	return c
}

func (g *gen) vcCase() vcCase {
	c := vcCase{Meshes: [][]string{}, Mats: []vcMat{}, Loaded: g.p(40), File: g.p(30)}
	phys := !c.Loaded && g.p(50)
	pool := []string{"hair1", "hair2", "hair3", "hair4", "head", "hips", "首", "center", "センター", "hair21", "spine", "ear1", "leftHand", "胸", "x", "y1"}
	g.r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	n := 2 + g.n(9)
	names := pool[:n]
	parent := make([]int, n)
	order := g.r.Perm(n) // order in which they join the tree
	for k, i := range order {
		parent[i] = -1
		if k > 0 && g.p(85) {
			parent[i] = order[g.n(k)]
			if g.p(60) {
				parent[i] = order[k-1]
			}
		}
	}
	for i := 0; i < n; i++ {
		x := vcNode{Name: names[i], Kids: []int{}, Shapes: []vcShape{}}
		for j := range parent {
			if parent[j] == i {
				x.Kids = append(x.Kids, j+1)
			}
		}
		if phys {
			x.Body = g.pick("dyn", "dyn", "dyn", "static", "")
			if x.Body != "" {
				for k := g.n(3); k > 0; k-- {
					x.Shapes = append(x.Shapes, vcShape{T: g.pick("SPHERE", "CAPSULE", "BOX"), R: g.n(4) * 250, At: []int{g.n(3) * 500, 250, -g.n(3) * 500}})
				}
			}
		}
		c.Nodes = append(c.Nodes, x)
	}
	morphs := []string{"笑い", "a", "b", "まばたき", "あ", "joy", "A"}
	g.r.Shuffle(len(morphs), func(i, j int) { morphs[i], morphs[j] = morphs[j], morphs[i] })
	rest := morphs
	for i := g.n(4); i > 0; i-- {
		m := []string{}
		for k := g.n(4); k > 0 && len(rest) > 0; k-- {
			m, rest = append(m, rest[0]), rest[1:]
		}
		c.Meshes = append(c.Meshes, m)
		nm := g.pick("mesh"+fmt.Sprint(len(c.Meshes)-1), "face", "neck")
		for _, x := range c.Nodes {
			if x.Name == nm {
				nm = "mesh" + fmt.Sprint(len(c.Meshes)-1)
			}
		}
		c.Nodes = append(c.Nodes, vcNode{Name: nm, Kids: []int{}, Mesh: len(c.Meshes), Shapes: []vcShape{}})
		if g.p(40) {
			k := g.n(n)
			c.Nodes[k].Kids = append(c.Nodes[k].Kids, len(c.Nodes))
		}
	}
	if g.p(15) {
		c.Nodes = append(c.Nodes, vcNode{Name: "", Kids: []int{}, Shapes: []vcShape{}})
	}
	mats := []string{"skin", "服", "m 3"}
	for _, m := range mats[:g.n(4)] {
		c.Mats = append(c.Mats, vcMat{Name: m, Mode: g.pick("opaque", "blend", "mask"), A: []int{-2, -1, 500, 1000}[g.n(4)]})
	}
	all := append([]string{}, names...)
	for _, x := range c.Nodes[n:] {
		if x.Name != "" {
			all = append(all, x.Name)
		}
	}
	c.Conf = g.vcConf(all, morphs, mats, phys)
	switch g.n(6) {
	case 0, 1:
		c.Preset = []vcConf{g.vcConf(all, morphs, mats, false)}
	case 2:
		c.Embed = g.pick("mmd", "mmd_ja", "mmd_en")
	case 3:
		c.Lost = g.p(30)
	}
	return c
}

func init() {
	reg("vrmconfig", &Domain{Run: vcRun, Gen: func(r *rand.Rand, n int) []interface{} {
		res := []interface{}{}
		for i := 0; i < n; i++ {
			g := &gen{r: r, x: milliNum}
			res = append(res, g.vcCase())
		}
		return res
	}})
}
