package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/unity"
)

type umPoly struct {
	Slot int     `json:"slot"`
	V    [][]int `json:"v"`
}
type umMesh struct {
	Key   string   `json:"key"`
	Kind  string   `json:"kind"`
	Name  string   `json:"name"`
	Ext   string   `json:"ext"`
	Unit  int      `json:"unit"`
	Polys []umPoly `json:"polys"`
}
type umMat struct {
	Key  string `json:"key"`
	File bool   `json:"file"` // is there a material file?
	Odd  int    `json:"odd"`  // how it is written
	Name string `json:"name"`
	Col  []int  `json:"col"`
	Emi  []int  `json:"emi"`
	Tex  string `json:"tex"` // identifier of a texture
	Bump string `json:"bump"`
	// what the document is to call them
	TexName  string `json:"texname"`
	BumpName string `json:"bumpname"`
	Tile     []int  `json:"tile"`
}
type umTex struct {
	G    string `json:"g"`
	Path string `json:"path"`
}
type umCase struct {
	Files  usFiles  `json:"files"`
	Meshes []umMesh `json:"meshes"`
	Mats   []umMat  `json:"mats"`
	Texs   []umTex  `json:"texs"`
	Scale  int      `json:"scale"`
	Phys   bool     `json:"phys"`
	Save   bool     `json:"save"`
}

func (m *umMat) text() string {
	s := "%YAML 1.1\n%TAG !u! tag:unity3d.com,2011:\n"
	if m.Odd%2 == 1 {
		s += "--- !u!114 &-123\nMonoBehaviour:\n  m_ObjectHideFlags: 11\n  m_Name: \n  version: 4\n"
	}
	s += "--- !u!21 &2100000\nMaterial:\n  serializedVersion: 6\n  m_ObjectHideFlags: 0\n  m_Name: " + usStr(m.Name) + "\n  m_Shader: {fileID: 46, guid: 0000000000000000f000000000000000, type: 0}\n  stringTagMap: {}\n  disabledShaderPasses: []\n  m_SavedProperties:\n    serializedVersion: 3\n    m_TexEnvs:\n"
	tex := func(name, g string, tile []int) {
		r := "{fileID: 0}"
		if g != "" {
			r = "{fileID: 2800000, guid: " + usGUID(g) + ", type: 3}"
		}
		s += fmt.Sprintf("    - %s:\n        m_Texture: %s\n        m_Scale: {x: %d, y: %d}\n        m_Offset: {x: 0, y: 0}\n", name, r, tile[0], tile[1])
	}
	if m.Bump != "" || m.Odd%3 == 1 {
		tex("_BumpMap", m.Bump, []int{1, 1})
	}
	tex("_DetailMask", "", []int{5, 5})
	main := m.Tex
	if main == "" && (m.Tile[0] != 1 || m.Tile[1] != 1) {
		main = "gone"
	}
	if main != "" || m.Odd%3 != 2 {
		tex("_MainTex", main, m.Tile)
	}
	s += "    m_Floats:\n    - _Glossiness: 0.5\n    m_Colors:\n"
	col := func(n string, c []int) {
		s += fmt.Sprintf("    - %s: {r: %s, g: %s, b: %s, a: %s}\n", n, usF(c[0]), usF(c[1]), usF(c[2]), usF(c[3]))
	}
	emi := append(append([]int{}, m.Emi...), 1000)
	if m.Odd%3 == 1 {
		col("_EmissionColor", emi)
	}
	if m.Col[0]+m.Col[1]+m.Col[2]+m.Col[3] != 4000 || m.Odd%3 != 2 {
		col("_Color", m.Col)
	}
	if m.Odd%3 != 1 && (m.Emi[0]+m.Emi[1]+m.Emi[2] > 0 || m.Odd%3 == 0) {
		col("_EmissionColor", emi)
	}
	if m.Odd >= 4 {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	return s
}

func umFbx(ms []*umMesh) []byte {
	c := fxScene{Axes: [][]int{{0, 1}, {1, 1}, {2, 1}}, Enc: "7400", Unit: ms[0].Unit}
	for k, m := range ms {
		g := fxGeo{}
		idx := []int{}
		for _, p := range m.Polys {
			f := []int{}
			for _, v := range p.V {
				f = append(f, len(g.Verts))
				g.Verts = append(g.Verts, v)
			}
			g.Polys = append(g.Polys, f)
			idx = append(idx, p.Slot)
		}
		g.Mat = fxLayer{Map: "ByPolygon", Ref: "IndexToDirect", Idx: idx}
		c.Geos = append(c.Geos, g)
		c.Models = append(c.Models, fxModel{Name: m.Name, Kind: "Mesh", T: []int{0, 0, 0}, Pre: []int{0, 0, 0}, R: []int{0, 0, 0}, S: []int{1000, 1000, 1000}, Geo: k + 1})
	}
	return c.encode()
}

type umFace struct {
	M  int     `json:"m"`
	V  [][]int `json:"v"`
	UV [][]int `json:"uv"`
}

func umRun(body json.RawMessage, emit func(Event)) {
	var c umCase
	must(json.Unmarshal(body, &c))
	a := newMemAssets(c.Files)
	for i := range c.Meshes {
		m := &c.Meshes[i]
		if m.Polys == nil {
			m.Polys = []umPoly{}
		}
		if m.Kind != "fbx" {
			continue
		}
		k := strings.Split(m.Key, ":")
		if a.GetAsset(k[0]) != nil {
			continue
		}
		var ms []*umMesh
		recycle := map[string]string{"100000": "//RootNode"}
		for j := range c.Meshes {
			if q := strings.Split(c.Meshes[j].Key, ":"); q[0] == k[0] {
				ms = append(ms, &c.Meshes[j])
				recycle[q[1]] = c.Meshes[j].Name
			}
		}
		a.add(k[0], "Assets/mesh"+fmt.Sprint(i)+m.Ext, umFbx(ms))
		js, _ := json.Marshal(map[string]interface{}{"ModelImporter": map[string]interface{}{"FileIDToRecycleName": recycle}})
		meta := &unity.MetaFile{GUID: k[0]}
		must(json.Unmarshal(js, meta))
		a.meta[k[0]] = meta
	}
	a.add("0000000000000000000000000000dead", "Assets/model.obj", []byte("v 0 0 0\n"))
	src, err := ioutil.TempDir(os.Getenv("HARNESS_SCRATCH"), "um")
	must(err)
	defer os.RemoveAll(src)
	a.src = filepath.Join(src, "Assets")
	texOf := map[string]string{}
	body0 := map[string][]byte{}
	for _, t := range c.Texs {
		data := []byte("picture " + t.G)
		a.add(usGUID(t.G), t.Path, data)
		texOf[t.G] = "saved_textures/" + usGUID(t.G) + "_" + filepath.Base(t.Path)
		body0[texOf[t.G]] = data
	}
	for i := range c.Mats {
		m := &c.Mats[i]
		k := strings.Split(m.Key, ":")
		m.TexName, m.BumpName = texOf[m.Tex], texOf[m.Bump]
		if m.File {
			a.add(k[0], "Assets/"+fmt.Sprint("mat", i)+".mat", []byte(m.text()))
		} else {
			m.Name, m.Col, m.Emi, m.TexName, m.BumpName, m.Tile = k[0], []int{1000, 1000, 1000, 1000}, []int{0, 0, 0}, "", "", []int{1, 1}
			if k[0] == "0000000000000000f000000000000000" {
				m.Name = "UnityDefaultMaterial"
			}
		}
	}
	var plain []Event
	for _, f := range c.Files {
		items := []Event{}
		for _, it := range f.Items {
			switch it.K {
			case "obj":
				items = append(items, Event{"k": it.K, "id": it.ID, "name": it.Name, "tag": it.Tag, "act": it.Act, "pos": it.Pos, "rot": it.Rot, "scl": it.Scl, "comps": it.Comps, "parent": it.Parent, "kids": it.Kids})
			case "inst":
				items = append(items, Event{"k": it.K, "id": it.ID, "src": it.Src, "parent": it.Parent, "mods": it.Mods})
			default:
				items = append(items, Event{"k": it.K, "id": it.ID, "parent": []int{}})
			}
		}
		plain = append(plain, Event{"g": f.G, "items": items})
	}
	desc := Event{"files": plain, "meshes": c.Meshes, "mats": c.Mats, "phys": c.Phys, "save": c.Save}
	s, err := unity.LoadScene(a, "Assets/A.unity")
	if err != nil {
		emit(Event{"op": "convert", "ok": false, "c": desc})
		return
	}
	unit := float64(c.Scale)
	if c.Scale == 0 {
		unit = 1000
	}
	doc, err := converter.NewUnityToMQOConverter(&converter.UnityToMQOOption{SaveTexrure: c.Save, ConvertScale: float32(c.Scale), ConvertPhysics: c.Phys}).Convert(s)
	if err != nil {
		emit(Event{"op": "convert", "ok": false, "c": desc})
		return
	}
	m3 := func(v *mqo.Vector3) []int {
		return []int{milli(float32(float64(v.X) / unit)), milli(float32(float64(v.Y) / unit)), milli(float32(float64(v.Z) / unit))}
	}
	objs := []Event{}
	for _, o := range doc.Objects {
		faces := []umFace{}
		for _, f := range o.Faces {
			q := umFace{M: f.Material, UV: [][]int{}}
			for _, v := range f.Verts {
				q.V = append(q.V, m3(o.Vertexes[v]))
			}
			for _, u := range f.UVs {
				q.UV = append(q.UV, []int{milli(u.X), milli(u.Y)})
			}
			faces = append(faces, q)
		}
		ev := Event{"name": o.Name, "depth": o.Depth, "vis": o.Visible, "uid": o.UID, "faces": faces, "m": umLocal(o, unit), "light": []int{}, "intern": []int{}}
		if l, ok := o.Extra["light"].(map[string]interface{}); ok {
			col := l["color"].([]float32)
			ev["light"] = []interface{}{l["type"], milli(col[0]), milli(col[1]), milli(col[2]), milli(l["intensity"].(float32)), milli(l["range"].(float32))}
		}
		if o.InternalTransform != nil {
			w := make([]int, 16)
			for i := range w {
				w[i] = clamp(milli(float32(float64(o.InternalTransform[i])/unit)), 60000001)
			}
			w[15] = 1
			ev["intern"] = w
		}
		objs = append(objs, ev)
	}
	mats := []Event{}
	for _, m := range doc.Materials {
		if m.EmissionColor == nil {
			m.EmissionColor = &mqo.Vector3{}
		}
		mats = append(mats, Event{"name": m.Name, "col": []int{milli(m.Color.X), milli(m.Color.Y), milli(m.Color.Z), milli(m.Color.W)}, "emi": mv3(m.EmissionColor), "tex": m.Texture, "bump": m.BumpTexture})
	}
	bodies := []Event{}
	if p := mqo.FindPhysicsPlugin(doc); p != nil {
		for _, b := range p.Bodies {
			at := 0
			for i, o := range doc.Objects {
				if o.UID == b.TargetObjID {
					at = i + 1
				}
			}
			shapes := []Event{}
			for _, sh := range b.Shapes {
				shapes = append(shapes, Event{"t": sh.Type, "pos": m3(sh.Position.Vec3()), "size": m3(sh.Size.Vec3()), "rot": mv3(sh.Rotation.Vec3())})
			}
			bodies = append(bodies, Event{"name": b.Name, "obj": at, "mass": milli(b.Mass), "kin": b.Kinematic, "drag": []int{milli(b.LinearDamping), milli(b.AngularDamping)}, "shapes": shapes})
		}
	}
	saved := []string{}
	ents, _ := ioutil.ReadDir(filepath.Join(src, "saved_textures"))
	for _, e := range ents {
		n := "saved_textures/" + e.Name()
		if b, _ := ioutil.ReadFile(filepath.Join(src, n)); string(b) != string(body0[n]) {
			n = "(changed) " + n
		}
		saved = append(saved, n)
	}
	sort.Strings(saved)
	emit(Event{"op": "convert", "ok": true, "c": desc, "objs": objs, "mats": mats, "bodies": bodies, "saved": saved})
}

// umLocal is the place of an object in its parent: T Ry Rx Rz S, in thousandths of unit.
func umLocal(o *mqo.Object, unit float64) []int {
	m := mat4{0: 1, 5: 1, 10: 1, 15: 1}
	if o.Translation != nil {
		m[12], m[13], m[14] = float64(o.Translation.X)/unit, float64(o.Translation.Y)/unit, float64(o.Translation.Z)/unit
	}
	if o.Rotation != nil {
		for _, ax := range []int{1, 0, 2} {
			d := float64([]float32{o.Rotation.X, o.Rotation.Y, o.Rotation.Z}[ax]) * math.Pi / 180
			r := mat4{0: 1, 5: 1, 10: 1, 15: 1}
			i, j := (ax+1)%3, (ax+2)%3
			r[i*4+i], r[i*4+j], r[j*4+i], r[j*4+j] = math.Cos(d), math.Sin(d), -math.Sin(d), math.Cos(d)
			m = m.mul(r)
		}
	}
	if o.Scale != nil {
		m = m.mul(mat4{0: float64(o.Scale.X), 5: float64(o.Scale.Y), 10: float64(o.Scale.Z), 15: 1})
	}
	w := make([]int, 16)
	for i := range w {
		w[i] = clamp(milli(float32(m[i])), 60001)
	}
	w[15] = 1
	return w
}

var umBuiltins = [][2]string{{"10202", "Cube"}, {"10210", "Quad"}, {"10209", "Plane"}, {"10207", "Sphere"}, {"10206", "Cylinder"}, {"10208", "Capsule"}}

func (g *gen) umCase() umCase {
	c := umCase{Phys: g.p(60), Save: g.p(40), Scale: []int{1, 2, 0, 80}[g.n(4)], Texs: []umTex{}, Mats: []umMat{}}
	for _, b := range umBuiltins {
		c.Meshes = append(c.Meshes, umMesh{Key: "0000000000000000e000000000000000:" + b[0], Kind: b[1]})
	}
	for i := 0; i < 2; i++ {
		m := umMesh{Key: usGUID(fmt.Sprint("F", i)) + ":4300000", Kind: "fbx", Name: g.pick("M1", "body", "体"), Ext: g.pick(".fbx", ".fbx", ".FBX"), Unit: []int{100, 10, 200}[g.n(3)]}
		two := g.p(40)
		for k := 1 + g.n(3); k > 0; k-- {
			p := umPoly{V: [][]int{{0, 0, k * 1000}, {1000 * (1 + g.n(3)), 0, k * 1000}, {0, 1000 * (1 + g.n(3)), g.n(4) * 1000}}}
			if two && len(m.Polys) > 0 {
				p.Slot = 1
			}
			m.Polys = append(m.Polys, p)
		}
		c.Meshes = append(c.Meshes, m)
	}
	// another mesh of the first file
	c.Meshes = append(c.Meshes, umMesh{Key: usGUID("F0") + ":4300002", Kind: "fbx", Name: g.pick("M", "second", "体2"), Ext: c.Meshes[6].Ext, Unit: c.Meshes[6].Unit,
		Polys: []umPoly{{V: [][]int{{0, 0, 500}, {1500, 0, 500}, {0, 2500, 500}}}}})
	for i := 0; i < 2; i++ {
		c.Texs = append(c.Texs, umTex{fmt.Sprint("t", i), g.pick("Assets/a.png", "Assets/x/a.png", "Assets/絵 1.tga") + fmt.Sprint("")})
		if i == 1 && c.Texs[0].Path == c.Texs[1].Path {
			c.Texs[1].Path = "Assets/other.png"
		}
	}
	for i := 0; i < 3; i++ {
		m := umMat{Key: usGUID(fmt.Sprint("m", i)) + ":2100000", File: g.p(85), Odd: g.n(6), Name: g.pick("red", "5", "木", "") + fmt.Sprint("m", i), Col: []int{1000, 1000, 1000, 1000}, Emi: []int{0, 0, 0}, Tile: []int{1, 1}}
		if g.p(70) {
			m.Col = []int{g.n(5) * 250, g.n(5) * 250, g.n(5) * 250, g.n(5) * 250}
		}
		if g.p(30) {
			m.Emi = []int{g.n(3) * 500, g.n(3) * 500, g.n(3) * 500}
		}
		m.Tex, m.Bump = g.pick("", "t0", "t1", "gone"), g.pick("", "", "t0", "t1")
		if m.Tex != "" && g.p(50) {
			m.Tile = []int{1 + g.n(3), 1 + g.n(4)}
		}
		c.Mats = append(c.Mats, m)
	}
	c.Mats = append(c.Mats, umMat{Key: "0000000000000000f000000000000000:10303", Tile: []int{1, 1}}, umMat{Key: "", Tile: []int{1, 1}})
	e := &usEnc{stripped: map[string]map[string][]int{}}
	small := g.p(50)
	if small {
		g.usFile(e, "A", 1+g.n(3), false, nil)
		c.Files = usFiles{*e.files.file("A")}
	} else {
		g.usFile(e, "C", 1+g.n(2), true, nil)
		g.usFile(e, "A", 1+g.n(4), false, []string{"C"})
		c.Files = usFiles{*e.files.file("A"), *e.files.file("C")}
	}
	curved := 0
	for i := range c.Files {
		for k := range c.Files[i].Items {
			it := &c.Files[i].Items[k]
			it.Comps = []usComp{}
			if it.K != "obj" {
				keep := []usMod{}
				for _, m := range it.Mods {
					if m.At <= 0 {
						keep = append(keep, m)
					}
				}
				it.Mods = keep
				continue
			}
			if g.p(70) {
				it.Act = 1
			}
			if g.p(75) {
				key := g.pick(c.Meshes[0].Key, c.Meshes[1].Key, c.Meshes[2].Key, c.Meshes[6].Key, c.Meshes[7].Key, c.Meshes[6].Key, c.Meshes[8].Key, "", usGUID("nothing")+":5", "0000000000000000000000000000dead:4300000", "curved")
				if key == "curved" {
					key = c.Meshes[3+g.n(3)].Key
					if curved++; curved > 1 || g.p(70) {
						key = c.Meshes[0].Key
					}
				}
				mr := usComp{T: "MR", Nums: []int{1}, Refs: []string{}}
				if g.p(20) {
					mr.Nums[0] = 0
				}
				for n := 1 + g.n(3); n > 0; n-- {
					mr.Refs = append(mr.Refs, c.Mats[g.n(5)].Key)
				}
				if strings.Contains(key, "e0000") && g.p(10) {
					mr.Refs = []string{}
				}
				// slots of a mesh of one material are not renumbered
				cs := []usComp{{T: "MF", Nums: []int{}, Refs: []string{key}}, mr}
				if g.p(20) {
					cs[0], cs[1] = cs[1], cs[0]
				}
				if g.p(5) {
					cs = cs[:1]
				}
				it.Comps = append(it.Comps, cs...)
			}
			for g.p(40) && len(it.Comps) < 6 {
				q := g.usComp()
				switch q.T {
				case "BX", "SP", "CP", "RB", "LT", "XX", "MB":
					for i, n := range usNums[q.T] {
						if n == "#m_Enabled" {
							q.Nums[i] = 1
						} else if n == "#m_IsTrigger" {
							q.Nums[i] = 0
						} else if strings.HasPrefix(n, "m_Center") {
							q.Nums[i] = (g.n(9) - 4) * 250
						} else if n[0] != '#' {
							q.Nums[i] = g.n(9) * 250
						}
					}
				case "MC":
					q.Nums = []int{1, 0}
					q.Refs[0] = g.pick(c.Meshes[0].Key, c.Meshes[3].Key, c.Meshes[1].Key, "", "-", usGUID("nothing")+":5")
				default:
					continue
				}
				it.Comps = append(it.Comps, q)
			}
		}
	}
	return c
}

func init() {
	reg("unitytomqo", &Domain{Run: umRun, Gen: func(r *rand.Rand, n int) []interface{} {
		res := []interface{}{}
		for i := 0; i < n; i++ {
			g := &gen{r: r, x: milliNum}
			res = append(res, g.umCase())
		}
		return res
	}})
}
