package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strconv"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/fbx"
)

// Abstract FBX scene (thousandths; models, geometries and materials from 1, points from 0).
type fxLayer struct {
	Map  string  `json:"map"` // "": no such layer
	Ref  string  `json:"ref"`
	Vals [][]int `json:"vals"`
	Idx  []int   `json:"idx"`
}
type fxShape struct {
	Name   string  `json:"name"`
	Idx    []int   `json:"idx"`
	D      [][]int `json:"d"`
	Nested bool    `json:"nested"` // stored inside the geometry
}
type fxCluster struct {
	Model int   `json:"model"`
	Idx   []int `json:"idx"`
	W     []int `json:"w"`
}
type fxGeo struct {
	Verts  [][]int     `json:"verts"`
	Polys  [][]int     `json:"polys"`
	UV     fxLayer     `json:"uv"`
	Nrm    fxLayer     `json:"nrm"`
	Mat    fxLayer     `json:"mat"`
	Shapes []fxShape   `json:"shapes"`
	Skin   []fxCluster `json:"skin"`
}
type fxModel struct {
	Name   string `json:"name"`
	Kind   string `json:"kind"`
	Parent int    `json:"parent"`
	T      []int  `json:"t"`
	Pre    []int  `json:"pre"`
	R      []int  `json:"r"`
	S      []int  `json:"s"`
	Geo    int    `json:"geo"`
	Mats   []int  `json:"mats"`
}
type fxTex struct {
	Prop string `json:"prop"`
	File string `json:"file"`
}
type fxMat struct {
	Name string  `json:"name"`
	Col  []int   `json:"col"`
	Inh  bool    `json:"inh"` // the colour comes from the template
	Texs []fxTex `json:"texs"`
}
type fxScene struct {
	Axes   [][]int   `json:"axes"` // right, up, front: axis, sign
	Models []fxModel `json:"models"`
	Geos   []fxGeo   `json:"geos"`
	Mats   []fxMat   `json:"mats"`
	Enc    string    `json:"enc"` // text, 7400, 7500
	Zip    bool      `json:"zip"`
	Mix    int       `json:"mix"` // order of the connections
	Single bool      `json:"single"`
	Unit   int       `json:"-"`
}

func fA(k string, v interface{}) FAttr { return FAttr{K: k, V: v} }
func fN(name string, attrs []FAttr, ch ...FNode) FNode {
	return FNode{N: name, A: attrs, C: ch}
}
func fS(s string) FAttr { return fA("S", s) }
func fI(i int) FAttr    { return fA("I", strconv.Itoa(i)) }
func fD(v float64) FAttr {
	return fA("D", strconv.FormatFloat(v, 'g', -1, 64))
}
func fMil(i int) FAttr { return fD(float64(i) / 1000) }
func fP(name, typ string, vals ...FAttr) FNode {
	return fN("P", append([]FAttr{fS(name), fS(typ), fS(""), fS("A")}, vals...))
}
func (c *fxScene) floats(name string, rows [][]int) FNode {
	l := []string{}
	for _, r := range rows {
		for _, v := range r {
			if c.Single {
				l = append(l, si(int64(bits(unmilli(v)))))
			} else {
				l = append(l, strconv.FormatFloat(float64(v)/1000, 'g', -1, 64))
			}
		}
	}
	k := "d"
	if c.Single {
		k = "f"
	}
	return fN(name, []FAttr{fA(k, l)})
}
func fInts(name string, v []int) FNode {
	l := []string{}
	for _, i := range v {
		l = append(l, strconv.Itoa(i))
	}
	return fN(name, []FAttr{fA("i", l)})
}

type mat4 [16]float64

func (a mat4) mul(b mat4) (r mat4) {
	for c := 0; c < 4; c++ {
		for k := 0; k < 4; k++ {
			for j := 0; j < 4; j++ {
				r[c*4+k] += a[j*4+k] * b[c*4+j]
			}
		}
	}
	return
}
func quarterMat(r []int) mat4 {
	res := mat4{0: 1, 5: 1, 10: 1, 15: 1}
	for ax := 0; ax < 3; ax++ {
		c, s := math.Round(math.Cos(float64(r[ax])*math.Pi/2)), math.Round(math.Sin(float64(r[ax])*math.Pi/2))
		m := mat4{0: 1, 5: 1, 10: 1, 15: 1}
		i, j := (ax+1)%3, (ax+2)%3
		m[i*4+i], m[i*4+j], m[j*4+i], m[j*4+j] = c, s, -s, c
		res = m.mul(res)
	}
	return res
}
func (c *fxScene) world(n int) mat4 {
	if n == 0 {
		return mat4{0: 1, 5: 1, 10: 1, 15: 1}
	}
	m := c.Models[n-1]
	t := mat4{0: 1, 5: 1, 10: 1, 12: float64(m.T[0]) / 1000, 13: float64(m.T[1]) / 1000, 14: float64(m.T[2]) / 1000, 15: 1}
	s := mat4{0: float64(m.S[0]) / 1000, 5: float64(m.S[1]) / 1000, 10: float64(m.S[2]) / 1000, 15: 1}
	return c.world(m.Parent).mul(t).mul(quarterMat(m.Pre)).mul(quarterMat(m.R)).mul(s)
}

const fxTemplateGrey = 750

// encode writes the scene as an FBX file.
func (c *fxScene) encode() []byte {
	var objs, conns []FNode
	next := 1000
	id := func() int { next++; return next }
	con := func(child, parent int, prop string) {
		if prop == "" {
			conns = append(conns, fN("C", []FAttr{fS("OO"), fA("L", strconv.Itoa(child)), fA("L", strconv.Itoa(parent))}))
		} else {
			conns = append(conns, fN("C", []FAttr{fS("OP"), fA("L", strconv.Itoa(child)), fA("L", strconv.Itoa(parent)), fS(prop)}))
		}
	}
	obj := func(cls, name, kind string, oid int, ch ...FNode) {
		objs = append(objs, fN(cls, []FAttr{fA("L", strconv.Itoa(oid)), fA("N", []string{name, map[string]string{"Deformer": "SubDeformer"}[cls] + map[bool]string{true: cls}[cls != "Deformer"]}), fS(kind)}, ch...))
	}
	v3 := func(name string, v []int, scale float64) FNode {
		return fP(name, name, fD(float64(v[0])*scale), fD(float64(v[1])*scale), fD(float64(v[2])*scale))
	}
	mids, gids, tids := make([]int, len(c.Models)+1), make([]int, len(c.Geos)), make([]int, len(c.Mats))
	for i, m := range c.Models {
		mids[i+1] = id()
		ps := []FNode{v3("Lcl Translation", m.T, 0.001)}
		if m.R[0]+m.R[1]+m.R[2] > 0 {
			ps = append(ps, v3("Lcl Rotation", m.R, 90))
		}
		if m.Pre[0]+m.Pre[1]+m.Pre[2] > 0 {
			ps = append(ps, v3("PreRotation", m.Pre, 90))
		}
		if m.S[0] != 1000 || m.S[1] != 1000 || m.S[2] != 1000 {
			ps = append(ps, v3("Lcl Scaling", m.S, 0.001))
		}
		obj("Model", m.Name, m.Kind, mids[i+1], fN("Version", []FAttr{fI(232)}), fN("Properties70", nil, ps...))
	}
	layer := func(name, arr, idx string, y fxLayer) FNode {
		ch := []FNode{fN("Version", []FAttr{fI(101)}), fN("Name", []FAttr{fS("")}), fN("MappingInformationType", []FAttr{fS(y.Map)}), fN("ReferenceInformationType", []FAttr{fS(y.Ref)})}
		if arr != "" {
			ch = append(ch, c.floats(arr, y.Vals))
		}
		if y.Ref == "IndexToDirect" {
			ch = append(ch, fInts(idx, y.Idx))
		}
		return fN(name, []FAttr{fI(0)}, ch...)
	}
	for gi, g := range c.Geos {
		gids[gi] = id()
		pv := []int{}
		for _, p := range g.Polys {
			pv = append(pv, p...)
			pv[len(pv)-1] = ^pv[len(pv)-1]
		}
		ch := []FNode{c.floats("Vertices", g.Verts), fInts("PolygonVertexIndex", pv)}
		if g.Nrm.Map != "" {
			ch = append(ch, layer("LayerElementNormal", "Normals", "NormalsIndex", g.Nrm))
		}
		if g.UV.Map != "" {
			ch = append(ch, layer("LayerElementUV", "UV", "UVIndex", g.UV))
		}
		if g.Mat.Map != "" {
			ch = append(ch, layer("LayerElementMaterial", "", "Materials", g.Mat))
		}
		shape := func(s fxShape) []FNode {
			return []FNode{fInts("Indexes", s.Idx), c.floats("Vertices", s.D)}
		}
		for _, s := range g.Shapes {
			if s.Nested {
				ch = append(ch, fN("Shape", []FAttr{fS(s.Name)}, shape(s)...))
			}
		}
		obj("Geometry", fmt.Sprintf("geo%d", gi), "Mesh", gids[gi], ch...)
		for k, s := range g.Shapes {
			if !s.Nested {
				bs, chn, sh := id(), id(), id()
				obj("Deformer", fmt.Sprintf("bs%d", k), "BlendShape", bs)
				obj("Deformer", s.Name, "BlendShapeChannel", chn)
				obj("Geometry", s.Name, "Shape", sh, shape(s)...)
				con(sh, chn, "")
				con(chn, bs, "")
				con(bs, gids[gi], "")
			}
		}
		if len(g.Skin) > 0 {
			sk := id()
			obj("Deformer", "", "Skin", sk)
			con(sk, gids[gi], "")
			for k, cl := range g.Skin {
				ci := id()
				w := [][]int{{}}
				for _, v := range cl.W {
					w[0] = append(w[0], v)
				}
				link := []string{}
				for _, v := range c.world(cl.Model) {
					link = append(link, strconv.FormatFloat(v, 'g', -1, 64))
				}
				obj("Deformer", fmt.Sprintf("cl%d", k), "Cluster", ci, fInts("Indexes", cl.Idx), c.floats("Weights", w), fN("TransformLink", []FAttr{fA("d", link)}))
				con(mids[cl.Model], ci, "")
				con(ci, sk, "")
			}
		}
	}
	for i, m := range c.Mats {
		tids[i] = id()
		ps := []FNode{fP("Opacity", "double", fMil(m.Col[3]))}
		if !m.Inh {
			ps = append(ps, fP("DiffuseColor", "Color", fMil(m.Col[0]), fMil(m.Col[1]), fMil(m.Col[2])))
		}
		obj("Material", m.Name, "", tids[i], fN("Version", []FAttr{fI(102)}), fN("Properties70", nil, ps...))
		for k, t := range m.Texs {
			ti := id()
			obj("Texture", fmt.Sprintf("t%d", k), "", ti, fN("RelativeFilename", []FAttr{fS(t.File)}))
			con(ti, tids[i], t.Prop)
		}
	}
	for i, m := range c.Models {
		con(mids[i+1], mids[m.Parent], "")
		if m.Geo > 0 {
			con(gids[m.Geo-1], mids[i+1], "")
		}
	}
	// the order of the connections does not matter, except between those of one kind
	r := rand.New(rand.NewSource(int64(c.Mix)))
	if c.Mix > 0 {
		r.Shuffle(len(conns), func(i, j int) {
			if conns[i].A[0].V == "OO" && conns[j].A[0].V == "OO" {
				conns[i], conns[j] = conns[j], conns[i]
			}
		})
	}
	for i, m := range c.Models {
		for _, k := range m.Mats {
			con(tids[k-1], mids[i+1], "")
		}
	}
	ax := func(n string, i int) []FNode {
		return []FNode{fP(n, "int", fI(c.Axes[i][0])), fP(n+"Sign", "int", fI(c.Axes[i][1]))}
	}
	gs := append(append(ax("CoordAxis", 0), ax("UpAxis", 1)...), ax("FrontAxis", 2)...)
	if c.Unit > 0 {
		gs = append(gs, fP("UnitScaleFactor", "double", fD(float64(c.Unit))))
	}
	ver := 7400
	if c.Enc == "7500" {
		ver = 7500
	}
	grey := float64(fxTemplateGrey) / 1000
	root := fN("", nil,
		fN("FBXHeaderExtension", nil, fN("FBXHeaderVersion", []FAttr{fI(1003)}), fN("FBXVersion", []FAttr{fI(ver)})),
		fN("GlobalSettings", nil, fN("Version", []FAttr{fI(1000)}), fN("Properties70", nil, gs...)),
		fN("Definitions", nil, fN("Version", []FAttr{fI(100)}), fN("ObjectType", []FAttr{fS("Model")}, fN("Count", []FAttr{fI(1)})),
			fN("ObjectType", []FAttr{fS("Material")}, fN("Count", []FAttr{fI(1)}), fN("PropertyTemplate", []FAttr{fS("FbxSurfacePhong")}, fN("Properties70", nil, fP("DiffuseColor", "Color", fD(grey), fD(grey), fD(grey)))))),
		fN("Objects", nil, objs...), fN("Connections", nil, conns...))
	if c.Enc == "text" {
		return encodeFbxText(root, "; FBX 7.4.0 project file\n; ----\n\n")
	}
	return encodeFbx(root, uint32(ver), c.Zip)
}

func runFbxToMqo(body json.RawMessage, emit func(Event)) {
	var c fxScene
	must(json.Unmarshal(body, &c))
	src, err := fbx.Parse(bytes.NewReader(c.encode()))
	if err != nil {
		panic("cannot read the scene: " + err.Error())
	}
	ev := Event{"op": "convert", "ok": false, "f": c, "doc": []int{}}
	doc, err := converter.NewFBXToMQOConverter(nil).Convert(src)
	if err == nil {
		ev["ok"], ev["doc"] = true, cvOf(doc)
	}
	emit(ev)
}

// fbxScene is a random scene.
func (g *gen) fbxScene() fxScene {
	c := fxScene{Axes: [][]int{{0, 1}, {1, 1}, {2, 1}}, Enc: g.pick("text", "7400", "7500"), Zip: g.p(50), Mix: g.n(4), Single: g.p(30)}
	if g.p(40) {
		p := g.r.Perm(3)
		for i := range c.Axes {
			c.Axes[i] = []int{p[i], 1 - 2*g.n(2)}
		}
	}
	pos := func() []int { return []int{(g.n(9) - 4) * 1000, (g.n(9) - 4) * 1000, (g.n(9) - 4) * 1000} }
	nm := 1 + g.n(4)
	for i := 0; i < nm; i++ {
		m := fxMat{Name: fmt.Sprintf("%s%d", g.pick("mat", "材質", "m m"), i), Col: []int{g.n(5) * 250, g.n(5) * 250, g.n(5) * 250, g.n(5) * 250}}
		if g.p(25) {
			m.Inh = true
			m.Col = []int{fxTemplateGrey, fxTemplateGrey, fxTemplateGrey, m.Col[3]}
		}
		for _, p := range g.r.Perm(3) {
			if g.p(35) {
				m.Texs = append(m.Texs, fxTex{[]string{"DiffuseColor", "NormalMap", "EmissiveColor"}[p], fmt.Sprintf("tex%d_%d.png", i, p)})
			}
		}
		c.Mats = append(c.Mats, m)
	}
	nn := 1 + g.n(6)
	big := 0
	var bones []int
	for i := 0; i < nn; i++ {
		m := fxModel{Name: fmt.Sprintf("%s%d", g.pick("node", "頭", "a b"), i), Kind: g.pick("Mesh", "Mesh", "Null", "LimbNode"), T: pos(), R: []int{0, 0, 0}, Pre: []int{0, 0, 0}, S: []int{1000, 1000, 1000}}
		if g.p(40) {
			m.R = []int{g.n(4), g.n(4), g.n(4)}
		}
		if g.p(25) {
			m.Pre = []int{g.n(4), g.n(4), g.n(4)}
		}
		if g.p(25) {
			f := 1000
			if big < 2 {
				big++
				f = []int{2000, 500}[g.n(2)]
			}
			m.S = []int{f, f, f}
			if g.p(30) {
				m.S[g.n(3)] = 1000
			}
		}
		if g.p(12) {
			m.S[g.n(3)] *= -1
		}
		if i > 0 && g.p(70) {
			m.Parent = 1 + g.n(i)
		}
		if m.Kind == "LimbNode" {
			bones = append(bones, i+1)
		}
		c.Models = append(c.Models, m)
	}
	ng := 0
	shapeNo := 0
	for i := range c.Models {
		m := &c.Models[i]
		if m.Kind != "Mesh" {
			continue
		}
		for k := 1 + g.n(3); k > 0; k-- {
			m.Mats = append(m.Mats, 1+g.n(nm))
		}
		if ng > 0 && g.p(20) {
			k := 1 + g.n(ng)
			if len(c.Geos[k-1].Shapes) == 0 && fxMaxSlot(&c.Geos[k-1]) < len(m.Mats) {
				m.Geo = k
				continue
			}
		}
		q := fxGeo{}
		for v := 3 + g.n(5); v > 0; v-- {
			q.Verts = append(q.Verts, pos())
		}
		nv := len(q.Verts)
		total := 0
		slant := g.p(30)
		for k := 1 + g.n(3); k > 0; k-- {
			n := 3 + g.n(2)
			if n > nv {
				n = nv
			}
			q.Polys = append(q.Polys, g.r.Perm(nv)[:n])
			total += n
		}
		axis := func() []int {
			n := []int{0, 0, 0}
			n[g.n(3)] = 1000 - 2000*g.n(2)
			if slant && g.p(60) {
				k := g.n(3)
				n[k], n[(k+1)%3], n[(k+2)%3] = 600, 800-1600*g.n(2), 0
			}
			return n
		}
		uv := func() []int { return []int{g.n(5) * 250, g.n(5) * 250} }
		mk := func(val func() []int) fxLayer {
			y := fxLayer{Map: g.pick("ByPolygonVertex", "ByPolygonVertex", "ByControlPoint", "ByVertice"), Ref: g.pick("Direct", "IndexToDirect")}
			n := nv
			if y.Map == "ByPolygonVertex" {
				n = total
			}
			if y.Ref == "Direct" {
				for k := 0; k < n; k++ {
					y.Vals = append(y.Vals, val())
				}
			} else {
				nval := 1 + g.n(n+2)
				for k := 0; k < nval; k++ {
					y.Vals = append(y.Vals, val())
				}
				for k := 0; k < n; k++ {
					y.Idx = append(y.Idx, g.n(nval))
				}
			}
			return y
		}
		if g.p(70) {
			q.UV = mk(uv)
		}
		if g.p(50) {
			q.Nrm = mk(axis)
		}
		if g.p(70) {
			q.Mat = fxLayer{Map: g.pick("ByPolygon", "AllSame"), Ref: "IndexToDirect", Idx: []int{g.n(len(m.Mats))}}
			if q.Mat.Map == "ByPolygon" {
				for len(q.Mat.Idx) < len(q.Polys) {
					q.Mat.Idx = append(q.Mat.Idx, g.n(len(m.Mats)))
				}
			}
		}
		for g.p(35) && len(q.Shapes) < 3 {
			shapeNo++
			s := fxShape{Name: fmt.Sprintf("%s%d", g.pick("smile", "笑"), shapeNo), Nested: g.p(30)}
			for v := range q.Verts {
				if g.p(50) || v == 0 {
					s.Idx = append(s.Idx, v)
					s.D = append(s.D, []int{(g.n(5) - 2) * 1000, (g.n(5) - 2) * 500, g.n(2) * 1000})
				}
			}
			q.Shapes = append(q.Shapes, s)
		}
		for _, b := range bones {
			if g.p(50) {
				cl := fxCluster{Model: b}
				for v := range q.Verts {
					if g.p(60) {
						cl.Idx = append(cl.Idx, v)
						cl.W = append(cl.W, (1+g.n(4))*250)
					}
				}
				if len(cl.Idx) > 0 {
					q.Skin = append(q.Skin, cl)
				}
			}
		}
		c.Geos = append(c.Geos, q)
		ng++
		m.Geo = ng
	}
	return c
}
func fxMaxSlot(q *fxGeo) int {
	r := 0
	for _, i := range q.Mat.Idx {
		if i > r {
			r = i
		}
	}
	return r
}

func init() {
	reg("fbxtomqo", &Domain{Run: runFbxToMqo, Gen: func(r *rand.Rand, n int) []interface{} {
		res := []interface{}{}
		for i := 0; i < n; i++ {
			g := &gen{r: r, x: milliNum}
			res = append(res, g.fbxScene())
		}
		return res
	}})
}
