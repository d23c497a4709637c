package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sync"

	"github.com/binzume/modelconv/converter"
	"golang.org/x/image/bmp"
)

type mtgOpt struct {
	Scale  int  `json:"scale"` // millionths
	Unlit  bool `json:"unlit"`
	Flat   bool `json:"flat"`
	Reuse  bool `json:"reuse"`
	Detect bool `json:"detect"`
	RC     bool `json:"rc"`
	Thr    int  `json:"thr"`
	TS     int  `json:"ts"`
	Lim    int  `json:"lim"`
}
type mtgCase struct {
	Doc cvDoc  `json:"doc"`
	Opt mtgOpt `json:"opt"`
}
type picture struct {
	Name  string  `json:"name"`
	W     int     `json:"w"`
	H     int     `json:"h"`
	Size  int     `json:"size"`
	Raw   bool    `json:"raw"`
	PNG   bool    `json:"png"`
	Clear [][]int `json:"clear"`
}

var (
	picOnce  sync.Once
	picDir   string
	picFiles map[string][]byte
	picList  []picture
)

// pictures stores the textures the cases may refer to.
func pictures() (string, map[string][]byte, []picture) {
	picOnce.Do(func() {
		picDir = scratch()
		picFiles = map[string][]byte{}
		add := func(name string, w, h int, clear ...image.Point) {
			img := image.NewNRGBA(image.Rect(0, 0, w, h))
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					img.SetNRGBA(x, y, color.NRGBA{uint8(x * 30), uint8(y * 30), uint8(len(picList) * 40), 255})
				}
			}
			p := picture{Name: name, W: w, H: h}
			for _, c := range clear {
				img.SetNRGBA(c.X, c.Y, color.NRGBA{0, 0, 0, 0})
				p.Clear = append(p.Clear, []int{c.X, c.Y})
			}
			b := new(bytes.Buffer)
			switch filepath.Ext(name) {
			case ".png":
				p.Raw, p.PNG = true, true
				must(png.Encode(b, img))
			case ".jpg":
				p.Raw = true
				must(jpeg.Encode(b, img, nil))
			default:
				p.PNG = true // stored as png
				must(bmp.Encode(b, img))
			}
			p.Size = b.Len()
			path := filepath.Join(picDir, name)
			must(os.MkdirAll(filepath.Dir(path), 0755))
			must(ioutil.WriteFile(path, b.Bytes(), 0644))
			picFiles[name] = b.Bytes()
			picList = append(picList, p)
		}
		add("a.png", 4, 4)
		add("tex/b.png", 8, 4, image.Pt(6, 2))
		add("c.bmp", 4, 2)
		add("d.png", 2, 2, image.Pt(0, 0), image.Pt(0, 1), image.Pt(1, 0), image.Pt(1, 1))
		add("e.jpg", 16, 8)
		add("f.png", 4, 4, image.Pt(0, 3))
		add("b.png", 4, 2) // another one of that name
	})
	return picDir, picFiles, picList
}

func (o mtgOpt) option() *converter.MQOToGLTFOption {
	return &converter.MQOToGLTFOption{Scale: float32(float64(o.Scale) / 1e6), ForceUnlit: o.Unlit, IgnoreObjectHierarchy: o.Flat, ReuseGeometry: o.Reuse, DetectAlphaTexture: o.Detect,
		TextureReCompress: o.RC, TextureBytesThreshold: int64(o.Thr), TextureScale: unmilli(o.TS), TextureResolutionLimit: o.Lim}
}

func runMqoToGltf(body json.RawMessage, emit func(Event)) {
	var c mtgCase
	must(json.Unmarshal(body, &c))
	if c.Opt.Scale == 0 {
		c.Opt.Scale = 1000
	}
	if c.Opt.TS == 0 {
		c.Opt.TS = 1000
	}
	dir, files, list := pictures()
	src := c.Doc.build()
	ref := c.Doc.build()
	ref.FixObjectID() // identifiers the bones refer to (decided by C21)
	ev := Event{"op": "convert", "ok": false, "doc": cvOf(ref), "opt": c.Opt, "pics": list, "g": []int{}}
	doc, err := converter.NewMQOToGLTFConverter(c.Opt.option()).Convert(src, dir)
	if err == nil {
		var b []byte
		b, err = glbBytes(doc)
		if err == nil {
			doc, err = glbRead(b)
		}
	}
	if err == nil {
		ev["ok"] = true
		ev["g"] = glOf(doc, 1e9/float64(c.Opt.Scale), files)
	}
	emit(ev)
}

var turns = [][][]int{
	{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}},
	{{0, -1, 0}, {1, 0, 0}, {0, 0, 1}},
	{{0, 0, 1}, {0, 1, 0}, {-1, 0, 0}},
	{{0, 1, 0}, {0, 0, 1}, {1, 0, 0}},
	{{-1, 0, 0}, {0, -1, 0}, {0, 0, 1}},
}

func (t cvTRS) apply(v []int) []int {
	res := make([]int, 3)
	for r := range res {
		for c := range v {
			res[r] += t.R[r][c] * v[c] * t.S[c] / 1000
		}
		res[r] += t.T[r]
	}
	return res
}

// instances adds placed copies of the first object.
func (g *gen) instances(d *cvDoc, o cvOpts) {
	src := d.Objs[0]
	if len(src.Verts) == 0 {
		return
	}
	for _, m := range d.Morphs {
		if m.Base == src.Name {
			return
		}
	}
	for _, b := range d.Bones {
		for _, w := range b.W {
			if w[0] == src.UID {
				return
			}
		}
	}
	var objs []cvObj
	for k := 2 + g.n(2); k > 0; k-- {
		t := cvTRS{R: turns[g.n(len(turns))], T: g.cvPos(o), S: []int{1000, 1000, 1000}}
		if g.p(30) {
			s := []int{500, 2000, 4000}[g.n(3)]
			t.S = []int{s, s, s}
		}
		q := src
		q.Name = fmt.Sprintf("inst%d", k)
		q.UID = 80 + k
		q.Depth = g.n(3)
		q.Key = "geo"
		q.Verts, q.Faces = nil, nil
		for _, v := range src.Verts {
			q.Verts = append(q.Verts, t.apply(v))
		}
		rot := cvTRS{R: t.R, T: []int{0, 0, 0}, S: []int{1000, 1000, 1000}}
		for _, f := range src.Faces {
			n := f
			n.N = nil
			for _, x := range f.N {
				if len(x) == 3 {
					x = rot.apply(x)
				}
				n.N = append(n.N, x)
			}
			if g.p(15) {
				n.M = g.n(len(d.Mats)+1) - 1
			}
			q.Faces = append(q.Faces, n)
		}
		q.VIDs = src.VIDs
		q.IT = []cvTRS{t}
		objs = append(objs, q)
	}
	// instead of the original, or beside it
	at := g.n(len(d.Objs) + 1)
	rest := append([]cvObj{}, d.Objs[at:]...)
	d.Objs = append(append(d.Objs[:at:at], objs...), rest...)
}

func (g *gen) gltfDoc() cvDoc {
	o := cvOpts{step: 1000, bones: true, morphs: true, norm: true, faint: true, badRefs: true, maxW: 4, depth: true}
	d := g.cvDoc(o)
	for i := range d.Mats {
		m := &d.Mats[i]
		if g.p(10) {
			m.Name += "$IGNORE"
		}
		if g.p(5) {
			m.Name = "$MORPH:" + m.Name
		}
		m.Tex = g.pick("", "a.png", "tex/b.png", "b.png", "c.bmp", "d.png", "e.jpg", "f.png", "gone.png")
		m.Emi = []int{0, 0, 500, 2000}[g.n(4)]
		if g.p(20) {
			m.EC = []int{g.n(5) * 500, g.n(3) * 500, g.n(3) * 500}
		}
		if m.Col[3] == 750 && g.p(70) {
			m.Col[3] = 1000
		}
		switch g.n(6) {
		case 0:
			m.Shd = "Constant"
		case 1:
			m.Shd, m.Met, m.Rou, m.AM, m.Cut, m.Unl = "glTF", g.n(3)*500, g.n(3)*500, g.n(4), g.n(3)*250, g.p(30)
		case 2:
			m.Shd = "Phong"
		}
	}
	for i := range d.Objs {
		ob := &d.Objs[i]
		if g.p(15) {
			ob.Smth = -1
		}
		if g.p(15) {
			ob.Depth += g.n(3) // depths may be skipped
		}
		for k := range ob.Faces {
			if g.p(10) {
				ob.Faces[k].M = len(d.Mats) + 3
			}
			for j := range ob.Faces[k].UV {
				if g.p(10) {
					ob.Faces[k].UV[j] = []int{(g.n(9) - 4) * 250, (g.n(9) - 4) * 250}
				}
			}
		}
	}
	// unequal totals and more than four bones
	if len(d.Bones) > 0 && g.p(30) {
		for b := range d.Bones {
			for k := range d.Bones[b].W {
				d.Bones[b].W[k][2] /= 2
			}
		}
	}
	if len(d.Bones) >= 5 && g.p(50) {
		for i := range d.Objs {
			ob := &d.Objs[i]
			if len(ob.VIDs) > 0 || ob.UID == 0 {
				continue
			}
			for b := range d.Bones {
				var keep [][]int
				for _, w := range d.Bones[b].W {
					if w[0] != ob.UID {
						keep = append(keep, w)
					}
				}
				d.Bones[b].W = keep
			}
			for v := range ob.Verts {
				for k, b := range g.r.Perm(len(d.Bones)) {
					w := []int{400, 300, 200, 100, 50, 30, 20}
					if k < len(w) {
						d.Bones[b].W = append(d.Bones[b].W, []int{ob.UID, v + 1, w[k]})
					}
				}
			}
		}
	}
	if g.p(25) && len(d.Objs) > 0 {
		g.instances(&d, o)
	}
	return d
}

func (g *gen) gltfOpt() mtgOpt {
	o := mtgOpt{Scale: []int{1000, 1000, 10000, 500000, 1000000}[g.n(5)], Unlit: g.p(15), Flat: g.p(25), Reuse: g.p(60), Detect: g.p(50), RC: g.p(15), TS: 1000}
	if g.p(15) {
		o.Thr = []int{50, 100, 400}[g.n(3)]
	}
	if g.p(20) {
		o.TS = []int{500, 2000, 250}[g.n(3)]
	}
	if g.p(20) {
		o.Lim = []int{2, 4, 8}[g.n(3)]
	}
	return o
}

func init() {
	reg("mqotogltf", &Domain{Run: runMqoToGltf, Gen: func(r *rand.Rand, n int) []interface{} {
		res := []interface{}{}
		for i := 0; i < n; i++ {
			g := &gen{r: r, x: milliNum}
			res = append(res, mtgCase{g.gltfDoc(), g.gltfOpt()})
		}
		return res
	}})
}
