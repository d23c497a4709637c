package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/gltfutil"
	"github.com/qmuntal/gltf"
)

type geOp struct {
	K   string `json:"k"` // scale, reset, joints, embed, drop
	F   []int  `json:"f"` // thousandths
	Ext string `json:"ext"`
}
type geCase struct {
	Gb   gbDoc  `json:"gb"`
	Text bool   `json:"text"` // stored as JSON with external buffers
	Ops  []geOp `json:"ops"`
}

func runGltfEdit(body json.RawMessage, emit func(Event)) {
	var c geCase
	must(json.Unmarshal(body, &c))
	dir, files, _ := pictures()
	src := c.Gb.build()
	path := filepath.Join(dir, "case.glb")
	if c.Text || len(src.Buffers) > 1 {
		path = filepath.Join(dir, "case.gltf")
		for i, b := range src.Buffers {
			b.URI = fmt.Sprintf("case%d.bin", i)
		}
		must(gltf.Save(src, path))
	} else {
		must(gltf.SaveBinary(src, path))
	}
	ref, err := gltf.Open(path)
	must(err)
	doc, err := gltfutil.Load(path)
	if err != nil {
		panic("cannot load the file: " + err.Error())
	}
	unit := 1000.0
	emit(Event{"op": "open", "g": glOf(ref, unit, files)})
	embedded := false
	for _, op := range c.Ops {
		rel := []int{1000, 1000, 1000}
		even := true
		switch op.K {
		case "scale":
			f := op.F
			even = f[0] == f[1] && f[1] == f[2]
			gltfutil.ApplyTransform(doc, geom.NewScaleMatrix4(unmilli(f[0]), unmilli(f[1]), unmilli(f[2])))
			if even {
				unit = unit * 1000 / float64(f[0])
			} else {
				rel = f
			}
		case "reset":
			gltfutil.ResetJointMatrix(doc)
		case "joints":
			gltfutil.FixJointComponentType(doc)
		case "drop":
			gltfutil.RemoveExtension(doc, op.Ext)
		case "embed":
			embedded = gltfutil.ToSingleFile(doc, dir) == nil
		}
		emit(Event{"op": op.K, "rel": rel, "even": even, "ext": op.Ext, "g": glOf(doc, unit, files)})
	}
	if embedded {
		out := filepath.Join(dir, "out.glb")
		ev := Event{"op": "save", "ok": false, "g": []int{}}
		if err := gltfutil.SaveBinary(doc, out); err == nil {
			if saved, err := gltf.Open(out); err == nil {
				ev["ok"], ev["g"] = true, glOf(saved, unit, files)
			}
		}
		emit(ev)
	}
}

// gltfEdit is a random file and edits of it.
func (g *gen) gltfEdit() geCase {
	kind := g.n(3) // 0: any tree, one scale; 1: no turns, scales per axis; 2: odd poses
	o := gbOpts{mats: true, skins: true, morphs: true, modes: true, asM: true, scales: kind == 0, small: kind > 0 || g.p(50)}
	d := g.gbDoc(o)
	for i := range d.Nodes {
		if kind == 1 {
			d.Nodes[i].R = []int{0, 0, 0}
		}
		if g.p(20) {
			d.Nodes[i].Ext = g.pick("X_physics", "X_other")
		}
	}
	d.Bufs, d.Sparse, d.Share = 1+g.n(2), g.p(25), g.p(50)
	if kind == 1 {
		w := d.worlds() // the places without turns
		for s := range d.Skins {
			for k, j := range d.Skins[s].Joints {
				if len(d.Skins[s].IBM) > 0 {
					d.Skins[s].IBM[k] = rigidInverse(w[j-1])
				}
			}
		}
	}
	if kind == 2 {
		for s := range d.Skins {
			for k := range d.Skins[s].IBM {
				if g.p(50) {
					m := []int{1000, 0, 0, 0, 0, 1000, 0, 0, 0, 0, 1000, 0, (g.n(5) - 2) * 1000, g.n(3) * 1000, 0, 1000}
					d.Skins[s].IBM[k] = m
				}
			}
		}
	}
	if len(d.Skins) > 1 && g.p(30) {
		d.Skins[1].Joints, d.Skins[1].IBM = d.Skins[0].Joints, d.Skins[0].IBM
		for mi := range d.Meshes {
			for _, p := range d.Meshes[mi].Prims {
				for v := range p.J {
					for k := range p.J[v] {
						p.J[v][k] %= len(d.Skins[0].Joints)
					}
				}
			}
		}
	}
	if g.p(40) {
		for k := 1 + g.n(2); k > 0; k-- {
			a := gbAnim{Node: 1 + g.n(len(d.Nodes)), Path: g.n(3)}
			for t := 1 + g.n(3); t > 0; t-- {
				a.Keys = append(a.Keys, len(a.Keys)*500)
				v := []int{(g.n(5) - 2) * 1000, (g.n(5) - 2) * 1000, (g.n(5) - 2) * 1000}
				if a.Path == 1 {
					v = []int{0, 0, 600, 800}
				}
				a.Vals = append(a.Vals, v)
			}
			d.Anims = append(d.Anims, a)
		}
	}
	c := geCase{Gb: d, Text: g.p(50)}
	axes := false
	for k := 1 + g.n(4); k > 0; k-- {
		switch g.n(6) {
		case 0, 1:
			if kind == 1 && !axes && g.p(70) {
				axes = true // numbers stay small enough
				c.Ops = append(c.Ops, geOp{K: "scale", F: []int{[]int{500, 2000, 3000}[g.n(3)], 1000, []int{1000, 2000}[g.n(2)]}})
			} else {
				f := []int{80000, 10, 2000, 12500, 333}[g.n(5)]
				c.Ops = append(c.Ops, geOp{K: "scale", F: []int{f, f, f}})
			}
		case 2:
			c.Ops = append(c.Ops, geOp{K: "reset"})
		case 3:
			c.Ops = append(c.Ops, geOp{K: "joints"})
		case 4:
			c.Ops = append(c.Ops, geOp{K: "embed"})
		case 5:
			c.Ops = append(c.Ops, geOp{K: "drop", Ext: g.pick("X_physics", "X_other", "X_none")})
		}
	}
	return c
}

func init() {
	reg("gltfedit", &Domain{Run: runGltfEdit, Gen: func(r *rand.Rand, n int) []interface{} {
		res := []interface{}{}
		for i := 0; i < n; i++ {
			g := &gen{r: r, x: milliNum}
			res = append(res, g.gltfEdit())
		}
		return res
	}})
}
