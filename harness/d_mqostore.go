package main

import (
	"encoding/json"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/binzume/modelconv/mqo"
)

type storeOp struct {
	Op   string          `json:"op"`
	Fmt  string          `json:"fmt,omitempty"`
	What string          `json:"what,omitempty"`
	Val  json.RawMessage `json:"val,omitempty"`
	Doc  *JDoc           `json:"doc,omitempty"`
}
type storeCase struct {
	Num  string    `json:"num"`
	Base string    `json:"base"`
	Ops  []storeOp `json:"ops"`
}

func numOf(s string) num {
	if s == "bits" {
		return bitsNum
	}
	return milliNum
}

func scratch() string {
	d, err := ioutil.TempDir(os.Getenv("HARNESS_SCRATCH"), "h")
	if err != nil {
		panic("harness: " + err.Error())
	}
	return d
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func init() {
	reg("mqostore", &Domain{
		Gen: func(r *rand.Rand, n int) []interface{} {
			var cs []interface{}
			for i := 0; i < n; i++ {
				g := &gen{r: r, exact: true}
				c := storeCase{Num: "bits", Base: g.pick("m", "モデル", "a b", "x.y", "UPPER")}
				d := g.doc()
				c.Ops = append(c.Ops, storeOp{Op: "doc", Doc: &d})
				for k := 1 + g.n(2); k > 0; k-- {
					f := g.pick("mqo", "mqoz")
					for s := 1 + g.n(2); s > 0; s-- {
						c.Ops = append(c.Ops, storeOp{Op: "save", Fmt: f})
					}
					c.Ops = append(c.Ops, storeOp{Op: "load", Fmt: f})
				}
				cs = append(cs, c)
			}
			return cs
		},
		Run: func(body json.RawMessage, emit func(Event)) {
			var c storeCase
			must(json.Unmarshal(body, &c))
			x := numOf(c.Num)
			dir := scratch()
			defer os.RemoveAll(dir)
			doc := mqo.NewDocument()
			for _, op := range c.Ops {
				path := filepath.Join(dir, c.Base+"."+op.Fmt)
				switch op.Op {
				case "doc":
					doc = buildDoc(*op.Doc, x)
					emit(Event{"op": "doc", "doc": projDoc(doc, x)})
				case "add":
					j := JDoc{}
					switch op.What {
					case "mats":
						var m JMat
						must(json.Unmarshal(op.Val, &m))
						doc.Materials = append(doc.Materials, buildMat(m))
					case "objs":
						var o JObj
						must(json.Unmarshal(op.Val, &o))
						doc.Objects = append(doc.Objects, buildObj(o, x))
					case "bones":
						var b JBone
						must(json.Unmarshal(op.Val, &b))
						j.Bones = []JBone{b}
						bp := mqo.GetBonePlugin(doc)
						bp.AddBone(mqo.GetBonePlugin(buildDoc(j, x)).Bones()[0])
					case "morphs":
						var m JMorph
						must(json.Unmarshal(op.Val, &m))
						j.Morphs = []JMorph{m}
						mp := mqo.GetMorphPlugin(doc)
						mp.MorphSet.Targets = append(mp.MorphSet.Targets, mqo.GetMorphPlugin(buildDoc(j, x)).Morphs()...)
					case "bodies":
						var b JBody
						must(json.Unmarshal(op.Val, &b))
						j.Bodies = []JBody{b}
						pp := mqo.GetPhysicsPlugin(doc)
						pp.Bodies = append(pp.Bodies, mqo.GetPhysicsPlugin(buildDoc(j, x)).Bodies...)
					}
					emit(Event{"op": "add", "what": op.What, "val": op.Val})
				case "save":
					err := mqo.Save(doc, path)
					emit(Event{"op": "save", "fmt": op.Fmt, "ok": err == nil, "after": projDoc(doc, x)})
				case "load":
					d, err := mqo.Load(path)
					if err != nil || d == nil {
						emit(Event{"op": "load", "fmt": op.Fmt, "ok": false, "doc": JDoc{}})
						continue
					}
					doc = d
					emit(Event{"op": "load", "fmt": op.Fmt, "ok": true, "doc": projDoc(doc, x)})
				}
			}
		},
	})
}

func rmScratch(d string) { os.RemoveAll(d) }
