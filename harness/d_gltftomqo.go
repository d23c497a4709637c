package main

import (
	"encoding/json"
	"math/rand"

	"github.com/binzume/modelconv/converter"
)

type gtmCase struct {
	Gb gbDoc `json:"gb"`
}

func runGltfToMqo(body json.RawMessage, emit func(Event)) {
	var c gtmCase
	must(json.Unmarshal(body, &c))
	b, err := glbBytes(c.Gb.build())
	must(err)
	src, err := glbRead(b)
	must(err)
	ref, err := glbRead(b)
	must(err)
	ev := Event{"op": "convert", "ok": false, "g": glOf(ref, 1000, nil), "doc": []int{}}
	doc, err := converter.NewGLTFToMQOConverter(nil).Convert(src)
	if err == nil {
		ev["ok"], ev["doc"] = true, cvOf(doc)
	}
	emit(ev)
}

func init() {
	reg("gltftomqo", &Domain{Run: runGltfToMqo, Gen: func(r *rand.Rand, n int) []interface{} {
		res := []interface{}{}
		for i := 0; i < n; i++ {
			g := &gen{r: r, x: milliNum}
			d := g.gbDoc(gbOpts{mats: true, skins: true, modes: true, asM: true, scales: true, mirror: true})
			for s := range d.Skins {
				if g.p(50) {
					d.Skins[s].Skel = 1 + g.n(len(d.Nodes))
				}
			}
			res = append(res, gtmCase{d})
		}
		return res
	}})
}
