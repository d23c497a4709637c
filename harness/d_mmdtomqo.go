package main

import (
	"encoding/json"
	"fmt"
	"math/rand"

	"github.com/binzume/modelconv/converter"
)

type mtmCase struct {
	P         PModel   `json:"p"`
	Known     []string `json:"known"`
	Threshold int      `json:"threshold"`
}

func runMmdToMqo(body json.RawMessage, emit func(Event)) {
	var c mtmCase
	must(json.Unmarshal(body, &c))
	src := buildPmx(c.P, nil, milliNum)
	opt := &converter.MMDToMQOOption{KnownBoneNames: c.Known, InheritParentThreshold: unmilli(c.Threshold)}
	doc := converter.NewMMDToMQOConverter(opt).Convert(src)
	emit(Event{"op": "convert", "p": c.P, "known": c.Known, "threshold": c.Threshold, "doc": cvOf(doc), "after": projPmx(src, milliNum)})
}

// convertible makes a random model one a program could have exported: materials cover the faces, morph names are unique.
func (g *gen) convertible() PModel {
	m := g.pmx(0)
	for len(m.Verts) > 0 && g.p(50) {
		m.Faces = append(m.Faces, []int{g.n(len(m.Verts)), g.n(len(m.Verts)), g.n(len(m.Verts))})
	}
	if len(m.Verts) > 0 && g.p(35) {
		g.parts(&m)
	}
	if len(m.Faces) > 0 && len(m.Mats) == 0 {
		m.Mats = []PMat{{Name: "m", Col: []int{500, 500, 500, 1000}, Spec: []int{0, 0, 0}, Amb: []int{0, 0, 0}, EdgeCol: []int{0, 0, 0, 0}, Tex: -1, Env: -1, Toon: -1}}
	}
	left := len(m.Faces)
	for i := range m.Mats {
		n := g.n(left + 1)
		if i == len(m.Mats)-1 {
			n = left
		}
		m.Mats[i].Count = n * 3
		left -= n
	}
	for i := range m.Morphs {
		m.Morphs[i].Name = fmt.Sprintf("%s%d", m.Morphs[i].Name, i)
	}
	for i := range m.Bones {
		if g.p(70) {
			m.Bones[i].Name = fmt.Sprintf("%s%d", m.Bones[i].Name, i)
		}
	}
	for i := range m.Verts {
		m.Verts[i].SD = nil
	}
	return m
}

// parts gives the model several separate parts (loose faces and strips) and morphs that reach across them.
func (g *gen) parts(m *PModel) {
	starts := []int{}
	for k := 2 + g.n(6); k > 0; k-- {
		starts = append(starts, len(m.Verts))
		for i, n := 0, 3+g.n(3); i < n; i++ {
			v := m.Verts[g.n(len(m.Verts))]
			v.Pos = g.v3()
			m.Verts = append(m.Verts, v)
			if i >= 2 {
				b := len(m.Verts)
				m.Faces = append(m.Faces, []int{b - 3, b - 2, b - 1})
			}
		}
	}
	g.r.Shuffle(len(m.Faces), func(i, j int) { m.Faces[i], m.Faces[j] = m.Faces[j], m.Faces[i] })
	for k := 1 + g.n(5); k > 0; k-- {
		o := PMorph{Name: g.mname(), NameEn: g.mname(), Panel: g.n(5), Type: 1}
		for n := 1 + g.n(3); n > 0; n-- {
			o.Vertex = append(o.Vertex, append([]int{starts[g.n(len(starts))] + g.n(3)}, g.v3()...))
		}
		m.Morphs = append(m.Morphs, o)
	}
	if g.p(50) {
		g.r.Shuffle(len(m.Morphs), func(i, j int) { m.Morphs[i], m.Morphs[j] = m.Morphs[j], m.Morphs[i] })
	}
}

func init() {
	reg("mmdtomqo", &Domain{Run: runMmdToMqo, Gen: func(r *rand.Rand, n int) []interface{} {
		res := []interface{}{}
		for i := 0; i < n; i++ {
			g := &gen{r: r, x: milliNum}
			c := mtmCase{P: g.convertible(), Threshold: g.n(3) * 500, Known: []string{}}
			for k := g.n(3); k > 0 && len(c.P.Bones) > 0; k-- {
				c.Known = append(c.Known, c.P.Bones[g.n(len(c.P.Bones))].Name)
			}
			res = append(res, c)
		}
		return res
	}})
}
