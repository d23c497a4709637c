package main

import (
	"math"
	"math/rand"
)

type gen struct {
	r *rand.Rand
	x num
	// exact: numbers are arbitrary float32 bit patterns
	exact bool
}

func (g *gen) n(k int) int             { return g.r.Intn(k) }
func (g *gen) p(pct int) bool          { return g.r.Intn(100) < pct }
func (g *gen) pick(a ...string) string { return a[g.r.Intn(len(a))] }

// f is an abstract number.
func (g *gen) f() int {
	if !g.exact {
		return (g.r.Intn(41) - 20) * 500
	}
	switch g.r.Intn(6) {
	case 0:
		return bits(float32(g.r.Intn(201) - 100))
	case 1:
		return bits(float32(g.r.Intn(2000001)-1000000) / 1000)
	case 2:
		return bits(float32(g.r.NormFloat64()))
	case 3:
		return bits(float32(g.r.NormFloat64() * math.Pow(10, float64(g.r.Intn(60)-30))))
	case 4:
		return bits([]float32{0, 1, -1, 0.5, 1e-7, -1e-7, 1e21, 3.4e38, 1e-40, 16777217, 123456.789, 1e20}[g.r.Intn(12)])
	}
	for {
		b := int32(g.r.Uint32())
		f := math.Float32frombits(uint32(b))
		if f == f && !math.IsInf(float64(f), 0) {
			return bits(f)
		}
	}
}
func (g *gen) v3() []int { return []int{g.f(), g.f(), g.f()} }
func (g *gen) m3() []int { return []int{g.n(1001), g.n(1001), g.n(1001)} }

var mqoNames = []string{"a", "b", "body", "Material", "Object", "Eof", "頭", "左腕 IK", "x y", "{", "}", "//c", "/*", "n'q", "vertex", "a_2", "a_3", "body_2", "1", "-", "(", ")", "&<>", "材質", ""}

func (g *gen) name() string { return mqoNames[g.n(len(mqoNames))] }
func (g *gen) tex() string {
	return g.pick("", "", "a.png", "tex/b.bmp", "tex\\c.tga", "テクスチャ\\顔.png", "d e.jpg", "..\\x.png")
}
func (g *gen) key() string {
	return g.pick("Alpha", "AlphaMode", "Base", "k1", "k2", "Rough.x", "Metal.y")
}

func (g *gen) params() []JParam {
	ps := []JParam{}
	seen := map[string]bool{}
	for i := g.n(4); i > 0; i-- {
		k := g.key()
		if seen[k] {
			continue
		}
		seen[k] = true
		switch g.n(5) {
		case 0:
			ps = append(ps, JParam{k, "int", []int{g.n(2001) - 1000}, ""})
		case 1:
			ps = append(ps, JParam{k, "float", []int{g.n(4001) - 2000}, ""})
		case 2:
			ps = append(ps, JParam{k, "bool", []int{g.n(2)}, ""})
		case 3:
			ps = append(ps, JParam{k, "color", []int{g.n(1001), g.n(1001), g.n(1001), g.n(1001)}, ""})
		case 4:
			ps = append(ps, JParam{k, "string", []int{}, g.pick("s", "two words", "画像.png", "a/b.png")})
		}
	}
	return ps
}

func sortedParams(ps []JParam) []JParam { return projParams(buildParams(ps)) }

func (g *gen) mat() JMat {
	m := JMat{Name: g.name(), UID: g.n(4) - 1, Shader: g.n(5), Dbl: g.p(50), Col: []int{g.n(1001), g.n(1001), g.n(1001), g.n(1001)},
		Dif: g.n(1001), Amb: g.n(1001), Emi: g.n(1001), Spc: g.n(1001), Pow: g.n(1000) * 10, Tex: g.tex(), Alpha: g.tex(), Bump: g.tex(), EmiCol: []int{}, Ex2: []JEx2{}}
	if g.p(30) {
		m.EmiCol = g.m3()
	}
	if g.p(40) {
		e := JEx2{Type: g.pick("", "hlsl"), Name: g.pick("glTF", "pmd", "PBR x", " p ", ""), Params: sortedParams(g.params()), Maps: []JKV{}, MParams: []JMParam{}}
		if g.p(40) {
			e.Maps = append(e.Maps, JKV{"BaseTex", g.pick("a.png", "テ.png")})
			if g.p(50) {
				e.Maps = append(e.Maps, JKV{"Normal", "n m.png"})
			}
		}
		if g.p(40) {
			e.MParams = append(e.MParams, JMParam{"BaseTex", sortedParams(g.params())})
			if g.p(40) {
				e.MParams = append(e.MParams, JMParam{"Normal", sortedParams(g.params())})
			}
		}
		m.Ex2 = []JEx2{e}
	}
	return m
}

func (g *gen) face(nv, nm int) JFace {
	k := 3
	switch g.n(6) {
	case 0:
		k = 4
	case 1:
		k = 5
	case 2:
		k = 1 + g.n(2)
	}
	f := JFace{M: g.n(nm+2) - 1, UID: g.n(5) - 1, V: []int{}, UV: [][]int{}, N: [][]int{}}
	for i := 0; i < k; i++ {
		f.V = append(f.V, g.n(nv))
	}
	if g.p(60) {
		for i := 0; i < k; i++ {
			f.UV = append(f.UV, []int{g.f(), g.f()})
		}
	}
	if g.p(40) {
		for i := 0; i < k; i++ {
			if g.p(70) {
				f.N = append(f.N, g.v3())
			} else {
				f.N = append(f.N, []int{})
			}
		}
	}
	return f
}

func (g *gen) obj(i, depth, nm int) JObj {
	o := JObj{Name: g.name(), UID: 0, Depth: depth, Fold: g.p(30), Vis: g.p(75), Lock: g.p(30), Shading: g.n(2), Facet: g.n(180) * 500,
		Scale: g.v3(), Rot: g.v3(), Trans: g.v3(), Color: []int{}, Verts: [][]int{}, Faces: []JFace{}, VUIDs: []int{}}
	if g.p(60) {
		o.UID = i + 1 + []int{0, 0, 10, 5000}[g.n(4)]
	}
	if g.p(30) {
		o.Color = g.m3()
	}
	if g.p(30) {
		o.Patch, o.Seg = g.n(4), g.n(5)
	}
	if g.p(30) {
		o.Mirror, o.MDis = g.n(3), g.n(1000)
	}
	nv := g.n(7)
	for k := 0; k < nv; k++ {
		o.Verts = append(o.Verts, g.v3())
	}
	if nv > 0 {
		for k := g.n(5); k > 0; k-- {
			o.Faces = append(o.Faces, g.face(nv, nm))
		}
		if g.p(40) {
			perm := g.r.Perm(nv * 3)
			step := []int{1, 1, 700, 100000}[g.n(4)]
			for k := 0; k < nv; k++ {
				o.VUIDs = append(o.VUIDs, perm[k]*step+1)
			}
		}
	}
	return o
}

func (g *gen) doc() JDoc {
	d := JDoc{}
	if g.p(50) {
		s := JScene{Pos: g.v3(), LookAt: g.v3(), Rot: []int{g.n(7000) - 3500, g.n(7000) - 3500, g.n(7000) - 3500}, Zoom2: g.n(9000), Front: g.n(3) * 500, Back: g.n(3) * 50000, Ortho: g.p(50), Amb: []int{}}
		if g.p(50) {
			s.Amb = g.m3()
		}
		d.Scene = []JScene{s}
	}
	nm := g.n(4)
	for i := 0; i < nm; i++ {
		d.Mats = append(d.Mats, g.mat())
	}
	depth := 0
	for i, k := 0, g.n(5); i < k; i++ {
		d.Objs = append(d.Objs, g.obj(i, depth, nm))
		depth = g.n(depth + 2)
	}
	if g.p(50) {
		for i, k := 0, g.n(5)+1; i < k; i++ {
			b := JBone{ID: i + 1, Name: g.name(), Group: g.n(3), Parent: g.n(i + 1), Pos: g.v3(), Movable: g.n(2), Hide: g.n(2), Dummy: g.n(2), Color: g.pick("", "ff0000"), Up: []int{}, Rotate: []int{}, IK: []JIK{}, W: []JWeight{}}
			if g.p(30) {
				b.Up = g.v3()
			}
			if g.p(30) {
				b.Rotate = g.v3()
			}
			if g.p(30) {
				b.IK = []JIK{{g.n(5), g.name(), g.name()}}
			}
			seen := map[int]bool{}
			for k := g.n(3); k > 0; k-- {
				w := JWeight{O: g.n(12) + 1}
				if seen[w.O] {
					continue
				}
				seen[w.O] = true
				for m := g.n(3) + 1; m > 0; m-- {
					w.V = append(w.V, []int{g.n(9) + 1, g.f()})
				}
				b.W = append(b.W, w)
			}
			d.Bones = append(d.Bones, b)
		}
		d.Limit = g.n(5)
		for k := g.n(3); k > 0; k-- {
			d.Poses = append(d.Poses, JPose{g.n(5), g.name(), g.v3(), g.v3(), g.v3()})
		}
	}
	if g.p(40) {
		for k := g.n(3) + 1; k > 0; k-- {
			m := JMorph{Base: g.name(), Targets: []JTarget{}}
			for t := g.n(3); t > 0; t-- {
				m.Targets = append(m.Targets, JTarget{g.name(), g.n(201) - 100})
			}
			d.Morphs = append(d.Morphs, m)
		}
	}
	if g.p(40) {
		for k := g.n(3) + 1; k > 0; k-- {
			b := JBody{Name: g.name(), Mass: g.f(), Kin: g.p(50), Group: g.n(16), Mask: g.n(65536), Rest: g.f(), Fric: g.f(), LD: g.f(), AD: g.f(), TB: g.n(4), TO: g.n(4), Shapes: []JShape{}}
			for s := g.n(3); s > 0; s-- {
				b.Shapes = append(b.Shapes, JShape{g.pick("BOX", "SPHERE", "CAPSULE", "CYLINDER", "MESH"), g.v3(), g.v3(), g.v3()})
			}
			d.Bodies = append(d.Bodies, b)
		}
		for k := g.n(3); k > 0; k-- {
			d.Joints = append(d.Joints, JJoint{g.pick("", "SPRING6DOF"), g.n(4), g.n(4), g.name(), g.v3(), g.v3(), g.v3(), g.v3()})
		}
	}
	return d
}
