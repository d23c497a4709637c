package main

import (
	"encoding/json"
	"math"
	"math/rand"

	"github.com/binzume/modelconv/geom"
)

var angs = [][2]float64{{0, 5}, {3, 4}, {4, 3}, {5, 0}, {4, -3}, {3, -4}, {0, -5}, {-3, -4}, {-4, -3}, {-5, 0}, {-4, 3}, {-3, 4}}

func angOf(i int) float32 { return float32(math.Atan2(angs[i-1][0], angs[i-1][1])) }

// unit projects a number to an integer multiple of 1/u.
func unit(v float32, u float64) int {
	f := float64(v) * u
	if math.IsNaN(f) || f > 2e9 || f < -2e9 {
		return 1999999999
	}
	return int(math.Round(f))
}
func m3(m *geom.Matrix4, u float64) [3][3]int {
	var r [3][3]int
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			r[i][j] = unit(m[j*4+i], u)
		}
	}
	return r
}
func mt(m *geom.Matrix4, u float64) Event {
	return Event{"r": m3(m, u), "t": [3]int{unit(m[12], u), unit(m[13], u), unit(m[14], u)}}
}
func vi(v *geom.Vector3, u float64) [3]int { return [3]int{unit(v.X, u), unit(v.Y, u), unit(v.Z, u)} }

type geoGen struct {
	E   [3]int `json:"e"`
	Ord int    `json:"ord"`
	S   [3]int `json:"s"`
	T   [3]int `json:"t"`
}
type geoCase struct {
	Kind string    `json:"kind"`
	Gens []geoGen  `json:"gens"`
	Vecs [][][]int `json:"vecs"`
}

func (g geoGen) euler() *geom.EulerAngles {
	return geom.NewEuler(angOf(g.E[0]), angOf(g.E[1]), angOf(g.E[2]), geom.RotationOrder(g.Ord))
}
func (g geoGen) trs() *geom.Matrix4 {
	return geom.NewTRSMatrix4(fv(g.T), g.euler().ToQuaternion(), fv(g.S))
}
func fv(a [3]int) *geom.Vector3 {
	return &geom.Vector3{X: float32(a[0]), Y: float32(a[1]), Z: float32(a[2])}
}

func init() {
	reg("geo", &Domain{
		Gen: func(r *rand.Rand, n int) []interface{} {
			var cs []interface{}
			g := &gen{r: r}
			for i := 0; i < n; i++ {
				if i%4 == 0 {
					c := geoCase{Kind: "vec"}
					for k := 0; k < 10; k++ {
						v := func() []int { return []int{g.n(201) - 100, g.n(201) - 100, g.n(201) - 100} }
						c.Vecs = append(c.Vecs, [][]int{v(), v(), {g.n(21) - 10}})
					}
					cs = append(cs, c)
					continue
				}
				c := geoCase{Kind: "chain"}
				for k := 0; k < 2; k++ {
					s := func() int { return []int{1, 1, 2, 3, -1, -2}[g.n(6)] }
					x := geoGen{E: [3]int{1 + g.n(12), 1 + g.n(12), 1 + g.n(12)}, Ord: g.n(4), S: [3]int{s(), s(), s()}, T: [3]int{g.n(11) - 5, g.n(11) - 5, g.n(11) - 5}}
					if g.p(40) {
						x.S[1], x.S[2] = x.S[0], x.S[0]
					}
					c.Gens = append(c.Gens, x)
				}
				cs = append(cs, c)
			}
			return cs
		},
		Run: func(body json.RawMessage, emit func(Event)) {
			var c geoCase
			must(json.Unmarshal(body, &c))
			switch c.Kind {
			case "single":
				g := c.Gens[0]
				q := g.euler().ToQuaternion()
				m := geom.NewRotationMatrix4FromQuaternion(q)
				var re, req [][3][3]int
				var reord []int
				for o := 0; o < 4; o++ {
					e := geom.NewEulerFromMatrix4(m, geom.RotationOrder(o))
					re = append(re, m3(geom.NewRotationMatrix4FromQuaternion(e.ToQuaternion()), 125))
					reord = append(reord, int(e.Order))
					req = append(req, m3(geom.NewRotationMatrix4FromQuaternion(geom.NewEulerFromQuaternion(q, geom.RotationOrder(o)).ToQuaternion()), 125))
				}
				_, dq, _ := m.Decompose()
				emit(Event{"op": "single", "e": g.E, "ord": g.Ord, "m": m3(m, 125), "re": re, "req": req, "reord": reord,
					"inv":   m3(geom.NewRotationMatrix4FromQuaternion(q.Inverse()), 125),
					"norm":  unit(q.Len(), 1000),
					"dec":   m3(geom.NewRotationMatrix4FromQuaternion(dq), 125),
					"apply": [][3]int{vi(q.ApplyTo(&geom.Vector3{X: 1}), 125), vi(q.ApplyTo(&geom.Vector3{Y: 1}), 125), vi(q.ApplyTo(&geom.Vector3{Z: 1}), 125)}})
			case "chain":
				a, b := c.Gens[0], c.Gens[1]
				m1, m2 := a.trs(), b.trs()
				keep1, keep2 := *m1, *m2
				p := m1.Mul(m2)
				t, r, s := m1.Decompose()
				pts := [][3]int{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {2, -3, 5}}
				var img, img2, back [][3]int
				for _, x := range pts {
					img = append(img, vi(m1.ApplyTo(fv(x)), 125))
					img2 = append(img2, vi(m1.ApplyTo(m2.ApplyTo(fv(x))), 15625))
					back = append(back, vi(m1.Inverse().ApplyTo(m1.ApplyTo(fv(x))), 1000))
				}
				cl := m1.Clone()
				cl[3] = 42
				emit(Event{"op": "chain", "g1": a, "g2": b, "m1": mt(m1, 125), "m2": mt(m2, 125), "prod": mt(p, 15625),
					"qprod": m3(geom.NewRotationMatrix4FromQuaternion(a.euler().ToQuaternion().Mul(b.euler().ToQuaternion())), 15625),
					"pts":   pts, "img": img, "img2": img2, "back": back,
					"det": unit(m1.Det(), 1000), "inv": mt(m1.Mul(m1.Inverse()), 1000),
					"tr": m3(m1.Transposed(), 125), "tscale": mt(m1.TranslationScale(3), 125),
					"dec": mt(geom.NewTRSMatrix4(t, r, s), 125), "decs": vi(s, 1000), "dect": vi(t, 1000), "decn": unit(r.Len(), 1000),
					"clone": *m1 == keep1 && *m2 == keep2})
			case "vec":
				for _, v := range c.Vecs {
					a, b := &geom.Vector3{X: float32(v[0][0]), Y: float32(v[0][1]), Z: float32(v[0][2])}, &geom.Vector3{X: float32(v[1][0]), Y: float32(v[1][1]), Z: float32(v[1][2])}
					n := *a
					n.Normalize()
					emit(Event{"op": "vec", "a": v[0], "b": v[1], "k": v[2][0], "add": vi(a.Add(b), 1), "sub": vi(a.Sub(b), 1), "dot": unit(a.Dot(b), 1),
						"cross": vi(a.Cross(b), 1), "scale": vi(a.Scale(float32(v[2][0])), 1), "len2": unit(a.LenSqr(), 1), "norm": vi(&n, 1000)})
				}
			}
		},
	})
}
