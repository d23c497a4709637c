package main

import (
	"encoding/json"
	"math"
	"math/rand"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"
)

// embeddings of the plane: origin and two independent integer axes.
var polyEmb = [][3][3]float32{
	{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}},
	{{5, -3, 2}, {0, 1, 0}, {0, 0, 1}},
	{{-7, 1, 100}, {0, 0, -1}, {1, 0, 0}},
	{{1, 2, 3}, {1, 2, -1}, {2, -1, 1}},
	{{0, 0, 0}, {-1, 0, 1}, {0, 3, 0}},
}

type polyCase struct {
	Poly [][2]int `json:"poly"`
}

func runPoly(c polyCase, emit func(Event)) {
	n := len(c.Poly)
	for k, e := range polyEmb {
		at := func(p [2]int) *geom.Vector3 {
			x, y := float32(p[0]), float32(p[1])
			return &geom.Vector3{X: e[0][0] + x*e[1][0] + y*e[2][0], Y: e[0][1] + x*e[1][1] + y*e[2][1], Z: e[0][2] + x*e[1][2] + y*e[2][2]}
		}
		var pts []*geom.Vector3
		o := mqo.NewObject("o")
		f := &mqo.Face{Material: 3}
		for i, p := range c.Poly {
			pts = append(pts, at(p))
			o.Vertexes = append(o.Vertexes, at(p))
			f.Verts = append(f.Verts, i)
			f.UVs = append(f.UVs, geom.Vector2{X: float32(i), Y: float32(-i)})
			f.Normals = append(f.Normals, &geom.Vector3{X: float32(i), Y: 1, Z: float32(i)})
		}
		o.Faces = append(o.Faces, f)
		if k%2 == 0 || n > 6 {
			tris := geom.Triangulate(pts)
			if tris == nil {
				tris = [][3]int{}
			}
			emit(Event{"op": "split", "api": "geom", "emb": k, "poly": c.Poly, "tris": tris})
		}
		if k%2 == 1 || n > 6 {
			o.Triangulate()
			faces := []Event{}
			for _, f := range o.Faces {
				uv, nr := []int{}, []int{}
				for i := range f.UVs {
					if f.UVs[i].Y != -f.UVs[i].X {
						uv = append(uv, -1)
					} else {
						uv = append(uv, int(f.UVs[i].X))
					}
				}
				for _, v := range f.Normals {
					if v == nil || v.Z != v.X || v.Y != 1 {
						nr = append(nr, -1)
					} else {
						nr = append(nr, int(v.X))
					}
				}
				faces = append(faces, Event{"v": f.Verts, "uv": uv, "nrm": nr, "mat": f.Material})
			}
			emit(Event{"op": "split", "api": "mqo", "emb": k, "poly": c.Poly, "faces": faces})
		}
	}
}

func turn(o, a, b [2]int) int {
	return (a[0]-o[0])*(b[1]-o[1]) - (a[1]-o[1])*(b[0]-o[0])
}
func sgn(x int) int {
	if x > 0 {
		return 1
	}
	if x < 0 {
		return -1
	}
	return 0
}
func onSeg(p, a, b [2]int) bool {
	return turn(a, b, p) == 0 && (p[0]-a[0])*(p[0]-b[0])+(p[1]-a[1])*(p[1]-b[1]) <= 0
}
func segsMeet(a, b, c, d [2]int) bool {
	return sgn(turn(a, b, c))*sgn(turn(a, b, d)) < 0 && sgn(turn(c, d, a))*sgn(turn(c, d, b)) < 0 ||
		onSeg(c, a, b) || onSeg(d, a, b) || onSeg(a, c, d) || onSeg(b, c, d)
}

// randPoly draws a random closed path and untangles it (whether the result is
// simple is decided by the specification).
func (g *gen) randPoly() [][2]int {
	n := 4 + g.n(11)
	size := []int{3, 5, 9, 40}[g.n(4)]
	var ps [][2]int
	seen := map[[2]int]bool{}
	if g.p(40) { // star shaped
		type ap struct {
			a float64
			p [2]int
		}
		r := 20 + g.n(80)
		a := 0.0
		for i := 0; i < n; i++ {
			a += 2 * math.Pi / float64(n)
			l := float64(r) * (0.1 + 0.9*g.r.Float64())
			p := [2]int{int(l * math.Cos(a)), int(l * math.Sin(a))}
			if !seen[p] {
				seen[p] = true
				ps = append(ps, p)
			}
		}
	} else {
		for i := 0; i < n; i++ {
			p := [2]int{g.n(size), g.n(size)}
			if !seen[p] {
				seen[p] = true
				ps = append(ps, p)
			}
		}
		for it := 0; it < 200; it++ {
			m := len(ps)
			changed := false
			for i := 0; i < m && !changed; i++ {
				for j := i + 2; j < m && !changed; j++ {
					if i == 0 && j == m-1 {
						continue
					}
					if segsMeet(ps[i], ps[i+1], ps[j], ps[(j+1)%m]) {
						for a, b := i+1, j; a < b; a, b = a+1, b-1 {
							ps[a], ps[b] = ps[b], ps[a]
						}
						changed = true
					}
				}
			}
			if !changed {
				break
			}
		}
	}
	if g.p(50) {
		for a, b := 0, len(ps)-1; a < b; a, b = a+1, b-1 {
			ps[a], ps[b] = ps[b], ps[a]
		}
	}
	if len(ps) == 0 {
		return [][2]int{{0, 0}}
	}
	k := g.n(len(ps))
	return append(append([][2]int{}, ps[k:]...), ps[:k]...)
}

func init() {
	reg("poly", &Domain{
		Gen: func(r *rand.Rand, n int) []interface{} {
			var cs []interface{}
			for i := 0; i < n; i++ {
				g := &gen{r: r}
				cs = append(cs, polyCase{g.randPoly()})
			}
			return cs
		},
		Run: func(body json.RawMessage, emit func(Event)) {
			var c polyCase
			must(json.Unmarshal(body, &c))
			runPoly(c, emit)
		},
	})
}
