package main

import "fmt"

// Outlines of planar polygons on a small grid (simple, clockwise or not).
var outlines = [][][2]int{
	{{0, 0}, {1, 0}, {1, 1}, {0, 1}},
	{{0, 0}, {2, 0}, {2, 1}, {0, 2}},
	{{0, 0}, {3, 0}, {1, 1}, {0, 3}}, // arrow head
	{{0, 0}, {1, 1}, {2, 0}, {1, 3}},
	{{0, 0}, {2, 0}, {2, 1}, {1, 1}, {1, 2}, {0, 2}}, // L
	{{0, 0}, {1, -1}, {2, 0}, {2, 2}, {0, 2}},
	{{0, 0}, {3, 0}, {3, 2}, {2, 1}, {1, 1}, {0, 2}}, // U
	{{0, 0}, {1, 0}, {2, 0}, {2, 2}, {0, 2}},         // a corner in the middle of a side
}

type cvOpts struct {
	step    int  // thousandths per grid unit
	bones   bool // with bones and weights
	morphs  bool
	physics bool
	norm    bool // weights of a vertex sum to 100%
	faint   bool // some weights are below one per cent
	badRefs bool // references to missing things
	maxW    int
	depth   bool
}

func (g *gen) cvPos(o cvOpts) []int {
	return []int{(g.n(9) - 4) * o.step, (g.n(9) - 4) * o.step, (g.n(9) - 4) * o.step}
}

func (g *gen) cvFaceInto(ob *cvObj, nm int, o cvOpts) {
	f := cvFace{M: g.n(nm)}
	if g.p(8) {
		f.M = -1
	}
	if g.p(50) || len(ob.Verts) < 3 {
		// a polygon in an axis plane with its own corners
		t := outlines[g.n(len(outlines))]
		ax, off := g.n(3), (g.n(5)-2)*o.step
		rev, start := g.p(50), g.n(len(t))
		for i := range t {
			q := t[(i+start)%len(t)]
			if rev {
				q = t[(len(t)-i+start)%len(t)]
			}
			v := make([]int, 3)
			v[ax], v[(ax+1)%3], v[(ax+2)%3] = off, q[0]*o.step, q[1]*o.step
			ob.Verts = append(ob.Verts, v)
			f.V = append(f.V, len(ob.Verts))
		}
		if g.p(20) { // welded to an existing vertex at the same place
			for i, v := range f.V {
				for j := 0; j < v-1; j++ {
					if fmt.Sprint(ob.Verts[j]) == fmt.Sprint(ob.Verts[v-1]) {
						f.V[i] = j + 1
						break
					}
				}
			}
		}
	} else {
		p := g.r.Perm(len(ob.Verts))
		n := 3
		if g.p(6) {
			n = 2
		}
		for i := 0; i < n; i++ {
			f.V = append(f.V, p[i]+1)
		}
	}
	if g.p(60) {
		for range f.V {
			f.UV = append(f.UV, []int{g.n(3) * 250, g.n(3) * 500})
		}
	}
	if g.p(30) {
		for range f.V {
			n := []int{0, 0, 0}
			n[g.n(3)] = 1000 - 2000*g.n(2)
			if g.p(15) && o.badRefs {
				n = []int{}
			}
			f.N = append(f.N, n)
		}
	}
	ob.Faces = append(ob.Faces, f)
}

func (g *gen) cvDoc(o cvOpts) cvDoc {
	d := cvDoc{}
	nm := 1 + g.n(3)
	for i := 0; i < nm; i++ {
		d.Mats = append(d.Mats, cvMat{Name: fmt.Sprintf("%s%d", g.pick("m", "顔", "mat "), i), Col: []int{g.n(5) * 250, g.n(5) * 250, g.n(5) * 250, 1000 - g.n(3)*250}, Tex: g.pick("", "", "a.png", "tex/b.png"), Dbl: g.p(40), Pow: g.n(20) * 500, Edge: -1})
	}
	no := 1 + g.n(3)
	depth := 0
	for i := 0; i < no; i++ {
		ob := cvObj{Name: fmt.Sprintf("%s%d", g.pick("o", "体", "obj "), i), UID: []int{0, i + 1, 10 + i, 5 - i}[g.n(4)], Vis: g.p(80), Depth: depth}
		if o.depth {
			depth = g.n(depth + 2)
		}
		for k := g.n(5); k > 0; k-- {
			ob.Verts = append(ob.Verts, g.cvPos(o))
		}
		for k := g.n(4); k > 0; k-- {
			g.cvFaceInto(&ob, nm, o)
		}
		if g.p(30) {
			p := g.r.Perm(len(ob.Verts))
			for k := range ob.Verts {
				ob.VIDs = append(ob.VIDs, []int{100 + k, p[k] + 1})
			}
		}
		d.Objs = append(d.Objs, ob)
	}
	// object ids are unique and known
	used := map[int]bool{0: true}
	for i := range d.Objs {
		if used[d.Objs[i].UID] {
			d.Objs[i].UID = 20 + i
		}
		used[d.Objs[i].UID] = true
	}
	ref := map[int]int{} // what bones call an object
	for i := range d.Objs {
		ref[i] = d.Objs[i].UID
	}
	if g.p(25) {
		for i := range d.Objs {
			if !used[i+1] && g.p(50) {
				d.Objs[i].UID, ref[i] = 0, i+1
				used[i+1] = true
			}
		}
	}
	if o.bones && g.p(75) {
		nb := 1 + g.n(5)
		ids := g.r.Perm(nb + 2)
		for i := 0; i < nb; i++ {
			b := cvBone{ID: ids[i] + 1, Name: fmt.Sprintf("%s%d", g.pick("b", "腕", "bone "), i), Pos: g.cvPos(o), Group: g.n(3), Mov: g.n(2)}
			if i > 0 && g.p(70) {
				b.Parent = ids[g.n(i)] + 1
			}
			if o.badRefs && g.p(5) {
				b.Parent = 99
			}
			d.Bones = append(d.Bones, b)
		}
		// children may come before their parents
		if g.p(40) {
			g.r.Shuffle(nb, func(i, j int) { d.Bones[i], d.Bones[j] = d.Bones[j], d.Bones[i] })
		}
		for i := range d.Objs {
			ob := &d.Objs[i]
			if g.p(25) {
				continue
			}
			for v := range ob.Verts {
				id := v + 1
				if len(ob.VIDs) > 0 {
					id = 0
					for _, x := range ob.VIDs {
						if x[1] == v+1 {
							id = x[0]
						}
					}
				}
				if g.p(15) && !o.norm {
					continue
				}
				k := 1 + g.n(o.maxW)
				if k > nb {
					k = nb
				}
				left := 8
				for j, b := range g.r.Perm(nb)[:k] {
					w := 1 + g.n(8)
					if o.faint && g.p(8) { // a faint influence
						d.Bones[b].W = append(d.Bones[b].W, []int{ref[i], id, 5})
						continue
					}
					if o.norm {
						if left == 0 {
							break
						}
						w = 1 + g.n(left)
						if j == k-1 || w > left {
							w = left
						}
						left -= w
					}
					if w > 0 {
						d.Bones[b].W = append(d.Bones[b].W, []int{ref[i], id, w * 125})
					}
				}
			}
		}
		if o.badRefs && g.p(15) {
			d.Bones[0].W = append(d.Bones[0].W, []int{ref[0], 9999, 500}, []int{777, 1, 500})
		}
	}
	if o.morphs && g.p(60) {
		nt := 0
		for i := 0; i < no; i++ {
			base := d.Objs[i]
			if g.p(40) {
				continue
			}
			m := cvMorph{Base: base.Name}
			for k := 1 + g.n(3); k > 0; k-- {
				nt++
				t := cvObj{Name: fmt.Sprintf("%s%d", g.pick("t", "笑い", "face "), nt), UID: 50 + nt, Vis: g.p(20), Depth: base.Depth + 1}
				if !o.depth {
					t.Depth = 0
				}
				for _, v := range base.Verts {
					q := append([]int{}, v...)
					if g.p(40) {
						q[g.n(3)] += (g.n(5) - 2) * o.step
					}
					t.Verts = append(t.Verts, q)
				}
				t.Faces = base.Faces
				m.Targets = append(m.Targets, t.Name)
				if o.badRefs && g.p(5) {
					continue // the shape is missing
				}
				d.Objs = append(d.Objs, t)
			}
			d.Morphs = append(d.Morphs, m)
		}
	}
	if o.physics && g.p(50) {
		for k := 1 + g.n(3); k > 0; k-- {
			b := cvBody{Name: g.pick("rb", "剛体", ""), Mass: g.n(5) * 500, Kin: g.p(50), Group: g.n(16), Mask: g.n(65536), LD: g.n(3) * 500, AD: g.n(3) * 500, Rest: g.n(3) * 500, Fric: g.n(3) * 500}
			if len(d.Bones) > 0 && g.p(80) {
				b.Bone = d.Bones[g.n(len(d.Bones))].ID
			}
			if o.badRefs && g.p(5) {
				b.Bone = 99
			}
			for s := 1 + g.n(4)*g.n(2); s > 0; s-- {
				b.Shapes = append(b.Shapes, cvShape{g.pick("SPHERE", "BOX", "CAPSULE"), []int{g.n(4) * o.step, g.n(4) * o.step, g.n(4) * o.step}, g.cvPos(o), []int{g.n(5) * 250, g.n(5) * 250, g.n(5) * 250}})
			}
			d.Bodies = append(d.Bodies, b)
		}
	}
	return d
}
