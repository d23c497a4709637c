package main

import (
	"encoding/json"
	"fmt"
	"math/rand"

	"github.com/binzume/modelconv/unity"
)

type usCase struct {
	Files usFiles `json:"files"`
}

func usRun(body json.RawMessage, emit func(Event)) {
	var c usCase
	must(json.Unmarshal(body, &c))
	var plain []Event
	for _, f := range c.Files {
		items := []Event{}
		for _, it := range f.Items {
			switch it.K {
			case "obj":
				items = append(items, Event{"k": it.K, "id": it.ID, "name": it.Name, "tag": it.Tag, "act": it.Act, "pos": it.Pos, "rot": it.Rot, "scl": it.Scl, "comps": it.Comps, "parent": it.Parent, "kids": it.Kids})
			case "inst":
				items = append(items, Event{"k": it.K, "id": it.ID, "src": it.Src, "parent": it.Parent, "mods": it.Mods})
			default:
				items = append(items, Event{"k": it.K, "id": it.ID, "parent": []int{}})
			}
		}
		plain = append(plain, Event{"g": f.G, "items": items})
	}
	emit(Event{"op": "files", "files": plain})
	a := newMemAssets(c.Files)
	if dbg := c.Files.file("dump"); dbg != nil {
		fmt.Println(a.m)
	}
	load := func(g string, how int) {
		var s *unity.Scene
		var err error
		switch how {
		case 0:
			s, err = unity.LoadSceneAsset(a, a.GetAsset(usGUID(g)))
		case 1:
			s, err = unity.LoadScene(a, usPath(g))
		default:
			s, err = unity.LoadScene(a, "")
		}
		ev := Event{"op": "load", "g": g, "ok": err == nil, "tree": []usGot{}}
		if err == nil {
			ev["tree"] = usWalk(s)
		}
		emit(ev)
	}
	for i, f := range c.Files {
		load(f.G, i%2)
	}
	load("A", 2)
}

func (g *gen) usV(n, unit int) []int {
	return []int{(g.n(2*n+1) - n) * unit, (g.n(2*n+1) - n) * unit, (g.n(2*n+1) - n) * unit}
}

func (g *gen) usRefV() string {
	return g.pick("", "0000000000000000e000000000000000:10202", "00aa:4300000", "00bb:-8679921383154817045", "12345678901234567890123456789012:2100000")
}
func (g *gen) usComp() usComp {
	c := usComp{T: g.pick("MF", "MR", "BX", "SP", "CP", "RB", "MB", "LT", "MC", "XX"), Nums: []int{}, Refs: []string{}}
	for _, n := range usNums[c.T] {
		if n[0] == '#' {
			c.Nums = append(c.Nums, g.n(3))
		} else {
			c.Nums = append(c.Nums, g.n(41)*125)
		}
	}
	if c.T == "MR" {
		for k := g.n(3); k > 0; k-- {
			c.Refs = append(c.Refs, g.usRefV())
		}
	} else if usRefName[c.T] != "" {
		c.Refs = append(c.Refs, g.usRefV())
	}
	return c
}
func (g *gen) usName() string {
	return g.pick("Cube", "7", "1.50", "007", "true", "null", "~", "", "あ", "a: b", "it's", "- x", " lead", "1e3", "0x10", "#x", "Cube (1)", "<none>")
}

func (g *gen) usMods(e *usEnc, src string) []usMod {
	mods := []usMod{}
	f := e.files.file(src)
	if f == nil || len(f.Items) == 0 {
		return mods
	}
	keys := g.usKeys(e, src, map[string]bool{})
	if len(keys) == 0 {
		return mods
	}
	// an instance stands for the first root: only objects below it count, others are harmless
	for k := g.n(5); k > 0; k-- {
		key := keys[g.n(len(keys))]
		it := f.item(key[0])
		m := usMod{Key: key}
		if g.p(10) {
			m.F, m.At = "raw", g.n(3)-1
			if m.At == 1 && it != nil && len(it.Comps) == 0 {
				m.At = 0
			}
			m.V = g.pick("m_Materials.Array.data[", "m_Materials.Array.data[-1]", "m_Materials.Array.data[x]", "m_Materials.Array.data[9]", "m_Materials.Array.size", "m_LocalPosition", "m_LocalPosition.q", "m_Children.Array.data[7]", "''", "m_Color.x.y.z", "..", "m_Layer", "m_Center")
			mods = append(mods, m)
			continue
		}
		switch {
		case len(key) > 1 || g.p(50):
			m.At = -1
			m.F = g.pick("pos", "scl", "rot")
			m.I = 1 + g.n(3)
			switch m.F {
			case "pos":
				m.V = (g.n(41) - 20) * 250
			case "scl":
				m.V = []int{1000, 2000, 500, -1000}[g.n(4)]
			default:
				m.I, m.V = 0, []int{g.n(4), g.n(4), g.n(4)}
			}
		case g.p(50) || it == nil || len(it.Comps) == 0:
			m.F = g.pick("name", "tag", "act")
			m.V = g.usName()
			if m.F == "act" {
				m.V = g.n(2)
			}
		default:
			m.At = 1 + g.n(len(it.Comps))
			c := it.Comps[m.At-1]
			if len(c.Refs) > 0 && (len(c.Nums) == 0 || g.p(60)) {
				m.F, m.I, m.V = "ref", 1+g.n(len(c.Refs)), g.usRefV()
			} else if len(c.Nums) > 0 {
				m.F, m.I = "num", 1+g.n(len(c.Nums))
				if usNums[c.T][m.I-1][0] == '#' {
					m.V = g.n(3)
					if g.p(20) {
						m.V = 16777217
					}
				} else {
					m.V = g.n(41) * 125
				}
			} else {
				m.At, m.F, m.V = 0, "name", g.usName()
			}
		}
		mods = append(mods, m)
	}
	return mods
}

// usKeys lists the keys of every object loading src brings (reachable or not).
func (g *gen) usKeys(e *usEnc, src string, up map[string]bool) [][]int {
	f := e.files.file(src)
	if f == nil || up[src] {
		return nil
	}
	up2 := map[string]bool{src: true}
	for k := range up {
		up2[k] = true
	}
	var keys [][]int
	for _, it := range f.Items {
		if it.K == "obj" {
			keys = append(keys, []int{it.ID})
		} else if it.K == "inst" {
			// only what belongs to the first root of the instance
			rk := e.rootKey(it.Src, up2)
			for _, k := range g.usKeys(e, it.Src, up2) {
				if g.usUnder(e, it.Src, rk, k) {
					keys = append(keys, append([]int{it.ID}, k...))
				}
			}
		}
	}
	return keys
}

// usUnder: is k the object rk or below it in file src?
func (g *gen) usUnder(e *usEnc, src string, rk, k []int) bool {
	for n := 0; n < 50; n++ {
		if fmt.Sprint(rk) == fmt.Sprint(k) {
			return true
		}
		p := e.parentOf(src, k)
		if p == nil {
			return false
		}
		k = p
	}
	return false
}

func (e *usEnc) parentOf(src string, k []int) []int {
	f := e.files.file(src)
	if f == nil {
		return nil
	}
	it := f.item(k[0])
	if it == nil {
		return nil
	}
	if len(k) == 1 || it.K == "inst" && fmt.Sprint(k[1:]) == fmt.Sprint(e.rootKey(it.Src, nil)) {
		if len(it.Parent) == 0 {
			return nil
		}
		return it.Parent
	}
	p := e.parentOf(it.Src, k[1:])
	if p == nil {
		return nil
	}
	return append([]int{k[0]}, p...)
}

func (g *gen) usFile(e *usEnc, name string, n int, oneRoot bool, srcs []string) {
	e.files = append(e.files, usFile{G: name, Style: g.n(4), Crlf: g.p(15), Big: g.p(30)})
	f := &e.files[len(e.files)-1]
	for id := 1; id <= n; id++ {
		it := usItem{K: "obj", ID: id, Name: g.usName(), Tag: g.pick("Untagged", "MainCamera", "5"), Act: g.n(2), Pos: g.usV(20, 250), Rot: []int{0, 0, 0}, Scl: []int{1000, 1000, 1000},
			Comps: []usComp{}, Parent: []int{}, Kids: []int{}, Mods: []usMod{}}
		if g.p(60) {
			it.Rot = []int{g.n(4), g.n(4), g.n(4)}
		}
		if g.p(40) {
			for i := range it.Scl {
				it.Scl[i] = []int{1000, 2000, 500, -1000}[g.n(4)]
			}
		}
		for k := g.n(4); k > 0; k-- {
			it.Comps = append(it.Comps, g.usComp())
		}
		if len(srcs) > 0 && g.p(40) {
			it.K = "inst"
			it.Src = srcs[g.n(len(srcs))]
			if g.p(4) {
				it.Src = g.pick("none", name)
			}
			it.Mods = g.usMods(e, it.Src)
		} else if g.p(6) && id > 1 {
			it.K, it.How = "junk", g.pick("null", "syntax", "old", "empty", "bare")
			f.Items = append(f.Items, it)
			continue
		}
		var ps [][]int
		for _, k := range g.usKeys(e, name, map[string]bool{}) {
			ps = append(ps, k)
		}
		if len(ps) > 0 && (oneRoot || g.p(60)) {
			it.Parent = ps[g.n(len(ps))]
			if p := f.item(it.Parent[0]); len(it.Parent) == 1 && p.K == "obj" && (it.K == "obj" || g.p(70)) {
				at := g.n(len(p.Kids) + 1)
				p.Kids = append(p.Kids[:at], append([]int{id}, p.Kids[at:]...)...)
			}
		}
		f.Items = append(f.Items, it)
	}
}

func (g *gen) usFiles() usFiles {
	e := &usEnc{stripped: map[string]map[string][]int{}}
	g.usFile(e, "C", 1+g.n(3), g.p(80), nil)
	g.usFile(e, "B", 1+g.n(4), g.p(80), []string{"C"})
	g.usFile(e, "A", 1+g.n(6), false, []string{"B", "C"})
	fs := usFiles{*e.files.file("A"), *e.files.file("B"), *e.files.file("C")}
	if g.p(50) {
		// the order of objects in a file is free
		for i := range fs {
			if i == 0 {
				g.r.Shuffle(len(fs[i].Items), func(a, b int) { fs[i].Items[a], fs[i].Items[b] = fs[i].Items[b], fs[i].Items[a] })
			}
		}
	}
	return fs
}

func init() {
	reg("unityscene", &Domain{Run: usRun, Gen: func(r *rand.Rand, n int) []interface{} {
		res := []interface{}{}
		for i := 0; i < n; i++ {
			g := &gen{r: r, x: milliNum}
			res = append(res, usCase{g.usFiles()})
		}
		return res
	}})
}
