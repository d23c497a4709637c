package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/binzume/modelconv/unity"
)

// Unity packages and project folders (C11).

type uaName struct {
	ID   string `json:"id"`
	Name string `json:"name"`
}
type uaEntry struct {
	T     string   `json:"t"`
	Parts []string `json:"parts"`
	Data  []string `json:"data"`
	GUID  string   `json:"guid"`
	Names []uaName `json:"names"`
}
type uaSource struct {
	Kind    string    `json:"kind"`
	Entries []uaEntry `json:"entries"`
	Fault   string    `json:"fault"`
	Num     int       `json:"num"`
	Den     int       `json:"den"`
}
type uaOp struct {
	Op string `json:"op"`
	S  int    `json:"s"` // open: source; others: session
}
type uaCase struct {
	Sources []uaSource `json:"sources"`
	Ops     []uaOp     `json:"ops"`
	Hist    []string   `json:"hist"`
}

var uaGuids = []string{"A", "B", "0000000000000000f000000000000000", "12345678901234567890123456789012", "1e345678901234567890123456789012", "absent", ""}
var uaPaths = []string{"Assets/p1", "Assets/p2", "Assets/dir name/あ.png", "Assets/dir name", "Assets/sub/p1", "Assets/absent", "up", "p1", ""}
var uaIDs = []string{"100000", "4300002", "-8679921383154817045"}

func (e uaEntry) bytes() []byte {
	if e.T == "meta" || e.T == "badmeta" {
		s := "fileFormatVersion: 2\n"
		if e.GUID != "" {
			s += "guid: " + e.GUID + "\n"
		}
		if len(e.Names) > 0 {
			s += "ModelImporter:\n  serializedVersion: 18\n  fileIDToRecycleName:\n"
			for _, n := range e.Names {
				if n.Name != "" {
					s += "    " + n.ID + ": " + n.Name + "\n"
				}
			}
		}
		if e.T == "badmeta" {
			s += "\t: [\n"
		}
		return []byte(s)
	}
	return []byte(strings.Join(e.Data, "\n"))
}

func (s uaSource) pack(root string) []byte {
	var buf bytes.Buffer
	tw := tar.NewWriter(&buf)
	for _, e := range s.Entries {
		parts := append([]string{}, e.Parts...)
		if parts[0] == "" {
			parts[0] = filepath.Join(root, "abs")
		}
		name := strings.Join(parts, "/")
		h := &tar.Header{Name: name, Mode: 0644, Typeflag: tar.TypeReg}
		var data []byte
		switch e.T {
		case "dir":
			h.Typeflag, h.Name, h.Mode = tar.TypeDir, name+"/", 0755
		case "link":
			h.Typeflag, h.Linkname = tar.TypeSymlink, e.Data[0]
		case "hard":
			h.Typeflag, h.Linkname = tar.TypeLink, e.Data[0]
		default:
			data = e.bytes()
			h.Size = int64(len(data))
		}
		must(tw.WriteHeader(h))
		_, err := tw.Write(data)
		must(err)
	}
	must(tw.Close())
	if s.Fault == "plain" {
		return buf.Bytes()
	}
	var z bytes.Buffer
	gw := gzip.NewWriter(&z)
	gw.Write(buf.Bytes())
	must(gw.Close())
	b := z.Bytes()
	if s.Fault == "cut" {
		b = b[:len(b)*s.Num/s.Den]
	}
	return b
}

func uaSnapshot(root, tmp string) map[string]string {
	m := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		must(err)
		if strings.HasPrefix(p, tmp+"/") {
			return nil
		}
		if fi.Mode().IsRegular() {
			b, err := ioutil.ReadFile(p)
			must(err)
			m[p] = hash(b)
		} else {
			m[p] = fi.Mode().Type().String()
		}
		return nil
	})
	return m
}

func uaRun(body json.RawMessage, emit func(Event)) {
	var c uaCase
	must(json.Unmarshal(body, &c))
	if len(c.Hist) > 0 {
		n := 0
		for _, h := range c.Hist {
			s := n
			if h == "open" {
				n++
				s = 1
			}
			c.Ops = append(c.Ops, uaOp{h, s})
		}
	}
	root := scratch()
	defer os.RemoveAll(root)
	tmp := filepath.Join(root, "a", "b", "c", "tmp")
	must(os.MkdirAll(tmp, 0755))
	old := os.Getenv("TMPDIR")
	os.Setenv("TMPDIR", tmp)
	defer os.Setenv("TMPDIR", old)

	paths := make([]string, len(c.Sources))
	limits := make([]int, len(c.Sources))
	for i, s := range c.Sources {
		for j := range s.Entries {
			if s.Entries[j].T == "meta" && len(s.Entries[j].Names) == 0 {
				for _, id := range uaIDs {
					s.Entries[j].Names = append(s.Entries[j].Names, uaName{id, ""})
				}
			}
		}
		p := filepath.Join(root, "a", fmt.Sprintf("src%d", i))
		switch s.Kind {
		case "package":
			p += ".unitypackage"
			if s.Fault != "missing" {
				must(ioutil.WriteFile(p, s.pack(root), 0644))
			}
			big := 0
			for _, e := range s.Entries {
				if n := len(e.bytes()); n > big {
					big = n
				}
			}
			limits[i] = big * s.Num / s.Den
		default:
			must(os.MkdirAll(p, 0755))
			if s.Kind == "project" {
				must(os.MkdirAll(filepath.Join(p, "Assets"), 0755))
			}
			if s.Fault == "missing" {
				p = filepath.Join(p, "nowhere")
			}
			for _, e := range s.Entries {
				q := filepath.Join(append([]string{p}, e.Parts...)...)
				if !strings.HasPrefix(q, root) {
					panic("harness: entry outside the scratch folder")
				}
				if s.Fault == "missing" {
					continue
				}
				if e.T == "dir" {
					must(os.MkdirAll(q, 0755))
					continue
				}
				if s.Kind == "project" && (e.T == "meta" || e.T == "badmeta") {
					q += ".meta"
				}
				must(os.MkdirAll(filepath.Dir(q), 0755))
				must(ioutil.WriteFile(q, e.bytes(), 0644))
			}
		}
		paths[i] = p
	}
	emit(Event{"op": "sources", "sources": c.Sources})
	before := uaSnapshot(root, tmp)
	disk := func(ev Event) Event {
		now := uaSnapshot(root, tmp)
		var stray []string
		for k, v := range now {
			if before[k] != v {
				stray = append(stray, strings.TrimPrefix(k, root))
			}
		}
		for k := range before {
			if _, ok := now[k]; !ok {
				stray = append(stray, strings.TrimPrefix(k, root))
			}
		}
		sort.Strings(stray)
		left, err := ioutil.ReadDir(tmp)
		must(err)
		ev["stray"], ev["tmp"] = stray, len(left)
		return ev
	}
	type session struct {
		a      unity.Assets
		src    int
		open   bool
		closed bool
	}
	var sess []session
	for _, op := range c.Ops {
		switch op.Op {
		case "open":
			s := c.Sources[op.S-1]
			var a unity.Assets
			var err error
			open := func() {
				switch s.Kind {
				case "project":
					if op.S%2 == 0 {
						a, err = unity.OpenAssets(filepath.Join(paths[op.S-1], "Assets"))
					} else {
						a, err = unity.OpenProject(paths[op.S-1])
					}
				default:
					a, err = unity.OpenPackage(paths[op.S-1])
				}
			}
			if s.Fault == "limit" {
				withLimit(limits[op.S-1], open)
			} else {
				open()
			}
			sess = append(sess, session{a: a, src: op.S - 1, open: err == nil})
			emit(disk(Event{"op": "open", "s": op.S, "n": len(sess), "ok": err == nil}))
		case "close":
			if op.S < 1 || op.S > len(sess) || sess[op.S-1].a == nil || !sess[op.S-1].open {
				continue
			}
			err := sess[op.S-1].a.Close()
			sess[op.S-1].closed = true
			emit(disk(Event{"op": "close", "n": op.S, "ok": err == nil}))
		case "look":
			if op.S < 1 || op.S > len(sess) || !sess[op.S-1].open || sess[op.S-1].closed {
				continue
			}
			emit(disk(uaLook(sess[op.S-1].a, op.S, paths[sess[op.S-1].src], c.Sources[sess[op.S-1].src].Kind)))
		}
	}
	for i, s := range sess {
		if s.open && !s.closed {
			err := s.a.Close()
			emit(disk(Event{"op": "close", "n": i + 1, "ok": err == nil}))
		}
	}
}

func uaLook(a unity.Assets, n int, src, kind string) Event {
	guids, ps, all := []Event{}, []Event{}, []Event{}
	for _, g := range uaGuids {
		x := a.GetAsset(g)
		r := Event{"g": g, "found": x != nil, "guid": "", "path": "", "metaOk": false, "metaGuid": "", "names": []uaName{}}
		if x != nil {
			r["guid"], r["path"] = x.GUID, filepath.ToSlash(x.Path)
			if m, err := a.GetMetaFile(x); err == nil && m != nil {
				names := []uaName{}
				for _, id := range uaIDs {
					k, _ := strconv.ParseInt(id, 10, 64)
					names = append(names, uaName{id, m.GetRecycleNameByFileID(k)})
				}
				r["metaOk"], r["metaGuid"], r["names"] = true, m.GUID, names
			}
		}
		guids = append(guids, r)
	}
	for _, p := range uaPaths {
		x := a.GetAssetByPath(p)
		r := Event{"p": p, "found": x != nil, "guid": "", "opened": false, "data": []string{}}
		if x != nil {
			r["guid"] = x.GUID
		}
		if f, err := a.Open(p); err == nil {
			if b, err := ioutil.ReadAll(f); err == nil {
				r["opened"], r["data"] = true, strings.Split(string(b), "\n")
			}
			f.Close()
		}
		ps = append(ps, r)
	}
	for _, x := range a.GetAllAssets() {
		all = append(all, Event{"g": x.GUID, "p": filepath.ToSlash(x.Path)})
	}
	want := src
	if kind == "project" {
		want = filepath.Join(src, "Assets")
	}
	return Event{"op": "look", "n": n, "guids": guids, "paths": ps, "all": all, "source": filepath.Clean(a.GetSourcePath()) == filepath.Clean(want)}
}

func (g *gen) uaNames() (ns []uaName) {
	for _, id := range uaIDs {
		ns = append(ns, uaName{id, g.pick("", "body", "head_2", "name with space")})
	}
	return
}

func (g *gen) uaContent() []string {
	switch g.n(5) {
	case 0:
		return []string{""}
	case 1:
		return []string{strings.Repeat("x", 1+g.n(5000))}
	}
	d := []string{}
	for k := 1 + g.n(3); k > 0; k-- {
		d = append(d, g.pick("one", "two", "", "あ", strconv.Itoa(g.n(1000000))))
	}
	return d
}

func (g *gen) uaSource() uaSource {
	s := uaSource{Kind: g.pick("package", "package", "dir", "project"), Fault: "none", Num: g.n(9), Den: 8}
	used := g.r.Perm(5)[:1+g.n(4)]
	pp := g.r.Perm(3)
	if s.Kind == "project" {
		for i, gi := range used {
			if i >= 3 {
				break
			}
			parts := strings.Split([]string{"Assets/p1", "Assets/dir name/あ.png", "Assets/sub/p1"}[pp[i]], "/")
			if g.p(80) {
				s.Entries = append(s.Entries, uaEntry{T: "file", Parts: parts, Data: g.uaContent(), Names: []uaName{}})
			}
			t, id := "meta", uaGuids[gi]
			if g.p(10) {
				t = "badmeta"
			} else if g.p(10) {
				id = ""
			}
			if g.p(90) {
				s.Entries = append(s.Entries, uaEntry{T: t, Parts: parts, Data: []string{}, GUID: id, Names: g.uaNames()})
			}
		}
		if g.p(30) {
			s.Entries = append(s.Entries, uaEntry{T: "dir", Parts: []string{"Assets", "dir name"}, Data: []string{}, Names: []uaName{}},
				uaEntry{T: "meta", Parts: []string{"Assets", "dir name"}, Data: []string{}, GUID: uaGuids[(used[0]+1)%5] + "dir", Names: g.uaNames()})
		}
		if g.p(10) {
			s.Fault = "missing"
		}
		if g.p(50) {
			g.r.Shuffle(len(s.Entries), func(i, j int) { s.Entries[i], s.Entries[j] = s.Entries[j], s.Entries[i] })
		}
		return s
	}
	add := func(t string, data []string, guid string, parts ...string) {
		if s.Kind == "package" && g.p(15) {
			parts = append([]string{"."}, parts...)
		}
		s.Entries = append(s.Entries, uaEntry{T: t, Parts: parts, Data: data, GUID: guid, Names: g.uaNames()})
	}
	for i, gi := range used {
		id := uaGuids[gi]
		path := uaPaths[g.n(5)]
		if g.p(70) {
			path = uaPaths[i%5]
		}
		dirAt := g.n(3)
		if dirAt == 0 {
			add("dir", []string{}, "", id)
		}
		if g.p(85) {
			add("file", g.uaContent(), "", id, "asset")
		}
		if g.p(85) {
			add("meta", []string{}, id, id, "asset.meta")
		}
		if dirAt == 1 {
			add("dir", []string{}, "", id)
		}
		if g.p(90) {
			d := []string{path}
			if g.p(25) {
				d = append(d, "00")
			} else if g.p(10) {
				d = append(d, "")
			}
			add("file", d, "", id, "pathname")
		}
		if g.p(20) {
			add("file", g.uaContent(), "", id, "preview.png")
		}
		if s.Kind == "package" && g.p(15) {
			add("file", g.uaContent(), "", id, "asset")
		}
	}
	if s.Kind == "dir" {
		return s
	}
	if g.p(20) {
		g.r.Shuffle(len(s.Entries), func(i, j int) { s.Entries[i], s.Entries[j] = s.Entries[j], s.Entries[i] })
	}
	if g.p(10) {
		add("file", []string{"icon"}, "", ".icon.png")
	}
	if g.p(25) {
		for k := 1 + g.n(2); k > 0; k-- {
			var e uaEntry
			switch g.n(6) {
			case 0:
				e = uaEntry{T: "file", Parts: append(strings.Split(strings.Repeat("../", 1+g.n(3)), "/")[:1+g.n(1)], "up")}
			case 1:
				e = uaEntry{T: "file", Parts: []string{"A", "..", "..", g.pick("..", "."), "up2"}}
			case 2:
				e = uaEntry{T: "file", Parts: []string{"", "x"}}
			case 3:
				e = uaEntry{T: "dir", Parts: []string{"..", "updir"}}
			case 4:
				e = uaEntry{T: "link", Parts: []string{"L"}, Data: []string{g.pick("..", "../..")}}
				s.Entries = append(s.Entries, uaEntry{T: "file", Parts: []string{"L", "asset"}, Data: []string{"x"}, Names: []uaName{}})
			default:
				e = uaEntry{T: "hard", Parts: []string{"H", "asset"}, Data: []string{"../../src0.unitypackage"}}
			}
			if len(e.Data) == 0 {
				e.Data = []string{"evil"}
			}
			e.Names = []uaName{}
			at := g.n(len(s.Entries) + 1)
			if e.T == "link" {
				at = 0
			}
			s.Entries = append(s.Entries[:at], append([]uaEntry{e}, s.Entries[at:]...)...)
		}
	}
	if g.p(30) {
		s.Fault = g.pick("cut", "cut", "limit", "limit", "missing", "plain")
	}
	if s.Fault == "cut" && g.p(40) {
		s.Num, s.Den = 996+g.n(5), 1000
	}
	return s
}

func (g *gen) uaCase() uaCase {
	c := uaCase{}
	for k := 1 + g.n(2); k > 0; k-- {
		c.Sources = append(c.Sources, g.uaSource())
	}
	n := 0
	for k := 2 + g.n(7); k > 0; k-- {
		if n == 0 || g.p(25) {
			n++
			c.Ops = append(c.Ops, uaOp{"open", 1 + g.n(len(c.Sources))})
		} else {
			c.Ops = append(c.Ops, uaOp{g.pick("look", "look", "close"), 1 + g.n(n)})
		}
	}
	return c
}

func init() {
	reg("unityassets", &Domain{
		Gen: func(r *rand.Rand, n int) []interface{} {
			g := &gen{r: r}
			var cs []interface{}
			for i := 0; i < n; i++ {
				cs = append(cs, g.uaCase())
			}
			return cs
		},
		Run: uaRun,
	})
}
