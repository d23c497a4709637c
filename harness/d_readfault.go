package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/gltfutil"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/vrm"
	"github.com/qmuntal/gltf"
)

// faultyReader delivers data up to at, then ends or fails.
type faultyReader struct {
	data []byte
	pos  int
	err  error
}

func (f *faultyReader) Read(p []byte) (int, error) {
	if f.pos >= len(f.data) {
		return 0, f.err
	}
	n := copy(p, f.data[f.pos:])
	f.pos += n
	return n, nil
}

func digestOf(v interface{}) string {
	b, err := json.Marshal(v)
	must(err)
	return hash(b)
}

type readEnd struct {
	At     int    `json:"at"`
	Digest string `json:"digest"`
}

// readTarget is one file: its bytes, how to read a (damaged) variant of it.
type readTarget struct {
	data []byte
	read func(data []byte, r io.Reader) (interface{}, error)
	path bool // only whole files can be given
	open bool
	ends []readEnd
}

func gltfDigest(d *gltf.Document) interface{} {
	var bufs []string
	for _, b := range d.Buffers {
		bufs = append(bufs, hash(b.Data))
	}
	return []interface{}{d, bufs}
}

func fbxDigest(d *fbx.Document) interface{} {
	return []interface{}{obsNode(d.RawNode), graphOf(d, []string{})}
}

var readTargets = []struct {
	name string
	mk   func(g *gen) *readTarget
}{
	{"pmx", func(g *gen) *readTarget {
		ext := g.n(5)
		m := g.pmx(ext)
		info := []int{g.n(2), ext, g.width(), g.width(), g.width(), g.width(), g.width(), g.width()}
		return &readTarget{data: encodePmx(m, info, g.n(3), bitsNum), read: func(_ []byte, r io.Reader) (interface{}, error) {
			d, err := mmd.Parse(r)
			if err != nil {
				return nil, err
			}
			return projPmx(d, bitsNum), nil
		}}
	}},
	{"pmd", func(g *gen) *readTarget {
		return &readTarget{data: encodePmd(g.pmd(), bitsNum), read: func(_ []byte, r io.Reader) (interface{}, error) {
			d, err := mmd.Parse(r)
			if err != nil {
				return nil, err
			}
			return projPmx(d, bitsNum), nil
		}}
	}},
	{"vmd", func(g *gen) *readTarget {
		return &readTarget{data: encodeVmd(g.vmd(), bitsNum), read: func(_ []byte, r io.Reader) (interface{}, error) {
			a, err := mmd.NewVMDParser(r).Parse()
			if err != nil {
				return nil, err
			}
			return projVmd(a, bitsNum), nil
		}}
	}},
	{"mqo", func(g *gen) *readTarget {
		var b bytes.Buffer
		if g.p(50) {
			must(mqo.NewWriter("").WriteMQO(buildDoc(g.doc(), bitsNum), &b))
		} else {
			must(mqo.NewWriter("").WriteMQO(simpleDoc(g), &b))
		}
		return &readTarget{data: b.Bytes(), read: func(_ []byte, r io.Reader) (interface{}, error) {
			d, err := mqo.NewParser(r, "").Parse()
			if err != nil {
				return nil, err
			}
			return projDoc(d, bitsNum), nil
		}}
	}},
	{"mqx", func(g *gen) *readTarget {
		doc := buildDoc(g.doc(), bitsNum)
		mqo.GetBonePlugin(doc)
		var main, side bytes.Buffer
		wr := mqo.NewWriter("x.mqo")
		wr.Create = func(string) (io.WriteCloser, error) {
			return struct {
				io.Writer
				io.Closer
			}{&side, ioutil.NopCloser(nil)}, nil
		}
		must(wr.WriteMQO(doc, &main))
		return &readTarget{data: side.Bytes(), read: func(_ []byte, r io.Reader) (interface{}, error) {
			p := mqo.NewParser(bytes.NewReader(main.Bytes()), "x.mqo")
			p.Open = func(string) (io.ReadCloser, error) { return ioutil.NopCloser(r), nil }
			d, err := p.Parse()
			if err != nil {
				return nil, err
			}
			return projDoc(d, bitsNum), nil
		}}
	}},
	{"mqoz", func(g *gen) *readTarget {
		dir := scratch()
		defer rmScratch(dir)
		p := filepath.Join(dir, "a.mqoz")
		must(mqo.Save(simpleDoc(g), p))
		b, err := ioutil.ReadFile(p)
		must(err)
		return &readTarget{data: b, path: true, read: func(data []byte, _ io.Reader) (interface{}, error) {
			dir := scratch()
			defer rmScratch(dir)
			p := filepath.Join(dir, "a.mqoz")
			must(ioutil.WriteFile(p, data, 0644))
			d, err := mqo.Load(p)
			if err != nil {
				return nil, err
			}
			return projDoc(d, bitsNum), nil
		}}
	}},
	{"fbxbin", func(g *gen) *readTarget {
		ver := uint32(7400)
		if g.p(50) {
			ver = 7500
		}
		return &readTarget{data: encodeFbx(g.ftree(), ver, g.p(50)), read: func(_ []byte, r io.Reader) (interface{}, error) {
			d, err := fbx.Parse(r)
			if err != nil {
				return nil, err
			}
			return fbxDigest(d), nil
		}}
	}},
	{"fbxtext", func(g *gen) *readTarget {
		tree := g.ftree()
		for i := range tree.C {
			if len(tree.C[i].C) == 0 {
				tree.C[i].C = []FNode{{N: "leaf", A: []FAttr{{"I", "7"}}, C: []FNode{}}}
			}
		}
		head := g.pick("; FBX 7.4.0 project file\n", "; FBX 6.1.0 project file\n; comment\n\n")
		t := &readTarget{data: encodeFbxText(tree, head), open: true, read: func(_ []byte, r io.Reader) (interface{}, error) {
			d, err := fbx.Parse(r)
			if err != nil {
				return nil, err
			}
			return fbxDigest(d), nil
		}}
		for k := 0; k <= len(tree.C); k++ {
			part := tree
			part.C = tree.C[:k]
			b := encodeFbxText(part, head)
			d, err := fbx.Parse(bytes.NewReader(b))
			if err == nil {
				at := len(bytes.TrimRight(b, "\n"))
				if k == 0 {
					at = 0
				}
				t.ends = append(t.ends, readEnd{at, digestOf(fbxDigest(d))})
			}
		}
		return t
	}},
	{"glb", func(g *gen) *readTarget {
		var b bytes.Buffer
		doc := simpleGltf(g)
		must(vrm.Write((*vrm.Document)(doc), &b, "/nowhere/x.glb"))
		return &readTarget{data: b.Bytes(), read: func(_ []byte, r io.Reader) (interface{}, error) {
			d, err := vrm.Parse(r, "/nowhere/x.glb")
			if err != nil {
				return nil, err
			}
			return gltfDigest((*gltf.Document)(d)), nil
		}}
	}},
	{"gltf", func(g *gen) *readTarget { return gltfFiles(g, "m.gltf") }},
	{"gltfbin", func(g *gen) *readTarget { return gltfFiles(g, "m0.bin") }},
}

// gltfFiles: a glTF file with a separate buffer, one of the two damaged.
func gltfFiles(g *gen, damaged string) *readTarget {
	doc := simpleGltf(g)
	doc.Buffers[0].URI = "m0.bin"
	dir := scratch()
	defer rmScratch(dir)
	must(gltf.Save(doc, filepath.Join(dir, "m.gltf")))
	files := map[string][]byte{}
	for _, n := range []string{"m.gltf", "m0.bin"} {
		b, err := ioutil.ReadFile(filepath.Join(dir, n))
		must(err)
		files[n] = b
	}
	return &readTarget{data: files[damaged], path: true, read: func(data []byte, _ io.Reader) (interface{}, error) {
		dir := scratch()
		defer rmScratch(dir)
		for n, b := range files {
			if n == damaged {
				b = data
			}
			must(ioutil.WriteFile(filepath.Join(dir, n), b, 0644))
		}
		d, err := gltfutil.Load(filepath.Join(dir, "m.gltf"))
		if err != nil {
			return nil, err
		}
		return gltfDigest(d), nil
	}}
}

type readCase struct {
	How   string `json:"how"`
	Num   int    `json:"num"`
	Den   int    `json:"den"`
	Open  bool   `json:"open"`
	Fmt   string `json:"fmt"`
	Seed  int64  `json:"seed"`
	Sweep int    `json:"sweep"`
}

var errRead = errors.New("read failure")

func runRead(c readCase, emit func(Event)) {
	for _, rt := range readTargets {
		if c.Fmt != "" && c.Fmt != rt.name || c.Fmt == "" && c.Open != (rt.name == "fbxtext") {
			continue
		}
		t := rt.mk(&gen{r: rand.New(rand.NewSource(c.Seed)), exact: true})
		if t.ends == nil {
			t.ends = []readEnd{}
		}
		n := len(t.data)
		w, err := t.read(t.data, bytes.NewReader(t.data))
		emit(Event{"op": "whole", "fmt": rt.name, "n": n, "ok": err == nil, "digest": digestOf(w), "open": t.open, "ends": t.ends})
		if err != nil {
			continue
		}
		try := func(how string, at int) {
			if t.path && how != "cut" {
				return
			}
			ev := Event{"op": "read", "how": how, "at": at, "ok": false, "panic": false, "digest": ""}
			defer func() {
				if r := recover(); r != nil {
					msg := fmt.Sprint(r)
					if strings.HasPrefix(msg, "harness:") {
						panic(r)
					}
					ev["panic"] = true
					ev["msg"] = msg
				}
				emit(ev)
			}()
			var d interface{}
			var err error
			switch how {
			case "cut":
				if at%2 == 0 {
					d, err = t.read(t.data[:at], bytes.NewReader(t.data[:at])) // seekable
				} else {
					d, err = t.read(t.data[:at], &faultyReader{data: t.data[:at], err: io.EOF})
				}
			case "err":
				d, err = t.read(nil, &faultyReader{data: t.data[:at], err: errRead})
			case "chunk":
				d, err = t.read(nil, &chunkReader{bytes.NewReader(t.data), 1 + at%17})
			}
			if err == nil {
				ev["ok"] = true
				ev["digest"] = digestOf(d)
			}
		}
		if c.Sweep == 0 {
			at := n * c.Num / c.Den
			if c.How != "chunk" && at >= n {
				at = n - 1
			}
			try(c.How, at)
			continue
		}
		r := rand.New(rand.NewSource(c.Seed + 5))
		for _, how := range []string{"cut", "err"} {
			if n <= c.Sweep {
				for a := 0; a < n; a++ {
					try(how, a)
				}
			} else {
				for i := 0; i < c.Sweep; i++ {
					a := r.Intn(n)
					if i < 20 {
						a = i
					} else if i < 40 {
						a = n - 1 - (i - 20)
					}
					try(how, a)
				}
			}
		}
		for a := 0; a < 4; a++ {
			try("chunk", a*5)
		}
	}
}

func init() {
	reg("readfault", &Domain{
		Gen: func(r *rand.Rand, n int) []interface{} {
			var cs []interface{}
			for i := 0; i < n; i++ {
				c := readCase{Fmt: readTargets[i%len(readTargets)].name, Seed: r.Int63(), Sweep: 250}
				if strings.HasPrefix(c.Fmt, "gltf") || c.Fmt == "mqoz" {
					c.Sweep = 100
				}
				cs = append(cs, c)
			}
			return cs
		},
		Run: func(body json.RawMessage, emit func(Event)) {
			var c readCase
			must(json.Unmarshal(body, &c))
			runRead(c, emit)
		},
	})
	_ = os.Stdin
}
