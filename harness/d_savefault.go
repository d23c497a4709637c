package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/vrm"
	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

var errDevice = errors.New("device failure")

// device is a destination that fails as told.
type device struct {
	buf      bytes.Buffer
	calls    int
	kind     string
	at       int
	closeErr bool
}

func (d *device) Write(p []byte) (int, error) {
	n := len(p)
	if n == 0 {
		return 0, nil
	}
	c := d.calls
	d.calls++
	if d.kind == "call" && c == d.at {
		return 0, errDevice
	}
	if d.kind == "bytes" && d.buf.Len()+n > d.at {
		n = d.at - d.buf.Len()
		if n < 0 {
			n = 0
		}
		d.buf.Write(p[:n])
		return n, errDevice
	}
	return d.buf.Write(p)
}
func (d *device) Close() error {
	if d.closeErr {
		return errDevice
	}
	return nil
}

type saveFault struct {
	File int    `json:"file"`
	Kind string `json:"kind"`
	At   int    `json:"at"`
}
type saveResult struct {
	ok     bool
	sizes  []int
	calls  []int
	hash   string
	leaked int
}

func hashAll(parts [][]byte) string { return hash(bytes.Join(parts, []byte{0xff, 0})) }

// simpleDoc is a document every converter can handle.
func simpleDoc(g *gen) *mqo.Document {
	doc := mqo.NewDocument()
	for i := 0; i < 2; i++ {
		doc.Materials = append(doc.Materials, &mqo.Material{Name: []string{"m0", "m1"}[i], Color: geom.Vector4{X: 1, Y: 0.5, Z: 0.25, W: 1}, Diffuse: 1})
	}
	bp := mqo.GetBonePlugin(doc)
	b0 := &mqo.Bone{ID: 1, Name: "root"}
	b1 := &mqo.Bone{ID: 2, Name: "arm", Parent: 1}
	b1.Pos = mqo.Vector3Attr{Vector3: geom.Vector3{X: 0, Y: 100, Z: 0}}
	bp.AddBone(b0)
	bp.AddBone(b1)
	for k := 1 + g.n(3); k > 0; k-- {
		o := mqo.NewObject("o" + string(rune('0'+k)))
		o.UID = k
		o.Visible = true
		n := 3 + g.n(40)
		for i := 0; i < n; i++ {
			o.Vertexes = append(o.Vertexes, &geom.Vector3{X: float32(g.n(200)), Y: float32(g.n(200)), Z: float32(i * 7)})
			b0.SetVertexWeight(o.UID, i+1, 100)
		}
		for i := 0; i+2 < n; i++ {
			o.Faces = append(o.Faces, &mqo.Face{Verts: []int{i, i + 1, i + 2}, Material: i % 2, UVs: []geom.Vector2{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: 0, Y: 1}}})
		}
		doc.Objects = append(doc.Objects, o)
	}
	return doc
}

func simpleGltf(g *gen) *gltf.Document {
	doc := gltf.NewDocument()
	var pos [][3]float32
	for i := 3 + g.n(30); i > 0; i-- {
		pos = append(pos, [3]float32{float32(g.n(10)), float32(i), float32(g.n(10))})
	}
	a := modeler.WritePosition(doc, pos)
	doc.Meshes = []*gltf.Mesh{{Name: "m", Primitives: []*gltf.Primitive{{Attributes: map[string]uint32{"POSITION": a}}}}}
	doc.Nodes = []*gltf.Node{{Name: "n", Mesh: gltf.Index(0)}}
	doc.Scenes[0].Nodes = []uint32{0}
	return doc
}

func listFiles(dir string) (names []string) {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			names = append(names, p)
		}
		return nil
	})
	sort.Strings(names)
	return
}

func openFds() int {
	es, err := ioutil.ReadDir("/proc/self/fd")
	must(err)
	return len(es)
}

func withLimit(n int, f func()) {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max}))
	defer func() { must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }()
	f()
}

// saver performs one save of a fixed input under a fault.
type saver func(f saveFault) saveResult

func writerSaver(nfiles int, run func(main io.Writer, side func() (io.WriteCloser, error)) error) saver {
	return func(f saveFault) saveResult {
		devs := []*device{}
		mk := func() (*device, error) {
			d := &device{}
			if f.File == len(devs)+1 {
				d.kind, d.at = f.Kind, f.At
				d.closeErr = f.Kind == "close"
				if f.Kind == "create" {
					return nil, errDevice
				}
			}
			devs = append(devs, d)
			return d, nil
		}
		main, _ := mk()
		if main == nil {
			panic("harness: main writer cannot fail on creation")
		}
		fds := openFds()
		err := run(main, func() (io.WriteCloser, error) {
			d, err := mk()
			if err != nil {
				return nil, err
			}
			return d, nil
		})
		r := saveResult{ok: err == nil, leaked: openFds() - fds}
		var parts [][]byte
		for _, d := range devs {
			r.sizes = append(r.sizes, d.buf.Len())
			r.calls = append(r.calls, d.calls)
			parts = append(parts, d.buf.Bytes())
		}
		r.hash = hashAll(parts)
		return r
	}
}

// pathSaver saves to a fresh directory; file 1 is the output, file 2 its companion.
func pathSaver(ext string, companion string, run func(path string) error) saver {
	return func(f saveFault) saveResult {
		dir := scratch()
		defer rmScratch(dir)
		path := filepath.Join(dir, "out."+ext)
		if f.Kind == "create" {
			if f.File == 1 {
				path = filepath.Join(dir, "missing", "out."+ext)
			} else {
				must(os.Mkdir(filepath.Join(dir, companion), 0755))
			}
		}
		var err error
		fds := openFds()
		if f.Kind == "limit" {
			withLimit(f.At, func() { err = run(path) })
		} else {
			err = run(path)
		}
		r := saveResult{ok: err == nil, leaked: openFds() - fds}
		var parts [][]byte
		for _, n := range listFiles(dir) {
			b, e := ioutil.ReadFile(n)
			must(e)
			r.sizes = append(r.sizes, len(b))
			r.calls = append(r.calls, 0)
			parts = append(parts, b)
		}
		r.hash = hashAll(parts)
		return r
	}
}

var saveTargets = map[string]func(seed int64) (saver, int, bool){
	"w.pmx": func(seed int64) (saver, int, bool) {
		g := &gen{r: rand.New(rand.NewSource(seed)), exact: true}
		m := g.pmx(g.n(5))
		info := []int{g.n(2), len(m.Verts) * 0, 4, 4, 4, 4, 4, 4}
		doc := buildPmx(m, info, bitsNum)
		return writerSaver(1, func(w io.Writer, _ func() (io.WriteCloser, error)) error { return mmd.WritePMX(doc, w) }), 1, true
	},
	"w.mqo": func(seed int64) (saver, int, bool) {
		g := &gen{r: rand.New(rand.NewSource(seed)), exact: true}
		doc := buildDoc(g.doc(), bitsNum)
		n := 1
		if len(doc.Plugins) > 0 {
			n = 2
		}
		return writerSaver(n, func(w io.Writer, side func() (io.WriteCloser, error)) error {
			wr := mqo.NewWriter("/nowhere/out.mqo")
			wr.Create = func(string) (io.WriteCloser, error) { return side() }
			return wr.WriteMQO(doc, w)
		}), n, true
	},
	"w.mqx": func(seed int64) (saver, int, bool) {
		g := &gen{r: rand.New(rand.NewSource(seed)), exact: true}
		doc := buildDoc(g.doc(), bitsNum)
		return writerSaver(1, func(w io.Writer, _ func() (io.WriteCloser, error)) error { return mqo.WriteMQX(doc, w, "out.mqo") }), 1, true
	},
	"w.fbx": func(seed int64) (saver, int, bool) {
		g := &gen{r: rand.New(rand.NewSource(seed)), exact: true}
		doc, err := fbx.Parse(bytes.NewReader(encodeFbx(g.ftree(), 7400, false)))
		if err != nil {
			return nil, 0, false
		}
		return writerSaver(1, func(w io.Writer, _ func() (io.WriteCloser, error)) error { return fbx.Write(w, doc) }), 1, true
	},
	"w.vrm": func(seed int64) (saver, int, bool) {
		g := &gen{r: rand.New(rand.NewSource(seed)), exact: true}
		doc := simpleGltf(g)
		return writerSaver(1, func(w io.Writer, _ func() (io.WriteCloser, error)) error {
			return vrm.Write((*vrm.Document)(doc), w, "/nowhere/out.vrm")
		}), 1, true
	},
	"p.pmx": func(seed int64) (saver, int, bool) {
		g := &gen{r: rand.New(rand.NewSource(seed)), exact: true}
		doc := buildPmx(g.pmx(0), []int{1, 0, 4, 4, 4, 4, 4, 4}, bitsNum)
		return pathSaver("pmx", "", func(p string) error { return mmd.Save(doc, p) }), 1, true
	},
	"p.mqo": func(seed int64) (saver, int, bool) {
		g := &gen{r: rand.New(rand.NewSource(seed)), exact: true}
		doc := buildDoc(g.doc(), bitsNum)
		n := 1
		if len(doc.Plugins) > 0 {
			n = 2
		}
		return pathSaver("mqo", "out.mqx", func(p string) error { return mqo.Save(doc, p) }), n, true
	},
	"p.mqoz": func(seed int64) (saver, int, bool) {
		g := &gen{r: rand.New(rand.NewSource(seed)), exact: true}
		doc := buildDoc(g.doc(), bitsNum)
		return pathSaver("mqoz", "", func(p string) error { return mqo.Save(doc, p) }), 1, true
	},
	"p.fbx": func(seed int64) (saver, int, bool) {
		g := &gen{r: rand.New(rand.NewSource(seed)), exact: true}
		doc, err := fbx.Parse(bytes.NewReader(encodeFbx(g.ftree(), 7500, true)))
		if err != nil {
			return nil, 0, false
		}
		return pathSaver("fbx", "", func(p string) error { return fbx.Save(doc, p) }), 1, true
	},
	"c.glb":  cliSaver("mqo", "glb", ""),
	"c.gltf": cliSaver("mqo", "gltf", "out0.bin"),
	"c.vrm":  cliSaver("mqo", "vrm", ""),
	"c.mqo":  cliSaver("mqo", "mqo", "out.mqx"),
	"c.mqoz": cliSaver("mqo", "mqoz", ""),
	"c.pmx":  cliSaver("mqo", "pmx", ""),
	"c.fbx":  cliSaver("fbx", "fbx", ""),
}

// runCLI runs the command line tool; the exit status is all that is observed.
func runCLI(dir string, args ...string) (int, string) {
	cmd := exec.Command(os.Getenv("HARNESS_CLI"), args...)
	cmd.Dir = dir
	var eb bytes.Buffer
	cmd.Stderr = &eb
	err := cmd.Run()
	if err == nil {
		return 0, eb.String()
	}
	if x, ok := err.(*exec.ExitError); ok {
		if x.ExitCode() < 0 {
			return 255, eb.String()
		}
		return x.ExitCode(), eb.String()
	}
	panic("harness: cannot run the tool: " + err.Error())
}

func cliSaver(in, out, companion string) func(seed int64) (saver, int, bool) {
	return func(seed int64) (saver, int, bool) {
		g := &gen{r: rand.New(rand.NewSource(seed)), exact: true}
		var data, mqx []byte
		if in == "fbx" {
			data = encodeFbx(g.ftree(), 7400, false)
			if _, err := fbx.Parse(bytes.NewReader(data)); err != nil {
				return nil, 0, false
			}
		} else {
			doc := simpleDoc(g)
			dir := scratch()
			defer rmScratch(dir)
			p := filepath.Join(dir, "in.mqo")
			must(mqo.Save(doc, p))
			var err error
			data, err = ioutil.ReadFile(p)
			must(err)
			mqx, err = ioutil.ReadFile(filepath.Join(dir, "in.mqx"))
			must(err)
		}
		n := 1
		if companion != "" {
			n = 2
		}
		ps := pathSaver(out, companion, func(p string) error {
			// the input lies beside the scratch directory and is not counted
			src := os.Getenv("VERIF_SRC")
			rc, _ := runCLI(filepath.Dir(src), src, p)
			if rc != 0 {
				return errDevice
			}
			return nil
		})
		return func(f saveFault) saveResult {
			dir := scratch()
			defer rmScratch(dir)
			src := filepath.Join(dir, "in."+in)
			must(ioutil.WriteFile(src, data, 0644))
			if mqx != nil {
				must(ioutil.WriteFile(filepath.Join(dir, "in.mqx"), mqx, 0644))
			}
			os.Setenv("VERIF_SRC", src)
			return ps(f)
		}, n, true
	}
}

type savePlace struct {
	Num, Den, Add int
}
type saveCase struct {
	Kind    string    `json:"kind"`
	File    int       `json:"file"`
	Files   int       `json:"files"`
	Place   savePlace `json:"place"`
	Targets []string  `json:"targets"`
	Seed    int64     `json:"seed"`
	Sweep   int       `json:"sweep"`
}

func runSave(c saveCase, emit func(Event)) {
	names := c.Targets
	if len(names) == 0 {
		for n := range saveTargets {
			names = append(names, n)
		}
		sort.Strings(names)
	}
	for _, name := range names {
		sv, nfiles, ok := saveTargets[name](c.Seed)
		if !ok {
			continue
		}
		writer := strings.HasPrefix(name, "w.")
		none := saveFault{File: 1, Kind: "none"}
		sv(none) // lets the runtime open what it needs
		full := sv(none)
		files := []Event{}
		for i := range full.sizes {
			files = append(files, Event{"total": full.sizes[i], "calls": full.calls[i]})
		}
		emit(Event{"op": "full", "target": name, "ok": full.ok && len(files) == nfiles, "files": files, "hash": full.hash})
		if !full.ok || len(files) != nfiles {
			continue
		}
		try := func(f saveFault) {
			if f.File > nfiles {
				return
			}
			if writer && (f.Kind == "limit" || f.File == 1 && (f.Kind == "create" || f.Kind == "close")) {
				return
			}
			if !writer && (f.Kind == "bytes" || f.Kind == "call" || f.Kind == "close") {
				return
			}
			r := sv(f)
			if f.Kind == "create" && r.sizes == nil {
				r.sizes = []int{}
			}
			emit(Event{"op": "save", "target": name, "file": f.File, "kind": f.Kind, "at": f.At, "ok": r.ok, "stored": r.sizes, "hash": r.hash, "leaked": r.leaked})
		}
		size := func(f saveFault) int {
			t := 0
			switch f.Kind {
			case "bytes":
				t = full.sizes[f.File-1]
			case "call":
				t = full.calls[f.File-1]
			case "limit":
				for _, s := range full.sizes {
					if s > t {
						t = s
					}
				}
			}
			return t
		}
		if c.Sweep == 0 {
			f := saveFault{File: c.File, Kind: c.Kind}
			if f.File <= nfiles {
				f.At = size(f)*c.Place.Num/c.Place.Den + c.Place.Add
				if f.At < 0 {
					f.At = 0
				}
				try(f)
			}
			continue
		}
		r := rand.New(rand.NewSource(c.Seed + 77))
		kinds := []string{"none", "bytes", "call", "limit", "create", "close"}
		for _, k := range kinds {
			for file := 1; file <= nfiles; file++ {
				f := saveFault{File: file, Kind: k}
				t := size(f)
				if t == 0 {
					try(f)
					continue
				}
				if k == "limit" && file > 1 {
					continue
				}
				if t+2 <= c.Sweep {
					for a := 0; a < t+2; a++ {
						f.At = a
						try(f)
					}
				} else {
					for _, a := range []int{0, 1, t - 2, t - 1, t, t + 1} {
						f.At = a
						try(f)
					}
					for i := 0; i < c.Sweep; i++ {
						f.At = r.Intn(t)
						try(f)
					}
				}
			}
		}
	}
}

func init() {
	reg("savefault", &Domain{
		Gen: func(r *rand.Rand, n int) []interface{} {
			var names []string
			for n := range saveTargets {
				names = append(names, n)
			}
			sort.Strings(names)
			var cs []interface{}
			for i := 0; i < n; i++ {
				t := names[i%len(names)]
				c := saveCase{Targets: []string{t}, Seed: r.Int63(), Sweep: 60}
				if t[0] == 'c' {
					c.Sweep = 12
				}
				cs = append(cs, c)
			}
			return cs
		},
		Run: func(body json.RawMessage, emit func(Event)) {
			var c saveCase
			must(json.Unmarshal(body, &c))
			runSave(c, emit)
		},
	})
}
