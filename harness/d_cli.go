package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/gltfutil"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/unity"
	"github.com/qmuntal/gltf"
)

// A request to the command line tool.
type clMorph struct {
	N string `json:"n"`
	V int    `json:"v"`
}
type clAlpha struct {
	P string `json:"p"`
	K string `json:"k"` // opaque, mask, blend, 0, num
	V int    `json:"v"`
}
type clOpts struct {
	Scale    int         `json:"scale"`
	SX       int         `json:"sx"`
	SY       int         `json:"sy"`
	SZ       int         `json:"sz"`
	Rot      bool        `json:"rot"`
	Hide     []string    `json:"hide"`
	HideMat  []string    `json:"hidemat"`
	Unlit    []string    `json:"unlit"`
	ChParent [][2]string `json:"chparent"`
	Morph    []clMorph   `json:"morph"`
	Alpha    []clAlpha   `json:"alpha"`
}
type clCase struct {
	Kind  string   `json:"kind"` // mqo, mqoz, pmx, glb, gltf, fbx, unity
	Doc   cvDoc    `json:"doc"`
	P     *PModel  `json:"p,omitempty"`
	Gb    *gbDoc   `json:"gb,omitempty"`
	Fx    *fxScene `json:"fx,omitempty"`
	Us    usFiles  `json:"us,omitempty"`
	Vmd   *VModel  `json:"vmd,omitempty"`
	JD    *JDoc    `json:"jd,omitempty"`   // a document as in the MQO store
	Conf  string   `json:"conf,omitempty"` // VRM configuration
	O     clOpts   `json:"o"`
	Out   string   `json:"out"`
	Named bool     `json:"named"` // the output is named on the command line
	Bad   string   `json:"bad"`   // what is wrong with the request
	Extra []string `json:"extra"` // other options
}

func thousandths(v int) string { return strconv.FormatFloat(float64(v)/1000, 'g', -1, 64) }

func (o *clOpts) args() (a []string) {
	if o.Scale != 0 {
		a = append(a, "-scale", thousandths(o.Scale))
	}
	for i, s := range []int{o.SX, o.SY, o.SZ} {
		if s != 1000 {
			a = append(a, "-scale"+string("XYZ"[i]), thousandths(s))
		}
	}
	if o.Rot {
		a = append(a, "-rot180")
	}
	list := func(name string, v []string) {
		if len(v) > 0 {
			a = append(a, name, strings.Join(v, ","))
		}
	}
	list("-hide", o.Hide)
	list("-hidemat", o.HideMat)
	list("-unlit", o.Unlit)
	var ch, mo, al []string
	for _, c := range o.ChParent {
		ch = append(ch, c[0]+":"+c[1])
	}
	for _, m := range o.Morph {
		mo = append(mo, m.N+":"+thousandths(m.V))
	}
	for _, m := range o.Alpha {
		k := m.K
		if k == "num" {
			k = thousandths(m.V)
		}
		al = append(al, m.P+":"+k)
	}
	list("-chparent", ch)
	list("-morph", mo)
	list("-alpha", al)
	return
}
func (o *clOpts) plain() bool { return len(o.args()) == 0 }

// write stores the input and returns its path.
func (c *clCase) write(dir string) string {
	in := filepath.Join(dir, "in."+c.Kind)
	switch c.Kind {
	case "mqo", "mqoz":
		if c.JD != nil {
			must(mqo.Save(buildDoc(*c.JD, milliNum), in))
		} else {
			must(mqo.Save(c.Doc.build(), in))
		}
	case "pmx":
		must(ioutil.WriteFile(in, encodePmx(*c.P, []int{0, 0, 4, 4, 4, 4, 4, 4}, 0, milliNum), 0644))
	case "glb":
		b, err := glbBytes(c.Gb.build())
		must(err)
		must(ioutil.WriteFile(in, b, 0644))
	case "gltf":
		doc := c.Gb.build()
		for i, b := range doc.Buffers {
			b.URI = fmt.Sprintf("data%d.bin", i)
		}
		must(gltf.Save(doc, in))
	case "fbx":
		must(ioutil.WriteFile(in, c.Fx.encode(), 0644))
	case "unity":
		must(os.MkdirAll(filepath.Join(dir, "Assets"), 0755))
		for g, t := range c.Us.encode() {
			p := filepath.Join(dir, usPath(g))
			must(ioutil.WriteFile(p, []byte(t), 0644))
			must(ioutil.WriteFile(p+".meta", []byte("fileFormatVersion: 2\nguid: "+usGUID(g)+"\n"), 0644))
		}
		in = filepath.Join(dir, usPath("A"))
	}
	return in
}

// library reads the input as the packages do.
func (c *clCase) library(in string) (*mqo.Document, error) {
	switch c.Kind {
	case "mqo", "mqoz":
		return mqo.Load(in)
	case "pmx":
		d, err := mmd.Load(in)
		if err != nil {
			return nil, err
		}
		return converter.NewMMDToMQOConverter(&converter.MMDToMQOOption{InheritParentThreshold: 0.4}).Convert(d), nil
	case "glb", "gltf":
		d, err := gltfutil.Load(in)
		if err != nil {
			return nil, err
		}
		return converter.NewGLTFToMQOConverter(nil).Convert(d)
	case "fbx":
		d, err := fbx.Load(in)
		if err != nil {
			return nil, err
		}
		return converter.NewFBXToMQOConverter(nil).Convert(d)
	}
	a, err := unity.OpenAssets(filepath.Dir(in))
	if err != nil {
		return nil, err
	}
	defer a.Close()
	s, err := unity.LoadScene(a, usPath("A"))
	if err != nil {
		return nil, err
	}
	return converter.NewUnityToMQOConverter(&converter.UnityToMQOOption{}).Convert(s)
}

type clMat struct {
	cvMat
	Shader string `json:"shader"`
	Unlit  bool   `json:"unlit"`
}
type clDoc struct {
	Objs   []cvObj   `json:"objs"`
	Mats   []clMat   `json:"mats"`
	Bones  []cvBone  `json:"bones"`
	Morphs []cvMorph `json:"morphs"`
	Bodies []cvBody  `json:"bodies"`
}

func clOf(doc *mqo.Document) clDoc {
	v := cvOf(doc)
	d := clDoc{Objs: v.Objs, Bones: v.Bones, Morphs: v.Morphs, Bodies: v.Bodies, Mats: []clMat{}}
	for i, m := range v.Mats {
		s := doc.Materials[i].GetShaderName()
		d.Mats = append(d.Mats, clMat{m, s, s == "Constant" || m.Unl})
	}
	return d
}

// flat is a view as words and numbers.
func flat(v interface{}) Event {
	words, nums := []string{}, []int{}
	var walk func(x interface{})
	walk = func(x interface{}) {
		switch t := x.(type) {
		case map[string]interface{}:
			var ks []string
			for k := range t {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				walk(t[k])
			}
		case []interface{}:
			words = append(words, fmt.Sprint("#", len(t)))
			for _, y := range t {
				walk(y)
			}
		case json.Number:
			n, err := t.Int64()
			must(err)
			nums = append(nums, clamp(int(n), 1000000000))
		case bool:
			words = append(words, fmt.Sprint(t))
		case string:
			words = append(words, strings.ReplaceAll(t, "\\", "/")) // separators are not meaningful
		}
	}
	b, err := json.Marshal(v)
	must(err)
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var g interface{}
	must(d.Decode(&g))
	walk(denull(g))
	return Event{"s": words, "n": nums}
}

func clGltf(doc *gltf.Document) Event {
	glLimit = 1000000
	defer func() { glLimit = 60000 }()
	v := glOf(doc, 1000, nil)
	v.Acc, v.BVs, v.Bufs, v.URIs, v.Imgs = nil, nil, nil, nil, nil
	for i := range v.Meshes {
		for j := range v.Meshes[i].Prims {
			v.Meshes[i].Prims[j].MM = nil
			for k := range v.Meshes[i].Prims[j].T {
				v.Meshes[i].Prims[j].T[k].MM = nil
			}
		}
	}
	sort.Strings(v.Ext)
	sort.SliceStable(v.Anims, func(i, j int) bool {
		a, b := v.Anims[i], v.Anims[j]
		return a.Node < b.Node || a.Node == b.Node && a.Path < b.Path
	})
	return flat(v)
}

// clView reads an output file.
func clView(path, ext string) (Event, *clDoc, error) {
	switch ext {
	case "mqo", "mqoz":
		d, err := mqo.Load(path)
		if err != nil {
			return nil, nil, err
		}
		v := clOf(d)
		return nil, &v, nil
	case "pmx":
		d, err := mmd.Load(path)
		if err != nil {
			return nil, nil, err
		}
		return flat(projPmx(d, milliNum)), nil, nil
	case "fbx":
		d, err := fbx.Load(path)
		if err != nil {
			return nil, nil, err
		}
		return flat(obsNode(d.RawNode)), nil, nil
	}
	d, err := gltfutil.Load(path)
	if err != nil {
		return nil, nil, err
	}
	return clGltf(d), nil, nil
}

func (c *clCase) toGltf(m *mqo.Document, dir string) (*gltf.Document, error) {
	conv := converter.NewMQOToGLTFConverter(&converter.MQOToGLTFOption{TextureResolutionLimit: 4096, TextureScale: 1})
	d, err := conv.Convert(m, dir)
	if err == nil && c.Vmd != nil {
		a, err := mmd.NewVMDParser(bytes.NewReader(encodeVmd(*c.Vmd, milliNum))).Parse()
		must(err)
		if c.O.Rot {
			for _, b := range conv.JointNodeToBone {
				b.RotationOffset.Y = 3.14159265
			}
		}
		converter.AddAnimationTpGlb(d, a, conv.JointNodeToBone, true)
	}
	return d, err
}

func (c *clCase) prepare() {
	for _, s := range []*[]string{&c.O.Hide, &c.O.HideMat, &c.O.Unlit} {
		if *s == nil {
			*s = []string{}
		}
	}
	if c.O.ChParent == nil {
		c.O.ChParent = [][2]string{}
	}
	if c.O.Morph == nil {
		c.O.Morph = []clMorph{}
	}
	if c.O.Alpha == nil {
		c.O.Alpha = []clAlpha{}
	}
	for _, s := range []*int{&c.O.SX, &c.O.SY, &c.O.SZ} {
		if *s == 0 {
			*s = 1000
		}
	}
}

func isGl(k string) bool { return k == "glb" || k == "gltf" || k == "vrm" }

func clRun(body json.RawMessage, emit func(Event)) {
	var c clCase
	must(json.Unmarshal(body, &c))
	c.prepare()
	dir := scratch()
	defer rmScratch(dir)
	in := c.write(dir)
	out := filepath.Join(dir, "out", "out."+c.Out)
	must(os.MkdirAll(filepath.Join(dir, "out"), 0755))
	args := append(c.O.args(), c.Extra...)

	ev := Event{"op": "cli", "kind": c.Kind, "out": c.Out, "o": c.O, "bad": c.Bad, "exit": 0, "panic": false, "stored": false, "post": []int{}, "views": []int{}}
	switch c.Bad {
	case "input":
		in = filepath.Join(dir, "nothing."+c.Kind)
	case "garbage":
		in = filepath.Join(dir, "garbage."+c.Kind)
		if c.Kind == "mqo" {
			in = filepath.Join(dir, "garbage."+[]string{"pmx", "glb", "fbx", "mqoz"}[len(c.Out)%4])
		}
		must(ioutil.WriteFile(in, []byte("neither of these formats\n"), 0644))
	case "inext":
		in = filepath.Join(dir, "in.xyz")
		must(ioutil.WriteFile(in, []byte("Metasequoia Document\n"), 0644))
	case "outext":
		out = filepath.Join(dir, "out", "out.obj")
	case "outdir":
		out = filepath.Join(dir, "no", "such", "out."+c.Out)
	case "chparent":
		args = append(args, "-chparent", "arm")
	case "morph":
		args = append(args, "-morph", "smile")
	case "morphval":
		args = append(args, "-morph", "smile:much")
	case "alpha":
		args = append(args, "-alpha", "skin:strong")
	case "preset":
		conf := filepath.Join(dir, "conf.json")
		must(ioutil.WriteFile(conf, []byte(`{"preset":"no such preset"}`), 0644))
		args = append(args, "-vrmconfig", conf)
		out = filepath.Join(dir, "out", "out.vrm")
	}
	pre := clDoc{Mats: []clMat{}}
	direct := isGl(c.Kind) && isGl(c.Out) || c.Kind == "fbx" && c.Out == "fbx"
	if c.Bad == "" && !direct {
		m, err := c.library(in)
		if err != nil {
			panic("cannot read the input: " + err.Error())
		}
		if c.Kind != "mqo" && c.Kind != "mqoz" {
			p := filepath.Join(dir, "pre.mqoz")
			must(mqo.Save(m, p))
			m, err = mqo.Load(p)
			must(err)
		}
		pre = clOf(m)
	}
	ev["pre"] = pre
	var want Event
	if c.Bad == "" && direct { // before the tool, which may replace its input
		if c.Kind == "fbx" {
			d, err := fbx.Load(in)
			must(err)
			p := filepath.Join(dir, "want.fbx")
			must(fbx.Save(d, p))
			want, _, err = clView(p, "fbx")
			must(err)
		} else {
			d, err := gltfutil.Load(in)
			must(err)
			s := c.O.Scale
			if s == 0 {
				s = 1000
			}
			if !c.O.plain() {
				f := func(v int) float32 { return float32(float64(s) * float64(v) / 1000000) }
				gltfutil.ApplyTransform(d, geom.NewScaleMatrix4(f(c.O.SX), f(c.O.SY), f(c.O.SZ)))
			}
			want = clGltf(d)
		}
	}

	vmd := []string{}
	if c.Vmd != nil {
		p := filepath.Join(dir, "motion.vmd")
		must(ioutil.WriteFile(p, encodeVmd(*c.Vmd, milliNum), 0644))
		vmd = []string{p}
	}
	run := append(append([]string{}, args...), in)
	if c.Named || c.Bad != "" {
		run = append(append(run, vmd...), out)
	} else {
		run = append(append([]string{"-format", c.Out}, args...), in)
		out = strings.TrimSuffix(in, filepath.Ext(in)) + "." + c.Out
	}
	// the same request to the document format, stored before the tool may replace its input
	mid := filepath.Join(dir, "mid.mqoz")
	compose := c.Bad == "" && !direct && c.Out != "mqo" && c.Out != "mqoz" && c.Out != "vrm" && (c.Kind == "mqo" || c.Kind == "mqoz" || c.Kind == "pmx" || c.O.plain())
	if compose {
		if rc, _ := runCLI(dir, append(append([]string{}, args...), in, mid)...); rc != 0 {
			compose = false
		}
	}
	var lib *mqo.Document
	if compose && c.Kind != "mqo" && c.Kind != "mqoz" && c.Kind != "pmx" {
		var err error
		lib, err = c.library(in)
		must(err)
	}

	rc, msg := runCLI(dir, run...)
	ev["exit"] = rc
	ev["panic"] = strings.Contains(msg, "panic:") || strings.Contains(msg, "goroutine ") || strings.Contains(msg, "fatal error:")
	if rc == 0 && c.Bad == "" {
		got, doc, err := clView(out, c.Out)
		if err == nil {
			ev["stored"] = true
			if doc != nil {
				ev["post"] = []clDoc{*doc}
			}
			if direct && c.Out != "vrm" {
				ev["views"] = []Event{got, want}
			}
			if compose && err == nil {
				m := lib
				if m == nil {
					m, err = mqo.Load(mid)
					must(err)
				}
				if c.Out == "pmx" {
					d, err := converter.NewMQOToMMDConverter(nil).Convert(m)
					must(err)
					p := filepath.Join(dir, "want.pmx")
					must(mmd.Save(d, p))
					want, _, err = clView(p, "pmx")
					must(err)
				} else {
					d, err := c.toGltf(m, dir)
					must(err)
					b, err := glbBytes(d)
					must(err)
					d, err = glbRead(b)
					must(err)
					want = clGltf(d)
				}
				ev["views"] = []Event{got, want}
			}
		}
	}
	if os.Getenv("HARNESS_LOG") != "" {
		fmt.Fprintln(os.Stderr, run, rc, msg)
	}
	emit(ev)
}

// clRepeat runs the same request several times.
func clRepeat(body json.RawMessage, emit func(Event)) {
	var c clCase
	must(json.Unmarshal(body, &c))
	c.prepare()
	dir := scratch()
	defer rmScratch(dir)
	in := c.write(dir)
	args := append(c.O.args(), c.Extra...)
	if c.Conf != "" {
		conf := filepath.Join(dir, "conf.json")
		must(ioutil.WriteFile(conf, []byte(c.Conf), 0644))
		args = append(args, "-vrmconfig", conf)
	}
	args = append(args, in)
	if c.Vmd != nil {
		p := filepath.Join(dir, "motion.vmd")
		must(ioutil.WriteFile(p, encodeVmd(*c.Vmd, milliNum), 0644))
		args = append(args, p)
	}
	runs := []string{}
	for i := 0; i < 4; i++ {
		od := filepath.Join(dir, fmt.Sprint("out", i))
		must(os.MkdirAll(od, 0755))
		cmd := exec.Command(os.Getenv("HARNESS_CLI"), append(append([]string{}, args...), filepath.Join(od, "out."+c.Out))...)
		cmd.Dir = dir
		err := cmd.Run()
		h := []string{fmt.Sprint(err == nil)}
		files, err := ioutil.ReadDir(od)
		must(err)
		for _, f := range files {
			b, err := ioutil.ReadFile(filepath.Join(od, f.Name()))
			must(err)
			h = append(h, f.Name()+" "+hash(b))
		}
		runs = append(runs, strings.Join(h, "; "))
	}
	emit(Event{"op": "repeat", "kind": c.Kind, "out": c.Out, "runs": runs})
	// and within one process
	if !isGl(c.Out) && c.Out != "fbx" && !isGl(c.Kind) && c.JD == nil {
		runs = []string{}
		for i := 0; i < 6; i++ {
			m, err := c.library(in)
			if err != nil {
				break
			}
			var b, x bytes.Buffer
			must(mqo.NewWriter("").WriteMQO(m, &b))
			must(mqo.WriteMQX(m, &x, "out.mqo"))
			h := hash(b.Bytes()) + " " + hash(x.Bytes())
			if c.Out == "pmx" {
				d, err := converter.NewMQOToMMDConverter(nil).Convert(m)
				if err != nil {
					break
				}
				b.Reset()
				must(mmd.WritePMX(d, &b))
				h += " " + hash(b.Bytes())
			}
			runs = append(runs, h)
		}
		emit(Event{"op": "repeat", "kind": c.Kind, "out": "process." + c.Out, "runs": runs})
	}
	if isGl(c.Out) && !isGl(c.Kind) && c.JD == nil {
		runs = []string{}
		for i := 0; i < 6; i++ {
			m, err := c.library(in)
			if err != nil {
				break
			}
			d, err := c.toGltf(m, dir)
			if err != nil {
				break
			}
			b, err := glbBytes(d)
			must(err)
			runs = append(runs, hash(b))
		}
		emit(Event{"op": "repeat", "kind": c.Kind, "out": "process." + c.Out, "runs": runs})
	}
}

func (g *gen) patterns(names []string) []string {
	res := []string{}
	for k := 1 + g.n(2); k > 0; k-- {
		s := "nothing"
		if len(names) > 0 && g.p(80) {
			s = names[g.n(len(names))]
			if r := []rune(s); g.p(30) && len(r) > 1 {
				s = string(r[:1]) + "*"
			} else if g.p(15) && len(r) > 1 {
				s = string(r[:len(r)-1]) + "?"
			}
		}
		if g.p(8) {
			s = "*"
		}
		res = append(res, s)
	}
	return res
}

// clCase is a random request; sc: options that change the model.
func (g *gen) clCase(repeat bool) clCase {
	c := clCase{Named: g.p(85), O: clOpts{SX: 1000, SY: 1000, SZ: 1000}, Extra: []string{}}
	c.Kind = g.pick("mqo", "mqo", "mqo", "mqoz", "pmx", "pmx", "glb", "gltf", "fbx", "unity")
	c.Out = g.pick("mqo", "mqo", "mqoz", "glb", "glb", "gltf", "pmx", "vrm")
	var objs, mats, bones, morphs []string
	switch c.Kind {
	case "mqo", "mqoz":
		if repeat && g.p(35) {
			d := g.doc()
			for i := range d.Mats {
				for j := range d.Mats[i].Ex2 {
					e := &d.Mats[i].Ex2[j]
					for k := 0; k < 4; k++ {
						n := fmt.Sprint("X", k)
						e.Maps = append(e.Maps, JKV{n, n + ".png"})
						e.MParams = append(e.MParams, JMParam{n, sortedParams(g.params())})
					}
				}
			}
			c.JD = &d
			return c
		}
		c.Doc = g.cvDoc(cvOpts{step: 500, bones: true, morphs: true, physics: true, norm: true, maxW: 3, depth: true})
		for i := range c.Doc.Mats {
			m := &c.Doc.Mats[i]
			if g.p(40) {
				m.Shd, m.AM, m.Met, m.Rou, m.Cut = "glTF", 1+g.n(3), g.n(4)*250, 250+g.n(3)*250, g.n(4)*250
			}
			if g.p(70) {
				m.Tex = ""
			}
		}
		for _, o := range c.Doc.Objs {
			objs = append(objs, o.Name)
		}
		for _, o := range c.Doc.Mats {
			mats = append(mats, o.Name)
		}
		for _, o := range c.Doc.Bones {
			bones = append(bones, o.Name)
		}
		for _, o := range c.Doc.Morphs {
			morphs = append(morphs, o.Targets...)
		}
	case "pmx":
		p := g.convertible()
		for i := range p.Mats {
			p.Mats[i].Name = fmt.Sprintf("%s%d", g.pick("m", "服"), i)
			mats = append(mats, p.Mats[i].Name)
		}
		for i := range p.Bones {
			p.Bones[i].Name = fmt.Sprintf("%s%d", g.pick("b", "腕"), i)
			bones = append(bones, p.Bones[i].Name)
		}
		for i := range p.Morphs {
			p.Morphs[i].Name = fmt.Sprintf("%s%d", g.pick("t", "笑"), i)
			if len(p.Morphs[i].Mat) > 1 { // each material once: names become unique when stored
				p.Morphs[i].Mat = p.Morphs[i].Mat[:1]
			}
			if p.Morphs[i].Type == 1 {
				morphs = append(morphs, p.Morphs[i].Name)
			}
		}
		c.P = &p
		objs = []string{"Main", "Face"}
	case "glb", "gltf":
		d := g.gbDoc(gbOpts{mats: true, skins: true, asM: true, scales: true})
		c.Gb = &d
		if g.p(50) {
			c.Out = g.pick("glb", "gltf", "vrm")
		}
	case "fbx":
		f := g.fbxScene()
		c.Fx = &f
		if g.p(15) {
			c.Out = "fbx"
		}
	case "unity":
		c.Us = g.usFiles()
	}
	if isGl(c.Out) && g.p(15) && (c.Kind == "mqo" || c.Kind == "pmx") {
		v := VModel{Name: "motion"}
		for k := 1 + g.n(5); k > 0; k-- {
			v.Bones = append(v.Bones, VBone{g.pick(append(bones, "x")...), g.n(9), []int{g.n(9) * 250, 0, g.n(9) * 250}, vaRots[g.n(4)], 0})
			v.Morphs = append(v.Morphs, VMorph{g.pick(append(morphs, "x")...), g.n(9), g.n(5) * 250})
		}
		c.Vmd = &v
		c.Named = true
	}
	if g.p(30) {
		c.O.Scale = []int{500, 1500, 2000, 80000}[g.n(4)]
		if c.O.Scale == 80000 && c.Kind != "pmx" && c.Kind != "mqo" && c.Kind != "mqoz" {
			c.O.Scale = 3000
		}
	}
	if g.p(15) {
		c.O.SX, c.O.SY, c.O.SZ = []int{1000, 500, 2000}[g.n(3)], []int{1000, 1500}[g.n(2)], []int{1000, 500, 2000}[g.n(3)]
	}
	if isGl(c.Kind) && isGl(c.Out) {
		if c.O.SX != c.O.SY || c.O.SY != c.O.SZ { // nodes may be turned
			c.O.SX, c.O.SY, c.O.SZ = 1000, 1000, 1000
		}
		if !repeat && g.p(10) {
			c.Bad = g.pick("outdir", "input", "garbage")
		}
		return c
	}
	if c.Out == "fbx" {
		c.O = clOpts{SX: 1000, SY: 1000, SZ: 1000}
		if !repeat && g.p(30) {
			c.Bad = g.pick("outdir", "input", "garbage")
		}
		return c
	}
	if g.p(15) {
		c.O.Rot = true
	}
	if g.p(30) {
		c.O.Hide = g.patterns(objs)
	}
	if g.p(25) {
		c.O.HideMat = g.patterns(mats)
	}
	if g.p(25) {
		c.O.Unlit = g.patterns(mats)
	}
	for k := g.n(3); k > 0 && g.p(40); k-- {
		c.O.Alpha = append(c.O.Alpha, clAlpha{g.patterns(mats)[0], g.pick("opaque", "mask", "blend", "num", "num", "0"), 250 + g.n(3)*250})
	}
	for k := g.n(3); k > 0 && g.p(50) && len(bones) > 1; k-- {
		c.O.ChParent = append(c.O.ChParent, [2]string{bones[g.n(len(bones))], bones[g.n(len(bones))]})
	}
	if g.p(3) {
		c.O.ChParent = append(c.O.ChParent, [2]string{g.pick(append(bones, "x")...), "nothing"})
	}
	for k := g.n(2); k > 0 && len(morphs) > 0; k-- {
		c.O.Morph = append(c.O.Morph, clMorph{morphs[g.n(len(morphs))], []int{1000, 500, 250, -500}[g.n(4)]})
	}
	if repeat && g.p(30) {
		c.Extra = append(c.Extra, "-physics")
	}
	if repeat && c.Out == "vrm" && g.p(70) {
		if g.p(30) {
			c.Extra = append(c.Extra, "-vrmExportAllMorph")
		}
		conf := map[string]interface{}{
			"exportAllMorph":      g.p(30),
			"boneMappings":        []interface{}{map[string]interface{}{"bone": "hips", "nodeNames": bones}, map[string]interface{}{"bone": "head", "nodeNames": bones}},
			"materialSettings":    map[string]interface{}{"*": map[string]interface{}{"forceUnlit": g.p(50)}},
			"animationBoneGroups": []interface{}{map[string]interface{}{"nodeNames": []string{g.pick("*", "b*", "?*", "腕*")}}},
		}
		for _, m := range mats {
			if g.p(50) {
				conf["materialSettings"].(map[string]interface{})[m] = map[string]interface{}{"alphaMode": g.pick("BLEND", "OPAQUE"), "alpha": 0.5}
			}
		}
		if g.p(30) {
			conf["preset"] = g.pick("mmd")
		}
		b, err := json.Marshal(conf)
		must(err)
		c.Conf = string(b)
	}
	if !repeat && g.p(4) {
		c.Bad = g.pick("outdir", "input", "outext")
	}
	return c
}

func init() {
	reg("cli", &Domain{Run: clRun, Gen: func(r *rand.Rand, n int) []interface{} {
		res := []interface{}{}
		for i := 0; i < n; i++ {
			g := &gen{r: r, x: milliNum}
			res = append(res, g.clCase(false))
		}
		return res
	}})
	reg("repeat", &Domain{Run: clRepeat, Gen: func(r *rand.Rand, n int) []interface{} {
		res := []interface{}{}
		for i := 0; i < n; i++ {
			g := &gen{r: r, x: milliNum}
			if c := g.clCase(true); c.Bad == "" {
				res = append(res, c)
			}
		}
		return res
	}})
}
