package main

import (
	"fmt"
	"io/fs"
	"math"
	"sort"
	"strings"
	"testing/fstest"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/unity"
)

// Abstract Unity scene and prefab files and their encoding.

type usComp struct {
	T    string   `json:"t"`
	Nums []int    `json:"nums"`
	Refs []string `json:"refs"`
}
type usMod struct {
	Key []int       `json:"key"`
	At  int         `json:"at"`
	F   string      `json:"f"`
	I   int         `json:"i"`
	V   interface{} `json:"v"`
}
type usItem struct {
	K      string   `json:"k"`
	ID     int      `json:"id"`
	Name   string   `json:"name"`
	Tag    string   `json:"tag"`
	Act    int      `json:"act"`
	Pos    []int    `json:"pos"`
	Rot    []int    `json:"rot"`
	Scl    []int    `json:"scl"`
	Comps  []usComp `json:"comps"`
	Parent []int    `json:"parent"`
	Kids   []int    `json:"kids"`
	Src    string   `json:"src"`
	Mods   []usMod  `json:"mods"`
	How    string   `json:"how"`
}
type usFile struct {
	G     string   `json:"g"`
	Items []usItem `json:"items"`
	Style int      `json:"style"`
	Crlf  bool     `json:"crlf"`
	Big   bool     `json:"big"`
}
type usFiles []usFile

func usGUID(g string) string { return strings.Repeat("0", 20) + fmt.Sprintf("%012x", []byte(g)) }

func (fs usFiles) file(g string) *usFile {
	for i := range fs {
		if fs[i].G == g {
			return &fs[i]
		}
	}
	return nil
}
func (f *usFile) item(id int) *usItem {
	for i := range f.Items {
		if f.Items[i].ID == id {
			return &f.Items[i]
		}
	}
	return nil
}
func (f *usFile) fid(id, part int) int64 {
	n := int64(id)*1000 + int64(part)
	if f.Big {
		n += 6000000000000000000
	}
	if f.Big && id%2 == 0 {
		n = -n
	}
	return n
}

type usEnc struct {
	files    usFiles
	stripped map[string]map[string][]int // file -> key text -> key
}

// rootKey is the key of the object an instance of g stands for.
func (e *usEnc) rootKey(g string, up map[string]bool) []int {
	f := e.files.file(g)
	if f == nil || up[g] {
		return nil
	}
	up2 := map[string]bool{g: true}
	for k := range up {
		up2[k] = true
	}
	for _, it := range f.Items {
		if len(it.Parent) > 0 {
			continue
		}
		if it.K == "obj" {
			return []int{it.ID}
		}
		if it.K == "inst" {
			if k := e.rootKey(it.Src, up2); k != nil {
				return append([]int{it.ID}, k...)
			}
		}
	}
	return nil
}

// trID is the identifier file g has for the transform of the object key.
func (e *usEnc) trID(g string, key []int) int64 {
	f := e.files.file(g)
	if f == nil {
		return 999
	}
	if len(key) == 1 {
		return f.fid(key[0], 4)
	}
	txt := fmt.Sprint(key)
	if e.stripped[g] == nil {
		e.stripped[g] = map[string][]int{}
	}
	e.stripped[g][txt] = key
	if it := f.item(key[0]); it != nil && it.K == "inst" {
		e.trID(it.Src, key[1:])
	}
	n := 0
	for i, k := range key {
		n = n*37 + k*(i+3)
	}
	return f.fid(n+200, 5+len(key))
}

func usF(v int) string { return strings.TrimSuffix(fmt.Sprintf("%g", float64(v)/1000), ".0") }
func usV3(v []int) string {
	return fmt.Sprintf("{x: %s, y: %s, z: %s}", usF(v[0]), usF(v[1]), usF(v[2]))
}
func usQuat(r []int) [4]float64 {
	mul := func(a, b [4]float64) [4]float64 {
		return [4]float64{
			a[3]*b[0] + a[0]*b[3] + a[1]*b[2] - a[2]*b[1],
			a[3]*b[1] - a[0]*b[2] + a[1]*b[3] + a[2]*b[0],
			a[3]*b[2] + a[0]*b[1] - a[1]*b[0] + a[2]*b[3],
			a[3]*b[3] - a[0]*b[0] - a[1]*b[1] - a[2]*b[2]}
	}
	ax := func(i int) (q [4]float64) {
		h := float64(r[i]) * math.Pi / 4
		q[i], q[3] = math.Sin(h), math.Cos(h)
		return
	}
	return mul(ax(1), mul(ax(0), ax(2)))
}
func usRef(s string) string {
	if s == "" {
		return "{fileID: 0}"
	}
	p := strings.SplitN(s, ":", 2)
	t := 2
	if strings.HasPrefix(p[0], "0000000000000000") && strings.HasSuffix(p[0], "000000000000000") {
		t = 0 // a built-in resource
	}
	return fmt.Sprintf("{fileID: %s, guid: %s, type: %d}", p[1], p[0], t)
}

var usTags = map[string]int{"MF": 33, "MR": 23, "BX": 65, "SP": 135, "CP": 136, "RB": 54, "MB": 114, "LT": 108, "MC": 64, "XX": 20}
var usTypes = map[string]string{"MF": "MeshFilter", "MR": "MeshRenderer", "BX": "BoxCollider", "SP": "SphereCollider", "CP": "CapsuleCollider", "RB": "Rigidbody", "MB": "MonoBehaviour", "LT": "Light", "MC": "MeshCollider", "XX": "Camera"}

// property names of the numbers; "#" marks whole numbers
var usNums = map[string][]string{
	"MR": {"#m_Enabled"},
	"BX": {"#m_IsTrigger", "m_Center.x", "m_Center.y", "m_Center.z", "m_Size.x", "m_Size.y", "m_Size.z"},
	"SP": {"#m_IsTrigger", "m_Center.x", "m_Center.y", "m_Center.z", "m_Radius"},
	"CP": {"#m_IsTrigger", "m_Center.x", "m_Center.y", "m_Center.z", "m_Radius", "#m_Direction", "m_Height"},
	"RB": {"m_Mass", "m_Drag", "m_AngularDrag", "#m_UseGravity", "#m_IsKinematic"},
	"MB": {"#m_Enabled"},
	"LT": {"#m_Type", "m_Color.r", "m_Color.g", "m_Color.b", "m_Intensity", "m_Range", "m_SpotAngle"},
	"MC": {"#m_Enabled", "#m_IsTrigger"},
}
var usRefName = map[string]string{"MF": "m_Mesh", "MC": "m_Mesh", "MB": "m_Script"}

func usNum(name string, v int) (string, string) {
	if name[0] == '#' {
		return name[1:], fmt.Sprint(v)
	}
	return name, usF(v)
}

func usStr(s string) string {
	if s == "" || strings.ContainsAny(s, ":#'\"{}[],&*!|>%@`") || strings.TrimSpace(s) != s || s == "~" || s == "null" || s[0] == '-' || s[0] == '?' {
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	}
	return s
}

func (e *usEnc) comp(f *usFile, it *usItem, n int) string {
	c := it.Comps[n]
	s := fmt.Sprintf("--- !u!%d &%d\n%s:\n  m_ObjectHideFlags: 0\n  m_CorrespondingSourceObject: {fileID: 0}\n  m_PrefabInstance: {fileID: 0}\n  m_PrefabAsset: {fileID: 0}\n  m_GameObject: {fileID: %d}\n",
		usTags[c.T], f.fid(it.ID, 10+n), usTypes[c.T], f.fid(it.ID, 1))
	groups, order := map[string][]string{}, []string{}
	for i, p := range usNums[c.T] {
		name, v := usNum(p, c.Nums[i])
		if k := strings.Index(name, "."); k >= 0 {
			if groups[name[:k]] == nil {
				order = append(order, name[:k])
			}
			groups[name[:k]] = append(groups[name[:k]], name[k+1:]+": "+v)
		} else {
			order = append(order, name)
			groups[name] = []string{v}
		}
	}
	for _, o := range order {
		v := groups[o]
		if len(v) == 1 && !strings.Contains(v[0], ":") {
			s += "  " + o + ": " + v[0] + "\n"
		} else {
			if o == "m_Color" {
				v = append(v, "a: 1")
			}
			s += "  " + o + ": {" + strings.Join(v, ", ") + "}\n"
		}
	}
	if c.T == "MR" {
		s += "  m_Materials:\n"
		for _, r := range c.Refs {
			s += "  - " + usRef(r) + "\n"
		}
		if len(c.Refs) == 0 {
			s = strings.TrimSuffix(s, "\n") + " []\n"
		}
	} else if n, ok := usRefName[c.T]; ok && c.Refs[0] != "-" {
		s += "  " + n + ": " + usRef(c.Refs[0]) + "\n"
	}
	if c.T == "XX" {
		s += "  m_BackGroundColor: {r: 0.1, g: 0.3, b: 0.5, a: 0}\n  near clip plane: 0.3\n"
	}
	return s
}

func (e *usEnc) mod(inst *usItem, m usMod) string {
	g := inst.Src
	f := e.files.file(g)
	target := int64(998)
	var c *usComp
	if f != nil {
		it := f.item(m.Key[0])
		switch {
		case len(m.Key) > 1 || m.At == -1:
			target = e.trID(g, m.Key)
		case m.At == 0:
			target = f.fid(m.Key[0], 1)
		default:
			target = f.fid(m.Key[0], 9+m.At)
			if it != nil && it.K == "obj" && m.At <= len(it.Comps) {
				c = &it.Comps[m.At-1]
			}
		}
	}
	one := func(path, value, ref string) string {
		return fmt.Sprintf("    - target: {fileID: %d, guid: %s,\n        type: 3}\n      propertyPath: %s\n      value: %s\n      objectReference: %s\n", target, usGUID(g), path, value, ref)
	}
	none := "{fileID: 0}"
	iv := func() int {
		switch x := m.V.(type) {
		case float64:
			return int(x)
		case int:
			return x
		}
		return 0
	}
	axis := []string{"x", "y", "z", "w"}
	switch {
	case m.F == "raw":
		return one(m.V.(string), "abc", none)
	case m.At == 0 && m.F == "name":
		return one("m_Name", usStr(m.V.(string)), none)
	case m.At == 0 && m.F == "tag":
		return one("m_TagString", usStr(m.V.(string)), none)
	case m.At == 0 && m.F == "act":
		return one("m_IsActive", fmt.Sprint(iv()), none)
	case m.F == "pos":
		return one("m_LocalPosition."+axis[m.I-1], usF(iv()), none)
	case m.F == "scl":
		return one("m_LocalScale."+axis[m.I-1], usF(iv()), none)
	case m.F == "rot":
		var r []int
		switch x := m.V.(type) {
		case []int:
			r = x
		case []interface{}:
			for _, y := range x {
				r = append(r, int(y.(float64)))
			}
		}
		s := ""
		for i, v := range usQuat(r) {
			s += one("m_LocalRotation."+axis[i], fmt.Sprintf("%.7g", v), none)
		}
		return s
	case m.F == "num" && c != nil:
		n, v := usNum(usNums[c.T][m.I-1], iv())
		return one(n, v, none)
	case m.F == "ref" && c != nil:
		if c.T == "MR" {
			return one(fmt.Sprintf("m_Materials.Array.data[%d]", m.I-1), "", usRef(m.V.(string)))
		}
		return one(usRefName[c.T], "", usRef(m.V.(string)))
	}
	return one("m_Unknown", "1", none)
}

func (e *usEnc) item(f *usFile, it *usItem) (gopart, trpart, comps string) {
	father := int64(0)
	if len(it.Parent) > 0 {
		father = e.trID(f.G, it.Parent)
	}
	switch it.K {
	case "inst":
		s := fmt.Sprintf("--- !u!1001 &%d\nPrefabInstance:\n  m_ObjectHideFlags: 0\n  serializedVersion: 2\n  m_Modification:\n    m_TransformParent: {fileID: %d}\n    m_Modifications:\n", f.fid(it.ID, 7), father)
		if len(it.Mods) == 0 {
			s = strings.TrimSuffix(s, "\n") + " []\n"
		}
		for _, m := range it.Mods {
			s += e.mod(it, m)
		}
		s += fmt.Sprintf("    m_RemovedComponents: []\n  m_SourcePrefab: {fileID: 100100000, guid: %s, type: 3}\n", usGUID(it.Src))
		return "", s, ""
	case "junk":
		id := f.fid(it.ID, 1)
		switch it.How {
		case "null":
			return fmt.Sprintf("--- !u!1 &%d\nGameObject:\n", id), "", ""
		case "syntax":
			return fmt.Sprintf("--- !u!1 &%d\nGameObject: [\n  m_Name: x\n", id), "", ""
		case "old":
			return fmt.Sprintf("--- !u!1001 &%d\nPrefab:\n  m_ObjectHideFlags: 1\n  m_Modification:\n    m_TransformParent: {fileID: 0}\n    m_Modifications: []\n", id), "", ""
		case "bare":
			return fmt.Sprintf("--- !u!1001 &%d\nPrefabInstance:\n  m_SourcePrefab: {fileID: 100100000, guid: %s, type: 3}\n", id, usGUID("nothing")), "", ""
		}
		return fmt.Sprintf("--- !u!1 &%d\n", id), "", ""
	}
	gopart = fmt.Sprintf("--- !u!1 &%d\nGameObject:\n  m_ObjectHideFlags: 0\n  m_CorrespondingSourceObject: {fileID: 0}\n  m_PrefabInstance: {fileID: 0}\n  m_PrefabAsset: {fileID: 0}\n  serializedVersion: 6\n  m_Component:\n  - component: {fileID: %d}\n", f.fid(it.ID, 1), f.fid(it.ID, 4))
	for n := range it.Comps {
		gopart += fmt.Sprintf("  - component: {fileID: %d}\n", f.fid(it.ID, 10+n))
		comps += e.comp(f, it, n)
	}
	gopart += fmt.Sprintf("  m_Layer: 0\n  m_Name: %s\n  m_TagString: %s\n  m_Icon: {fileID: 0}\n  m_IsActive: %d\n", usStr(it.Name), usStr(it.Tag), it.Act)
	q := usQuat(it.Rot)
	trpart = fmt.Sprintf("--- !u!4 &%d\nTransform:\n  m_ObjectHideFlags: 0\n  m_CorrespondingSourceObject: {fileID: 0}\n  m_PrefabInstance: {fileID: 0}\n  m_PrefabAsset: {fileID: 0}\n  m_GameObject: {fileID: %d}\n  m_LocalRotation: {x: %.7g, y: %.7g, z: %.7g, w: %.7g}\n  m_LocalPosition: %s\n  m_LocalScale: %s\n",
		f.fid(it.ID, 4), f.fid(it.ID, 1), q[0], q[1], q[2], q[3], usV3(it.Pos), usV3(it.Scl))
	if len(it.Kids) == 0 {
		trpart += "  m_Children: []\n"
	} else {
		trpart += "  m_Children:\n"
		for _, k := range it.Kids {
			c := f.item(k)
			key := []int{k}
			if c != nil && c.K == "inst" {
				key = append(key, e.rootKey(c.Src, map[string]bool{f.G: true})...)
				if len(key) == 1 {
					key = []int{900 + k}
				}
			}
			trpart += fmt.Sprintf("  - {fileID: %d}\n", e.trID(f.G, key))
		}
	}
	trpart += fmt.Sprintf("  m_Father: {fileID: %d}\n  m_RootOrder: 0\n  m_LocalEulerAnglesHint: {x: 0, y: 0, z: 0}\n", father)
	return
}

func (e *usEnc) text(f *usFile) string {
	main, early, late := "", "", ""
	for i := range f.Items {
		a, b, c := e.item(f, &f.Items[i])
		switch f.Style {
		case 1:
			main += b + a + c
		case 2:
			main += a + b
			early += c
		case 3:
			main += a + b
			late += c
		default:
			main += a + b + c
		}
	}
	var keys []string
	for k := range e.stripped[f.G] {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	strip := ""
	for _, k := range keys {
		key := e.stripped[f.G][k]
		it := f.item(key[0])
		if it == nil || it.K != "inst" {
			continue
		}
		strip += fmt.Sprintf("--- !u!4 &%d stripped\nTransform:\n  m_CorrespondingSourceObject: {fileID: %d, guid: %s,\n    type: 3}\n  m_PrefabInstance: {fileID: %d}\n  m_PrefabAsset: {fileID: 0}\n",
			e.trID(f.G, key), e.trID(it.Src, key[1:]), usGUID(it.Src), f.fid(it.ID, 7))
	}
	s := "%YAML 1.1\n%TAG !u! tag:unity3d.com,2011:\n--- !u!29 &1\nOcclusionCullingSettings:\n  m_ObjectHideFlags: 0\n"
	if f.Style%2 == 1 {
		s += strip + early + main + late
	} else {
		s += early + main + late + strip
	}
	if f.Crlf {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	return s
}

func (fs usFiles) encode() map[string]string {
	e := &usEnc{files: fs, stripped: map[string]map[string][]int{}}
	for i := range fs { // collects the stripped objects every file needs
		e.text(&fs[i])
	}
	for i := range fs {
		e.text(&fs[i])
	}
	m := map[string]string{}
	for i := range fs {
		m[fs[i].G] = e.text(&fs[i])
	}
	return m
}

// memAssets serves files from memory.
type memAssets struct {
	m      fstest.MapFS
	assets []*unity.Asset
	meta   map[string]*unity.MetaFile
	src    string
}

func (a *memAssets) GetSourcePath() string { return a.src }
func (a *memAssets) GetAsset(guid string) *unity.Asset {
	for _, x := range a.assets {
		if x.GUID == guid {
			return x
		}
	}
	return nil
}
func (a *memAssets) GetAssetByPath(p string) *unity.Asset {
	for _, x := range a.assets {
		if x.Path == p {
			return x
		}
	}
	return nil
}
func (a *memAssets) GetAllAssets() []*unity.Asset { return a.assets }
func (a *memAssets) GetMetaFile(x *unity.Asset) (*unity.MetaFile, error) {
	if m := a.meta[x.GUID]; m != nil {
		return m, nil
	}
	return &unity.MetaFile{GUID: x.GUID}, nil
}
func (a *memAssets) Open(p string) (fs.File, error) { return a.m.Open(p) }
func (a *memAssets) Close() error                   { return nil }
func (a *memAssets) add(guid, path string, data []byte) {
	a.assets = append(a.assets, &unity.Asset{GUID: guid, Path: path})
	a.m[path] = &fstest.MapFile{Data: data}
}

func newMemAssets(fs usFiles) *memAssets {
	a := &memAssets{m: fstest.MapFS{}, meta: map[string]*unity.MetaFile{}, src: "/nonexistent/Assets"}
	txt := fs.encode()
	for _, f := range fs {
		a.add(usGUID(f.G), usPath(f.G), []byte(txt[f.G]))
	}
	return a
}
func usPath(g string) string {
	if g == "A" {
		return "Assets/A.unity"
	}
	return "Assets/" + g + ".prefab"
}

func usRefText(r *unity.Ref) string {
	if r == nil || r.FileID == 0 {
		return ""
	}
	return fmt.Sprintf("%s:%d", r.GUID, r.FileID)
}

func usCompOf(e interface{}) usComp {
	m := milli
	c := usComp{Nums: []int{}, Refs: []string{}}
	v3 := func(v geom.Vector3) { c.Nums = append(c.Nums, m(v.X), m(v.Y), m(v.Z)) }
	switch x := e.(type) {
	case *unity.MeshFilter:
		c.T, c.Refs = "MF", []string{usRefText(x.Mesh)}
	case *unity.MeshRenderer:
		c.T, c.Nums = "MR", []int{x.Enabled}
		for _, r := range x.Materials {
			c.Refs = append(c.Refs, usRefText(r))
		}
	case *unity.BoxCollider:
		c.T, c.Nums = "BX", []int{x.IsTrigger}
		v3(x.Center)
		v3(x.Size)
	case *unity.SphereCollider:
		c.T, c.Nums = "SP", []int{x.IsTrigger}
		v3(x.Center)
		c.Nums = append(c.Nums, m(x.Radius))
	case *unity.CapsuleCollider:
		c.T, c.Nums = "CP", []int{x.IsTrigger}
		v3(x.Center)
		c.Nums = append(c.Nums, m(x.Radius), x.Direction, m(x.Height))
	case *unity.Rigidbody:
		c.T, c.Nums = "RB", []int{m(x.Mass), m(x.Drag), m(x.AngularDrag), x.UseGravity, x.IsKinematic}
	case *unity.MonoBehaviour:
		c.T, c.Nums, c.Refs = "MB", []int{x.Enabled}, []string{usRefText(x.Script)}
	case *unity.Light:
		c.T, c.Nums = "LT", []int{x.Type, m(x.Color.R), m(x.Color.G), m(x.Color.B), m(x.Intensity), m(x.Range), m(x.SpotAngle)}
	case *unity.MeshCollider:
		c.T, c.Nums, c.Refs = "MC", []int{x.Enabled, x.IsTrigger}, []string{usRefText(x.Mesh)}
	case nil:
		c.T = "nil"
	default:
		c.T = "XX"
	}
	return c
}

type usGot struct {
	Depth  int      `json:"depth"`
	Name   string   `json:"name"`
	Tag    string   `json:"tag"`
	Act    int      `json:"act"`
	Comps  []usComp `json:"comps"`
	World  []int    `json:"world"`
	Linked bool     `json:"linked"`
}

func usMatrix(m *geom.Matrix4) []int {
	r := make([]int, 16)
	for i := range r {
		r[i] = clamp(milli(m[i]), 60000001)
	}
	r[15] = 1
	return r
}

func usWalk(s *unity.Scene) []usGot {
	var res []usGot
	var walk func(o *unity.GameObject, parent *unity.Transform, d int)
	walk = func(o *unity.GameObject, parent *unity.Transform, d int) {
		if len(res) > 400 || d > 40 {
			return
		}
		if o == nil {
			res = append(res, usGot{Depth: d, Name: "(missing)", Comps: []usComp{}, World: make([]int, 16)})
			return
		}
		g := usGot{Depth: d, Name: o.Name, Tag: o.TagString, Act: o.IsActive, Comps: []usComp{}}
		for i, c := range o.Components {
			if i > 0 {
				g.Comps = append(g.Comps, usCompOf(o.Scene.GetElement2(&c.Ref, o.PrefabInstance)))
			}
		}
		tr := o.GetTransform()
		if tr == nil {
			g.World = make([]int, 16)
			res = append(res, g)
			return
		}
		g.World = usMatrix(tr.GetWorldMatrix())
		g.Linked = tr.GetParent() == parent && tr.GetGameObject() == o
		var mr *unity.MeshRenderer
		n := 0
		for _, c := range g.Comps {
			if c.T == "MR" {
				n++
			}
		}
		if o.GetComponent(&mr) != (n > 0) {
			g.Linked = false
		}
		var mrs []*unity.MeshRenderer
		o.GetComponents(&mrs)
		if len(mrs) != n || n > 0 && mrs[0] != mr {
			g.Linked = false
		}
		res = append(res, g)
		for _, c := range tr.GetChildren() {
			walk(c.GetGameObject(), tr, d+1)
		}
	}
	for _, o := range s.Objects {
		walk(o, nil, 0)
	}
	return res
}
