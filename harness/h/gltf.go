package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"syscall"

	"geGoMetry/glTF"
	"geGoMetry/r3"
	"geGoMetry/shape"
)

// The monitors read the exported files with a reader of their own: the
// library that wrote them has no part in it.

type glb struct {
	doc struct {
		Asset struct {
			Version string `json:"version"`
		} `json:"asset"`
		Scene  *int `json:"scene"`
		Scenes []struct {
			Nodes []int `json:"nodes"`
		} `json:"scenes"`
		Nodes []struct {
			Mesh        *int        `json:"mesh"`
			Children    []int       `json:"children"`
			Matrix      []float64   `json:"matrix"`
			Translation []float64   `json:"translation"`
			Rotation    []float64   `json:"rotation"`
			Scale       []float64   `json:"scale"`
			Skin        interface{} `json:"skin"`
		} `json:"nodes"`
		Meshes []struct {
			Primitives []struct {
				Attributes map[string]int `json:"attributes"`
				Indices    *int           `json:"indices"`
				Mode       *int           `json:"mode"`
			} `json:"primitives"`
		} `json:"meshes"`
		Accessors []struct {
			BufferView    *int        `json:"bufferView"`
			ByteOffset    int         `json:"byteOffset"`
			ComponentType int         `json:"componentType"`
			Normalized    bool        `json:"normalized"`
			Count         int         `json:"count"`
			Type          string      `json:"type"`
			Max           []float64   `json:"max"`
			Min           []float64   `json:"min"`
			Sparse        interface{} `json:"sparse"`
		} `json:"accessors"`
		BufferViews []struct {
			Buffer     int  `json:"buffer"`
			ByteOffset int  `json:"byteOffset"`
			ByteLength int  `json:"byteLength"`
			ByteStride *int `json:"byteStride"`
			Target     *int `json:"target"`
		} `json:"bufferViews"`
		Buffers []struct {
			URI        *string `json:"uri"`
			ByteLength int     `json:"byteLength"`
		} `json:"buffers"`
	}
	bin []byte
}

var compSize = map[int]int{5120: 1, 5121: 1, 5122: 2, 5123: 2, 5125: 4, 5126: 4}
var typeCount = map[string]int{"SCALAR": 1, "VEC2": 2, "VEC3": 3, "VEC4": 4}

// parseGLB reads the container; every error breaks the format's rules.
func parseGLB(b []byte) (*glb, error) {
	if len(b) < 20 {
		return nil, fmt.Errorf("the file has %d bytes", len(b))
	}
	u := binary.LittleEndian.Uint32
	if string(b[:4]) != "glTF" || u(b[4:]) != 2 {
		return nil, fmt.Errorf("the file starts with %q, version %d", b[:4], u(b[4:]))
	}
	if int(u(b[8:])) != len(b) {
		return nil, fmt.Errorf("the header states %d bytes, the file has %d", u(b[8:]), len(b))
	}
	g := &glb{}
	first, haveBin := true, false
	for at := 12; at < len(b); {
		if at+8 > len(b) {
			return nil, fmt.Errorf("%d stray bytes at the end", len(b)-at)
		}
		n, typ := int(u(b[at:])), u(b[at+4:])
		if n%4 != 0 {
			return nil, fmt.Errorf("a chunk has %d bytes, not a multiple of 4", n)
		}
		if at+8+n > len(b) {
			return nil, fmt.Errorf("a chunk of %d bytes does not fit in the file", n)
		}
		data := b[at+8 : at+8+n]
		at += 8 + n
		if first {
			if typ != 0x4E4F534A {
				return nil, fmt.Errorf("the first chunk is not JSON")
			}
			first = false
			trimmed := bytes.TrimRight(data, " ")
			dec := json.NewDecoder(bytes.NewReader(trimmed))
			if err := dec.Decode(&g.doc); err != nil {
				return nil, fmt.Errorf("the JSON chunk does not parse: %v", err)
			}
			rest := trimmed[dec.InputOffset():]
			if len(bytes.Trim(rest, " \n\r\t")) != 0 {
				return nil, fmt.Errorf("the JSON chunk goes on after the document: %q", clip(string(rest), 40))
			}
			continue
		}
		if typ == 0x004E4942 {
			if haveBin {
				return nil, fmt.Errorf("two binary chunks")
			}
			haveBin = true
			g.bin = data
		}
	}
	if first {
		return nil, fmt.Errorf("no chunk")
	}
	return g, g.validate(haveBin)
}

func (g *glb) validate(haveBin bool) error {
	d := &g.doc
	if d.Asset.Version != "2.0" {
		return fmt.Errorf("asset version %q", d.Asset.Version)
	}
	for i, b := range d.Buffers {
		if b.ByteLength < 1 {
			return fmt.Errorf("buffer %d has %d bytes", i, b.ByteLength)
		}
		if b.URI != nil {
			return fmt.Errorf("buffer %d lies outside the file, at %q", i, clip(*b.URI, 30))
		}
		if i > 0 {
			return fmt.Errorf("%d buffers in one file", len(d.Buffers))
		}
		if !haveBin {
			return fmt.Errorf("no binary chunk")
		}
		if b.ByteLength > len(g.bin) || len(g.bin)-b.ByteLength > 3 {
			return fmt.Errorf("the buffer has %d bytes, the binary chunk %d", b.ByteLength, len(g.bin))
		}
		for _, x := range g.bin[b.ByteLength:] {
			if x != 0 {
				return fmt.Errorf("the binary chunk is not padded with zeros")
			}
		}
	}
	for i, v := range d.BufferViews {
		if v.Buffer < 0 || v.Buffer >= len(d.Buffers) {
			return fmt.Errorf("buffer view %d lies in buffer %d of %d", i, v.Buffer, len(d.Buffers))
		}
		if v.ByteLength < 1 || v.ByteOffset < 0 || v.ByteOffset+v.ByteLength > d.Buffers[v.Buffer].ByteLength {
			return fmt.Errorf("buffer view %d (%d bytes at %d) exceeds its buffer of %d", i, v.ByteLength, v.ByteOffset, d.Buffers[v.Buffer].ByteLength)
		}
		if v.ByteStride != nil && (*v.ByteStride < 4 || *v.ByteStride > 252 || *v.ByteStride%4 != 0) {
			return fmt.Errorf("buffer view %d has stride %d", i, *v.ByteStride)
		}
	}
	for i, a := range d.Accessors {
		if compSize[a.ComponentType] == 0 || typeCount[a.Type] == 0 {
			return fmt.Errorf("accessor %d has component type %d and type %q", i, a.ComponentType, a.Type)
		}
		if a.Sparse != nil {
			return fmt.Errorf("accessor %d is sparse", i)
		}
		if a.BufferView == nil || *a.BufferView < 0 || *a.BufferView >= len(d.BufferViews) {
			return fmt.Errorf("accessor %d has no buffer view", i)
		}
		if a.Count < 1 {
			return fmt.Errorf("accessor %d has %d elements", i, a.Count)
		}
		v := d.BufferViews[*a.BufferView]
		size := compSize[a.ComponentType] * typeCount[a.Type]
		stride := size
		if v.ByteStride != nil {
			stride = *v.ByteStride
		}
		if stride < size {
			return fmt.Errorf("accessor %d: elements of %d bytes %d apart", i, size, stride)
		}
		if (v.ByteOffset+a.ByteOffset)%compSize[a.ComponentType] != 0 || a.ByteOffset%compSize[a.ComponentType] != 0 || stride%compSize[a.ComponentType] != 0 {
			return fmt.Errorf("accessor %d is not aligned to its components", i)
		}
		if a.ByteOffset < 0 || a.ByteOffset+(a.Count-1)*stride+size > v.ByteLength {
			return fmt.Errorf("accessor %d (%d elements) exceeds its buffer view of %d bytes", i, a.Count, v.ByteLength)
		}
	}
	acc := func(i int) bool { return i >= 0 && i < len(d.Accessors) }
	for i, m := range d.Meshes {
		if len(m.Primitives) == 0 {
			return fmt.Errorf("mesh %d has no primitives", i)
		}
		for _, p := range m.Primitives {
			n := -1
			for name, a := range p.Attributes {
				if !acc(a) {
					return fmt.Errorf("attribute %s uses accessor %d of %d", name, a, len(d.Accessors))
				}
				if n >= 0 && d.Accessors[a].Count != n {
					return fmt.Errorf("attributes with %d and %d elements", n, d.Accessors[a].Count)
				}
				n = d.Accessors[a].Count
				v := d.BufferViews[*d.Accessors[a].BufferView]
				stride := compSize[d.Accessors[a].ComponentType] * typeCount[d.Accessors[a].Type]
				if v.ByteStride != nil {
					stride = *v.ByteStride
				}
				if stride%4 != 0 || (v.ByteOffset+d.Accessors[a].ByteOffset)%4 != 0 {
					return fmt.Errorf("attribute %s is not aligned to 4 bytes (stride %d)", name, stride)
				}
				if v.Target != nil && *v.Target != 34962 {
					return fmt.Errorf("attribute %s lies in a buffer view for %d", name, *v.Target)
				}
			}
			pos, ok := p.Attributes["POSITION"]
			if !ok {
				return fmt.Errorf("mesh %d has no positions", i)
			}
			a := d.Accessors[pos]
			if a.ComponentType != 5126 || a.Type != "VEC3" {
				return fmt.Errorf("positions of component type %d, type %s", a.ComponentType, a.Type)
			}
			if len(a.Min) != 3 || len(a.Max) != 3 {
				return fmt.Errorf("positions with bounds %v and %v", a.Min, a.Max)
			}
			if p.Indices == nil || !acc(*p.Indices) {
				return fmt.Errorf("mesh %d has no indices", i)
			}
			x := d.Accessors[*p.Indices]
			if x.Type != "SCALAR" || x.ComponentType != 5121 && x.ComponentType != 5123 && x.ComponentType != 5125 {
				return fmt.Errorf("indices of component type %d, type %s", x.ComponentType, x.Type)
			}
			xv := d.BufferViews[*x.BufferView]
			if xv.ByteStride != nil {
				return fmt.Errorf("indices with a stride")
			}
			if xv.Target != nil && *xv.Target != 34963 {
				return fmt.Errorf("indices lie in a buffer view for %d", *xv.Target)
			}
			limit := map[int]uint32{5121: 255, 5123: 65535, 5125: math.MaxUint32}[x.ComponentType]
			for j, q := range g.scalars(*p.Indices) {
				if int(q) >= n {
					return fmt.Errorf("index %d (number %d) of %d vertices", q, j, n)
				}
				if q == limit {
					return fmt.Errorf("index %d (number %d) is the primitive restart value", q, j)
				}
			}
		}
	}
	for i, n := range d.Nodes {
		if n.Mesh != nil && (*n.Mesh < 0 || *n.Mesh >= len(d.Meshes)) {
			return fmt.Errorf("node %d shows mesh %d of %d", i, *n.Mesh, len(d.Meshes))
		}
	}
	for i, s := range d.Scenes {
		for _, n := range s.Nodes {
			if n < 0 || n >= len(d.Nodes) {
				return fmt.Errorf("scene %d has node %d of %d", i, n, len(d.Nodes))
			}
		}
	}
	if d.Scene != nil && (*d.Scene < 0 || *d.Scene >= len(d.Scenes)) {
		return fmt.Errorf("scene %d of %d is shown", *d.Scene, len(d.Scenes))
	}
	return nil
}

// element returns the bytes of element i of an accessor.
func (g *glb) element(acc, i int) []byte {
	a := g.doc.Accessors[acc]
	v := g.doc.BufferViews[*a.BufferView]
	size := compSize[a.ComponentType] * typeCount[a.Type]
	stride := size
	if v.ByteStride != nil {
		stride = *v.ByteStride
	}
	at := v.ByteOffset + a.ByteOffset + i*stride
	return g.bin[at : at+size]
}

func (g *glb) scalars(acc int) []uint32 {
	a := g.doc.Accessors[acc]
	out := make([]uint32, a.Count)
	for i := range out {
		e := g.element(acc, i)
		switch a.ComponentType {
		case 5121:
			out[i] = uint32(e[0])
		case 5123:
			out[i] = uint32(binary.LittleEndian.Uint16(e))
		case 5125:
			out[i] = binary.LittleEndian.Uint32(e)
		}
	}
	return out
}

// shown returns the primitive a viewer would draw: of the default scene.
func (g *glb) shown() (attrs map[string]int, indices int, err error) {
	d := &g.doc
	scene := 0
	if d.Scene != nil {
		scene = *d.Scene
	}
	if scene >= len(d.Scenes) {
		return nil, 0, errors.New("no scene")
	}
	n := 0
	for _, node := range d.Scenes[scene].Nodes {
		x := d.Nodes[node]
		if x.Mesh == nil {
			continue
		}
		if len(x.Matrix) != 0 || len(x.Translation) != 0 || len(x.Rotation) != 0 || len(x.Scale) != 0 {
			if !identityTransform(x.Matrix, x.Translation, x.Rotation, x.Scale) {
				return nil, 0, errors.New("the node moves the mesh")
			}
		}
		for _, p := range d.Meshes[*x.Mesh].Primitives {
			if p.Mode != nil && *p.Mode != 4 {
				return nil, 0, fmt.Errorf("drawing mode %d instead of triangles", *p.Mode)
			}
			attrs, indices = p.Attributes, *p.Indices
			n++
		}
	}
	if n != 1 {
		return nil, 0, fmt.Errorf("%d primitives are shown", n)
	}
	return attrs, indices, nil
}

func identityTransform(m, t, r, s []float64) bool {
	for i, x := range m {
		if i%5 == 0 && x != 1 || i%5 != 0 && x != 0 {
			return false
		}
	}
	for _, x := range t {
		if x != 0 {
			return false
		}
	}
	for i, x := range r {
		if i < 3 && x != 0 || i == 3 && x != 1 {
			return false
		}
	}
	for _, x := range s {
		if x != 1 {
			return false
		}
	}
	return true
}

// ---- workloads -------------------------------------------------------------

func genMesh(k *Case) (m shape.Mesh, kind string) {
	sizes := []int{1, 2, 3, 4, 5, 8, 17, 100, 254, 255, 256, 257, 300, 1000}
	n := sizes[k.Intn(len(sizes))]
	if k.Intn(3) == 0 {
		n = 1 + k.Intn(40)
	}
	if k.Intn(40) == 0 {
		n = []int{65534, 65535, 65536, 65537, 70000}[k.Intn(5)]
	}
	coords := k.Intn(6)
	special := []float64{0, math.Copysign(0, -1), 1, -1, 1e-45, -1e-40, 1e-300, 3.4e38, -3.4e38, 1.0 / 3, 16777217, 1e10, math.Pi}
	for i := 0; i < n; i++ {
		var v r3.Vector
		switch coords {
		case 0:
			v = k.ivec(50)
		case 1:
			v = v3(special[k.Intn(len(special))], special[k.Intn(len(special))], special[k.Intn(len(special))])
		case 2:
			v = k.rvec(math.Pow(10, float64(k.Intn(60)-30)))
		case 3: // all on one side
			v = r3.Add(k.rvec(1), v3(100, -100, 50))
		case 4: // in a plane or on a line
			v = k.rvec(10)
			v.Z = 0
			if k.index%2 == 0 {
				v.Y = -3
			}
		default:
			v = k.rvec(10)
		}
		m.Vertices = append(m.Vertices, v)
	}
	t := 1 + k.Intn(60)
	switch k.Intn(4) {
	case 0:
		t = 1
	case 1:
		t = n
		if t > 3000 {
			t = 3000
		}
	}
	for i := 0; i < t*3; i++ {
		m.Indices = append(m.Indices, uint32(k.Intn(n)))
	}
	if k.Intn(3) == 0 { // the last vertices
		for i := range m.Indices {
			m.Indices[i] = uint32(n - 1 - int(m.Indices[i])%min(n, 3))
		}
	}
	kind = fmt.Sprintf("%d vertices of class %d, %d triangles", n, coords, t)
	// meshes may have normals and texture coordinates or not
	if k.Intn(3) == 0 {
		for range m.Vertices {
			m.Normals = append(m.Normals, [3]float64{0, 0, 1})
			m.TexCoords = append(m.TexCoords, [2]float64{0.5, 0.25})
		}
		kind += ", with attributes"
	}
	return
}

func cloneMesh(m shape.Mesh) shape.Mesh {
	c := m
	c.Vertices = append([]r3.Vector(nil), m.Vertices...)
	c.Indices = append([]uint32(nil), m.Indices...)
	c.Normals = append([][3]float64(nil), m.Normals...)
	c.TexCoords = append([][2]float64(nil), m.TexCoords...)
	return c
}

func sameBits(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

func sameMesh(a, b shape.Mesh) bool {
	if len(a.Vertices) != len(b.Vertices) || len(a.Indices) != len(b.Indices) || len(a.Normals) != len(b.Normals) || len(a.TexCoords) != len(b.TexCoords) {
		return false
	}
	for i, v := range a.Vertices {
		w := b.Vertices[i]
		if !sameBits(v.X, w.X) || !sameBits(v.Y, w.Y) || !sameBits(v.Z, w.Z) {
			return false
		}
	}
	for i := range a.Indices {
		if a.Indices[i] != b.Indices[i] {
			return false
		}
	}
	for i := range a.Normals {
		if a.Normals[i] != b.Normals[i] {
			return false
		}
	}
	for i := range a.TexCoords {
		if a.TexCoords[i] != b.TexCoords[i] {
			return false
		}
	}
	return true
}

func scratch(k *Case, name string) string {
	dir := filepath.Join(os.TempDir(), "verif-gltf")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(harnessError(err.Error()))
	}
	return filepath.Join(dir, name)
}

// monitorContent compares the file with the mesh.
func monitorContent(k *Case, g *glb, m shape.Mesh) {
	attrs, xi, err := g.shown()
	if err != nil {
		k.Fail("the exported file shows no single mesh: %v", err)
		return
	}
	pos := attrs["POSITION"]
	a := g.doc.Accessors[pos]
	if a.Count != len(m.Vertices) {
		k.Fail("%d vertices were exported as %d positions", len(m.Vertices), a.Count)
		return
	}
	lo := [3]float64{math.Inf(1), math.Inf(1), math.Inf(1)}
	hi := [3]float64{math.Inf(-1), math.Inf(-1), math.Inf(-1)}
	for i, v := range m.Vertices {
		e := g.element(pos, i)
		for j, x := range []float64{v.X, v.Y, v.Z} {
			got := math.Float32frombits(binary.LittleEndian.Uint32(e[4*j:]))
			if want := float32(x); got != want {
				k.Fail("coordinate %d of vertex %d, %v, was exported as %v instead of %v", j, i, x, got, want)
				return
			}
			lo[j] = math.Min(lo[j], float64(float32(x)))
			hi[j] = math.Max(hi[j], float64(float32(x)))
		}
	}
	for j := range lo {
		// the bounds are numbers in a JSON text: equal as single-precision numbers
		if float32(a.Min[j]) != float32(lo[j]) || float32(a.Max[j]) != float32(hi[j]) {
			k.Fail("the bounds of the positions are %v and %v instead of %v and %v", a.Min, a.Max, lo, hi)
			return
		}
	}
	idx := g.scalars(xi)
	if len(idx) != len(m.Indices) {
		k.Fail("%d indices were exported as %d", len(m.Indices), len(idx))
		return
	}
	for i, x := range m.Indices {
		if idx[i] != x {
			k.Fail("index number %d, %d, was exported as %d", i, x, idx[i])
			return
		}
	}
	col, ok := attrs["COLOR_0"]
	if !ok {
		k.Fail("no colors were exported")
		return
	}
	ca := g.doc.Accessors[col]
	for i := 0; i < ca.Count; i++ {
		e := g.element(col, i)
		for j := 0; j < typeCount[ca.Type]; j++ {
			white := false
			switch ca.ComponentType {
			case 5121:
				white = e[j] == 255 && ca.Normalized
			case 5123:
				white = binary.LittleEndian.Uint16(e[2*j:]) == 65535 && ca.Normalized
			case 5126:
				white = math.Float32frombits(binary.LittleEndian.Uint32(e[4*j:])) == 1
			}
			if !white {
				k.Fail("vertex %d is not white: %v", i, e)
				return
			}
		}
	}
	k.c.Obs("vertices read back", len(m.Vertices))
	k.c.Obs("indices read back", len(idx))
}

func export(k *Case, m shape.Mesh, path string) []byte {
	before := cloneMesh(m)
	if p := catch(func() { glTF.Export(m, path) }); p != nil {
		k.Fail("exporting to %s panics: %v", filepath.Base(path), p)
		return nil
	}
	if !sameMesh(before, m) {
		k.Fail("exporting changed the mesh")
		return nil
	}
	b, err := os.ReadFile(path)
	if err != nil {
		k.Fail("nothing was exported: %v", err)
		return nil
	}
	return b
}

func meshInput(kind string, m shape.Mesh) interface{} {
	in := map[string]interface{}{"kind": kind}
	if len(m.Vertices) <= 12 && len(m.Indices) <= 60 {
		in["vertices"] = fmt.Sprint(m.Vertices)
		in["indices"] = m.Indices
	}
	return in
}

func runExport(c *Ctx) {
	one := func(k *Case, m shape.Mesh, kind string) {
		k.Input(meshInput(kind, m))
		k.Seen(kind, fmt.Sprint(m.Vertices[:min(len(m.Vertices), 20)]), fmt.Sprint(m.Indices[:min(len(m.Indices), 30)]))
		path := scratch(k, "out.glb")
		b := export(k, m, path)
		if k.Failed() {
			return
		}
		g, err := parseGLB(b)
		if err != nil {
			k.Fail("the exported file of %s is broken: %v", kind, err)
			return
		}
		monitorContent(k, g, m)
	}
	c.Sub("random meshes", c.N(2500, 40000), func(k *Case) {
		m, kind := genMesh(k)
		one(k, m, kind)
	})
	c.Sub("meshes of shapes", c.N(40, 600), func(k *Case) {
		o, _ := genSolid(k, builders{}, true, []string{"sphere", "torus", "circle", "ellipse", "circle", "ellipse", "circle", "ellipse"}[k.index%8])
		kind := o.String()
		one(k, o.mesh, kind)
	})
	c.Sub("sizes around the limits of index types", c.N(18, 36), func(k *Case) {
		n := []int{254, 255, 256, 257, 65534, 65535, 65536, 65537, 65538, 131072, 3, 4, 200000, 100000, 1 << 18, 1<<18 + 1, 300001, 1<<19 + 3}[k.index%18]
		m := shape.Mesh{}
		for i := 0; i < n; i++ {
			m.Vertices = append(m.Vertices, v3(float64(i), float64(-i), float64(i%7)))
		}
		for i := 0; i < 300; i++ {
			m.Indices = append(m.Indices, uint32(n-1), uint32(k.Intn(n)), uint32(i%n))
		}
		for i := 0; i+2 < n; i += 3 {
			m.Indices = append(m.Indices, uint32(i), uint32(i+1), uint32(i+2))
		}
		one(k, m, fmt.Sprintf("%d vertices in a row", n))
	})
	c.Sub("repeated exports", c.N(300, 5000), func(k *Case) {
		// a history of exports to a few files: each file holds the last mesh
		// exported to it, whatever was there before
		type entry struct{ m shape.Mesh }
		last := map[string]entry{}
		names := []string{"a.glb", "b.glb", "with space.glb", "ünïcode.glb", "no-extension", "d.gltf"}
		var log []string
		steps := 3 + k.Intn(6)
		for i := 0; i < steps; i++ {
			m, kind := genMesh(k)
			if len(m.Vertices) > 2000 {
				m.Vertices = m.Vertices[:2000]
				for j := range m.Indices {
					m.Indices[j] %= 2000
				}
				m.Normals, m.TexCoords = nil, nil
			}
			name := names[k.Intn(len(names))]
			path := scratch(k, name)
			if k.Intn(5) == 0 { // something else is in the way
				os.WriteFile(path, bytes.Repeat([]byte("garbage "), k.Intn(20000)), 0o644)
			}
			if k.Intn(4) == 0 { // an export that fails leaves no trace
				bad, _ := genMesh(k)
				to := []string{"missing-directory/out.glb", "", "full.glb"}[k.Intn(3)]
				if to != "" {
					to = scratch(k, to)
				}
				try := func() { catch(func() { glTF.Export(bad, to) }) }
				if filepath.Base(to) == "full.glb" {
					withFileLimit(0, try)
				} else {
					try()
				}
				log = append(log, "a failure")
				k.c.Obs("failed exports in histories", 1)
			}
			log = append(log, name+": "+kind)
			k.Input(log)
			if export(k, m, path); k.Failed() {
				return
			}
			last[name] = entry{m}
		}
		k.Seen(log)
		var order []string
		for name := range last {
			order = append(order, name)
		}
		sort.Strings(order)
		for _, name := range order {
			b, err := os.ReadFile(scratch(k, name))
			if err != nil {
				k.Fail("%s is gone: %v", name, err)
				return
			}
			g, err := parseGLB(b)
			if err != nil {
				k.Fail("%s is broken: %v", name, err)
				return
			}
			monitorContent(k, g, last[name].m)
			if k.Failed() {
				return
			}
			os.Remove(scratch(k, name))
		}
		k.c.Obs("exports in histories", steps)
	})
}

// withFileLimit runs f while no file of this process can grow beyond n bytes.
func withFileLimit(n int, f func()) bool {
	signal.Ignore(syscall.SIGXFSZ)
	defer signal.Reset(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old) != nil {
		return false
	}
	if syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max}) != nil {
		return false
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
	return true
}

func runContainer(c *Ctx) {
	c.Sub("container of random meshes", c.N(2500, 40000), func(k *Case) {
		m, kind := genMesh(k)
		k.Input(meshInput(kind, m))
		k.Seen(kind, fmt.Sprint(m.Vertices[:min(len(m.Vertices), 20)]))
		path := scratch(k, "container.glb")
		old := 0
		switch k.Intn(3) {
		case 0:
			os.Remove(path)
		case 1: // a longer file
			old = 1 << 20
			os.WriteFile(path, bytes.Repeat([]byte{7}, old), 0o644)
		}
		b := export(k, m, path)
		if k.Failed() {
			return
		}
		if _, err := parseGLB(b); err != nil {
			k.Fail("the exported file of %s is broken: %v", kind, err)
			return
		}
		k.c.Obs("files parsed", 1)
		k.c.Obs("bytes parsed", len(b))
		if n, ok := descriptors(path); ok {
			if n > 0 {
				k.Fail("exporting %s leaves the file open", kind)
				return
			}
			k.c.Obs("files closed after exporting", 1)
		}
		// the same mesh gives the same file
		if k.Intn(4) == 0 {
			b2 := export(k, m, scratch(k, "again.glb"))
			if !k.Failed() && !bytes.Equal(b, b2) {
				k.Fail("two exports of %s differ", kind)
			}
		}
	})
	c.Sub("a directory of its own", c.N(60, 600), func(k *Case) {
		dir := scratch(k, "alone")
		os.RemoveAll(dir)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			panic(harnessError(err.Error()))
		}
		m, kind := genMesh(k)
		k.Input(meshInput(kind, m))
		k.Seen(kind, fmt.Sprint(m.Vertices[:min(len(m.Vertices), 20)]))
		var names []string
		for i, n := 0, 1+k.Intn(3); i < n; i++ {
			name := fmt.Sprintf("out-%d.glb", i)
			names = append(names, name)
			if b := export(k, m, filepath.Join(dir, name)); b == nil {
				return
			}
		}
		entries, err := os.ReadDir(dir)
		if err != nil {
			panic(harnessError(err.Error()))
		}
		if len(entries) != len(names) {
			k.Fail("exporting %v leaves %v in the directory", names, entries)
			return
		}
		k.c.Obs("directories listed", 1)
	})
	c.Sub("files that cannot be written", c.N(400, 4000), func(k *Case) {
		m, kind := genMesh(k)
		path, what, room := "", "", -1
		switch k.Intn(6) {
		case 0:
			path, what = scratch(k, "missing-directory/out.glb"), "in a missing directory"
		case 1:
			path, what = scratch(k, "a-directory"), "a directory"
			os.MkdirAll(path, 0o755)
		case 2:
			// /dev/full would do, but whoever replaces the file to be written
			// would replace the device
			path, what, room = scratch(k, "full.glb"), "on a full device", 0
			if os.Remove(path); k.Intn(2) == 0 {
				os.WriteFile(path, bytes.Repeat([]byte{7}, 1+k.Intn(20000)), 0o644)
			}
		case 3:
			f := scratch(k, "a-file")
			os.WriteFile(f, []byte("x"), 0o644)
			path, what = f+"/out.glb", "below a file"
		case 4:
			path, what = "", "without a name"
		case 5: // the device fills up on the way
			path, what = scratch(k, "filled.glb"), "on a device that fills up"
			os.Remove(path)
			full := len(export(k, m, path))
			if k.Failed() {
				return
			}
			os.Remove(path)
			if room = 1 + k.Intn(full-1); k.Intn(3) == 0 {
				room = full - 1 - k.Intn(full/8+1)
			}
		}
		k.Input(map[string]interface{}{"kind": kind, "output": what})
		k.Seen(what, kind)
		before := cloneMesh(m)
		var p interface{}
		write := func() { p = catch(func() { glTF.Export(m, path) }) }
		if room >= 0 {
			if !withFileLimit(room, write) {
				return
			}
		} else {
			write()
		}
		if p == nil {
			k.Fail("exporting %s to a file %s is not reported (room for %d bytes)", kind, what, room)
			return
		}
		if !sameMesh(before, m) {
			k.Fail("exporting changed the mesh")
			return
		}
		k.c.Obs("failures reported: "+what, 1)
		// the next export works
		if k.Intn(5) == 0 {
			b := export(k, m, scratch(k, "after.glb"))
			if k.Failed() {
				return
			}
			if _, err := parseGLB(b); err != nil {
				k.Fail("the file exported after a failure is broken: %v", err)
			}
		}
	})
}

func init() {
	register("C23", "random meshes of 1 to 70000 (some to 2^19) vertices (integers, single-precision limits, subnormals, 60 decades), shapes, sizes around 2^8 and 2^16, histories of exports over existing files; files are read back by an independent reader and compared bit by bit; distinct by mesh", runExport,
		"meshes have at least one vertex and one triangle, indices are in range, coordinates fit in single precision")
	register("C24", "random meshes exported over missing, shorter and longer files and to places that cannot be written; every file is checked against the rules of the binary glTF container; distinct by mesh", runContainer,
		"meshes have at least one vertex and one triangle, indices are in range, coordinates fit in single precision")
}
