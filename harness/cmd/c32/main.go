// c32: reading a file yields exactly the geometries written in it.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"github.com/TopoSimplify/plugin/geometry"
	"github.com/intdxdt/geom"

	"verifharness/run"
)

// item: one geometry as written
type item struct {
	line  int // line of the file it is on
	kind  string
	rings [][][]float64 // one for points and lines
	props map[string]interface{}
}

type writer struct {
	r     *rand.Rand
	b     strings.Builder
	items []item
	nline int
}

func (w *writer) sp() string {
	return []string{"", "", "", " ", "  ", "\t"}[w.r.Intn(6)]
}

// number: a float in one of its notations
func (w *writer) number() (float64, string) {
	r := w.r
	var v float64
	switch r.Intn(7) {
	case 0:
		v = float64(r.Intn(2001) - 1000)
	case 1:
		v = float64(r.Intn(200001)-100000) / 1000
	case 2:
		v = r.NormFloat64() * math.Pow(10, float64(r.Intn(20)-10))
	case 3:
		v = float64(r.Int63n(1<<53) - 1<<52)
	case 4:
		v = []float64{0, math.Copysign(0, -1), 1e-300, 4.9e-324, 1e300, 180, -90, 0.1, 1.0 / 3}[r.Intn(9)]
	default:
		v = (r.Float64() - 0.5) * 360
	}
	s := strconv.FormatFloat(v, []byte("gef")[r.Intn(3)], -1, 64)
	if len(s) > 60 {
		s = strconv.FormatFloat(v, 'g', -1, 64)
	}
	switch r.Intn(8) {
	case 0:
		s = strconv.FormatFloat(v, 'E', -1, 64)
	case 1:
		if !strings.ContainsAny(s, ".eE") {
			s += ".0"
		}
	}
	return v, s
}

func (w *writer) coord(dim int) ([]float64, string) {
	var a []float64
	var t []string
	for i := 0; i < dim; i++ {
		v, s := w.number()
		a = append(a, v)
		t = append(t, w.sp()+s+w.sp())
	}
	return a, "[" + strings.Join(t, ",") + "]"
}

func (w *writer) coords(n int) ([][]float64, string) {
	var a [][]float64
	var t []string
	dim := 2 + w.r.Intn(2)
	mixed := w.r.Intn(6) == 0
	for i := 0; i < n; i++ {
		d := dim
		if mixed {
			d = 2 + w.r.Intn(2)
		}
		c, s := w.coord(d)
		a = append(a, c)
		t = append(t, s)
	}
	return a, "[" + strings.Join(t, w.sp()+","+w.sp()) + "]"
}

func (w *writer) n(lo int) int {
	if w.r.Intn(20000) == 0 { // some megabytes
		return 150000
	}
	return lo + w.r.Intn([]int{2, 5, 20, 200}[w.r.Intn(4)])
}

// ring: closed
func (w *writer) ring() ([][]float64, string) {
	k := 3 + w.r.Intn(8)
	switch n := w.r.Intn(400); {
	case n == 0:
		k = 3 + w.r.Intn(2500)
	case n < 8:
		k = 3 + w.r.Intn(300)
	case n < 24:
		k = 3 + w.r.Intn(40)
	}
	a, s := w.coords(k)
	var c []string
	for _, v := range a[0] {
		c = append(c, strconv.FormatFloat(v, 'g', -1, 64))
	}
	return append(a, a[0]), s[:len(s)-1] + ",[" + strings.Join(c, ",") + "]]"
}

func (w *writer) part(kind string) ([][][]float64, string) {
	switch kind {
	case "Point":
		c, s := w.coord(2 + w.r.Intn(2))
		return [][][]float64{{c}}, s
	case "LineString":
		c, s := w.coords(w.n(2))
		return [][][]float64{c}, s
	}
	var rs [][][]float64
	var t []string
	n := 1 + w.r.Intn(3)*w.r.Intn(2)
	if w.r.Intn(40) == 0 {
		n = 5 + w.r.Intn(60)
	}
	for ; n > 0; n-- {
		c, s := w.ring()
		rs = append(rs, c)
		t = append(t, s)
	}
	return rs, "[" + strings.Join(t, ","+w.sp()) + "]"
}

// geometry: appends the parts to the items
func (w *writer) geometry(props map[string]interface{}) string {
	kind := []string{"Point", "LineString", "LineString", "Polygon"}[w.r.Intn(4)]
	name, body := kind, ""
	if w.r.Intn(3) == 0 {
		name = "Multi" + kind
		var t []string
		n := w.r.Intn(5)
		if w.r.Intn(40) == 0 {
			n = 5 + w.r.Intn(300)
		}
		for ; n >= 0; n-- {
			if n == 0 && w.r.Intn(4) > 0 {
				break
			}
			a, s := w.part(kind)
			w.items = append(w.items, item{w.nline, kind, a, props})
			t = append(t, s)
		}
		body = "[" + strings.Join(t, ",") + "]"
	} else {
		a, s := w.part(kind)
		w.items = append(w.items, item{w.nline, kind, a, props})
		body = s
	}
	return w.object([]string{`"type":` + w.sp() + `"` + name + `"`, `"coordinates":` + w.sp() + body})
}

func (w *writer) object(fields []string) string {
	w.r.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
	return "{" + w.sp() + strings.Join(fields, w.sp()+","+w.sp()) + w.sp() + "}"
}

func (w *writer) props() map[string]interface{} {
	if w.r.Intn(5) == 0 {
		return nil
	}
	m := map[string]interface{}{}
	for n := w.r.Intn(4); n > 0; n-- {
		k := []string{"name", "id", "a b", "größe", "type", "coordinates", "x\"y", ""}[w.r.Intn(8)]
		switch w.r.Intn(6) {
		case 0:
			m[k] = float64(w.r.Intn(1 << 30))
		case 1:
			m[k] = "Straße \\ \"1\" \u2028 <&>"
		case 2:
			m[k] = nil
		case 3:
			m[k] = []interface{}{1.5, "x", true, map[string]interface{}{"k": false}}
		case 4:
			m[k] = w.r.Intn(2) == 0
		default:
			m[k] = w.r.NormFloat64()
		}
	}
	return m
}

func (w *writer) feature() string {
	p := w.props()
	f := []string{`"type":"Feature"`}
	if p != nil {
		t, _ := json.Marshal(p)
		f = append(f, `"properties":`+string(t))
	} else if w.r.Intn(2) == 0 {
		f = append(f, `"properties":null`)
	}
	f = append(f, `"geometry":`+w.geometry(p))
	switch w.r.Intn(5) {
	case 0:
		f = append(f, `"id":17`)
	case 1:
		f = append(f, `"bbox":[0,0,1,1]`)
	}
	return w.object(f)
}

func (w *writer) file(collections bool) {
	lines := 1 + w.r.Intn([]int{2, 6, 40}[w.r.Intn(3)])
	if w.r.Intn(100) == 0 { // nothing at all
		lines = 0
	}
	if w.r.Intn(400) == 0 {
		lines = 300 + w.r.Intn(1500)
	}
	for i := 0; i < lines; i++ {
		if i > 0 {
			w.b.WriteString([]string{"\n", "\n", "\r\n", "\n\n", "\n  \n", " \n"}[w.r.Intn(6)])
		}
		switch k := w.r.Intn(10); {
		case k < 4:
			w.b.WriteString(w.sp() + w.geometry(nil) + w.sp())
		case k < 8 || !collections:
			w.b.WriteString(w.sp() + w.feature() + w.sp())
		default:
			var fs []string
			n := w.r.Intn(4)
			if w.r.Intn(20) == 0 {
				n = 4 + w.r.Intn(80)
			}
			for ; n > 0; n-- {
				fs = append(fs, w.feature())
			}
			w.b.WriteString(w.object([]string{`"type":"FeatureCollection"`, `"features":[` + strings.Join(fs, ",") + "]"}))
		}
		w.nline++
	}
	w.b.WriteString([]string{"", "\n", "\n\n", " \r\n"}[w.r.Intn(4)])
}

func same(c geom.Coords, want [][]float64) string {
	if c.Len() != len(want) {
		return fmt.Sprintf("%d coordinates, written %d", c.Len(), len(want))
	}
	for i, p := range want {
		q := c.Pt(i)
		for k := 0; k < 3; k++ {
			v := 0.0
			if k < len(p) {
				v = p[k]
			}
			if q[k] != v {
				return fmt.Sprintf("coordinate %d of vertex %d is %v, written %v", k, i, q[k], v)
			}
		}
	}
	return ""
}

func sameMeta(meta string, want map[string]interface{}) string {
	var got map[string]interface{}
	if err := json.Unmarshal([]byte(meta), &got); err != nil {
		return "properties are not JSON: " + meta
	}
	if len(got) == 0 && len(want) == 0 {
		return ""
	}
	// through JSON once, like the file
	t, _ := json.Marshal(want)
	want = nil
	json.Unmarshal(t, &want)
	if !reflect.DeepEqual(got, want) {
		return fmt.Sprintf("properties %v, written %v", got, want)
	}
	return ""
}

// sameRing: the vertices of a ring, from wherever it starts
func sameRing(c geom.Coords, want [][]float64) string {
	return same(c, want)
}

func main() {
	R := run.Start("C32")
	R.Rule = "files of bare geometries, features and feature collections of all kinds, single and multi-part, 2D and 3D, numbers in all notations from 1e-300 to 1e300, with blank lines, carriage returns and white space; non-trivial: the file has at least two geometries of different kinds"
	R.Assume = []string{"polygons of at least three vertices, polylines of at least two", "no null geometries and no geometry collections"}
	R.Parallel(R.N(20000, 200000), func(j int, r *rand.Rand) {
		w := &writer{r: r}
		coll := r.Intn(3) == 0
		w.file(coll)
		f := filepath.Join(R.Dir, fmt.Sprintf("f%d.json", j))
		if err := os.WriteFile(f, []byte(w.b.String()), 0o644); err != nil {
			R.Inconclusive(err.Error())
			return
		}
		defer os.Remove(f)
		bad := func(msg string) {
			t := w.b.String()
			if len(t) > 4000 {
				t = t[:4000] + "..."
			}
			R.Violate(msg+"\nfile:\n"+t, map[string]interface{}{"file": w.b.String()})
		}
		R.Eval(2)
		cons := geometry.ReadInputConstraints(f)
		if len(cons) != len(w.items) {
			bad(fmt.Sprintf("read %d constraints, written %d", len(cons), len(w.items)))
			return
		}
		kinds := map[string]bool{}
		for i, it := range w.items {
			kinds[it.kind] = true
			msg, meta, id := "", "", ""
			switch g := cons[i].(type) {
			case geometry.Point:
				id, meta = g.Id, g.Meta
				if it.kind != "Point" {
					msg = "is a point, written a " + it.kind
					break
				}
				msg = same(geom.Coordinates([]geom.Point{g.G}), it.rings[0])
			case *geometry.Polyline:
				id, meta = g.Id, g.Meta
				if it.kind != "LineString" {
					msg = "is a line, written a " + it.kind
					break
				}
				msg = same(g.Coordinates, it.rings[0])
			case geometry.Polygon:
				id, meta = g.Id, g.Meta
				if it.kind != "Polygon" {
					msg = "is a polygon, written a " + it.kind
					break
				}
				if len(g.G.Holes) != len(it.rings)-1 {
					msg = fmt.Sprintf("has %d holes, written %d", len(g.G.Holes), len(it.rings)-1)
					break
				}
				msg = sameRing(g.G.Shell.Coordinates, it.rings[0])
				for h := range g.G.Holes {
					if msg == "" {
						msg = sameRing(g.G.Holes[h].Coordinates, it.rings[h+1])
					}
				}
			default:
				msg = fmt.Sprintf("is a %T", g)
			}
			if msg == "" {
				msg = sameMeta(meta, it.props)
			}
			if msg == "" && id == "" {
				msg = "has no identity"
			}
			if msg != "" {
				bad(fmt.Sprintf("constraint %d %s", i, msg))
				return
			}
			R.Count("constraints read: "+it.kind, 1)
		}
		var lines []item
		for _, it := range w.items {
			if it.kind == "LineString" {
				lines = append(lines, it)
			}
		}
		plns := geometry.ReadInputPolylines(f)
		if len(plns) != len(lines) {
			bad(fmt.Sprintf("read %d polylines, written %d", len(plns), len(lines)))
			return
		}
		ids := map[string]bool{}
		for i, p := range plns {
			msg := same(p.Coordinates, lines[i].rings[0])
			if msg == "" {
				msg = sameMeta(p.Meta, lines[i].props)
			}
			if msg == "" && !coll && ids[p.Id] {
				msg = "has the identity of another: " + p.Id
			}
			ids[p.Id] = true
			if msg != "" {
				bad(fmt.Sprintf("polyline %d %s", i, msg))
				return
			}
			R.Count("polylines read", 1)
		}
		if len(kinds) > 1 {
			R.Nontrivial(w.b.String())
		}
	})
	R.Finish()
}
