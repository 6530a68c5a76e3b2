// c34: ranges, sub-polylines, pieces and wrapped geometries stand for what they were made
// from.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/ctx"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
	"github.com/intdxdt/mbr"

	"verifharness/gen"
	"verifharness/geo"
	"verifharness/lib"
	"verifharness/run"
)

type obs struct {
	r *rand.Rand
	F lib.Frame
	c geo.Chain
}

func box(F lib.Frame, b mbr.MBR, c geo.Chain) string {
	x0, y0, x1, y1 := c.Box()
	a, e := F.P(geo.P{X: x0, Y: y0})
	f, g := F.P(geo.P{X: x1, Y: y1})
	if b.MinX != a || b.MinY != e || b.MaxX != f || b.MaxY != g {
		return fmt.Sprintf("extent %v instead of %v", b, []float64{a, e, f, g})
	}
	return ""
}

// coords: are these the vertices i to e, by index and by value, with their third coordinates?
func (o *obs) coords(what string, cs geom.Coords, idx []int) string {
	if fmt.Sprint(cs.Idxs) != fmt.Sprint(idx) {
		return fmt.Sprintf("%s has vertices %v instead of %v", what, cs.Idxs, idx)
	}
	for k, i := range idx {
		x, y := o.F.P(o.c[i])
		if p := cs.Pt(k); p[0] != x || p[1] != y || p[2] != float64(i+1) {
			return fmt.Sprintf("vertex %d of %s is %v", k, what, *p)
		}
	}
	return ""
}

func ints(i, e, s int) []int {
	out := []int{}
	for ; i <= e; i += s {
		out = append(out, i)
	}
	return out
}

func any(ms ...string) string {
	for _, m := range ms {
		if m != "" {
			return m
		}
	}
	return ""
}

func differ(what string, got, want interface{}) string {
	if g, w := fmt.Sprint(got), fmt.Sprint(want); g != w {
		return fmt.Sprintf("%s: %s instead of %s", what, g, w)
	}
	return ""
}

// ranges of whole numbers
func ranges(r *rand.Rand) string {
	n := []int{2, 4, 12, 100}[r.Intn(4)]
	pick := func() (int, int) {
		a := r.Intn(n)
		return a, a + 1 + r.Intn(n)
	}
	i, j := pick()
	k, l := pick()
	switch r.Intn(4) {
	case 0:
		k, l = j, j+1+r.Intn(n)
	case 1:
		k, l = i, j
	}
	a, b := rng.Range(i, j), rng.Range(k, l)
	s := 1 + r.Intn(4)
	strides := any(
		differ("stride", a.Stride(), ints(i, j, 1)),
		differ("stride", a.Stride(s), ints(i, j, s)),
		differ("exclusive stride", a.ExclusiveStride(), ints(i+1, j-1, 1)),
		differ("exclusive stride", a.ExclusiveStride(s), ints(i+1, j-1, s)))
	arr := a.AsSlice()
	arr[0] = -7
	return any(strides,
		differ("size", a.Size(), j-i),
		differ("ends", []int{a.I, a.J}, []int{i, j}),
		differ("array", a.AsArray(), []int{i, j}),
		differ("slice", a.AsSlice(), []int{i, j}),
		differ("equality", []bool{a.Equals(b), b.Equals(a), a.Equals(a)}, []bool{i == k && j == l, i == k && j == l, true}),
		differ(fmt.Sprintf("%v and %v adjacent", a, b), []bool{a.Contiguous(b), b.Contiguous(a)}, []bool{j == k || l == i, j == k || l == i}))
}

// contexts: a wrapped geometry answers as the geometry, and knows its kind.
func contexts(r *rand.Rand, F lib.Frame, c geo.Chain) string {
	n := 1 + r.Intn(6)
	var all []*ctx.ContextGeometry
	var objs []interface{}
	other := F.Line(0, c).LineString
	for k := 0; k < n; k++ {
		g := gen.Constraint(r, []geo.Chain{c})
		w := F.Constraint(k, g)
		raw := w.Geometry()
		o := ctx.New(w, r.Intn(9), r.Intn(9))
		kind := r.Intn(6)
		want := []bool{false, false, false, false, false, false}
		if r.Intn(5) > 0 {
			switch kind {
			case 0:
				o = o.AsSelf()
			case 1:
				o = o.AsPlanarVertex()
			case 2:
				o = o.AsNonPlanarVertex()
			case 3:
				o = o.AsPlanarSegment()
			case 4:
				o = o.AsLinearSimple()
			case 5:
				o = o.AsContextNeighbour()
			}
			want[kind] = true
		} else {
			want[0] = true
		}
		var lines []geo.Chain
		if g.Kind == "Polygon" {
			lines = g.Rings
		} else {
			lines = []geo.Chain{g.Pts}
		}
		msg := any(
			differ("kind", []bool{o.IsSelf(), o.IsPlanarVertex(), o.IsNonPlanarVertex(), o.IsPlanarSegment(), o.IsLinearSimple(), o.IsContextNeighbour()}, want),
			differ("text", []string{o.WKT(), o.String()}, []string{raw.WKT(), raw.WKT()}),
			differ("type", o.Type(), raw.Type()),
			differ("parts", len(o.AsLinear()), len(raw.AsLinear())),
			differ("intersects the line", o.Intersects(other), g.Intersects(c)),
			box(F, o.Bounds(), lines[0]), box(F, *o.BBox(), lines[0]))
		if msg != "" {
			return fmt.Sprintf("wrapped %v: %s", g, msg)
		}
		d, e := o.Distance(other), g.Dist(c)*F.Scale()
		if math.Abs(d-e) > 1e-9*(1+e)*math.Max(1, F.Scale()) {
			return fmt.Sprintf("wrapped %v: distance %v instead of %v", g, d, e)
		}
		if (len(o.Intersection(other)) > 0) != g.Intersects(c) {
			return fmt.Sprintf("wrapped %v: %d intersections", g, len(o.Intersection(other)))
		}
		all = append(all, o)
		objs = append(objs, o)
	}
	k := r.Intn(n + 1)
	cs := ctx.NewContexts(append([]*ctx.ContextGeometry{}, all[:k]...)...)
	if r.Intn(2) == 0 {
		cs.Extend(all[k:])
	} else {
		for _, o := range all[k:] {
			cs.Push(o)
		}
	}
	if r.Intn(3) == 0 {
		cs = ctx.NewContextsFromObjects(objs)
	}
	if r.Intn(4) == 0 {
		cs = all[0].AsContextGeometries(all[1:]...)
	}
	if cs.Len() != n || len(cs.DataView()) != n {
		return fmt.Sprintf("%d contexts instead of %d", cs.Len(), n)
	}
	for i, o := range cs.DataView() {
		if o != all[i] {
			return fmt.Sprintf("context %d is another", i)
		}
	}
	cs.Sort()
	seen := map[*ctx.ContextGeometry]bool{}
	for i, o := range cs.DataView() {
		seen[o] = true
		if i > 0 && cs.DataView()[i-1].I > o.I {
			return "sorted contexts are out of order"
		}
	}
	if len(seen) != n {
		return "sorting loses contexts"
	}
	return ""
}

func main() {
	R := run.Start("C34")
	R.Rule = "stretches of random polylines taken as ranges, sub-polylines, segments and pieces, pairs of ranges of all positions, and constraint geometries wrapped as contexts of all kinds; non-trivial: stretches of at least three vertices that are not the whole polyline"
	R.Assume = []string{"ranges of at least two vertices", "distances within 1e-9"}
	R.Parallel(R.N(150000, 2000000), func(j int, r *rand.Rand) {
		c := gen.AnyLine(r, []int{5, 9, 25, 60}[r.Intn(4)])
		F := lib.AnyFrame(r)
		o := &obs{r, F, c}
		n := len(c)
		i := r.Intn(n - 1)
		e := i + 1 + r.Intn(n-1-i)
		w := rng.Range(i, e)
		pln := F.Line(7, c)
		pln.Meta = `{"k":1}`
		all := ints(0, n-1, 1)
		stretch := ints(i, e, 1)
		fail := func(msg string) {
			R.Violate(fmt.Sprintf("%s\nstretch %d-%d of %v\n%v", msg, i, e, c, F), map[string]interface{}{"line": fmt.Sprint(c), "stretch": []int{i, e}, "frame": F.String()})
		}
		R.Eval(4)
		if msg := ranges(r); msg != "" {
			fail("ranges: " + msg)
			return
		}
		if msg := contexts(r, F, c); msg != "" {
			fail("contexts: " + msg)
			return
		}

		// the polyline and parts of it
		sc := pln.SubCoordinates(w)
		sp := pln.SubPolyline(w)
		ss := pln.Segment(i, e)
		cc := common.SubCoordinates(pln.LineString, w)
		msg := any(
			differ("range of the polyline", pln.Range(), rng.Range(0, n-1)),
			differ("length of the polyline", pln.Len(), n),
			o.coords("the sub-coordinates", sc, stretch),
			o.coords("the common sub-coordinates", cc, stretch),
			o.coords("the sub-polyline", sp.Coordinates, stretch),
			o.coords("the segment", ss.Coords, []int{i, e}),
			differ("range of the sub-polyline", sp.Range(), w),
			differ("length of the sub-polyline", sp.Len(), e-i+1),
			differ("identity and properties of the sub-polyline", []string{sp.Id, sp.Meta}, []string{pln.Id, pln.Meta}))
		for _, x := range []struct {
			what string
			p    *geometry.Polyline
			at   int
			n    int
		}{{"the polyline", pln, 0, n}, {"the sub-polyline", sp, i, e - i + 1}} {
			bs := x.p.SegmentBounds()
			if msg == "" && len(bs) != x.n-1 {
				msg = fmt.Sprintf("%d extents of segments of %s", len(bs), x.what)
			}
			for k := 0; msg == "" && k < len(bs); k++ {
				a := x.at + k
				msg = any(differ(fmt.Sprintf("segment %d of %s", k, x.what), []int{bs[k].I, bs[k].J}, []int{a, a + 1}), box(F, bs[k].MBR, c[a:a+2]))
			}
			if msg == "" {
				msg = box(F, x.p.Bounds(), c[x.at:x.at+x.n])
			}
		}
		if msg != "" {
			fail(msg)
			return
		}

		// pieces
		ids := iter.NewIgen()
		var cut [][]int
		for a := i; a < e; {
			b := min(e, a+1+r.Intn(5))
			cut = append(cut, []int{a, b})
			a = b
		}
		hs := common.CreateHulls(ids, cut, pln.Coordinates, nil)
		if len(hs) != len(cut) {
			fail(fmt.Sprintf("%d pieces of %v", len(hs), cut))
			return
		}
		used := map[int]bool{}
		for k := range hs {
			h := &hs[k]
			a, b := cut[k][0], cut[k][1]
			p, q := h.SegmentPoints()
			px, py := F.P(c[a])
			qx, qy := F.P(c[b])
			sub := c[a : b+1]
			msg := any(
				differ("range", h.Range, rng.Range(a, b)),
				o.coords("the piece", h.Coordinates(), ints(a, b, 1)),
				o.coords("its segment", h.Segment().Coords, []int{a, b}),
				o.coords("its segment as polyline", h.SegmentAsPolyline().Coordinates, []int{a, b}),
				differ("ends", [][]float64{{p[0], p[1]}, {q[0], q[1]}, {h.First()[0], h.First()[1]}, {h.Last()[0], h.Last()[1]}},
					[][]float64{{px, py}, {qx, qy}, {px, py}, {qx, qy}}),
				box(F, h.MBR, sub), box(F, h.Bounds(), sub), box(F, *h.BBox(), sub),
				differ("text", h.String(), h.Geometry().WKT()))
			if msg == "" && used[h.Id] {
				msg = "has the identity of another"
			}
			used[h.Id] = true
			want := geo.HullGeom(sub)
			if msg == "" {
				for _, v := range []geo.P{{X: c[a].X + r.Int63n(9) - 4, Y: c[a].Y + r.Int63n(9) - 4}, sub[r.Intn(len(sub))]} {
					x, y := F.P(v)
					if want.Kind == "Polygon" && h.Geom.Intersects(geom.Pt(x, y)) != want.Covers(v) {
						msg = fmt.Sprintf("hull and %v: %v", v, !want.Covers(v))
					}
				}
			}
			if msg != "" {
				fail(fmt.Sprintf("piece %v: %s", cut[k], msg))
				return
			}
		}
		// the ends of the pieces as a set, and pieces in order
		perm := append([]node.Node{}, hs...)
		r.Shuffle(len(perm), func(a, b int) { perm[a], perm[b] = perm[b], perm[a] })
		var ptrs []*node.Node
		for k := range perm {
			ptrs = append(ptrs, &perm[k])
		}
		want := []int{i}
		for _, x := range cut {
			want = append(want, x[1])
		}
		var order []string
		for k := range hs {
			order = append(order, hs[k].Range.String())
		}
		set := node.Nodes(perm).AsPointSet().Values()
		sort.Sort(node.NodePtrs(ptrs))
		var o1, o2 []string
		for _, p := range ptrs {
			o1 = append(o1, p.Range.String())
		}
		sort.Sort(node.Nodes(perm))
		for k := range perm {
			o2 = append(o2, perm[k].Range.String())
		}
		if msg := any(differ("set of ends", set, want), differ("pieces sorted", strings.Join(o1, " "), strings.Join(order, " ")), differ("pieces sorted", strings.Join(o2, " "), strings.Join(order, " "))); msg != "" {
			fail(msg)
			return
		}

		// nothing shares its list of vertices with the polyline
		for _, x := range []geom.Coords{sc, cc, sp.Coordinates, ss.Coords} {
			for k := range x.Idxs {
				x.Idxs[k] = 0
			}
			_ = append(x.Idxs[:1], 0, 0, 0)
		}
		if msg := o.coords("the polyline afterwards", pln.Coordinates, all); msg != "" {
			fail(msg)
			return
		}
		for k := range hs {
			if msg := o.coords("the piece afterwards", hs[k].Coordinates(), ints(cut[k][0], cut[k][1], 1)); msg != "" {
				fail(msg)
				return
			}
		}
		R.Count("pieces", len(hs))
		R.Count("stretches", 1)
		if e-i > 1 && e-i < n-1 {
			R.Nontrivial(fmt.Sprint(c, i, e))
		}
	})
	R.Finish()
}
