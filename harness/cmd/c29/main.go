// c29: the inventory of self-intersections is exact, and pieces are cut at all of it.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/constrain"
	"github.com/TopoSimplify/plugin/lnr"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"

	"verifharness/gen"
	"verifharness/geo"
	"verifharness/lib"
	"verifharness/run"
)

type hit struct {
	x, y float64
	idx  []int
}

func (h hit) key() string { return fmt.Sprint(h.idx) }

func same(a, b []hit) string {
	used := make([]bool, len(b))
	by := map[string][]int{}
	for k, y := range b {
		by[y.key()] = append(by[y.key()], k)
	}
next:
	for _, x := range a {
		for _, k := range by[x.key()] {
			y := b[k]
			if !used[k] && math.Abs(x.x-y.x) < 1e-6*(1+math.Abs(x.x)) && math.Abs(x.y-y.y) < 1e-6*(1+math.Abs(x.y)) {
				used[k] = true
				continue next
			}
		}
		return fmt.Sprintf("%v of vertices %v", []float64{x.x, x.y}, x.idx)
	}
	return ""
}

func uniq(a []int) []int {
	m := map[int]bool{}
	var out []int
	for _, x := range a {
		if !m[x] {
			m[x] = true
			out = append(out, x)
		}
	}
	sort.Ints(out)
	return out
}

// planar: vertices that coincide with others. first: whether the groups with points are wanted
func planar(c geo.Chain) (out []hit) {
	m := map[geo.P][]int{}
	for i, p := range c {
		m[p] = append(m[p], i)
	}
	for p, v := range m {
		if len(v) > 1 {
			out = append(out, hit{float64(p.X), float64(p.Y), v})
		}
	}
	return
}

// nonPlanar: places two segments share that are not vertices of both.
func nonPlanar(c geo.Chain) (out []hit) {
	for i := 0; i+1 < len(c); i++ {
		x0, y0, x1, y1 := c[i : i+2].Box()
		for k := i + 1; k+1 < len(c); k++ {
			a, b := c[k], c[k+1]
			if max(a.X, b.X) < x0 || min(a.X, b.X) > x1 || max(a.Y, b.Y) < y0 || min(a.Y, b.Y) > y1 {
				continue
			}
			for _, p := range geo.SegPoints(c[i], c[i+1], c[k], c[k+1]) {
				at := func(q geo.P) bool {
					return float64(q.X) == p.X && float64(q.Y) == p.Y
				}
				// exact: only a vertex of one on the other counts as vertex
				vs := onEnd(c[i], c[i+1], c[k], c[k+1], at)
				if vs {
					continue
				}
				out = append(out, hit{p.X, p.Y, uniq([]int{i, i + 1, k, k + 1})})
			}
		}
	}
	return
}

// onEnd: the segments cross in a single point that is an end of both, or the overlap end
// p is an end of both.
func onEnd(a, b, c, d geo.P, at func(geo.P) bool) bool {
	if !geo.SegOverlap(a, b, c, d) {
		return a == c || a == d || b == c || b == d
	}
	return (at(a) || at(b)) && (at(c) || at(d))
}

func line(r *rand.Rand, mx int, long bool) geo.Chain {
	var c geo.Chain
	switch r.Intn(5) {
	case 0:
		c = gen.Walk(r, 3+r.Intn(mx), 10, 4)
	case 1:
		c = gen.AnyLine(r, mx)
	case 2:
		c = gen.Star(r, 5+r.Intn(mx), 40)
	case 3:
		c = gen.BigAny(r, 60+r.Intn(200))
	default:
		n := 3 + r.Intn(mx)
		g := 3 + r.Intn(12)
		if r.Intn(4) == 0 { // the same vertices many times
			g = 2 + r.Intn(2)
			n = 8 + r.Intn(50)
		}
		for i := 0; i < n; i++ {
			c = append(c, geo.P{X: int64(r.Intn(g)), Y: int64(r.Intn(g))})
		}
	}
	if long {
		c = gen.Walk(r, 800+r.Intn(2200), 2000, 60)
	}
	if r.Intn(3) == 0 { // visit an earlier vertex again, or once more at the end
		c = append(c[:len(c):len(c)], c[r.Intn(len(c))])
	}
	var out geo.Chain
	for i, p := range c { // no segments without length
		if i == 0 || p != out[len(out)-1] {
			out = append(out, p)
		}
	}
	return out
}

func main() {
	R := run.Start("C29")
	R.Rule = "winding, self-crossing, self-touching and back-tracking polylines, alone and in groups sharing vertices; non-trivial: coincident vertices and crossings inside segments both occur"
	R.Assume = []string{"consecutive vertices differ"}
	R.Parallel(R.N(36000, 400000), func(j int, r *rand.Rand) {
		c := line(r, []int{6, 12, 30}[r.Intn(3)], j%600 == 599)
		if len(c) < 3 {
			return
		}
		F := lib.AnyFrame(r)
		pln := F.Line(0, c)
		wp, wn := planar(c), nonPlanar(c)
		fail := func(msg string) {
			R.Violate(fmt.Sprintf("%s\nline %v\n%v", msg, c, F), map[string]interface{}{"line": fmt.Sprint(c)})
		}
		for _, m := range [][2]bool{{true, false}, {true, true}, {false, true}} {
			var gp, gn []hit
			once := map[string]bool{}
			for _, x := range lnr.SelfIntersection(pln, m[0], m[1]).DataView() {
				pt := x.Geometry().(geom.Point)
				h := hit{}
				h.x, h.y = F.Back(pt[0], pt[1])
				switch {
				case x.IsPlanarVertex():
					h.idx = x.Meta.Planar
					gp = append(gp, h)
				case x.IsNonPlanarVertex():
					h.idx = x.Meta.NonPlanar
					gn = append(gn, h)
				default:
					fail("intersection of unknown kind")
					return
				}
				key := fmt.Sprint(pt[:2], h.idx, x.IsPlanarVertex())
				if once[key] {
					fail("listed twice: " + key)
					return
				}
				once[key] = true
			}
			ep, en := wp, wn
			if !m[0] {
				ep = nil
			}
			if !m[1] {
				en = nil
			}
			R.Eval(1)
			msg := ""
			if d := same(ep, gp); d != "" {
				msg = "coincident vertices missing: " + d
			} else if d := same(gp, ep); d != "" {
				msg = "vertices reported that do not coincide: " + d
			} else if d := same(en, gn); d != "" {
				msg = "crossing missing: " + d
			} else if d := same(gn, en); d != "" {
				msg = "crossing reported that is none: " + d
			}
			if msg != "" {
				fail(fmt.Sprintf("planar %v, non planar %v: %s", m[0], m[1], msg))
				return
			}
		}
		R.Count("groups of coincident vertices", len(wp))
		R.Count("crossings inside segments", len(wn))
		if len(wp) > 0 && len(wn) > 0 {
			R.Nontrivial(fmt.Sprint(c))
		}

		if len(wn) > 1500 { // cutting searches for each
			return
		}
		// pieces are cut at all of it, and at given vertices
		cuts := map[int]bool{0: true, len(c) - 1: true}
		for i := r.Intn(4); i > 0; i-- {
			cuts[r.Intn(len(c))] = true
		}
		var at []int
		for k := range cuts {
			at = append(at, k)
		}
		sort.Ints(at)
		ids := iter.NewIgen()
		var hs []node.Node
		for i := 0; i+1 < len(at); i++ {
			g := rng.Range(at[i], at[i+1])
			hs = append(hs, node.CreateNode(ids, pln.SubCoordinates(g), g, common.Geometry, nil))
		}
		o := &opts.Opts{PlanarSelf: r.Intn(5) > 0, NonPlanarSelf: r.Intn(2) == 0}
		var given []int
		for i := r.Intn(4); i > 0; i-- {
			given = append(given, r.Intn(len(c)))
		}
		got, ok, fixed := constrain.ToSelfIntersects(ids, hs, pln, o, given)
		R.Eval(1)
		want := map[int]bool{}
		if o.PlanarSelf {
			for _, h := range wp {
				for _, v := range h.idx {
					want[v] = true
				}
			}
			if o.NonPlanarSelf {
				for _, h := range wn {
					for _, v := range h.idx {
						want[v] = true
					}
				}
			}
			for _, v := range given {
				want[v] = true
			}
		}
		var fl []int
		for v := range want {
			fl = append(fl, v)
		}
		sort.Ints(fl)
		for v := range cuts {
			want[v] = true
		}
		var ends, ge []int
		for v := range want {
			ends = append(ends, v)
		}
		sort.Ints(ends)
		prev := 0
		for x := range got {
			h := &got[x]
			if h.Range.I != prev {
				fail(fmt.Sprintf("pieces are not contiguous at %d: %v", prev, h.Range))
				return
			}
			ge = append(ge, h.Range.I)
			prev = h.Range.J
		}
		ge = append(ge, prev)
		switch {
		case !ok:
			fail("pieces are refused")
		case fmt.Sprint(ge) != fmt.Sprint(ends):
			fail(fmt.Sprintf("pieces cut at %v instead of %v (planar %v, non planar %v, given %v)", ge, ends, o.PlanarSelf, o.NonPlanarSelf, given))
		case fmt.Sprint(fixed) != fmt.Sprint(fl):
			fail(fmt.Sprintf("vertices %v are declared fixed instead of %v", fixed, fl))
		}
		if len(ends) > len(cuts) {
			R.Count("sets of pieces cut further", 1)
		}

		// several lines
		if j%2 == 0 {
			n := 1 + r.Intn(5)
			var ls []geo.Chain
			var fc []*lnr.FC
			for i := 0; i < n; i++ {
				l := line(r, 8, false)
				if i > 0 && r.Intn(2) == 0 {
					o := ls[r.Intn(i)]
					k := r.Intn(len(l))
					l = append(l[:k:k], append(geo.Chain{o[r.Intn(len(o))]}, l[k:]...)...)
				}
				ls = append(ls, l)
			}
			perm := r.Perm(n)
			for i, l := range ls {
				fc = append(fc, lnr.NewFC(F.Coords(l), perm[i]*3))
			}
			m := map[geo.P]int{}
			for _, l := range ls {
				for _, p := range l {
					m[p]++
				}
			}
			res := lnr.FCPlanarSelfIntersection(fc)
			R.Eval(1)
			shared := 0
			for i, l := range ls {
				var w []int
				for k, p := range l {
					if m[p] > 1 {
						w = append(w, k)
					}
				}
				shared += len(w)
				g := append([]int{}, res[perm[i]*3]...)
				sort.Ints(g)
				if fmt.Sprint(g) != fmt.Sprint(w) {
					R.Violate(fmt.Sprintf("shared vertices of line %d: %v instead of %v\nlines %v\n%v", i, g, w, ls, F), map[string]interface{}{"lines": fmt.Sprint(ls)})
					return
				}
				delete(res, perm[i]*3)
			}
			if len(res) > 0 {
				R.Violate(fmt.Sprintf("shared vertices of lines that do not exist: %v\nlines %v", res, ls), nil)
				return
			}
			R.Count("vertices shared in groups of lines", shared)
		}
	})
	R.Finish()
}
