// c31: the sidedness predicate never accepts a chain that winds around something, and never
// refuses one that obviously does not.
package main

import (
	"fmt"
	"math/rand"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/constrain"
	"github.com/TopoSimplify/plugin/ctx"
	"github.com/TopoSimplify/plugin/homotopy"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/relate"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/intdxdt/iter"

	"verifharness/gen"
	"verifharness/geo"
	"verifharness/lib"
	"verifharness/run"
)

// apart: the geometry and the hull share nothing.
func apart(h, g *geo.Geom) bool {
	for _, l := range h.Lines() {
		if g.Intersects(l) {
			return false
		}
	}
	for _, l := range g.Lines() {
		if h.Intersects(l) {
			return false
		}
	}
	return !h.Covers(g.Rep()) && !(len(h.Lines()) > 0 && g.Covers(h.Lines()[0][0]))
}

func main() {
	R := run.Start("C31")
	R.Rule = "chains from single bends to spirals, combs and self-crossing walks with points, lines and polygons (some with holes) inside, beside, on and around them; accepted chains are checked against the word of the closed loop, refused ones against the exact answer where that is known (a bend, a convex chain, geometries outside the hull, one that touches either of chain and segment); non-trivial: something lies inside the hull and touches neither"
	R.Assume = []string{"first and last vertex of the chain differ"}
	R.Parallel(R.N(400000, 5000000), func(j int, r *rand.Rand) {
		var c geo.Chain
		mx := []int{5, 6, 9, 20}[r.Intn(4)]
		if r.Intn(60) == 0 {
			mx = 100
		}
		kind := r.Intn(6)
		switch kind {
		case 0:
			c = gen.SimpleLine(r, mx)
		case 1:
			c = gen.Spiral(r, 1+r.Intn(3), 5+r.Intn(6+mx/2), 6+6*r.Float64())
		case 2: // a bend
			for len(c) < 3 {
				c = append(c, geo.P{X: int64(r.Intn(20)), Y: int64(r.Intn(20))})
			}
		case 3: // part of a convex ring
			var ps []geo.P
			for k := 4 + r.Intn(12); k > 0; k-- {
				ps = append(ps, geo.P{X: int64(r.Intn(60)), Y: int64(r.Intn(60))})
			}
			c = geo.ConvexHull(ps)
			if r.Intn(2) == 0 {
				for a, b := 0, len(c)-1; a < b; a, b = a+1, b-1 {
					c[a], c[b] = c[b], c[a]
				}
			}
		case 4:
			c = gen.Serpentine(r, 2+r.Intn(4), 10+r.Intn(20), 4+r.Intn(6))
		default:
			c = gen.AnyLine(r, mx)
		}
		if len(c) < 2 {
			return
		}
		if kind != 2 && kind != 3 && r.Intn(2) == 0 {
			i := r.Intn(len(c) - 1)
			e := i + 1 + r.Intn(len(c)-1-i)
			c = c[i : e+1]
		}
		if c[0] == c[len(c)-1] {
			return
		}
		crowd := r.Intn(15) == 0
		if crowd { // room for many geometries
			f := []int64{1, 4, 16}[r.Intn(3)]
			for k, p := range c {
				c[k] = geo.P{X: p.X * f, Y: p.Y * f}
			}
		}
		chord := geo.Chain{c[0], c[len(c)-1]}
		hull := geo.HullGeom(c)
		x0, y0, x1, y1 := c.Box()
		var cons []geo.Geom
		for n := 1 + r.Intn(5); n > 0; n-- {
			switch r.Intn(6) {
			case 0:
				cons = append(cons, gen.Constraint(r, []geo.Chain{c}))
			case 1, 2:
				cons = append(cons, geo.Geom{Kind: "Point", Pts: geo.Chain{{X: x0 - 1 + r.Int63n(x1-x0+3), Y: y0 - 1 + r.Int63n(y1-y0+3)}}})
			case 3:
				if g, ok := gen.DisjointConstraint(r, []geo.Chain{c, chord}); ok {
					cons = append(cons, g)
				}
			default:
				if g, ok := gen.DisjointConstraint(r, []geo.Chain{c}); ok {
					cons = append(cons, g)
				}
			}
		}
		if r.Intn(3) == 0 && len(cons) > 0 { // most of the time nothing in the way of the ends
			k := 0
			for i := range cons {
				if cons[i].Intersects(c) == cons[i].Intersects(chord) {
					cons[k] = cons[i]
					k++
				}
			}
			cons = cons[:k]
		}
		if crowd { // many geometries in the way of nothing
			loop := append(append(geo.Chain{}, c...), c[0])
			for n := 10 + r.Intn(300); n > 0; n-- {
				p := geo.P{X: x0 + r.Int63n(x1-x0+1), Y: y0 + r.Int63n(y1-y0+1)}
				g := geo.Geom{Kind: "Point", Pts: geo.Chain{p}}
				if r.Intn(4) == 0 {
					g = geo.Geom{Kind: "LineString", Pts: geo.Chain{p, {X: p.X + 1, Y: p.Y + r.Int63n(3) - 1}}}
				}
				if g.Intersects(c) == g.Intersects(chord) && (g.Intersects(c) || len(geo.Word(loop, []geo.P{g.Rep()})) == 0) {
					cons = append(cons, g)
				}
			}
			if r.Intn(2) == 0 {
				r.Shuffle(len(cons), func(a, b int) { cons[a], cons[b] = cons[b], cons[a] })
			}
		}
		F := lib.AnyFrame(r)
		pln := F.Line(0, c)
		w := rng.Range(0, len(c)-1)
		h := node.CreateNode(iter.NewIgen(), pln.SubCoordinates(w), w, common.Geometry, nil)
		cgs := ctx.NewContexts()
		xor, blocked := false, false
		var punct []geo.P
		inside := 0
		for k := range cons {
			g := &cons[k]
			cgs.Push(ctx.New(F.Constraint(k, *g), 0, -1))
			a, b := g.Intersects(c), g.Intersects(chord)
			switch {
			case a != b:
				xor = true
			case a:
			default:
				if !apart(&hull, g) {
					blocked = true
				}
				// a polygon with holes may have the chain in a hole: no single point stands for it
				if g.Kind == "Polygon" && len(g.Rings) > 1 {
					continue
				}
				punct = append(punct, g.Rep())
				if hull.Covers(g.Rep()) {
					inside++
				}
			}
		}
		fail := func(msg string, v ...interface{}) {
			R.Violate(fmt.Sprintf("%s %v\nchain %v\ngeometries %v\n%v", msg, v, c, cons, F), map[string]interface{}{"chain": fmt.Sprint(c), "constraints": fmt.Sprint(cons)})
		}
		got := homotopy.Homotopy(pln.Coordinates, cgs)
		R.Eval(1)
		if g := relate.Homotopy(h.Coordinates(), cgs); g != got {
			fail("relate and homotopy disagree", got, g)
			return
		}
		if g := constrain.BySideRelation(&h, cgs); g != got {
			fail("constrain and homotopy disagree", got, g)
			return
		}
		if g := relate.IsDirRelateValid(&h, cgs); g != got {
			fail("relation and homotopy disagree", got, g)
			return
		}
		var word []int
		if len(punct) > 0 {
			loop := append(append(geo.Chain{}, c...), c[0])
			word = geo.Word(loop, punct)
		}
		switch {
		case xor && got:
			fail("accepted although something touches only one of chain and segment")
		case xor:
			R.Count("refused for touching one of the two", 1)
		case got && len(word) > 0:
			fail("accepted although the loop winds around", punct, word)
		case got:
			R.Count("accepted", 1)
			if inside > 0 {
				R.Count("accepted with something inside the hull", 1)
			}
		case !blocked:
			fail("refused although everything that touches neither is outside the hull")
		case len(word) > 0:
			R.Count("refused, the loop winds around something", 1)
		case len(c) == 3 || kind == 3:
			fl := false
			for k := range cons {
				g := &cons[k]
				fl = fl || len(g.Rings) > 1
			}
			if !fl {
				fail("a convex chain is refused although nothing lies inside")
			}
		default:
			R.Count("refused though it could be deformed", 1)
		}
		if !xor && inside > 0 {
			R.Nontrivial(fmt.Sprint(c, cons))
		}
		R.Max("punctures", len(punct))
	})
	R.Finish()
}
