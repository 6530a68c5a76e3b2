// c28: the relation predicates of a piece and the geometries around it are exact.
package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/constrain"
	"github.com/TopoSimplify/plugin/ctx"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/relate"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/intdxdt/iter"

	"verifharness/gen"
	"verifharness/geo"
	"verifharness/lib"
	"verifharness/run"
)

func pick(r *rand.Rand) geo.Chain {
	mx := []int{5, 6, 9, 20}[r.Intn(4)]
	switch r.Intn(4) {
	case 0:
		return gen.SimpleLine(r, mx)
	case 1:
		return gen.Walk(r, 2+r.Intn(mx), 12, 4)
	default:
		return gen.AnyLine(r, mx)
	}
}

func main() {
	R := run.Start("C28")
	R.Rule = "pieces of polylines (from single segments to long, winding, self-crossing chains) against points, lines and polygons with holes around, on and in them; every predicate, one geometry at a time and several together; non-trivial: both answers occur among the geometries of a piece"
	R.Assume = []string{"first and last vertex of the piece differ", "distances within 1e-9 of the minimum distance are not judged"}
	R.Parallel(R.N(400000, 4000000), func(j int, r *rand.Rand) {
		c := pick(r)
		i := r.Intn(len(c) - 1)
		e := i + 1 + r.Intn(len(c)-1-i)
		sub := c[i : e+1]
		if sub[0] == sub[len(sub)-1] {
			return
		}
		chord := geo.Chain{sub[0], sub[len(sub)-1]}
		var cons []geo.Geom
		for n := 1 + r.Intn(6); n > 0; n-- {
			switch r.Intn(4) {
			case 0:
				if g, ok := gen.DisjointConstraint(r, []geo.Chain{sub}); ok {
					cons = append(cons, g)
				}
			case 1: // around the new segment
				cons = append(cons, gen.Constraint(r, []geo.Chain{chord}))
			default:
				cons = append(cons, gen.Constraint(r, []geo.Chain{sub}))
			}
		}
		F := lib.AnyFrame(r)
		pln := F.Line(0, c)
		h := node.CreateNode(iter.NewIgen(), pln.SubCoordinates(rng.Range(i, e)), rng.Range(i, e), common.Geometry, nil)
		h0 := &h
		var cgs []*ctx.ContextGeometry
		for k, g := range cons {
			cgs = append(cgs, ctx.New(F.Constraint(k, g), 0, -1).AsContextGeometries().DataView()...)
		}
		min := []float64{0, 1, 2, 3, 5, 8, 20}[r.Intn(7)]
		if r.Intn(2) == 0 { // between the two distances of one of them
			g := &cons[r.Intn(len(cons))]
			min = (g.Dist(sub) + g.Dist(chord)) / 2
		}
		o := &opts.Opts{MinDist: min * F.Scale()}
		geomAll, distAll, distOpen := true, true, false
		yes, no := 0, 0
		report := func(what string, got bool, k int) {
			R.Violate(fmt.Sprintf("%s says %v\npiece %d-%d of %v\nminimum distance %v\ngeometries %v (%d)\n%v", what, got, i, e, c, min, cons, k, F),
				map[string]interface{}{"line": fmt.Sprint(c), "piece": []int{i, e}, "constraints": fmt.Sprint(cons), "mindist": min, "frame": F.String()})
		}
		for k := range cons {
			g := &cons[k]
			one := ctx.NewContexts(cgs[k])
			a, b := g.Intersects(sub), g.Intersects(chord)
			want := a == b
			R.Eval(2)
			if got := relate.IsGeomRelateValid(h0, one); got != want {
				report("geometric relation", got, k)
				return
			}
			if got := constrain.ByGeometricRelation(h0, one); got != want {
				report("geometric constraint", got, k)
				return
			}
			geomAll = geomAll && want
			if want {
				yes++
			} else {
				no++
			}
			d0, d1 := g.Dist(sub), g.Dist(chord)
			tol := 1e-9 * (1 + min)
			open := math.Abs(d0-min) <= tol && d0 != 0 || math.Abs(d1-min) <= tol && d1 != 0
			if min == 0 {
				open = false
			}
			wd := d1 >= min || d0 < min
			if open {
				distOpen = true
				R.Count("distances too close to judge", 1)
			} else {
				R.Eval(2)
				if got := relate.IsDistRelateValid(o, h0, one); got != wd {
					report("distance relation", got, k)
					return
				}
				if got := constrain.ByMinDistRelation(o, h0, one); got != wd {
					report("distance constraint", got, k)
					return
				}
				distAll = distAll && wd
				if wd {
					R.Count("distance kept", 1)
				} else {
					R.Count("distance lost", 1)
				}
			}
		}
		all := ctx.NewContexts(cgs...)
		R.Eval(2)
		if got := relate.IsGeomRelateValid(h0, all); got != geomAll {
			report("geometric relation to all", got, -1)
			return
		}
		if !distOpen {
			if got := relate.IsDistRelateValid(o, h0, all); got != distAll {
				report("distance relation to all", got, -1)
				return
			}
		}
		R.Count("geometric relation kept", yes)
		R.Count("geometric relation changed", no)
		if yes > 0 && no > 0 {
			R.Nontrivial(fmt.Sprint(c, i, e, cons))
		}
	})
	R.Finish()
}
