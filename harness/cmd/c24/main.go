// c24: the unconstrained decomposition is Douglas-Peucker, at every threshold.
package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/decompose"
	"github.com/TopoSimplify/plugin/dp"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"

	"verifharness/gen"
	"verifharness/geo"
	"verifharness/lib"
	"verifharness/oracle"
	"verifharness/run"
)

type judge struct {
	c    geo.Chain
	z    []int64
	sed  bool
	T    float64
	tol  float64
	kept map[int]bool
	n    int
	open bool // some comparison was too close to call
	ties int  // exact ties with the threshold that were judged
}

func (g *judge) dist(i, j, k int) float64 {
	if g.sed {
		return oracle.SED(g.c[i], g.c[j], g.c[k], g.z[i], g.z[j], g.z[k])
	}
	return geo.PtSegDist(g.c[i], g.c[j], g.c[k])
}

// ok: the kept vertices between i and j are what the algorithm gives, for some choice
// among equally distant vertices.
func (g *judge) ok(i, j int) string {
	g.n++
	inner := -1
	for k := i + 1; k < j; k++ {
		if g.kept[k] {
			inner = k
			break
		}
	}
	if j == i+1 {
		return ""
	}
	best, at := lib.Greatest(g.c, i, j, func(k int) float64 { return g.dist(i, j, k) }, g.tol)
	exact := !g.sed && best > 0
	for _, k := range at {
		exact = exact && geo.PtSegExact(g.c[i], g.c[j], g.c[k])
	}
	near := math.Abs(best-g.T) <= g.tol
	if near && exact {
		g.ties++
	}
	switch {
	case near && !exact:
		g.open = true
		if inner < 0 {
			return ""
		}
	case best <= g.T && inner >= 0:
		return fmt.Sprintf("vertex %d is kept although everything between %d and %d is within %v of the segment (at most %v)", inner, i, j, g.T, best)
	case best <= g.T:
		return ""
	case inner < 0:
		return fmt.Sprintf("nothing is kept between %d and %d although vertex %d is %v away (threshold %v)", i, j, at[0], best, g.T)
	}
	why := ""
	for _, k := range at {
		if !g.kept[k] {
			continue
		}
		if why = g.ok(i, k); why == "" {
			if why = g.ok(k, j); why == "" {
				return ""
			}
		}
		if g.n > 200000 {
			g.open = true
			return ""
		}
	}
	if why == "" {
		why = fmt.Sprintf("between %d and %d the most distant vertices %v (%v away) are not kept, others are", i, j, at, best)
	}
	return why
}

func subset(a, b []int) bool {
	m := map[int]bool{}
	for _, x := range b {
		m[x] = true
	}
	for _, x := range a {
		if !m[x] {
			return false
		}
	}
	return true
}

func main() {
	R := run.Start("C24")
	R.Rule = "polylines of all kinds (also closed, repeated and collinear vertices) and trajectories at a ladder of thresholds, with plain, squared and both score functions; non-trivial: interior vertices kept and dropped"
	R.Assume = []string{"comparisons within 1e-9 (DP), 1e-6 (SED) of the threshold are not judged, unless the distance is along an axis and so free of rounding", "times strictly increase"}
	R.Parallel(R.N(20000, 300000), func(j int, r *rand.Rand) {
		mx := []int{5, 12, 40, 120}[r.Intn(4)]
		var c geo.Chain
		switch r.Intn(3) {
		case 0:
			c = gen.SimpleLine(r, mx)
		case 1:
			c = gen.AnyLine(r, mx)
		default:
			if r.Intn(4) == 0 {
				c = gen.BigAny(r, 200+r.Intn(400))
				if r.Intn(60) == 0 {
					c = gen.Walk(r, 1000+r.Intn(5000), 900, 60)
				}
			} else {
				c = gen.AnyLine(r, mx)
			}
		}
		if r.Intn(6) == 0 && len(c) > 3 { // repeated vertices and spikes
			k := 1 + r.Intn(len(c)-1)
			c = append(c[:k:k], append(geo.Chain{c[k-1], c[r.Intn(len(c))]}, c[k:]...)...)
		}
		if f := lib.AnyFrame(r); f.X != 0 {
			c = geo.ShiftChain(c, f.X, f.Y)
		}
		sed := r.Intn(3) == 0
		z := make([]int64, len(c))
		t := r.Int63n(100)
		step := []int64{1, 3, 50, 2000}[r.Intn(4)]
		for i := range z {
			t += 1 + r.Int63n(step)
			z[i] = t
		}
		pln := lib.Line(0, c, func(i int) int64 { return z[i] })
		score, square := offset.MaxOffset, offset.SquareMaxOffset
		tol := 1e-9
		if sed {
			score, square = offset.MaxSEDOffset, offset.SqureMaxSEDOffset
			tol = 1e-6
		}
		var last []int
		T := -1.0
		rungs := []float64{0, 0.5, 1, 1.5, 2, 3, 4.25, 7, 12, 20, 33, 50, 90, 200, 1000, 1e6}
		lo := r.Intn(4)
		for t := lo; t < len(rungs); t += 1 + r.Intn(3) {
			T = rungs[t]
			o := &opts.Opts{Threshold: T}
			type way struct {
				name string
				f    func() ([]int, [][2]int)
			}
			viaDP := func(s func(geom.Coords) (int, float64), q ...func(geom.Coords) (int, float64)) func() ([]int, [][2]int) {
				return func() ([]int, [][2]int) {
					var d *dp.DouglasPeucker
					if len(q) > 0 {
						d = dp.New(1, pln, o, s, q[0])
					} else {
						d = dp.New(1, pln, o, s)
					}
					d.Simplify(iter.NewIgen())
					var rs [][2]int
					for _, h := range d.Hulls {
						rs = append(rs, h.Range.AsArray())
					}
					return d.Simple(), rs
				}
			}
			ways := []way{
				{"plain score", viaDP(score)},
				{"squared score", viaDP(score, square)},
				{"decomposition", func() ([]int, [][2]int) {
					hs := decompose.DouglasPeucker(iter.NewIgen(), pln, offset.EpsilonDecomposition{ScoreFn: score, Relation: func(v float64) bool { return v <= T }}, common.Geometry, nil)
					var rs [][2]int
					k := []int{0}
					for _, h := range hs {
						rs = append(rs, h.Range.AsArray())
						k = append(k, h.Range.J)
					}
					return k, rs
				}},
			}
			var first []int
			for wi, w := range ways {
				kept, rs := w.f()
				R.Eval(1)
				R.Count("decompositions, "+w.name, 1)
				bad := ""
				if len(kept) < 2 || kept[0] != 0 || kept[len(kept)-1] != len(c)-1 {
					bad = "the ends are not kept"
				}
				for i := 0; bad == "" && i+1 < len(kept); i++ {
					if kept[i] >= kept[i+1] {
						bad = "kept vertices are not in order"
					} else if i >= len(rs) || rs[i] != [2]int{kept[i], kept[i+1]} {
						bad = "pieces do not tile the polyline in order"
					}
				}
				if bad == "" && len(rs) != len(kept)-1 {
					bad = "too many pieces"
				}
				g := &judge{c: c, z: z, sed: sed, T: T, tol: tol * (1 + T), kept: map[int]bool{}}
				for _, k := range kept {
					g.kept[k] = true
				}
				if bad == "" {
					bad = g.ok(0, len(c)-1)
				}
				R.Count("ranges judged", g.n)
				R.Count("exact ties with the threshold", g.ties)
				if g.open {
					R.Count("decompositions with a comparison too close to judge", 1)
				}
				if bad == "" && wi > 0 && !g.open && fmt.Sprint(kept) != fmt.Sprint(first) && tieFree(c, z, sed, tol) {
					bad = fmt.Sprintf("kept %v, with the plain score %v", kept, first)
				}
				if wi == 0 {
					first = kept
					if bad == "" && last != nil && !subset(kept, last) {
						bad = fmt.Sprintf("vertices kept here are dropped at a lower threshold: %v, %v", kept, last)
					}
					last = kept
				}
				if bad != "" {
					R.Violate(fmt.Sprintf("%s, T=%v, sed=%v: %s\nkept %v\nline %v\ntimes %v", w.name, T, sed, bad, kept, c, z),
						map[string]interface{}{"line": fmt.Sprint(c), "times": z, "threshold": T, "sed": sed, "kept": kept})
					return
				}
				if wi == 0 && len(kept) > 2 && len(kept) < len(c) {
					R.Nontrivial(fmt.Sprint(c, z, T, sed))
					if len(c) < 12 {
						R.Sample(map[string]interface{}{"line": fmt.Sprint(c), "threshold": T, "kept": kept})
					}
				}
			}
		}
		// no coordinates at all: no pieces
		if j%100 == 0 {
			hs := decompose.DouglasPeucker(iter.NewIgen(), &geometry.Polyline{}, offset.EpsilonDecomposition{ScoreFn: score, Relation: func(v float64) bool { return v <= 1 }}, common.Geometry, nil)
			if len(hs) != 0 {
				R.Violate("pieces of an empty polyline", nil)
			}
		}
	})
	R.Finish()
}

// tieFree: no two vertices of any range the algorithm may visit are equally distant; only
// then do scores that round differently have to choose alike.
func tieFree(c geo.Chain, z []int64, sed bool, tol float64) bool {
	g := &judge{c: c, z: z, sed: sed}
	free := true
	var rec func(i, j int)
	rec = func(i, j int) {
		if j <= i+1 || !free {
			return
		}
		best, at := lib.Greatest(c, i, j, func(k int) float64 { return g.dist(i, j, k) }, 0)
		_, near := lib.Greatest(c, i, j, func(k int) float64 { return g.dist(i, j, k) }, tol*(1+best))
		if best == 0 {
			return
		}
		if len(near) > 1 {
			free = false
			return
		}
		rec(i, at[0])
		rec(at[0], j)
	}
	rec(0, len(c)-1)
	return free
}
