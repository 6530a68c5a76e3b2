// c35: a simplification is settled: nothing is left that its own rules would still deform.
package main

import (
	"fmt"
	"math/rand"

	"github.com/TopoSimplify/plugin/deform"
	"github.com/TopoSimplify/plugin/hdb"
	"github.com/TopoSimplify/plugin/node"

	"verifharness/lib"
	"verifharness/run"
)

func main() {
	R := run.Start("C35")
	R.Rule = "one to thirty polylines with and without constraints under random options, simplified one by one or as a feature class through the library; every piece left is examined again against all the others and against the constraints; non-trivial: the relations are enforced and pieces that replace dropped vertices remain"
	R.Assume = []string{"at least two vertices per polyline", "SED times strictly increase"}
	R.Parallel(R.N(18000, 250000), func(j int, r *rand.Rand) {
		k := 1 + r.Intn(5)
		if r.Intn(10) == 0 {
			k = 8 + r.Intn(24)
		}
		J := lib.NewJob(r, k)
		if r.Intn(2) == 0 {
			J.Opts.AvoidNewSelfIntersects = true
		}
		J.Build()
		J.Run(func(int) {})
		R.Eval(1)
		bad := ""
		long := 0
		scope := func(hs []node.Node, find func(*hdb.Hdb, *node.Node) []*node.Node) {
			db := hdb.NewHdb().Load(append([]node.Node{}, hs...))
			for x := range hs {
				h := &hs[x]
				if h.Range.Size() > 1 {
					long++
				}
				if !J.Opts.AvoidNewSelfIntersects {
					continue
				}
				R.Count("pieces examined against the others", 1)
				for _, s := range find(db, h) {
					if s.Range.Size() > 1 && bad == "" {
						bad = fmt.Sprintf("piece %v of line %d is to be deformed: it conflicts with %v of line %d", s.Range, s.Instance.Id(), h.Range, h.Instance.Id())
						if s.Id == h.Id {
							bad = fmt.Sprintf("piece %v of line %d is to be deformed", s.Range, s.Instance.Id())
						}
					}
				}
			}
		}
		var all []node.Node
		for i, s := range J.Forest {
			all = append(all, s.Hulls...)
			for x := range s.Hulls {
				h := &s.Hulls[x]
				if h.Range.Size() == 1 || bad != "" {
					continue
				}
				var sel []*node.Node
				R.Count("pieces examined against the constraints", 1)
				if flat(h) {
					continue
				}
				for k := 0; k < 2; k++ {
					if k == 0 {
						s.State().MarkClean()
					} else {
						s.State().MarkDirty()
					}
					if !s.ValidateContextRelation(h, &sel) || len(sel) > 0 {
						bad = fmt.Sprintf("piece %v of line %d violates a relation to the constraints", h.Range, i)
					}
				}
			}
			s.State().MarkDirty() // all neighbours, own and foreign
		}
		if J.FC {
			scope(all, func(d *hdb.Hdb, h *node.Node) []*node.Node { return deform.SelectFeatureClass(J.Opts, d, h) })
		} else {
			for _, s := range J.Forest {
				scope(s.Hulls, func(d *hdb.Hdb, h *node.Node) []*node.Node { return deform.Select(J.Opts, d, h) })
			}
		}
		if bad != "" {
			R.Violate(bad+"\n"+J.Text()+fmt.Sprintf("\nkept %v", J.Kept()), map[string]interface{}{"job": J.Text()})
			return
		}
		R.Count("pieces that replace dropped vertices", long)
		if long > 0 && (J.Opts.AvoidNewSelfIntersects || J.Opts.GeomRelation || J.Opts.DistRelation || J.Opts.DirRelation) {
			R.Nontrivial(J.Text())
		}
	})
	R.Finish()
}

// flat: vertices on one line, between its ends.
func flat(h *node.Node) bool {
	if !h.Geom.Type().IsLineString() {
		return false
	}
	a, b := h.SegmentPoints()
	c := h.Geom.AsLinear()[0].Coordinates
	p, q := c.First(), c.Last()
	return a.Equals2D(p) && b.Equals2D(q) || a.Equals2D(q) && b.Equals2D(p)
}
