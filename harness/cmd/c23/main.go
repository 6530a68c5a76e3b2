// c23: the pieces a simplification leaves behind partition each polyline.
package main

import (
	"fmt"
	"math/rand"
	"sort"

	"github.com/TopoSimplify/plugin/node"
	"github.com/intdxdt/geom"

	"verifharness/geo"
	"verifharness/lib"
	"verifharness/run"
)

// hullOK: the geometry of a piece is the convex hull of its vertices.
func hullOK(F lib.Frame, h *node.Node, sub geo.Chain) string {
	want := geo.HullGeom(sub)
	var lines []*geom.LineString
	switch g := h.Geom.(type) {
	case *geom.Polygon, *geom.LineString:
		lines = g.AsLinear()
	case *geom.Point:
		for _, p := range sub {
			if (func() bool { x, y := F.P(p); return x != g[0] || y != g[1] })() {
				return "hull is a point"
			}
		}
		return ""
	default:
		return fmt.Sprintf("hull is a %T", h.Geom)
	}
	if len(lines) != 1 {
		return "hull has several parts"
	}
	var got geo.Geom
	ring := F.Pts(lines[0].Coordinates)
	if want.Kind == "Polygon" {
		if len(ring) < 3 {
			return "hull is flat, the piece is not"
		}
		if ring[0] != ring[len(ring)-1] {
			ring = append(ring, ring[0])
		}
		got = geo.Geom{Kind: "Polygon", Rings: []geo.Chain{ring}}
	} else {
		got = geo.Geom{Kind: "LineString", Pts: ring}
	}
	for _, p := range sub {
		if !got.Covers(p) {
			return fmt.Sprintf("hull leaves out %v", p)
		}
	}
	for _, p := range ring {
		if !want.Covers(p) {
			return fmt.Sprintf("hull is too big at %v", p)
		}
	}
	x0, y0, x1, y1 := sub.Box()
	if b := h.MBR; (func() bool {
		mx, my := F.P(geo.P{X: x0, Y: y0})
		Mx, My := F.P(geo.P{X: x1, Y: y1})
		return b.MinX != mx || b.MinY != my || b.MaxX != Mx || b.MaxY != My
	})() {
		return fmt.Sprintf("box is %v", b)
	}
	return ""
}

func main() {
	R := run.Start("C23")
	R.Rule = "one to thirty polylines with and without constraints under random options, simplified one by one or as a feature class through the library; every piece left is examined; non-trivial: several pieces per line, some replacing dropped vertices"
	R.Assume = []string{"at least two vertices per polyline", "SED times strictly increase"}
	R.Parallel(R.N(18000, 250000), func(j int, r *rand.Rand) {
		k := 1 + r.Intn(5)
		if r.Intn(10) == 0 {
			k = 8 + r.Intn(24)
		}
		J := lib.NewJob(r, k)
		J.Build()
		F := J.Frame
		total := 0
		for _, l := range J.Lines {
			total += len(l)
		}
		var rounds []int
		bad := ""
		J.Run(func(n int) { rounds = append(rounds, n) })
		R.Eval(1)
		R.Count("deformation rounds", len(rounds))
		ids := map[int]bool{}
		pieces, dropped := 0, 0
		for i, s := range J.Forest {
			var hs []node.Node
			hs = append(hs, s.Hulls...)
			sort.Sort(node.Nodes(hs))
			at := 0
			line := J.Lines[i]
			for x := range hs {
				h := &hs[x]
				switch {
				case h.Range.I != at || h.Range.J <= h.Range.I || h.Range.J >= len(line):
					bad = fmt.Sprintf("line %d: piece %v after vertex %d", i, h.Range, at)
				case ids[h.Id]:
					bad = fmt.Sprintf("line %d: piece %v has an identity in use", i, h.Range)
				case h.Instance != nil && h.Instance.Id() != s.Id():
					bad = fmt.Sprintf("line %d: piece %v belongs to %d, not %d", i, h.Range, h.Instance.Id(), s.Id())
				case fmt.Sprint(F.Pts(h.Coordinates())) != fmt.Sprint(line[h.Range.I:h.Range.J+1]):
					bad = fmt.Sprintf("line %d: piece %v has vertices %v", i, h.Range, F.Pts(h.Coordinates()))
				default:
					if b := hullOK(F, h, line[h.Range.I:h.Range.J+1]); b != "" {
						bad = fmt.Sprintf("line %d: piece %v: %s, %v", i, h.Range, b, h.Geom.WKT())
					}
				}
				if bad != "" {
					break
				}
				ids[h.Id] = true
				at = h.Range.J
				pieces++
				dropped += h.Range.Size() - 1
			}
			if bad == "" && at != len(line)-1 {
				bad = fmt.Sprintf("line %d: pieces end at %d of %d", i, at, len(line)-1)
			}
			if bad != "" {
				break
			}
			want := []int{0}
			for x := range hs {
				want = append(want, hs[x].Range.J)
			}
			if fmt.Sprint(s.Simple()) != fmt.Sprint(want) {
				bad = fmt.Sprintf("line %d: simple %v, pieces end at %v", i, s.Simple(), want)
				break
			}
			vals := []int{}
			for _, v := range s.SimpleSet.Values() {
				vals = append(vals, v.(int))
			}
			if fmt.Sprint(vals) != fmt.Sprint(want) {
				bad = fmt.Sprintf("line %d: set of kept vertices %v, pieces end at %v", i, vals, want)
				break
			}
		}
		R.Count("pieces", pieces)
		R.Count("vertices dropped", dropped)
		// every round but the last splits a piece, and no piece is examined twice for nothing
		if bad == "" && len(rounds) > total+1 {
			bad = fmt.Sprintf("%d rounds for %d vertices", len(rounds), total)
		}
		sum := 0
		for x, n := range rounds {
			sum += n
			if bad == "" && (n <= 0 || n > total) {
				bad = fmt.Sprintf("round %d examines %d pieces of %d vertices", x, n, total)
			}
		}
		if bad == "" && sum > 3*total+2 {
			bad = fmt.Sprintf("%d pieces examined for %d vertices", sum, total)
		}
		R.Max("rounds", len(rounds))
		if bad != "" {
			R.Violate(bad+"\n"+J.Text(), map[string]interface{}{"job": J.Text()})
			return
		}
		if pieces > len(J.Lines) && dropped > 0 {
			R.Nontrivial(J.Text())
			if total < 16 {
				R.Sample(map[string]interface{}{"job": J.Text(), "kept": J.Kept()})
			}
		}
	})
	R.Finish()
}
