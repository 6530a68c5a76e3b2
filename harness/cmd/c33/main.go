// c33: pieces whose replacement would change how they meet others are selected for
// deformation, the others are left alone.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/constrain"
	"github.com/TopoSimplify/plugin/deform"
	"github.com/TopoSimplify/plugin/dp"
	"github.com/TopoSimplify/plugin/hdb"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/intdxdt/iter"

	"verifharness/gen"
	"verifharness/geo"
	"verifharness/lib"
	"verifharness/run"
)

type piece struct {
	f, i, e    int
	sub, chord geo.Chain
	hull       geo.Geom
	line       bool // its vertices are collinear
}

const (
	no = iota
	yes
	open
)

// verdict: must a and b be deformed because of each other? either: at least one of them.
func verdict(a, b *piece, npd float64) (da, db int, either bool) {
	segs := geo.ChainX(a.chord, b.chord)
	lns := geo.ChainX(a.sub, b.sub)
	switch {
	case !segs && !lns:
		return no, no, false
	case !segs:
		return yes, yes, false
	case !lns:
		return open, open, true
	}
	over := geo.SegOverlap(a.chord[0], a.chord[1], b.chord[0], b.chord[1])
	a.sub.Segs(func(p, q geo.P) bool {
		b.sub.Segs(func(s, t geo.P) bool {
			over = over || geo.SegOverlap(p, q, s, t)
			return !over
		})
		return !over
	})
	if over {
		return open, open, false
	}
	far := 0.0
	for _, x := range geo.ChainPoints(a.chord, b.chord) {
		for _, y := range geo.ChainPoints(a.sub, b.sub) {
			far = math.Max(far, math.Hypot(x.X-y.X, x.Y-y.Y))
		}
	}
	if math.Abs(far-npd) <= 1e-7*(1+npd) {
		return open, open, false
	}
	if far > npd {
		return yes, yes, false
	}
	return no, no, false
}

// blocks: a and b share one end; does b keep a from collapsing?
func blocks(a, b *piece) int {
	if a.e-a.i == 1 || len(a.hull.Rings) == 0 || shared(a, b) == 0 {
		return no
	}
	if shared(a, b) > 1 {
		return open
	}
	t := b.chord[0]
	if t == a.chord[0] || t == a.chord[1] {
		t = b.chord[1]
	}
	switch geo.RingSide(a.hull.Rings[0], t) {
	case 1:
		return yes
	case 0:
		return open
	}
	return no
}

// beyond: a and b share one end; is the other end of b strictly inside the hull of a?
func beyond(a, b *piece) (got int) {
	sa, ea, sb, eb := a.chord[0], a.chord[1], b.chord[0], b.chord[1]
	c, t := eb, sb
	if sb == sa || sb == ea {
		c, t = sb, eb
	}
	if !corner(a, c) && !corner(b, c) {
		return open
	}
	if a.e-a.i > 1 && len(a.hull.Rings) > 0 && geo.RingSide(a.hull.Rings[0], t) > 0 {
		return yes
	}
	return open
}

// corner: is p a corner of the piece's hull?
func corner(a *piece, p geo.P) bool {
	for _, q := range a.hull.Pts {
		if p == q {
			return true
		}
	}
	for _, r := range a.hull.Rings {
		for _, q := range r {
			if p == q {
				return true
			}
		}
	}
	return false
}

func shared(a, b *piece) int {
	n := 0
	for _, p := range []geo.P{a.chord[0], a.chord[1]} {
		for _, q := range []geo.P{b.chord[0], b.chord[1]} {
			if p == q {
				n++
			}
		}
	}
	return n
}

func main() {
	R := run.Start("C33")
	R.Rule = "pieces of one or several polylines in one index, each asked for the pieces to deform because of it, with displacements from 0 to 100; non-trivial: some but not all pieces are selected"
	R.Assume = []string{"the ends of a piece differ", "pieces that overlap along a stretch and displacements within 1e-7 of the allowed one are not judged", "pieces of one polyline sharing both their ends are not judged"}
	R.Parallel(R.N(150000, 800000), func(j int, r *rand.Rand) {
		var ls []geo.Chain
		k := 1 + r.Intn(3)
		if r.Intn(2) == 0 {
			ls, _ = lib.Scene(r, k)
		} else {
			for n := 0; n < k; n++ {
				ls = append(ls, gen.AnyLine(r, 5+r.Intn(12)))
			}
			ls = gen.Norm(ls)
		}
		if len(ls) > 4 {
			ls = ls[:4]
		}
		F := lib.AnyFrame(r)
		if r.Intn(20) == 0 { // long pieces, or very many
			ls = gen.Norm([]geo.Chain{gen.BigAny(r, 80+r.Intn(200))})
			if r.Intn(2) == 0 {
				l := ls[0]
				x0, y0, x1, y1 := l.Box()
				o := geo.Chain{{X: x0 - 5, Y: (y0 + y1) / 2}, {X: (x0 + x1) / 2, Y: (y0+y1)/2 + 3}, {X: x1 + 5, Y: y0}}
				ls = append(ls, o)
			}
		}
		npd := []float64{0, 1, 3, 5, 20, 100}[r.Intn(6)]
		o := &opts.Opts{NonPlanarDisplacement: npd * F.Scale(), Threshold: float64(r.Intn(50)), MinDist: float64(r.Intn(3))}
		ids := iter.NewIgen()
		var ps []piece
		var nodes []node.Node
		for f, l := range ls {
			in := dp.New(f, F.Line(f, l), o, offset.MaxOffset)
			if r.Intn(3) == 0 {
				in.State().MarkClean()
			} else {
				in.State().MarkDirty()
			}
			sizes := []int{2, 5, 12, 40}
			if r.Intn(3) == 0 {
				sizes = [][]int{{2}, {len(l) / 2, len(l)}}[r.Intn(2)]
			}
			for i := 0; i < len(l)-1; {
				e := min(len(l)-1, i+1+r.Intn(max(1, sizes[r.Intn(len(sizes))])))
				if r.Intn(6) > 0 && l[i] != l[e] {
					ps = append(ps, piece{f: f, i: i, e: e, sub: l[i : e+1], chord: geo.Chain{l[i], l[e]}, hull: geo.HullGeom(l[i : e+1])})
					ps[len(ps)-1].line = ps[len(ps)-1].hull.Kind == "LineString"
					nodes = append(nodes, node.CreateNode(ids, in.Polyline.SubCoordinates(rng.Range(i, e)), rng.Range(i, e), common.Geometry, in))
				}
				i = e
			}
		}
		if len(ps) < 2 {
			return
		}
		db := hdb.NewHdb().Load(nodes)
		at := map[int]int{}
		ptr := map[int]*node.Node{}
		for _, h := range db.All() {
			ptr[h.Id] = h
		}
		for n := range nodes {
			at[nodes[n].Id] = n
		}
		for n := range ps {
			if n > 12 {
				break
			}
			h := ptr[nodes[n].Id]
			for _, fc := range []bool{true, false} {
				if !fc && len(ls) > 1 {
					continue
				}
				var got, via []*node.Node
				var ok bool
				if fc {
					got = deform.SelectFeatureClass(o, db, h)
					ok = constrain.ByFeatureClassIntersection(o, h, db, &via)
				} else {
					got = deform.Select(o, db, h)
					ok = constrain.BySelfIntersection(o, h, db, &via)
				}
				set := map[int]bool{}
				for _, g := range got {
					m, in := at[g.Id]
					if !in || ptr[g.Id] != g {
						report(R, F, ls, npd, ps, n, fc, "selects what is not in the index", g.Range.String())
						return
					}
					if set[m] {
						report(R, F, ls, npd, ps, n, fc, "selects a piece twice", g.Range.String())
						return
					}
					set[m] = true
				}
				vs := map[int]bool{}
				for _, g := range via {
					vs[at[g.Id]] = true
				}
				if fmt.Sprint(keys(set)) != fmt.Sprint(keys(vs)) || len(via) != len(got) || ok == set[n] {
					report(R, F, ls, npd, ps, n, fc, "the constraint selects otherwise", fmt.Sprint(keys(set), keys(vs), ok))
					return
				}
				R.Eval(1)
				a := &ps[n]
				self, selfOpen, other := false, false, 0
				for m := range ps {
					if m == n {
						continue
					}
					b := &ps[m]
					if w := blocks(a, b); w != open {
						if got := h.Collapsible(ptr[nodes[m].Id]); got != (w == no) {
							report(R, F, ls, npd, ps, n, fc, fmt.Sprintf("Collapsible is %v", got), fmt.Sprintf("piece %d-%d of line %d", b.i, b.e, b.f))
							return
						}
						if w == yes {
							R.Count("pieces that block another", 1)
						}
					}
					var da, dB int
					either := false
					switch {
					case fc && a.f == b.f && h.Instance.State().IsClean():
						// compared when the polyline changed only
						da, dB = no, no
					case a.f != b.f || shared(a, b) == 0:
						da, dB, either = verdict(a, b, npd)
						if da == yes {
							R.Count("pairs to deform", 1)
						}
					case shared(a, b) == 1:
						da, dB = beyond(a, b), beyond(b, a)
						if da == yes || dB == yes {
							R.Count("contiguous pairs to deform", 1)
						}
					default:
						da, dB = open, open
					}
					if either {
						R.Count("pairs that would meet", 1)
						if !set[n] && !set[m] {
							report(R, F, ls, npd, ps, n, fc, "leaves alone pieces that would meet", fmt.Sprint(m))
							return
						}
					}
					if dB != open && (dB == yes) != set[m] {
						report(R, F, ls, npd, ps, n, fc, fmt.Sprintf("selected %v, expected %v", set[m], dB == yes), fmt.Sprintf("piece %d-%d of line %d", b.i, b.e, b.f))
						return
					}
					self = self || da == yes
					selfOpen = selfOpen || da == open
					if set[m] {
						other++
					}
				}
				if !(selfOpen && !self) && self != set[n] {
					report(R, F, ls, npd, ps, n, fc, fmt.Sprintf("itself selected %v, expected %v", set[n], self), "")
					return
				}
				if len(got) > 0 && len(got) < len(ps) {
					R.Nontrivial(fmt.Sprint(ls, npd, n, fc))
				}
			}
		}
	})
	R.Finish()
}

func keys(m map[int]bool) (out []int) {
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return
}

func report(R *run.R, F lib.Frame, ls []geo.Chain, npd float64, ps []piece, n int, fc bool, what, which string) {
	what2 := "Select"
	if fc {
		what2 = "SelectFeatureClass"
	}
	var all []string
	for _, p := range ps {
		all = append(all, fmt.Sprintf("%d:%d-%d", p.f, p.i, p.e))
	}
	R.Violate(fmt.Sprintf("%s: %s: %s\nlines %v\npieces (line:first-last) %v, asked for %d:%d-%d, displacement %v\n%v", what2, what, which, ls, all, ps[n].f, ps[n].i, ps[n].e, npd, F),
		map[string]interface{}{"lines": fmt.Sprint(ls), "pieces": all, "asked": n, "displacement": npd})
}
