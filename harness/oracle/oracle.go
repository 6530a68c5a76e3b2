// Package oracle holds the property monitors: each judges one observed execution (the
// scene, the options, the vertices the program kept) and returns "" or the violation.
package oracle

import (
	"fmt"
	"math"

	"verifharness/cli"
	"verifharness/geo"
)

// Obs is one observed execution of a scene.
type Obs struct {
	Cfg  cli.Cfg
	Case *cli.Case
	Kept []cli.Kept
}

// Stats counts what a monitor actually had in front of it.
type Stats struct {
	Checks  int // elementary comparisons made
	Trigger int // comparisons where the property had something to protect
}

type Piece struct {
	L, I, J int
	Sub     geo.Chain
	Chord   geo.Chain
}

func (o *Obs) Pieces(l int) []Piece {
	var ps []Piece
	line, k := o.Case.Lines[l], o.Kept[l]
	for t := 0; t+1 < len(k); t++ {
		ps = append(ps, Piece{l, k[t], k[t+1], line[k[t] : k[t+1]+1], geo.Chain{line[k[t]], line[k[t+1]]}})
	}
	return ps
}

func rel(x float64) float64 { return 1e-9 * (1 + math.Abs(x)) }

// DistBound: every dropped vertex is within the threshold of the segment replacing it.
func DistBound(o *Obs, st *Stats) string {
	T := o.Cfg.Threshold
	for l := range o.Case.Lines {
		for _, p := range o.Pieces(l) {
			for v := 1; v+1 < len(p.Sub); v++ {
				st.Checks++
				d := geo.PtSegDist(p.Chord[0], p.Chord[1], p.Sub[v])
				if d > 0 {
					st.Trigger++
				}
				if d > T+rel(T) {
					return fmt.Sprintf("line %d: vertex %d dropped between kept %d and %d lies %.9g > %v from the segment", l, p.I+v, p.I, p.J, d, T)
				}
			}
		}
	}
	return ""
}

// SED distance of a vertex to its time-synchronised position on the segment
func SED(a, b, p geo.P, za, zb, zp int64) float64 {
	f := float64(zp-za) / float64(zb-za)
	x := float64(a.X) + f*float64(b.X-a.X)
	y := float64(a.Y) + f*float64(b.Y-a.Y)
	return math.Hypot(float64(p.X)-x, float64(p.Y)-y)
}

func SEDBound(o *Obs, st *Stats) string {
	T := o.Cfg.Threshold
	for l := range o.Case.Lines {
		for _, p := range o.Pieces(l) {
			for v := 1; v+1 < len(p.Sub); v++ {
				st.Checks++
				d := SED(p.Chord[0], p.Chord[1], p.Sub[v], o.Case.ZAt(l, p.I), o.Case.ZAt(l, p.J), o.Case.ZAt(l, p.I+v))
				if d > 0 {
					st.Trigger++
				}
				if d > T+1e-7*(1+T) {
					return fmt.Sprintf("line %d: vertex %d dropped between kept %d and %d is %.9g > %v from its synchronised position", l, p.I+v, p.I, p.J, d, T)
				}
			}
		}
	}
	return ""
}

// NewSelf: output segments of one polyline meet only where the chains they replace meet.
func NewSelf(o *Obs, st *Stats) string {
	for l := range o.Case.Lines {
		ps := o.Pieces(l)
		for a := range ps {
			for b := a + 1; b < len(ps); b++ {
				p, q := ps[a], ps[b]
				if p.J-p.I == 1 && q.J-q.I == 1 {
					continue
				}
				st.Checks++
				if sharedEnd(p, q) {
					continue
				}
				if hullsMeet(p.Sub, q.Sub) {
					st.Trigger++
				}
				if geo.ChainX(p.Chord, q.Chord) && !geo.ChainX(p.Sub, q.Sub) {
					return fmt.Sprintf("line %d: segments %d-%d and %d-%d intersect, the chains they replace do not", l, p.I, p.J, q.I, q.J)
				}
			}
		}
	}
	return ""
}

func sharedEnd(p, q Piece) bool {
	for _, a := range p.Chord {
		for _, b := range q.Chord {
			if a == b {
				return true
			}
		}
	}
	return false
}

// SelfKept: crossings between pieces of one polyline survive, within the displacement.
func SelfKept(o *Obs, st *Stats) string {
	for l := range o.Case.Lines {
		ps := o.Pieces(l)
		for a := range ps {
			for b := a + 1; b < len(ps); b++ {
				p, q := ps[a], ps[b]
				if (p.J-p.I == 1 && q.J-q.I == 1) || sharedEnd(p, q) {
					continue
				}
				if s := crossing(o, p, q, st); s != "" {
					return fmt.Sprintf("line %d: segments %d-%d and %d-%d %s", l, p.I, p.J, q.I, q.J, s)
				}
			}
		}
	}
	return ""
}

func crossing(o *Obs, p, q Piece, st *Stats) string {
	st.Checks++
	if !geo.ChainX(p.Sub, q.Sub) {
		return ""
	}
	st.Trigger++
	if !geo.ChainX(p.Chord, q.Chord) {
		return "are disjoint, the chains they replace intersect"
	}
	for _, x := range geo.ChainPoints(p.Chord, q.Chord) {
		near := math.Inf(1)
		for _, y := range geo.ChainPoints(p.Sub, q.Sub) {
			near = math.Min(near, math.Hypot(x.X-y.X, x.Y-y.Y))
		}
		if near > o.Cfg.NPD+rel(o.Cfg.NPD)*100 {
			return fmt.Sprintf("intersect at (%.6g,%.6g), %.6g away from any original intersection (allowed %v)", x.X, x.Y, near, o.Cfg.NPD)
		}
	}
	return ""
}

// FCDisjoint: features that were disjoint stay disjoint.
func FCDisjoint(o *Obs, st *Stats) string {
	n := len(o.Case.Lines)
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if geo.ChainX(o.Case.Lines[i], o.Case.Lines[j]) {
				continue
			}
			st.Checks++
			if geo.ChainX(boxChain(o.Case.Lines[i]), boxChain(o.Case.Lines[j])) {
				st.Trigger++
			}
			for _, p := range o.Pieces(i) {
				for _, q := range o.Pieces(j) {
					if geo.ChainX(p.Chord, q.Chord) {
						return fmt.Sprintf("features %d and %d were disjoint; output segments %d-%d and %d-%d intersect", i, j, p.I, p.J, q.I, q.J)
					}
				}
			}
		}
	}
	return ""
}

func boxChain(c geo.Chain) geo.Chain {
	x0, y0, x1, y1 := c.Box()
	return geo.Chain{{X: x0, Y: y0}, {X: x1, Y: y0}, {X: x1, Y: y1}, {X: x0, Y: y1}, {X: x0, Y: y0}}
}

// FCCross: two output segments of different features intersect iff the chains they
// replace intersect, and not further than the displacement from an original intersection.
func FCCross(o *Obs, st *Stats) string {
	n := len(o.Case.Lines)
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			for _, p := range o.Pieces(i) {
				for _, q := range o.Pieces(j) {
					if p.J-p.I == 1 && q.J-q.I == 1 {
						continue
					}
					if geo.ChainX(p.Chord, q.Chord) && !geo.ChainX(p.Sub, q.Sub) {
						return fmt.Sprintf("features %d,%d: segments %d-%d and %d-%d intersect, the chains they replace do not", i, j, p.I, p.J, q.I, q.J)
					}
					if s := crossing(o, p, q, st); s != "" {
						return fmt.Sprintf("features %d,%d: segments %d-%d and %d-%d %s", i, j, p.I, p.J, q.I, q.J, s)
					}
				}
			}
		}
	}
	return ""
}

func keptSet(k cli.Kept) map[int]bool {
	m := map[int]bool{}
	for _, i := range k {
		m[i] = true
	}
	return m
}

// SharedVertices: vertices at a location used more than once are kept.
func SharedVertices(o *Obs, st *Stats) string {
	type ref struct{ l, i int }
	at := map[geo.P][]ref{}
	for l, c := range o.Case.Lines {
		for i, p := range c {
			key := p
			at[key] = append(at[key], ref{l, i})
		}
	}
	ks := make([]map[int]bool, len(o.Kept))
	for l := range o.Kept {
		ks[l] = keptSet(o.Kept[l])
	}
	for p, rs := range at {
		for _, a := range rs {
			shared := false
			for _, b := range rs {
				if a == b {
					continue
				}
				if a.l == b.l || o.Cfg.FC {
					shared = true
				}
			}
			if !shared {
				continue
			}
			st.Checks++
			if a.i != 0 && a.i != len(o.Case.Lines[a.l])-1 {
				st.Trigger++
			}
			if !ks[a.l][a.i] {
				return fmt.Sprintf("line %d: vertex %d at %v is shared and was dropped", a.l, a.i, p)
			}
		}
	}
	return ""
}

// CrossingEnds: the end vertices of segments of one polyline that cross are kept.
func CrossingEnds(o *Obs, st *Stats) string {
	for l, c := range o.Case.Lines {
		ks := keptSet(o.Kept[l])
		for a := 0; a+1 < len(c); a++ {
			for b := a + 1; b+1 < len(c); b++ {
				if !geo.SegX(c[a], c[a+1], c[b], c[b+1]) {
					continue
				}
				cross := false
				for _, x := range geo.SegPoints(c[a], c[a+1], c[b], c[b+1]) {
					va := isV(x, c[a]) || isV(x, c[a+1])
					vb := isV(x, c[b]) || isV(x, c[b+1])
					if !(va && vb) {
						cross = true
					}
				}
				if !cross {
					continue
				}
				for _, i := range []int{a, a + 1, b, b + 1} {
					st.Checks++
					if i != 0 && i != len(c)-1 {
						st.Trigger++
					}
					if !ks[i] {
						return fmt.Sprintf("line %d: segments %d-%d and %d-%d cross; vertex %d was dropped", l, a, a+1, b, b+1, i)
					}
				}
			}
		}
	}
	return ""
}

func isV(x geo.FP, p geo.P) bool {
	return math.Abs(x.X-float64(p.X)) < 1e-12 && math.Abs(x.Y-float64(p.Y)) < 1e-12
}

// GeomRel: an output segment intersects a constraint iff the chain it replaces does.
func GeomRel(o *Obs, st *Stats) string {
	for l := range o.Case.Lines {
		for _, p := range o.Pieces(l) {
			if p.J-p.I == 1 {
				continue
			}
			h := geo.HullGeom(p.Sub)
			for k := range o.Case.Cons {
				g := &o.Case.Cons[k]
				st.Checks++
				a, b := g.Intersects(p.Sub), g.Intersects(p.Chord)
				if a || hullTouches(&h, g) {
					st.Trigger++
				}
				if a != b {
					return fmt.Sprintf("line %d: chain %d..%d intersects constraint %d: %v, its segment: %v", l, p.I, p.J, k, a, b)
				}
			}
		}
	}
	return ""
}

func hullTouches(h, g *geo.Geom) bool {
	for _, l := range g.Lines() {
		if h.Intersects(l) {
			return true
		}
	}
	return false
}

// GeomRelWhole: the whole output intersects a constraint iff the input did.
func GeomRelWhole(o *Obs, st *Stats) string {
	for l, c := range o.Case.Lines {
		var s geo.Chain
		for _, i := range o.Kept[l] {
			s = append(s, c[i])
		}
		for k := range o.Case.Cons {
			g := &o.Case.Cons[k]
			st.Checks++
			if a, b := g.Intersects(c), g.Intersects(s); a != b {
				return fmt.Sprintf("line %d intersects constraint %d: %v, its simplification: %v", l, k, a, b)
			}
		}
	}
	return ""
}

// DistRel: what was at least the minimum distance away stays so.
func DistRel(o *Obs, st *Stats) string {
	m := o.Cfg.MinDist
	for l := range o.Case.Lines {
		for _, p := range o.Pieces(l) {
			if p.J-p.I == 1 {
				continue
			}
			for k := range o.Case.Cons {
				g := &o.Case.Cons[k]
				st.Checks++
				d := g.Dist(p.Sub)
				if d < m {
					continue
				}
				if e := g.Dist(p.Chord); e < m {
					tie := d == m && g.DistExact(p.Sub, d)
					if tie {
						st.Trigger++
					}
					if (d > m+rel(m) || tie) && e < m-rel(m) {
						return fmt.Sprintf("line %d: chain %d..%d is %.9g from constraint %d, its segment %.9g < %v", l, p.I, p.J, d, k, e, m)
					}
				} else if e < d {
					st.Trigger++
				}
			}
		}
	}
	return ""
}

// Homotopy: no constraint changes side.
func Homotopy(o *Obs, st *Stats) string {
	for l := range o.Case.Lines {
		for _, p := range o.Pieces(l) {
			if p.J-p.I == 1 {
				continue
			}
			var punct []geo.P
			h := geo.HullGeom(p.Sub)
			for k := range o.Case.Cons {
				g := &o.Case.Cons[k]
				if g.Kind == "Polygon" && len(g.Rings) > 1 {
					continue
				}
				if !g.Intersects(p.Sub) && !g.Intersects(p.Chord) {
					punct = append(punct, g.Rep())
					if h.Covers(g.Rep()) {
						st.Trigger++
					}
				}
			}
			if len(punct) == 0 {
				continue
			}
			st.Checks++
			loop := append(append(geo.Chain{}, p.Sub...), p.Sub[0])
			if w := geo.Word(loop, punct); len(w) != 0 {
				return fmt.Sprintf("line %d: segment %d-%d is not homotopic to the chain it replaces around %v (word %v)", l, p.I, p.J, punct, w)
			}
		}
	}
	return ""
}

func hullsMeet(a, b geo.Chain) bool {
	g, h := geo.HullGeom(a), geo.HullGeom(b)
	return hullTouches(&g, &h)
}

// Adjacent: where two output segments of one polyline share an end point, the far end of one
// does not lie strictly inside the convex hull of the chain the other one replaces.
func Adjacent(o *Obs, st *Stats) string {
	for l := range o.Case.Lines {
		ps := o.Pieces(l)
		for a := range ps {
			if ps[a].J-ps[a].I == 1 {
				continue
			}
			h := geo.HullGeom(ps[a].Sub)
			if h.Kind != "Polygon" {
				continue
			}
			for b := range ps {
				if a == b || !sharedEnd(ps[a], ps[b]) {
					continue
				}
				for _, t := range ps[b].Chord {
					if t == ps[a].Chord[0] || t == ps[a].Chord[1] {
						continue
					}
					st.Checks++
					if h.Covers(t) {
						st.Trigger++
						if geo.RingSide(h.Rings[0], t) > 0 {
							return fmt.Sprintf("line %d: end point %v of segment %d-%d lies inside the hull of the chain %d..%d", l, t, ps[b].I, ps[b].J, ps[a].I, ps[a].J)
						}
					}
				}
			}
		}
	}
	return ""
}

// MustKeep: end vertices, shared vertices and, with non-planar self intersections observed,
// the end vertices of crossing segments.
func MustKeep(c *cli.Case, cfg cli.Cfg) []map[int]bool {
	out := make([]map[int]bool, len(c.Lines))
	type ref struct{ l, i int }
	at := map[geo.P][]ref{}
	for l, ch := range c.Lines {
		out[l] = map[int]bool{0: true, len(ch) - 1: true}
		for i, p := range ch {
			at[p] = append(at[p], ref{l, i})
		}
	}
	for _, rs := range at {
		for _, a := range rs {
			for _, b := range rs {
				if a != b && (a.l == b.l || cfg.FC) {
					out[a.l][a.i] = true
				}
			}
		}
	}
	if !cfg.NonPlanar {
		return out
	}
	for l, ch := range c.Lines {
		for a := 0; a+1 < len(ch); a++ {
			for b := a + 1; b+1 < len(ch); b++ {
				if geo.SegX(ch[a], ch[a+1], ch[b], ch[b+1]) {
					for _, i := range []int{a, a + 1, b, b + 1} {
						if b > a+1 || geo.SegOverlap(ch[a], ch[a+1], ch[b], ch[b+1]) {
							out[l][i] = true
						}
					}
				}
			}
		}
	}
	return out
}
