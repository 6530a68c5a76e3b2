// Package geo holds the exact integer geometry the monitors judge with. It shares
// no code with the system under test: predicates are int64 orientation tests, so
// on integer-grid workloads every verdict of an intersection oracle is exact.
package geo

import (
	"math"
)

type P struct{ X, Y int64 }

func Cross(a, b, c P) int64 {
	return (b.X-a.X)*(c.Y-a.Y) - (b.Y-a.Y)*(c.X-a.X)
}

func Orient(a, b, c P) int {
	v := Cross(a, b, c)
	switch {
	case v > 0:
		return 1
	case v < 0:
		return -1
	}
	return 0
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// inBox: p within the closed bounding box of a,b
func inBox(a, b, p P) bool {
	return min64(a.X, b.X) <= p.X && p.X <= max64(a.X, b.X) &&
		min64(a.Y, b.Y) <= p.Y && p.Y <= max64(a.Y, b.Y)
}

// OnSeg: p on the closed segment ab (exact, degenerate segments included)
func OnSeg(a, b, p P) bool { return inBox(a, b, p) && Cross(a, b, p) == 0 }

// SegX: closed segments ab and cd share at least one point (exact)
func SegX(a, b, c, d P) bool {
	if max64(a.X, b.X) < min64(c.X, d.X) || max64(c.X, d.X) < min64(a.X, b.X) ||
		max64(a.Y, b.Y) < min64(c.Y, d.Y) || max64(c.Y, d.Y) < min64(a.Y, b.Y) {
		return false
	}
	o1, o2 := Orient(a, b, c), Orient(a, b, d)
	o3, o4 := Orient(c, d, a), Orient(c, d, b)
	if o1*o2 < 0 && o3*o4 < 0 {
		return true
	}
	return OnSeg(a, b, c) || OnSeg(a, b, d) || OnSeg(c, d, a) || OnSeg(c, d, b)
}

// SegOverlap: the segments share more than one point
func SegOverlap(a, b, c, d P) bool {
	if Cross(a, b, c) != 0 || Cross(a, b, d) != 0 || Cross(c, d, a) != 0 || Cross(c, d, b) != 0 {
		return false
	}
	seen := map[P]bool{}
	for _, q := range []P{c, d} {
		if OnSeg(a, b, q) {
			seen[q] = true
		}
	}
	for _, q := range []P{a, b} {
		if OnSeg(c, d, q) {
			seen[q] = true
		}
	}
	return len(seen) > 1
}

type FP struct{ X, Y float64 }

// SegPoints: the points the library-independent intersection of two closed segments
// reports: the crossing point, or the end points of a collinear overlap.
func SegPoints(a, b, c, d P) []FP {
	if !SegX(a, b, c, d) {
		return nil
	}
	den := (d.Y-c.Y)*(b.X-a.X) - (d.X-c.X)*(b.Y-a.Y)
	if den == 0 {
		set := map[P]bool{}
		for _, q := range []P{c, d} {
			if OnSeg(a, b, q) {
				set[q] = true
			}
		}
		for _, q := range []P{a, b} {
			if OnSeg(c, d, q) {
				set[q] = true
			}
		}
		var out []FP
		for q := range set {
			out = append(out, FP{float64(q.X), float64(q.Y)})
		}
		return out
	}
	num := (d.X-c.X)*(a.Y-c.Y) - (d.Y-c.Y)*(a.X-c.X)
	u := float64(num) / float64(den)
	return []FP{{float64(a.X) + u*float64(b.X-a.X), float64(a.Y) + u*float64(b.Y-a.Y)}}
}

func PtSegDist(a, b, p P) float64 {
	dx, dy := float64(b.X-a.X), float64(b.Y-a.Y)
	px, py := float64(p.X-a.X), float64(p.Y-a.Y)
	l2 := dx*dx + dy*dy
	if l2 == 0 {
		return math.Hypot(px, py)
	}
	u := (px*dx + py*dy) / l2
	if u < 0 {
		return math.Hypot(px, py)
	}
	if u > 1 {
		return math.Hypot(float64(p.X-b.X), float64(p.Y-b.Y))
	}
	return math.Abs(dx*py-dy*px) / math.Sqrt(l2)
}

// PtSegExact: the distance is along an axis, so that any sensible floating point formula
// gives it without rounding.
func PtSegExact(a, b, p P) bool {
	dx, dy := b.X-a.X, b.Y-a.Y
	u, l2 := (p.X-a.X)*dx+(p.Y-a.Y)*dy, dx*dx+dy*dy
	switch {
	case u <= 0:
		return p.X == a.X || p.Y == a.Y
	case u >= l2:
		return p.X == b.X || p.Y == b.Y
	}
	return dx == 0 || dy == 0
}

// ChainDistExact: every pair at (about) distance d is at that distance along an axis.
func ChainDistExact(a, b Chain, d float64) bool {
	ok := true
	a.Segs(func(p, q P) bool {
		b.Segs(func(r, s P) bool {
			for _, t := range [4][3]P{{p, q, r}, {p, q, s}, {r, s, p}, {r, s, q}} {
				if PtSegDist(t[0], t[1], t[2]) <= d+1e-6*(1+d) && !PtSegExact(t[0], t[1], t[2]) {
					ok = false
				}
			}
			return ok
		})
		return ok
	})
	return ok
}

func SegDist(a, b, c, d P) float64 {
	if SegX(a, b, c, d) {
		return 0
	}
	return math.Min(math.Min(PtSegDist(a, b, c), PtSegDist(a, b, d)),
		math.Min(PtSegDist(c, d, a), PtSegDist(c, d, b)))
}

// Chain is an open polyline (>= 1 vertex)
type Chain []P

func (c Chain) Segs(f func(a, b P) bool) {
	if len(c) == 1 {
		f(c[0], c[0])
		return
	}
	for i := 0; i+1 < len(c); i++ {
		if !f(c[i], c[i+1]) {
			return
		}
	}
}

func (c Chain) Box() (x0, y0, x1, y1 int64) {
	x0, y0, x1, y1 = c[0].X, c[0].Y, c[0].X, c[0].Y
	for _, p := range c {
		x0, y0, x1, y1 = min64(x0, p.X), min64(y0, p.Y), max64(x1, p.X), max64(y1, p.Y)
	}
	return
}

func ChainX(a, b Chain) bool {
	ax0, ay0, ax1, ay1 := a.Box()
	bx0, by0, bx1, by1 := b.Box()
	if ax1 < bx0 || bx1 < ax0 || ay1 < by0 || by1 < ay0 {
		return false
	}
	hit := false
	a.Segs(func(p, q P) bool {
		b.Segs(func(r, s P) bool { hit = SegX(p, q, r, s); return !hit })
		return !hit
	})
	return hit
}

func ChainPoints(a, b Chain) []FP {
	var out []FP
	a.Segs(func(p, q P) bool {
		b.Segs(func(r, s P) bool { out = append(out, SegPoints(p, q, r, s)...); return true })
		return true
	})
	return out
}

func ChainDist(a, b Chain) float64 {
	d := math.Inf(1)
	a.Segs(func(p, q P) bool {
		b.Segs(func(r, s P) bool { d = math.Min(d, SegDist(p, q, r, s)); return d > 0 })
		return d > 0
	})
	return d
}

// ringSide: +1 inside, 0 on the boundary, -1 outside
func ringSide(ring []P, p P) int {
	in := false
	n := len(ring)
	for i := 0; i+1 < n; i++ {
		a, b := ring[i], ring[i+1]
		if OnSeg(a, b, p) {
			return 0
		}
		if (a.Y > p.Y) != (b.Y > p.Y) {
			o := Cross(a, b, p)
			if b.Y < a.Y {
				o = -o
			}
			if o > 0 { // p left of the upward edge: the ray to +x crosses... (either parity works, consistently)
				in = !in
			}
		}
	}
	if in {
		return 1
	}
	return -1
}

// Geom is a constraint geometry: Kind "Point", "LineString" or "Polygon".
type Geom struct {
	Kind  string
	Pts   Chain   // Point, LineString
	Rings []Chain // Polygon, closed
}

// Covers: p in the closed region / on the line / equal to the point
func (g *Geom) Covers(p P) bool {
	switch g.Kind {
	case "Polygon":
		s := ringSide(g.Rings[0], p)
		if s < 0 {
			return false
		}
		if s == 0 {
			return true
		}
		for _, h := range g.Rings[1:] {
			if ringSide(h, p) > 0 {
				return false
			}
		}
		return true
	default:
		hit := false
		g.Pts.Segs(func(a, b P) bool { hit = OnSeg(a, b, p); return !hit })
		return hit
	}
}

func (g *Geom) Lines() []Chain {
	if g.Kind == "Polygon" {
		return g.Rings
	}
	return []Chain{g.Pts}
}

func (g *Geom) Intersects(c Chain) bool {
	for _, l := range g.Lines() {
		if ChainX(l, c) {
			return true
		}
	}
	return g.Kind == "Polygon" && g.Covers(c[0])
}

func (g *Geom) Dist(c Chain) float64 {
	if g.Intersects(c) {
		return 0
	}
	d := math.Inf(1)
	for _, l := range g.Lines() {
		d = math.Min(d, ChainDist(l, c))
	}
	return d
}

// DistExact: the distance d of chain and geometry is not subject to rounding.
func (g *Geom) DistExact(c Chain, d float64) bool {
	for _, l := range g.Lines() {
		if !ChainDistExact(l, c, d) {
			return false
		}
	}
	return true
}

func (g *Geom) Rep() P {
	if g.Kind == "Polygon" {
		return g.Rings[0][0]
	}
	return g.Pts[0]
}

func (g *Geom) Shift(dx, dy int64) Geom {
	o := Geom{Kind: g.Kind, Pts: ShiftChain(g.Pts, dx, dy)}
	for _, r := range g.Rings {
		o.Rings = append(o.Rings, ShiftChain(r, dx, dy))
	}
	return o
}

// Any is a vertex of the geometry.
func (g *Geom) Any() P {
	if len(g.Pts) > 0 {
		return g.Pts[0]
	}
	return g.Rings[0][0]
}

// Mirror is the mirror image with the same extent.
func (g *Geom) Mirror() Geom {
	x0, x1 := g.Any().X, g.Any().X
	for _, c := range append([]Chain{g.Pts}, g.Rings...) {
		for _, p := range c {
			x0, x1 = min(x0, p.X), max(x1, p.X)
		}
	}
	flip := func(c Chain) (o Chain) {
		for _, p := range c {
			o = append(o, P{X: x0 + x1 - p.X, Y: p.Y})
		}
		return
	}
	o := Geom{Kind: g.Kind, Pts: flip(g.Pts)}
	for _, r := range g.Rings {
		o.Rings = append(o.Rings, flip(r))
	}
	return o
}

func ShiftChain(c Chain, dx, dy int64) Chain {
	var o Chain
	for _, p := range c {
		o = append(o, P{p.X + dx, p.Y + dy})
	}
	return o
}

// ConvexHull (monotone chain, strict turns); may be 1 or 2 points when degenerate
func ConvexHull(pts []P) []P {
	ps := append([]P(nil), pts...)
	for i := 1; i < len(ps); i++ {
		for j := i; j > 0 && (ps[j].X < ps[j-1].X || ps[j].X == ps[j-1].X && ps[j].Y < ps[j-1].Y); j-- {
			ps[j], ps[j-1] = ps[j-1], ps[j]
		}
	}
	u := ps[:0:0]
	for i, p := range ps {
		if i == 0 || p != ps[i-1] {
			u = append(u, p)
		}
	}
	if len(u) < 3 {
		return u
	}
	build := func(seq []P) []P {
		var h []P
		for _, p := range seq {
			for len(h) >= 2 && Cross(h[len(h)-2], h[len(h)-1], p) <= 0 {
				h = h[:len(h)-1]
			}
			h = append(h, p)
		}
		return h
	}
	lo := build(u)
	r := make([]P, len(u))
	for i := range u {
		r[i] = u[len(u)-1-i]
	}
	up := build(r)
	return append(lo[:len(lo)-1], up[:len(up)-1]...)
}

// HullGeom: the closed convex hull as a Geom
func HullGeom(pts []P) Geom {
	h := ConvexHull(pts)
	switch len(h) {
	case 1:
		return Geom{Kind: "Point", Pts: Chain{h[0]}}
	case 2:
		return Geom{Kind: "LineString", Pts: Chain{h[0], h[1]}}
	}
	return Geom{Kind: "Polygon", Rings: []Chain{append(Chain(h), h[0])}}
}

// ---- homotopy: the word of a path in the free group of the plane minus points ----
// Every puncture r emits a vertical ray upwards; a path crossing ray k from left to
// right contributes +k+1, right to left -(k+1). Punctures must not lie on the path.

type cut struct {
	num, den int64 // position along the segment as the exact fraction of its x extent
	sym      int
	yk       int64
}

func Word(path Chain, punct []P) []int {
	var w []int
	for i := 0; i+1 < len(path); i++ {
		a, b := path[i], path[i+1]
		if a.X == b.X {
			continue
		}
		var cs []cut
		for k, r := range punct {
			var sym int
			// half-open: the ray sits at r.X + tiny epsilon
			if a.X <= r.X && r.X < b.X {
				sym = k + 1
			} else if b.X <= r.X && r.X < a.X {
				sym = -(k + 1)
			} else {
				continue
			}
			// is the path above the puncture at x = r.X (+eps)?  exact: orientation.
			lo, hi := a, b
			if b.X < a.X {
				lo, hi = b, a
			}
			if Cross(lo, hi, r) >= 0 { // puncture on or above the segment: the upward ray starts above it
				continue
			}
			d := r.X - a.X
			if d < 0 {
				d = -d
			}
			cs = append(cs, cut{num: d, sym: sym, yk: r.Y})
		}
		// order along the travel direction; rays at the same x are ordered consistently by
		// index, as if their x positions were perturbed by k*epsilon^2.
		fwd := b.X > a.X
		for x := 1; x < len(cs); x++ {
			for y := x; y > 0 && less(cs[y], cs[y-1], fwd); y-- {
				cs[y], cs[y-1] = cs[y-1], cs[y]
			}
		}
		for _, c := range cs {
			if n := len(w); n > 0 && w[n-1] == -c.sym {
				w = w[:n-1]
			} else {
				w = append(w, c.sym)
			}
		}
	}
	return w
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

func less(p, q cut, fwd bool) bool {
	if p.num != q.num {
		return p.num < q.num
	}
	if fwd {
		return abs(p.sym) < abs(q.sym)
	}
	return abs(p.sym) > abs(q.sym)
}

func WordsEqual(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// RingSide: +1 strictly inside, 0 on the boundary, -1 outside
func RingSide(ring Chain, p P) int { return ringSide(ring, p) }
