// Package gen makes the scenes. All coordinates are small integers, every choice comes
// from the given PRNG.
package gen

import (
	"math"
	"math/rand"
	"sort"

	"verifharness/geo"
)

type P = geo.P
type R = *rand.Rand

func iv(r R, lo, hi int) int64 { // inclusive
	if hi < lo {
		hi = lo
	}
	return int64(lo + r.Intn(hi-lo+1))
}

// IsSimple: no two non-adjacent segments touch and adjacent ones share only the vertex
// (the closing vertex of a ring is allowed).
func IsSimple(c geo.Chain) bool {
	n := len(c) - 1
	ring := n > 2 && c[0] == c[n]
	for i := 0; i < n; i++ {
		if c[i] == c[i+1] {
			return false
		}
		for j := i + 1; j < n; j++ {
			if j == i+1 || ring && i == 0 && j == n-1 {
				if geo.SegOverlap(c[i], c[i+1], c[j], c[j+1]) {
					return false
				}
				if j == i+1 {
					continue
				}
				if geo.SegX(c[i], c[i+1], c[j], c[j+1]) { // closing vertex only
					pts := geo.SegPoints(c[i], c[i+1], c[j], c[j+1])
					if len(pts) == 1 && pts[0] == (geo.FP{X: float64(c[0].X), Y: float64(c[0].Y)}) {
						continue
					}
					return false
				}
				continue
			}
			if geo.SegX(c[i], c[i+1], c[j], c[j+1]) {
				return false
			}
		}
	}
	return true
}

// Monotone: x strictly increasing noise
func Monotone(r R, n, step, h int) geo.Chain {
	var c geo.Chain
	x := int64(0)
	for i := 0; i < n; i++ {
		c = append(c, P{X: x, Y: iv(r, 0, h)})
		x += iv(r, 1, step)
	}
	return c
}

// Serpentine: boustrophedon of long parallel runs close to each other
func Serpentine(r R, rows, w, gap int) geo.Chain {
	var c geo.Chain
	y := int64(0)
	for k := 0; k < rows; k++ {
		m := 2 + r.Intn(4)
		xs := make([]int, m)
		for i := range xs {
			xs[i] = r.Intn(w) + 1
		}
		sort.Ints(xs)
		xs[0], xs[m-1] = 0, w+1+r.Intn(3)
		if k%2 == 1 {
			for i, j := 0, m-1; i < j; i, j = i+1, j-1 {
				xs[i], xs[j] = xs[j], xs[i]
			}
		}
		for _, x := range xs {
			c = append(c, P{X: int64(x), Y: y + iv(r, 0, max(gap-2, 0))})
		}
		y += int64(gap)
	}
	return c
}

// Spiral: polygonal spiral with slight noise
func Spiral(r R, turns, seg int, pitch float64) geo.Chain {
	var c geo.Chain
	n := turns * seg
	for i := 0; i <= n; i++ {
		a := 2 * math.Pi * float64(i) / float64(seg)
		rad := pitch*float64(i)/float64(seg) + pitch + r.Float64()*pitch*0.4
		c = append(c, P{X: int64(math.Round(150 + rad*math.Cos(a))), Y: int64(math.Round(150 + rad*math.Sin(a)))})
	}
	return dedupe(c)
}

func dedupe(c geo.Chain) geo.Chain {
	o := c[:0:0]
	for i, p := range c {
		if i == 0 || p != c[i-1] {
			o = append(o, p)
		}
	}
	return o
}

// Star: star-shaped ring
func Star(r R, n, rad int) geo.Chain {
	var c geo.Chain
	off := r.Float64()
	for i := 0; i < n; i++ {
		a := 2 * math.Pi * (float64(i) + off + r.Float64()*0.6) / float64(n)
		q := float64(rad) * (0.25 + 0.75*r.Float64())
		c = append(c, P{X: int64(math.Round(float64(rad) + q*math.Cos(a))), Y: int64(math.Round(float64(rad) + q*math.Sin(a)))})
	}
	c = dedupe(c)
	return append(c, c[0])
}

// Untangle: random points made simple by 2-opt
func Untangle(r R, n, g int) geo.Chain {
	seen := map[P]bool{}
	var c geo.Chain
	for len(c) < n && len(seen) < g*g {
		p := P{X: iv(r, 0, g), Y: iv(r, 0, g)}
		if !seen[p] {
			seen[p] = true
			c = append(c, p)
		}
	}
	for it := 0; it < 400; it++ {
		changed := false
		for i := 0; i+1 < len(c) && !changed; i++ {
			for j := i + 1; j+1 < len(c); j++ {
				if j == i+1 {
					if geo.SegOverlap(c[i], c[i+1], c[j], c[j+1]) {
						// move the turning vertex inwards
						c[i+1], c[j+1] = c[j+1], c[i+1]
						if geo.SegOverlap(c[i], c[i+1], c[j], c[j+1]) {
							c[i], c[i+1] = c[i+1], c[i]
						}
						changed = true
						break
					}
					continue
				}
				if geo.SegX(c[i], c[i+1], c[j], c[j+1]) {
					for a, b := i+1, j; a < b; a, b = a+1, b-1 {
						c[a], c[b] = c[b], c[a]
					}
					changed = true
					break
				}
			}
		}
		if !changed {
			break
		}
	}
	return c
}

// Walk: random walk; may cross, touch, repeat
func Walk(r R, n, g, step int) geo.Chain {
	c := geo.Chain{{X: iv(r, 0, g), Y: iv(r, 0, g)}}
	for len(c) < n {
		p := c[len(c)-1]
		q := P{X: p.X + iv(r, -step, step), Y: p.Y + iv(r, -step, step)}
		if q.X < 0 || q.Y < 0 || q.X > int64(g) || q.Y > int64(g) {
			continue
		}
		switch r.Intn(16) {
		case 0: // revisit
			q = c[r.Intn(len(c))]
		case 1: // duplicate
			q = p
		case 2: // fold back on the previous segment
			if len(c) > 1 {
				o := c[len(c)-2]
				q = P{X: (p.X + o.X) / 2, Y: (p.Y + o.Y) / 2}
			}
		case 3: // collinear continuation
			if len(c) > 1 {
				o := c[len(c)-2]
				q = P{X: 2*p.X - o.X, Y: 2*p.Y - o.Y}
				if q.X < 0 || q.Y < 0 || q.X > int64(g) || q.Y > int64(g) {
					continue
				}
			}
		}
		c = append(c, q)
	}
	return c
}

// AvoidingWalk: self-avoiding walk on the lattice with unit or longer steps
func AvoidingWalk(r R, n, g, step int) geo.Chain {
	c := geo.Chain{{X: iv(r, 0, g), Y: iv(r, 0, g)}}
	for tries := 0; len(c) < n && tries < 40*n; tries++ {
		p := c[len(c)-1]
		q := P{X: p.X + iv(r, -step, step), Y: p.Y + iv(r, -step, step)}
		if q == p || q.X < 0 || q.Y < 0 || q.X > int64(g) || q.Y > int64(g) {
			continue
		}
		ok := true
		for i := 0; i+1 < len(c) && ok; i++ {
			if i+2 == len(c) {
				ok = !geo.SegOverlap(c[i], c[i+1], p, q)
			} else {
				ok = !geo.SegX(c[i], c[i+1], p, q)
			}
		}
		if ok {
			c = append(c, q)
		}
	}
	return c
}

// Battlement: a rectangular wave
func Battlement(r R, n int) geo.Chain {
	hs := []int64{0, 0, 1, 3, 8, 10, 20, iv(r, 0, 60)}
	var c geo.Chain
	x, y := int64(0), int64(0)
	for len(c) < n {
		c = append(c, P{X: x, Y: y})
		if r.Intn(3) > 0 {
			x += iv(r, 1, 12)
			c = append(c, P{X: x, Y: y})
		}
		if h := hs[r.Intn(len(hs))]; h != y {
			y = h
		} else {
			x++
		}
	}
	return c
}

// AxisWalk: self-avoiding walk along the axes
func AxisWalk(r R, n, g, step int) geo.Chain {
	c := geo.Chain{{X: iv(r, 0, g), Y: iv(r, 0, g)}}
	for tries := 0; len(c) < n && tries < 40*n; tries++ {
		p := c[len(c)-1]
		q := p
		d := iv(r, -step, step)
		if r.Intn(2) == 0 {
			q.X += d
		} else {
			q.Y += d
		}
		if q == p || q.X < 0 || q.Y < 0 || q.X > int64(g) || q.Y > int64(g) {
			continue
		}
		ok := true
		for i := 0; i+1 < len(c) && ok; i++ {
			if i+2 == len(c) {
				ok = !geo.SegOverlap(c[i], c[i+1], p, q)
			} else {
				ok = !geo.SegX(c[i], c[i+1], p, q)
			}
		}
		if ok {
			c = append(c, q)
		}
	}
	return c
}

// SimpleLine draws one simple (non self-intersecting) polyline.
func SimpleLine(r R, maxN int) geo.Chain {
	for {
		var c geo.Chain
		n := 4 + r.Intn(maxN-3)
		switch r.Intn(10) {
		case 8:
			c = Battlement(r, n)
		case 9:
			c = AxisWalk(r, n, []int{8, 30, 100}[r.Intn(3)], []int{2, 10, 20}[r.Intn(3)])
		case 0:
			c = Monotone(r, n, 1+r.Intn(12), 2+r.Intn(60))
		case 1:
			c = Serpentine(r, 2+r.Intn(max(1, n/4)), 10+r.Intn(80), 1+r.Intn(12))
		case 2:
			c = Spiral(r, 1+r.Intn(4), 5+r.Intn(8), 4+r.Float64()*20)
		case 3:
			c = Star(r, min(n, 30), 20+r.Intn(100))
			if r.Intn(2) == 0 {
				c = c[:len(c)-1]
			}
		case 4, 5:
			c = Untangle(r, min(n, 26), []int{6, 15, 40, 200}[r.Intn(4)])
		case 6:
			c = AvoidingWalk(r, n, []int{8, 20, 60, 200}[r.Intn(4)], 1+r.Intn(20))
		case 7:
			c = AvoidingWalk(r, n, 12, 2)
		}
		if len(c) >= 3 && IsSimple(c) {
			return orient(r, c)
		}
	}
}

// AnyLine draws a polyline that may cross, touch and overlap itself.
func AnyLine(r R, maxN int) geo.Chain {
	n := 3 + r.Intn(maxN-2)
	var c geo.Chain
	switch r.Intn(6) {
	case 0:
		c = Walk(r, n, []int{5, 12, 40, 200}[r.Intn(4)], 1+r.Intn(12))
	case 1:
		g := []int{6, 30, 200}[r.Intn(3)]
		for i := 0; i < n; i++ {
			c = append(c, P{X: iv(r, 0, g), Y: iv(r, 0, g)})
		}
	case 2: // closed loop of figure-eight kind
		g := 20 + r.Intn(150)
		for i := 0; i < n; i++ {
			a := 2 * math.Pi * float64(i) / float64(n)
			c = append(c, P{X: int64(math.Round(float64(g) + float64(g)*math.Sin(a))), Y: int64(math.Round(float64(g) + float64(g)*math.Sin(2*a)))})
		}
		c = append(c, c[0])
	case 3: // collinear
		x, y := iv(r, -3, 3), iv(r, -3, 3)
		for i := 0; i < n; i++ {
			k := iv(r, 0, 20)
			c = append(c, P{X: 100 + x*k, Y: 100 + y*k})
		}
	default:
		c = SimpleLine(r, maxN)
	}
	return c
}

// orient applies a random symmetry of the square, keeping coordinates non-negative.
func orient(r R, c geo.Chain) geo.Chain {
	k := r.Intn(8)
	o := make(geo.Chain, len(c))
	for i, p := range c {
		if k&1 != 0 {
			p.X = -p.X
		}
		if k&2 != 0 {
			p.Y = -p.Y
		}
		if k&4 != 0 {
			p.X, p.Y = p.Y, p.X
		}
		o[i] = p
	}
	x0, y0, _, _ := o.Box()
	return geo.ShiftChain(o, -x0, -y0)
}

// Norm shifts every chain of a scene so that the scene starts at the origin.
func Norm(cs []geo.Chain) []geo.Chain {
	x0, y0 := int64(math.MaxInt64), int64(math.MaxInt64)
	for _, c := range cs {
		a, b, _, _ := c.Box()
		x0, y0 = min(x0, a), min(y0, b)
	}
	for i := range cs {
		cs[i] = geo.ShiftChain(cs[i], -x0, -y0)
	}
	return cs
}

// Disjoint returns k polylines, pairwise disjoint, often close together.
func Disjoint(r R, k, maxN int) []geo.Chain {
	var out []geo.Chain
	switch r.Intn(4) {
	case 0: // contours: shared base curve, strictly ordered at every x
		n := 4 + r.Intn(maxN-3)
		step := 2 + r.Intn(14)
		h := 5 + r.Intn(60)
		base := Monotone(r, n, step, h)
		w := base[n-1].X
		at := func(x int64) float64 { // base height, linear interpolation
			for i := 0; i+1 < len(base); i++ {
				if x <= base[i+1].X {
					t := float64(x-base[i].X) / float64(base[i+1].X-base[i].X)
					return float64(base[i].Y)*(1-t) + t*float64(base[i+1].Y)
				}
			}
			return float64(base[n-1].Y)
		}
		gap := 1 + r.Intn(12)
		for j := 0; j < k; j++ {
			var c geo.Chain
			for _, p := range base {
				if r.Intn(5) > 0 || p.X == 0 || p.X == w {
					c = append(c, P{X: p.X, Y: p.Y + int64(j*gap*2) + iv(r, 0, gap/2)})
				} else {
					x := p.X + iv(r, -1, 1)
					if x > c[len(c)-1].X && x < w {
						c = append(c, P{X: x, Y: int64(math.Round(at(x))) + int64(j*gap*2) + iv(r, 0, gap/2)})
					}
				}
			}
			out = append(out, c)
		}
	case 1: // nested rings
		s := Star(r, 5+r.Intn(min(maxN, 24)), 60+r.Intn(60))
		cx, cy := int64(s[0].X), int64(s[0].Y)
		_, _ = cx, cy
		for j := 0; j < k; j++ {
			f := 1.0 - 0.8*float64(j)/float64(k)
			var c geo.Chain
			for _, p := range s {
				c = append(c, P{X: int64(math.Round(120 + f*float64(p.X-100))), Y: int64(math.Round(120 + f*float64(p.Y-100)))})
			}
			if r.Intn(3) == 0 {
				c = c[:len(c)-1]
			}
			out = append(out, c)
		}
	default:
		spread := 10 + r.Intn(120)
		for t := 0; t < 30*k && len(out) < k; t++ {
			c := SimpleLine(r, maxN)
			c = geo.ShiftChain(c, iv(r, 0, spread), iv(r, 0, spread))
			ok := true
			for _, o := range out {
				if geo.ChainX(o, c) {
					ok = false
				}
			}
			if ok {
				out = append(out, c)
			}
		}
	}
	var kept []geo.Chain
	for _, c := range out {
		if len(c) < 2 || !IsSimple(c) {
			continue
		}
		ok := true
		for _, o := range kept {
			if geo.ChainX(o, c) {
				ok = false
			}
		}
		if ok {
			kept = append(kept, c)
		}
	}
	if len(kept) == 0 {
		kept = append(kept, SimpleLine(r, maxN))
	}
	return Norm(kept)
}

// Network returns polylines sharing vertices (junctions), possibly crossing as well.
func Network(r R, k, maxN int) []geo.Chain {
	var out []geo.Chain
	spread := 5 + r.Intn(100)
	for j := 0; j < k; j++ {
		var c geo.Chain
		if r.Intn(3) == 0 {
			c = AnyLine(r, maxN)
		} else {
			c = SimpleLine(r, maxN)
		}
		c = geo.ShiftChain(c, iv(r, 0, spread), iv(r, 0, spread))
		if len(out) > 0 {
			for t := 1 + r.Intn(3); t > 0; t-- { // snap vertices onto vertices of earlier lines
				o := out[r.Intn(len(out))]
				i := r.Intn(len(c))
				if r.Intn(2) == 0 {
					i = (len(c) - 1) * r.Intn(2)
				}
				c[i] = o[r.Intn(len(o))]
			}
			if r.Intn(4) == 0 { // share a stretch
				o := out[r.Intn(len(out))]
				a := r.Intn(len(o))
				b := min(len(o), a+1+r.Intn(5))
				c = append(c, o[a:b]...)
			}
		}
		out = append(out, c)
	}
	return Norm(out)
}

// SmallPoly: a small simple polygon ring around c
func SmallPoly(r R, c P, s int) geo.Chain {
	for t := 0; t < 50; t++ {
		var ring geo.Chain
		switch r.Intn(3) {
		case 0:
			w, h := iv(r, 1, s), iv(r, 1, s)
			ring = geo.Chain{c, {X: c.X + w, Y: c.Y}, {X: c.X + w, Y: c.Y + h}, {X: c.X, Y: c.Y + h}, c}
		case 1:
			a := P{X: c.X + iv(r, -s, s), Y: c.Y + iv(r, -s, s)}
			b := P{X: c.X + iv(r, -s, s), Y: c.Y + iv(r, -s, s)}
			ring = geo.Chain{c, a, b, c}
			if geo.Cross(c, a, b) == 0 {
				continue
			}
		case 2:
			ring = geo.ShiftChain(Star(r, 4+r.Intn(5), max(s, 3)), c.X, c.Y)
		}
		if len(ring) >= 4 && IsSimple(ring) {
			return ring
		}
	}
	return geo.Chain{c, {X: c.X + 1, Y: c.Y}, {X: c.X, Y: c.Y + 1}, c}
}

func strictlyInside(shell geo.Chain, hole geo.Chain) bool {
	g := geo.Geom{Kind: "Polygon", Rings: []geo.Chain{shell}}
	return !geo.ChainX(shell, hole) && g.Covers(hole[0])
}

// frame: a polygon around a hole in which the segment a b lies, so that a line
// between them may leave the hole and come back to it.
func frame(r R, a, b P) (geo.Geom, bool) {
	d := P{X: b.X - a.X, Y: b.Y - a.Y}
	if d.X == 0 && d.Y == 0 {
		return geo.Geom{}, false
	}
	// margins along and across the segment, in sixteenths of its length
	at := func(u, v int64) P { // a + u/16 along, v/16 across, away from the segment
		return P{X: a.X + (u*d.X-v*d.Y)/16, Y: a.Y + (u*d.Y+v*d.X)/16}
	}
	e, w := iv(r, 1, 6), iv(r, 1, 8)
	if r.Intn(2) == 0 {
		w = -w
	}
	var hole geo.Chain
	switch r.Intn(4) {
	case 0, 1: // a triangle
		hole = geo.Chain{at(-e-iv(r, 0, 6), -w), at(16+e+iv(r, 0, 6), -w), at(iv(r, 0, 16), 3*w+w*iv(r, 0, 4))}
	case 2:
		hole = geo.Chain{at(-e, -w), at(16+e, -w), at(16+e, w), at(-e, w)}
	case 3:
		hole = geo.Chain{at(-e, -w), at(8, -w-iv(r, 0, 2)), at(16+e, -w), at(16+e+iv(r, 0, 3), 0), at(16+e, w), at(-e, w)}
	}
	hole = append(hole, hole[0])
	h := geo.Geom{Kind: "Polygon", Rings: []geo.Chain{hole}}
	if !IsSimple(hole) || !h.Covers(a) || !h.Covers(b) {
		return geo.Geom{}, false
	}
	x0, y0, x1, y1 := hole.Box()
	m := iv(r, 1, 40)
	shell := geo.Chain{{X: x0 - m, Y: y0 - m}, {X: x1 + m, Y: y0 - m}, {X: x1 + m, Y: y1 + m}, {X: x0 - m, Y: y1 + m}}
	if r.Intn(2) == 0 {
		shell = geo.Chain{{X: x0 - m, Y: y0 - m}, {X: 2*x1 - x0 + 2*m, Y: y0 - m}, {X: x0 - m, Y: 2*y1 - y0 + 2*m}}
	}
	shell = append(shell, shell[0])
	if !strictlyInside(shell, hole) {
		return geo.Geom{}, false
	}
	g := geo.Geom{Kind: "Polygon", Rings: []geo.Chain{shell, hole}}
	if r.Intn(4) == 0 { // many more holes, in any order
		x0, y0, x1, y1 := shell.Box()
		s := int(max(2, (y1-y0)/8))
		for t := 5 + r.Intn(40); t > 0; t-- {
			k := SmallPoly(r, P{X: iv(r, int(x0), int(x1)), Y: iv(r, int(y0), int(y1))}, s)
			kg := geo.Geom{Kind: "Polygon", Rings: []geo.Chain{k}}
			ok := strictlyInside(shell, k)
			for _, o := range g.Rings[1:] {
				og := geo.Geom{Kind: "Polygon", Rings: []geo.Chain{o}}
				ok = ok && !geo.ChainX(k, o) && !og.Covers(k[0]) && !kg.Covers(o[0])
			}
			if ok {
				g.Rings = append(g.Rings, k)
			}
		}
		hs := g.Rings[1:]
		r.Shuffle(len(hs), func(a, b int) { hs[a], hs[b] = hs[b], hs[a] })
		return g, true
	}
	if r.Intn(3) == 0 { // a second hole elsewhere
		k := SmallPoly(r, P{X: iv(r, int(x0-m), int(x1+m)), Y: iv(r, int(y0-m), int(y1+m))}, int(max(2, m)))
		if strictlyInside(shell, k) && !geo.ChainX(k, hole) && !h.Covers(k[0]) && !(&geo.Geom{Kind: "Polygon", Rings: []geo.Chain{k}}).Covers(hole[0]) {
			if r.Intn(2) == 0 {
				g.Rings = []geo.Chain{shell, k, hole}
			} else {
				g.Rings = append(g.Rings, k)
			}
		}
	}
	return g, true
}

// Constraint draws one constraint geometry related to the given lines.
func Constraint(r R, lines []geo.Chain) geo.Geom {
	l := lines[r.Intn(len(lines))]
	v := l[r.Intn(len(l))]
	x0, y0, x1, y1 := l.Box()
	near := []int{1, 2, 4, 10, 30}[r.Intn(5)]
	anchor := P{X: v.X + iv(r, -near, near), Y: v.Y + iv(r, -near, near)}
	switch r.Intn(7) {
	case 6: // at a round distance along an axis
		d := []int64{1, 3, 6, 10, 40}[r.Intn(5)] * (2*iv(r, 0, 1) - 1)
		anchor = v
		if r.Intn(2) == 0 {
			anchor.X += d
		} else {
			anchor.Y += d
		}
	case 0:
		anchor = P{X: iv(r, int(x0), int(x1)), Y: iv(r, int(y0), int(y1))}
	case 1: // inside a random triangle of vertices: between a sub-chain and a chord
		a, b := l[r.Intn(len(l))], l[r.Intn(len(l))]
		anchor = P{X: (a.X + b.X + v.X) / 3, Y: (a.Y + b.Y + v.Y) / 3}
	case 2:
		if r.Intn(3) == 0 {
			anchor = v
		}
	}
	s := []int{1, 2, 5, 15, 50}[r.Intn(5)]
	if r.Intn(12) == 0 && len(l) > 2 { // along a stretch of the line
		i := r.Intn(len(l) - 1)
		j := min(len(l)-1, i+1+r.Intn(len(l)))
		c := geo.ShiftChain(l[i:j+1], iv(r, -s, s), iv(r, -s, s))
		if r.Intn(3) == 0 {
			c = Dense(r, c, 20+r.Intn(150), 0)
		}
		if c = dedupe(c); len(c) > 1 {
			return geo.Geom{Kind: "LineString", Pts: c}
		}
	}
	switch r.Intn(7) {
	case 0, 1, 2:
		return geo.Geom{Kind: "Point", Pts: geo.Chain{anchor}}
	case 3:
		n := 1 + r.Intn(4)
		c := geo.Chain{anchor}
		for i := 0; i < n; i++ {
			q := c[len(c)-1]
			q = P{X: q.X + iv(r, -s, s), Y: q.Y + iv(r, -s, s)}
			if q == c[len(c)-1] {
				q.X++
			}
			c = append(c, q)
		}
		return geo.Geom{Kind: "LineString", Pts: c}
	case 4:
		if r.Intn(3) == 0 {
			i := r.Intn(len(l))
			j := min(len(l)-1, i+1+r.Intn(6))
			if g, ok := frame(r, l[i], l[j]); ok {
				return g
			}
		}
		// larger polygon, maybe with a hole, maybe containing parts of the line
		ring := geo.ShiftChain(Star(r, 6+r.Intn(8), 10+r.Intn(80)), anchor.X-30, anchor.Y-30)
		if IsSimple(ring) && len(ring) >= 4 {
			g := geo.Geom{Kind: "Polygon", Rings: []geo.Chain{ring}}
			for t := 0; t < 5; t++ {
				bx0, by0, bx1, by1 := ring.Box()
				h := SmallPoly(r, P{X: iv(r, int(bx0), int(bx1)), Y: iv(r, int(by0), int(by1))}, 12)
				if strictlyInside(ring, h) {
					g.Rings = append(g.Rings, h)
					break
				}
			}
			return g
		}
		fallthrough
	default:
		return geo.Geom{Kind: "Polygon", Rings: []geo.Chain{SmallPoly(r, anchor, s)}}
	}
}

// DisjointConstraint draws a constraint that does not touch any of the lines (or gives up).
func DisjointConstraint(r R, lines []geo.Chain) (geo.Geom, bool) {
	for t := 0; t < 20; t++ {
		g := Constraint(r, lines)
		ok := true
		for _, l := range lines {
			if g.Intersects(l) {
				ok = false
				break
			}
		}
		if ok {
			return g, true
		}
	}
	return geo.Geom{}, false
}

// Crowd draws many points around a stretch of a line that stay on their side when the
// stretch becomes a segment, and few that do not.
func Crowd(r R, lines []geo.Chain) (out []geo.Geom) {
	l := lines[r.Intn(len(lines))]
	i := 0
	j := len(l) - 1
	if r.Intn(3) == 0 && j > 4 {
		i = r.Intn(j - 3)
		j = i + 3 + r.Intn(j-i-2)
	}
	l = l[i : j+1]
	loop := append(append(geo.Chain{}, l...), l[0])
	x0, y0, x1, y1 := l.Box()
	n, odd := 10+r.Intn(60), r.Intn(3)
	for t := 0; t < 400 && (n > 0 || odd > 0); t++ {
		p := P{X: iv(r, int(x0), int(x1)), Y: iv(r, int(y0), int(y1))}
		g := geo.Geom{Kind: "Point", Pts: geo.Chain{p}}
		if g.Intersects(loop) {
			continue
		}
		if len(geo.Word(loop, []P{p})) == 0 {
			if n > 0 {
				out = append(out, g)
				n--
			}
		} else if odd > 0 {
			out = append(out, g)
			odd--
		}
	}
	r.Shuffle(len(out), func(a, b int) { out[a], out[b] = out[b], out[a] })
	return out
}
