package gen

import (
	"math"
	"sort"

	"verifharness/geo"
)

// Extent bounds every scene: 0 <= x,y <= Extent.
const Extent = 950

func hilbert(order int) []P {
	n := 1 << order
	var out []P
	for d := 0; d < n*n; d++ {
		x, y, t := 0, 0, d
		for s := 1; s < n; s *= 2 {
			rx := 1 & (t / 2)
			ry := 1 & (t ^ rx)
			if ry == 0 {
				if rx == 1 {
					x, y = s-1-x, s-1-y
				}
				x, y = y, x
			}
			x += s * rx
			y += s * ry
			t /= 4
		}
		out = append(out, P{X: int64(x), Y: int64(y)})
	}
	return out
}

// Hilbert: jittered space filling curve, simple by construction.
func Hilbert(r R, order, step int) geo.Chain {
	j := (step - 1) / 2
	if j > 1 && r.Intn(2) == 0 {
		j = 1 + r.Intn(j)
	}
	var c geo.Chain
	for _, p := range hilbert(order) {
		c = append(c, P{X: p.X*int64(step) + iv(r, 0, j), Y: p.Y*int64(step) + iv(r, 0, j)})
	}
	return c
}

// Coast: x-monotone fractal profile.
func Coast(r R, n int) geo.Chain {
	if n > 900 {
		n = 900
	}
	perm := r.Perm(Extent + 1)[:n]
	sort.Ints(perm)
	h := make([]float64, n)
	var rec func(i, j int, amp float64)
	rec = func(i, j int, amp float64) {
		if j-i < 2 {
			return
		}
		m := (i + j) / 2
		h[m] = (h[i]+h[j])/2 + (r.Float64()*2-1)*amp
		rec(i, m, amp*0.6)
		rec(m, j, amp*0.6)
	}
	rec(0, n-1, 60+r.Float64()*300)
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, v := range h {
		lo, hi = math.Min(lo, v), math.Max(hi, v)
	}
	f := math.Min(1, float64(Extent)/(hi-lo+1))
	var c geo.Chain
	for i, x := range perm {
		c = append(c, P{X: int64(x), Y: int64(math.Round((h[i] - lo) * f))})
	}
	return c
}

// Comb returns two interdigitated combs; disjoint by construction.
func Comb(r R, teeth int) (geo.Chain, geo.Chain) {
	w := int64(4 + r.Intn(8))
	h := int64(20 + r.Intn(150))
	a, b := geo.Chain{}, geo.Chain{}
	for t := int64(0); t < int64(teeth); t++ {
		x := t * 4 * w
		j := func() int64 { return iv(r, 0, int(w)-2) }
		hi := h + iv(r, 0, 15)
		a = append(a, P{X: x + j()/2, Y: 0}, P{X: x + j()/2, Y: hi}, P{X: x + w + j()/2, Y: hi}, P{X: x + w + j()/2, Y: iv(r, 0, 3)})
		// the other comb's tooth sits between x+2w and x+3w, coming from above
		lo := 8 + iv(r, 0, 10)
		b = append(b, P{X: x + 2*w + j()/2, Y: h + 40}, P{X: x + 2*w + j()/2, Y: lo}, P{X: x + 3*w + j()/2, Y: lo}, P{X: x + 3*w + j()/2, Y: h + 40 - iv(r, 0, 3)})
	}
	return dedupe(a), dedupe(b)
}

// Spirals returns k interleaved spirals.
func Spirals(r R, k, turns, seg int) []geo.Chain {
	pitch := 10 + r.Float64()*30
	if pitch*float64(turns+2) > 450 {
		pitch = 450 / float64(turns+2)
	}
	var out []geo.Chain
	for j := 0; j < k; j++ {
		var c geo.Chain
		for i := 0; i <= turns*seg; i++ {
			a := 2*math.Pi*float64(i)/float64(seg) + 2*math.Pi*float64(j)/float64(k)
			rad := pitch*float64(i)/float64(seg) + pitch + r.Float64()*pitch*0.3/float64(k)
			c = append(c, P{X: int64(math.Round(470 + rad*math.Cos(a))), Y: int64(math.Round(470 + rad*math.Sin(a)))})
		}
		out = append(out, dedupe(c))
	}
	return out
}

// Streets: a road grid whose lines share their crossing vertices, with noise between them.
func Streets(r R, n, m, cell int) []geo.Chain {
	at := make([][]P, n)
	for i := range at {
		at[i] = make([]P, m)
		for j := range at[i] {
			at[i][j] = P{X: int64(i*cell) + iv(r, 0, cell/4), Y: int64(j*cell) + iv(r, 0, cell/4)}
		}
	}
	mid := func(a, b P) []P {
		var out []P
		k := r.Intn(4)
		for t := 1; t <= k; t++ {
			out = append(out, P{X: a.X + (b.X-a.X)*int64(t)/int64(k+1) + iv(r, -cell/5, cell/5), Y: a.Y + (b.Y-a.Y)*int64(t)/int64(k+1) + iv(r, -cell/5, cell/5)})
		}
		return out
	}
	var out []geo.Chain
	for i := 0; i < n; i++ {
		c := geo.Chain{}
		for j := 0; j < m; j++ {
			if j > 0 {
				c = append(c, mid(at[i][j-1], at[i][j])...)
			}
			c = append(c, at[i][j])
		}
		out = append(out, c)
	}
	for j := 0; j < m; j++ {
		c := geo.Chain{}
		for i := 0; i < n; i++ {
			if i > 0 {
				c = append(c, mid(at[i-1][j], at[i][j])...)
			}
			c = append(c, at[i][j])
		}
		out = append(out, c)
	}
	return out
}

// Spiked: a dense, almost straight line with few single spikes.
func Spiked(r R, n int) geo.Chain {
	n = min(n, 900)
	h := r.Intn(2)
	var c geo.Chain
	for i := 0; i < n; i++ {
		y := iv(r, 0, h) + 100
		if r.Intn(60) == 0 {
			y += iv(r, -90, 90)
		}
		c = append(c, P{X: int64(i), Y: y})
	}
	return c
}

// Peel: a zigzag of decreasing amplitude, of which each split takes one segment off, and
// lines that reach into its last pockets from above and from below.
func Peel(r R, n int) (zig, above, below geo.Chain) {
	n = max(6, min(n, 180))
	s := iv(r, 4, 5)
	a0, a1 := iv(r, 60, 400), iv(r, 8, 40)
	c := int64(450)
	h := a0 + iv(r, 5, 20)
	zig = geo.Chain{{X: 0, Y: c}}
	for i := 1; i < n; i++ {
		a := a0 - (a0-a1)*int64(i)/int64(n)
		if i%2 == 1 {
			a = -a
		}
		zig = append(zig, P{X: int64(i) * s, Y: c + a})
	}
	zig = append(zig, P{X: int64(n) * s, Y: c})
	k := 1 + r.Intn(4)
	for i := n - 1; i > 0 && k > 0; i-- {
		d := iv(r, 2, 5)
		x := zig[i].X
		if i%2 == 1 {
			above = append(above, P{X: x + 1, Y: c + h}, P{X: x, Y: zig[i].Y + d}, P{X: x - 1, Y: c + h})
		} else {
			below = append(below, P{X: x + 1, Y: c - h}, P{X: x, Y: zig[i].Y - d}, P{X: x - 1, Y: c - h})
			k--
		}
		if r.Intn(4) == 0 {
			i -= 2 * r.Intn(n/4)
		}
	}
	return
}

// Shared: long lines with long stretches of vertices in common.
func Shared(r R, k, n int) []geo.Chain {
	base := Dense(r, Enlarge(r, Norm([]geo.Chain{AnyLine(r, 5+r.Intn(8))}))[0], n, r.Intn(3))
	out := []geo.Chain{base}
	for len(out) < k {
		a := r.Intn(len(base))
		b := min(len(base), a+1+r.Intn(len(base)))
		var m geo.Chain
		for i := a; i < b; i++ {
			if r.Intn(8) > 0 {
				m = append(m, base[i])
			} else if r.Intn(2) == 0 {
				m = append(m, P{X: base[i].X + iv(r, -2, 2), Y: base[i].Y + iv(r, -2, 2)})
			}
		}
		if r.Intn(2) == 0 {
			for i, j := 0, len(m)-1; i < j; i, j = i+1, j-1 {
				m[i], m[j] = m[j], m[i]
			}
		}
		c := append(AnyLine(r, 8), m...)
		if r.Intn(2) == 0 {
			c = append(c, AnyLine(r, 8)...)
		}
		out = append(out, dedupe(c))
	}
	return out
}

// Enlarge the lines together, so that they fill a good part of the extent.
func Enlarge(r R, cs []geo.Chain) []geo.Chain {
	var m int64 = 1
	for _, c := range cs {
		_, _, x, y := c.Box()
		m = max(m, x, y)
	}
	s := max(1, min(iv(r, 4, 20), 800/m))
	var out []geo.Chain
	for _, c := range cs {
		var o geo.Chain
		for _, p := range c {
			o = append(o, P{X: p.X * s, Y: p.Y * s})
		}
		out = append(out, o)
	}
	return out
}

// Dense: the line with many vertices along its segments, at most j off them, n altogether.
func Dense(r R, c geo.Chain, n, j int) (out geo.Chain) {
	total := 0.0
	for i := 0; i+1 < len(c); i++ {
		total += math.Hypot(float64(c[i+1].X-c[i].X), float64(c[i+1].Y-c[i].Y))
	}
	step := math.Max(1, total/float64(n))
	for i := 0; i+1 < len(c); i++ {
		dx, dy := float64(c[i+1].X-c[i].X), float64(c[i+1].Y-c[i].Y)
		k := int(math.Hypot(dx, dy) / step)
		out = append(out, c[i])
		for t := 1; t < k; t++ {
			f := float64(t) / float64(k)
			out = append(out, P{X: c[i].X + int64(math.Round(dx*f)) + iv(r, -j, j), Y: c[i].Y + int64(math.Round(dy*f)) + iv(r, -j, j)})
		}
	}
	return dedupe(append(out, c[len(c)-1]))
}

func fits(c geo.Chain) bool {
	x0, y0, x1, y1 := c.Box()
	return x0 >= -400 && y0 >= -400 && x1 <= Extent+400 && y1 <= Extent+400
}

// BigSimple: one long simple polyline.
func BigSimple(r R, n int) geo.Chain {
	for {
		var c geo.Chain
		switch r.Intn(10) {
		case 9:
			z, a, b := Peel(r, min(n, 40+r.Intn(140)))
			c = z
			e := z[len(z)-1]
			if r.Intn(3) > 0 && len(a) > 0 {
				c = append(append(append(geo.Chain{}, z...), P{X: e.X + iv(r, 5, 40), Y: a[0].Y + iv(r, 1, 40)}), a...)
			}
			if r.Intn(2) == 0 && len(b) > 0 {
				var f geo.Chain
				for i := range b {
					f = append(f, b[len(b)-1-i])
				}
				f = append(f, P{X: b[0].X, Y: b[0].Y - iv(r, 1, 40)}, P{X: -iv(r, 1, 40), Y: b[0].Y - iv(r, 41, 60)})
				c = append(f, c...)
			}
		case 7, 8:
			c = Dense(r, Enlarge(r, Norm([]geo.Chain{SimpleLine(r, 5+r.Intn(10))}))[0], n, r.Intn(3))
		case 6:
			c = Spiked(r, n)
		case 0:
			o := 3 + r.Intn(2)
			if n > 800 {
				o = 5
			}
			c = Hilbert(r, o, Extent>>o)
		case 1, 2:
			return orient(r, Coast(r, n))
		case 3:
			c = Spirals(r, 1, 3+r.Intn(8), 12+r.Intn(30))[0]
		case 4:
			rows := 4 + r.Intn(20)
			c = Serpentine(r, rows, 300+r.Intn(500), Extent/(rows+1))
		case 5:
			c = Star(r, min(n, 200), 450)
		}
		if len(c) > 3 && fits(c) && IsSimple(c) {
			return orient(r, c)
		}
	}
}

// BigAny: one long polyline, may cross, touch and overlap itself.
func BigAny(r R, n int) geo.Chain {
	switch r.Intn(4) {
	case 3:
		c := Dense(r, Enlarge(r, Norm([]geo.Chain{AnyLine(r, 5+r.Intn(10))}))[0], n, r.Intn(3))
		if len(c) > 3 && fits(c) {
			return c
		}
	case 0:
		return Walk(r, n, 900, 60)
	case 1:
		return Walk(r, n, 300, 12)
	}
	return BigSimple(r, n)
}

// Field: many features sharing one area. disjoint asks for pairwise disjoint features.
func Field(r R, k, n int, disjoint bool) []geo.Chain {
	var out []geo.Chain
	kind := r.Intn(11)
	if disjoint && (kind > 4 && kind < 7 || kind == 10) {
		kind = r.Intn(5)
	}
	switch kind {
	case 0: // contour lines
		base := Coast(r, min(n*3, 200))
		gap := max(1, 300/k)
		for j := 0; j < k; j++ {
			var c geo.Chain
			for i, p := range base {
				if r.Intn(4) > 0 || i == 0 || i == len(base)-1 {
					c = append(c, P{X: p.X, Y: p.Y/3 + int64(j*gap*2) + iv(r, 0, gap-1)})
				}
			}
			out = append(out, c)
		}
	case 1:
		y := int64(0)
		for j := 0; j < (k+1)/2 && y < 700; j++ {
			a, b := Comb(r, 3+r.Intn(8))
			out = append(out, geo.ShiftChain(a, 0, y), geo.ShiftChain(b, 0, y))
			_, _, _, y1 := b.Box()
			y += y1 + iv(r, 1, 20)
		}
	case 2:
		out = Spirals(r, 2+r.Intn(4), 2+r.Intn(6), 10+r.Intn(20))
	case 3, 4:
		for t := 0; t < 12*k && len(out) < k; t++ {
			c := SimpleLine(r, n)
			out = append(out, geo.ShiftChain(c, iv(r, 0, 400), iv(r, 0, 400)))
		}
	case 5:
		a, b := 3+r.Intn(5), 3+r.Intn(5)
		out = Streets(r, a, b, 100)
	case 9:
		z, a, b := Peel(r, 20+6*n)
		out = []geo.Chain{z, a, b}
		if r.Intn(3) == 0 {
			out = out[:2]
		}
	case 10:
		out = Shared(r, 2+r.Intn(3), 6*n)
	case 7, 8: // few lines of many vertices
		if kind == 7 {
			out = Disjoint(r, 2+r.Intn(4), 6)
		} else {
			out = Network(r, 2+r.Intn(4), 6)
		}
		for i, c := range Enlarge(r, Norm(out)) {
			out[i] = Dense(r, c, 4*n, r.Intn(3))
		}
	default:
		out = Network(r, k, n)
		for i := range out {
			if r.Intn(2) == 0 {
				out[i] = geo.ShiftChain(out[i], iv(r, 0, 300), iv(r, 0, 300))
			}
		}
	}
	var kept []geo.Chain
	for _, c := range out {
		if len(c) < 2 || !fits(c) {
			continue
		}
		if disjoint {
			ok := true
			for _, o := range kept {
				if geo.ChainX(o, c) {
					ok = false
					break
				}
			}
			if !ok || !IsSimple(c) {
				continue
			}
		}
		kept = append(kept, c)
	}
	if len(kept) == 0 {
		kept = append(kept, SimpleLine(r, n))
	}
	return Norm(kept)
}
