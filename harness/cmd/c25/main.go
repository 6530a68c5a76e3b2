// c25: the offset functions find the most distant vertex and its distance.
package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"

	"github.com/TopoSimplify/plugin/offset"
	"github.com/intdxdt/geom"

	"verifharness/run"
)

// reference distances, in extended precision
func bf(x float64) *big.Float { return new(big.Float).SetPrec(300).SetFloat64(x) }
func op(f func(z, a, b *big.Float) *big.Float, a, b *big.Float) *big.Float {
	return f(new(big.Float).SetPrec(300), a, b)
}
func add(a, b *big.Float) *big.Float { return op((*big.Float).Add, a, b) }
func sub(a, b *big.Float) *big.Float { return op((*big.Float).Sub, a, b) }
func mul(a, b *big.Float) *big.Float { return op((*big.Float).Mul, a, b) }
func quo(a, b *big.Float) *big.Float { return op((*big.Float).Quo, a, b) }

func length(x, y *big.Float) float64 {
	s := add(mul(x, x), mul(y, y))
	f, _ := new(big.Float).SetPrec(300).Sqrt(s).Float64()
	return f
}

func segDist(a, b, p []float64) float64 {
	ax, ay := bf(a[0]), bf(a[1])
	dx, dy := sub(bf(b[0]), ax), sub(bf(b[1]), ay)
	px, py := sub(bf(p[0]), ax), sub(bf(p[1]), ay)
	l := add(mul(dx, dx), mul(dy, dy))
	if l.Sign() == 0 {
		return length(px, py)
	}
	t := quo(add(mul(px, dx), mul(py, dy)), l)
	if t.Sign() < 0 {
		t = bf(0)
	} else if t.Cmp(bf(1)) > 0 {
		t = bf(1)
	}
	return length(sub(px, mul(t, dx)), sub(py, mul(t, dy)))
}

func sedDist(a, b, p []float64) float64 {
	t := quo(sub(bf(p[2]), bf(a[2])), sub(bf(b[2]), bf(a[2])))
	x := add(bf(a[0]), mul(t, sub(bf(b[0]), bf(a[0]))))
	y := add(bf(a[1]), mul(t, sub(bf(b[1]), bf(a[1]))))
	return length(sub(bf(p[0]), x), sub(bf(p[1]), y))
}

func main() {
	R := run.Start("C25")
	R.Rule = "coordinate sequences of 2 to 1600 vertices on lattices, of arbitrary doubles and of large magnitude, with closed, repeated, spiked, collinear and backward runs, through all four offset functions, whole and as sub-sequences; non-trivial: at least two interior vertices, some at a distance"
	R.Assume = []string{"values within 1e-9 of the extent (SED: 1e-7)", "SED times strictly increase"}
	R.Parallel(R.N(200000, 3000000), func(j int, r *rand.Rand) {
		n := 2 + r.Intn([]int{1, 2, 4, 12, 60}[r.Intn(5)])
		if j%300 == 299 { // long stretches
			n = 100 + r.Intn(1500)
		}
		if j%6000 == 5999 { // a whole day of a second each, and more
			n = 2000 + r.Intn(30000)
		}
		var pts [][]float64
		var ox, oy, s float64 = 0, 0, 1
		if r.Intn(3) == 0 {
			ox, oy = float64(r.Intn(2e6)-1e6), float64(r.Intn(2e6)-1e6)
		}
		if r.Intn(3) == 0 {
			s = []float64{1e-6, 0.01, 0.3, 1e3, 1e5}[r.Intn(5)]
		}
		mode := r.Intn(6)
		t := r.Float64() * 100
		if r.Intn(4) == 0 { // seconds and milliseconds since 1970, and before
			t += []float64{-5e4, -1e9, 1.5e9, 1.5e12}[r.Intn(4)]
		}
		for i := 0; i < n; i++ {
			var x, y float64
			switch mode {
			case 0:
				x, y = float64(r.Intn(4)), float64(r.Intn(4))
			case 1:
				x, y = r.NormFloat64()*50, r.NormFloat64()*50
			case 2: // collinear, back and forth
				k := float64(r.Intn(9) - 4)
				x, y = 3*k, 2*k
			case 3: // monotone with small offsets
				x, y = float64(i*5), float64(r.Intn(3))
			case 4:
				x, y = float64(r.Intn(100)), float64(r.Intn(100))
			case 5: // single spikes on an almost straight line
				x, y = float64(i), float64(r.Intn(2))
				if r.Intn(40) == 0 {
					y += float64(r.Intn(30))
				}
			}
			if i > 0 && r.Intn(8) == 0 {
				x, y = (pts[i-1][0]-ox)/s, (pts[i-1][1]-oy)/s
			}
			t += []float64{0.25, 1, 7, 1000}[r.Intn(4)] * (1 + float64(r.Intn(5)))
			pts = append(pts, []float64{x*s + ox, y*s + oy, t})
		}
		if r.Intn(5) == 0 {
			pts[n-1][0], pts[n-1][1] = pts[0][0], pts[0][1]
		}
		ext := 0.0
		for _, p := range pts {
			ext = math.Max(ext, math.Max(math.Abs(p[0]), math.Abs(p[1])))
		}
		all := geom.AsCoordinates(pts)
		coords := all
		lo, hi := 0, n
		if n > 4 && r.Intn(2) == 0 {
			lo, hi = r.Intn(2), n-r.Intn(2)
			coords = all.Slice(lo, hi)
		}
		sub := pts[lo:hi]
		m := len(sub) - 1
		type fn struct {
			name string
			f    func(geom.Coords) (int, float64)
			d    func(a, b, p []float64) float64
			sq   bool
			tol  float64
		}
		for _, f := range []fn{
			{"offset", offset.MaxOffset, segDist, false, 1e-9},
			{"squared offset", offset.SquareMaxOffset, segDist, true, 1e-9},
			{"synchronised offset", offset.MaxSEDOffset, sedDist, false, 1e-7},
			{"squared synchronised offset", offset.SqureMaxSEDOffset, sedDist, true, 1e-7},
		} {
			tol := f.tol*ext + 1e-300
			k, v := f.f(coords)
			R.Eval(1)
			R.Count(f.name, 1)
			best := 0.0
			ds := make([]float64, m+1)
			for i := 1; i < m; i++ {
				ds[i] = f.d(sub[0], sub[m], sub[i])
				best = math.Max(best, ds[i])
			}
			got := v
			if f.sq {
				got = math.Sqrt(v)
				tol = math.Max(tol, 1e-16*ext) // square roots of rounding residues
				if best < 1e-6*ext {
					tol = math.Max(tol, 2e-8*ext)
				}
			}
			bad := ""
			switch {
			case m <= 1:
				if v != 0 || k != m {
					bad = fmt.Sprintf("a segment has vertex %d and offset %v", k, v)
				}
			case math.IsNaN(v) || v < 0 || math.Abs(got-best) > tol:
				bad = fmt.Sprintf("offset %v, greatest distance %v", got, best)
			case k <= 0 || k >= m:
				bad = fmt.Sprintf("vertex %d is not an interior vertex", k)
			case ds[k] < best-2*tol:
				bad = fmt.Sprintf("vertex %d is %v away, others %v", k, ds[k], best)
			}
			if bad != "" {
				R.Violate(fmt.Sprintf("%s: %s\ncoordinates %v", f.name, bad, sub), map[string]interface{}{"function": f.name, "coordinates": sub})
				return
			}
			if m > 2 && best > 0 {
				R.Nontrivial(fmt.Sprint(sub))
				if m < 5 {
					R.Sample(map[string]interface{}{"function": f.name, "coordinates": sub, "vertex": k, "offset": v})
				}
			}
		}
	})
	R.Finish()
}
