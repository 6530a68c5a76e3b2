// Package lib turns harness scenes into values of the library under test.
package lib

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"

	"verifharness/gen"
	"verifharness/geo"
)

// Frame places scenes elsewhere: translated, then scaled by a power of two (0 means 1).
type Frame struct {
	X, Y int64
	S    float64
}

// AnyFrame: in place half of the time, else up to some millions away, scaled or both.
func AnyFrame(r *rand.Rand) (f Frame) {
	f.S = 1
	if r.Intn(2) == 0 {
		return
	}
	if r.Intn(3) > 0 {
		m := []int64{100, 20000, 300000, 5000000}[r.Intn(4)]
		f.X, f.Y = r.Int63n(2*m)-m, r.Int63n(2*m)-m
	}
	if r.Intn(3) == 0 {
		f.S = []float64{1.0 / 1024, 1.0 / 64, 0.5, 16, 1024}[r.Intn(5)]
	}
	if f.X == 0 && r.Intn(3) == 0 { // a large unit
		f.S = 1.0 / (1 << 14)
	}
	if r.Intn(5) == 0 { // far away, with a fine grid
		f.S = []float64{1.0 / 1024, 1.0 / 256, 1.0 / 64}[r.Intn(3)]
		f.X, f.Y = r.Int63n(1<<30)-1<<29, r.Int63n(1<<30)-1<<29
	}
	return
}

func (f Frame) Scale() float64 {
	if f.S == 0 {
		return 1
	}
	return f.S
}

func (f Frame) P(p geo.P) (x, y float64) {
	return float64(p.X+f.X) * f.Scale(), float64(p.Y+f.Y) * f.Scale()
}

// Back maps coordinates of the frame to those of the scene.
func (f Frame) Back(x, y float64) (float64, float64) {
	return x/f.Scale() - float64(f.X), y/f.Scale() - float64(f.Y)
}

// Pts maps coordinates back to vertices of the scene.
func (f Frame) Pts(c geom.Coords) (out geo.Chain) {
	for i := 0; i < c.Len(); i++ {
		p := c.Pt(i)
		x, y := f.Back(p[0], p[1])
		if x != math.Trunc(x) || y != math.Trunc(y) { // not a vertex of any scene
			x, y = 1e12, 1e12
		}
		out = append(out, geo.P{X: int64(x), Y: int64(y)})
	}
	return
}

func (f Frame) String() string { return fmt.Sprintf("moved by %d,%d, times %v", f.X, f.Y, f.Scale()) }

// Coords of a chain; the third coordinate is z(i), or i+1 without z.
func (f Frame) Coords(c geo.Chain, z ...func(int) int64) geom.Coords {
	var a [][]float64
	for i, p := range c {
		t := int64(i + 1)
		if len(z) > 0 {
			t = z[0](i)
		}
		x, y := f.P(p)
		a = append(a, []float64{x, y, float64(t)})
	}
	return geom.AsCoordinates(a)
}

func (f Frame) Line(i int, c geo.Chain, z ...func(int) int64) *geometry.Polyline {
	return geometry.CreatePolyline(fmt.Sprintf("idx:%d-pos:0", i), f.Coords(c, z...), "{}")
}

func (f Frame) Constraint(i int, g geo.Geom) geometry.IGeometry {
	id := fmt.Sprintf("idx:%d-pos:0", i)
	switch g.Kind {
	case "Point":
		x, y := f.P(g.Pts[0])
		return geometry.CreatePoint(id, []float64{x, y}, "{}")
	case "LineString":
		return geometry.CreatePolyline(id, f.Coords(g.Pts), "{}")
	default:
		var rs []geom.Coords
		for _, r := range g.Rings {
			rs = append(rs, f.Coords(r))
		}
		return geometry.CreatePolygon(id, rs, "{}")
	}
}

func Coords(c geo.Chain, z ...func(int) int64) geom.Coords { return Frame{}.Coords(c, z...) }
func Line(i int, c geo.Chain, z ...func(int) int64) *geometry.Polyline {
	return Frame{}.Line(i, c, z...)
}
func Constraint(i int, g geo.Geom) geometry.IGeometry { return Frame{}.Constraint(i, g) }

// Offsets measured independently of the library: the greatest offset of the vertices
// strictly between i and j, and which vertices have it within the tolerance.
func Greatest(c geo.Chain, i, j int, dist func(k int) float64, tol float64) (best float64, at []int) {
	best = -1
	for k := i + 1; k < j; k++ {
		if d := dist(k); d > best {
			best = d
		}
	}
	for k := i + 1; k < j; k++ {
		if dist(k) >= best-tol {
			at = append(at, k)
		}
	}
	return
}

// Scene: a few lines, disjoint, crossing or sharing vertices, and constraints around them.
func Scene(r *rand.Rand, k int) (ls []geo.Chain, cons []geo.Geom) {
	mx := []int{6, 12, 25, 40}[r.Intn(4)]
	switch {
	case k > 6:
		ls = gen.Field(r, k, []int{8, 16, 30}[r.Intn(3)], r.Intn(2) == 0)
	case k == 1 && r.Intn(8) == 0:
		ls = gen.Norm([]geo.Chain{gen.BigAny(r, 80+r.Intn(150))})
	case k == 1 && r.Intn(2) == 0:
		ls = gen.Norm([]geo.Chain{gen.SimpleLine(r, mx)})
	case k == 1:
		ls = gen.Norm([]geo.Chain{gen.AnyLine(r, mx)})
	case r.Intn(2) == 0:
		ls = gen.Disjoint(r, k, mx)
	default:
		ls = gen.Network(r, k, mx)
	}
	for n := r.Intn(6) * (1 + k/6); n > 0; n-- {
		if r.Intn(2) == 0 {
			if g, ok := gen.DisjointConstraint(r, ls); ok {
				cons = append(cons, g)
			}
		} else {
			cons = append(cons, gen.Constraint(r, ls))
		}
	}
	return
}

func Opts(r *rand.Rand) *opts.Opts {
	b := func() bool { return r.Intn(2) == 0 }
	f := func(v ...float64) float64 { return v[r.Intn(len(v))] }
	o := &opts.Opts{Threshold: f(0, 1, 3, 8, 20, 60, 200, 1000), MinDist: f(0, 1, 3, 10, 40), NonPlanarDisplacement: f(0, 1, 5, 20, 100),
		PlanarSelf: b(), NonPlanarSelf: b(), AvoidNewSelfIntersects: b(), GeomRelation: b(), DistRelation: b(), DirRelation: b()}
	if r.Intn(4) == 0 {
		o.PlanarSelf, o.NonPlanarSelf, o.AvoidNewSelfIntersects, o.GeomRelation, o.DistRelation, o.DirRelation = true, true, true, true, true, true
	}
	return o
}

// Job is one use of the library: instances over shared options and constraints.
type Job struct {
	Lines  []geo.Chain
	Z      [][]int64
	Cons   []geo.Geom
	Opts   *opts.Opts
	Frame  Frame
	SED    bool
	Square bool
	FC     bool

	Plns   []*geometry.Polyline
	Geoms  []geometry.IGeometry
	Forest []*constdp.ConstDP
	Ids    *iter.Igen
}

func NewJob(r *rand.Rand, k int) *Job {
	j := &Job{Opts: Opts(r), SED: r.Intn(4) == 0, Square: r.Intn(2) == 0, FC: r.Intn(2) == 0}
	j.Lines, j.Cons = Scene(r, k)
	j.Frame = AnyFrame(r)
	j.Opts.Threshold *= j.Frame.Scale()
	j.Opts.MinDist *= j.Frame.Scale()
	j.Opts.NonPlanarDisplacement *= j.Frame.Scale()
	for _, l := range j.Lines {
		z := make([]int64, len(l))
		t := r.Int63n(100)
		step := []int64{1, 4, 60}[r.Intn(3)]
		for i := range z {
			t += 1 + r.Int63n(step)
			z[i] = t
		}
		j.Z = append(j.Z, z)
	}
	return j
}

// Build makes fresh library values.
func (j *Job) Build() *Job {
	score, square := offset.MaxOffset, offset.SquareMaxOffset
	if j.SED {
		score, square = offset.MaxSEDOffset, offset.SqureMaxSEDOffset
	}
	j.Plns, j.Forest = nil, nil
	j.Geoms = nil
	for i, g := range j.Cons {
		j.Geoms = append(j.Geoms, j.Frame.Constraint(i, g))
	}
	j.Ids = iter.NewIgen()
	for i, l := range j.Lines {
		z := j.Z[i]
		p := j.Frame.Line(i, l, func(i int) int64 { return z[i] })
		j.Plns = append(j.Plns, p)
		var s *constdp.ConstDP
		if j.Square {
			s = constdp.NewConstDP(j.Ids.Next(), p, j.Geoms, j.Opts, score, square)
		} else {
			s = constdp.NewConstDP(j.Ids.Next(), p, j.Geoms, j.Opts, score)
		}
		j.Forest = append(j.Forest, s)
	}
	return j
}

// Run simplifies; rounds gets the number of hulls examined per round (feature class).
func (j *Job) Run(rounds func(n int)) {
	if j.FC {
		constdp.SimplifyFeatureClass(j.Ids, j.Forest, j.Opts, rounds)
	} else {
		constdp.SimplifyInstances(j.Ids, j.Forest, map[int][]int{})
	}
}

func (j *Job) Kept() (out [][]int) {
	for _, s := range j.Forest {
		out = append(out, s.Simple())
	}
	return
}

func (j *Job) Text() string {
	return fmt.Sprintf("opts %v npd=%v nonplanar=%v\nsed=%v square=%v fc=%v\nlines %v\ntimes %v\nconstraints %v\n%v", *j.Opts, j.Opts.NonPlanarDisplacement, j.Opts.NonPlanarSelf, j.SED, j.Square, j.FC, j.Lines, j.Z, j.Cons, j.Frame)
}
