// racelib drives the library concurrently, built with the race detector. It prints one
// summary line "RACELIB runs=.. goroutines=.. mismatches=.." and exits 0; a data race makes
// the race runtime end it with the status set in GORACE.
package main

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"

	"verifharness/gen"
	"verifharness/geo"
)

var calls int64

func coords(c geo.Chain) geom.Coords {
	var a [][]float64
	for i, p := range c {
		a = append(a, []float64{float64(p.X), float64(p.Y), float64(i)})
	}
	return geom.AsCoordinates(a)
}

func lines(cs []geo.Chain) (out []*geometry.Polyline) {
	for i, c := range cs {
		out = append(out, geometry.CreatePolyline(fmt.Sprintf("idx:%d-pos:0", i), coords(c), "{}"))
	}
	return
}

func constraints(gs []geo.Geom) (out []geometry.IGeometry) {
	for i, g := range gs {
		id := fmt.Sprintf("idx:%d-pos:0", i)
		switch g.Kind {
		case "Point":
			out = append(out, geometry.CreatePoint(id, []float64{float64(g.Pts[0].X), float64(g.Pts[0].Y)}, "{}"))
		case "LineString":
			out = append(out, geometry.CreatePolyline(id, coords(g.Pts), "{}"))
		default:
			var rs []geom.Coords
			for _, r := range g.Rings {
				rs = append(rs, coords(r))
			}
			out = append(out, geometry.CreatePolygon(id, rs, "{}"))
		}
	}
	return
}

// jittered varies the schedule from inside the computation.
func jittered(seed int64) func(geom.Coords) (int, float64) {
	var n int64
	return func(c geom.Coords) (int, float64) {
		atomic.AddInt64(&calls, 1)
		k := uint64(atomic.AddInt64(&n, 1)*2654435761 + seed)
		switch (k >> 7) % 23 {
		case 0, 1, 2:
			runtime.Gosched()
		case 3:
			time.Sleep(time.Duration(k>>9%50) * time.Microsecond)
		}
		return offset.MaxOffset(c)
	}
}

func simplify(fc bool, id *iter.Igen, plns []*geometry.Polyline, cons []geometry.IGeometry, o *opts.Opts, f func(geom.Coords) (int, float64)) (out [][]int) {
	var forest []*constdp.ConstDP
	for _, p := range plns {
		forest = append(forest, constdp.NewConstDP(id.Next(), p, cons, o, f))
	}
	if fc {
		constdp.SimplifyFeatureClass(id, forest, o)
	} else {
		constdp.SimplifyInstances(id, forest, map[int][]int{})
	}
	for _, s := range forest {
		var k []int
		for _, v := range s.SimpleSet.Values() {
			k = append(k, v.(int))
		}
		out = append(out, k)
	}
	return
}

func main() {
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 10, "")
	flag.Parse()
	mism, gor := 0, 0
	for j := 0; j < *n; j++ {
		r := rand.New(rand.NewSource(*seed*1000003 + int64(j)))
		b := func() bool { return r.Intn(3) > 0 }
		o := &opts.Opts{Threshold: float64(1 + r.Intn(200)), MinDist: float64(r.Intn(10)), NonPlanarDisplacement: float64(r.Intn(20)),
			PlanarSelf: b(), NonPlanarSelf: b(), AvoidNewSelfIntersects: b(), GeomRelation: b(), DistRelation: b(), DirRelation: b()}
		fc := b()
		k := 4
		var sets [][]geo.Chain
		var shared []geo.Geom
		for t := 0; t < k; t++ {
			l := gen.Field(r, 5+r.Intn(8), 20, r.Intn(2) == 0)
			sets = append(sets, l)
			for q := r.Intn(6); q > 0; q-- {
				shared = append(shared, gen.Constraint(r, l))
			}
		}
		cons := constraints(shared)
		var want [][][]int
		for t := range sets {
			// constraints of its own: what a first use leaves in them must not be there already
			want = append(want, simplify(fc, iter.NewIgen(), lines(sets[t]), constraints(shared), o, offset.MaxOffset))
		}
		// the same jobs at the same time: shared constraints, shared options, shared generator
		got := make([][][]int, k)
		id := iter.NewIgen()
		var wg sync.WaitGroup
		for t := range sets {
			wg.Add(1)
			gor++
			go func(t int) {
				defer wg.Done()
				got[t] = simplify(fc, id, lines(sets[t]), cons, o, jittered(int64(t+j)))
			}(t)
		}
		wg.Wait()
		for t := range sets {
			if !reflect.DeepEqual(want[t], got[t]) {
				mism++
				fmt.Printf("MISMATCH job=%d set=%d fc=%v opts=%v\nalone:    %v\ntogether: %v\nlines: %v\n", j, t, fc, o, want[t], got[t], sets[t])
			}
		}
	}
	fmt.Printf("RACELIB runs=%d goroutines=%d scorecalls=%d mismatches=%d\n", *n, gor, calls, mism)
	if mism > 0 {
		os.Exit(3)
	}
}
