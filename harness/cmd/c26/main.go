// c26: simplifying changes nothing that was given, and can be repeated.
package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"

	"verifharness/lib"
	"verifharness/run"
)

func dump(c geom.Coords) string {
	var b strings.Builder
	for _, p := range c.Pnts {
		fmt.Fprintf(&b, "%v", p)
	}
	fmt.Fprintf(&b, " %v;", c.Idxs)
	return b.String()
}

func state(J *lib.Job) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%+v\n", *J.Opts)
	for i, p := range J.Plns {
		fmt.Fprintf(&b, "line %d %q %q %s %s %v\n", i, p.Id, p.Meta, dump(p.Coordinates), p.WKT(), p.BBox())
	}
	for i, g := range J.Geoms {
		fmt.Fprintf(&b, "constraint %d %s %v", i, g.Geometry().WKT(), g.Geometry().BBox())
		for _, l := range g.Geometry().AsLinear() {
			b.WriteString(dump(l.Coordinates))
		}
		b.WriteString("\n")
	}
	return b.String()
}

func diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			return x[i] + "\nnow " + y[i]
		}
	}
	return "?"
}

func main() {
	R := run.Start("C26")
	R.Rule = "library runs as in C23: polylines, constraints and options are compared deeply before and after; then the same objects are simplified again, by another route, and with other options in between; non-trivial: some vertices kept and dropped"
	R.Assume = []string{"the fields Simple, Hulls and SimpleSet are results, everything else is given"}
	R.Parallel(R.N(8000, 100000), func(j int, r *rand.Rand) {
		k := 1 + r.Intn(5)
		J := lib.NewJob(r, k)
		J.Build()
		before := state(J)
		J.Run(func(int) {})
		R.Eval(1)
		fail := func(m string) {
			R.Violate(m+"\n"+J.Text(), map[string]interface{}{"job": J.Text()})
		}
		if after := state(J); after != before {
			fail("the run changed what it was given: " + diff(before, after))
			return
		}
		first := J.Kept()
		keep := append([][]int(nil), first...)
		// again, the same objects
		if r.Intn(2) == 0 {
			old := *J.Opts
			*J.Opts = *lib.Opts(r)
			J.Run(func(int) {})
			R.Count("runs with other options in between", 1)
			*J.Opts = old
		}
		J.Run(func(int) {})
		R.Count("repeated runs", 1)
		if again := J.Kept(); !reflect.DeepEqual(keep, again) {
			fail(fmt.Sprintf("the second run of the same objects gives %v, the first %v", again, keep))
			return
		}
		if after := state(J); after != before {
			fail("the second run changed what it was given: " + diff(before, after))
			return
		}
		// one instance alone does what the instance does among others
		if !J.FC {
			i := r.Intn(len(J.Forest))
			J.Forest[i].Simplify(iter.NewIgen())
			R.Count("single runs", 1)
			if got := J.Forest[i].Simple(); !reflect.DeepEqual(got, keep[i]) {
				fail(fmt.Sprintf("line %d simplified by itself gives %v, among others %v", i, got, keep[i]))
				return
			}
		}
		// fresh objects in the same process
		if r.Intn(2) == 0 {
			J.Build().Run(func(int) {})
			R.Count("fresh runs", 1)
			if again := J.Kept(); !reflect.DeepEqual(keep, again) {
				fail(fmt.Sprintf("fresh objects give %v, the first run gave %v", again, keep))
				return
			}
		}
		for i, k := range keep {
			if len(k) > 2 && len(k) < len(J.Lines[i]) {
				R.Nontrivial(J.Text())
				if len(J.Text()) < 900 {
					R.Sample(map[string]interface{}{"job": J.Text(), "kept": keep})
				}
				break
			}
		}
	})
	R.Finish()
}
