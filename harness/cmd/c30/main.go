// c30: splitting and joining pieces neither loses nor invents anything.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/hdb"
	"github.com/TopoSimplify/plugin/merge"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/TopoSimplify/plugin/split"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"

	"verifharness/gen"
	"verifharness/geo"
	"verifharness/lib"
	"verifharness/run"
)

// covers: the hull of the piece covers its vertices and nothing outside their hull.
func pieceOK(F lib.Frame, h *node.Node, c geo.Chain, want rng.Rng, ids map[int]bool) string {
	sub := c[want.I : want.J+1]
	switch {
	case h.Range != want:
		return fmt.Sprintf("piece %v instead of %v", h.Range, want)
	case fmt.Sprint(F.Pts(h.Coordinates())) != fmt.Sprint(sub):
		return fmt.Sprintf("piece %v has vertices %v instead of %v", want, F.Pts(h.Coordinates()), sub)
	case ids[h.Id]:
		return fmt.Sprintf("piece %v has the identity of another", want)
	}
	x0, y0, x1, y1 := sub.Box()
	if b := h.MBR; (func() bool {
		mx, my := F.P(geo.P{X: x0, Y: y0})
		Mx, My := F.P(geo.P{X: x1, Y: y1})
		return b.MinX != mx || b.MinY != my || b.MaxX != Mx || b.MaxY != My
	})() {
		return fmt.Sprintf("box of piece %v is %v", want, b)
	}
	hull := geo.HullGeom(sub)
	if l, ok := h.Geom.(*geom.Polygon); ok && hull.Kind == "Polygon" {
		m := map[geo.P]bool{}
		for _, p := range F.Pts(l.AsLinear()[0].Coordinates) {
			m[p] = true
			if !hull.Covers(p) {
				return fmt.Sprintf("hull of piece %v is too big", want)
			}
		}
		for _, p := range hull.Rings[0] {
			if !m[p] {
				return fmt.Sprintf("hull of piece %v leaves out %v", want, p)
			}
		}
	}
	ids[h.Id] = true
	return ""
}

// aggregate: single segments join the next piece or else the previous one.
func aggregate(R *run.R, r *rand.Rand, F lib.Frame, c geo.Chain) string {
	if r.Intn(40) == 0 { // long tilings
		c = gen.Walk(r, 40+r.Intn(400), 900, 60)
		if r.Intn(250) == 0 {
			c = gen.Walk(r, 1100+r.Intn(1000), 900, 60)
		}
	}
	n := len(c)
	pln := F.Line(0, c)
	T := []float64{0, 2, 5, 12, 40, 1000}[r.Intn(6)]
	salt := r.Int63()
	var score func(geom.Coords) (int, float64)
	square := false
	switch r.Intn(3) {
	case 0:
		score = offset.MaxOffset
	case 1:
		score, square = offset.SquareMaxOffset, true
	default: // anything
		if T > 5 {
			T = 5
		}
		score = func(g geom.Coords) (int, float64) {
			a, b := g.Pt(0), g.Pt(g.Len()-1)
			h := rand.New(rand.NewSource(salt ^ int64(math.Float64bits(a[0]+3*a[1]+7*b[0]+13*b[1]+float64(g.Len())))))
			return g.Len() / 2, float64(h.Intn(10))
		}
	}
	within := func(g rng.Rng) bool {
		_, v := score(pln.SubCoordinates(g))
		if square {
			return v <= T*T
		}
		return v <= T
	}
	refuse := r.Intn(4)
	accept := func(g rng.Rng) bool {
		return refuse == 0 || rand.New(rand.NewSource(salt^int64(g.I*100003+g.J))).Intn(4) >= refuse
	}
	var cut []int
	p := r.Float64()
	for k := 1; k < n-1; k++ {
		if r.Float64() < p {
			cut = append(cut, k)
		}
	}
	var set []int
	fixed := map[int]bool{}
	q := r.Float64() * r.Float64()
	for k := 0; k < n; k++ {
		if r.Float64() < q {
			set = append(set, k)
			fixed[k] = true
		}
	}
	var self *constdp.ConstDP
	id := r.Intn(3)
	o := &opts.Opts{Threshold: T}
	if square {
		self = constdp.NewConstDP(id, pln, nil, o, offset.MaxOffset, score)
	} else {
		self = constdp.NewConstDP(id, pln, nil, o, score)
	}
	ids := iter.NewIgen()
	var hs []node.Node
	var tiles, model []rng.Rng
	at := 0
	for _, k := range append(cut, n-1) {
		g := rng.Range(at, k)
		tiles = append(tiles, g)
		hs = append(hs, node.CreateNode(ids, pln.SubCoordinates(g), g, common.Geometry, self))
		at = k
	}
	idOf := map[rng.Rng]int{}
	used := map[int]bool{}
	for k := range hs {
		idOf[hs[k].Range] = hs[k].Id
	}
	r.Shuffle(len(hs), func(a, b int) { hs[a], hs[b] = hs[b], hs[a] })
	// model
	joinedFrom := map[rng.Rng]bool{}
	refused := 0
	for k := 0; k < len(tiles); k++ {
		g := tiles[k]
		if g.Size() == 1 && !(fixed[g.I] && fixed[g.J]) {
			if k+1 < len(tiles) && !fixed[g.J] {
				if w := rng.Range(g.I, tiles[k+1].J); within(w) {
					if accept(w) {
						model = append(model, w)
						joinedFrom[w] = true
						k++
						continue
					}
					refused++
				}
			}
			if len(model) > 0 && !fixed[g.I] {
				if w := rng.Range(model[len(model)-1].I, g.J); within(w) {
					if accept(w) {
						model[len(model)-1] = w
						joinedFrom[w] = true
						continue
					}
					refused++
				}
			}
		}
		model = append(model, g)
	}
	db := hdb.NewHdb().Load(hs)
	bad := ""
	self.AggregateSimpleSegments(ids, db, set, func(h *node.Node, d *hdb.Hdb) bool {
		// the rest of the line is in the index, what is being joined is not
		left := 0
		for _, x := range d.All() {
			if x.Range.I < h.Range.J && h.Range.I < x.Range.J {
				bad = fmt.Sprintf("%v is examined while its part %v is still there", h.Range, x.Range)
			}
			left += x.Range.Size()
		}
		if left+h.Range.Size() != n-1 && bad == "" {
			bad = fmt.Sprintf("%v is examined while other pieces are missing", h.Range)
		}
		return accept(h.Range)
	})
	R.Eval(1)
	got := db.All()
	sort.Sort(node.NodePtrs(got))
	var ranges []rng.Rng
	for _, x := range got {
		ranges = append(ranges, x.Range)
	}
	note := fmt.Sprintf("\nline %v pieces %v fixed %v T %v", c, tiles, set, T)
	if bad != "" {
		return bad + note
	}
	if fmt.Sprint(ranges) != fmt.Sprint(model) {
		return fmt.Sprintf("%v instead of %v%s", ranges, model, note)
	}
	for _, x := range got {
		if v, ok := idOf[x.Range]; ok && !joinedFrom[x.Range] {
			if v != x.Id {
				return fmt.Sprintf("piece %v has another identity%s", x.Range, note)
			}
			used[v] = true
		}
	}
	for _, x := range got {
		if _, ok := idOf[x.Range]; ok && !joinedFrom[x.Range] {
			continue
		}
		if m := pieceOK(F, x, c, x.Range, used); m != "" {
			return m + note
		}
	}
	R.Count("single segments joined", len(tiles)-len(model))
	R.Count("joins refused by the relations", refused)
	R.Max("pieces in a tiling", len(tiles))
	return ""
}

func main() {
	R := run.Start("C30")
	R.Rule = "pieces of random polylines cut at arbitrary vertices (also unsorted, repeated, at the ends and outside), cut at the vertex a score selects, joined in either order, and whole tilings joined by size; non-trivial: at least three fragments of one piece, or pieces joined and pieces left"
	R.Assume = []string{"at least two vertices per piece"}
	R.Parallel(R.N(450000, 5000000), func(j int, r *rand.Rand) {
		var c geo.Chain
		if r.Intn(2) == 0 {
			c = gen.SimpleLine(r, []int{5, 9, 25}[r.Intn(3)])
		} else {
			c = gen.AnyLine(r, []int{5, 9, 25}[r.Intn(3)])
		}
		most := 6
		if r.Intn(200) == 0 { // many cuts
			c = gen.Walk(r, 100+r.Intn(400), 900, 60)
			most = 400
		}
		n := len(c)
		if n < 3 {
			return
		}
		F := lib.AnyFrame(r)
		F.S = 1
		pln := F.Line(0, c)
		before := fmt.Sprint(F.Pts(pln.Coordinates))
		ids := iter.NewIgen()
		i := r.Intn(n - 1)
		e := i + 1 + r.Intn(n-1-i)
		whole := rng.Range(i, e)
		h := node.CreateNode(ids, pln.SubCoordinates(whole), whole, common.Geometry, nil)
		seen := map[int]bool{}
		fail := func(msg string, more ...interface{}) {
			all := []interface{}(more)
			R.Violate(fmt.Sprintf("%s %v\npiece %v of %v", msg, all, whole, c), map[string]interface{}{"line": fmt.Sprint(c), "piece": whole.AsArray(), "more": fmt.Sprint(all...)})
		}
		if b := pieceOK(F, &h, c, whole, seen); b != "" {
			fail("new piece: " + b)
			return
		}

		// cut at indices
		var idx []int
		for k := r.Intn(most); k > 0; k-- {
			idx = append(idx, r.Intn(n+2)-1)
		}
		idx0 := append([]int{}, idx...)
		in := map[int]bool{}
		for _, x := range idx {
			if x > i && x < e {
				in[x] = true
			}
		}
		var ends []int
		for x := range in {
			ends = append(ends, x)
		}
		sort.Ints(ends)
		var want []rng.Rng
		if len(ends) > 0 {
			at := i
			for _, x := range append(ends, e) {
				want = append(want, rng.Range(at, x))
				at = x
			}
		}
		R.Eval(2)
		if got := whole.Split(idx); fmt.Sprint(got) != fmt.Sprint(want) {
			fail("range split", idx0, got, want)
			return
		}
		parts := split.AtIndex(ids, &h, idx, common.Geometry)
		if len(parts) != len(want) {
			fail("split at indices", idx0, len(parts), want)
			return
		}
		for k := range parts {
			if b := pieceOK(F, &parts[k], c, want[k], seen); b != "" {
				fail("split at indices", idx0, b)
				return
			}
		}
		R.Count("fragments of cuts at indices", len(parts))
		if len(parts) > 2 {
			R.Nontrivial(fmt.Sprint("split", c, whole, idx0))
		}

		// cut where the score says
		if whole.Size() > 1 {
			score := offset.MaxOffset
			k, _ := score(h.Coordinates())
			a, b := split.AtScoreSelection(ids, &h, score, common.Geometry)
			R.Eval(1)
			for _, x := range []struct {
				h *node.Node
				w rng.Rng
			}{{&a, rng.Range(i, i+k)}, {&b, rng.Range(i+k, e)}} {
				if bad := pieceOK(F, x.h, c, x.w, seen); bad != "" {
					fail("split at score", k, bad)
					return
				}
			}
			R.Count("cuts at the score's vertex", 1)
		}

		// join two neighbours
		k := i
		if e-i > 1 {
			k = i + 1 + r.Intn(e-i-1)
			ra, rb := rng.Range(i, k), rng.Range(k, e)
			a := node.CreateNode(ids, pln.SubCoordinates(ra), ra, common.Geometry, nil)
			b := node.CreateNode(ids, pln.SubCoordinates(rb), rb, common.Geometry, nil)
			seen[a.Id], seen[b.Id] = true, true
			x, y := &a, &b
			if r.Intn(2) == 0 {
				x, y = y, x
			}
			R.Eval(3)
			if !x.Range.Contiguous(y.Range) {
				fail("neighbours are not contiguous", x.Range, y.Range)
				return
			}
			if g := merge.Range(x.Range, y.Range); g != whole {
				fail("joined range", x.Range, y.Range, g)
				return
			}
			if g := F.Pts(merge.ContiguousCoordinates(x, y)); fmt.Sprint(g) != fmt.Sprint(c[i:e+1]) {
				fail("joined vertices", x.Range, y.Range, g)
				return
			}
			T := []float64{0, 2, 5, 12, 40, 1000}[r.Intn(6)]
			_, val := offset.MaxOffset(pln.SubCoordinates(whole))
			ok, m := merge.ContiguousFragmentsAtThreshold(ids, offset.MaxOffset, x, y, func(v float64) bool { return v <= T }, common.Geometry)
			if ok != (val <= T) {
				fail("joining at a threshold", T, val, ok)
				return
			}
			if ok {
				if bad := pieceOK(F, &m, c, whole, seen); bad != "" {
					fail("joining at a threshold", bad)
					return
				}
				R.Count("pairs joined", 1)
			} else {
				R.Count("pairs beyond the threshold", 1)
			}
			if bad := fmt.Sprint(F.Pts(a.Coordinates()), F.Pts(b.Coordinates())); bad != fmt.Sprint(c[i:k+1], c[k:e+1]) {
				fail("joining changes the fragments", bad)
				return
			}
		}

		// join a tiling by size
		cuts := map[int]bool{0: true, n - 1: true}
		for x := r.Intn(n); x > 0; x-- {
			cuts[r.Intn(n)] = true
		}
		var at []int
		for x := range cuts {
			at = append(at, x)
		}
		sort.Ints(at)
		var hs []node.Node
		for x := 0; x+1 < len(at); x++ {
			g := rng.Range(at[x], at[x+1])
			hs = append(hs, node.CreateNode(ids, pln.SubCoordinates(g), g, common.Geometry, nil))
			seen[hs[x].Id] = true
		}
		T := []float64{0, 1, 3, 8, 25, 1000}[r.Intn(6)]
		size := 1 + r.Intn(2)
		fixed := map[int]bool{}
		for x := r.Intn(4); x > 0; x-- {
			fixed[at[r.Intn(len(at))]] = true
		}
		valid := func(v float64) bool { return v <= T }
		db := hdb.NewHdb().Load(hs)
		un := map[[2]int]*node.Node{}
		keep, rm := merge.ContiguousFragmentsBySize(ids, hs, db, fixed, un, size, valid, offset.MaxOffset, common.Geometry)
		R.Eval(1)
		orig := map[rng.Rng]*node.Node{}
		for x := range hs {
			orig[hs[x].Range] = &hs[x]
		}
		gone := map[rng.Rng]bool{}
		for _, x := range rm {
			if orig[x.Range] == nil || gone[x.Range] {
				fail("joining by size removes what is not there", x.Range)
				return
			}
			gone[x.Range] = true
		}
		sort.Sort(node.NodePtrs(keep))
		pos, joined := 0, 0
		var ks []rng.Rng
		for _, x := range keep {
			ks = append(ks, x.Range)
		}
		bad := ""
		for _, x := range keep {
			if x.Range.I != pos {
				bad = fmt.Sprintf("vertex %d to %d", pos, x.Range.I)
				break
			}
			pos = x.Range.J
			if orig[x.Range] != nil {
				if gone[x.Range] {
					bad = fmt.Sprintf("%v is kept and removed", x.Range)
				}
				continue
			}
			joined++
			if b := pieceOK(F, x, c, x.Range, seen); b != "" {
				bad = b
				break
			}
			var within []rng.Rng
			for g := range gone {
				if g.I >= x.Range.I && g.J <= x.Range.J {
					within = append(within, g)
				}
			}
			_, val := offset.MaxOffset(pln.SubCoordinates(x.Range))
			switch {
			case len(within) != 2:
				bad = fmt.Sprintf("%v is joined from %v", x.Range, within)
			case within[0].Size() != size && within[1].Size() != size:
				bad = fmt.Sprintf("%v has no fragment of size %d: %v", x.Range, size, within)
			case !valid(val):
				bad = fmt.Sprintf("%v exceeds the threshold: %v", x.Range, val)
			default:
				m := within[0].J
				if within[1].I != m {
					m = within[1].J
				}
				if fixed[m] {
					bad = fmt.Sprintf("%v joins at fixed vertex %d", x.Range, m)
				}
			}
			if bad != "" {
				break
			}
		}
		if bad == "" && pos != n-1 {
			bad = fmt.Sprintf("pieces end at %d", pos)
		}
		if bad == "" && 2*joined != len(rm) {
			bad = fmt.Sprintf("%d joined, %d removed", joined, len(rm))
		}
		// nothing that could be joined is left
		for x := 0; bad == "" && x+1 < len(keep); x++ {
			a, b := keep[x], keep[x+1]
			if orig[a.Range] == nil || orig[b.Range] == nil || fixed[a.Range.J] || a.Range.Size() != size && b.Range.Size() != size {
				continue
			}
			if _, val := offset.MaxOffset(pln.SubCoordinates(rng.Range(a.Range.I, b.Range.J))); valid(val) {
				bad = fmt.Sprintf("%v and %v are left apart (%v)", a.Range, b.Range, val)
			}
		}
		if bad != "" {
			fail("joining by size: "+bad, "pieces at", at, "size", size, "fixed", fixed, "T", T, "kept", ks)
			return
		}
		if msg := aggregate(R, r, F, c); msg != "" {
			fail("joining single segments: " + msg)
			return
		}
		R.Count("pieces joined by size", joined)
		if joined > 0 && joined < len(keep) {
			R.Nontrivial(fmt.Sprint("size", c, at, size, T))
		}
		if s := fmt.Sprint(F.Pts(pln.Coordinates)); s != before {
			fail("the polyline changed", s)
		}
	})
	R.Finish()
}
