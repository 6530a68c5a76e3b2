// c22: the spatial index answers every query as a plain list of its entries would.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/hdb"
	"github.com/TopoSimplify/plugin/knn"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
	"github.com/intdxdt/mbr"

	"verifharness/gen"
	"verifharness/geo"
	"verifharness/lib"
	"verifharness/run"
)

func boxDist(a, b *mbr.MBR) float64 {
	gap := func(a0, a1, b0, b1 float64) float64 { return math.Max(0, math.Max(b0-a1, a0-b1)) }
	return math.Hypot(gap(a.MinX, a.MaxX, b.MinX, b.MaxX), gap(a.MinY, a.MaxY, b.MinY, b.MaxY))
}

func meet(a, b *mbr.MBR) bool {
	return a.MinX <= b.MaxX && b.MinX <= a.MaxX && a.MinY <= b.MaxY && b.MinY <= a.MaxY
}

type world struct {
	r     *rand.Rand
	tree  *hdb.Hdb
	model map[int]mbr.MBR
	ids   []int // of the model, any order
	next  int
	log   []string
	scale float64
	side  int
	mode  int
	sizes map[string]int
}

func (w *world) box() mbr.MBR {
	x, y := float64(w.r.Intn(w.side)), float64(w.r.Intn(w.side))
	var dx, dy float64
	switch w.mode {
	case 0: // points
	case 1: // small boxes
		dx, dy = float64(w.r.Intn(3)), float64(w.r.Intn(3))
	case 2: // mixed, some cover everything
		if w.r.Intn(10) == 0 {
			x, y, dx, dy = 0, 0, float64(w.side), float64(w.side)
		} else {
			dx, dy = float64(w.r.Intn(w.side/3+1)), float64(w.r.Intn(w.side/3+1))
		}
	case 3: // on one line
		y = 0
		dx = float64(w.r.Intn(4))
	case 4: // segments
		if w.r.Intn(2) == 0 {
			dx = float64(w.r.Intn(w.side))
		} else {
			dy = float64(w.r.Intn(w.side))
		}
	case 5: // clusters
		x, y = float64(w.r.Intn(4)*w.side*10+w.r.Intn(3)), float64(w.r.Intn(4)*w.side*10+w.r.Intn(3))
	}
	return mbr.CreateMBR(x*w.scale, y*w.scale, (x+dx)*w.scale, (y+dy)*w.scale)
}

func (w *world) query() mbr.MBR {
	if len(w.ids) > 0 && w.r.Intn(3) == 0 {
		// around an entry, sometimes touching it exactly
		b := w.model[w.ids[w.r.Intn(len(w.ids))]]
		switch w.r.Intn(4) {
		case 0:
			return b
		case 1:
			return mbr.CreateMBR(b.MaxX, b.MaxY, b.MaxX+w.scale, b.MaxY+w.scale)
		case 2:
			return mbr.CreateMBR(b.MinX-w.scale, b.MinY-w.scale, b.MinX, b.MaxY)
		default:
			return mbr.CreateMBR(b.MinX-w.scale, b.MinY-w.scale, b.MaxX+w.scale, b.MaxY+w.scale)
		}
	}
	a, b := w.box(), w.box()
	if w.r.Intn(2) == 0 {
		return a
	}
	return mbr.CreateMBR(math.Min(a.MinX, b.MinX), math.Min(a.MinY, b.MinY), math.Max(a.MaxX, b.MaxX), math.Max(a.MaxY, b.MaxY))
}

func same(got []*node.Node, want []int, model map[int]mbr.MBR) string {
	var g []int
	for _, n := range got {
		if n == nil {
			return "a nil entry was returned"
		}
		if b, ok := model[n.Id]; !ok || b != n.MBR {
			return fmt.Sprintf("entry %d %v was returned, which is not stored (stored under this identity: %v)", n.Id, n.MBR, b)
		}
		g = append(g, n.Id)
	}
	sort.Ints(g)
	sort.Ints(want)
	if fmt.Sprint(g) != fmt.Sprint(want) {
		return fmt.Sprintf("returned %v, a list gives %v", g, want)
	}
	return ""
}

func (w *world) load(n int) {
	items := make([]node.Node, n)
	for i := range items {
		b := w.box()
		if i > 0 && w.r.Intn(6) == 0 {
			b = items[w.r.Intn(i)].MBR // duplicates
		}
		w.next++
		items[i] = node.Node{Id: w.next, MBR: b}
		w.model[w.next] = b
		w.ids = append(w.ids, w.next)
	}
	w.logf("load %d (ids %d..)", n, w.next-n+1)
	w.tree.Load(items)
}

func (w *world) logf(f string, a ...interface{}) { w.log = append(w.log, fmt.Sprintf(f, a...)) }

func (w *world) remove() {
	switch {
	case len(w.ids) == 0 || w.r.Intn(12) == 0:
		// something that is not stored: an unknown identity, maybe with a known box
		n := node.Node{Id: -5, MBR: w.box()}
		if len(w.ids) > 0 {
			n.MBR = w.model[w.ids[w.r.Intn(len(w.ids))]]
		}
		w.logf("remove absent %v", n.MBR)
		w.tree.Remove(&n)
	default:
		k := w.r.Intn(len(w.ids))
		id := w.ids[k]
		w.logf("remove %d %v", id, w.model[id])
		w.tree.Remove(&node.Node{Id: id, MBR: w.model[id]})
		delete(w.model, id)
		w.ids[k] = w.ids[len(w.ids)-1]
		w.ids = w.ids[:len(w.ids)-1]
	}
}

func (w *world) check(R *run.R) string {
	if w.tree.IsEmpty() != (len(w.ids) == 0) {
		return fmt.Sprintf("IsEmpty=%v with %d entries", w.tree.IsEmpty(), len(w.ids))
	}
	q := w.query()
	var want []int
	for id, b := range w.model {
		b := b
		if meet(&b, &q) {
			want = append(want, id)
		}
	}
	w.logf("search %v", q)
	if s := same(w.tree.Search(q), want, w.model); s != "" {
		return "search: " + s
	}
	R.Count("searches", 1)
	R.Count("entries found", len(want))
	if c := w.tree.Collides(q); c != (len(want) > 0) {
		return fmt.Sprintf("collides says %v, %d entries meet the query", c, len(want))
	}
	if w.r.Intn(4) == 0 {
		if s := same(w.tree.All(), append([]int(nil), w.ids...), w.model); s != "" {
			return "all: " + s
		}
		R.Count("full listings", 1)
	}
	if w.r.Intn(2) == 0 {
		return w.nearest(R, q)
	}
	return ""
}

func (w *world) nearest(R *run.R, q mbr.MBR) string {
	var ds []float64
	for _, b := range w.model {
		b := b
		ds = append(ds, boxDist(&q, &b))
	}
	sort.Float64s(ds)
	score := func(q *mbr.MBR, o *hdb.KObj) float64 { return boxDist(q, o.MBR) }
	limit := []int{0, -1, 1, 1 + w.r.Intn(10), len(ds) + 3}[w.r.Intn(5)]
	w.logf("knn %v limit %d", q, limit)
	R.Count("nearest neighbour queries", 1)
	tol := 1e-9 * (1 + w.scale*float64(w.side))
	judge := func(got []*node.Node, want []float64) string {
		if len(got) != len(want) {
			return fmt.Sprintf("%d entries, want %d", len(got), len(want))
		}
		seen := map[int]bool{}
		for i, n := range got {
			b, ok := w.model[n.Id]
			if !ok || seen[n.Id] {
				return fmt.Sprintf("entry %d is not stored or was returned twice", n.Id)
			}
			seen[n.Id] = true
			if d := boxDist(&q, &b); math.Abs(d-want[i]) > tol {
				return fmt.Sprintf("the entry at place %d is at %v, the nearest not yet listed at %v", i, d, want[i])
			}
		}
		return ""
	}
	want := ds
	if limit > 0 && limit < len(ds) {
		want = ds[:limit]
	}
	if s := judge(w.tree.Knn(q, limit, score), want); s != "" {
		return "nearest: " + s
	}
	if len(ds) > 0 {
		// with a distance cut-off half way between two distances
		at := w.r.Intn(len(ds))
		cut := ds[at]
		n := at + 1
		for n < len(ds) && ds[n] <= cut+tol {
			n++
		}
		if n < len(ds) {
			cut = (cut + ds[n]) / 2
		} else {
			cut += w.scale
		}
		got := w.tree.Knn(q, -1, score, knn.PredicateFn(cut))
		if s := judge(got, ds[:n]); s != "" {
			return fmt.Sprintf("within %v: %s", cut, s)
		}
		// a predicate that skips entries
		k := 0
		got = w.tree.Knn(q, 0, score, func(o *hdb.KObj) (bool, bool) {
			k++
			return k%2 == 0, false
		})
		var half []float64
		for i := 1; i < len(ds); i += 2 {
			half = append(half, ds[i])
		}
		if s := judge(got, half); s != "" {
			return "every second: " + s
		}
	}
	return ""
}

func ops(R *run.R, r *rand.Rand) {
	w := &world{r: r, model: map[int]mbr.MBR{}, scale: []float64{1, 1, 0.1, 1e-6, 1e6}[r.Intn(5)], side: []int{3, 10, 40, 1000}[r.Intn(4)], mode: r.Intn(6)}
	cap := []int{0, 2, 3, 4, 5, 9, 16, 40}[r.Intn(8)]
	if cap == 0 {
		w.tree = hdb.NewHdb()
	} else {
		w.tree = hdb.NewHdb(cap)
	}
	w.logf("capacity %d mode %d side %d scale %v", cap, w.mode, w.side, w.scale)
	n := 20 + r.Intn(120)
	grow := r.Intn(3)
	bad := ""
	most, removed := 0, 0
	func() {
		defer func() {
			if e := recover(); e != nil {
				bad = fmt.Sprintf("panic: %v", e)
			}
		}()
		for i := 0; i < n && bad == ""; i++ {
			switch k := r.Intn(10); {
			case k < 3+grow:
				m := []int{0, 1, 1, 2, 3, 5, 9, 20}[r.Intn(8)]
				if r.Intn(12) == 0 {
					m = 30 + r.Intn(300)
				}
				w.load(m)
			case k < 9:
				for q := r.Intn(4 + 20/(1+grow)); q >= 0; q-- {
					w.remove()
					removed++
				}
			default:
				if r.Intn(4) == 0 {
					w.tree.Clear()
					w.model, w.ids = map[int]mbr.MBR{}, nil
					w.logf("clear")
				}
			}
			if len(w.ids) > most {
				most = len(w.ids)
			}
			for q := 0; q < 2 && bad == ""; q++ {
				bad = w.check(R)
			}
		}
	}()
	R.Eval(n)
	R.Count("removals", removed)
	R.Max("entries stored", most)
	if bad != "" {
		log := w.log
		if len(log) > 40 {
			log = log[len(log)-40:]
		}
		R.Violate("index: "+bad+"\n"+w.log[0]+"\n..."+strings.Join(log, "\n"), map[string]interface{}{"operations": w.log, "what": bad})
		return
	}
	if most > 16 && removed > 3 {
		R.Nontrivial(strings.Join(w.log, ";"))
		if most < 40 {
			R.Sample(map[string]interface{}{"operations": len(w.log), "most entries": most, "first": w.log[:6]})
		}
	}
}

// neighbours: hulls and constraints within a distance, by brute force over exact geometry.
func neighbours(R *run.R, r *rand.Rand) {
	n := 20 + r.Intn(200)
	line := gen.BigAny(r, n)
	ig := iter.NewIgen()
	pln := lib.Line(0, line)
	var nodes []node.Node
	var hulls []geo.Geom
	byID := map[int]int{}
	for i := 0; i+1 < len(line); {
		j := i + 1 + r.Intn(6)
		if j >= len(line) {
			j = len(line) - 1
		}
		rg := rng.Range(i, j)
		nodes = append(nodes, node.CreateNode(ig, pln.SubCoordinates(rg), rg, common.Geometry, nil))
		hulls = append(hulls, geo.HullGeom(line[i:j+1]))
		byID[nodes[len(nodes)-1].Id] = len(nodes) - 1
		i = j
	}
	tree := hdb.NewHdb().Load(nodes)
	for q := 0; q < 12; q++ {
		k := r.Intn(len(nodes))
		dist := []float64{0, 1e-5, 1, 5, 20, 100}[r.Intn(6)]
		// boxes must meet for hulls, not for constraints
		judge := func(what string, got []*node.Node, d func(i int) float64) bool {
			hit := map[int]bool{}
			for _, g := range got {
				i, ok := byID[g.Id]
				if !ok || hit[i] {
					R.Violate(what+": an entry is not stored or was returned twice", map[string]interface{}{"line": fmt.Sprint(line)})
					return false
				}
				hit[i] = true
			}
			near := 0
			for i := range nodes {
				di := d(i)
				if math.Abs(di-dist) < 1e-9*(1+dist) && di != 0 {
					continue
				}
				if di <= dist {
					near++
				}
				if hit[i] != (di <= dist) {
					R.Violate(fmt.Sprintf("%s within %v: hull %v at distance %v, listed: %v\nline %v", what, dist, nodes[i].Range, di, hit[i], line), map[string]interface{}{"line": fmt.Sprint(line), "hull": nodes[i].Range.String()})
					return false
				}
			}
			R.Count(what, 1)
			R.Count(what+" found", near)
			if near > 1 {
				R.Nontrivial(fmt.Sprint(what, line, k, dist, near))
			}
			return true
		}
		R.Eval(1)
		if q%2 == 0 {
			own := hulls[k]
			ok := judge("neighbouring hulls", knn.NodeNeighbours(tree, &nodes[k], dist), func(i int) float64 {
				if i == k || !meet(nodes[i].BBox(), nodes[k].BBox()) {
					return math.Inf(1)
				}
				return geomDist(&own, &hulls[i])
			})
			if !ok {
				return
			}
		} else {
			g := gen.Constraint(r, []geo.Chain{line})
			if d := geomDist(&g, &hulls[k]); d > 0 && r.Intn(3) == 0 { // just within, just beyond
				dist = d * (1 + []float64{1e-3, 1e-6, -1e-6, -1e-3}[r.Intn(4)])
			}
			ok := judge("hulls near a "+g.Kind, knn.ContextNeighbours(tree, lib.Constraint(0, g).(interface{ Geometry() geom.Geometry }).Geometry(), dist), func(i int) float64 {
				return geomDist(&g, &hulls[i])
			})
			if !ok {
				return
			}
		}
	}
}

func geomDist(a, b *geo.Geom) float64 {
	d := math.Inf(1)
	for _, l := range b.Lines() {
		d = math.Min(d, a.Dist(l))
	}
	for _, l := range a.Lines() {
		d = math.Min(d, b.Dist(l))
	}
	return d
}

func main() {
	R := run.Start("C22")
	R.Rule = "(a) random histories of bulk and single loads, removals (present, absent, equal boxes), clears, over all node capacities and point, box, line, cluster data; after each step range, collision, listing and nearest neighbour queries against a plain map; non-trivial: more than 16 entries and 4 removals. (b) hulls of a polyline near a hull or constraint, against exact brute force; non-trivial: at least two found"
	R.Assume = []string{"identities are unique", "finite boxes", "distances within 1e-9 of the cut-off are not judged"}
	R.Parallel(R.N(4500, 60000), func(j int, r *rand.Rand) {
		if j%3 == 2 {
			neighbours(R, r)
		} else {
			ops(R, r)
		}
	})
	R.Finish()
}
