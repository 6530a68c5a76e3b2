package main

import (
	"fmt"
	"math/rand"

	"verifharness/cli"
	"verifharness/geo"
	"verifharness/oracle"
	"verifharness/run"
)

func init() {
	custom["C04"] = economy
}

// dpPieces returns the classical Douglas-Peucker pieces of a chain; ok is false when a tie
// or a value too close to the threshold leaves the result open.
func dpPieces(c geo.Chain, T float64) (ps [][2]int, ok bool) {
	ok = true
	var rec func(i, j int)
	rec = func(i, j int) {
		best, at, second := -1.0, -1, -1.0
		for k := i + 1; k < j; k++ {
			d := geo.PtSegDist(c[i], c[j], c[k])
			if d >= best {
				second = best
				best, at = d, k
			} else if d > second {
				second = d
			}
		}
		if at < 0 || best <= T {
			if at >= 0 && best > T*(1-1e-9)-1e-9 && !exactAll(c, i, j, best) {
				ok = false
			}
			ps = append(ps, [2]int{i, j})
			return
		}
		if best < T*(1+1e-9)+1e-9 && !exactAll(c, i, j, best) || second >= best*(1-1e-9) {
			ok = false
		}
		rec(i, at)
		rec(at, j)
	}
	rec(0, len(c)-1)
	return
}

// exactAll: the offsets of the vertices between i and j that are about as far away as the
// furthest are not subject to rounding.
func exactAll(c geo.Chain, i, j int, best float64) bool {
	if best == 0 {
		return false
	}
	for k := i + 1; k < j; k++ {
		if geo.PtSegDist(c[i], c[j], c[k]) > best-1e-6*(1+best) && !geo.PtSegExact(c[i], c[j], c[k]) {
			return false
		}
	}
	return true
}

// economical: the output is the classical one, except that pieces next to a single segment
// may have been joined.
func economical(kept cli.Kept, ps [][2]int) string {
	end := map[int]bool{0: true}
	for _, p := range ps {
		end[p[1]] = true
	}
	for _, k := range kept {
		if !end[k] {
			return fmt.Sprintf("vertex %d is kept, Douglas-Peucker drops it", k)
		}
	}
	for t := 0; t+1 < len(kept); t++ {
		n, single := 0, false
		for _, p := range ps {
			if p[0] >= kept[t] && p[1] <= kept[t+1] {
				n++
				if p[1]-p[0] == 1 {
					single = true
				}
			}
		}
		if n > 1 && !single {
			return fmt.Sprintf("the Douglas-Peucker vertices between %d and %d were dropped, although no single segment ends there", kept[t], kept[t+1])
		}
	}
	return ""
}

// clear: nothing a constraint could protect: the hulls of the pieces meet only where
// neighbours share a vertex, and stay away from everything else.
func clear(c *cli.Case, cfg cli.Cfg, pieces [][][2]int) bool {
	type hl struct {
		l int
		p [2]int
		g geo.Geom
	}
	var hs []hl
	for l, ps := range pieces {
		at := map[geo.P]bool{}
		for _, p := range c.Lines[l] {
			if at[p] {
				return false
			}
			at[p] = true
		}
		for _, p := range ps {
			hs = append(hs, hl{l, p, geo.HullGeom(c.Lines[l][p[0] : p[1]+1])})
		}
	}
	reach := cfg.MinDist
	for i := range hs {
		for k := range c.Cons {
			if geomDist(&hs[i].g, &c.Cons[k]) <= reach+1 {
				return false
			}
		}
		for j := i + 1; j < len(hs); j++ {
			if hs[i].l != hs[j].l {
				if cfg.FC && geomDist(&hs[i].g, &hs[j].g) <= 0 {
					return false
				}
				continue
			}
			if hs[i].p[1] == hs[j].p[0] {
				// neighbours: only the common vertex may be common
				v := c.Lines[hs[i].l][hs[i].p[1]]
				for _, a := range hs[i].g.Lines() {
					for _, b := range hs[j].g.Lines() {
						for _, x := range geo.ChainPoints(a, b) {
							if x.X != float64(v.X) || x.Y != float64(v.Y) {
								return false
							}
						}
						if hs[j].g.Covers(a[0]) && a[0] != v || hs[i].g.Covers(b[0]) && b[0] != v {
							return false
						}
					}
				}
				if overlapAt(hs[i].g, hs[j].g) {
					return false
				}
				continue
			}
			if geomDist(&hs[i].g, &hs[j].g) <= 0 {
				return false
			}
		}
	}
	return true
}

func overlapAt(g, h geo.Geom) bool {
	for _, a := range g.Lines() {
		for _, b := range h.Lines() {
			for i := 0; i+1 < len(a); i++ {
				for j := 0; j+1 < len(b); j++ {
					if geo.SegOverlap(a[i], a[i+1], b[j], b[j+1]) {
						return true
					}
				}
			}
			for _, p := range a {
				if h.Kind == "Polygon" && geo.RingSide(h.Rings[0], p) > 0 {
					return true
				}
			}
			for _, p := range b {
				if g.Kind == "Polygon" && geo.RingSide(g.Rings[0], p) > 0 {
					return true
				}
			}
		}
	}
	return false
}

func geomDist(a, b *geo.Geom) float64 {
	best := -1.0
	for _, l := range a.Lines() {
		if d := b.Dist(l); best < 0 || d < best {
			best = d
		}
	}
	for _, l := range b.Lines() {
		if d := a.Dist(l); best < 0 || d < best {
			best = d
		}
	}
	return best
}

func economy(R *run.R, rn *cli.Runner) {
	R.Rule = "three kinds of scenes: (a) all relations off, (b) relations on but nothing near any piece, (c) only the self intersection options on and every vertex within the threshold; non-trivial: (a,b) both dropped and kept interior vertices and no tie in Douglas-Peucker, (c) shared vertices present"
	R.Assume = []string{"scenes whose Douglas-Peucker result depends on a tie, or on a comparison within 1e-9 of the threshold, are only checked for the distance-free part"}
	n := R.N(900, 12000)
	judge := func(mode int, cfg cli.Cfg, c *cli.Case, kept []cli.Kept) (msg string, nontriv bool) {
		switch mode {
		case 0, 1:
			var pieces [][][2]int
			oks := make([]bool, len(c.Lines))
			for l := range c.Lines {
				ps, ok := dpPieces(c.Lines[l], cfg.Threshold)
				oks[l] = ok
				pieces = append(pieces, ps)
			}
			if mode == 1 {
				for _, ok := range oks {
					if !ok {
						return "", false
					}
				}
				if !clear(c, cfg, pieces) {
					return "", false
				}
			}
			for l := range c.Lines {
				if !oks[l] {
					continue
				}
				if m := economical(kept[l], pieces[l]); m != "" {
					return fmt.Sprintf("line %d: %s", l, m), true
				}
				if len(kept[l]) > 2 && len(kept[l]) < len(c.Lines[l]) {
					nontriv = true
				}
			}
		case 2:
			must := oracle.MustKeep(c, cfg)
			for l := range c.Lines {
				if len(must[l]) > 2 {
					nontriv = true
				}
				for _, k := range kept[l] {
					if !must[l][k] {
						return fmt.Sprintf("line %d: vertex %d is kept for no reason", l, k), true
					}
				}
			}
		}
		return
	}
	R.Parallel(n, func(j int, r *rand.Rand) {
		mode := j % 3
		cfg := randCfg(r)
		cfg.Type = "DP"
		switch mode {
		case 0:
			cfg.FC = r.Intn(3) == 0
			cfg.Planar, cfg.NonPlanar, cfg.Avoid, cfg.Geom, cfg.Dist, cfg.Homotopy = false, false, false, false, false, false
		case 1:
			if cfg.MinDist > 10 {
				cfg.MinDist = 3
			}
			if cfg.NonPlanar {
				cfg.Planar = true
			}
		case 2:
			cfg.Threshold = 1e6
			cfg.Avoid, cfg.Geom, cfg.Dist, cfg.Homotopy = false, false, false, false
			cfg.Planar = true
		}
		var cs []*cli.Case
		for t := 0; t < 40; t++ {
			p := sceneParams{features: 1, cons: r.Intn(3), consMix: true}
			if cfg.FC || r.Intn(3) == 0 {
				p.features = 1 + r.Intn(4)
			}
			if mode == 1 {
				p.simple, p.disjoint = true, true
				p.cons = r.Intn(2)
				if r.Intn(2) == 0 {
					p.features = 1
				}
			}
			cs = append(cs, makeCase(r, p, false))
		}
		kept, e := rn.RunCases(cfg, cs)
		R.Count("program runs", 1)
		if e != nil {
			runErr(R, rn, cfg, cs, e)
			return
		}
		for t, c := range cs {
			R.Eval(1)
			msg, nt := judge(mode, cfg, c, kept[t])
			if msg != "" {
				shrunk(R, cfg, c, msg, func(c *cli.Case) string {
					k, e := rn.RunCases(cfg, []*cli.Case{c})
					if e != nil {
						return ""
					}
					m, _ := judge(mode, cfg, c, k[0])
					return m
				})
				return
			}
			if nt {
				R.Count([]string{"unconstrained scenes", "scenes clear of constraints", "self intersection scenes"}[mode], 1)
				R.Nontrivial(cfg.String() + c.Text())
				if txt := c.Text(); len(txt) < 500 {
					R.Sample(map[string]interface{}{"config": cfg.String(), "scene": txt, "kept": kept[t]})
				}
			}
		}
	})
}
