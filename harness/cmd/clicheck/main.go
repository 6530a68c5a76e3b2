// clicheck decides properties observable at the command line: it knows the program's
// documented interface and nothing else.
package main

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"

	"verifharness/cli"
	"verifharness/oracle"
	"verifharness/run"
)

var binPath = flag.String("bin", "", "program under test")

func fcOnly(f oracleFn) oracleFn {
	return func(o *oracle.Obs, st *oracle.Stats) string {
		if !o.Cfg.FC {
			return ""
		}
		return f(o, st)
	}
}

func randomTimes(r *rand.Rand, c *cli.Case) {
	c.Z = nil
	for _, l := range c.Lines {
		z := make([]int64, len(l))
		t := r.Int63n(1000) + 1 + []int64{0, 0, -600, -100000, 1 << 31}[r.Intn(5)]
		step := []int64{1, 3, 50, 2000}[r.Intn(4)]
		for i := range z {
			z[i] = t
			t += 1 + r.Int63n(step)
		}
		c.Z = append(c.Z, z)
	}
}

var specs = map[string]*sceneSpec{
	"C02": {
		rule:    "random and structured scenes (see generator) under random DP configurations; non-trivial: some dropped vertex is off the segment replacing it",
		assume:  []string{"oracle measures distances in float64 with relative slack 1e-9", "thresholds are >= 0"},
		oracles: []oracleFn{oracle.DistBound}, quick: 1500,
		cfg: func(r *rand.Rand, c *cli.Cfg) { c.Type = "DP" },
	},
	"C03": {
		rule:    "random trajectories with strictly increasing times under random SED configurations; non-trivial: some dropped vertex is away from its synchronised position",
		assume:  []string{"times strictly increase", "relative slack 1e-7"},
		oracles: []oracleFn{oracle.SEDBound}, quick: 1500,
		cfg: func(r *rand.Rand, c *cli.Cfg) {
			c.Type = "SED"
			if r.Intn(2) == 0 {
				c.ZScale = pick(r, 1.0/1024, 1.0/8, 0.5, 64)
			}
		},
		post: randomTimes,
	},
	"C05": {
		rule:    "polylines, mostly simple and folded close to themselves; non-trivial: hulls of chains that do not share an end point meet",
		assume:  []string{"exact integer intersection tests", "output segments that share an end point are not compared"},
		oracles: []oracleFn{oracle.NewSelf}, quick: 1600,
		cfg: func(r *rand.Rand, c *cli.Cfg) {
			c.Avoid = true
			if r.Intn(2) == 0 {
				c.Planar, c.NonPlanar = false, false
			}
		},
		scene: func(r *rand.Rand, c cli.Cfg, p *sceneParams) { p.simple = r.Intn(3) > 0 },
	},
	"C06": {
		rule:    "pairwise disjoint features (contours, nested rings, interdigitated combs, interleaved spirals, close lines); non-trivial: the bounding boxes of two features meet",
		assume:  []string{"exact integer intersection tests"},
		oracles: []oracleFn{oracle.FCDisjoint}, quick: 1600,
		cfg: func(r *rand.Rand, c *cli.Cfg) { c.FC, c.Avoid = true, true },
		scene: func(r *rand.Rand, c cli.Cfg, p *sceneParams) {
			p.features, p.disjoint = 2+r.Intn(5), true
		},
	},
	"C07": {
		rule:    "crossing lines and feature networks; non-trivial: two chains that do not share an end point intersect and at least one was replaced",
		assume:  []string{"exact integer intersection tests; displacement measured in float64 with relative slack 1e-7", "segments of one polyline that share an end point are not compared"},
		oracles: []oracleFn{oracle.SelfKept, fcOnly(oracle.FCCross)}, quick: 1600,
		cfg: func(r *rand.Rand, c *cli.Cfg) {
			c.Avoid = true
			c.FC = r.Intn(4) > 0
			if r.Intn(2) == 0 {
				c.Planar, c.NonPlanar = false, false
			}
		},
		scene: func(r *rand.Rand, c cli.Cfg, p *sceneParams) { p.disjoint = false },
	},
	"C08": {
		rule:    "polylines and networks with shared vertices; non-trivial: an interior vertex lies at a location used more than once",
		assume:  []string{"vertices coincide when their coordinates are equal"},
		oracles: []oracleFn{oracle.SharedVertices}, quick: 1600,
		cfg:   func(r *rand.Rand, c *cli.Cfg) { c.Planar = true; c.FC = r.Intn(3) > 0 },
		scene: func(r *rand.Rand, c cli.Cfg, p *sceneParams) { p.disjoint = false },
	},
	"C09": {
		rule:    "self-crossing polylines; non-trivial: segments cross and one of their end vertices is interior to the polyline",
		assume:  []string{"exact integer intersection tests"},
		oracles: []oracleFn{oracle.CrossingEnds}, quick: 1600,
		cfg:   func(r *rand.Rand, c *cli.Cfg) { c.Planar, c.NonPlanar = true, true },
		scene: func(r *rand.Rand, c cli.Cfg, p *sceneParams) { p.simple, p.disjoint = false, false },
	},
	"C10": {
		rule:    "polylines with point, line and polygon constraints on, near and around them; non-trivial: a constraint meets the chain or the hull of the chain an output segment replaces",
		assume:  []string{"exact integer intersection tests; polygons are closed regions minus the interiors of their holes"},
		oracles: []oracleFn{oracle.GeomRel, oracle.GeomRelWhole}, quick: 1600,
		cfg: func(r *rand.Rand, c *cli.Cfg) { c.Geom = true },
		scene: func(r *rand.Rand, c cli.Cfg, p *sceneParams) {
			p.cons = 1 + r.Intn(7)
			p.simple = r.Intn(2) == 0
		},
	},
	"C11": {
		rule:    "as C10; non-trivial: an output segment comes closer to a constraint than its chain without violating the minimum distance",
		assume:  []string{"distances in float64, relative slack 1e-9"},
		oracles: []oracleFn{oracle.DistRel}, quick: 1600,
		cfg: func(r *rand.Rand, c *cli.Cfg) {
			c.Dist = true
			c.MinDist = pick(r, 0.5, 1, 2.25, 3, 6, 10, 17.5, 40)
		},
		scene: func(r *rand.Rand, c cli.Cfg, p *sceneParams) { p.cons = 1 + r.Intn(7); p.consFree = r.Intn(3) > 0 },
	},
	"C12": {
		rule:    "polylines with constraints that do not touch them; non-trivial: a constraint lies in the hull of a chain that an output segment replaces",
		assume:  []string{"exact free-group words of the loop chain + segment around one interior point per constraint", "constraints touching the chain or the segment, and polygons with holes, are not compared"},
		oracles: []oracleFn{oracle.Homotopy}, quick: 1600,
		cfg: func(r *rand.Rand, c *cli.Cfg) { c.Homotopy = true },
		scene: func(r *rand.Rand, c cli.Cfg, p *sceneParams) {
			p.cons = 1 + r.Intn(7)
			p.consFree = r.Intn(4) > 0
			p.simple = r.Intn(2) == 0
		},
	},
}

// custom checks register themselves here
var custom = map[string]func(*run.R, *cli.Runner){}

func main() {
	R := run.Start("")
	bin, err := filepath.Abs(*binPath)
	if err != nil {
		panic(err)
	}
	rn := &cli.Runner{Bin: bin, Dir: R.Dir}
	if s, ok := specs[R.ID]; ok {
		s.run(R, rn)
	} else if f, ok := custom[R.ID]; ok {
		f(R, rn)
	} else {
		fmt.Println("unknown property", R.ID)
		os.Exit(2)
	}
	R.Finish()
}
