package main

import (
	"fmt"
	"math/rand"

	"verifharness/cli"
	"verifharness/gen"
	"verifharness/geo"
	"verifharness/oracle"
	"verifharness/run"
)

type oracleFn func(*oracle.Obs, *oracle.Stats) string

// sceneSpec: a property decided scene by scene on what the program kept.
type sceneSpec struct {
	rule    string
	assume  []string
	oracles []oracleFn
	cfg     func(r *rand.Rand, c *cli.Cfg)                // adjusts a random configuration
	scene   func(r *rand.Rand, c cli.Cfg, p *sceneParams) // adjusts the scene parameters
	post    func(r *rand.Rand, c *cli.Case)
	quick   int  // jobs
	all     bool // every scene counts as non-trivial
}

type sceneParams struct {
	features int  // 1 ..
	disjoint bool // pairwise disjoint simple features
	simple   bool // simple lines
	cons     int
	consFree bool // constraints do not touch the lines
	consMix  bool // random mix of both
}

func pick(r *rand.Rand, v ...float64) float64 { return v[r.Intn(len(v))] }

func pickI(r *rand.Rand, v ...int) int { return v[r.Intn(len(v))] }

func randCfg(r *rand.Rand) cli.Cfg {
	b := func() bool { return r.Intn(2) == 0 }
	c := cli.Cfg{Type: "DP", Threshold: pick(r, 0, 1, 3, 8, 20, 60, 200, 1000), MinDist: pick(r, 0, 1, 3, 10, 40),
		NPD: pick(r, 0, 1, 5, 20, 100), FC: b(), Planar: b(), NonPlanar: b(), Avoid: b(), Geom: b(), Dist: b(), Homotopy: b()}
	if r.Intn(3) == 0 {
		c.Threshold = float64(r.Intn(400)) / 4
	}
	if r.Intn(5) == 0 {
		c.Type = "SED"
	}
	if r.Intn(3) > 0 {
		c.Repr = 1 + r.Int63n(1<<30)
	}
	if r.Intn(3) == 0 {
		c.Scale = pick(r, 1.0/1024, 1.0/64, 0.5, 1, 16, 1024)
		c.OX = pick(r, -40000, -1500, 0, 1<<20, 3000000)
		c.OY = pick(r, -20000, 700, 0, 1<<20, 5000000)
		if r.Intn(3) == 0 { // far away, with a fine grid
			c.Scale = pick(r, 1.0/1024, 1.0/256, 1.0/64)
			c.OX = pick(r, -1<<27, 1<<25+1, 1<<28+12345, 300000001)
			c.OY = pick(r, 0, 1<<26, 1<<27+1, -500000001)
		} else if c.OX == 0 && c.Scale < 1 { // degrees: a small scene near the origin
			c.Scale, c.OY = 1.0/(1<<14), 0
		}
	}
	if r.Intn(4) == 0 {
		c.ZScale = pick(r, 1.0/1024, 1.0/8, 0.5, 64)
	}
	return c
}

func makeCase(r *rand.Rand, p sceneParams, big bool) *cli.Case {
	c := &cli.Case{}
	mn := []int{6, 12, 25, 50}[r.Intn(4)]
	switch {
	case big && p.features > 1:
		c.Lines = gen.Field(r, 6+r.Intn(22), []int{8, 16, 30}[r.Intn(3)], p.disjoint)
		c.Kind = "field"
	case big:
		n := 100 + r.Intn(500)
		if p.simple || r.Intn(2) == 0 {
			c.Lines = gen.Norm([]geo.Chain{gen.BigSimple(r, n)})
			c.Kind = "long simple line"
		} else {
			c.Lines = gen.Norm([]geo.Chain{gen.BigAny(r, n)})
			c.Kind = "long line"
		}
	case p.features > 1 && p.disjoint:
		c.Lines = gen.Disjoint(r, p.features, mn)
		c.Kind = "disjoint features"
	case p.features > 1:
		c.Lines = gen.Network(r, p.features, mn)
		c.Kind = "network"
	case p.simple || r.Intn(2) == 0:
		c.Lines = gen.Norm([]geo.Chain{gen.SimpleLine(r, mn)})
		c.Kind = "simple line"
	default:
		c.Lines = gen.Norm([]geo.Chain{gen.AnyLine(r, mn)})
		c.Kind = "line"
	}
	nc := p.cons
	if big {
		nc *= 6
	}
	if nc > 0 && r.Intn(10) == 0 {
		c.Cons = gen.Crowd(r, c.Lines)
		if r.Intn(2) == 0 {
			return c
		}
	}
	for i := 0; i < nc; i++ {
		if p.consFree || p.consMix && r.Intn(2) == 0 {
			if g, ok := gen.DisjointConstraint(r, c.Lines); ok {
				c.Cons = append(c.Cons, g)
			}
		} else {
			c.Cons = append(c.Cons, gen.Constraint(r, c.Lines))
		}
	}
	if n := len(c.Cons); n > 0 && !p.consFree { // another one of the same extent
		q := rand.New(rand.NewSource(int64(n)<<40 ^ c.Cons[0].Any().X<<20 ^ c.Cons[0].Any().Y))
		if i := q.Intn(n); q.Intn(5) == 0 && c.Cons[i].Kind != "Point" {
			c.Cons = append(c.Cons, c.Cons[i].Mirror())
			k := q.Intn(n + 1)
			c.Cons[k], c.Cons[n] = c.Cons[n], c.Cons[k]
		}
	}
	return c
}

func (s *sceneSpec) job(j int, r *rand.Rand) (cli.Cfg, []*cli.Case) {
	cfg := randCfg(r)
	s.cfg(r, &cfg)
	big := j%8 == 7
	tiles := 40
	if big {
		tiles = 2
	}
	var cs []*cli.Case
	for t := 0; t < tiles; t++ {
		p := sceneParams{features: 1, cons: r.Intn(5), consMix: true}
		if cfg.FC || r.Intn(4) == 0 {
			p.features = 1 + r.Intn(5)
			p.disjoint = r.Intn(2) == 0
		}
		if !(cfg.Geom || cfg.Dist || cfg.Homotopy) && r.Intn(2) == 0 {
			p.cons = 0
		}
		if s.scene != nil {
			s.scene(r, cfg, &p)
		}
		c := makeCase(r, p, big)
		if s.post != nil {
			s.post(r, c)
		}
		cs = append(cs, c)
	}
	return cfg, cs
}

func replayOf(cfg cli.Cfg, cs []*cli.Case) map[string]interface{} {
	in, cons := cfg.PackText(cs)
	return map[string]interface{}{"config": string(cfg.JSON()), "input": in, "constraints": cons}
}

// shrunk reduces the failing scene and reports it.
func shrunk(R *run.R, cfg cli.Cfg, c *cli.Case, msg string, f func(*cli.Case) string) {
	if m := f(c); m != "" {
		c = cli.Shrink(c, f)
		msg = f(c)
	} else {
		msg += " (only when run together with other scenes)"
	}
	R.Violate(fmt.Sprintf("%s\nconfig: %v\n%s", msg, cfg, c.Text()), replayOf(cfg, []*cli.Case{c}))
}

// runErr reports an execution that produced nothing to judge.
func runErr(R *run.R, rn *cli.Runner, cfg cli.Cfg, cs []*cli.Case, e *cli.RunErr) {
	if e.Inconclusive {
		R.Inconclusive(e.Error())
		return
	}
	if !e.CPUOut {
		f := func(c *cli.Case) string {
			if _, e := rn.RunCases(cfg, []*cli.Case{c}); e != nil {
				return e.Error()
			}
			return ""
		}
		for _, c := range cs {
			if f(c) != "" {
				shrunk(R, cfg, c, e.Error(), f)
				return
			}
		}
	}
	R.Violate(fmt.Sprintf("%s\nconfig: %v", e.Error(), cfg), replayOf(cfg, cs))
}

func (s *sceneSpec) run(R *run.R, rn *cli.Runner) {
	R.Rule = s.rule
	R.Assume = s.assume
	n := R.N(s.quick, s.quick*10)
	R.Parallel(n, func(j int, r *rand.Rand) {
		cfg, cs := s.job(j, r)
		kept, e := rn.RunCases(cfg, cs)
		R.Count("program runs", 1)
		if e != nil {
			runErr(R, rn, cfg, cs, e)
			return
		}
		for t, c := range cs {
			R.Eval(1)
			for k, l := range c.Lines {
				R.Count("vertices in", len(l))
				R.Count("vertices kept", len(kept[t][k]))
			}
			R.Count("scenes: "+c.Kind, 1)
			st := &oracle.Stats{}
			for _, o := range s.oracles {
				o := o
				if msg := o(&oracle.Obs{Cfg: cfg, Case: c, Kept: kept[t]}, st); msg != "" {
					shrunk(R, cfg, c, msg, func(c *cli.Case) string {
						k, e := rn.RunCases(cfg, []*cli.Case{c})
						if e != nil {
							return ""
						}
						return o(&oracle.Obs{Cfg: cfg, Case: c, Kept: k[0]}, &oracle.Stats{})
					})
					return
				}
			}
			R.Count("oracle comparisons", st.Checks)
			R.Count("comparisons with something to protect", st.Trigger)
			if st.Trigger > 0 || s.all {
				txt := c.Text()
				R.Nontrivial(cfg.String() + txt)
				if len(txt) < 600 {
					R.Sample(map[string]interface{}{"config": cfg.String(), "scene": txt, "kept": kept[t]})
				}
			}
		}
	})
}
