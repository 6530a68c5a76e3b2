package main

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"sync"

	"verifharness/cli"
	"verifharness/gen"
	"verifharness/geo"
	"verifharness/oracle"
)

type orc struct {
	name string
	f    func(*oracle.Obs, *oracle.Stats) string
	on   func(c cli.Cfg) bool
}

var orcs = []orc{
	{"dist", oracle.DistBound, func(c cli.Cfg) bool { return c.Type == "DP" }},
	{"sed", oracle.SEDBound, func(c cli.Cfg) bool { return c.Type == "SED" }},
	{"newself", oracle.NewSelf, func(c cli.Cfg) bool { return c.Avoid }},
	{"selfkept", oracle.SelfKept, func(c cli.Cfg) bool { return c.Avoid }},
	{"fcdisjoint", oracle.FCDisjoint, func(c cli.Cfg) bool { return c.FC && c.Avoid }},
	{"fccross", oracle.FCCross, func(c cli.Cfg) bool { return c.FC && c.Avoid }},
	{"shared", oracle.SharedVertices, func(c cli.Cfg) bool { return c.Planar }},
	{"crossends", oracle.CrossingEnds, func(c cli.Cfg) bool { return c.Planar && c.NonPlanar }},
	{"geomrel", oracle.GeomRel, func(c cli.Cfg) bool { return c.Geom }},
	{"geomwhole", oracle.GeomRelWhole, func(c cli.Cfg) bool { return c.Geom }},
	{"distrel", oracle.DistRel, func(c cli.Cfg) bool { return c.Dist }},
	{"homotopy", oracle.Homotopy, func(c cli.Cfg) bool { return c.Homotopy }},
}

func cfgR(r *rand.Rand) cli.Cfg {
	b := func() bool { return r.Intn(2) == 0 }
	c := cli.Cfg{Type: "DP", Threshold: float64([]int{0, 1, 3, 8, 20, 60, 200, 1000}[r.Intn(8)]), MinDist: float64([]int{0, 1, 3, 10, 40}[r.Intn(5)]),
		NPD: float64([]int{0, 1, 5, 20, 100}[r.Intn(5)]), FC: b(), Planar: b(), NonPlanar: b(), Avoid: b(), Geom: b(), Dist: b(), Homotopy: b()}
	if r.Intn(5) == 0 {
		c.Type = "SED"
	}
	if r.Intn(2) == 0 {
		c.Repr = 1 + r.Int63n(1000)
	}
	if r.Intn(2) == 0 {
		c.Scale = []float64{1.0 / 1024, 1.0 / 64, 0.5, 16, 1024}[r.Intn(5)]
		c.OX = float64([]int{-40000, -1500, 1 << 20, 3000000}[r.Intn(4)])
		c.OY = float64([]int{-20000, 700, 1 << 20, 5000000}[r.Intn(4)])
	}
	return c
}

func scene(r *rand.Rand, fc bool) *cli.Case {
	c := &cli.Case{}
	k := 1
	if fc || r.Intn(3) == 0 {
		k = 1 + r.Intn(5)
	}
	mn := []int{6, 12, 25, 50}[r.Intn(4)]
	switch {
	case k > 1 && r.Intn(2) == 0:
		c.Lines = gen.Disjoint(r, k, mn)
	case k > 1:
		c.Lines = gen.Network(r, k, mn)
	case r.Intn(3) > 0:
		c.Lines = gen.Norm([]geo.Chain{gen.SimpleLine(r, mn)})
	default:
		c.Lines = gen.Norm([]geo.Chain{gen.AnyLine(r, mn)})
	}
	nc := r.Intn(7)
	dis := r.Intn(2) == 0
	for i := 0; i < nc; i++ {
		if dis {
			if g, ok := gen.DisjointConstraint(r, c.Lines); ok {
				c.Cons = append(c.Cons, g)
			}
		} else {
			c.Cons = append(c.Cons, gen.Constraint(r, c.Lines))
		}
	}
	return c
}

func main() {
	bin := flag.String("bin", "", "")
	n := flag.Int("n", 100, "")
	seed := flag.Int64("seed", 1, "")
	only := flag.String("only", "", "")
	show := flag.Int("show", 1, "")
	flag.Parse()
	dir, _ := os.MkdirTemp("", "explore")
	defer os.RemoveAll(dir)
	rn := &cli.Runner{Bin: *bin, Dir: dir}
	var mu sync.Mutex
	counts := map[string]int{}
	trig := map[string]*oracle.Stats{}
	shown := map[string]int{}
	var wg sync.WaitGroup
	jobs := make(chan int)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				r := rand.New(rand.NewSource(*seed*1000003 + int64(j)))
				cfg := cfgR(r)
				var cs []*cli.Case
				for t := 0; t < 48; t++ {
					cs = append(cs, scene(r, cfg.FC))
				}
				kept, e := rn.RunCases(cfg, cs)
				if e != nil {
					mu.Lock()
					counts["RUN"]++
					sh := shown["RUN"]
					shown["RUN"]++
					mu.Unlock()
					if sh < *show {
						f := func(c *cli.Case) string {
							_, e := rn.RunCases(cfg, []*cli.Case{c})
							if e != nil {
								return e.Error()
							}
							return ""
						}
						for _, c := range cs {
							if f(c) != "" {
								c = cli.Shrink(c, f)
								fmt.Printf("RUN job %d cfg %v\n%s%s\n", j, cfg, c.Text(), f(c))
								break
							}
						}
						fmt.Println("RUN error", j, e.Error()[:min(300, len(e.Error()))])
					}
					continue
				}
				for _, o := range orcs {
					if !o.on(cfg) || *only != "" && *only != o.name {
						continue
					}
					for t, c := range cs {
						st := &oracle.Stats{}
						msg := o.f(&oracle.Obs{Cfg: cfg, Case: c, Kept: kept[t]}, st)
						mu.Lock()
						if trig[o.name] == nil {
							trig[o.name] = &oracle.Stats{}
						}
						trig[o.name].Checks += st.Checks
						trig[o.name].Trigger += st.Trigger
						if msg != "" {
							counts[o.name]++
						}
						sh := shown[o.name]
						if msg != "" {
							shown[o.name]++
						}
						mu.Unlock()
						if msg != "" && sh < *show {
							f := func(c *cli.Case) string {
								k, e := rn.RunCases(cfg, []*cli.Case{c})
								if e != nil {
									return ""
								}
								return o.f(&oracle.Obs{Cfg: cfg, Case: c, Kept: k[0]}, &oracle.Stats{})
							}
							s := c
							m := f(c)
							if m != "" {
								s = cli.Shrink(c, f)
								m = f(s)
							}
							mu.Lock()
							fmt.Printf("== %s job %d tile %d cfg %v\n%s", o.name, j, t, cfg, s.Text())
							k, _ := rn.RunCases(cfg, []*cli.Case{s})
							fmt.Printf("kept %v\n%s (orig: %s)\n", k, m, msg)
							mu.Unlock()
						}
					}
				}
			}
		}()
	}
	for j := 0; j < *n; j++ {
		jobs <- j
	}
	close(jobs)
	wg.Wait()
	var names []string
	for k := range trig {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		fmt.Printf("%-12s checks %9d trigger %9d violations(scenes) %d\n", k, trig[k].Checks, trig[k].Trigger, counts[k])
	}
	fmt.Println("RUN errors", counts["RUN"], "of", *n)
}
