package main

import (
	"fmt"
	"math/rand"
	"os/exec"
	"reflect"
	"strings"

	"verifharness/cli"
	"verifharness/gen"
	"verifharness/geo"
	"verifharness/run"
)

func init() {
	custom["C14"] = isolation
	custom["C15"] = inert
	custom["C16"] = deterministic
	custom["C20"] = placement
}

// one runs the cases and reports unusable executions.
func one(R *run.R, rn *cli.Runner, cfg cli.Cfg, cs []*cli.Case) ([][]cli.Kept, bool) {
	kept, e := rn.RunCases(cfg, cs)
	R.Count("program runs", 1)
	if e != nil {
		runErr(R, rn, cfg, cs, e)
		return nil, false
	}
	return kept, true
}

// metamorphic runs scenes in two ways and compares what was kept.
// vary returns the second execution of a case: kept, in the order of the original lines.
func differs(a, b []cli.Kept) string {
	for l := range a {
		if !reflect.DeepEqual(a[l], b[l]) {
			return fmt.Sprintf("line %d: kept %v, but %v", l, a[l], b[l])
		}
	}
	return ""
}

func sub(c *cli.Case, idx []int) *cli.Case {
	o := &cli.Case{Kind: c.Kind, Cons: c.Cons}
	for _, i := range idx {
		o.Lines = append(o.Lines, c.Lines[i])
		if c.Z != nil {
			o.Z = append(o.Z, c.Z[i])
		}
	}
	return o
}

func reduced(ks []cli.Kept, cs []*cli.Case, t int) bool {
	for l, k := range ks {
		if len(k) > 2 && len(k) < len(cs[t].Lines[l]) {
			return true
		}
	}
	return false
}

func isolation(R *run.R, rn *cli.Runner) {
	R.Rule = "(a) feature class off: interacting lines simplified together, in another order and in random subsets; (b) feature class on: another order, and the scene alone against the scene packed with far away ones; non-trivial: lines of the scene have meeting bounding boxes and some vertex was kept between dropped ones"
	R.Assume = []string{"far away: at least a thousand units, more than any distance in the configuration"}
	n := R.N(900, 6000)
	R.Parallel(n, func(j int, r *rand.Rand) {
		cfg := randCfg(r)
		cfg.FC = j%2 == 0
		var cs []*cli.Case
		for t := 0; t < 16; t++ {
			p := sceneParams{features: 2 + r.Intn(4), cons: r.Intn(4), consMix: true, disjoint: r.Intn(2) == 0}
			cs = append(cs, makeCase(r, p, t == 15 && j%4 < 2))
		}
		if cfg.Type == "SED" {
			for _, c := range cs {
				randomTimes(r, c)
			}
		}
		base, ok := one(R, rn, cfg, cs)
		if !ok {
			return
		}
		// another order, all scenes at once
		perms := make([][]int, len(cs))
		var ps []*cli.Case
		for t, c := range cs {
			perms[t] = r.Perm(len(c.Lines))
			ps = append(ps, sub(c, perms[t]))
		}
		got, ok := one(R, rn, cfg, ps)
		if !ok {
			return
		}
		for t := range cs {
			R.Eval(1)
			ks := make([]cli.Kept, len(perms[t]))
			for k, i := range perms[t] {
				ks[i] = got[t][k]
			}
			if m := differs(base[t], ks); m != "" {
				c := cs[t]
				shrunk(R, cfg, c, "depends on the order of the input lines: "+m, func(c *cli.Case) string {
					a, e := rn.RunCases(cfg, []*cli.Case{c})
					if e != nil {
						return ""
					}
					for seed := int64(0); seed < 6; seed++ {
						q := rand.New(rand.NewSource(seed)).Perm(len(c.Lines))
						b, e := rn.RunCases(cfg, []*cli.Case{sub(c, q)})
						if e != nil {
							return ""
						}
						ks := make([]cli.Kept, len(q))
						for k, i := range q {
							ks[i] = b[0][k]
						}
						if m := differs(a[0], ks); m != "" {
							return "depends on the order of the input lines: " + m
						}
					}
					return ""
				})
				return
			}
			if reduced(base[t], cs, t) && len(cs[t].Lines) > 1 {
				txt := cs[t].Text()
				R.Nontrivial(cfg.String() + txt)
				if len(txt) < 600 {
					R.Sample(map[string]interface{}{"config": cfg.String(), "scene": txt, "order": perms[t], "kept": base[t]})
				}
			}
		}
		// alone
		for t := 0; t < len(cs); t += 3 {
			c := cs[t]
			idx := []int{}
			for i := range c.Lines {
				if cfg.FC || r.Intn(2) == 0 {
					idx = append(idx, i)
				}
			}
			if len(idx) == 0 {
				continue
			}
			// at the same place, so that rounding is the same
			alone := make([]*cli.Case, t+1)
			for i := range alone {
				alone[i] = &cli.Case{}
			}
			alone[t] = sub(c, idx)
			ks1, ok := one(R, rn, cfg, alone)
			if !ok {
				return
			}
			a := ks1[t:]
			R.Eval(1)
			R.Count("scenes run alone", 1)
			ks := make([]cli.Kept, len(idx))
			for k, i := range idx {
				ks[k] = base[t][i]
			}
			if m := differs(ks, a[0]); m != "" {
				R.Violate(fmt.Sprintf("together with others, then alone (lines %v): %s\nconfig: %v\n%s", idx, m, cfg, c.Text()), replayOf(cfg, cs))
				return
			}
		}
	})
}

func inert(R *run.R, rn *cli.Runner) {
	R.Rule = "the same lines with (a) all constraint relations off: with and without a constraint file; (b) relations on: constraints reordered, repeated, and joined by far away ones; non-trivial: a constraint meets the hull of a dropped chain (a) or some vertex was kept between dropped ones (b)"
	R.Assume = []string{"far away: at least a thousand units, more than any distance in the configuration"}
	n := R.N(900, 8000)
	R.Parallel(n, func(j int, r *rand.Rand) {
		cfg := randCfg(r)
		off := j%3 == 0
		if off {
			cfg.Geom, cfg.Dist, cfg.Homotopy = false, false, false
		} else if !(cfg.Geom || cfg.Dist || cfg.Homotopy) {
			cfg.Homotopy = true
		}
		var cs, vs []*cli.Case
		for t := 0; t < 24; t++ {
			p := sceneParams{features: 1, cons: 1 + r.Intn(8), consMix: true}
			if cfg.FC {
				p.features = 1 + r.Intn(3)
			}
			c := makeCase(r, p, t == 0 && j%4 == 0)
			if cfg.Type == "SED" {
				randomTimes(r, c)
			}
			cs = append(cs, c)
			vs = append(vs, c.Clone())
		}
		base, ok := one(R, rn, cfg, cs)
		if !ok {
			return
		}
		what := "without constraints"
		vary := func(r *rand.Rand, v *cli.Case) {
			if off {
				v.Cons = nil
				return
			}
			what = "with reordered, repeated and additional far constraints"
			var o []geo.Geom
			for _, k := range r.Perm(len(v.Cons)) {
				o = append(o, v.Cons[k])
				if r.Intn(3) == 0 {
					o = append(o, v.Cons[k])
				}
			}
			v.Cons = o
		}
		for t := range vs {
			vary(r, vs[t])
		}
		if !off {
			// a ring of far constraints, none within reach of any scene
			far := vs[0]
			for k := 0; k < 1+r.Intn(20); k++ {
				g := gen.Constraint(r, []geo.Chain{{{X: 0, Y: 0}, {X: 200, Y: 200}}})
				dx, dy := int64(-4000-r.Intn(3000)), int64(r.Intn(60000))
				if r.Intn(2) == 0 {
					dx, dy = dy, dx
				}
				far.Cons = append(far.Cons, g.Shift(dx, dy))
			}
		}
		got, ok := one(R, rn, cfg, vs)
		if !ok {
			return
		}
		for t := range cs {
			R.Eval(1)
			if m := differs(base[t], got[t]); m != "" {
				shrunk(R, cfg, cs[t], what+": "+m, func(c *cli.Case) string {
					a, e := rn.RunCases(cfg, []*cli.Case{c})
					if e != nil {
						return ""
					}
					for seed := int64(0); seed < 6; seed++ {
						v := c.Clone()
						vary(rand.New(rand.NewSource(seed)), v)
						b, e := rn.RunCases(cfg, []*cli.Case{v})
						if e != nil {
							return ""
						}
						if m := differs(a[0], b[0]); m != "" {
							return what + ": " + m
						}
					}
					return ""
				})
				return
			}
			if reduced(base[t], cs, t) && len(cs[t].Cons) > 0 {
				txt := cs[t].Text()
				R.Nontrivial(cfg.String() + txt)
				R.Count(what, 1)
				if len(txt) < 600 {
					R.Sample(map[string]interface{}{"config": cfg.String(), "scene": txt, "variant": vs[t].Text(), "kept": base[t]})
				}
			}
		}
	})
}

func deterministic(R *run.R, rn *cli.Runner) {
	R.Rule = "the same files run repeatedly under different processor counts and concurrent load; the output files are compared byte by byte; non-trivial: some vertex was kept between dropped ones and the run had at least two lines"
	R.Assume = []string{"the schedule is varied by processor affinity, load and repetition, not enumerated"}
	var wraps [][]string
	wraps = append(wraps, nil)
	if _, err := exec.LookPath("taskset"); err == nil {
		for _, m := range []string{"1", "3", "f"} {
			if exec.Command("taskset", m, "/bin/true").Run() == nil {
				wraps = append(wraps, []string{"taskset", m})
			}
		}
	}
	n := R.N(900, 6000)
	reps := 5
	R.Parallel(n, func(j int, r *rand.Rand) {
		cfg := randCfg(r)
		cfg.FC = r.Intn(4) > 0
		var cs []*cli.Case
		tiles := 6
		if j%4 == 0 {
			tiles = 2
		}
		for t := 0; t < tiles; t++ {
			p := sceneParams{features: 3 + r.Intn(6), cons: r.Intn(5), consMix: true, disjoint: r.Intn(2) == 0}
			c := makeCase(r, p, j%4 == 0)
			if cfg.Type == "SED" {
				randomTimes(r, c)
			}
			cs = append(cs, c)
		}
		in, cons := cfg.PackText(cs)
		var first cli.Result
		for k := 0; k < reps; k++ {
			q := *rn
			q.Wrap = wraps[(j+k)%len(wraps)]
			if r.Intn(4) == 0 {
				q.Env = []string{"GOGC=5"}
			}
			res := q.RunFiles(cfg, in, cons, cons != "", k%2 == 1)
			R.Count("program runs", 1)
			if res.TimedOut {
				R.Inconclusive("wall-clock watchdog")
				return
			}
			if k == 0 {
				first = res
				kept, e := cfg.Observe(res, cs)
				if e != nil {
					runErr(R, rn, cfg, cs, e)
					return
				}
				for t := range cs {
					if reduced(kept[t], cs, t) {
						R.Nontrivial(cfg.String() + in + cons)
					}
				}
				continue
			}
			R.Eval(1)
			if res.Exit != first.Exit || res.Output != first.Output {
				R.Violate(fmt.Sprintf("run %d differs from run 0 on the same files\nconfig: %v\nrun 0: exit %d\n%s\nrun %d: exit %d %s\n%s", k, cfg, first.Exit, clip(first.Output), k, res.Exit, tailOf(res.Stderr), clip(res.Output)), replayOf(cfg, cs))
				return
			}
		}
		if len(in) < 900 {
			R.Sample(map[string]interface{}{"config": cfg.String(), "input": in, "runs": reps})
		}
	})
	R.Count("affinity settings", len(wraps))
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

// placement: where the data lies, in which unit it is measured and how it is written down
// does not change which vertices are kept.
func placement(R *run.R, rn *cli.Runner) {
	R.Rule = "the same scene translated, scaled by a power of two, and with lines and constraints written as bare geometries, features and parts of Multi geometries; vertices are jittered on a 1/64 grid so that ties are absent; non-trivial: some vertex was kept between dropped ones"
	R.Assume = []string{"coordinates stay exactly representable", "scenes are jittered, so comparisons do not hang on rounding"}
	n := R.N(900, 8000)
	R.Parallel(n, func(j int, r *rand.Rand) {
		cfg := randCfg(r)
		cfg.Scale, cfg.OX, cfg.OY, cfg.Repr = 1.0/64, 0, 0, 0
		cfg.Threshold = (cfg.Threshold + 0.0137) * 64
		cfg.MinDist = (cfg.MinDist + 0.0119) * 64
		cfg.NPD = (cfg.NPD + 0.0171) * 64
		var cs []*cli.Case
		for t := 0; t < 5; t++ {
			p := sceneParams{features: 1, cons: r.Intn(5), consMix: true}
			if cfg.FC {
				p.features = 1 + r.Intn(4)
				p.disjoint = r.Intn(2) == 0
			}
			c := makeCase(r, p, false)
			if cfg.Type == "SED" {
				randomTimes(r, c)
			}
			cs = append(cs, jitter(r, c))
		}
		run1 := func(cfg cli.Cfg, c *cli.Case) ([]cli.Kept, *cli.RunErr) {
			k, e := rn.RunCases(cfg, []*cli.Case{c})
			if e != nil {
				return nil, e
			}
			return k[0], nil
		}
		variant := cfg
		variant.Scale = pick(r, 1.0/64, 1.0/64, 1.0/2048, 1.0/4, 8, 1.0/(1<<14), 1.0/(1<<16), 1<<10)
		variant.OX = pick(r, 0, 64*1000, -64*77777, 64*3000000+13)
		variant.OY = pick(r, 0, -64*1000, 64*5000, 64*4500000+7)
		if variant.Scale < 1.0/2048 || variant.Scale > 8 { // the geometry library compares coordinates to 1e-12
			variant.OX, variant.OY = 0, 0
		}
		variant.Repr = 1 + r.Int63n(1<<30)
		for _, c := range cs {
			a, e := run1(cfg, c)
			R.Count("program runs", 2)
			if e != nil {
				runErr(R, rn, cfg, []*cli.Case{c}, e)
				return
			}
			b, e := run1(variant, c)
			if e != nil {
				runErr(R, rn, variant, []*cli.Case{c}, e)
				return
			}
			R.Eval(1)
			if m := differs(a, b); m != "" {
				shrunk(R, cfg, c, fmt.Sprintf("variant %v: %s", variant, m), func(c *cli.Case) string {
					a, e := run1(cfg, c)
					if e != nil {
						return ""
					}
					b, e := run1(variant, c)
					if e != nil {
						return ""
					}
					if m := differs(a, b); m != "" {
						return fmt.Sprintf("variant %v: %s", variant, m)
					}
					return ""
				})
				return
			}
			// the same lines as parts of one MultiLineString
			if len(c.Lines) > 0 && j%2 == 0 {
				if m := asMulti(rn, cfg, c, a); m != "" {
					R.Violate(fmt.Sprintf("%s\nconfig: %v\n%s", m, cfg, c.Text()), replayOf(cfg, []*cli.Case{c}))
					return
				}
				R.Count("scenes written as one multi-part feature", 1)
			}
			for l, k := range a {
				if len(k) > 2 && len(k) < len(c.Lines[l]) {
					txt := c.Text()
					R.Nontrivial(cfg.String() + txt)
					if len(txt) < 500 {
						R.Sample(map[string]interface{}{"config": cfg.String(), "variant": variant.String(), "scene": txt, "kept": a})
					}
					break
				}
			}
		}
	})
}

func asMulti(rn *cli.Runner, cfg cli.Cfg, c *cli.Case, want []cli.Kept) string {
	var parts []string
	for l := range c.Lines {
		l := l
		js := cfg.LineJSON(c.Lines[l], func(i int) int64 { return c.ZAt(l, i) })
		parts = append(parts, js[strings.Index(js, "["):len(js)-1])
	}
	in := `{"type":"MultiLineString","coordinates":[` + strings.Join(parts, ",") + `]}`
	cons := cfg.ConsText(c.Cons)
	res := rn.RunFiles(cfg, in, cons, cons != "", false)
	fs, err := cli.Parse(res.Output)
	if res.Exit != 0 || err != nil || len(fs) != 1 {
		return fmt.Sprintf("as one MultiLineString: exit %d, %v, %d features: %s", res.Exit, err, len(fs), tailOf(res.Stderr))
	}
	f := fs[0]
	var raw [][][]float64
	if len(c.Lines) == 1 {
		l, err := f.Line()
		if err != nil {
			return err.Error()
		}
		raw = append(raw, l)
	} else if raw, err = f.Multi(); err != nil {
		return err.Error()
	}
	if len(raw) != len(c.Lines) {
		return fmt.Sprintf("as one MultiLineString: %d parts became %d", len(c.Lines), len(raw))
	}
	for l := range c.Lines {
		g := f
		g.Geometry.Type = "LineString"
		g.Geometry.Coordinates = []byte(rawJSON(raw[l]))
		k, err := cfg.Match(&g, c, l, 0, 0)
		if err != nil {
			return err.Error()
		}
		if !reflect.DeepEqual(k, want[l]) {
			return fmt.Sprintf("line %d: kept %v, but %v as part of one MultiLineString", l, want[l], k)
		}
	}
	return ""
}

// jitter moves every distinct location to a random place on a 64 times finer grid; equal
// locations stay equal.
func jitter(r *rand.Rand, c *cli.Case) *cli.Case {
	to := map[geo.P]geo.P{}
	mv := func(p geo.P) geo.P {
		q, ok := to[p]
		if !ok {
			q = geo.P{X: p.X*64 + int64(r.Intn(31)), Y: p.Y*64 + int64(r.Intn(31))}
			to[p] = q
		}
		return q
	}
	all := func(ch geo.Chain) geo.Chain {
		var o geo.Chain
		for _, p := range ch {
			o = append(o, mv(p))
		}
		return o
	}
	o := &cli.Case{Kind: c.Kind, Z: c.Z}
	for _, l := range c.Lines {
		o.Lines = append(o.Lines, all(l))
	}
	for _, g := range c.Cons {
		h := geo.Geom{Kind: g.Kind, Pts: all(g.Pts)}
		if len(g.Pts) == 0 {
			h.Pts = nil
		}
		for _, ring := range g.Rings {
			h.Rings = append(h.Rings, all(ring))
		}
		ok := true
		for _, ring := range h.Rings {
			ok = ok && gen.IsSimple(ring)
		}
		if ok {
			o.Cons = append(o.Cons, h)
		}
	}
	return o
}
