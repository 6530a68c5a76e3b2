package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	"verifharness/cli"
	"verifharness/gen"
	"verifharness/run"
)

func init() {
	custom["C01"] = verbatim
}

func ff(x float64) string { return strconv.FormatFloat(x, 'g', -1, 64) }

// rawLine draws a polyline of arbitrary doubles, 2D or 3D.
func rawLine(r *rand.Rand) [][]float64 {
	src := gen.AnyLine(r, []int{4, 8, 20, 60, 150}[r.Intn(5)])
	if r.Intn(12) == 0 {
		src = src[:2]
	}
	sx := pick(r, 1, 0.1, 1e-6, 1.0/3, 1234.5678, 1e6)
	ox, oy := pick(r, 0, -0.5, 1e6/7, -12345678.9), pick(r, 0, 0.3, 4502116.1380905)
	jit := pick(r, 0, 0, 1e-9, 0.01, 0.7)
	zk := r.Intn(5)
	z := r.NormFloat64()*100 + pick(r, 0, 0, 1.5e9, 1.5e12, -3e6)
	flat := pick(r, 42.125, -7.5, 2.5e6, 1.7e9, 0.001)
	var out [][]float64
	for i, p := range src {
		x := (float64(p.X)+jit*r.Float64())*sx + ox
		y := (float64(p.Y)+jit*r.Float64())*sx + oy
		switch zk {
		case 0: // 2D
			out = append(out, []float64{x, y})
		case 1: // increasing times
			z += r.Float64()*1000 + 0.001
			out = append(out, []float64{x, y, z})
		case 2: // arbitrary heights
			out = append(out, []float64{x, y, math.Round(r.NormFloat64()*1e6) / 128})
		case 3: // constant height
			out = append(out, []float64{x, y, flat})
		case 4: // heights, many of them zero
			out = append(out, []float64{x, y, float64(r.Intn(2) * (i + 1))})
		}
	}
	return out
}

func rawJSON(c [][]float64) string {
	var parts []string
	for _, p := range c {
		var q []string
		for _, v := range p {
			q = append(q, ff(v))
		}
		parts = append(parts, "["+strings.Join(q, ",")+"]")
	}
	return "[" + strings.Join(parts, ",") + "]"
}

func zOf(p []float64) float64 {
	if len(p) > 2 {
		return p[2]
	}
	return 0
}

// subsequence: out is in, minus interior vertices, every coordinate unchanged.
func subsequence(in, out [][]float64) string {
	same := func(a, b []float64) bool { return a[0] == b[0] && a[1] == b[1] && zOf(a) == zOf(b) }
	if len(out) < 2 {
		return fmt.Sprintf("%d output vertices", len(out))
	}
	for _, p := range out {
		if len(p) != 2 && len(p) != 3 || len(p) != len(out[0]) {
			return fmt.Sprintf("output vertex %v has an odd number of coordinates", p)
		}
	}
	if !same(in[0], out[0]) {
		return fmt.Sprintf("the first vertex %v became %v", in[0], out[0])
	}
	if !same(in[len(in)-1], out[len(out)-1]) {
		return fmt.Sprintf("the last vertex %v became %v", in[len(in)-1], out[len(out)-1])
	}
	i := 1
	for k := 1; k+1 < len(out); k++ {
		for i < len(in)-1 && !same(in[i], out[k]) {
			i++
		}
		if i >= len(in)-1 {
			return fmt.Sprintf("output vertex %d %v is not an input vertex following the ones before it", k, out[k])
		}
		i++
	}
	return ""
}

func verbatim(R *run.R, rn *cli.Runner) {
	R.Rule = "polylines of arbitrary doubles (2D, 3D with times, arbitrary, constant or partly zero third coordinates) under random configurations and constraints; non-trivial: some interior vertex was dropped and some kept"
	R.Assume = []string{"a missing third coordinate counts as 0", "SED inputs have increasing times"}
	n := R.N(2500, 16000)
	R.Parallel(n, func(j int, r *rand.Rand) {
		cfg := randCfg(r)
		cfg.Scale, cfg.OX, cfg.OY, cfg.Repr = 0, 0, 0, 0
		var lines [][][]float64
		m := 1 + r.Intn(12)
		for len(lines) < m {
			l := rawLine(r)
			if cfg.Type == "SED" {
				for i := range l {
					l[i] = []float64{l[i][0], l[i][1], 1 + float64(i)*1.5}
				}
			}
			lines = append(lines, l)
		}
		cfg.Threshold *= pick(r, 1, 1, 0.01, 1e-6, 1000)
		var in, cons []string
		for _, l := range lines {
			g := `{"type":"LineString","coordinates":` + rawJSON(l) + `}`
			if r.Intn(2) == 0 {
				g = cli.FeatJSON(g, "{}")
			}
			in = append(in, g)
			for k := r.Intn(3); k > 0; k-- {
				p := l[r.Intn(len(l))]
				e := pick(r, 0, 1e-9, 0.1, 3)
				cons = append(cons, fmt.Sprintf(`{"type":"Point","coordinates":[%s,%s]}`, ff(p[0]+e), ff(p[1]-e)))
			}
		}
		rep := func() map[string]interface{} {
			return map[string]interface{}{"config": string(cfg.JSON()), "input": strings.Join(in, "\n"), "constraints": strings.Join(cons, "\n")}
		}
		res := rn.RunFiles(cfg, strings.Join(in, "\n"), strings.Join(cons, "\n"), len(cons) > 0, false)
		R.Count("program runs", 1)
		if res.TimedOut {
			R.Inconclusive("wall-clock watchdog")
			return
		}
		fs, err := cli.Parse(res.Output)
		if res.Exit != 0 || err != nil || len(fs) != len(lines) {
			R.Violate(fmt.Sprintf("exit %d, %v, %d input lines, %d output features\nconfig: %v\n%s", res.Exit, err, len(lines), len(fs), cfg, tailOf(res.Stderr)), rep())
			return
		}
		for i, f := range fs {
			out, err := f.Line()
			if f.Geometry.Type != "LineString" || err != nil {
				R.Violate(fmt.Sprintf("line %d became %s: %v", i, f.Geometry.Type, err), rep())
				return
			}
			R.Eval(1)
			R.Count("vertices in", len(lines[i]))
			R.Count("vertices out", len(out))
			if msg := subsequence(lines[i], out); msg != "" {
				R.Violate(fmt.Sprintf("line %d: %s\nconfig: %v\ninput:  %v\noutput: %v", i, msg, cfg, rawJSON(lines[i]), rawJSON(out)), rep())
				return
			}
			if len(out) > 2 && len(out) < len(lines[i]) {
				js := rawJSON(lines[i])
				R.Nontrivial(cfg.String() + js)
				if len(js) < 500 {
					R.Sample(map[string]interface{}{"config": cfg.String(), "input": json.RawMessage(js), "output": json.RawMessage(rawJSON(out))})
				}
			}
		}
	})
}

func tailOf(s string) string {
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 600 {
		s = s[:600]
	}
	return s
}
