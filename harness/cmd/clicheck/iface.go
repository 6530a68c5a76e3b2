package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"verifharness/cli"
	"verifharness/run"
)

func init() {
	custom["C18"] = configuration
	custom["C19"] = hostile
	custom["C21"] = rejects
}

func b64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

// configuration: how a valid configuration is passed and spelled does not matter, what it
// says does.
func configuration(R *run.R, rn *cli.Runner) {
	R.Rule = "one scene and configuration, passed by file and in base64, reformatted, with padded paths, other letter case of the type, reordered and unknown keys, defaults left out, the constraint file empty, absent or omitted, over an older longer output; non-trivial: the reference output keeps some vertex between dropped ones"
	R.Assume = []string{"an omitted option means false or 0"}
	n := R.N(800, 8000)
	R.Parallel(n, func(j int, r *rand.Rand) {
		cfg := randCfg(r)
		var cs []*cli.Case
		plain := r.Intn(4) == 0
		for t := 0; t < 4; t++ {
			p := sceneParams{features: 1 + r.Intn(3), cons: r.Intn(4), consMix: true}
			if plain {
				p.cons = 0
			}
			c := makeCase(r, p, false)
			if cfg.Type == "SED" {
				randomTimes(r, c)
			}
			cs = append(cs, c)
		}
		in, cons := cfg.PackText(cs)
		ref := rn.RunFiles(cfg, in, cons, cons != "", false)
		kept, e := cfg.Observe(ref, cs)
		R.Count("program runs", 1)
		if e != nil {
			runErr(R, rn, cfg, cs, e)
			return
		}
		dir, err := os.MkdirTemp(rn.Dir, "cfg")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		inp, outp, conp := filepath.Join(dir, "in put.json"), filepath.Join(dir, "out.json"), filepath.Join(dir, "cons.geojson")
		os.WriteFile(inp, []byte(in), 0o644)
		m := map[string]interface{}{}
		json.Unmarshal(cfg.JSON(), &m)
		m["input"], m["output"] = inp, outp
		var how []string
		do := func(p int, s string) bool {
			if r.Intn(p) == 0 {
				how = append(how, s)
				return true
			}
			return false
		}
		delete(m, "constraints")
		if cons != "" {
			os.WriteFile(conp, []byte(cons), 0o644)
			m["constraints"] = conp
		} else if do(2, "empty constraint file") {
			os.WriteFile(conp, []byte([]string{"", "\n", "  \n\n"}[r.Intn(3)]), 0o644)
			m["constraints"] = conp
		} else if do(2, "blank constraint path") {
			m["constraints"] = []string{"", "  "}[r.Intn(2)]
		}
		if do(3, "padded paths") {
			m["input"], m["output"] = "  "+inp+"\t", "\n"+outp+" "
			if s, ok := m["constraints"].(string); ok {
				m["constraints"] = " " + s + " "
			}
		}
		if do(3, "relative paths") {
			rel, _ := filepath.Rel(rn.Dir, inp)
			m["input"] = rel
		}
		if do(2, "type spelling") {
			t := cfg.Type
			t = []string{strings.ToLower(t), strings.ToUpper(t), strings.ToUpper(t[:1]) + strings.ToLower(t[1:]), " " + t + "\n"}[r.Intn(4)]
			m["simplification_type"] = t
		}
		if do(2, "defaults omitted") {
			for k, v := range m {
				if v == false || v == 0.0 {
					delete(m, k)
				}
			}
		}
		if do(3, "unknown keys") {
			m["comment"], m["mindist"] = "none", 17
		}
		if do(4, "numbers in another notation") {
			if v, ok := m["threshold"].(float64); ok {
				m["threshold"] = json.RawMessage(strconv.FormatFloat(v, 'e', -1, 64))
			}
		}
		var js []byte
		if do(2, "indented") {
			js, _ = json.MarshalIndent(m, "\t", "   ")
		} else {
			js, _ = json.Marshal(m)
		}
		if do(2, "older output") {
			os.WriteFile(outp, []byte(ref.Output+strings.Repeat("\nold", 1+r.Intn(5000))), 0o644)
		}
		if r.Intn(3) == 0 && len(in) > 0 {
			how = append(how, "input line ends")
			in2 := strings.ReplaceAll(in, "\n", []string{"\r\n", "\n\n", " \n\t"}[r.Intn(3)]) + []string{"", "\n", "\n\n \n"}[r.Intn(3)]
			os.WriteFile(inp, []byte(in2), 0o644)
		}
		var res cli.Result
		if j%2 == 0 {
			how = append(how, "-b")
			arg := b64(string(js))
			if do(2, "white space around the argument") {
				arg = []string{arg + "\n", " \t" + arg, "\n " + arg + " \n\n"}[r.Intn(3)]
			}
			if do(3, "wrapped argument") {
				w, ls := 76, []string{}
				for len(arg) > w {
					ls, arg = append(ls, arg[:w]), arg[w:]
				}
				arg = strings.Join(append(ls, arg), "\n")
			}
			res = rn.Exec("-b", arg)
		} else {
			how = append(how, "-f")
			cf := filepath.Join(dir, "config.json")
			if do(3, "padded configuration") {
				js = append(append([]byte(" \n"), js...), '\n', '\n')
			}
			os.WriteFile(cf, js, 0o644)
			res = rn.Exec("-f", cf)
		}
		R.Count("program runs", 1)
		R.Eval(1)
		for _, h := range how {
			R.Count("with "+h, 1)
		}
		if res.TimedOut {
			R.Inconclusive("wall-clock watchdog")
			return
		}
		got, _ := os.ReadFile(outp)
		if res.Exit != 0 || string(got) != ref.Output {
			rep := replayOf(cfg, cs)
			rep["variant config"] = string(js)
			R.Violate(fmt.Sprintf("the run with %s: exit %d %s, output differs from the reference\nconfig: %s\noutput:\n%s\nreference:\n%s", strings.Join(how, ", "), res.Exit, tailOf(res.Stderr), js, clip(string(got)), clip(ref.Output)), rep)
			return
		}
		for t := range cs {
			if reduced(kept[t], cs, t) {
				R.Nontrivial(string(js) + in)
				R.Sample(map[string]interface{}{"spelling": how, "config": string(js)})
				break
			}
		}
	})
}

// rejects: what the program cannot honour it refuses, before touching the output.
func rejects(R *run.R, rn *cli.Runner) {
	R.Rule = "a valid job broken in one way (arguments, configuration, files, one corrupted line in an otherwise valid file), with and without an older output file; non-trivial: every such run"
	R.Assume = []string{"refusing means a non-zero exit status and an untouched output path"}
	type brk struct {
		name string
		code int // required exit status, 0: any non-zero
		do   func(r *rand.Rand, m map[string]interface{}, in, cons *string, args *[]string)
	}
	type mm = map[string]interface{}
	corrupt := func(r *rand.Rand, text string, bad string) string {
		ls := strings.Split(text, "\n")
		k := r.Intn(len(ls) + 1)
		ls = append(ls[:k:k], append([]string{bad}, ls[k:]...)...)
		return strings.Join(ls, "\n")
	}
	badLines := []string{"{", "x", `{"type":"LineString","coordinates":[[1,2],[3,4]`, `{"type":"LineString","coordinates":[["a",2],[3,4]]}`,
		`{"type":"LineString","coordinates":"none"}`, `[1,2`, `{"type":"Feature","geometry":{"type":"LineString","coordinates":[[1,2],[3]}}`, `{"type":"Polygon","coordinates":[[1,2],[3,4]]}`}
	brks := []brk{
		{"no arguments", 13, func(r *rand.Rand, m mm, in, cons *string, a *[]string) { *a = []string{} }},
		{"both -b and -f", 13, func(r *rand.Rand, m mm, in, cons *string, a *[]string) {
			*a = []string{"-b", "@b64", "-f", "@file"}
		}},
		{"unknown flag", 0, func(r *rand.Rand, m mm, in, cons *string, a *[]string) { *a = []string{"-c", "@file"} }},
		{"missing configuration file", 0, func(r *rand.Rand, m mm, in, cons *string, a *[]string) { *a = []string{"-f", "@missing"} }},
		{"broken base64", 0, func(r *rand.Rand, m mm, in, cons *string, a *[]string) { *a = []string{"-b", "!!" + b64("{}")} }},
		{"configuration is not JSON", 0, func(r *rand.Rand, m mm, in, cons *string, a *[]string) {
			*a = []string{"-b", b64([]string{"", "{", "threshold=3", "[1,2]", `{"threshold":1,}`}[r.Intn(5)])}
		}},
		{"wrong value type", 0, func(r *rand.Rand, m mm, in, cons *string, a *[]string) {
			k := []string{"threshold", "planar_self", "input", "homotopy_relation", "minimum_distance"}[r.Intn(5)]
			m[k] = []interface{}{"1", []int{1}, mm{"a": 1}}[r.Intn(3)]
			if k == "input" {
				m[k] = 3
			}
		}},
		{"unsupported simplification type", 13, func(r *rand.Rand, m mm, in, cons *string, a *[]string) {
			t := []interface{}{"VW", "", "DPS", "douglas-peucker", "D P", nil}[r.Intn(6)]
			if t == nil {
				delete(m, "simplification_type")
			} else {
				m["simplification_type"] = t
			}
		}},
		{"no input file", 0, func(r *rand.Rand, m mm, in, cons *string, a *[]string) {
			switch r.Intn(4) {
			case 0:
				delete(m, "input")
			case 1:
				m["input"] = m["input"].(string) + ".none"
			case 2:
				m["input"] = filepath.Dir(m["input"].(string))
			case 3:
				m["input"] = "   "
			}
		}},
		{"no constraint file where one is named", 0, func(r *rand.Rand, m mm, in, cons *string, a *[]string) {
			m["constraints"] = m["input"].(string) + ".none"
		}},
		{"constraint path is a directory", 0, func(r *rand.Rand, m mm, in, cons *string, a *[]string) {
			m["constraints"] = filepath.Dir(m["input"].(string))
		}},
		{"corrupted input line", 0, func(r *rand.Rand, m mm, in, cons *string, a *[]string) {
			*in = corrupt(r, *in, badLines[r.Intn(len(badLines)-1)])
		}},
		{"corrupted constraint line", 0, func(r *rand.Rand, m mm, in, cons *string, a *[]string) {
			*cons = corrupt(r, *cons, badLines[r.Intn(len(badLines))])
		}},
		{"truncated input file", 0, func(r *rand.Rand, m mm, in, cons *string, a *[]string) {
			s := strings.TrimSpace(*in)
			k := strings.LastIndex(s, "\n") + 1
			*in = s[:k+1+r.Intn(len(s)-k-1)]
		}},
		{"no output path", 0, func(r *rand.Rand, m mm, in, cons *string, a *[]string) {
			if r.Intn(2) == 0 {
				delete(m, "output")
			} else {
				m["output"] = "  "
			}
		}},
	}
	n := R.N(1800, 12000)
	R.Parallel(n, func(j int, r *rand.Rand) {
		b := brks[j%len(brks)]
		cfg := randCfg(r)
		cfg.Repr = 0
		var cs []*cli.Case
		for t := 0; t < 2; t++ {
			c := makeCase(r, sceneParams{features: 1 + r.Intn(3), cons: 1 + r.Intn(4)}, false)
			if cfg.Type == "SED" {
				randomTimes(r, c)
			}
			cs = append(cs, c)
		}
		in, cons := cfg.PackText(cs)
		dir, err := os.MkdirTemp(rn.Dir, "rej")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		path := func(s string) string { return filepath.Join(dir, s) }
		m := mm{}
		json.Unmarshal(cfg.JSON(), &m)
		m["input"], m["output"], m["constraints"] = path("in.json"), path("out.json"), path("cons.json")
		var args []string
		b.do(r, m, &in, &cons, &args)
		os.WriteFile(path("in.json"), []byte(in), 0o644)
		os.WriteFile(path("cons.json"), []byte(cons), 0o644)
		js, _ := json.Marshal(m)
		os.WriteFile(path("cfg.json"), js, 0o644)
		old := ""
		if r.Intn(2) == 0 {
			old = "older output\n"
			os.WriteFile(path("out.json"), []byte(old), 0o644)
		}
		if args == nil {
			if r.Intn(2) == 0 {
				args = []string{"-f", "@file"}
			} else {
				args = []string{"-b", "@b64"}
			}
		}
		for i, a := range args {
			switch a {
			case "@b64":
				args[i] = b64(string(js))
			case "@file":
				args[i] = path("cfg.json")
			case "@missing":
				args[i] = path("nothing.json")
			}
		}
		res := rn.Exec(args...)
		R.Count("program runs", 1)
		R.Eval(1)
		R.Count("rejected: "+b.name, 1)
		if res.TimedOut {
			R.Inconclusive("wall-clock watchdog")
			return
		}
		got, err := os.ReadFile(path("out.json"))
		bad := ""
		switch {
		case res.Exit == 0:
			bad = "was accepted"
		case res.CPUOut:
			bad = "did not terminate"
		case b.code != 0 && res.Exit != b.code:
			bad = fmt.Sprintf("ended with status %d, not %d", res.Exit, b.code)
		case old == "" && err == nil:
			bad = "left an output file"
		case old != "" && string(got) != old:
			bad = "changed the older output file"
		}
		if bad == "" {
			for _, e := range listing(dir) {
				switch e {
				case "in.json", "cons.json", "cfg.json", "out.json":
				default:
					bad = "left a file " + e
				}
			}
		}
		rep := map[string]interface{}{"broken": b.name, "config": string(js), "input": in, "constraints": cons, "args": args}
		if bad != "" {
			R.Violate(fmt.Sprintf("%s: the run %s\n%s", b.name, bad, tailOf(res.Stderr)), rep)
			return
		}
		R.Nontrivial(b.name + string(js) + in + cons + strings.Join(args, " "))
		if len(in)+len(cons) < 500 {
			R.Sample(map[string]interface{}{"broken": b.name, "exit": res.Exit, "config": string(js)})
		}
	})
}

func listing(dir string) (out []string) {
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		out = append(out, e.Name())
	}
	return
}

// hostile: degenerate and extreme inputs end, successfully, with one output per input.
func hostile(R *run.R, rn *cli.Runner) {
	R.Rule = "degenerate lines (repeated points, collinear, fully overlapping, lattice, all equal, two vertices), extreme magnitudes, thresholds and distances of 0 and beyond all extents, constraints on, equal to and containing the lines, dense feature classes; non-trivial: more than one line or a constraint present"
	R.Assume = []string{"finite numbers; SED inputs have increasing times", "non-termination means more CPU time than the budget, hundreds of times what such inputs need"}
	n := R.N(1500, 20000)
	R.Parallel(n, func(j int, r *rand.Rand) {
		cfg := randCfg(r)
		cfg.Scale, cfg.OX, cfg.OY, cfg.Repr = 0, 0, 0, 0
		cfg.Threshold = pick(r, 0, 0, 1e-12, 0.5, 1, 5, 50, 1e5, 1e12)
		cfg.MinDist = pick(r, 0, 1e-12, 0.5, 3, 100, 1e6)
		cfg.NPD = pick(r, 0, 1e-12, 0.5, 3, 100, 1e6)
		if r.Intn(3) == 0 { // everything on
			cfg.FC, cfg.Planar, cfg.NonPlanar, cfg.Avoid, cfg.Geom, cfg.Dist, cfg.Homotopy = true, true, true, true, true, true, true
		}
		mag := pick(r, 1, 1, 1, 1e-9, 1e-4, 1e6, 1e12)
		g := []int{2, 3, 5, 9, 30}[r.Intn(5)]
		var lines [][][]float64
		m := 1 + r.Intn(10)
		if r.Intn(8) == 0 {
			m = 20 + r.Intn(60)
		}
		for len(lines) < m {
			var c [][]float64
			n := 2 + r.Intn([]int{2, 6, 30, 90}[r.Intn(4)])
			if m > 10 {
				n = 2 + n%7
			}
			kind := r.Intn(8)
			x, y := float64(r.Intn(g+1)), float64(r.Intn(g+1))
			dx, dy := float64(r.Intn(3)-1), float64(r.Intn(3)-1)
			for i := 0; i < n; i++ {
				switch kind {
				case 0: // all equal
				case 1: // runs of repeats
					if r.Intn(3) == 0 {
						x, y = float64(r.Intn(g+1)), float64(r.Intn(g+1))
					}
				case 2: // back and forth on one line
					k := float64(r.Intn(g + 1))
					x, y = k*dx, k*dy
				case 3: // copy of an earlier line, maybe reversed
					if len(lines) > 0 && len(c) < 300 {
						o := lines[r.Intn(len(lines))]
						if len(o) > 40 {
							o = o[:40]
						}
						for t := range o {
							p := o[t]
							if i%2 == 1 {
								p = o[len(o)-1-t]
							}
							c = append(c, []float64{p[0] / mag, p[1] / mag})
						}
						i = n
						continue
					}
					fallthrough
				case 4: // lattice walk
					if r.Intn(2) == 0 {
						x += float64(r.Intn(3) - 1)
					} else {
						y += float64(r.Intn(3) - 1)
					}
				default:
					x, y = float64(r.Intn(g+1)), float64(r.Intn(g+1))
				}
				c = append(c, []float64{x, y})
			}
			for i := range c {
				c[i] = []float64{c[i][0] * mag, c[i][1] * mag, float64(i + 1)}
			}
			lines = append(lines, c)
		}
		var in, cons []string
		for _, c := range lines {
			in = append(in, `{"type":"LineString","coordinates":`+rawJSON(c)+`}`)
		}
		for k := r.Intn(8); k > 0; k-- {
			c := lines[r.Intn(len(lines))]
			p := c[r.Intn(len(c))]
			e := pick(r, 0, 0, 1, 0.5, 1e-10, 3) * mag
			switch r.Intn(4) {
			case 0:
				cons = append(cons, fmt.Sprintf(`{"type":"Point","coordinates":[%s,%s]}`, ff(p[0]+e), ff(p[1])))
			case 1:
				cons = append(cons, `{"type":"LineString","coordinates":`+rawJSON(c)+`}`)
			case 2:
				b := (pick(r, 0.5, 1, 2, 100) * mag)
				cons = append(cons, fmt.Sprintf(`{"type":"Polygon","coordinates":[[[%s,%s],[%s,%s],[%s,%s],[%s,%s],[%s,%s]]]}`,
					ff(p[0]-b+e), ff(p[1]-b), ff(p[0]+b+e), ff(p[1]-b), ff(p[0]+b+e), ff(p[1]+b), ff(p[0]-b+e), ff(p[1]+b), ff(p[0]-b+e), ff(p[1]-b)))
			case 3:
				q := c[r.Intn(len(c))]
				if q[0] != p[0] || q[1] != p[1] {
					cons = append(cons, fmt.Sprintf(`{"type":"LineString","coordinates":[[%s,%s],[%s,%s]]}`, ff(p[0]+e), ff(p[1]), ff(q[0]), ff(q[1]-e)))
				}
			}
		}
		rep := map[string]interface{}{"config": string(cfg.JSON()), "input": strings.Join(in, "\n"), "constraints": strings.Join(cons, "\n")}
		res := rn.RunFiles(cfg, strings.Join(in, "\n"), strings.Join(cons, "\n"), len(cons) > 0, false)
		R.Count("program runs", 1)
		R.Eval(1)
		R.Max("CPU milliseconds", int(res.Cpu.Milliseconds()))
		if res.TimedOut {
			R.Inconclusive("wall-clock watchdog")
			return
		}
		bad := ""
		fs, err := cli.Parse(res.Output)
		switch {
		case res.CPUOut:
			bad = fmt.Sprintf("no end after %v of CPU time", res.Cpu)
		case res.Exit != 0:
			bad = fmt.Sprintf("exit %d: %s", res.Exit, tailOf(res.Stderr))
		case err != nil || len(fs) != len(lines):
			bad = fmt.Sprintf("%d lines in, %d features out, %v", len(lines), len(fs), err)
		}
		for i := 0; bad == "" && i < len(fs); i++ {
			out, err := fs[i].Line()
			if err != nil {
				bad = err.Error()
			} else if s := subsequence(lines[i], out); s != "" {
				bad = fmt.Sprintf("line %d: %s", i, s)
			}
		}
		if bad != "" {
			R.Violate(fmt.Sprintf("%s\nconfig: %v\n%s", bad, cfg, clip(strings.Join(in, "\n"))), rep)
			return
		}
		R.Count("vertices in", func() (n int) {
			for _, l := range lines {
				n += len(l)
			}
			return
		}())
		if len(lines) > 1 || len(cons) > 0 {
			R.Nontrivial(fmt.Sprint(rep))
			if len(in) < 3 && len(strings.Join(in, "")) < 500 {
				R.Sample(rep)
			}
		}
	})
}
