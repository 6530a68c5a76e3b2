package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"verifharness/cli"
	"verifharness/gen"
	"verifharness/run"
)

func init() {
	custom["C13"] = correspondence
}

// randomValue draws a JSON value.
func randomValue(r *rand.Rand, depth int) interface{} {
	words := []string{"", "a", "name", "é→ü", "tab\tquote\"back\\slash", "<&>", "idx:7-pos:3", "12", "0", "null", "line\nbreak", "\u2028"}
	switch k := r.Intn(8); {
	case k == 0:
		return nil
	case k == 1:
		return r.Intn(2) == 0
	case k == 2:
		return float64(r.Intn(1 << 30))
	case k == 3:
		return r.NormFloat64() * pick(r, 1e-9, 1, 1e12, 1e200)
	case k <= 5 && r.Intn(12) == 0:
		return strings.Repeat("long text, ", pickI(r, 30, 150, 800, 12000))
	case k <= 5 || depth == 0:
		return words[r.Intn(len(words))]
	case k == 6:
		a := []interface{}{}
		n := r.Intn(4)
		if r.Intn(20) == 0 {
			n = pickI(r, 40, 400)
		}
		for ; n > 0; n-- {
			a = append(a, randomValue(r, depth-1))
		}
		return a
	}
	return randomObject(r, depth-1)
}

func randomObject(r *rand.Rand, depth int) map[string]interface{} {
	keys := []string{"", "id", "name", "é", "geometry", "type", "coordinates", "properties", "pos:1", "A\"b"}
	o := map[string]interface{}{}
	for n := r.Intn(5); n > 0; n-- {
		o[keys[r.Intn(len(keys))]] = randomValue(r, depth)
	}
	if r.Intn(40) == 0 {
		for n := pickI(r, 30, 300); n > 0; n-- {
			o[fmt.Sprint("key", n)] = randomValue(r, 0)
		}
	}
	return o
}

type wantLine struct {
	parts [][][]float64
	props map[string]interface{}
	text  string
}

func correspondence(R *run.R, rn *cli.Runner) {
	R.Rule = "input files mixing bare geometries and features, LineString and MultiLineString with up to 14 parts, blank lines, CRLF line ends, lines without a polyline, random properties; non-trivial: the file has a multi-part feature or a skipped line and at least two features"
	R.Assume = []string{"numbers in properties compare as float64", "one geometry or feature per line, as documented"}
	n := R.N(1500, 15000)
	R.Parallel(n, func(j int, r *rand.Rand) {
		cfg := randCfg(r)
		cfg.Scale, cfg.OX, cfg.OY, cfg.Repr = 0, 0, 0, 0
		var want []wantLine
		var file []string
		m := r.Intn(40)
		if r.Intn(3) > 0 {
			m = r.Intn(6)
		}
		wide := j%40 == 9 || j%40 == 29 // a few lines of 70 KB to 2 MB
		if wide {
			m = 2 + r.Intn(3)
			cfg.Planar, cfg.NonPlanar, cfg.Avoid, cfg.FC, cfg.Type = false, false, false, false, "DP"
			cfg.Geom, cfg.Dist, cfg.Homotopy = false, false, false
			cfg.Threshold = pick(r, 3, 20, 60)
		}
		short := j%40 == 7 // a long file, or features of many parts
		if short {
			m = []int{120, 400, 1100}[r.Intn(3)]
		}
		skipped, multi, again, longest, z := 0, 0, 0, 0, pick(r, 0, 0, 0, -5000000, 2e6, 1.5e9, 1.5e12)
		widest := 60000
		if j%400 == 9 {
			widest = 150000
		}
		part := func() [][]float64 {
			var c [][]float64
			l := gen.AnyLine(r, []int{4, 8, 20}[r.Intn(3)])
			if r.Intn(8) == 0 || short && r.Intn(3) > 0 {
				l = l[:2]
			}
			if wide && r.Intn(3) == 0 {
				l = gen.Monotone(r, pickI(r, 2500, 7000, 20000, widest), 3, 60)
			}
			ox, oy := float64(r.Intn(300)), float64(r.Intn(300))
			flat := cfg.Type == "DP" && r.Intn(4) == 0
			for _, p := range l {
				z++
				if flat {
					c = append(c, []float64{float64(p.X) + ox, float64(p.Y) + oy})
				} else {
					c = append(c, []float64{float64(p.X) + ox, float64(p.Y) + oy, z})
				}
			}
			return c
		}
		for k := 0; k < m; k++ {
			if len(want) > 0 && r.Intn(7) == 0 { // an earlier line once more
				w := want[r.Intn(len(want))]
				file = append(file, w.text)
				want = append(want, w)
				again++
				continue
			}
			switch r.Intn(9) {
			case 0:
				file = append(file, []string{"", "   ", "\t"}[r.Intn(3)])
				skipped++
				continue
			case 1:
				g := []string{`{"type":"Point","coordinates":[1,2]}`, `{"type":"MultiLineString","coordinates":[]}`,
					`{"type":"Polygon","coordinates":[[[0,0],[40,0],[40,40],[0,0]]]}`, `{"type":"MultiPoint","coordinates":[[1,2],[3,4]]}`}[r.Intn(4)]
				if r.Intn(2) == 0 {
					g = cli.FeatJSON(g, `{"skip":1}`)
				}
				file = append(file, g)
				skipped++
				continue
			}
			w := wantLine{props: map[string]interface{}{}}
			np := 1
			isMulti := r.Intn(3) == 0
			if isMulti {
				np = 1 + r.Intn(4)
				if r.Intn(4) == 0 {
					np = 10 + r.Intn(5)
				}
				if short && r.Intn(50) == 0 {
					np = 100 + r.Intn(130)
				}
			}
			var ps []string
			for ; np > 0; np-- {
				p := part()
				w.parts = append(w.parts, p)
				ps = append(ps, rawJSON(p))
			}
			g := `{"type":"LineString","coordinates":` + ps[0] + `}`
			if isMulti {
				g = `{"type":"MultiLineString","coordinates":[` + strings.Join(ps, ",") + `]}`
			}
			if len(w.parts) > 1 {
				multi++
			}
			switch r.Intn(4) {
			case 0: // bare
			case 1:
				g = cli.FeatJSON(g, []string{"null", "{}"}[r.Intn(2)])
			default:
				w.props = randomObject(r, 2)
				b, _ := json.Marshal(w.props)
				g = cli.FeatJSON(g, string(b))
				if r.Intn(3) == 0 {
					g = strings.Replace(g, `"type":"Feature",`, `"type": "Feature" , "id": 7, `, 1)
				}
			}
			if r.Intn(6) == 0 {
				g = "  " + g + " "
			}
			w.text = g
			longest = max(longest, len(g))
			file = append(file, g)
			want = append(want, w)
		}
		eol := []string{"\n", "\n", "\r\n"}[r.Intn(3)]
		text := strings.Join(file, eol)
		if r.Intn(2) == 0 {
			text += eol
		}
		cons := []string{`{"type":"Point","coordinates":[150,150]}`, ""}[r.Intn(2)]
		rep := map[string]interface{}{"config": string(cfg.JSON()), "input": text, "constraints": cons}
		res := rn.RunFiles(cfg, text, cons, cons != "", false)
		R.Count("program runs", 1)
		R.Eval(1)
		if res.TimedOut {
			R.Inconclusive("wall-clock watchdog")
			return
		}
		if res.Exit != 0 || !res.HasOut {
			R.Violate(fmt.Sprintf("exit %d: %s", res.Exit, tailOf(res.Stderr)), rep)
			return
		}
		fs, err := cli.Parse(res.Output)
		if err != nil || len(fs) != len(want) {
			R.Violate(fmt.Sprintf("%d input features with polylines, %d output features (%v)\nconfig: %v\ninput:\n%s\noutput:\n%s", len(want), len(fs), err, cfg, text, res.Output), rep)
			return
		}
		for i, f := range fs {
			w := want[i]
			bad := func(s string) {
				R.Violate(fmt.Sprintf("output line %d: %s\nconfig: %v\ninput:  %s\noutput: %s", i+1, s, cfg, w.text, f.Raw), rep)
			}
			if f.Type != "Feature" {
				bad("not a feature")
				return
			}
			var raw map[string]json.RawMessage
			json.Unmarshal([]byte(f.Raw), &raw)
			if p := strings.TrimSpace(string(raw["properties"])); !strings.HasPrefix(p, "{") {
				bad("properties are not an object: " + p)
				return
			}
			var back map[string]interface{}
			b, _ := json.Marshal(w.props)
			json.Unmarshal(b, &back)
			if !reflect.DeepEqual(back, f.Properties) {
				bad(fmt.Sprintf("properties changed to %v", f.Properties))
				return
			}
			var parts [][][]float64
			if len(w.parts) == 1 {
				l, err := f.Line()
				if f.Geometry.Type != "LineString" || err != nil {
					bad("expected a LineString")
					return
				}
				parts = append(parts, l)
			} else {
				parts, err = f.Multi()
				if f.Geometry.Type != "MultiLineString" || err != nil || len(parts) != len(w.parts) {
					bad(fmt.Sprintf("expected a MultiLineString of %d parts", len(w.parts)))
					return
				}
			}
			for k := range parts {
				if s := subsequence(w.parts[k], parts[k]); s != "" {
					bad(fmt.Sprintf("part %d: %s", k, s))
					return
				}
				R.Count("parts", 1)
			}
			R.Count("features", 1)
		}
		R.Max("features in one file", len(want))
		R.Max("bytes of one line", longest)
		R.Count("lines repeated", again)
		R.Count("lines without a polyline", skipped)
		R.Count("multi-part features", multi)
		if (skipped > 0 || multi > 0) && len(want) > 1 {
			R.Nontrivial(cfg.String() + text)
			if len(text) < 700 {
				R.Sample(map[string]interface{}{"config": cfg.String(), "input": text, "output": res.Output})
			}
		}
	})
}
