// Package cli drives the real command line program: it writes input files, runs the
// binary as a user would and parses what it wrote. It knows nothing about the
// program's internals.
package cli

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifharness/geo"
)

type Cfg struct {
	Input       string  `json:"input"`
	Output      string  `json:"output"`
	Constraints string  `json:"constraints,omitempty"`
	Type        string  `json:"simplification_type"`
	Threshold   float64 `json:"threshold"`
	MinDist     float64 `json:"minimum_distance"`
	NPD         float64 `json:"non_planar_displacement"`
	FC          bool    `json:"is_feature_class"`
	Planar      bool    `json:"planar_self"`
	NonPlanar   bool    `json:"non_planar_self"`
	Avoid       bool    `json:"avoid_new_self_intersects"`
	Geom        bool    `json:"geometric_relation"`
	Dist        bool    `json:"distance_relation"`
	Homotopy    bool    `json:"homotopy_relation"`

	// How the integer scene is written down; lengths in the file are integer lengths * S.
	Scale float64 `json:"-"` // power of two, 0 means 1
	OX    float64 `json:"-"` // integer offsets, added before scaling
	OY    float64 `json:"-"`
	// power of two by which third coordinates are multiplied, 0 means 1
	ZScale float64 `json:"-"`
	Repr   int64   `json:"-"` // seed of the representation of the constraint file, 0: bare geometries
}

func (c Cfg) s() float64 {
	if c.Scale == 0 {
		return 1
	}
	return c.Scale
}

func (c Cfg) zs() float64 {
	if c.ZScale == 0 {
		return 1
	}
	return c.ZScale
}

func (c Cfg) String() string {
	f := func(b bool, s string) string {
		if b {
			return s
		}
		return ""
	}
	pl := ""
	if c.s() != 1 || c.OX != 0 || c.OY != 0 {
		pl = fmt.Sprintf(" placed=(%v,%v)*%v", c.OX, c.OY, c.s())
	}
	if c.zs() != 1 {
		pl += fmt.Sprintf(" times*%v", c.zs())
	}
	return pl0(pl, fmt.Sprintf("%s T=%v md=%v npd=%v%s%s%s%s%s%s%s", c.Type, c.Threshold, c.MinDist, c.NPD,
		f(c.FC, " fc"), f(c.Planar, " planar"), f(c.NonPlanar, " nonplanar"), f(c.Avoid, " avoid"),
		f(c.Geom, " geom"), f(c.Dist, " dist"), f(c.Homotopy, " homotopy")))
}

func pl0(pl, s string) string { return strings.TrimSpace(s) + pl }

// Case is a self-contained scene: polylines and the constraint geometries near them.
type Case struct {
	Lines []geo.Chain
	Z     [][]int64 // optional third coordinates, default 1..n
	Cons  []geo.Geom
	Kind  string
}

func (c *Case) Clone() *Case {
	o := &Case{Kind: c.Kind}
	for i := range c.Lines {
		o.Lines = append(o.Lines, append(geo.Chain(nil), c.Lines[i]...))
		if c.Z != nil {
			o.Z = append(o.Z, append([]int64(nil), c.Z[i]...))
		}
	}
	o.Cons = append(o.Cons, c.Cons...)
	return o
}

func (c *Case) ZAt(l, i int) int64 {
	if c.Z != nil {
		return c.Z[l][i]
	}
	return int64(i + 1)
}

func (c *Case) Text() string {
	var b strings.Builder
	for i, l := range c.Lines {
		fmt.Fprintf(&b, "line %d: %v", i, l)
		if c.Z != nil {
			fmt.Fprintf(&b, " z=%v", c.Z[i])
		}
		b.WriteString("\n")
	}
	for i, g := range c.Cons {
		fmt.Fprintf(&b, "constraint %d: %s %v%v\n", i, g.Kind, []geo.P(g.Pts), g.Rings)
	}
	return b.String()
}

func num(x float64) string { return strconv.FormatFloat(x, 'f', -1, 64) }

func (c Cfg) xy(p geo.P) string {
	return num((float64(p.X)+c.OX)*c.s()) + "," + num((float64(p.Y)+c.OY)*c.s())
}

func (c Cfg) coordJSON(l geo.Chain, z func(int) int64) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, p := range l {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteByte('[')
		b.WriteString(c.xy(p))
		if z != nil {
			b.WriteString("," + num(float64(z(i))*c.zs()))
		}
		b.WriteByte(']')
	}
	b.WriteByte(']')
	return b.String()
}

// Coords is the GeoJSON coordinates member of a constraint.
func (c Cfg) Coords(g geo.Geom) string {
	switch g.Kind {
	case "Point":
		return "[" + c.xy(g.Pts[0]) + "]"
	case "LineString":
		return c.coordJSON(g.Pts, nil)
	}
	var rs []string
	for _, r := range g.Rings {
		rs = append(rs, c.coordJSON(r, nil))
	}
	return "[" + strings.Join(rs, ",") + "]"
}

func (c Cfg) GeomJSON(g geo.Geom) string {
	return `{"type":"` + g.Kind + `","coordinates":` + c.Coords(g) + `}`
}

func (c Cfg) LineJSON(l geo.Chain, z func(int) int64) string {
	return `{"type":"LineString","coordinates":` + c.coordJSON(l, z) + `}`
}

func FeatJSON(geom, props string) string {
	return `{"type":"Feature","geometry":` + geom + `,"properties":` + props + `}`
}

// ConsText writes the constraints, as bare geometries or in a random mix of bare
// geometries, features and Multi* geometries.
func (c Cfg) ConsText(gs []geo.Geom) string {
	var out []string
	if c.Repr == 0 {
		for _, g := range gs {
			out = append(out, c.GeomJSON(g))
		}
		return strings.Join(out, "\n")
	}
	r := rand.New(rand.NewSource(c.Repr))
	var group []string
	most := 1 + int(c.Repr>>3)%60
	for i := 0; i < len(gs); {
		n := 1
		js := c.GeomJSON(gs[i])
		if r.Intn(2) == 0 {
			m := 1 + r.Intn(5)
			for n < m && i+n < len(gs) && gs[i+n].Kind == gs[i].Kind {
				n++
			}
			var parts []string
			for _, g := range gs[i : i+n] {
				parts = append(parts, c.Coords(g))
			}
			js = `{"type":"Multi` + gs[i].Kind + `","coordinates":[` + strings.Join(parts, ",") + `]}`
		}
		if r.Intn(2) == 0 {
			js = FeatJSON(js, []string{"null", "{}", `{"idx:1-pos:1":"a"}`}[r.Intn(3)])
		}
		if c.Repr%8 == 5 { // collections
			if !strings.HasPrefix(js, `{"type":"Feature"`) {
				js = FeatJSON(js, "null")
			}
			if group = append(group, js); i+n < len(gs) && len(group) < most {
				i += n
				continue
			}
			js = `{"type":"FeatureCollection","features":[` + strings.Join(group, ",") + `]}`
			group = nil
		}
		out = append(out, js)
		if r.Intn(6) == 0 {
			out = append(out, []string{"", "   ", "\r"}[r.Intn(3)])
		}
		i += n
	}
	return strings.Join(out, "\n")
}

// Feature is one parsed output line.
type Feature struct {
	Type       string                 `json:"type"`
	Properties map[string]interface{} `json:"properties"`
	Geometry   struct {
		Type        string          `json:"type"`
		Coordinates json.RawMessage `json:"coordinates"`
	} `json:"geometry"`
	Raw string `json:"-"`
}

func (f *Feature) Line() (c [][]float64, err error) {
	err = json.Unmarshal(f.Geometry.Coordinates, &c)
	return
}
func (f *Feature) Multi() (c [][][]float64, err error) {
	err = json.Unmarshal(f.Geometry.Coordinates, &c)
	return
}

type Runner struct {
	Bin    string
	Dir    string // scratch
	CPUSec uint64 // CPU seconds after which a run counts as non-terminating
	Env    []string
	Wrap   []string // e.g. taskset
}

type Result struct {
	Exit     int
	Stderr   string
	Output   string // content of the output file
	HasOut   bool
	TimedOut bool // wall clock watchdog: inconclusive
	CPUOut   bool // CPU budget exhausted
	Cpu      time.Duration
}

// Exec runs the binary with the given arguments.
func (r *Runner) Exec(args ...string) Result {
	cpu := r.CPUSec
	if cpu == 0 {
		cpu = 60
	}
	ctx, cancel := context.WithTimeout(context.Background(), 600*time.Second)
	defer cancel()
	full := append([]string{}, r.Wrap...)
	full = append(full, r.Bin)
	full = append(full, args...)
	cmdline := fmt.Sprintf("ulimit -t %d; exec \"$@\"", cpu)
	cmd := exec.CommandContext(ctx, "/bin/bash", append([]string{"-c", cmdline, "run"}, full...)...)
	cmd.Dir = r.Dir
	cmd.Env = append(os.Environ(), r.Env...)
	var se, so bytes.Buffer
	cmd.Stderr, cmd.Stdout = &se, &so
	err := cmd.Run()
	res := Result{Stderr: se.String() + so.String()}
	if cmd.ProcessState != nil {
		res.Cpu = cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime()
	}
	if ctx.Err() != nil {
		res.TimedOut = true
		res.Exit = -1
		return res
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		res.Exit = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			res.Exit = 128 + int(ws.Signal())
			if ws.Signal() == syscall.SIGXCPU || (ws.Signal() == syscall.SIGKILL && res.Cpu > time.Duration(cpu)*time.Second*9/10) {
				res.CPUOut = true
			}
		}
		if ee.ExitCode() == 128+24 {
			res.CPUOut = true
		}
	} else if err != nil {
		res.Exit = -2
		res.Stderr += err.Error()
	}
	return res
}

// RunFiles: run with the given input/constraint text; useB64 passes -b instead of -f.
func (r *Runner) RunFiles(cfg Cfg, input, cons string, haveCons bool, useB64 bool) Result {
	dir, err := os.MkdirTemp(r.Dir, "run")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	cfg.Input = filepath.Join(dir, "input.json")
	cfg.Output = filepath.Join(dir, "output.json")
	must(os.WriteFile(cfg.Input, []byte(input), 0o644))
	if haveCons {
		cfg.Constraints = filepath.Join(dir, "cons.json")
		must(os.WriteFile(cfg.Constraints, []byte(cons), 0o644))
	}
	js := cfg.JSON()
	var res Result
	if useB64 {
		res = r.Exec("-b", base64.StdEncoding.EncodeToString(js))
	} else {
		cf := filepath.Join(dir, "cfg.json")
		must(os.WriteFile(cf, js, 0o644))
		res = r.Exec("-f", cf)
	}
	if b, err := os.ReadFile(cfg.Output); err == nil {
		res.Output, res.HasOut = string(b), true
	}
	return res
}

// JSON is the configuration as the program reads it.
func (c Cfg) JSON() []byte {
	c.Threshold *= c.s()
	c.MinDist *= c.s()
	c.NPD *= c.s()
	js, _ := json.Marshal(c)
	return js
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Parse splits the output file into features.
func Parse(out string) ([]Feature, error) {
	var fs []Feature
	if strings.TrimSpace(out) == "" {
		return nil, nil
	}
	for _, ln := range strings.Split(out, "\n") {
		if strings.TrimSpace(ln) == "" {
			continue
		}
		var f Feature
		if err := json.Unmarshal([]byte(ln), &f); err != nil {
			return nil, fmt.Errorf("unparsable output line %q: %v", ln, err)
		}
		f.Raw = ln
		fs = append(fs, f)
	}
	return fs, nil
}

// TileSpace is the distance between the origins of two neighbouring scenes packed in one
// run; scenes live in [0, TileSpace/3] so that nothing in one can be within reach of another.
const TileSpace = 3000

func TileOrigin(t int) (int64, int64) {
	return int64(t%16) * TileSpace, int64(t/16) * TileSpace
}

// Kept is the observation for one polyline: indices of the original vertices that the
// program kept, recovered from the third coordinate that tags every input vertex.
type Kept []int

// RunErr describes an execution that produced no judgeable output.
type RunErr struct {
	Msg          string
	Inconclusive bool
	CPUOut       bool
	Tile         int // -1: whole run
}

func (e *RunErr) Error() string { return e.Msg }

// RunCases packs the cases into one run and returns kept[tile][line].
func (r *Runner) RunCases(cfg Cfg, cases []*Case) ([][]Kept, *RunErr) {
	in, cons := cfg.PackText(cases)
	have := cons != ""
	if !have && cfg.Repr%4 == 1 { // a constraint file with nothing in it
		have, cons = true, []string{"", "\n", " \r\n\n"}[cfg.Repr>>2%3]
	}
	res := r.RunFiles(cfg, in, cons, have, false)
	return cfg.Observe(res, cases)
}

func (cfg Cfg) PackText(cases []*Case) (string, string) {
	var in []string
	var cons []geo.Geom
	r := rand.New(rand.NewSource(cfg.Repr ^ 0x5eed))
	multi := cfg.Repr%3 == 1 // some lines of a scene written as the parts of one feature
	for t, c := range cases {
		dx, dy := TileOrigin(t)
		for l := 0; l < len(c.Lines); {
			n := 1
			if multi && r.Intn(2) == 0 {
				n = min(len(c.Lines)-l, 1+r.Intn(len(c.Lines)))
			}
			var parts []string
			for k := l; k < l+n; k++ {
				parts = append(parts, cfg.coordJSON(geo.ShiftChain(c.Lines[k], dx, dy), func(i int) int64 { return c.ZAt(k, i) }))
			}
			g := `{"type":"LineString","coordinates":` + parts[0] + `}`
			if n > 1 {
				g = `{"type":"MultiLineString","coordinates":[` + strings.Join(parts, ",") + `]}`
			}
			in = append(in, FeatJSON(g, fmt.Sprintf(`{"t":%d,"l":%d}`, t, l)))
			l += n
		}
		for _, g := range c.Cons {
			cons = append(cons, g.Shift(dx, dy))
		}
	}
	return strings.Join(in, "\n"), cfg.ConsText(cons)
}

func tail(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	}
	if i := strings.Index(s, "fatal error:"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 600 {
		s = s[:600]
	}
	return s
}

func (cfg Cfg) Observe(res Result, cases []*Case) ([][]Kept, *RunErr) {
	if res.TimedOut {
		return nil, &RunErr{Msg: "wall-clock watchdog", Inconclusive: true, Tile: -1}
	}
	if res.CPUOut {
		return nil, &RunErr{Msg: fmt.Sprintf("no termination within the CPU budget (used %v)", res.Cpu), CPUOut: true, Tile: -1}
	}
	if res.Exit != 0 {
		return nil, &RunErr{Msg: fmt.Sprintf("program failed, exit %d: %s", res.Exit, tail(res.Stderr)), Tile: -1}
	}
	if !res.HasOut {
		return nil, &RunErr{Msg: "no output file", Tile: -1}
	}
	fs, err := Parse(res.Output)
	if err == nil {
		fs, err = flatten(fs)
	}
	if err != nil {
		return nil, &RunErr{Msg: err.Error(), Tile: -1}
	}
	out := make([][]Kept, len(cases))
	n := 0
	for t, c := range cases {
		out[t] = make([]Kept, len(c.Lines))
		n += len(c.Lines)
	}
	if len(fs) != n {
		return nil, &RunErr{Msg: fmt.Sprintf("%d input polylines, %d output features", n, len(fs)), Tile: -1}
	}
	k := 0
	for t, c := range cases {
		dx, dy := TileOrigin(t)
		for l := range c.Lines {
			kept, e := cfg.Match(&fs[k], c, l, dx, dy)
			if e != nil {
				return nil, &RunErr{Msg: e.Error(), Tile: t}
			}
			out[t][l] = kept
			k++
		}
	}
	return out, nil
}

// flatten turns every part of a multi-part feature into a feature.
func flatten(fs []Feature) ([]Feature, error) {
	var out []Feature
	for _, f := range fs {
		if f.Geometry.Type != "MultiLineString" {
			out = append(out, f)
			continue
		}
		var parts []json.RawMessage
		if err := json.Unmarshal(f.Geometry.Coordinates, &parts); err != nil {
			return nil, err
		}
		for _, p := range parts {
			g := f
			g.Geometry.Type, g.Geometry.Coordinates = "LineString", p
			out = append(out, g)
		}
	}
	return out, nil
}

// Match recovers the kept indices of line l from its output feature.
func (cfg Cfg) Match(f *Feature, c *Case, l int, dx, dy int64) (Kept, error) {
	if f.Type != "Feature" || f.Geometry.Type != "LineString" {
		return nil, fmt.Errorf("output of line %d is %s/%s", l, f.Type, f.Geometry.Type)
	}
	cs, err := f.Line()
	if err != nil {
		return nil, err
	}
	line := c.Lines[l]
	var kept Kept
	pos := 0
	for _, p := range cs {
		if len(p) != 3 {
			return nil, fmt.Errorf("output vertex %v of line %d lost its third coordinate", p, l)
		}
		// z values strictly increase along a line, so they identify the vertex
		i := pos + sort.Search(len(line)-pos, func(i int) bool { return float64(c.ZAt(l, pos+i))*cfg.zs() >= p[2] })
		if i >= len(line) || float64(c.ZAt(l, i))*cfg.zs() != p[2] || (float64(line[i].X+dx)+cfg.OX)*cfg.s() != p[0] || (float64(line[i].Y+dy)+cfg.OY)*cfg.s() != p[1] {
			return nil, fmt.Errorf("output vertex %v of line %d is not an input vertex at or after position %d", p, l, pos)
		}
		kept = append(kept, i)
		pos = i + 1
	}
	if len(kept) < 2 || kept[0] != 0 || kept[len(kept)-1] != len(line)-1 {
		return nil, fmt.Errorf("line %d: kept %v does not span 0..%d", l, kept, len(line)-1)
	}
	return kept, nil
}
