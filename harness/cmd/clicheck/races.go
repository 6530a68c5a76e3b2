package main

import (
	"flag"
	"fmt"
	"math/rand"
	"strings"

	"verifharness/cli"
	"verifharness/run"
)

var raceBin = flag.String("race", "", "program under test, built with the race detector")
var raceLib = flag.String("racelib", "", "library workload, built with the race detector")

func init() {
	custom["C17"] = races
}

func raceText(s string) string {
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
		if len(s) > 2500 {
			s = s[:2500]
		}
		return s
	}
	return ""
}

func races(R *run.R, rn *cli.Runner) {
	R.Rule = "the program, built with the race detector, on feature classes and instance sets of up to a hundred lines; and the library called from four goroutines sharing constraints, options and the id generator, its score function yielding and sleeping at random; non-trivial: runs with at least 16 lines whose output was also compared with the ordinary build's (program) or with the sequential result (library)"
	R.Assume = []string{"the race detector reports races among the schedules that occurred; schedules are varied by load, yields and repetition"}
	env := []string{"GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0"}
	cliN := R.N(180, 2500)
	libN := R.N(48, 600)
	if *raceLib == "" {
		libN = 0
	}
	R.Parallel(cliN+libN, func(j int, r *rand.Rand) {
		if j >= cliN {
			q := &cli.Runner{Bin: *raceLib, Dir: rn.Dir, CPUSec: 400, Env: env}
			args := []string{"-seed", fmt.Sprint(R.Seed*100000 + int64(j)), "-n", "3"}
			res := q.Exec(args...)
			R.Eval(1)
			R.Count("library workloads", 1)
			rep := map[string]interface{}{"workload": "racelib", "args": args, "stderr": res.Stderr}
			switch {
			case res.TimedOut:
				R.Inconclusive("wall-clock watchdog")
			case res.Exit == 66 || raceText(res.Stderr) != "":
				R.Violate("data race in the library:\n"+raceText(res.Stderr), rep)
			case res.Exit == 3:
				R.Violate("concurrent calls give another result than sequential ones:\n"+clip(res.Stderr), rep)
			case res.Exit != 0:
				R.Violate(fmt.Sprintf("library workload failed, exit %d: %s", res.Exit, tailOf(res.Stderr)), rep)
			default:
				var a, b, c, d int
				fmt.Sscanf(res.Stderr[strings.LastIndex(res.Stderr, "RACELIB"):], "RACELIB runs=%d goroutines=%d scorecalls=%d mismatches=%d", &a, &b, &c, &d)
				R.Count("concurrent library simplifications", b)
				R.Count("score function calls", c)
				R.Nontrivial(fmt.Sprint(args))
			}
			return
		}
		cfg := randCfg(r)
		cfg.FC = r.Intn(4) > 0
		b := func() bool { return r.Intn(3) > 0 }
		cfg.Planar, cfg.NonPlanar, cfg.Avoid, cfg.Geom, cfg.Dist, cfg.Homotopy = b(), b(), b(), b(), b(), b()
		var cs []*cli.Case
		for t := 0; t < 3+r.Intn(8); t++ {
			p := sceneParams{features: 2 + r.Intn(5), cons: r.Intn(4), consMix: true, disjoint: r.Intn(2) == 0}
			c := makeCase(r, p, j%3 == 0 && t < 2)
			if cfg.Type == "SED" {
				randomTimes(r, c)
			}
			cs = append(cs, c)
		}
		in, cons := cfg.PackText(cs)
		q := &cli.Runner{Bin: *raceBin, Dir: rn.Dir, CPUSec: 400, Env: env}
		res := q.RunFiles(cfg, in, cons, cons != "", false)
		ref := rn.RunFiles(cfg, in, cons, cons != "", false)
		R.Eval(1)
		R.Count("program runs under the race detector", 1)
		lines := strings.Count(in, "\n") + 1
		R.Count("lines simplified under the race detector", lines)
		switch {
		case res.TimedOut || ref.TimedOut:
			R.Inconclusive("wall-clock watchdog")
		case res.Exit == 66 || raceText(res.Stderr) != "":
			R.Violate(fmt.Sprintf("data race\nconfig: %v\n%s", cfg, raceText(res.Stderr)), replayOf(cfg, cs))
		case res.Exit != 0 || ref.Exit != 0:
			R.Violate(fmt.Sprintf("exit %d / %d\nconfig: %v\n%s%s", res.Exit, ref.Exit, cfg, tailOf(res.Stderr), tailOf(ref.Stderr)), replayOf(cfg, cs))
		case res.Output != ref.Output:
			R.Violate(fmt.Sprintf("the output depends on the schedule\nconfig: %v", cfg), replayOf(cfg, cs))
		case lines >= 16:
			R.Nontrivial(cfg.String() + in + cons)
		}
		R.Sample(map[string]interface{}{"config": cfg.String(), "lines": lines})
	})
}
