// c27: the shared queue of pieces is linearizable. Built with the race detector; the
// workload runs in child processes so that a race is an observation, not the end.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/TopoSimplify/plugin/node"
	"github.com/anishathalye/porcupine"

	"verifharness/run"
)

type in struct {
	Op string
	Id int
}

func (i in) String() string { return fmt.Sprint(i.Op, i.Id) }

// the model: a list of identities
var model = porcupine.Model{
	Init: func() interface{} { return "" },
	Step: func(st, i, o interface{}) (bool, interface{}) {
		var l []rune = []rune(st.(string))
		op, out := i.(in), o.(int)
		e := rune(op.Id + 1)
		switch op.Op {
		case "append":
			return true, string(append(l, e))
		case "appendleft":
			return true, string(append([]rune{e}, l...))
		case "pop":
			if len(l) == 0 || int(l[len(l)-1])-1 != out {
				return false, st
			}
			return true, string(l[:len(l)-1])
		case "popleft":
			if len(l) == 0 || int(l[0])-1 != out {
				return false, st
			}
			return true, string(l[1:])
		case "first":
			return len(l) > 0 && int(l[0])-1 == out, st
		case "last":
			return len(l) > 0 && int(l[len(l)-1])-1 == out, st
		case "size":
			return len(l) == out, st
		case "clear":
			return true, ""
		}
		return false, st
	},
	DescribeOperation: func(i, o interface{}) string { return fmt.Sprint(i, "->", o) },
}

func apply(q *node.Queue, i in) int {
	switch i.Op {
	case "append":
		q.Append(node.Node{Id: i.Id})
	case "appendleft":
		q.AppendLeft(node.Node{Id: i.Id})
	case "pop":
		return q.Pop().Id
	case "popleft":
		return q.PopLeft().Id
	case "first":
		return q.First().Id
	case "last":
		return q.Last().Id
	case "size":
		return q.Size()
	case "clear":
		q.Clear()
	}
	return 0
}

type report struct {
	Histories, Ops, Overlaps, Sequential int
	Distinct                             []uint64
	Bad                                  string
	Sample                               string
}

func child(seed int64, n int) {
	r := rand.New(rand.NewSource(seed))
	var rep report
	for h := 0; h < n && rep.Bad == ""; h++ {
		q := node.NewQueue()
		t0 := time.Now()
		now := func() int64 { return int64(time.Since(t0)) }
		id := 0
		var ops []porcupine.Operation
		clients := 2 + r.Intn(4)
		each := 3 + r.Intn(5)
		if r.Intn(5) == 0 { // sequential, long, with everything
			var model []int
			for k := 0; k < 60+r.Intn(300) && rep.Bad == ""; k++ {
				id++
				i := in{[]string{"append", "appendleft", "pop", "popleft", "first", "last", "size", "append", "clear"}[r.Intn(8+h%2)], id}
				if i.Op == "clear" && r.Intn(10) > 0 {
					continue
				}
				want := 0
				if len(model) == 0 && strings.Contains("pop popleft first last", i.Op) {
					continue // the caller must know that something is queued
				}
				switch i.Op {
				case "append":
					model = append(model, id)
				case "appendleft":
					model = append([]int{id}, model...)
				case "pop":
					want, model = model[len(model)-1], model[:len(model)-1]
				case "popleft":
					want, model = model[0], model[1:]
				case "first":
					want = model[0]
				case "last":
					want = model[len(model)-1]
				case "size":
					want = len(model)
				case "clear":
					model = nil
				}
				if got := apply(q, i); got != want {
					rep.Bad = fmt.Sprintf("sequential: operation %d %v gives %d, want %d", k, i, got, want)
				}
				rep.Ops++
			}
			rep.Sequential++
			continue
		}
		// enough is queued for everything that will be taken; half the histories clear
		// instead of taking
		clearing := r.Intn(4) == 0
		for k := 0; k <= clients*each && !clearing; k++ {
			id++
			i := in{"append", id}
			s := now()
			o := apply(q, i)
			ops = append(ops, porcupine.Operation{ClientId: 0, Input: i, Call: s, Output: o, Return: now()})
		}
		plan := make([][]in, clients)
		for c := range plan {
			for k := 0; k < each; k++ {
				names := []string{"append", "appendleft", "pop", "popleft", "pop", "popleft", "first", "last", "size"}
				if clearing {
					names = []string{"append", "appendleft", "size", "size", "clear"}
				}
				id++
				plan[c] = append(plan[c], in{names[r.Intn(len(names))], id})
			}
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		gate := make(chan struct{})
		yield := r.Intn(3)
		for c := range plan {
			wg.Add(1)
			go func(c int) {
				defer wg.Done()
				var mine []porcupine.Operation
				<-gate
				for k, i := range plan[c] {
					if yield == 1 || yield == 2 && (c+k)%2 == 0 {
						runtime.Gosched()
					}
					s := now()
					o := apply(q, i)
					mine = append(mine, porcupine.Operation{ClientId: c + 1, Input: i, Call: s, Output: o, Return: now()})
				}
				mu.Lock()
				ops = append(ops, mine...)
				mu.Unlock()
			}(c)
		}
		close(gate)
		wg.Wait()
		for a := range ops {
			for b := a + 1; b < len(ops); b++ {
				if ops[a].ClientId != ops[b].ClientId && ops[a].Call < ops[b].Return && ops[b].Call < ops[a].Return {
					rep.Overlaps++
				}
			}
		}
		text := ""
		for _, o := range ops {
			text += fmt.Sprintf("[%d] %v->%v (%d..%d)\n", o.ClientId, o.Input, o.Output, o.Call, o.Return)
		}
		switch porcupine.CheckOperationsTimeout(model, ops, 20*time.Second) {
		case porcupine.Illegal:
			rep.Bad = "this history has no sequential order:\n" + text
		case porcupine.Unknown:
			continue
		}
		rep.Histories++
		rep.Ops += len(ops)
		shape := ""
		for _, o := range ops {
			shape += fmt.Sprint(o.ClientId, o.Input, o.Output, ";")
		}
		rep.Distinct = append(rep.Distinct, run.Hash(shape))
		rep.Sample = text
	}
	json.NewEncoder(os.Stdout).Encode(rep)
}

func main() {
	cs := flag.Int64("child", 0, "")
	cn := flag.Int("histories", 0, "")
	R := run.Start("C27")
	if *cn > 0 {
		child(*cs, *cn)
		return
	}
	R.Rule = "histories of 2 to 5 goroutines with 3 to 7 operations each (append and take at both ends, look, size; or append, size, clear) under the race detector, checked for linearizability; sequential histories of hundreds of operations against a list; non-trivial: concurrent histories"
	R.Assume = []string{"nothing is taken from, or looked at in, an empty queue", "schedules are those the runtime gives, with random yields"}
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	n := R.N(160, 3000)
	R.Parallel(n, func(j int, r *rand.Rand) {
		seed := R.Seed*100000 + int64(j)
		c := exec.Command(self, "-child", fmt.Sprint(seed), "-histories", "400")
		c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
		var errs strings.Builder
		c.Stderr = &errs
		out, err := runTimed(c, 240*time.Second)
		rep := map[string]interface{}{"child seed": seed, "stderr": errs.String()}
		switch {
		case strings.Contains(errs.String(), "WARNING: DATA RACE"):
			s := errs.String()
			if len(s) > 2500 {
				s = s[:2500]
			}
			R.Violate("data race on the queue:\n"+s, rep)
			return
		case err == errTimeout:
			R.Violate("operations on a queue with enough entries do not return", rep)
			return
		case err != nil:
			R.Violate(fmt.Sprintf("operations on a queue with enough entries fail: %v\n%s", err, errs.String()), rep)
			return
		}
		var got report
		if err := json.Unmarshal(out, &got); err != nil {
			R.Inconclusive("child: " + err.Error())
			return
		}
		R.Eval(got.Histories + got.Sequential)
		R.Count("concurrent histories", got.Histories)
		R.Count("sequential histories", got.Sequential)
		R.Count("operations", got.Ops)
		R.Count("overlapping pairs of operations", got.Overlaps)
		for _, h := range got.Distinct {
			R.Nontrivial(fmt.Sprint(h))
		}
		R.Sample(got.Sample)
		if got.Bad != "" {
			rep["history"] = got.Bad
			R.Violate(got.Bad, rep)
		}
	})
	R.Finish()
}

var errTimeout = fmt.Errorf("timeout")

func runTimed(c *exec.Cmd, d time.Duration) ([]byte, error) {
	var out strings.Builder
	c.Stdout = &out
	if err := c.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err := <-done:
		return []byte(out.String()), err
	case <-time.After(d):
		c.Process.Kill()
		<-done
		return nil, errTimeout
	}
}
