package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/roy2220/plainkv"
	"pgregory.net/rapid"
)

// ---- P23 ----
//
// The check is built with the race detector: besides comparing what each
// goroutine sees with what it sees alone, it fails when two goroutines that
// use different dictionaries touch the same memory.

func genParallel(t *rapid.T, profile string) *Case {
	c := &Case{}
	c.P = rapid.SliceOfN(rapid.SampledFrom([]int{kOD, kDict, kOD, kDict, kBPT, kHM}), 2, 5).Draw(t, "structures")
	cfg := profileCfg(profile, true)
	cfg.Fams = allFams
	cfg.MaxOps *= 3
	cfg.Reopen = false
	cfg.Kinds = withKinds(cfg.Kinds, "reopen", "iter", "iter")
	c.Ops = drawOps(t, cfg, func(t *rapid.T, kind string, o *Op) {
		o.X = rapid.IntRange(0, 1000).Draw(t, "from")
		o.R = rapid.Bool().Draw(t, "desc")
	})
	for i := range c.Ops {
		c.Ops[i].S = rapid.IntRange(0, 4).Draw(t, "structure")
	}
	return c
}

// planned is one call of a goroutine, worked out beforehand so that the
// goroutines share nothing of the harness while they run.
type planned struct {
	op   string
	k, v []byte
	ret  bool
}

type seen struct {
	what string
	sum  uint64
}

// plan works out the calls of one structure.
func plan(c *Case, i int) ([]planned, *Exec, error) {
	var calls []planned
	e := NewExec(&Handle{kind: c.P[i]})
	e.around = func(op string, k, v []byte, ret bool, call func() ([]byte, bool)) ([]byte, bool, error) {
		calls = append(calls, planned{op, append([]byte(nil), k...), append([]byte(nil), v...), ret})
		return nil, false, nil
	}
	e.onReopen = func() error { calls = append(calls, planned{op: "reopen"}); return nil }
	e.extra = func(o Op) error {
		p := planned{op: "iter", ret: o.R}
		if ks := e.M.Keys(); len(ks) > 0 {
			p.k = []byte(ks[o.X*(len(ks)-1)/1000])
		}
		calls = append(calls, p)
		return nil
	}
	for _, o := range c.Ops {
		if o.S%len(c.P) != i {
			continue
		}
		if err := e.Apply(o); err != nil {
			return nil, nil, err
		}
	}
	return append(calls, planned{op: "iter"}, planned{op: "reopen"}, planned{op: "iter", ret: true}), e, nil
}

// follow opens a store, makes the calls and closes it; it returns what it saw.
func follow(kind int, path string, calls []planned) (out []seen, err error) {
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	h := &Handle{kind: kind, path: path}
	defer h.Abandon()
	note := func(what string, parts ...[]byte) {
		s := fnv.New64a()
		for _, p := range parts {
			fmt.Fprintf(s, "%d:", len(p))
			s.Write(p)
		}
		out = append(out, seen{what, s.Sum64()})
	}
	err = guard(func() error {
		if err := h.doOpen(true); err != nil {
			return violf("Open: %v", err)
		}
		for n, p := range calls {
			what := fmt.Sprintf("call %d, %s(%s),", n, p.op, short(p.k))
			switch p.op {
			case "reopen":
				if err := h.Reopen(); err != nil {
					return violf("%s %v", what, err)
				}
			case "iter":
				var d [][2][]byte
				var err error
				if h.Ordered() && p.k != nil {
					lo, hi := p.k, plainkv.MaxKey
					if p.ret {
						lo, hi = plainkv.MinKey, p.k
					}
					d, err = readRange(h.Ranger(), lo, hi, p.ret, 1<<17)
				} else {
					d, err = h.Dump(1 << 17)
				}
				if err != nil {
					return violf("%s %v", what, err)
				}
				for _, r := range d {
					note(what, r[0], r[1])
				}
			default:
				kv := h.KV()
				var res []byte
				ok := true
				switch p.op {
				case "set":
					res = kv.Set(p.k, p.v, p.ret)
				case "setx":
					res, ok = kv.SetIfExists(p.k, p.v, p.ret)
				case "setnx":
					res, ok = kv.SetIfNotExists(p.k, p.v, p.ret)
				case "clear":
					res, ok = kv.Clear(p.k, p.ret)
				case "test":
					res, ok = kv.Test(p.k, p.ret)
				}
				note(what, res, []byte(fmt.Sprint(ok)))
			}
			note(what+" statistics", []byte(fmt.Sprint(h.Stats())))
		}
		if err := h.Close(); err != nil {
			return violf("Close: %v", err)
		}
		return nil
	})
	return
}

func differ(a, b []seen) string {
	for i := range a {
		if i >= len(b) {
			return a[i].what + " which happens only together with others"
		}
		if a[i] != b[i] {
			return a[i].what
		}
	}
	if len(b) > len(a) {
		return b[len(a)].what + " which happens only alone"
	}
	return ""
}

func runParallel(c *Case, r *Report) error {
	n := len(c.P)
	if n == 0 {
		return hfail(fmt.Errorf("no structures"))
	}
	plans := make([][]planned, n)
	total, most, busy := 0, 0, 0
	for i := range plans {
		p, e, err := plan(c, i)
		if err != nil {
			return err
		}
		plans[i] = p
		total += len(p)
		if e.Max > most {
			most = e.Max
		}
		if e.Max > 1 {
			busy++
		}
		for k, v := range e.seen {
			r.Count("op_"+k, v)
		}
	}
	start := time.Now()
	for try := 0; try < insist && (try == 0 || time.Since(start) < 15*time.Second); try++ {
		for i := 0; i < n; i++ {
			os.Remove(casePath(fmt.Sprint("together", i)))
			os.Remove(casePath(fmt.Sprint("alone", i)))
		}
		// Together first: what is initialised only once is then initialised by
		// several at once.
		races := raceErrors()
		outs, errs := make([][]seen, n), make([]error, n)
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-gate
				outs[i], errs[i] = follow(c.P[i], casePath(fmt.Sprint("together", i)), plans[i])
			}(i)
		}
		close(gate)
		wg.Wait()
		if raceErrors() > races {
			return raceReport("two goroutines that use different dictionaries share memory without synchronisation")
		}
		for i := 0; i < n; i++ {
			out, err := follow(c.P[i], casePath(fmt.Sprint("alone", i)), plans[i])
			if _, ok := err.(*HarnessError); ok {
				return err
			}
			if err != nil {
				return &Inconclusive{"a store fails by itself: " + err.Error()}
			}
			who := fmt.Sprintf("%d goroutines use a dictionary each; in number %d (%s)", n, i, kindNames[c.P[i]])
			if errs[i] != nil {
				if _, ok := errs[i].(*HarnessError); ok {
					return errs[i]
				}
				return violf("%s there is a failure that does not happen alone: %v", who, errs[i])
			}
			if d := differ(outs[i], out); d != "" {
				return violf("%s the result of %s is not what it is alone", who, d)
			}
		}
	}
	r.Count("calls", total)
	r.Label(fmt.Sprintf("goroutines_%d", n))
	if raceBuild {
		r.Label("with_race_detector")
	}
	r.Nontrivial = busy >= 2 && most >= 2
	return nil
}

// ---- reports of the race detector ----

var raceLogPos int

// raceReport turns the newest reports of the race detector into an error.
func raceReport(what string) error {
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", os.Getenv("VH_RACELOG"), os.Getpid()))
	if err != nil {
		return hfail(err)
	}
	text := string(b)
	if len(text) > raceLogPos {
		text, raceLogPos = text[raceLogPos:], len(text)
	}
	where := raceSites(text)
	if where == "" {
		return &HarnessError{"data race in the harness: " + tail(text, 4000)}
	}
	return violf("%s: %s", what, where)
}

// raceSites finds the accesses of the code under test in a report; each
// access is given with its call stack, innermost first.
func raceSites(text string) string {
	lines := strings.Split(text, "\n")
	var at []string
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if !strings.Contains(l, " by goroutine ") && !strings.Contains(l, " by main goroutine") {
			continue
		}
		for j := i + 1; j+1 < len(lines) && strings.TrimSpace(lines[j]) != ""; j += 2 {
			f := strings.TrimSpace(lines[j])
			if strings.HasPrefix(f, "main.") {
				break
			}
			if strings.HasPrefix(f, "github.com/roy2220/") {
				place := strings.TrimSpace(lines[j+1])
				if k := strings.LastIndex(place, " +0x"); k > 0 {
					place = place[:k]
				}
				at = append(at, strings.ToLower(strings.Fields(strings.TrimSpace(l))[0])+" in "+f[strings.LastIndex(f, "/")+1:]+" "+place[strings.LastIndex(place, "/")+1:])
				break
			}
		}
		if len(at) == 2 {
			break
		}
	}
	return strings.Join(at, "; ")
}

func init() {
	register(&Prop{ID: "P23",
		Rule: "rapid draws two to five dictionaries (both kinds and the bare structures) and a history for each with openings, iterations and reopens; they are run in a goroutine each at the same time, under the race detector, and then one after the other alone, and every result, statistic and pair must be the same. Non-trivial: at least two of them hold two keys.",
		Passes: stdPasses(
			[]Pass{{"small", 120, nil}, {"medium", 30, nil}},
			[]Pass{{"small", 3000, nil}, {"medium", 1000, nil}, {"large", 40, nil}}),
		Gen: genParallel, Run: runParallel})
}
