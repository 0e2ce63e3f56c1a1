package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"flag"
	"pgregory.net/rapid"
)

// Pass is one rapid campaign of a worker: n cases of one profile.
type Pass struct {
	Profile string
	N       int   // cases per worker
	Only    []int // workers that run it (nil: all)
}

// Prop is the check of one property.
type Prop struct {
	ID     string
	Rule   string
	Assume []string
	Passes func(tier string) []Pass
	Gen    func(t *rapid.T, profile string) *Case
	Run    func(c *Case, r *Report) error
}

var props = map[string]*Prop{}

// quickPercent scales the passes of a quick check, so that each takes about
// 10 to 20 seconds.
func quickPercent(id string) int {
	switch id {
	case "P01", "P10", "P20", "P23":
		return 120
	case "P07", "P14", "P15", "P18", "P19", "P25":
		return 600
	}
	return 220
}

func register(p *Prop) { props[p.ID] = p }

// Report collects what one case did.
type Report struct {
	Nontrivial bool
	Labels     map[string]int
}

func (r *Report) Label(l string)        { r.Labels[l]++ }
func (r *Report) Count(l string, n int) { r.Labels[l] += n }

// WorkerOut is what a worker tells the driver.
type WorkerOut struct {
	Evaluations  int
	Inconclusive int
	InconcMsg    string
	Nontrivial   []uint64 // hashes of distinct non-trivial cases
	Labels       map[string]int
	Profiles     map[string]int
	Samples      []*Case
	Failure      *Case
	FailMsg      string
	Harness      string
}

// insist tells the properties about several goroutines how often to repeat
// what may fail only now and then; it is raised when a failure is being
// reproduced or shrunk.
var insist = 1

// curCase is the case being run.
var curCase *Case

// runCase runs a case of a property, turning panics of the code under test
// into violations.
func runCase(p *Prop, c *Case) (rep *Report, err error) {
	rep = &Report{Labels: map[string]int{}}
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	defer cleanScratch()
	defer closeLive()
	curCase = c
	roomFor(c.Profile)
	err = guard(func() error { return p.Run(c, rep) })
	return
}

func caseHash(c *Case) uint64 {
	b, _ := json.Marshal(c)
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

type stopRapid struct{}

// quietTB is the rapid.TB of a campaign.
type quietTB struct {
	failed bool
	log    []string
}

func (q *quietTB) Helper()                           {}
func (q *quietTB) Name() string                      { return "campaign" }
func (q *quietTB) Logf(f string, a ...interface{})   { q.log = append(q.log, fmt.Sprintf(f, a...)) }
func (q *quietTB) Log(a ...interface{})              { q.log = append(q.log, fmt.Sprint(a...)) }
func (q *quietTB) Skipf(f string, a ...interface{})  { panic(stopRapid{}) }
func (q *quietTB) Skip(a ...interface{})             { panic(stopRapid{}) }
func (q *quietTB) SkipNow()                          { panic(stopRapid{}) }
func (q *quietTB) Errorf(f string, a ...interface{}) { q.Logf(f, a...); q.failed = true }
func (q *quietTB) Error(a ...interface{})            { q.Log(a...); q.failed = true }
func (q *quietTB) Fatalf(f string, a ...interface{}) { q.Errorf(f, a...); panic(stopRapid{}) }
func (q *quietTB) Fatal(a ...interface{})            { q.Error(a...); panic(stopRapid{}) }
func (q *quietTB) FailNow()                          { q.failed = true; panic(stopRapid{}) }
func (q *quietTB) Fail()                             { q.failed = true }
func (q *quietTB) Failed() bool                      { return q.failed }

const (
	cpuLimitPerCase = 90 * time.Second
)

var rssLimitBytes atomic.Int64

var caseCPUStart atomic.Int64

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var a, r int64
	fmt.Sscan(string(b), &a, &r)
	return r * int64(os.Getpagesize())
}

// Exit codes of worker and replay processes.
const (
	exOK      = 0
	exViol    = 1
	exHarness = 3
	exRunaway = 4 // a case used more CPU time or memory than any case can need
	exUsage   = 64
)

func watchdog() {
	roomFor("")
	caseCPUStart.Store(int64(cpuTime()))
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			if cpuTime()-time.Duration(caseCPUStart.Load()) > cpuLimitPerCase {
				fmt.Fprintln(os.Stderr, "runaway: a case used too much CPU time")
				if os.Getenv("VH_DEBUG") != "" {
					buf := make([]byte, 1<<16)
					os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				}
				os.Exit(exRunaway)
			}
			if rss() > rssLimitBytes.Load() {
				fmt.Fprintln(os.Stderr, "runaway: a case used too much memory")
				os.Exit(exRunaway)
			}
		}
	}()
}

func writeJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0644)
}

// runWorker runs the campaigns of one worker.
func runWorker(p *Prop, tier string, seed, worker int, outPath string) int {
	testing.Init()
	flag.CommandLine.Parse(nil)
	out := &WorkerOut{Labels: map[string]int{}, Profiles: map[string]int{}}
	watchdog()
	seen := map[uint64]bool{}
	cur := casePath("current.json")
	passes := append([]Pass(nil), p.Passes(tier)...)
	for i := range passes {
		if tier != "thorough" {
			passes[i].N = passes[i].N * quickPercent(p.ID) / 100
		}
	}
	passes = append(passes, extraPasses(p.ID, tier)...)
	for pi, pass := range passes {
		if only := os.Getenv("VH_ONLY"); only != "" && only != pass.Profile { // for trying passes out
			continue
		}
		if pass.Only != nil {
			mine := false
			for _, w := range pass.Only {
				mine = mine || w == worker
			}
			if !mine {
				continue
			}
		}
		flag.Set("rapid.checks", fmt.Sprint(pass.N))
		flag.Set("rapid.seed", fmt.Sprint(mix(uint64(seed)<<20+uint64(worker)<<8+uint64(pi))>>1|1))
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", "20s")
		tb := &quietTB{}
		var fail *Case
		var failMsg, harness string
		var shrinkRuns int
		var shrinkT time.Time
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(stopRapid); !ok {
						harness = fmt.Sprint(r)
					}
				}
			}()
			rapid.Check(tb, func(t *rapid.T) {
				if harness != "" {
					return
				}
				c := p.Gen(t, pass.Profile)
				fillHole(c)
				c.Prop, c.Profile = p.ID, pass.Profile
				if fail != nil {
					shrinkRuns++
					if shrinkRuns > 400 || time.Since(shrinkT) > 25*time.Second {
						// enough: let rapid finish quickly
						if caseHash(c) != caseHash(fail) {
							return
						}
						t.Fatalf("same")
					}
				}
				b, _ := json.Marshal(c)
				os.WriteFile(cur, b, 0644)
				caseCPUStart.Store(int64(cpuTime()))
				rep, err := runCase(p, c)
				if fail == nil {
					if _, ok := err.(*Inconclusive); ok {
						out.Inconclusive++
						out.InconcMsg = err.Error()
					} else {
						out.Evaluations++
						out.Profiles[pass.Profile]++
						for l, n := range rep.Labels {
							out.Labels[l] += n
						}
						if h := caseHash(c); rep.Nontrivial && !seen[h] {
							seen[h] = true
							out.Nontrivial = append(out.Nontrivial, h)
							if len(out.Samples) < 2 && len(b) < 3000 {
								out.Samples = append(out.Samples, c)
							}
						}
					}
				}
				switch e := err.(type) {
				case *Viol:
					if fail == nil {
						shrinkT = time.Now()
					}
					fail, failMsg = c, e.msg
					insist = 20
					t.Fatalf("violation")
				case *HarnessError:
					harness = e.msg
				}
			})
		}()
		if harness != "" {
			out.Harness = harness
			break
		}
		if fail == nil && tb.failed {
			out.Harness = "rapid: " + strings.Join(tb.log, "; ")
			break
		}
		if fail != nil {
			writeJSON(outPath+".fail", fail) // in case minimising goes wrong
			fail, failMsg = minimise(p, fail, failMsg)
			out.Failure, out.FailMsg = fail, failMsg
			break
		}
	}
	if err := writeJSON(outPath, out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exHarness
	}
	if out.Harness != "" {
		return exHarness
	}
	return exOK
}

// minimise shrinks a failing case further: removes ops, then reduces numbers.
func minimise(p *Prop, c *Case, msg string) (*Case, string) {
	deadline := time.Now().Add(20 * time.Second)
	budget := 600
	try := func(d *Case) bool {
		if budget--; budget < 0 || time.Now().After(deadline) {
			return false
		}
		caseCPUStart.Store(int64(cpuTime()))
		_, err := runCase(p, d)
		if v, ok := err.(*Viol); ok {
			c, msg = d, v.msg
			return true
		}
		return false
	}
	clone := func(ops []Op) *Case {
		d := *c
		d.Ops = append([]Op(nil), ops...)
		d.P = append([]int(nil), c.P...)
		return &d
	}
	for chunk := (len(c.Ops) + 1) / 2; chunk >= 1; {
		removed := false
		for i := 0; i+chunk <= len(c.Ops); {
			ops := append(append([]Op(nil), c.Ops[:i]...), c.Ops[i+chunk:]...)
			if try(clone(ops)) {
				removed = true
			} else {
				i += chunk
			}
		}
		if chunk == 1 && !removed {
			break
		}
		if chunk > 1 {
			chunk = (chunk + 1) / 2
		}
		if budget < 0 || time.Now().After(deadline) {
			break
		}
	}
	for changed := true; changed && budget > 0; {
		changed = false
		for i := range c.Ops {
			for f := 0; f < 9; f++ {
				for {
					d := clone(c.Ops)
					fld := opField(&d.Ops[i], f)
					old := *fld
					if old == 0 {
						break
					}
					ok := false
					for _, nv := range []int{0, old / 2, old - old/8 - 1, old - 1} {
						if nv == old || nv < 0 {
							continue
						}
						d = clone(c.Ops)
						*opField(&d.Ops[i], f) = nv
						if try(d) {
							ok, changed = true, true
							break
						}
					}
					if !ok || budget < 0 {
						break
					}
				}
			}
		}
	}
	return c, msg
}

func opField(o *Op, f int) *int {
	return []*int{&o.N, &o.I, &o.V, &o.W, &o.M, &o.X, &o.Y, &o.Fam, new(int)}[f]
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
