package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

const numWorkers = 8

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh check PROP | vh replay FILE | vh list")
		os.Exit(exUsage)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "worker":
		p := props[os.Args[2]]
		seed, _ := strconv.Atoi(os.Args[4])
		w, _ := strconv.Atoi(os.Args[5])
		scratch = os.Args[6]
		os.Exit(runWorker(p, os.Args[3], seed, w, os.Args[7]))
	case "replaycase":
		scratch = os.Args[3]
		os.Exit(replayCase(os.Args[2]))
	case "trace":
		scratch = os.Args[3]
		trace = os.Stdout
		os.Exit(replayCase(os.Args[2]))
	case "list":
		for _, id := range propIDs() {
			fmt.Println(id)
		}
	default:
		os.Exit(exUsage)
	}
}

func propIDs() []string {
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

func scratchRoot() (string, error) {
	base := os.TempDir()
	var st syscall.Statfs_t
	if syscall.Statfs("/dev/shm", &st) == nil && uint64(st.Bsize)*st.Bavail > 4<<30 {
		if d, err := os.MkdirTemp("/dev/shm", "vh"); err == nil {
			return d, nil
		}
	}
	return os.MkdirTemp(base, "vh")
}

// loadCase reads a replay file.
func loadCase(path string) (*Case, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var f struct {
		Case *Case `json:"case"`
	}
	if err := json.Unmarshal(b, &f); err == nil && f.Case != nil {
		return f.Case, nil
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		return nil, err
	}
	return &c, nil
}

// replayCase runs one case in this process, without rapid.
func replayCase(path string) int {
	c, err := loadCase(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exHarness
	}
	p := props[c.Prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no property", c.Prop)
		return exHarness
	}
	watchdog()
	insist = 100
	_, err = runCase(p, c)
	switch e := err.(type) {
	case nil:
		fmt.Println("holds")
		return exOK
	case *Viol:
		fmt.Println(e.msg)
		return exViol
	case *Inconclusive:
		fmt.Println("inconclusive:", e.msg)
		return exOK
	}
	fmt.Fprintln(os.Stderr, err)
	return exHarness
}

// spawnReplay runs a case in a fresh process; a crash or a runaway counts as
// a failure of the case.
func spawnReplay(path string) (bad bool, msg string, harness bool) {
	dir, err := scratchRoot()
	if err != nil {
		return false, err.Error(), true
	}
	defer os.RemoveAll(dir)
	run := filepath.Join(dir, "run")
	os.Mkdir(run, 0755)
	cmd := exec.Command(os.Args[0], "replaycase", path, run)
	cmd.Env = raceEnv(filepath.Join(dir, "race"))
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	code := cmd.ProcessState.ExitCode()
	switch {
	case err == nil:
		return false, strings.TrimSpace(so.String()), false
	case code == exViol:
		return true, strings.TrimSpace(so.String()), false
	case code == exRunaway:
		return true, "a case that takes well under a second normally does not end: " + strings.TrimSpace(se.String()), false
	case code == 2 && isGoCrash(se.String()):
		return true, "the process crashed: " + firstLine(se.String()), false
	}
	return false, fmt.Sprintf("replay process: %v: %s", err, se.String()), true
}

// raceEnv makes a process with the race detector write its reports to a file
// and go on.
func raceEnv(log string) []string {
	return append(os.Environ(), "VH_RACELOG="+log,
		"GORACE=log_path="+log+" halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0")
}

// isGoCrash tells a crash of the code (fatal error of the Go runtime,
// unrecovered panic) from an ended process.
func isGoCrash(s string) bool {
	if strings.Contains(s, "out of memory") || strings.Contains(s, "cannot allocate memory") {
		return false
	}
	return strings.Contains(s, "fatal error:") || strings.Contains(s, "panic:") || strings.Contains(s, "unexpected fault address") || strings.Contains(s, "SIGBUS") || strings.Contains(s, "SIGSEGV")
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error:") || strings.Contains(l, "panic:") || strings.Contains(l, "fault") {
			return l
		}
	}
	return strings.SplitN(s, "\n", 2)[0]
}

// Campaign names the whole run of one worker.  It is what is replayed when a
// failure depends on the cases before it, through state of the process.
type Campaign struct {
	Prop   string `json:"prop"`
	Tier   string `json:"tier"`
	Seed   int    `json:"seed"`
	Worker int    `json:"worker"`
}

func loadCampaign(path string) *Campaign {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var f struct {
		Campaign *Campaign `json:"campaign"`
	}
	if json.Unmarshal(b, &f) != nil || f.Campaign == nil || props[f.Campaign.Prop] == nil {
		return nil
	}
	return f.Campaign
}

// spawnCampaign runs a worker again; it returns what it finds.
func spawnCampaign(c *Campaign) (bad bool, msg string, harness bool) {
	root, err := scratchRoot()
	if err != nil {
		return false, err.Error(), true
	}
	defer os.RemoveAll(root)
	o, crash, err := runWorkerProcess(root, c)
	switch {
	case o != nil && o.Failure != nil:
		return true, o.FailMsg + " (after the cases before it in the same process)", false
	case o != nil && o.Harness == "":
		return false, "holds", false
	case o != nil:
		return false, o.Harness, true
	case isGoCrash(crash):
		return true, "the process crashed: " + firstLine(crash), false
	}
	return false, fmt.Sprintf("worker %d: %v: %s", c.Worker, err, tail(crash, 2000)), true
}

// runWorkerProcess runs one worker below root; without a result, it returns
// what the process wrote as it ended.
func runWorkerProcess(root string, c *Campaign) (*WorkerOut, string, error) {
	dir := filepath.Join(root, fmt.Sprint("w", c.Worker))
	os.Mkdir(dir, 0755)
	outPath := filepath.Join(root, fmt.Sprintf("out%d.json", c.Worker))
	cmd := exec.Command(os.Args[0], "worker", c.Prop, c.Tier, fmt.Sprint(c.Seed), fmt.Sprint(c.Worker), dir, outPath)
	cmd.Env = raceEnv(filepath.Join(root, fmt.Sprint("race", c.Worker)))
	var se bytes.Buffer
	cmd.Stderr = &se
	err := cmd.Run()
	b, rerr := os.ReadFile(outPath)
	var o WorkerOut
	if rerr == nil && json.Unmarshal(b, &o) == nil {
		return &o, "", nil
	}
	return nil, se.String(), err
}

func replay(path string) int {
	bad, msg, harness := false, "", false
	if c := loadCampaign(path); c != nil {
		bad, msg, harness = spawnCampaign(c)
	} else {
		bad, msg, harness = spawnReplay(path)
	}
	fmt.Println(msg)
	if harness {
		return exHarness
	}
	if bad {
		return 1
	}
	return 0
}

func verifDir() string {
	if d := os.Getenv("VH_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

func check(id string) int {
	start := time.Now()
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no property", id)
		return exUsage
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	root, err := scratchRoot()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exHarness
	}
	defer os.RemoveAll(root)

	type found struct {
		c    *Case
		msg  string
		camp *Campaign
	}
	var finds []found
	harness := ""

	// Replays of the failures of earlier defects come first.
	regress, _ := filepath.Glob(filepath.Join(verifDir(), "regress", id, "*.json"))
	sort.Strings(regress)
	known := loadKnown(id)
	replayed := 0
	for _, f := range regress {
		bad, msg, h := spawnReplay(f)
		if h {
			harness = msg
			break
		}
		replayed++
		if bad {
			if k, ok := known[filepath.Base(f)]; ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
				continue
			}
			c, _ := loadCase(f)
			finds = append(finds, found{c, msg, nil})
		}
	}

	outs := make([]*WorkerOut, numWorkers)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for w := 0; w < numWorkers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			camp := &Campaign{id, tier, seed, w}
			o, crash, err := runWorkerProcess(root, camp)
			if o != nil {
				mu.Lock()
				outs[w] = o
				if o.Harness != "" {
					harness = o.Harness
				}
				if o.Failure != nil {
					finds = append(finds, found{o.Failure, o.FailMsg, camp})
				}
				mu.Unlock()
				return
			}
			// The worker died.  If the case it was running kills a fresh
			// process too, that is a violation; otherwise an error.
			for _, f := range []string{filepath.Join(root, fmt.Sprintf("out%d.json.fail", w)), filepath.Join(root, fmt.Sprint("w", w), "current.json")} {
				c, lerr := loadCase(f)
				if lerr != nil {
					continue
				}
				cp := filepath.Join(root, fmt.Sprintf("crash%d.json", w))
				writeJSON(cp, c)
				bad, msg, h := spawnReplay(cp)
				if bad && !h {
					mu.Lock()
					finds = append(finds, found{c, msg, nil})
					mu.Unlock()
					return
				}
			}
			mu.Lock()
			if isGoCrash(crash) {
				finds = append(finds, found{nil, "the process crashed: " + firstLine(crash), camp})
			} else {
				harness = fmt.Sprintf("worker %d: %v: %s", w, err, tail(crash, 2000))
			}
			mu.Unlock()
		}(w)
	}
	wg.Wait()

	// Aggregate.
	ev := evidence{Property: id, Tier: tier, Seed: seed, Level: "exploration", Assumptions: p.Assume}
	evals, inconc := 0, 0
	labels, profiles := map[string]int{}, map[string]int{}
	distinct := map[uint64]bool{}
	var samples []*Case
	inmsg := ""
	for _, o := range outs {
		if o == nil {
			continue
		}
		evals += o.Evaluations
		inconc += o.Inconclusive
		if o.InconcMsg != "" {
			inmsg = o.InconcMsg
		}
		for k, v := range o.Labels {
			labels[k] += v
		}
		for k, v := range o.Profiles {
			profiles[k] += v
		}
		for _, h := range o.Nontrivial {
			distinct[h] = true
		}
		if len(samples) < 4 && len(o.Samples) > 0 {
			samples = append(samples, o.Samples[len(o.Samples)-1])
		}
	}
	ev.Coverage = map[string]interface{}{
		"evaluations":         evals,
		"distinct_nontrivial": len(distinct),
		"rule":                p.Rule,
		"samples":             samples,
		"cases_by_profile":    profiles,
		"observed":            labels,
		"inconclusive":        inconc,
		"regression_replays":  replayed,
		"workers":             numWorkers,
	}
	if inmsg != "" {
		ev.Coverage["inconclusive_example"] = inmsg
	}
	ev.WallS = float64(int(time.Since(start).Seconds()*100)) / 100
	ev.Violations = len(finds)
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	if err := writeJSON(filepath.Join(verifDir(), "evidence", id+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exHarness
	}

	if len(finds) > 0 {
		// Report the shortest; confirm it in a fresh process.
		sort.SliceStable(finds, func(i, j int) bool { return caseLen(finds[i].c) < caseLen(finds[j].c) })
		dir := filepath.Join(verifDir(), "replays")
		os.MkdirAll(dir, 0755)
		report := func(path, msg string) int {
			fmt.Printf("%s: %s\n", id, msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			return 1
		}
		for _, f := range finds {
			if f.c == nil {
				continue
			}
			path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", id, caseHash(f.c)))
			writeJSON(path, map[string]interface{}{"property": id, "what": f.msg, "seed": seed, "tier": tier, "case": f.c})
			bad, msg, _ := spawnReplay(path)
			if bad {
				return report(path, msg)
			}
			os.Remove(path)
			fmt.Fprintf(os.Stderr, "not reproduced in a fresh process: %s\n", f.msg)
			harness = "a failure did not reproduce: " + f.msg
		}
		// None fails by itself: run one of the workers again.
		for _, f := range finds {
			if f.camp == nil {
				continue
			}
			bad, msg, _ := spawnCampaign(f.camp)
			if bad {
				path := filepath.Join(dir, fmt.Sprintf("%s-worker%d-seed%d.json", id, f.camp.Worker, seed))
				writeJSON(path, map[string]interface{}{"property": id, "what": msg, "campaign": f.camp, "case_reached": f.c})
				return report(path, msg)
			}
			harness = "a failure did not reproduce: " + f.msg
			break
		}
	}
	if harness != "" {
		fmt.Fprintln(os.Stderr, "check error:", harness)
		return exHarness
	}
	fmt.Printf("%s holds: %d cases, %d distinct non-trivial, %d inconclusive, %d replays, %.1f s\n", id, evals, len(distinct), inconc, replayed, time.Since(start).Seconds())
	return 0
}

func caseLen(c *Case) int {
	if c == nil {
		return 1 << 30
	}
	b, _ := json.Marshal(c)
	return len(b)
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// loadKnown reads the findings recorded (not repaired) for a property:
//
//	finding: property=P03 replay=name.json what fails
//
// maps the replay file's name to the text.
func loadKnown(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "finding:" || f[1] != "property="+id || !strings.HasPrefix(f[2], "replay=") {
			continue
		}
		m[strings.TrimPrefix(f[2], "replay=")] = strings.Join(f[3:], " ")
	}
	return m
}
