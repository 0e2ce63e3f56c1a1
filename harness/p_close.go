package main

import (
	"bufio"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// ---- P24: what an open dictionary holds of the process ----

// held lists what the process holds of the files below the scratch
// directory: open files and mappings, by path.
func held() (fds, maps map[string]int, err error) {
	fds, maps = map[string]int{}, map[string]int{}
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return nil, nil, hfail(err)
	}
	prefix := scratch + "/"
	for _, e := range ents {
		l, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.HasPrefix(l, prefix) {
			fds[strings.TrimSuffix(l, " (deleted)")]++
		}
	}
	f, err := os.Open("/proc/self/maps")
	if err != nil {
		return nil, nil, hfail(err)
	}
	defer f.Close()
	for s := bufio.NewScanner(f); s.Scan(); {
		if i := strings.Index(s.Text(), prefix); i >= 0 {
			maps[strings.TrimSuffix(s.Text()[i:], " (deleted)")]++
		}
	}
	return fds, maps, nil
}

// checkHeld compares what is held with the open dictionaries.
func checkHeld(open map[string]bool, when string) error {
	fds, maps, err := held()
	if err != nil {
		return err
	}
	for p, n := range fds {
		if !open[p] {
			return violf("%s: %d descriptors of %s are open although no dictionary is", when, n, filepath.Base(p))
		}
		if n > 1 {
			return violf("%s: an open dictionary holds %d descriptors of its file", when, n)
		}
	}
	for p, n := range maps {
		if !open[p] {
			return violf("%s: %s is still mapped (%d mappings) although no dictionary is open on it", when, filepath.Base(p), n)
		}
	}
	return nil
}

func genClose(t *rapid.T, profile string) *Case {
	c := genOpen(t, profile)
	// further dictionaries that stay open meanwhile
	c.P = rapid.SliceOfN(rapid.SampledFrom([]int{kOD, kDict}), 0, 3).Draw(t, "others")
	for i := range c.Ops {
		if c.Ops[i].K != "open" {
			c.Ops[i].S = rapid.IntRange(0, 3).Draw(t, "which")
		}
	}
	return c
}

func runClose(c *Case, r *Report) error {
	for tries := 0; ; tries++ { // finalizers of earlier cases
		fds, _, err := held()
		if err != nil {
			return err
		}
		if len(fds) == 0 {
			break
		}
		if tries == 20 {
			return &Inconclusive{"files of an earlier case are open"}
		}
		runtime.GC()
		time.Sleep(time.Millisecond)
	}
	goroutines := runtime.NumGoroutine()
	n := len(c.Ops)
	for n > 0 && c.Ops[n-1].K == "open" {
		n--
	}
	e, err := openCase(c)
	if err != nil {
		return err
	}
	open := map[string]bool{e.H.path: true}
	if c.B > 0 {
		if err := checkHeld(open, "after opening"); err != nil {
			return err
		}
	}
	es := []*Exec{e}
	for i, k := range c.P {
		h, err := OpenHandle(k, casePath(fmt.Sprint("other", i)))
		if err != nil {
			return violf("Open: %v", err)
		}
		open[h.path] = true
		es = append(es, NewExec(h))
	}
	if err := checkHeld(open, "after opening"); err != nil {
		return err
	}
	closes := 0
	for _, e := range es {
		e := e
		e.onReopen = func() error {
			h := e.H
			if err := h.Close(); err != nil {
				return violf("Close returned %v", err)
			}
			closes++
			open[h.path] = false
			if err := checkHeld(open, "after Close"); err != nil {
				return err
			}
			if err := h.doOpen(false); err != nil {
				return violf("a file just closed cannot be opened: %v", err)
			}
			open[h.path] = true
			return checkHeld(open, "after opening again")
		}
	}
	for _, o := range c.Ops[:n] {
		e := es[o.S%len(es)]
		if err := guard(func() error { return e.Apply(o) }); err != nil {
			if v, ok := err.(*Viol); ok && strings.HasPrefix(v.msg, "panic") {
				return &Inconclusive{err.Error()}
			}
			return err
		}
	}
	if err := checkHeld(open, "after operations"); err != nil {
		return err
	}
	if err := e.onReopen(); err != nil {
		return err
	}
	if err := e.H.Close(); err != nil {
		return violf("Close returned %v", err)
	}
	open[e.H.path] = false
	dir := casePath("opens")
	failed, oks := 0, 0
	for _, o := range c.Ops[n:] {
		if err := os.MkdirAll(dir, 0755); err != nil {
			return hfail(err)
		}
		what := fmt.Sprintf("after %d openings and closings of a path (%s), creation asked for: %v", o.Y+1, pathStates[o.X], o.R)
		_, f, err := tryOpen(c, e, dir, o)
		if err != nil {
			if _, ok := err.(*Viol); ok {
				return &Inconclusive{"opening goes wrong: " + err.Error()}
			}
			return err
		}
		if f {
			failed++
			what = fmt.Sprintf("after %d openings of a path (%s) that failed, creation asked for: %v", o.Y+1, pathStates[o.X], o.R)
		} else {
			oks++
		}
		if err := checkHeld(open, what); err != nil {
			return err
		}
		if err := os.RemoveAll(dir); err != nil {
			return hfail(err)
		}
		r.Label("state_" + pathStates[o.X])
	}
	for _, e := range es[1:] {
		if err := e.H.Close(); err != nil {
			return violf("Close returned %v", err)
		}
		open[e.H.path] = false
		closes++
	}
	if err := checkHeld(open, "after all were closed"); err != nil {
		return err
	}
	for tries := 0; runtime.NumGoroutine() > goroutines; tries++ {
		if tries == 200 {
			return violf("%d goroutines are running after all dictionaries were closed, %d before they were opened", runtime.NumGoroutine(), goroutines)
		}
		time.Sleep(time.Millisecond)
	}
	opLabels(e, r)
	r.Count("closes_checked", closes)
	r.Count("opens_that_failed", failed)
	r.Count("opens_that_succeeded", oks)
	r.Nontrivial = closes > 0 && failed+oks > 0
	return nil
}

func init() {
	register(&Prop{ID: "P24",
		Rule:   "rapid draws a history on one to four dictionaries open at once, with reopens, and up to twelve openings of paths in the states of P16, repeated up to four times; after every opening and closing the process's open files and mappings below the case's directory must be one descriptor for each open dictionary and none else, Close must return no error, and no goroutine may be left. Non-trivial: a close and a further opening were examined.",
		Assume: []string{"/proc/self/fd and /proc/self/maps tell the open files and mappings"},
		Passes: stdPasses(
			[]Pass{{"small", 300, nil}, {"medium", 60, nil}},
			[]Pass{{"small", 8000, nil}, {"medium", 2000, nil}, {"large", 60, nil}}),
		Gen: genClose, Run: runClose})
}
