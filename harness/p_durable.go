package main

import (
	"fmt"

	"pgregory.net/rapid"
)

// ---- P05, P06: closing and reopening changes nothing ----
//
// Two stores run the same history; only one of them is closed and reopened.
// Every result, statistic (but the space manager's) and dump must agree.

func genDurable(ordered bool, kinds []int) func(t *rapid.T, profile string) *Case {
	return func(t *rapid.T, profile string) *Case {
		c := &Case{Kind: rapid.SampledFrom(kinds).Draw(t, "store")}
		drawBallast(t, c)
		drawHole(t, c, profile)
		periods := []int{0, 0, 1, 2, 3, 7, 31, 200}
		if profile != "small" {
			periods = []int{0, 0, 0, 7, 31, 200, 1000}
		}
		if profile == "giant" || profile == "dirs" || profile == "tall" || profile == "aim" {
			periods = []int{0, 500, 3000}
		}
		switch profile {
		case "vast":
			periods = []int{0}
		case "many":
			periods = []int{0, 30000}
		case "2g":
			periods = []int{0}
		}
		c.P = []int{rapid.SampledFrom(periods).Draw(t, "period"), rapid.IntRange(0, 3).Draw(t, "atstart")}
		if g := scenario(t, profile, ordered); g != nil {
			for _, o := range g {
				c.Ops = append(c.Ops, o)
				if rapid.Bool().Draw(t, "reopen") {
					c.Ops = append(c.Ops, Op{K: "reopen"})
				}
			}
			return c
		}
		cfg := profileCfg(profile, ordered)
		cfg.Reopen = false
		cfg.Kinds = withKinds(cfg.Kinds, "reopen", "reopen", "reopen")
		if ordered {
			cfg.Kinds = withKinds(cfg.Kinds, "range")
		}
		c.Ops = drawOps(t, cfg, drawRange)
		return c
	}
}

// runEnormous is runDurable for values so large that a twin would take too
// much memory.
func runEnormous(c *Case, r *Report) error {
	e, err := openCase(c)
	if err != nil {
		return err
	}
	e.Check = true
	n := 0
	e.onReopen = func() error {
		n++
		before := e.H.Stats()
		if err := e.H.Reopen(); err != nil {
			return violf("%v", err)
		}
		after := e.H.Stats()
		before.Allocated, after.Allocated = 0, 0
		if before != after {
			return violf("statistics changed over a reopen: %+v, before %+v", after, before)
		}
		return nil
	}
	for _, o := range c.Ops {
		if err := e.Apply(o); err != nil {
			return err
		}
	}
	if err := e.onReopen(); err != nil {
		return err
	}
	if err := verifyDump(e.H, e.M); err != nil {
		return err
	}
	opLabels(e, r)
	r.Count("reopens", n)
	r.Nontrivial = true
	return nil
}

func runDurable(c *Case, r *Report) error {
	for _, o := range c.Ops {
		if o.V == val2G {
			return runEnormous(c, r)
		}
	}
	h, err := openStore(c, "db")
	if err != nil {
		return err
	}
	h2, err := openStore(c, "twin")
	if err != nil {
		return err
	}
	reopens, nonempty := 0, false
	l := NewLock(NewExec(h), NewExec(h2), func() string { return fmt.Sprintf("after %d reopens", reopens) }, "without reopening")
	reopen := func() error {
		reopens++
		nonempty = nonempty || l.e.M.Len() > 0
		before := h.Stats()
		if err := h.Reopen(); err != nil {
			return violf("%v", err)
		}
		after := h.Stats()
		before.Allocated, after.Allocated = 0, 0
		if before != after {
			return violf("statistics changed over a reopen: %+v, before %+v", after, before)
		}
		return nil
	}
	l.e.onReopen = reopen
	calls := 0
	if c.P[0] > 0 {
		l.e.after = func(op string, k, v []byte) error {
			if calls++; calls%c.P[0] == 0 {
				return reopen()
			}
			return nil
		}
	}
	for i := 0; i < c.P[1]; i++ {
		if err := reopen(); err != nil {
			return err
		}
	}
	for i, o := range c.Ops {
		if err := l.Apply(o); err != nil {
			return err
		}
		if i == len(c.Ops)-1 || o.K == "reopen" && l.e.M.Len() < 2000 {
			if err := l.Compare(); err != nil {
				return err
			}
		}
	}
	if err := reopen(); err != nil {
		return err
	}
	if err := l.Compare(); err != nil {
		return err
	}
	// the copy that was never closed before is closed once, at the very end
	if err := guard(func() error { return h2.Reopen() }); err != nil {
		return violf("closing and reopening once at the end: %v", err)
	}
	l.twinTrusted = false
	if err := l.Compare(); err != nil {
		return err
	}
	opLabels(l.e, r)
	r.Count("reopens", reopens)
	r.Nontrivial = l.e.Max >= 2 && reopens > 0 && nonempty
	return nil
}

func init() {
	rule := "rapid draws a history and the places of reopens in it (as steps, every n-th call, several at the start); a twin store runs the same history without reopening, and every result, statistic, range query and dump is compared. Non-trivial: at least two keys held and at least one reopen of a non-empty store."
	register(&Prop{ID: "P05", Rule: rule,
		Passes: stdPasses(
			[]Pass{{"small", 250, nil}, {"medium", 60, nil}, {"large", 6, nil}, {"tall", 2, nil}, {"waves", 8, nil}, {"aim", 8, nil}},
			[]Pass{{"small", 8000, nil}, {"medium", 2500, nil}, {"large", 200, nil}, {"tall", 40, nil}, {"waves", 160, nil}, {"aim", 150, nil}}),
		Gen: genDurable(true, []int{kOD, kOD, kBPT}), Run: runDurable})
	register(&Prop{ID: "P06", Rule: rule,
		Passes: stdPasses(
			[]Pass{{"small", 250, nil}, {"medium", 60, nil}, {"large", 6, nil}, {"dirs", 2, nil}, {"giant", 1, []int{0, 1, 2}}},
			[]Pass{{"small", 8000, nil}, {"medium", 2500, nil}, {"large", 200, nil}, {"dirs", 50, nil}, {"giant", 12, nil}}),
		Gen: genDurable(false, []int{kDict, kDict, kHM}), Run: runDurable})
}
