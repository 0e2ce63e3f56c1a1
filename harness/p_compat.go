package main

import (
	"fmt"

	"pgregory.net/rapid"
)

// ---- P13: files go back and forth between this version and the pinned one ----

func genCompat(t *rapid.T, profile string) *Case {
	c := &Case{Kind: rapid.SampledFrom([]int{kOD, kDict}).Draw(t, "store")}
	switch profile {
	case "tall", "waves", "aim", "lofty":
		c.Kind = kOD
	case "dirs", "giant":
		c.Kind = kDict
	}
	drawBallast(t, c)
	drawHole(t, c, profile)
	ordered := c.Kind == kOD
	// which version begins
	c.P = []int{rapid.IntRange(0, 1).Draw(t, "first")}
	if g := scenario(t, profile, ordered); g != nil {
		for i, o := range g {
			c.Ops = append(c.Ops, o)
			if i < 2 || rapid.Bool().Draw(t, "switch") {
				c.Ops = append(c.Ops, Op{K: "reopen", X: 1})
			}
		}
		return c
	}
	cfg := profileCfg(profile, ordered)
	cfg.Reopen = false
	cfg.Kinds = withKinds(cfg.Kinds, "switch", "switch", "switch")
	c.Ops = drawOps(t, cfg, nil)
	for i := range c.Ops {
		if c.Ops[i].K == "switch" {
			c.Ops[i] = Op{K: "reopen", X: 1}
		}
	}
	return c
}

func runCompat(c *Case, r *Report) error {
	h, err := openStoreVer(c, "db", c.P[0] == 1)
	if err != nil {
		return err
	}
	e := NewExec(h)
	e.Check = true
	switches, nonempty := 0, 0
	names := map[bool]string{false: "this version", true: "the pinned version"}
	flip := func() error {
		switches++
		if e.M.Len() > 1 {
			nonempty++
		}
		before := h.Stats()
		if err := h.Close(); err != nil {
			return violf("Close by %s: %v", names[h.ref], err)
		}
		h.ref = !h.ref
		if err := guard(func() error { return h.doOpen(false) }); err != nil {
			return violf("%s does not open a file of %d pairs written by %s: %v", names[h.ref], e.M.Len(), names[!h.ref], err)
		}
		after := h.Stats()
		before.Allocated, after.Allocated = 0, 0
		if before != after {
			return violf("%s reports %+v of a file of which %s reported %+v", names[h.ref], after, names[!h.ref], before)
		}
		if err := guard(func() error { return verifyDump(h, e.M) }); err != nil {
			return violf("%s reading a file written by %s: %v", names[h.ref], names[!h.ref], err)
		}
		if e.M.Len() < 3000 || switches < 3 {
			if err := guard(e.verifyTests); err != nil {
				return violf("%s reading a file written by %s: %v", names[h.ref], names[!h.ref], err)
			}
		}
		return nil
	}
	e.onReopen = flip
	for i, o := range c.Ops {
		if err := guard(func() error { return e.Apply(o) }); err != nil {
			if _, ok := err.(*Viol); ok {
				return violf("step %d by %s after %d changes of version: %v", i, names[h.ref], switches, err)
			}
			return err
		}
	}
	// twice, so that each version reads what the other left
	for i := 0; i < 2; i++ {
		if err := flip(); err != nil {
			return err
		}
	}
	opLabels(e, r)
	r.Count("changes_of_version", switches)
	r.Nontrivial = e.Max >= 2 && nonempty > 0
	return nil
}

// openStoreVer opens the store of a case with either version.
func openStoreVer(c *Case, name string, old bool) (*Handle, error) {
	if !old {
		return openStore(c, name)
	}
	if sizes, _ := ballastOf(c.B); sizes != nil {
		// the ballast is laid and the first descriptor written by this version
		h, err := openStore(c, name)
		if err != nil {
			return nil, err
		}
		if err := h.Close(); err != nil {
			return nil, hfail(err)
		}
	}
	h := tracked(&Handle{kind: c.Kind, path: casePath(name), ref: true})
	if err := h.doOpen(true); err != nil {
		return nil, hfail(fmt.Errorf("open: %v", err))
	}
	return h, nil
}

func init() {
	register(&Prop{ID: "P13",
		Rule:   "rapid draws a history with changes of version in it: the file is closed by one version (this one, or a vendored copy of the pinned one with the repairs) and opened by the other; statistics, dump and look-ups are compared with the model after each change, and every result in between. Non-trivial: a version was changed while at least two keys were held.",
		Assume: []string{"the vendored copy in harness/ref is the pinned version with its fix: commits"},
		Passes: stdPasses(
			[]Pass{{"small", 300, nil}, {"medium", 70, nil}, {"large", 6, nil}, {"tall", 2, nil}, {"waves", 8, nil}, {"aim", 6, nil}, {"dirs", 2, nil}, {"giant", 1, []int{0, 1, 2}}},
			[]Pass{{"small", 10000, nil}, {"medium", 2500, nil}, {"large", 200, nil}, {"tall", 40, nil}, {"waves", 160, nil}, {"aim", 150, nil}, {"dirs", 50, nil}, {"giant", 12, nil}}),
		Gen: genCompat, Run: runCompat})
}
