package main

import (
	"fmt"
	"math"

	"pgregory.net/rapid"
)

// ---- P08: counts and payload after every call ----

func statsExact(e *Exec, op string, k []byte) error {
	s := e.H.Stats()
	if s.Records != e.M.Len() {
		return violf("after %s(%s) %d keys are reported, %d are stored", op, short(k), s.Records, e.M.Len())
	}
	if s.Payload != e.M.payload {
		return violf("after %s(%s) a payload of %d bytes is reported; the %d keys and their values have %d", op, short(k), s.Payload, e.M.Len(), e.M.payload)
	}
	return nil
}

func runStats(c *Case, r *Report) error {
	e, err := openCase(c)
	if err != nil {
		return err
	}
	if err := statsExact(e, "Open", nil); err != nil {
		return err
	}
	long := false
	e.after = func(op string, k, v []byte) error {
		long = long || len(k) > 256 || len(v) > 128
		return statsExact(e, op, k)
	}
	for _, o := range c.Ops {
		if err := e.Apply(o); err != nil {
			return err
		}
		if o.K == "reopen" {
			if err := statsExact(e, "reopen", nil); err != nil {
				return err
			}
		}
	}
	if err := e.H.Reopen(); err != nil {
		return violf("%v", err)
	}
	if err := statsExact(e, "reopen", nil); err != nil {
		return err
	}
	// the counts are about what is really there
	if err := verifyDump(e.H, e.M); err != nil {
		return &Inconclusive{"contents differ: " + err.Error()}
	}
	opLabels(e, r)
	if long {
		r.Label("cases_with_data_out_of_page")
	}
	r.Nontrivial = e.Max >= 2 && (e.seen["clear"]+e.seen["wipe"]+e.seen["rewrite"]+e.seen["setx"] > 0)
	return nil
}

// ---- checks on the closed file ----

// closedCheck closes the store, examines the file and opens it again.
func closedCheck(c *Case, h *Handle, f func(*Fsck) error) error {
	if err := h.Close(); err != nil {
		return violf("Close: %v", err)
	}
	fk, err := fsckFile(h.path, h.Ordered(), c.B)
	if err != nil {
		return err
	}
	if err := f(fk); err != nil {
		return err
	}
	if err := h.doOpen(false); err != nil {
		return violf("reopen: %v", err)
	}
	return nil
}

// runClosed runs a history and examines the closed file at reopens, after
// bulk steps on small stores and at the end.
func runClosed(f func(e *Exec, fk *Fsck, r *Report) error) func(c *Case, r *Report) error {
	return func(c *Case, r *Report) error {
		e, err := openCase(c)
		if err != nil {
			return err
		}
		n, tall := 0, false
		check := func() error {
			n++
			return closedCheck(c, e.H, func(fk *Fsck) error {
				tall = tall || fk.Height > 1 || fk.Slots > 1
				return f(e, fk, r)
			})
		}
		e.onReopen = check
		for i, o := range c.Ops {
			if err := e.Apply(o); err != nil {
				return err
			}
			if i == len(c.Ops)-1 || o.K != "reopen" && o.N > 1 && e.M.Len() < 1500 {
				if err := check(); err != nil {
					return err
				}
			}
		}
		opLabels(e, r)
		r.Count("files_examined", n)
		r.Nontrivial = e.Max >= 2 && tall
		return nil
	}
}

// ---- P12 ----

func fsckForm(e *Exec, fk *Fsck, r *Report) error {
	if fk.FormErr != nil {
		return violf("closed file of %d pairs: %v", e.M.Len(), fk.FormErr)
	}
	if fk.InfoErr != nil {
		return violf("closed file of %d pairs: %v", e.M.Len(), fk.InfoErr)
	}
	if fk.Overlap != "" {
		return violf("closed file of %d pairs: %s", e.M.Len(), fk.Overlap)
	}
	if fk.Height > 0 {
		r.Label(fmt.Sprintf("files_of_height_%d", fk.Height))
	}
	if fk.SlotDirs > 1 {
		r.Label("files_with_several_directories")
	}
	if fk.MaxChain > 3 {
		r.Label("files_with_slots_of_more_than_3_items")
	}
	if err := comparePairs(fk.Pairs, e.M, e.H.Ordered()); err != nil {
		return violf("closed file: %v", err)
	}
	return nil
}

// ---- P09 ----

const allocBlock = 1 << 20 // the space manager's pool takes blocks of 1 MiB

func genSpace(t *rapid.T, profile string) *Case {
	kinds := []int{kOD, kDict, kOD, kDict, kBPT, kHM}
	if treeProfile(profile) {
		kinds = []int{kOD, kOD, kBPT}
	}
	c := &Case{Kind: rapid.SampledFrom(kinds).Draw(t, "store")}
	drawBallast(t, c)
	drawHole(t, c, profile)
	ordered := c.Kind == kOD || c.Kind == kBPT
	if g := scenario(t, profile, ordered); g != nil {
		c.P = []int{1, 0}
		c.Ops = g
		return c
	}
	cfg := profileCfg(profile, ordered)
	switch profile {
	case "small":
		cfg.ValMax = []int{5, valSmallMax, valMidMax, valBigMax, valHugeMax}
		cfg.Fams = append(append([]int(nil), cfg.Fams...), famHuge)
	}
	cfg.MaxOps = cfg.MaxOps*2/3 + 1
	c.Ops = drawOps(t, cfg, nil)
	// cycles of the whole history; each ends with clearing everything (1),
	// or with what it left (0)
	c.P = []int{rapid.SampledFrom([]int{1, 1, 2, 3, 6}).Draw(t, "cycles"), rapid.IntRange(0, 1).Draw(t, "clearall")}
	return c
}

func runSpace(c *Case, r *Report) error {
	e, err := openCase(c)
	if err != nil {
		return err
	}
	base := e.H.Stats().Allocated
	files := 0
	check := func() error {
		files++
		return closedCheck(c, e.H, (*Fsck).leakVerdict)
	}
	// an empty dictionary is as small as a new one, to one block
	empty := func(when string) error {
		if e.M.Len() != 0 {
			return nil
		}
		r.Label("emptied")
		if a := e.H.Stats().Allocated; a > base+allocBlock {
			return violf("an emptied dictionary has %d bytes allocated (%s), a new one %d", a, when, base)
		}
		return nil
	}
	e.onReopen = func() error {
		a := e.H.Stats().Allocated
		if err := check(); err != nil {
			return err
		}
		if b := e.H.Stats().Allocated; b > a+allocBlock {
			return violf("a reopen took the allocated space from %d to %d bytes", a, b)
		}
		return nil
	}
	for cyc := 0; cyc < c.P[0]; cyc++ {
		for _, o := range c.Ops {
			if err := e.Apply(o); err != nil {
				return err
			}
			if err := empty("after " + o.K); err != nil {
				return err
			}
		}
		if c.P[1] == 1 {
			if err := e.Apply(Op{K: "wipe", X: 0, Y: 1000, M: cyc, R: cyc%2 == 1}); err != nil {
				return err
			}
			if err := empty("after clearing every key"); err != nil {
				return err
			}
		}
		if cyc < 2 {
			if err := check(); err != nil {
				return err
			}
		}
	}
	if err := check(); err != nil {
		return err
	}
	// reopening again and again takes no space
	a := e.H.Stats().Allocated
	for i := 0; i < 4; i++ {
		if err := e.H.Reopen(); err != nil {
			return violf("%v", err)
		}
	}
	if b := e.H.Stats().Allocated; b > a+allocBlock {
		return violf("four reopens took the allocated space from %d to %d bytes", a, b)
	}
	if err := e.Apply(Op{K: "wipe", X: 0, Y: 1000, M: 2}); err != nil {
		return err
	}
	if err := empty("after clearing every key at the end"); err != nil {
		return err
	}
	if err := check(); err != nil {
		return err
	}
	opLabels(e, r)
	r.Count("files_examined", files)
	r.Nontrivial = e.Max >= 2 && (e.seen["clear"]+e.seen["wipe"]+e.seen["rewrite"]+e.seen["set"] > 0)
	return nil
}

// ---- P10 ----

const minPageLoad = pageBytes / 3

func fsckBalance(e *Exec, fk *Fsck, r *Report) error {
	if fk.FormErr != nil {
		return &Inconclusive{"malformed file: " + fk.FormErr.Error()}
	}
	for _, l := range fk.Leafs {
		if !l.Root && l.Load < minPageLoad {
			return violf("a leaf of a tree of %d keys and height %d uses %d of %d bytes", e.M.Len(), fk.Height, l.Load, pageBytes)
		}
	}
	for _, l := range fk.Inners {
		if !l.Root && l.Load < minPageLoad {
			return violf("an inner page of a tree of %d keys and height %d uses %d of %d bytes", e.M.Len(), fk.Height, l.Load, pageBytes)
		}
		if !l.Root && l.N < 10 {
			return violf("an inner page of a tree of %d keys and height %d has %d children", e.M.Len(), fk.Height, l.N)
		}
	}
	return nil
}

// balanced checks the statistics against what the contents allow.
func balanced(e *Exec, op string) error {
	s := e.H.Stats()
	n := e.M.Len()
	what := fmt.Sprintf("after %s a tree of %d keys taking %d bytes in its pages", op, n, e.M.inline)
	if n == 0 && (s.Leafs != 1 || s.NonLeafs != 0 || s.Height != 1) {
		return violf("%s has height %d, %d leafs and %d inner pages", what, s.Height, s.Leafs, s.NonLeafs)
	}
	if s.Leafs < 1 || s.Height < 1 || s.NonLeafs < 0 || (s.Height == 1) != (s.Leafs == 1) {
		return violf("%s has height %d, %d leafs and %d inner pages", what, s.Height, s.Leafs, s.NonLeafs)
	}
	if s.Leafs > 1 && s.Leafs*minPageLoad > e.M.inline {
		return violf("%s has %d leafs", what, s.Leafs)
	}
	// h levels need at least 2*10^(h-2) leafs
	if s.Height > 1 && s.Leafs < 2*int(math.Pow(10, float64(s.Height-2))) {
		return violf("%s has height %d over %d leafs", what, s.Height, s.Leafs)
	}
	if s.NonLeafs > s.Height-1+s.Leafs/9 || (s.Height > 1) != (s.NonLeafs > 0) {
		return violf("%s has %d inner pages over %d leafs", what, s.NonLeafs, s.Leafs)
	}
	return nil
}

func genBalance(t *rapid.T, profile string) *Case {
	c := &Case{Kind: rapid.SampledFrom([]int{kOD, kOD, kBPT}).Draw(t, "store")}
	drawBallast(t, c)
	drawHole(t, c, profile)
	if g := scenario(t, profile, true); g != nil {
		for _, o := range g {
			// aimed steps are examined every few
			for n := rapid.IntRange(1, 4).Draw(t, "few"); o.K == "aim" && o.N > n; o.N -= n {
				p := o
				p.I, p.N = o.I+o.N, n
				c.Ops = append(c.Ops, p)
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	}
	cfg := profileCfg(profile, true)
	if profile == "small" {
		// few but large records
		cfg.Idx = []int{40, 200}
		cfg.MaxOps = 120
		cfg.Fams = []int{famLong, famWide, famEdge, famMid, famTiny, famDec, famDiff}
	}
	c.Ops = drawOps(t, cfg, nil)
	return c
}

func runBalance(c *Case, r *Report) error {
	e, err := openCase(c)
	if err != nil {
		return err
	}
	tall, files := false, 0
	e.after = func(op string, k, v []byte) error { return balanced(e, op) }
	check := func() error {
		files++
		return closedCheck(c, e.H, func(fk *Fsck) error { return fsckBalance(e, fk, r) })
	}
	e.onReopen = check
	for i, o := range c.Ops {
		if err := e.Apply(o); err != nil {
			return err
		}
		if e.H.Stats().Height > 1 {
			tall = true
		}
		if i == len(c.Ops)-1 || o.K != "reopen" && o.N > 1 && e.M.Len() < 4000 || o.K == "aim" {
			if err := check(); err != nil {
				return err
			}
		}
	}
	opLabels(e, r)
	r.Count("files_examined", files)
	r.Nontrivial = tall
	return nil
}

// ---- P11 ----

const phi = 1.618033988749895

func loadBounded(e *Exec, op string) error {
	s := e.H.Stats()
	n := e.M.Len()
	what := fmt.Sprintf("after %s a table of %d keys", op, n)
	if s.Slots < 1 || s.SlotDirs < 1 {
		return violf("%s has %d slots in %d directories", what, s.Slots, s.SlotDirs)
	}
	lf := float64(n) / float64(s.Slots)
	if lf > phi+1e-9 {
		return violf("%s has %d slots: %.4f keys per slot", what, s.Slots, lf)
	}
	if s.Slots > 1 && lf < phi/2-1e-9 {
		return violf("%s has %d slots: %.4f keys per slot", what, s.Slots, lf)
	}
	if s.Slots > s.SlotDirs<<dirShift {
		return violf("%s has %d slots in %d directories", what, s.Slots, s.SlotDirs)
	}
	if need := (s.Slots + 1<<dirShift - 1) >> dirShift; s.SlotDirs > need+1 {
		return violf("%s has %d directories for %d slots", what, s.SlotDirs, s.Slots)
	}
	if hm := e.H.hm; hm != nil {
		least, most := hm.MinNumberOfSlots(), hm.MaxNumberOfSlotDirs()
		if least < 1 || least&(least-1) != 0 || s.Slots < least || s.Slots >= 2*least {
			return violf("%s has %d slots, at least %d by its own account", what, s.Slots, least)
		}
		if most&(most-1) != 0 || s.SlotDirs > most || most > 8 && most > 4*s.SlotDirs {
			return violf("%s has %d directories, at most %d by its own account", what, s.SlotDirs, most)
		}
	}
	if n == 0 && (s.Slots != 1 || s.SlotDirs != 1) {
		return violf("an emptied table has %d slots in %d directories", s.Slots, s.SlotDirs)
	}
	return nil
}

func runLoad(c *Case, r *Report) error {
	e, err := openCase(c)
	if err != nil {
		return err
	}
	dirs, resize := 0, 0
	slots := 1
	e.after = func(op string, k, v []byte) error {
		s := e.H.Stats()
		if s.SlotDirs > dirs {
			dirs = s.SlotDirs
		}
		if s.Slots != slots {
			slots = s.Slots
			resize++
		}
		return loadBounded(e, op)
	}
	for _, o := range c.Ops {
		if err := e.Apply(o); err != nil {
			return err
		}
		if err := loadBounded(e, o.K); err != nil {
			return err
		}
	}
	opLabels(e, r)
	r.Count("slots_added_or_removed", resize)
	r.Label(fmt.Sprintf("max_directories_%d", dirs))
	r.Nontrivial = resize > 0
	return nil
}

func init() {
	register(&Prop{ID: "P08",
		Rule: "rapid draws a history with reopens; after every single call the reported counts and payload are compared with the model. Non-trivial: at least two keys held and at least one update or removal.",
		Passes: stdPasses(
			[]Pass{{"small", 700, nil}, {"medium", 160, nil}, {"large", 14, nil}, {"tall", 2, nil}, {"waves", 8, nil}, {"aim", 8, nil}},
			[]Pass{{"small", 20000, nil}, {"medium", 6000, nil}, {"large", 500, nil}, {"tall", 60, nil}, {"waves", 240, nil}, {"aim", 200, nil}}),
		Gen: func(t *rapid.T, profile string) *Case {
			kinds := []int{kOD, kDict, kOD, kDict, kBPT, kHM}
			if treeProfile(profile) {
				kinds = []int{kOD, kOD, kBPT}
			}
			k := rapid.SampledFrom(kinds).Draw(t, "which")
			c := stdGen(k == kOD || k == kBPT, []int{k})(t, profile)
			return c
		}, Run: runStats})
	register(&Prop{ID: "P09",
		Rule:   "rapid draws a history, repeated in one to six cycles that may end with clearing every key; at reopens and at the ends the closed file is examined by an independent reader that frees every reachable space exactly once, after which nothing may remain allocated; an emptied store must be within one 1 MiB block of a new one. Non-trivial: at least two keys held and at least one write.",
		Assume: []string{"the space manager's own accounting (fsm.FileStorage, a dependency) is right"},
		Passes: stdPasses(
			[]Pass{{"small", 250, nil}, {"medium", 50, nil}, {"large", 5, nil}, {"tall", 1, nil}, {"waves", 5, nil}, {"aim", 8, nil}, {"giant", 1, []int{0, 1, 2, 3}}},
			[]Pass{{"small", 8000, nil}, {"medium", 2000, nil}, {"large", 150, nil}, {"tall", 30, nil}, {"waves", 120, nil}, {"aim", 200, nil}, {"dirs", 30, nil}, {"giant", 10, nil}}),
		Gen: genSpace, Run: runSpace})
	register(&Prop{ID: "P10",
		Rule: "rapid draws a history; after every call the page counts and the height are compared with what the contents allow, and at reopens, after bulk steps and at the end every page of the closed file is measured. Non-trivial: the tree had more than one page.",
		Passes: stdPasses(
			[]Pass{{"small", 300, nil}, {"medium", 120, nil}, {"large", 10, nil}, {"tall", 3, nil}, {"waves", 11, nil}, {"aim", 24, nil}},
			[]Pass{{"small", 8000, nil}, {"medium", 4000, nil}, {"large", 300, nil}, {"tall", 80, nil}, {"waves", 320, nil}, {"aim", 200, nil}}),
		Gen: genBalance, Run: runBalance})
	register(&Prop{ID: "P11",
		Rule: "rapid draws a history with reopens; after every call the numbers of slots and directories are compared with the number of keys. Non-trivial: the table was resized.",
		Passes: stdPasses(
			[]Pass{{"small", 600, nil}, {"medium", 160, nil}, {"large", 14, nil}, {"dirs", 4, nil}, {"giant", 1, nil}},
			[]Pass{{"small", 15000, nil}, {"medium", 6000, nil}, {"large", 500, nil}, {"dirs", 100, nil}, {"giant", 25, nil}}),
		Gen: stdGen(false, []int{kDict, kDict, kHM}), Run: runLoad})
	register(&Prop{ID: "P12",
		Rule: "rapid draws a history; at reopens, after bulk steps and at the end the closed file is read by an independent reader of the format and compared with the model. Non-trivial: at least two keys held and a file with more than one page or slot.",
		Passes: stdPasses(
			[]Pass{{"small", 250, nil}, {"medium", 60, nil}, {"large", 6, nil}, {"tall", 2, nil}, {"waves", 8, nil}, {"aim", 8, nil}, {"giant", 1, []int{0, 1}}},
			[]Pass{{"small", 8000, nil}, {"medium", 2500, nil}, {"large", 200, nil}, {"tall", 60, nil}, {"waves", 240, nil}, {"aim", 200, nil}, {"dirs", 30, nil}, {"giant", 10, nil}}),
		Gen: func(t *rapid.T, profile string) *Case {
			ordered := treeProfile(profile) || (profile != "giant" && profile != "dirs" && rapid.Bool().Draw(t, "ordered"))
			if ordered {
				return stdGen(true, []int{kOD, kOD, kBPT})(t, profile)
			}
			return stdGen(false, []int{kDict, kDict, kHM})(t, profile)
		}, Run: runClosed(fsckForm)})
}
