package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/roy2220/plainkv"
	"github.com/roy2220/plainkv/bptree"
	"github.com/roy2220/plainkv/hashmap"
	"pgregory.net/rapid"
)

// expectRange compares one range query with the model; budget bounds the
// number of steps so that an endless iterator is a failure, not a hang.
func expectRange(rg ranger, m *Model, min, max []byte, desc bool, what string) error {
	want := m.Range(string(min), string(max))
	var it bptree.Iterator
	name := "RangeAsc"
	if desc {
		name = "RangeDesc"
		it = rg.RangeDesc(min, max)
	} else {
		it = rg.RangeAsc(min, max)
	}
	return expectIter(it, m, want, desc, fmt.Sprintf("%s(%s, %s)%s on %d keys", name, short(min), short(max), what, m.Len()))
}

func expectIter(it bptree.Iterator, m *Model, want []string, desc bool, what string) error {
	for i := 0; ; i++ {
		if it.IsAtEnd() {
			if i != len(want) {
				return violf("%s ends after %d of %d keys", what, i, len(want))
			}
			return nil
		}
		k, v, err := it.ReadRecordAll()
		if err != nil {
			return violf("%s: reading pair %d: %v", what, i, err)
		}
		if i >= len(want) {
			return violf("%s yields %s after all %d keys of the range", what, short(k), len(want))
		}
		w := want[i]
		if desc {
			w = want[len(want)-1-i]
		}
		if string(k) != w {
			return violf("%s: pair %d has key %s instead of %s", what, i, short(k), short([]byte(w)))
		}
		if mv := m.m[w]; !bytes.Equal(v, mv) {
			return violf("%s: key %s comes with value %s instead of %s", what, short(k), short(v), short(mv))
		}
		it.Advance()
	}
}

// boundKey picks a range bound from the model.
func boundKey(m *Model, mode, i int) []byte {
	if m.Len() == 0 {
		return keyOf(famDec, i)
	}
	ks := m.Keys()
	k := []byte(ks[i%len(ks)])
	switch mode {
	case 8:
		return nil
	case 9:
		return rep(0xff, 400)
	case 10:
		return []byte{}
	}
	return perturb(k, mode)
}

// gapSweep queries, for up to limit neighbouring pairs of keys, the gap
// between them, each key by itself and ranges ending or starting in the gap.
func gapSweep(rg ranger, m *Model, limit int) (int, error) {
	ks := m.Keys()
	n := len(ks)
	q := 0
	step := 1
	if n > limit {
		step = n/limit + 1
	}
	for i := 0; i < n; i++ {
		if step > 1 && i%step != 0 && i > 3 && i < n-4 {
			continue
		}
		k := []byte(ks[i])
		lo := append(append([]byte(nil), k...), 0) // first byte string after k
		for d := 0; d < 2; d++ {
			desc := d == 1
			if err := expectRange(rg, m, k, k, desc, ""); err != nil {
				return q, err
			}
			if i+1 < n {
				nx := []byte(ks[i+1])
				hi := append([]byte(nil), nx...)
				// a byte string between k and nx, if there is one
				if string(lo) != ks[i+1] {
					if len(hi) > 0 && hi[len(hi)-1] > 0 {
						hi[len(hi)-1]--
						hi = append(hi, 0xff)
					} else if len(hi) > 0 {
						hi = hi[:len(hi)-1]
					}
					if string(hi) >= string(lo) && string(hi) < ks[i+1] {
						if err := expectRange(rg, m, lo, hi, desc, " (a gap)"); err != nil {
							return q, err
						}
						if err := expectRange(rg, m, lo, nx, desc, " (from a gap)"); err != nil {
							return q, err
						}
						if err := expectRange(rg, m, k, hi, desc, " (into a gap)"); err != nil {
							return q, err
						}
						if err := expectRange(rg, m, lo, lo, desc, " (absent key)"); err != nil {
							return q, err
						}
						q += 4
					}
				}
				j := i + 2
				if j < n {
					if err := expectRange(rg, m, lo, []byte(ks[j]), desc, ""); err != nil {
						return q, err
					}
					q++
				}
				if err := expectRange(rg, m, nx, k, desc, " (inverted)"); err != nil {
					return q, err
				}
				q++
			}
			q++
		}
	}
	// beyond both ends
	for d := 0; d < 2; d++ {
		desc := d == 1
		for _, b := range [][2][]byte{{nil, rep(0xff, 500)}, {nil, nil}, {{}, {0}}, {rep(0xff, 500), rep(0xff, 501)}} {
			if err := expectRange(rg, m, b[0], b[1], desc, ""); err != nil {
				return q, err
			}
			q++
		}
		if n > 0 {
			first, last := ks[0], ks[n-1]
			if first != "" {
				b := []byte(first)
				b = b[:len(b)-1]
				if err := expectRange(rg, m, nil, b, desc, " (below all)"); err != nil {
					return q, err
				}
			}
			if err := expectRange(rg, m, append([]byte(last), 0), rep(0xff, 600), desc, " (above all)"); err != nil {
				return q, err
			}
			q += 2
		}
	}
	return q, nil
}

func fullBoth(rg ranger, m *Model) error {
	want := m.Keys()
	if err := expectIter(rg.RangeAsc(plainkv.MinKey, plainkv.MaxKey), m, want, false, fmt.Sprintf("RangeAsc(MinKey, MaxKey) on %d keys", m.Len())); err != nil {
		return err
	}
	return expectIter(rg.RangeDesc(plainkv.MinKey, plainkv.MaxKey), m, want, true, fmt.Sprintf("RangeDesc(MinKey, MaxKey) on %d keys", m.Len()))
}

func genRange(t *rapid.T, profile string) *Case {
	c := &Case{Kind: rapid.SampledFrom([]int{kOD, kOD, kBPT}).Draw(t, "store")}
	drawBallast(t, c)
	drawHole(t, c, profile)
	if g := scenario(t, profile, true); g != nil {
		c.Ops = g
		return c
	}
	cfg := profileCfg(profile, true)
	if profile == "small" {
		cfg.Kinds = withKinds(cfg.Kinds, "range", "range", "range")
	} else {
		cfg.Kinds = withKinds(cfg.Kinds, "range", "range")
	}
	c.Ops = drawOps(t, cfg, drawRange)
	return c
}

func drawRange(t *rapid.T, kind string, o *Op) {
	if kind != "range" {
		return
	}
	o.M = rapid.SampledFrom([]int{1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10}).Draw(t, "minmode")
	o.N = rapid.SampledFrom([]int{1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10}).Draw(t, "maxmode")
	o.I = rapid.IntRange(0, 5000).Draw(t, "minrank")
	o.X = rapid.IntRange(0, 5000).Draw(t, "maxrank")
	o.Y = rapid.IntRange(0, 3).Draw(t, "near")
	o.R = rapid.Bool().Draw(t, "desc")
}

func runRange(c *Case, r *Report) error {
	e, err := openCase(c)
	if err != nil {
		return err
	}
	queries, multi := 0, false
	e.extra = func(o Op) error {
		x := o.X
		if o.Y < 2 {
			x = o.I + o.X%5
		}
		queries++
		return expectRange(e.H.Ranger(), e.M, boundKey(e.M, o.M, o.I), boundKey(e.M, o.N, x), o.R, "")
	}
	for i, o := range c.Ops {
		if err := e.Apply(o); err != nil {
			return err
		}
		if e.H.Stats().Height > 1 {
			multi = true
		}
		if i == len(c.Ops)-1 || (o.N > 1 && o.K != "range") || o.K == "reopen" {
			if err := fullBoth(e.H.Ranger(), e.M); err != nil {
				return err
			}
			limit := 40
			if i == len(c.Ops)-1 || e.M.Len() < 100 {
				limit = 500
			}
			q, err := gapSweep(e.H.Ranger(), e.M, limit)
			queries += q
			if err != nil {
				return err
			}
		}
	}
	opLabels(e, r)
	r.Count("range_queries", queries)
	if multi {
		r.Label("cases_with_several_leafs")
	}
	r.Nontrivial = e.Max >= 2 && queries > 0
	return nil
}

// ---- Scan ----

func genScan(t *rapid.T, profile string) *Case {
	c := &Case{Kind: rapid.SampledFrom([]int{kDict, kDict, kHM}).Draw(t, "store")}
	drawBallast(t, c)
	drawHole(t, c, profile)
	c.P = []int{rapid.IntRange(1, 5).Draw(t, "cursors"), rapid.IntRange(0, 1000).Draw(t, "interleaving")}
	if g := scenario(t, profile, false); g != nil {
		c.Ops = g
		return c
	}
	cfg := profileCfg(profile, false)
	cfg.Kinds = withKinds(cfg.Kinds, "scan")
	c.Ops = drawOps(t, cfg, nil)
	return c
}

// interleavedScans runs several cursors (and a copy taken half-way) on the
// unmodified store; each must see every pair once.
func interleavedScans(e *Exec, cursors, salt int) error {
	type cur struct {
		c    hashmap.Cursor
		seen map[string]bool
		out  [][2][]byte
		end  int
	}
	cs := make([]*cur, cursors)
	for i := range cs {
		cs[i] = &cur{seen: map[string]bool{}}
	}
	g := newRng(salt, 77)
	n := e.M.Len()
	sc := e.H.Scanner()
	kv := e.H.KV()
	active := cursors
	copyAt := -1
	if cursors > 1 {
		copyAt = g.n(n + 1)
	}
	for active > 0 {
		i := g.n(len(cs))
		x := cs[i]
		if x.end >= 3 {
			for i = range cs {
				if cs[i].end < 3 {
					x = cs[i]
					break
				}
			}
		}
		if copyAt >= 0 && i == 0 && len(x.out) == copyAt {
			// a copy of a cursor continues on its own
			copyAt = -1
			y := &cur{c: x.c, out: append([][2][]byte(nil), x.out...)}
			cs = append(cs, y)
			active++
		}
		burst := 1 + g.n(4)
		if n > 2000 {
			burst = 1 + g.n(2000)
		}
		for b := 0; b < burst && x.end < 3; b++ {
			k, v, ok := sc.Scan(&x.c)
			if !ok {
				if len(x.out) != n {
					return violf("a scan ends after %d of %d pairs", len(x.out), n)
				}
				if len(k) != 0 || len(v) != 0 {
					return violf("a finished scan returns data: %s %s", short(k), short(v))
				}
				if x.end++; x.end == 3 {
					active--
				}
				continue
			}
			if x.end > 0 {
				return violf("a scan that had reported its end returns %s", short(k))
			}
			x.out = append(x.out, [2][]byte{k, v})
			if len(x.out) > n {
				return violf("a scan returns more pairs (%s) than the %d stored", short(k), n)
			}
		}
		if n > 0 && g.n(8) == 0 {
			ks := e.M.Keys()
			kv.Test([]byte(ks[g.n(n)]), true)
			kv.Test([]byte("absent key"), true)
		}
	}
	for _, x := range cs {
		if err := comparePairs(x.out, e.M, false); err != nil {
			return err
		}
	}
	return nil
}

func runScan(c *Case, r *Report) error {
	e, err := openCase(c)
	if err != nil {
		return err
	}
	scans := 0
	e.extra = func(o Op) error {
		scans++
		return interleavedScans(e, 1, 0)
	}
	for i, o := range c.Ops {
		if err := e.Apply(o); err != nil {
			return err
		}
		if i == len(c.Ops)-1 || o.N > 1 || o.K == "wipe" || o.K == "reopen" || len(c.Ops) < 30 {
			cur := 1
			if i == len(c.Ops)-1 {
				cur = c.P[0]
			}
			scans += cur
			if err := interleavedScans(e, cur, c.P[1]+i); err != nil {
				return err
			}
		}
	}
	opLabels(e, r)
	r.Count("scans", scans)
	s := e.H.Stats()
	if s.Slots > e.M.Len() {
		r.Label("final_has_empty_slots")
	}
	r.Nontrivial = e.Max >= 2 && scans > 0
	return nil
}

// ---- Scan while modifying (P22) ----

func genScanMod(t *rapid.T, profile string) *Case {
	c := &Case{Kind: rapid.SampledFrom([]int{kDict, kDict, kHM}).Draw(t, "store")}
	drawBallast(t, c)
	drawHole(t, c, profile)
	mode := rapid.IntRange(0, 1).Draw(t, "mode") // 0: only overwrites during the scan; 1: anything
	c.P = []int{mode, rapid.IntRange(1, 4).Draw(t, "every"), rapid.IntRange(0, 1000).Draw(t, "salt")}
	cfg := profileCfg(profile, false)
	cfg.MaxOps = cfg.MaxOps / 2
	c.Ops = drawOps(t, cfg, nil)
	// the ops applied between scan steps
	kinds := []string{"set", "setx", "setnx", "clear", "test"}
	var mid GenCfg = cfg
	mid.Kinds = kinds
	if mode == 1 && profile != "small" {
		mid.Kinds = withKinds(kinds, "wipe", "fill", "rewrite")
	}
	mid.MinOps, mid.MaxOps, mid.Reopen = 1, 30, false
	c.Ops = append(c.Ops, Op{K: "scanning"})
	c.Ops = append(c.Ops, drawOps(t, mid, nil)...)
	return c
}

func runScanMod(c *Case, r *Report) error {
	e, err := openCase(c)
	if err != nil {
		return err
	}
	split := len(c.Ops)
	for i, o := range c.Ops {
		if o.K == "scanning" {
			split = i
			break
		}
		if err := e.Apply(o); err != nil {
			return err
		}
	}
	var mid []Op
	if split < len(c.Ops) {
		mid = c.Ops[split+1:]
	}
	overwriteOnly := c.P[0] == 0
	// every value a key had since the scan began
	hist := map[string][][]byte{}
	for k, v := range e.M.m {
		hist[k] = [][]byte{v}
	}
	start := append([]string(nil), e.M.Keys()...)
	e.after = func(op string, k, v []byte) error {
		if nv, ok := e.M.Get(k); ok && op != "test" && op != "clear" {
			hist[string(k)] = append(hist[string(k)], nv)
		}
		return nil
	}
	sc := e.H.Scanner()
	var cur hashmap.Cursor
	seen := map[string]int{}
	steps, writes, resized := 0, 0, false
	slots := e.H.Stats().Slots
	mi := 0
	g := newRng(c.P[2], 3)
	for {
		k, v, ok := sc.Scan(&cur)
		if !ok {
			break
		}
		steps++
		if steps > 100000+20*(len(start)+e.Calls) {
			return violf("a scan with %d calls in between does not end", writes)
		}
		vs, ok2 := hist[string(k)]
		if !ok2 {
			return violf("a scan returned key %s, which was never stored since it began", short(k))
		}
		found := false
		for _, w := range vs {
			if bytes.Equal(w, v) {
				found = true
				break
			}
		}
		if !found {
			return violf("a scan returned key %s with value %s, which it never had since the scan began", short(k), short(v))
		}
		seen[string(k)]++
		if overwriteOnly && seen[string(k)] > 1 {
			return violf("a scan interleaved with overwrites returned key %s twice", short(k))
		}
		if len(mid) == 0 || g.n(c.P[1]) != 0 || mi >= 4*len(mid) {
			continue
		}
		o := mid[mi%len(mid)]
		mi++
		writes++
		if overwriteOnly {
			if e.M.Len() == 0 {
				continue
			}
			ks := start
			key := []byte(ks[o.I%len(ks)])
			switch o.K {
			case "setnx", "test":
				err = e.prim(o.K, key, valOf(o.V, e.nextSalt()), o.R)
			case "clear": // of an absent key
				err = e.prim("clear", []byte("absent!"), nil, o.R)
				if _, in := e.M.Get([]byte("absent!")); in {
					return hfail(fmt.Errorf("absent key present"))
				}
			default:
				err = e.prim(o.K, key, valOf(o.V, e.nextSalt()), o.R)
			}
		} else {
			err = e.Apply(o)
		}
		if err != nil {
			return err
		}
		if e.H.Stats().Slots != slots {
			resized = true
		}
	}
	if overwriteOnly {
		for _, k := range start {
			if seen[k] != 1 {
				return violf("a scan interleaved with overwrites of %d keys missed key %s", len(start), short([]byte(k)))
			}
		}
	}
	for i := 0; i < 2; i++ {
		if k, _, ok := sc.Scan(&cur); ok && overwriteOnly {
			return violf("a scan that had reported its end returns %s", short(k))
		}
	}
	// the scan did no harm
	if err := verifyDump(e.H, e.M); err != nil {
		return err
	}
	opLabels(e, r)
	r.Count("scan_steps", steps)
	r.Count("calls_during_scans", writes)
	if resized {
		r.Label("scans_with_table_resized")
	}
	r.Nontrivial = len(start) >= 2 && writes > 0
	return nil
}

func init() {
	sort.Strings(nil)
	register(&Prop{ID: "P03",
		Rule: "rapid draws a history and range queries (bounds stored, perturbed, absent, outside, inverted); after each bulk step and at the end both full ranges and a sweep over neighbouring keys (each key alone, each gap, ranges into and out of gaps) are compared with the sorted model. Non-trivial: at least two keys held and one query made.",
		Passes: stdPasses(
			[]Pass{{"small", 600, nil}, {"medium", 120, nil}, {"large", 12, nil}, {"tall", 3, nil}, {"waves", 11, nil}, {"aim", 12, nil}},
			[]Pass{{"small", 16000, nil}, {"medium", 4000, nil}, {"large", 300, nil}, {"tall", 60, nil}, {"waves", 240, nil}, {"aim", 250, nil}}),
		Gen: genRange, Run: runRange})
	register(&Prop{ID: "P04",
		Rule: "rapid draws a history; after its steps one cursor, and at the end one to five interleaved cursors plus a copy taken half-way (with Test calls in between), scan the unmodified store and are compared with the model. Non-trivial: at least two keys held at some point and one scan.",
		Passes: stdPasses(
			[]Pass{{"small", 600, nil}, {"medium", 120, nil}, {"large", 12, nil}, {"dirs", 3, nil}, {"giant", 1, []int{0, 1, 2, 3}}},
			[]Pass{{"small", 16000, nil}, {"medium", 4000, nil}, {"large", 300, nil}, {"dirs", 80, nil}, {"giant", 15, nil}}),
		Gen: genScan, Run: runScan})
	register(&Prop{ID: "P22",
		Rule: "rapid draws a history, then a scan with drawn calls between its steps: either overwrites and no-ops only (every key must come exactly once), or any calls, including bulk ones that resize the table (only pairs that existed since the scan began may come, and it must end). Non-trivial: at least two keys at the start of the scan and at least one call during it.",
		Passes: stdPasses(
			[]Pass{{"small", 700, nil}, {"medium", 250, nil}, {"large", 16, nil}},
			[]Pass{{"small", 20000, nil}, {"medium", 8000, nil}, {"large", 400, nil}}),
		Gen: genScanMod, Run: runScanMod})
}
