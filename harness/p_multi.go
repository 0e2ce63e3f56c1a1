package main

import (
	"fmt"

	"github.com/roy2220/fsm"
	"github.com/roy2220/plainkv"
	"github.com/roy2220/plainkv/bptree"
	"github.com/roy2220/plainkv/hashmap"
	"pgregory.net/rapid"
)

// Shared is one file storage that holds several structures.
type Shared struct {
	fs   *fsm.FileStorage
	path string
	open bool
}

var liveShared []*Shared

func openShared(name string, ballast int) (*Shared, error) {
	s := &Shared{fs: new(fsm.FileStorage).Init(), path: casePath(name)}
	if err := s.fs.Open(s.path, true); err != nil {
		return nil, hfail(err)
	}
	s.open = true
	liveShared = append(liveShared, s)
	sizes, _ := ballastOf(ballast)
	for _, n := range sizes {
		s.fs.AllocateSpace(n)
	}
	return s, nil
}

// handle makes a structure on the shared storage; create tells whether it is
// created right away.
func (s *Shared) handle(ordered bool) *Handle {
	h := &Handle{fs: s.fs, shared: true, kind: kHM}
	if ordered {
		h.kind = kBPT
		h.bt = new(bptree.BPTree).Init(s.fs)
		h.bt.Create()
	} else {
		h.hm = new(hashmap.HashMap).Init(s.fs)
		h.hm.Create()
	}
	return h
}

// store makes the structure dormant; load wakes it up.
func (h *Handle) store() {
	if h.dormant {
		return
	}
	h.dormant = true
	if h.kind == kBPT {
		h.addr = h.bt.Store()
		h.bt = nil
	} else {
		h.addr = h.hm.Store()
		h.hm = nil
	}
}

func (h *Handle) load() {
	if !h.dormant {
		return
	}
	h.dormant = false
	if h.kind == kBPT {
		h.bt = new(bptree.BPTree).Init(h.fs)
		h.bt.Load(h.addr)
	} else {
		h.hm = new(hashmap.HashMap).Init(h.fs)
		h.hm.Load(h.addr)
	}
}

// destroy destroys the structure; create makes a new one with the same object.
func (h *Handle) destroy() {
	if h.kind == kBPT {
		h.bt.Destroy()
	} else {
		h.hm.Destroy()
	}
}

func (h *Handle) create() {
	if h.kind == kBPT {
		h.bt.Create()
	} else {
		h.hm.Create()
	}
}

// reopen stores every structure, closes and opens the file and loads those
// that were awake.
func (s *Shared) reopen(hs []*Handle, closed func() error) error {
	awake := map[*Handle]bool{}
	for _, h := range hs {
		if h == nil {
			continue
		}
		awake[h] = !h.dormant
		h.store()
	}
	s.open = false
	if err := s.fs.Close(); err != nil {
		return violf("Close: %v", err)
	}
	if closed != nil {
		if err := closed(); err != nil {
			return err
		}
	}
	s.fs = new(fsm.FileStorage).Init()
	if err := s.fs.Open(s.path, false); err != nil {
		return violf("reopen: %v", err)
	}
	s.open = true
	for _, h := range hs {
		if h == nil {
			continue
		}
		h.fs = s.fs
		if awake[h] {
			h.load()
		}
	}
	return nil
}

// ---- P17 ----

const (
	mBPT = iota // in the shared file
	mHM
	mOD // in a file of its own
	mDict
)

func drawMulti(t *rapid.T, profile string, extra []string) []Op {
	cfg := profileCfg(profile, true)
	cfg.Fams = allFams
	if profile == "large" {
		cfg.Fams = hashFams
	}
	cfg.MaxOps = cfg.MaxOps * 2
	cfg.Reopen = false
	cfg.Kinds = withKinds(cfg.Kinds, extra...)
	ops := drawOps(t, cfg, func(t *rapid.T, kind string, o *Op) {
		o.X = rapid.IntRange(0, 50).Draw(t, "x")
		o.R = rapid.Bool().Draw(t, "desc")
	})
	// which structure each step is about: rapid has no state here, so the
	// choices are a second sequence
	for i := range ops {
		ops[i].S = rapid.IntRange(0, 5).Draw(t, "structure")
	}
	return ops
}

func genMulti(t *rapid.T, profile string) *Case {
	c := &Case{}
	drawBallast(t, c)
	c.P = rapid.SliceOfN(rapid.SampledFrom([]int{mBPT, mHM, mBPT, mHM, mOD, mDict}), 2, 5).Draw(t, "structures")
	c.Ops = drawMulti(t, profile, []string{"reopen", "store", "store", "load", "destroy", "iter", "iter", "step", "step", "audit"})
	return c
}

// reader is an iteration that stays open over steps of other structures.
type reader struct {
	ks   []string // what is still to come (ordered), or everything (not)
	it   bptree.Iterator
	cur  *hashmap.Cursor
	seen map[string]bool
}

type member struct {
	mode int
	l    *Lock
	rd   *reader
	gen  int
}

func (m *member) shared() bool { return m.mode == mBPT || m.mode == mHM }

func runMulti(c *Case, r *Report) error {
	sh, err := openShared("shared", c.B)
	if err != nil {
		return err
	}
	n := len(c.P)
	if n == 0 {
		return hfail(fmt.Errorf("no structures"))
	}
	ms := make([]*member, n)
	twinOf := func(i, gen, mode int) (*Handle, error) {
		kind := []int{kBPT, kHM, kOD, kDict}[mode]
		h, err := OpenHandle(kind, casePath(fmt.Sprintf("twin%d-%d", i, gen)))
		if err != nil {
			return nil, hfail(err)
		}
		return h, nil
	}
	for i, mode := range c.P {
		mode %= 4
		m := &member{mode: mode}
		var h *Handle
		if m.shared() {
			h = sh.handle(mode == mBPT)
		} else {
			var err error
			h, err = OpenHandle([]int{kBPT, kHM, kOD, kDict}[mode], casePath(fmt.Sprint("own", i)))
			if err != nil {
				return hfail(err)
			}
		}
		tw, err := twinOf(i, 0, mode)
		if err != nil {
			return err
		}
		i := i
		m.l = NewLock(NewExec(h), NewExec(tw), func() string { return fmt.Sprintf("structure %d of %d (%s)", i, n, kindNames[h.kind]) }, "alone")
		ms[i] = m
	}
	wake := func(m *member) {
		if m.l.e.H.dormant {
			m.l.e.H.load()
		}
	}
	touched := map[int]bool{}
	others, loads, destroys, steps := 0, 0, 0, 0
	lastS := -1
	compareAll := func() error {
		for _, m := range ms {
			was := m.l.e.H.dormant
			wake(m)
			if err := m.l.Compare(); err != nil {
				return err
			}
			if was && m.shared() {
				m.l.e.H.store()
			}
		}
		return nil
	}
	step := func(m *member, o Op, i int) error {
		rd := m.rd
		if rd == nil {
			return nil
		}
		steps++
		for j := 0; j <= o.X; j++ {
			if rd.it != nil {
				if len(rd.ks) == 0 {
					if !rd.it.IsAtEnd() {
						return violf("an iterator on structure %d of %d, unmodified since, goes on after its last pair", i, n)
					}
					m.rd = nil
					return nil
				}
				k, v, err := rd.it.ReadRecordAll()
				if err != nil || string(k) != rd.ks[0] || string(v) != string(m.l.e.M.m[rd.ks[0]]) {
					return violf("an iterator on structure %d of %d, unmodified since, yields %s=%s (%v) instead of key %s", i, n, short(k), short(v), err, short([]byte(rd.ks[0])))
				}
				rd.ks = rd.ks[1:]
				rd.it.Advance()
				continue
			}
			k, v, ok := m.l.e.H.Scanner().Scan(rd.cur)
			if !ok {
				if len(rd.seen) != len(rd.ks) {
					return violf("a scan of structure %d of %d, unmodified since, ends after %d of %d pairs", i, n, len(rd.seen), len(rd.ks))
				}
				m.rd = nil
				return nil
			}
			w, in := m.l.e.M.Get(k)
			if !in || rd.seen[string(k)] || string(w) != string(v) {
				return violf("a scan of structure %d of %d, unmodified since, yields %s=%s", i, n, short(k), short(v))
			}
			rd.seen[string(k)] = true
		}
		return nil
	}
	for oi, o := range c.Ops {
		i := o.S % n
		m := ms[i]
		h := m.l.e.H
		switch o.K {
		case "store":
			if m.shared() {
				h.store()
				m.rd = nil
			}
			continue
		case "load":
			if m.shared() && h.dormant {
				h.load()
				loads++
			}
			continue
		case "reopen":
			if m.shared() {
				var hs []*Handle
				for _, m2 := range ms {
					if m2.shared() {
						hs = append(hs, m2.l.e.H)
						m2.rd = nil
					}
				}
				if err := sh.reopen(hs, nil); err != nil {
					return err
				}
			} else {
				m.rd = nil
				if err := h.Reopen(); err != nil {
					return violf("%v", err)
				}
			}
			loads++
			if err := compareAll(); err != nil {
				return err
			}
			continue
		case "destroy":
			if !m.shared() {
				continue
			}
			wake(m)
			h.destroy()
			h.create()
			m.rd = nil
			m.gen++
			destroys++
			tw, err := twinOf(i, m.gen, m.mode)
			if err != nil {
				return err
			}
			m.l = NewLock(NewExec(h), NewExec(tw), m.l.when, m.l.other)
			if err := compareAll(); err != nil {
				return err
			}
			continue
		case "iter":
			wake(m)
			ks := append([]string(nil), m.l.e.M.Keys()...)
			if h.Ordered() {
				m.rd = &reader{}
				if o.R {
					for a, b := 0, len(ks)-1; a < b; a, b = a+1, b-1 {
						ks[a], ks[b] = ks[b], ks[a]
					}
					m.rd.it = h.Ranger().RangeDesc(plainkv.MinKey, plainkv.MaxKey)
				} else {
					m.rd.it = h.Ranger().RangeAsc(plainkv.MinKey, plainkv.MaxKey)
				}
				m.rd.ks = ks
			} else {
				m.rd = &reader{cur: &hashmap.Cursor{}, seen: map[string]bool{}, ks: ks}
			}
			continue
		case "step":
			for j := range ms {
				if err := step(ms[(i+j)%n], o, (i+j)%n); err != nil {
					return err
				}
			}
			continue
		case "audit":
			if err := compareAll(); err != nil {
				return err
			}
			continue
		}
		if i != lastS {
			others++
			lastS = i
		}
		touched[i] = true
		wake(m)
		if o.K != "test" {
			m.rd = nil
		}
		if err := m.l.Apply(o); err != nil {
			return err
		}
		if oi%8 == 7 && m.l.e.M.Len() < 300 || o.N > 100 {
			if err := compareAll(); err != nil {
				return err
			}
		}
	}
	for i := range ms {
		if err := step(ms[i], Op{X: 1 << 20}, i); err != nil {
			return err
		}
	}
	if err := compareAll(); err != nil {
		return err
	}
	var hs []*Handle
	for _, m := range ms {
		if m.shared() {
			hs = append(hs, m.l.e.H)
		} else if err := m.l.e.H.Reopen(); err != nil {
			return violf("%v", err)
		}
	}
	if err := sh.reopen(hs, nil); err != nil {
		return err
	}
	if err := compareAll(); err != nil {
		return err
	}
	keys := 0
	for _, m := range ms {
		for k, v := range m.l.e.seen {
			r.Count("op_"+k, v)
		}
		r.Count("calls", m.l.e.Calls)
		if m.l.e.Max > keys {
			keys = m.l.e.Max
		}
	}
	r.Count("switches_between_structures", others)
	r.Count("loads", loads)
	r.Count("destroys", destroys)
	r.Count("steps_of_open_iterations", steps)
	r.Label(fmt.Sprintf("structures_%d", n))
	r.Nontrivial = len(touched) >= 2 && others >= 2 && keys >= 2
	return nil
}

// ---- P21 ----

func genDestroy(t *rapid.T, profile string) *Case {
	c := &Case{}
	drawBallast(t, c)
	c.P = rapid.SliceOfN(rapid.SampledFrom([]int{mBPT, mHM}), 1, 4).Draw(t, "structures")
	switch profile {
	case "tall", "waves", "dirs", "giant":
		c.P = []int{mHM, mBPT}
		if profile == "tall" || profile == "waves" {
			c.P = []int{mBPT, mHM}
		}
		for _, o := range scenario(t, profile, profile == "tall" || profile == "waves") {
			c.Ops = append(c.Ops, o)
			if rapid.IntRange(0, 3).Draw(t, "then") == 0 {
				c.Ops = append(c.Ops, Op{K: rapid.SampledFrom([]string{"destroy", "reopen", "store"}).Draw(t, "what")})
			}
		}
		// the last step of a scenario often empties the structure: leave it out
		if rapid.Bool().Draw(t, "full") {
			for i := len(c.Ops) - 1; i > 0; i-- {
				if c.Ops[i].K == "wipe" {
					c.Ops = c.Ops[:i]
					break
				}
			}
		}
		return c
	}
	c.Ops = drawMulti(t, profile, []string{"destroy", "destroy", "store", "reopen"})
	return c
}

func runDestroy(c *Case, r *Report) error {
	sh, err := openShared("shared", c.B)
	if err != nil {
		return err
	}
	alloc := func() int { return sh.fs.Stats().AllocatedSpaceSize }
	base := alloc()
	n := len(c.P)
	if n == 0 {
		return hfail(fmt.Errorf("no structures"))
	}
	es := make([]*Exec, n)   // nil: does not exist
	born := make([]int, n)   // allocated size when it was created
	alone := make([]bool, n) // nothing else has happened since
	cycles, full, isolated := 0, 0, 0
	var handles func() []*Handle
	handles = func() []*Handle {
		var hs []*Handle
		for _, e := range es {
			if e != nil {
				hs = append(hs, e.H)
			}
		}
		return hs
	}
	others := func(i int) {
		for j := range alone {
			if j != i {
				alone[j] = false
			}
		}
	}
	intact := func(when string) error {
		for j, e := range es {
			if e == nil || e.M.Len() > 3000 && cycles > 3 {
				continue
			}
			was := e.H.dormant
			e.H.load()
			if err := guard(func() error { return verifyDump(e.H, e.M) }); err != nil {
				return violf("structure %d %s: %v", j, when, err)
			}
			if s := e.H.Stats(); s.Records != e.M.Len() {
				return violf("structure %d %s: %d keys reported, %d held", j, when, s.Records, e.M.Len())
			}
			if was {
				e.H.store()
			}
		}
		return nil
	}
	destroy := func(i int) error {
		e := es[i]
		e.H.load()
		size := e.M.Len()
		what := fmt.Sprintf("a %s of %d keys", kindNames[e.H.kind], size)
		before := alloc()
		e.H.destroy()
		es[i] = nil
		cycles++
		if size > 0 {
			full++
		}
		after := alloc()
		if after > before {
			return violf("destroying %s took the allocated space from %d to %d bytes", what, before, after)
		}
		if alone[i] {
			isolated++
			if after != born[i] {
				return violf("%d bytes were allocated before %s was created and %d are after it was destroyed", born[i], what, after)
			}
		}
		if len(handles()) == 0 && after != base {
			return violf("all structures are destroyed, the last being %s, and %d bytes are allocated instead of %d", what, after, base)
		}
		others(-1)
		if err := intact("after destroying another"); err != nil {
			return err
		}
		// the object may be used again at once
		h := e.H
		h.create()
		ne := NewExec(h)
		s, s2 := h.Stats(), Stats{Height: 1, Leafs: 1}
		if h.kind == kHM {
			s2 = Stats{Slots: 1, SlotDirs: 1}
		}
		s.Allocated = 0
		if s != s2 {
			return violf("a structure created after destroying %s reports %+v", what, s)
		}
		if err := verifyDump(h, ne.M); err != nil {
			return violf("a structure created after destroying %s is not empty: %v", what, err)
		}
		es[i], born[i], alone[i] = ne, after, true
		return nil
	}
	examine := func() error {
		hs := handles()
		return sh.reopen(hs, func() error {
			var roots []fsckRoot
			for _, h := range hs {
				roots = append(roots, fsckRoot{h.kind == kBPT, h.addr})
			}
			if len(roots) == 0 {
				return nil
			}
			_, ot := ballastOf(c.B)
			rem, fk, err := fsckRoots(sh.path, roots, ot)
			if err != nil {
				return err
			}
			for _, f := range fk {
				if f.FormErr != nil {
					return violf("after %d destructions a structure in the file is malformed: %v", cycles, f.FormErr)
				}
			}
			if fk[0].Overlap != "" {
				return violf("after %d destructions: %s", cycles, fk[0].Overlap)
			}
			if fk[0].LeakErr != nil {
				return violf("after %d destructions: %v", cycles, fk[0].LeakErr)
			}
			if rem != 0 {
				return violf("after %d destructions, %d bytes of the file are allocated although no structure refers to them", cycles, rem)
			}
			return nil
		})
	}
	for _, o := range c.Ops {
		i := o.S % n
		if es[i] == nil {
			born[i], alone[i] = alloc(), true
			others(i)
			es[i] = NewExec(sh.handle(c.P[i]%2 == mBPT))
		}
		e := es[i]
		switch o.K {
		case "destroy":
			if err := destroy(i); err != nil {
				return err
			}
			if o.X%3 == 0 { // and leave it destroyed
				es[i].H.destroy()
				es[i] = nil
				if a := alloc(); a != born[i] {
					return violf("creating and destroying an empty structure took the allocated space from %d to %d bytes", born[i], a)
				}
			}
			continue
		case "store":
			// repeatedly: storing and loading takes no space
			for j := 0; j <= o.X%4; j++ {
				e.H.load()
				e.H.store()
			}
			others(i)
			continue
		case "reopen":
			if err := examine(); err != nil {
				return err
			}
			others(-1)
			for j := range alone {
				alone[j] = false
			}
			continue
		}
		others(i)
		e.H.load()
		if err := e.Apply(o); err != nil {
			return err
		}
	}
	if err := intact("at the end"); err != nil {
		return err
	}
	if err := examine(); err != nil {
		return err
	}
	maxKeys := 0
	for i := range es {
		if es[i] == nil {
			continue
		}
		e := es[i]
		for k, v := range e.seen {
			r.Count("op_"+k, v)
		}
		r.Count("calls", e.Calls)
		if e.Max > maxKeys {
			maxKeys = e.Max
		}
		e.H.load()
		what := fmt.Sprintf("a %s of %d keys", kindNames[e.H.kind], e.M.Len())
		if e.M.Len() > 0 {
			full++
		}
		e.H.destroy()
		cycles++
		es[i] = nil
		if len(handles()) == 0 {
			if a := alloc(); a != base {
				return violf("all structures are destroyed, the last being %s, and %d bytes are allocated instead of %d", what, a, base)
			}
		}
	}
	r.Count("destructions", cycles)
	r.Count("destructions_of_nonempty", full)
	r.Count("isolated_lifetimes", isolated)
	r.Nontrivial = full > 0
	return nil
}

func init() {
	register(&Prop{ID: "P17",
		Rule: "rapid draws two to five structures (trees and hash maps in one shared file, ordered and plain dictionaries in files of their own) and a history that moves among them, with store, load, destroy, reopen and iterations held open meanwhile; each structure has a twin alone in its own file that sees only its own steps, and results, statistics and dumps are compared. Non-trivial: at least two structures used in turn, one with two keys.",
		Passes: stdPasses(
			[]Pass{{"small", 200, nil}, {"medium", 50, nil}, {"large", 4, nil}},
			[]Pass{{"small", 6000, nil}, {"medium", 2000, nil}, {"large", 120, nil}}),
		Gen: genMulti, Run: runMulti})
	register(&Prop{ID: "P21",
		Rule:   "rapid draws up to four structures in one file and a history with destructions, stores and reopens; the allocated size must be back where it was around every undisturbed lifetime and when all are destroyed, the others must stay intact, a new structure must be empty, and the closed file may hold no unreferenced space. Non-trivial: a non-empty structure was destroyed.",
		Assume: []string{"the space manager's own accounting (fsm.FileStorage, a dependency) is right"},
		Passes: stdPasses(
			[]Pass{{"small", 250, nil}, {"medium", 60, nil}, {"large", 5, nil}, {"tall", 2, nil}, {"waves", 8, nil}, {"dirs", 2, nil}, {"giant", 1, []int{0, 1}}},
			[]Pass{{"small", 8000, nil}, {"medium", 2000, nil}, {"large", 150, nil}, {"tall", 40, nil}, {"waves", 160, nil}, {"dirs", 40, nil}, {"giant", 10, nil}}),
		Gen: genDestroy, Run: runDestroy})
}
