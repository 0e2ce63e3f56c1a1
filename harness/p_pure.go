package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"

	"github.com/roy2220/fsm"
	"github.com/roy2220/plainkv"
	"github.com/roy2220/plainkv/bptree"
	"github.com/roy2220/plainkv/hashmap"
	"pgregory.net/rapid"
)

// ---- P15: queries and failed conditional operations change nothing ----

func genPure(t *rapid.T, profile string) *Case {
	c := &Case{Kind: rapid.SampledFrom([]int{kOD, kDict, kOD, kDict, kBPT, kHM}).Draw(t, "store")}
	drawBallast(t, c)
	drawHole(t, c, profile)
	ordered := c.Kind == kOD || c.Kind == kBPT
	c.P = []int{rapid.SampledFrom([]int{1, 3, 20, 200}).Draw(t, "repeats")}
	cfg := profileCfg(profile, ordered)
	cfg.Kinds = withKinds(cfg.Kinds, "query", "query", "query", "query")
	c.Ops = drawOps(t, cfg, func(t *rapid.T, kind string, o *Op) { drawQuery(t, o, ordered) })
	// the batch of queries at the end
	for i, n := 0, rapid.IntRange(1, 12).Draw(t, "batch"); i < n; i++ {
		o := Op{K: "query", N: 1}
		drawQuery(t, &o, ordered)
		c.Ops = append(c.Ops, o)
	}
	return c
}

// drawQuery draws one query: X selects which, M/I the key, V the value.
func drawQuery(t *rapid.T, o *Op, ordered bool) {
	o.X = rapid.IntRange(0, 7).Draw(t, "query")
	o.M = rapid.IntRange(0, numKeyModes-1).Draw(t, "keymode")
	o.I = rapid.IntRange(0, 5000).Draw(t, "rank")
	o.Fam = rapid.SampledFrom(allFams).Draw(t, "family")
	o.V = rapid.IntRange(0, valBigMax).Draw(t, "value")
	o.Y = rapid.IntRange(0, 40).Draw(t, "steps")
	o.R = rapid.Bool().Draw(t, "ret")
	if ordered {
		o.S = rapid.IntRange(0, 5).Draw(t, "sentinel")
	}
}

// query performs one call that must change nothing.  It returns its name.
func query(e *Exec, o Op) (string, error) {
	h, m := e.H, e.M
	kv := h.KV()
	key := e.resolveKey(o)
	val := valOf(o.V, o.I)
	_, has := m.Get(key)
	if h.Ordered() && m.Len() > 0 && o.S >= 4 {
		// a sentinel stands for a stored key
		key, has = plainkv.MinKey, true
		if o.S == 5 {
			key = plainkv.MaxKey
		}
	}
	present := func() []byte { // a stored key
		ks := m.Keys()
		return []byte(ks[o.I%len(ks)])
	}
	switch o.X {
	case 0:
		kv.Test(key, o.R)
		return "Test", nil
	case 1:
		if has {
			kv.Test(key, o.R)
			return "Test", nil
		}
		if v, ok := kv.SetIfExists(key, val, o.R); ok || len(v) != 0 {
			return "", violf("SetIfExists of the absent key %s returned %s, %v", short(key), short(v), ok)
		}
		return "SetIfExists of an absent key", nil
	case 2:
		if has {
			kv.Test(key, o.R)
			return "Test", nil
		}
		if v, ok := kv.Clear(key, o.R); ok || len(v) != 0 {
			return "", violf("Clear of the absent key %s returned %s, %v", short(key), short(v), ok)
		}
		return "Clear of an absent key", nil
	case 3:
		if m.Len() == 0 {
			kv.Clear(key, o.R)
			return "Clear on an empty store", nil
		}
		if !has {
			key = present()
		}
		if _, ok := kv.SetIfNotExists(key, val, o.R); ok {
			return "", violf("SetIfNotExists of the present key %s returned true", short(key))
		}
		return "SetIfNotExists of a present key", nil
	case 4:
		h.Stats()
		return "Stats", nil
	}
	if !h.Ordered() {
		var c hashmap.Cursor
		sc := h.Scanner()
		for i := 0; i <= o.Y; i++ {
			if _, _, ok := sc.Scan(&c); !ok && i > 3 {
				break
			}
		}
		return "Scan", nil
	}
	a, b := boundKey(m, 1+o.M, o.I), boundKey(m, 1+o.M/2, o.I+o.Y)
	switch o.S {
	case 1:
		a = plainkv.MinKey
	case 2:
		b = plainkv.MaxKey
	case 3:
		a, b = plainkv.MinKey, plainkv.MaxKey
	}
	var it bptree.Iterator
	name := "RangeAsc"
	if o.R {
		name = "RangeDesc"
		it = h.Ranger().RangeDesc(a, b)
	} else {
		it = h.Ranger().RangeAsc(a, b)
	}
	buf := make([]byte, 40)
	for i := 0; i <= o.Y; i++ {
		switch (i + o.X) % 4 {
		case 0:
			it.ReadRecordAll()
		case 1:
			it.ReadKey(i*9, buf)
			it.ReadValue(i*9, buf)
		case 2:
			it.GetKeySize()
			it.GetValueSize()
			it.ReadKeyAll()
		case 3:
			it.ReadValueAll()
			it.IsAtEnd()
		}
		it.Advance()
	}
	return name, nil
}

func runPure(c *Case, r *Report) error {
	e, err := openCase(c)
	if err != nil {
		return err
	}
	queries := 0
	// contents as the store shows them: another property decides whether
	// they are right
	dump := func() ([][2][]byte, error) {
		d, err := e.H.Dump(4*e.M.Len() + 8)
		if err != nil {
			return nil, violf("%v", err)
		}
		return d, nil
	}
	sameDump := func(a, b [][2][]byte) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if !bytes.Equal(a[i][0], b[i][0]) || !bytes.Equal(a[i][1], b[i][1]) {
				return false
			}
		}
		return true
	}
	var image []byte
	_ = image
	one := func(o Op, repeats int, deep bool) error {
		before := e.H.Stats()
		var d0, d1 [][2][]byte
		var err error
		if deep {
			if d0, err = dump(); err != nil {
				return err
			}
			if s := e.H.Stats(); s != before {
				return violf("iterating changed the statistics: %+v, before %+v", s, before)
			}
		}
		name := ""
		for i := 0; i < repeats; i++ {
			queries++
			if name, err = query(e, o); err != nil {
				return err
			}
			if s := e.H.Stats(); s != before {
				return violf("%s changed the statistics: %+v, before %+v", name, s, before)
			}
		}
		if deep {
			if d1, err = dump(); err != nil {
				return err
			}
			if !sameDump(d0, d1) {
				return violf("%s changed the contents", name)
			}
		}
		return nil
	}
	e.around = func(op string, k, v []byte, ret bool, call func() ([]byte, bool)) ([]byte, bool, error) {
		_, had := e.M.Get(k)
		noop := op == "test" || op == "setx" && !had || op == "setnx" && had || op == "clear" && !had
		before := e.H.Stats()
		res, ok := call()
		if noop {
			queries++
			if s := e.H.Stats(); s != before {
				return nil, false, violf("%s(%s), which is to change nothing, changed the statistics: %+v, before %+v", op, short(k), s, before)
			}
		}
		return res, ok, nil
	}
	n := len(c.Ops)
	for n > 0 && c.Ops[n-1].K == "query" {
		n--
	}
	e.extra = func(o Op) error { return one(o, 1, e.M.Len() < 300) }
	for _, o := range c.Ops[:n] {
		if err := e.Apply(o); err != nil {
			return err
		}
	}
	// the batch, between two examinations of the closed file
	examine := func() (*Fsck, error) {
		var out *Fsck
		err := closedCheck(c, e.H, func(fk *Fsck) error { out = fk; return nil })
		return out, err
	}
	f0, err := examine()
	if err != nil {
		return err
	}
	before := e.H.Stats()
	for _, o := range c.Ops[n:] {
		if err := one(o, c.P[0], true); err != nil {
			return err
		}
	}
	if s := e.H.Stats(); s != before {
		return violf("%d queries changed the statistics: %+v, before %+v", len(c.Ops)-n, s, before)
	}
	f1, err := examine()
	if err != nil {
		return err
	}
	if f0.FormErr == nil && f0.LeakErr == nil && f0.Overlap == "" {
		if f1.FormErr != nil || f1.LeakErr != nil || f1.Overlap != "" {
			return violf("%d queries damaged the file: %v %v %s", len(c.Ops)-n, f1.FormErr, f1.LeakErr, f1.Overlap)
		}
		if f0.Remaining != f1.Remaining {
			return violf("%d queries took space: %d bytes belong to nothing, before %d", len(c.Ops)-n, f1.Remaining, f0.Remaining)
		}
		if !sameDump(f0.Pairs, f1.Pairs) {
			return violf("%d queries changed the contents or the order of the file", len(c.Ops)-n)
		}
		if len(f0.Leafs) != len(f1.Leafs) || len(f0.Inners) != len(f1.Inners) || f0.Slots != f1.Slots {
			return violf("%d queries changed the structure of the file", len(c.Ops)-n)
		}
	} else {
		return &Inconclusive{"malformed file before the queries"}
	}
	opLabels(e, r)
	r.Count("queries", queries)
	r.Nontrivial = e.Max >= 2 && queries > 2
	return nil
}

// ---- P16: opening ----

var pathStates = []string{"missing", "missing-parent", "dir", "empty", "short", "random", "badsig", "valid", "copy", "renamed", "symlink", "file-as-parent", "zeros", "bare"}

func genOpen(t *rapid.T, profile string) *Case {
	c := &Case{Kind: rapid.SampledFrom([]int{kOD, kDict}).Draw(t, "store")}
	cfg := profileCfg(profile, c.Kind == kOD)
	cfg.MaxOps = cfg.MaxOps/2 + 1
	c.Ops = drawOps(t, cfg, nil)
	tries := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
		return Op{K: "open", X: rapid.IntRange(0, len(pathStates)-1).Draw(t, "state"),
			S: rapid.IntRange(0, 1).Draw(t, "dict"), // which of the two Open functions
			N: rapid.SampledFrom([]int{1, 2, 4, 5, 100, 1000, 4000, 4090, 4095, 4096, 4097, 8192, 40000}).Draw(t, "size"),
			I: rapid.IntRange(0, 3).Draw(t, "byte"), V: rapid.IntRange(1, 255).Draw(t, "flip"),
			R: rapid.Bool().Draw(t, "create"), Y: rapid.IntRange(0, 3).Draw(t, "again")}
	}), 1, 12).Draw(t, "tries")
	c.Ops = append(c.Ops, tries...)
	return c
}

// snapshot lists a directory tree with the contents of its files.
func snapshot(dir string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case fi.IsDir():
			out[rel] = "dir"
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			out[rel] = "link " + l
		default:
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			out[rel] = fmt.Sprintf("%d:%x", len(b), sum64(b))
		}
		return nil
	})
	return out, err
}

func sameTree(a, b map[string]string) string {
	for k, v := range a {
		if w, ok := b[k]; !ok {
			return k + " disappeared"
		} else if w != v {
			return k + " was modified"
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return k + " was created"
		}
	}
	return ""
}

func runOpen(c *Case, r *Report) error {
	e, err := openCase(c)
	if err != nil {
		return err
	}
	n := len(c.Ops)
	for n > 0 && c.Ops[n-1].K == "open" {
		n--
	}
	for _, o := range c.Ops[:n] {
		if err := e.Apply(o); err != nil {
			return err
		}
	}
	if err := e.H.Close(); err != nil {
		return violf("Close: %v", err)
	}
	dir := casePath("opens")
	okOpens, errOpens := 0, 0
	for i, o := range c.Ops[n:] {
		if err := os.MkdirAll(dir, 0755); err != nil {
			return hfail(err)
		}
		created, failed, err := tryOpen(c, e, dir, o)
		if err != nil {
			if v, ok := err.(*Viol); ok {
				return violf("try %d: %s, creation asked for: %v: %s", i, pathStates[o.X], o.R, v.msg)
			}
			return err
		}
		if failed {
			errOpens++
		} else {
			okOpens++
		}
		_ = created
		r.Label("state_" + pathStates[o.X])
		if err := os.RemoveAll(dir); err != nil {
			return hfail(err)
		}
	}
	// the store itself took no harm from its copies and links
	if err := e.H.doOpen(false); err != nil {
		return violf("reopen: %v", err)
	}
	if err := verifyDump(e.H, e.M); err != nil {
		return err
	}
	opLabels(e, r)
	r.Count("opens_that_failed", errOpens)
	r.Count("opens_that_succeeded", okOpens)
	r.Nontrivial = okOpens+errOpens > 0
	return nil
}

func tryOpen(c *Case, e *Exec, dir string, o Op) (created, failed bool, err error) {
	state := pathStates[o.X]
	src := e.H.path
	p := filepath.Join(dir, "f")
	wantErr, wantEmpty, either := false, false, false
	kind := c.Kind
	foreign := false
	switch state {
	case "missing":
		kind = []int{kOD, kDict}[o.S]
		wantErr, wantEmpty = !o.R, true
	case "missing-parent":
		kind = []int{kOD, kDict}[o.S]
		p = filepath.Join(dir, "nodir", "f")
		wantErr = true
	case "file-as-parent":
		kind = []int{kOD, kDict}[o.S]
		if err := os.WriteFile(filepath.Join(dir, "f"), []byte("x"), 0644); err != nil {
			return false, false, hfail(err)
		}
		p = filepath.Join(dir, "f", "g")
		wantErr = true
	case "dir":
		kind = []int{kOD, kDict}[o.S]
		if err := os.Mkdir(p, 0755); err != nil {
			return false, false, hfail(err)
		}
		wantErr = true
	case "empty", "random", "zeros":
		kind = []int{kOD, kDict}[o.S]
		var b []byte
		if state == "random" {
			b = fillBytes(o.N, uint64(o.V))
			b[0] |= 0x80 // not the signature's
		} else if state == "zeros" {
			b = make([]byte, o.N)
		}
		if err := os.WriteFile(p, b, 0644); err != nil {
			return false, false, hfail(err)
		}
		wantErr, foreign = true, true
	case "short", "badsig":
		kind = []int{kOD, kDict}[o.S]
		b, err := os.ReadFile(src)
		if err != nil {
			return false, false, hfail(err)
		}
		if state == "short" {
			n := o.N
			if n > 4095 {
				n = 4095
			}
			if len(b) > n {
				b = b[:n]
			}
		} else {
			b[o.I] ^= byte(o.V)
		}
		if err := os.WriteFile(p, b, 0644); err != nil {
			return false, false, hfail(err)
		}
		wantErr, foreign = true, true
	case "valid", "copy":
		if err := copyFile(p, src); err != nil {
			return false, false, hfail(err)
		}
	case "renamed":
		q := filepath.Join(dir, "g")
		if err := copyFile(q, src); err != nil {
			return false, false, hfail(err)
		}
		// opened and closed under one name, then renamed
		h := tracked(&Handle{kind: kind, path: q})
		if err := h.doOpen(o.R); err != nil {
			return false, false, violf("opening a copy: %v", err)
		}
		if err := h.Close(); err != nil {
			return false, false, violf("Close: %v", err)
		}
		if err := os.Rename(q, p); err != nil {
			return false, false, hfail(err)
		}
	case "bare":
		// a file of the space manager in which no dictionary was ever put:
		// an empty dictionary or no such file
		kind = []int{kOD, kDict}[o.S]
		fs := new(fsm.FileStorage).Init()
		if err := fs.Open(p, true); err != nil {
			return false, false, hfail(err)
		}
		if err := fs.Close(); err != nil {
			return false, false, hfail(err)
		}
		wantEmpty, either = true, true
	case "symlink":
		if err := copyFile(filepath.Join(dir, "target"), src); err != nil {
			return false, false, hfail(err)
		}
		if err := os.Symlink("target", p); err != nil {
			return false, false, hfail(err)
		}
	}
	_ = foreign
	before, serr := snapshot(dir)
	if serr != nil {
		return false, false, hfail(serr)
	}
	for again := 0; again <= o.Y; again++ {
		h := tracked(&Handle{kind: kind, path: p})
		oerr := h.doOpen(o.R)
		if either && again == 0 && oerr != nil {
			wantErr = true
		}
		if wantErr {
			if oerr == nil {
				return false, false, violf("Open succeeded")
			}
			if h.od != nil || h.d != nil {
				return false, false, violf("Open failed (%v) but returned a dictionary", oerr)
			}
			after, serr := snapshot(dir)
			if serr != nil {
				return false, false, hfail(serr)
			}
			if d := sameTree(before, after); d != "" {
				return false, false, violf("Open failed (%v) but %s", oerr, d)
			}
			continue
		}
		if oerr != nil {
			return false, false, violf("Open: %v", oerr)
		}
		m := e.M
		if wantEmpty {
			m = NewModel()
			created = true
		}
		if again > 0 && wantEmpty {
			// what the previous round left
			m.Put([]byte("k"), []byte("v"))
		}
		if err := verifyDump(h, m); err != nil {
			return false, false, err
		}
		if s := h.Stats(); s.Records != m.Len() {
			return false, false, violf("%d keys are reported, %d are there", s.Records, m.Len())
		}
		if wantEmpty && again == 0 {
			h.KV().Set([]byte("k"), []byte("v"), false)
			m.Put([]byte("k"), []byte("v"))
			if err := verifyDump(h, m); err != nil {
				return false, false, err
			}
		}
		if err := h.Close(); err != nil {
			return false, false, violf("Close: %v", err)
		}
	}
	return created, wantErr, nil
}

func init() {
	register(&Prop{ID: "P15",
		Rule: "rapid draws a history with queries and no-ops in it and a batch of them (repeated up to 200 times) at its end; statistics, allocated space included, are compared around each, the dump around those on stores of under 300 keys and in the batch, and the closed file (structure, order, unreferenced space) before and after the batch. Non-trivial: at least two keys held and more than two queries made.",
		Passes: stdPasses(
			[]Pass{{"small", 300, nil}, {"medium", 60, nil}, {"large", 4, nil}},
			[]Pass{{"small", 8000, nil}, {"medium", 2500, nil}, {"large", 150, nil}}),
		Gen: genPure, Run: runPure})
	register(&Prop{ID: "P16",
		Rule: "rapid draws a history and up to twelve opens of paths in drawn states (missing, missing parent, directory, empty, short, random, zeros, one signature byte changed, valid, copied, renamed, symbolic link, file as parent) with either flag, by either function where the result must be an error or an empty dictionary, repeated up to four times; errors must leave the directory tree byte for byte. Non-trivial: a path was opened.",
		Passes: stdPasses(
			[]Pass{{"small", 300, nil}, {"medium", 50, nil}},
			[]Pass{{"small", 8000, nil}, {"medium", 2000, nil}}),
		Gen: genOpen, Run: runOpen})
}
