package main

import (
	"bufio"
	"fmt"
	"math/bits"
	"os"
	"strconv"
	"strings"
	"syscall"

	"github.com/roy2220/fsm"
	"github.com/roy2220/plainkv/bptree"
	"github.com/roy2220/plainkv/hashmap"
	"pgregory.net/rapid"
)

// ---- P29: the work of a modification, of opening and of closing ----
//
// A call that modifies the file cannot be made again page by page as P28 does
// it.  The pages it touches are those the kernel finds referenced after it:
// all pages are mapped in, the accessed bits cleared, the call made.

// fileMaps tells the address range of the mapping of a file and a field of it
// in /proc/self/smaps, in bytes.
func fileMaps(path, field string) (lo, hi uintptr, sum int, err error) {
	f, err := os.Open("/proc/self/smaps")
	if err != nil {
		return 0, 0, 0, hfail(err)
	}
	defer f.Close()
	in := false
	s := bufio.NewScanner(f)
	s.Buffer(make([]byte, 0, 4096), 1<<20)
	for s.Scan() {
		b := s.Text()
		if len(b) > 0 && b[0] >= 'A' && b[0] <= 'Z' {
			if in && strings.HasPrefix(b, field) {
				n, err := strconv.Atoi(strings.Fields(b)[1])
				if err != nil {
					return 0, 0, 0, hfail(err)
				}
				sum += n << 10
			}
			continue
		}
		if in = strings.HasSuffix(b, " "+path); in {
			r := strings.SplitN(strings.Fields(b)[0], "-", 2)
			a, err1 := strconv.ParseUint(r[0], 16, 64)
			z, err2 := strconv.ParseUint(r[1], 16, 64)
			if err1 != nil || err2 != nil {
				return 0, 0, 0, hfail(fmt.Errorf("smaps: %s", b))
			}
			if lo == 0 {
				lo = uintptr(a)
			}
			hi = uintptr(z)
		}
	}
	return lo, hi, sum, nil
}

// refWatch counts the pages of a file that calls touch.
type refWatch struct {
	path  string
	clear *os.File
	lo    uintptr
	hi    uintptr
}

// newRefWatch returns nil where the kernel does not offer the means.
func newRefWatch(path string) *refWatch {
	f, err := os.OpenFile("/proc/self/clear_refs", os.O_WRONLY, 0)
	if err != nil {
		return nil
	}
	w := &refWatch{path: path, clear: f}
	if _, err := f.WriteString("3"); err != nil {
		f.Close()
		return nil
	}
	return w
}

func (w *refWatch) close() { w.clear.Close() }

const maxWatched = 512 << 20

// arm maps every page in and clears the accessed bits.
func (w *refWatch) arm() (ok bool, err error) {
	if w.lo, w.hi, _, err = fileMaps(w.path, "Rss:"); err != nil {
		return false, err
	}
	if w.lo == 0 || w.hi-w.lo > maxWatched {
		return false, nil
	}
	const populateRead = 22
	if _, _, e := syscall.RawSyscall(syscall.SYS_MADVISE, w.lo, w.hi-w.lo, populateRead); e != 0 {
		return false, nil
	}
	return true, w.rearm()
}

func (w *refWatch) rearm() error {
	if _, err := w.clear.WriteString("3"); err != nil {
		return hfail(err)
	}
	return nil
}

// touched tells the pages referenced since; ok is false if the file has been
// mapped anew.
func (w *refWatch) touched() (n int, ok bool, err error) {
	lo, hi, sum, err := fileMaps(w.path, "Referenced:")
	return sum / changePage, lo == w.lo && hi == w.hi, err
}

// modWork bounds the heap, and for records kept in the pages of a tree the
// pages of the file, that one call may take.
func modWork(e *Exec, op string, k, v []byte) (pages, heap int) {
	old, had := e.M.Get(k)
	involved := len(k) + len(v) + len(old)
	if e.H.Ordered() {
		h := e.H.Stats().Height + 1
		pages = 16 + 20*h
		if modLongest > 256 {
			pages += 4 * h * (pagesOf(modLongest) + 1)
		}
		if len(k) > 256 || len(v) > 128 || had && len(old) > 128 {
			pages = 0
		}
		return pages, 16384 + 24576*h + 9*h*modLongest + 6*involved
	}
	// the slot of the key, and those that one step of growth or shrinkage
	// splits or merges
	slots := e.H.Stats().Slots
	count, size, home := slotLoad(e.M, slots+2)
	high := 1
	for high<<1 <= slots+1 {
		high <<= 1
	}
	heap = 16384 + 6*involved + 8*(slots>>12+8)*4
	for s := range map[int]bool{home(string(k)): true, home(string(k)) &^ high: true, home(string(k)) &^ (high >> 1): true,
		slots: true, slots - 1: true, slots &^ high: true, (slots - 1) &^ high: true, slots &^ (high >> 1): true, (slots - 1) &^ (high >> 1): true} {
		if s >= 0 && s < len(count) {
			heap += 6*size[s] + 1024*count[s]
		}
	}
	return 0, heap
}

// modLongest is the length of the longest key of the running case.
var modLongest int

// modOutside: something was stored outside the pages of a tree.  Then there
// may be any number of free chunks, which the space manager passes over when
// it allocates one.
var modOutside bool

func genModify(t *rapid.T, profile string) *Case {
	c := &Case{Kind: rapid.SampledFrom([]int{kOD, kDict, kBPT, kHM}).Draw(t, "store")}
	ordered := c.Kind == kOD || c.Kind == kBPT
	if treeProfile(profile) {
		c.Kind, ordered = kOD, true
	}
	reopen := func(t *rapid.T, kind string, o *Op) {}
	if g := scenario(t, profile, ordered); g != nil {
		c.Ops = append(g, Op{K: "reopen"})
		return c
	}
	cfg := profileCfg("medium", ordered)
	cfg.Fams = treeFams
	cfg.Idx = []int{3000, 9000}
	cfg.ValMax = []int{3, valSmallMax, valSmallMax, valMidMax}
	cfg.BulkN = []int{20, 120, 1200}
	cfg.MaxOps = 24
	cfg.Kinds = withKinds(pointKinds, "fill", "wipe", "rewrite", "reopen")
	base := Op{K: "fill", Fam: rapid.SampledFrom([]int{famDec, famRand, famMid, famLong, famTiny}).Draw(t, "family"), M: rapid.SampledFrom([]int{0, 2, 5}).Draw(t, "order"),
		N: rapid.SampledFrom([]int{1500, 4000, 9000}).Draw(t, "base"), V: rapid.IntRange(5, valSmallMax).Draw(t, "value"), W: -1}
	if profile == "wide" { // files large enough to tell how much of them is read
		base.N, base.V = 40000, valSmallMax
		cfg.MaxOps = 6
	}
	c.Ops = append([]Op{base}, drawOps(t, cfg, reopen)...)
	if rapid.Bool().Draw(t, "emptied") {
		c.Ops = append(c.Ops, Op{K: "wipe", Y: rapid.SampledFrom([]int{990, 999, 1000}).Draw(t, "share"), M: rapid.SampledFrom([]int{0, 1, 2}).Draw(t, "wipe order")},
			Op{K: "fill", Fam: base.Fam, N: rapid.SampledFrom([]int{30, 400}).Draw(t, "refill"), V: base.V, W: -1})
	}
	c.Ops = append(c.Ops, Op{K: "reopen"})
	return c
}

func runModify(c *Case, r *Report) error {
	e, err := openCase(c)
	if err != nil {
		return err
	}
	w := newRefWatch(e.H.path)
	if w == nil {
		r.Label("pages_not_measurable")
	} else {
		defer w.close()
	}
	modLongest, modOutside = 0, !e.H.Ordered()
	budget, calls, opens := 700, 0, 0
	if !e.H.Ordered() {
		budget = 200
	}
	worstPages, worstHeap := 0, 0
	worst := func(w *int, n, limit int) {
		if x := n * 100 / limit; x > *w {
			*w = x
		}
	}
	measure, bulk := false, false
	armed := false
	skip := newRng(len(c.Ops), 29)
	turns, err := rehearse(c)
	if err != nil {
		return err
	}
	serial, turned := 0, 0
	e.around = func(op string, k, v []byte, ret bool, call func() ([]byte, bool)) (res []byte, ok bool, err error) {
		if len(k) > modLongest {
			modLongest = len(k)
		}
		modOutside = modOutside || len(k) > 256 || len(v) > 128
		serial++
		if turns[serial] {
			turned++
		} else if !measure || budget == 0 || op == "test" || bulk && skip.n(4) > 0 {
			res, ok = call()
			return res, ok, nil
		} else {
			budget--
		}
		calls++
		before := e.H.Stats()
		pages, heap := modWork(e, op, k, v)
		if pages > 0 && w != nil {
			if !armed {
				if armed, err = w.arm(); err != nil {
					return nil, false, err
				}
			} else if err = w.rearm(); err != nil {
				return nil, false, err
			}
		}
		a, _ := allocated(func() error {
			res, ok = call()
			return nil
		})
		if pages > 0 && w != nil && armed {
			n, same, err := w.touched()
			if err != nil {
				return nil, false, err
			}
			if !same {
				armed = false
			} else {
				worst(&worstPages, n, pages)
				if n > pages {
					return nil, false, violf("%s(%s) with %d bytes of value on a dictionary of %d keys (height %d) touches %d pages of the file, more than %d", op, short(k), len(v), e.M.Len(), before.Height, n, pages)
				}
			}
		}
		if heap > 0 {
			worst(&worstHeap, a, heap)
			if a > heap {
				return nil, false, violf("%s(%s) with %d bytes of value on a dictionary of %d keys takes %d bytes of memory, more than %d", op, short(k), len(v), e.M.Len(), a, heap)
			}
		}
		return res, ok, nil
	}
	e.onReopen = func() error {
		armed = false
		opens++
		return measuredReopen(e, w, r, &worstPages, &worstHeap)
	}
	for i, o := range c.Ops {
		measure, bulk = i >= 1, o.K == "fill" || o.K == "wipe" || o.K == "rewrite"
		if err := e.Apply(o); err != nil {
			return err
		}
	}
	opLabels(e, r)
	r.Count("modifications_measured", calls)
	r.Count("turning_points_measured", turned)
	r.Count("reopens_measured", opens)
	r.Label(fmt.Sprintf("%s_pages_at_most_%d_percent", kindNames[c.Kind], (worstPages+9)/10*10))
	r.Label(fmt.Sprintf("%s_memory_at_most_%d_percent", kindNames[c.Kind], (worstHeap+9)/10*10))
	r.Nontrivial = e.Max >= 200 && calls >= 3
	return nil
}

// rehearse makes the calls of a case on a store of its own and tells the
// serial numbers of those at which the structure changes its shape: the tree
// its height or the number of its inner pages, the table the number of its
// directories or the doubling it is in; and of some others that split or
// merge pages or slots.
func rehearse(c *Case) (map[int]bool, error) {
	h, err := openStore(c, "rehearsal")
	if err != nil {
		return nil, err
	}
	e := NewExec(h)
	type shape struct{ height, inner, dirs, doubling, leafs, slots int }
	look := func() shape {
		s := h.Stats()
		return shape{s.Height, s.NonLeafs, s.SlotDirs, bits.Len(uint(s.Slots)), s.Leafs, s.Slots}
	}
	turns := map[int]bool{}
	serial, rare, common := 0, 150, 100
	g := newRng(len(c.Ops), 31)
	last := look()
	e.around = func(op string, k, v []byte, ret bool, call func() ([]byte, bool)) ([]byte, bool, error) {
		serial++
		res, ok := call()
		s := look()
		switch {
		case s == last:
		case s.height != last.height || s.dirs != last.dirs || s.doubling != last.doubling:
			turns[serial] = true
		case s.inner != last.inner:
			if rare > 0 && g.n(3) > 0 {
				rare--
				turns[serial] = true
			}
		case common > 0 && g.n(20) == 0:
			common--
			turns[serial] = true
		}
		last = s
		return res, ok, nil
	}
	for _, o := range c.Ops {
		if err := e.Apply(o); err != nil {
			return nil, err
		}
	}
	if err := h.Close(); err != nil {
		return nil, violf("Close: %v", err)
	}
	return turns, os.Remove(h.path)
}

// measuredReopen closes and opens the store.
func measuredReopen(e *Exec, w *refWatch, r *Report, worstPages, worstHeap *int) error {
	h := e.H
	worst := func(w *int, n, limit int) {
		if x := n * 100 / limit; x > *w {
			*w = x
		}
	}
	keys := e.M.Len()
	if h.kind == kOD || h.kind == kDict {
		mapped := 0
		if st, err := os.Stat(h.path); err == nil {
			mapped = int(st.Size())
		}
		heap := 512<<10 + mapped/64
		a, err := allocated(h.Close)
		if err != nil {
			return violf("Close: %v", err)
		}
		worst(worstHeap, a, heap)
		if a > heap {
			return violf("Close of a dictionary of %d keys takes %d bytes of memory, more than %d", keys, a, heap)
		}
		if a, err = allocated(func() error { return h.doOpen(false) }); err != nil {
			return violf("reopen: %v", err)
		}
		worst(worstHeap, a, heap)
		if a > heap {
			return violf("opening a dictionary of %d keys takes %d bytes of memory, more than %d", keys, a, heap)
		}
		if w == nil {
			return nil
		}
		// the kernel maps up to 16 pages around each it is asked for
		const limit = 480
		lo, hi, n, err := fileMaps(h.path, "Rss:")
		if err != nil {
			return err
		}
		n /= changePage
		if lo == 0 || hi-lo < 2*limit*changePage {
			return nil
		}
		r.Count("openings_of_large_files", 1)
		worst(worstPages, n, limit)
		if n > limit {
			return violf("opening a dictionary of %d keys touches %d pages of a file of %d", keys, n, int(hi-lo)/changePage)
		}
		return nil
	}
	const limit, heap = 24, 65536
	around := func(what string, call func() error) error {
		ok := false
		var err error
		if w != nil && !(what == "Store" && modOutside) {
			if ok, err = w.arm(); err != nil {
				return err
			}
		}
		a, err := allocated(call)
		if err != nil {
			return err
		}
		worst(worstHeap, a, heap)
		if a > heap {
			return violf("%s of a structure of %d keys takes %d bytes of memory, more than %d", what, keys, a, heap)
		}
		if ok {
			n, same, err := w.touched()
			if err != nil {
				return err
			}
			if same {
				r.Count("stores_and_loads_measured_in_pages", 1)
				worst(worstPages, n, limit)
				if n > limit {
					return violf("%s of a structure of %d keys touches %d pages, more than %d", what, keys, n, limit)
				}
			}
		}
		return nil
	}
	var addr int64
	if err := around("Store", func() error {
		if h.kind == kBPT {
			addr = h.bt.Store()
		} else {
			addr = h.hm.Store()
		}
		return nil
	}); err != nil {
		return err
	}
	h.fs.SetPrimarySpace(addr)
	h.open = false
	if err := h.fs.Close(); err != nil {
		return violf("Close: %v", err)
	}
	h.fs = new(fsm.FileStorage).Init()
	if err := h.fs.Open(h.path, false); err != nil {
		return violf("reopen: %v", err)
	}
	h.open = true
	if h.kind == kBPT {
		h.bt = new(bptree.BPTree).Init(h.fs)
	} else {
		h.hm = new(hashmap.HashMap).Init(h.fs)
	}
	return around("Load", func() error {
		if h.kind == kBPT {
			h.bt.Load(h.fs.PrimarySpace())
		} else {
			h.hm.Load(h.fs.PrimarySpace())
		}
		return nil
	})
}

func init() {
	register(&Prop{ID: "P29",
		Rule: "rapid draws a fill of 1500 to 9000 keys and up to 27 further steps with reopens; a rehearsal on a second file tells the calls at which the structure changes its shape, and those and up to 700 other modifications after the fill are measured: the heap they allocate and, for records a tree keeps in its pages, the pages of the file the kernel finds referenced after the call; and at every reopen the heap and the pages that closing (storing) and opening (loading) take. Non-trivial: at least 200 keys held and three modifications measured.",
		Passes: stdPasses(
			[]Pass{{"base", 12, nil}, {"wide", 2, nil}, {"tall", 3, nil}, {"dirs", 1, nil}},
			[]Pass{{"base", 600, nil}, {"wide", 60, nil}, {"tall", 40, nil}, {"waves", 20, nil}, {"dirs", 40, nil}}),
		Gen: genModify, Run: runModify})
}
