package main

import (
	"bytes"
	"fmt"
	"os"
	"syscall"

	"pgregory.net/rapid"
)

// ---- P25: space in proportion ----

// spaceVerdict compares the size of everything reachable with what it holds
// and the sum with the contents.
func spaceVerdict(e *Exec, fk *Fsck, r *Report) error {
	if fk.FormErr != nil {
		return &Inconclusive{"malformed file: " + fk.FormErr.Error()}
	}
	total := 0
	for _, s := range fk.Spaces {
		if s.what == "another space" {
			continue
		}
		total += s.size
		if s.size > 2*s.need+64 {
			return violf("in a file of %d pairs, %s takes %d bytes, of which %d are in use", len(fk.Pairs), s.what, s.size, s.need)
		}
	}
	if fk.SlotDirs > fk.Slots>>dirShift+2 {
		return violf("%d slots have %d directories", fk.Slots, fk.SlotDirs)
	}
	for _, s := range fk.Spaces {
		if s.what == "the directory array" && s.need > 64 && s.need > 4*8*fk.SlotDirs {
			return violf("%d directories have an array of %d bytes", fk.SlotDirs, s.need)
		}
	}
	n := len(fk.Pairs)
	pay := 0
	for _, p := range fk.Pairs {
		pay += len(p[0]) + len(p[1])
	}
	if limit := 1<<17 + 4*(pay+64*n); total > limit {
		return violf("a file of %d pairs with %d bytes takes %d bytes", n, pay, total)
	}
	r.Count("spaces_examined", len(fk.Spaces))
	return nil
}

func genCost(t *rapid.T, profile string) *Case {
	kinds := []int{kOD, kDict, kOD, kDict, kBPT, kHM}
	if treeProfile(profile) {
		kinds = []int{kOD, kOD, kBPT}
	}
	c := &Case{Kind: rapid.SampledFrom(kinds).Draw(t, "store")}
	ordered := c.Kind == kOD || c.Kind == kBPT
	if g := scenario(t, profile, ordered); g != nil {
		c.Ops = g
		return c
	}
	cfg := profileCfg(profile, ordered)
	if profile == "small" {
		cfg.ValMax = []int{5, valSmallMax, valMidMax, valBigMax, valHugeMax}
	}
	c.Ops = drawOps(t, cfg, nil)
	return c
}

// ---- P26: locality of changes ----

const changePage = 4096

// changeLimit is the number of pages a single operation may change.  A page
// counts as changed if more than an eighth of its bytes differ: the space
// manager keeps a count in the header of every free chunk it passes over, and
// those single bytes are not the library's.
func changeLimit(e *Exec, bytesInvolved int) int {
	n := 8 + 2*(bytesInvolved+changePage-1)/changePage
	if e.H.Ordered() {
		n += 8 * e.H.Stats().Height
	}
	return n
}

func genLocal(t *rapid.T, profile string) *Case {
	c := &Case{Kind: rapid.SampledFrom([]int{kOD, kDict}).Draw(t, "store")}
	ordered := c.Kind == kOD
	cfg := profileCfg("medium", ordered)
	cfg.Fams = treeFams
	cfg.Idx = []int{3000}
	cfg.ValMax = []int{3, valSmallMax}
	cfg.Reopen = false
	cfg.MaxOps = 40
	cfg.Kinds = withKinds(pointKinds, "fill", "wipe", "rewrite")
	base := Op{K: "fill", Fam: rapid.SampledFrom([]int{famDec, famRand, famMid, famLong, famTiny}).Draw(t, "family"), M: 2,
		N: rapid.SampledFrom([]int{1500, 4000}).Draw(t, "base"), V: rapid.IntRange(5, valSmallMax).Draw(t, "value"), W: -1}
	if profile == "edge" {
		// where a table of slots grows or shrinks a directory
		c.Kind = kDict
		base.Fam, base.V = famDec, 3
		base.N = rapid.SampledFrom([]int{6600, 13200}).Draw(t, "base")
		cfg.Fams = []int{famDec}
		cfg.ValMax = []int{3}
		cfg.Idx = []int{14000}
	}
	c.Ops = []Op{base}
	if profile == "edge" {
		c.Ops = append(c.Ops, Op{K: "fill", Fam: famDec, I: base.N, N: rapid.IntRange(100, 500).Draw(t, "across"), M: 2, V: 3, W: -1})
	}
	c.Ops = append(c.Ops, drawOps(t, cfg, nil)...)
	return c
}

// pageWatch compares the file with what it was at the last look.
type pageWatch struct {
	path string
	m    []byte // the file, mapped by the harness
	old  []byte
}

func (p *pageWatch) close() {
	if p.m != nil {
		syscall.Munmap(p.m)
		p.m = nil
	}
}

// look returns the number of pages that changed since the last look, and the
// number of bytes that changed right behind another one.
func (p *pageWatch) look() (int, int, error) {
	st, err := os.Stat(p.path)
	if err != nil {
		return 0, 0, hfail(err)
	}
	if n := int(st.Size()); n != len(p.m) {
		p.close()
		f, err := os.Open(p.path)
		if err != nil {
			return 0, 0, hfail(err)
		}
		defer f.Close()
		if p.m, err = syscall.Mmap(int(f.Fd()), 0, n, syscall.PROT_READ, syscall.MAP_SHARED); err != nil {
			return 0, 0, hfail(err)
		}
		if n > cap(p.old) {
			p.old = append(make([]byte, 0, n+n/2), p.old...)
		}
		l := len(p.old)
		p.old = p.old[:n]
		for ; l < n; l++ {
			p.old[l] = 0
		}
	}
	n, run := 0, 0
	for i := 0; i < len(p.m); i += changePage {
		j := i + changePage
		if j > len(p.m) {
			j = len(p.m)
		}
		a, b := p.old[i:j], p.m[i:j]
		if bytes.Equal(a, b) {
			continue
		}
		d := 0
		for k := range a {
			if a[k] != b[k] {
				d++
				if k > 0 && a[k-1] != b[k-1] {
					run++
				}
			}
		}
		if d > changePage/8 {
			n++
		}
		copy(a, b)
	}
	return n, run, nil
}

func runLocal(c *Case, r *Report) error {
	e, err := openCase(c)
	if err != nil {
		return err
	}
	w := &pageWatch{path: e.H.path}
	defer w.close()
	measure := false
	budget, measured, most, mostBytes, largest := 4000, 0, 0, 0, 0
	e.around = func(op string, k, v []byte, ret bool, call func() ([]byte, bool)) ([]byte, bool, error) {
		if !measure || budget == 0 {
			if x := len(k) + len(v); x > largest {
				largest = x
			}
			b, ok := call()
			return b, ok, nil
		}
		old, _ := e.M.Get(k)
		limit := changeLimit(e, len(k)+len(v)+len(old))
		res, ok := call()
		n, run, err := w.look()
		if err != nil {
			return nil, false, err
		}
		measured++
		budget--
		if l := changeLimit(e, len(k)+len(v)+len(old)); l > limit {
			limit = l
		}
		if n > most {
			most = n
		}
		if x := len(k) + len(v); x > largest {
			largest = x
		}
		if !e.H.Ordered() {
			room := 1024 + 40*(largest+16)
			if q := run * 100 / room; q > mostBytes {
				mostBytes = q
			}
			if run > room {
				return nil, false, violf("%s(%s) with %d bytes of value changes %d bytes of a file of %d pairs of at most %d bytes each", op, short(k), len(v), run, e.M.Len(), largest)
			}
		}
		if n > limit {
			return nil, false, violf("%s(%s) with %d bytes of value changes %d pages of %d bytes of a file of %d keys", op, short(k), len(v), n, changePage, e.M.Len())
		}
		return res, ok, nil
	}
	for i, o := range c.Ops {
		if i == 1 {
			if _, _, err := w.look(); err != nil {
				return err
			}
			measure = true
		}
		if err := e.Apply(o); err != nil {
			return err
		}
	}
	opLabels(e, r)
	r.Count("operations_measured", measured)
	r.Label(fmt.Sprintf("%s_at_most_%d_pages", kindNames[c.Kind], (most+3)/4*4))
	if !e.H.Ordered() {
		r.Label(fmt.Sprintf("Dict_bytes_at_most_%d_percent", (mostBytes+9)/10*10))
	}
	r.Nontrivial = e.Max >= 200 && measured >= 3
	return nil
}

func init() {
	register(&Prop{ID: "P25",
		Rule:   "rapid draws a history; at reopens, after bulk steps on small stores and at the end an independent reader walks the closed file and compares the size of every space it meets (pages, overflow areas, slots, directories, arrays, descriptor) with the bytes in use in it (at most twice as much and 64 bytes), and the sum with the contents (at most four times the payload and 64 bytes a pair, and 128 KiB). Non-trivial: at least two keys held, in more than one page or slot.",
		Assume: []string{"the sizes of spaces are those the space manager (fsm.FileStorage, a dependency) tells"},
		Passes: stdPasses(
			[]Pass{{"small", 250, nil}, {"medium", 60, nil}, {"large", 4, nil}, {"waves", 6, nil}, {"dirs", 2, nil}},
			[]Pass{{"small", 8000, nil}, {"medium", 2000, nil}, {"large", 150, nil}, {"waves", 150, nil}, {"dirs", 40, nil}}),
		Gen: genCost, Run: runClosed(spaceVerdict)})
	register(&Prop{ID: "P26",
		Rule: "rapid draws a fill of 1500 to 13200 keys and up to forty further steps; after each of these operations (up to 4000) the pages of 4096 bytes of the file that differ in more than an eighth are counted: at most 8, eight for each level of a tree, and twice what key and values take; for Dict also the bytes that changed next to another changed byte, at most those of forty of the largest pairs and 1024. Non-trivial: at least 200 keys held and three operations measured.",
		Passes: stdPasses(
			[]Pass{{"mixed", 20, nil}, {"edge", 4, nil}},
			[]Pass{{"mixed", 800, nil}, {"edge", 100, nil}}),
		Gen: genLocal, Run: runLocal})
}
