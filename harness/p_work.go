package main

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"syscall"

	"github.com/roy2220/plainkv"
	"github.com/roy2220/plainkv/hashmap"
	"pgregory.net/rapid"
)

// ---- P28: the work of a query ----
//
// The pages of the file a query touches are counted exactly: the mapping is
// made inaccessible, and the query (which changes nothing) is made again and
// again, with the page it faulted on made accessible, until it succeeds.

// pageGate guards the mappings of one file.
type pageGate struct {
	lo, hi []uintptr
	opened map[uintptr]bool
}

func protect(addr, n uintptr, prot uintptr) error {
	if _, _, e := syscall.RawSyscall(syscall.SYS_MPROTECT, addr, n, prot); e != 0 {
		return &HarnessError{"mprotect: " + e.Error()}
	}
	return nil
}

func newGate(path string) (*pageGate, error) {
	f, err := os.Open("/proc/self/maps")
	if err != nil {
		return nil, hfail(err)
	}
	defer f.Close()
	g := &pageGate{opened: map[uintptr]bool{}}
	for s := bufio.NewScanner(f); s.Scan(); {
		if !strings.HasSuffix(s.Text(), " "+path) {
			continue
		}
		r := strings.SplitN(strings.Fields(s.Text())[0], "-", 2)
		a, err1 := strconv.ParseUint(r[0], 16, 64)
		b, err2 := strconv.ParseUint(r[1], 16, 64)
		if err1 != nil || err2 != nil {
			return nil, hfail(fmt.Errorf("maps: %s", s.Text()))
		}
		g.lo, g.hi = append(g.lo, uintptr(a)), append(g.hi, uintptr(b))
	}
	return g, nil
}

func (g *pageGate) all(prot uintptr) error {
	g.opened = map[uintptr]bool{}
	for i := range g.lo {
		if err := protect(g.lo[i], g.hi[i]-g.lo[i], prot); err != nil {
			return err
		}
	}
	return nil
}

// attempt makes the call; it returns the address of the fault, if any.
func (g *pageGate) attempt(call func() error) (addr uintptr, err error) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if f, ok := r.(interface{ Addr() uintptr }); ok {
			for i := range g.lo {
				if a := f.Addr(); a >= g.lo[i] && a < g.hi[i] {
					addr = a
					return
				}
			}
		}
		err = panicError(r)
	}()
	return 0, call()
}

// touched counts the pages the call needs, up to a limit.
func (g *pageGate) touched(limit int, call func() error) (n int, err error) {
	if err := g.all(syscall.PROT_NONE); err != nil {
		return 0, err
	}
	defer func() {
		if e := g.all(syscall.PROT_READ | syscall.PROT_WRITE); e != nil && err == nil {
			err = e
		}
	}()
	for n = 0; n <= limit; n++ {
		addr, err := g.attempt(call)
		if err != nil || addr == 0 {
			return n, err
		}
		page := addr &^ (changePage - 1)
		if g.opened[page] {
			return 0, &HarnessError{"a page that is accessible faults"}
		}
		g.opened[page] = true
		if err := protect(page, changePage, syscall.PROT_READ|syscall.PROT_WRITE); err != nil {
			return 0, err
		}
	}
	return n, nil
}

// allocated tells the bytes of heap the call takes.
func allocated(call func() error) (int, error) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	err := call()
	runtime.ReadMemStats(&b)
	return int(b.TotalAlloc - a.TotalAlloc), err
}

func pagesOf(n int) int { return (n + changePage - 1) / changePage }

// slotLoad tells, for each slot of a table, its pairs and their bytes.
func slotLoad(m *Model, slots int) (count, size []int, home func(k string) int) {
	mask := uint64(1)
	for mask < uint64(slots) {
		mask <<= 1
	}
	high := mask >> 1
	mask--
	home = func(k string) int {
		h := sum64([]byte(k)) & mask
		if h >= uint64(slots) {
			h &^= high
		}
		return int(h)
	}
	count, size = make([]int, slots), make([]int, slots)
	for k, v := range m.m {
		s := home(k)
		count[s]++
		size[s] += len(k) + len(v)
	}
	return
}

// measured is one query with the bounds of its work.
type measured struct {
	what  string
	pages int
	heap  int
	call  func() error
}

// workQueries draws queries of the store as it is.
func workQueries(e *Exec, n int, g *rng) (out []measured, err error) {
	h, m := e.H, e.M
	ks := m.Keys()
	st := h.Stats()
	longest, longestVal := 0, 0
	for _, k := range ks {
		if len(k) > longest {
			longest = len(k)
		}
		if l := len(m.m[k]); l > longestVal {
			longestVal = l
		}
	}
	kv := h.KV()
	add := func(what string, pages, heap int, call func() error) {
		out = append(out, measured{what, pages, heap, call})
	}
	expect := func(what string, k []byte, ok, want bool, v, wv []byte, ret bool) error {
		if ok != want || ret && want && !bytes.Equal(v, wv) {
			return &Inconclusive{fmt.Sprintf("%s(%s) returns a wrong result", what, short(k))}
		}
		return nil
	}
	// what looking a key up may take
	compare := 0 // pages of the keys compared on one level
	if longest > 256 {
		compare = 4 * (pagesOf(longest) + 1)
	}
	lookup := 6 + st.Height*(3+compare)
	lookupHeap := 8192 + st.Height*(4096+9*longest)
	var count, size []int
	var home func(string) int
	if !h.Ordered() {
		count, size, home = slotLoad(m, st.Slots)
	}
	look := func(k []byte) (int, int) {
		if h.Ordered() {
			return lookup, lookupHeap + 4*len(k)
		}
		s := home(string(k))
		return 5 + pagesOf(size[s]+32*count[s]), 10240 + 512*count[s]
	}
	for i := 0; i < n; i++ {
		k := []byte("no such key")
		if len(ks) > 0 {
			k = []byte(ks[g.n(len(ks))])
		}
		if g.n(4) == 0 {
			k = perturb(k, 1+g.n(numKeyModes-1))
		}
		v, in := m.Get(k)
		p, a := look(k)
		ret := g.n(2) == 0
		vp, va := 0, 0
		if ret && in {
			vp, va = pagesOf(len(v))+2, 3*len(v)
		}
		q := g.n(10)
		if !h.Ordered() && q >= 8 {
			q = 7
		}
		// a value that is not going to be stored
		refused := rep(byte(g.n(256)), []int{5, 200, 1 << 16}[g.n(3)])
		switch {
		case q < 3:
			add(fmt.Sprintf("Test(%s)", short(k)), p+vp, a+va, func() error {
				w, ok := kv.Test(k, ret)
				return expect("Test", k, ok, in, w, v, ret)
			})
		case q == 3 && in:
			add(fmt.Sprintf("SetIfNotExists(%s), which is present, with %d bytes", short(k), len(refused)), p+vp, a+va+3*len(refused), func() error {
				w, ok := kv.SetIfNotExists(k, refused, ret)
				return expect("SetIfNotExists", k, ok, false, w, v, false)
			})
		case q == 3:
			add(fmt.Sprintf("SetIfExists(%s), which is absent, with %d bytes", short(k), len(refused)), p, a+3*len(refused), func() error {
				w, ok := kv.SetIfExists(k, refused, ret)
				return expect("SetIfExists", k, ok, false, w, v, false)
			})
		case q == 4 && !in:
			add(fmt.Sprintf("Clear(%s), which is absent,", short(k)), p, a, func() error {
				w, ok := kv.Clear(k, ret)
				return expect("Clear", k, ok, false, w, v, false)
			})
		case q == 4 && h.Ordered() && len(ks) > 0:
			k, v := plainkv.MinKey, m.m[ks[0]]
			if g.n(2) == 0 {
				k, v = plainkv.MaxKey, m.m[ks[len(ks)-1]]
			}
			add(fmt.Sprintf("Test(%s)", short(k)), p+pagesOf(len(v))+2, a+3*len(v), func() error {
				w, ok := kv.Test(k, true)
				return expect("Test", k, ok, true, w, v, true)
			})
		case q == 5:
			add("Stats", 1, 8192, func() error {
				if s := h.Stats(); s.Records != len(ks) {
					return &Inconclusive{"Stats returns a wrong result"}
				}
				return nil
			})
		case h.Ordered():
			if len(ks) == 0 {
				continue
			}
			i := g.n(len(ks))
			n := g.n(3)
			if q == 9 {
				n = g.n(200)
			}
			desc := g.n(2) == 0
			read := g.n(3)
			window := g.n(100)
			lo, hi := []byte(ks[i]), plainkv.MaxKey
			if g.n(4) == 0 {
				lo = perturb(lo, 2)
				i++
			}
			if desc {
				lo, hi = plainkv.MinKey, []byte(ks[i%len(ks)])
				i %= len(ks)
			}
			// what the pairs passed may take
			pages, heap := 2*lookup, 2*lookupHeap+4*(len(lo)+len(hi))
			inline := 0
			at := func(j int) (string, bool) {
				if desc {
					j = i - j
				} else {
					j = i + j
				}
				if j < 0 || j >= len(ks) {
					return "", false
				}
				return ks[j], true
			}
			for j := 0; j <= n; j++ {
				x, ok := at(j)
				if !ok {
					break
				}
				inline += inlineSize(x, m.m[x])
				heap += 1024
				switch read {
				case 0:
					if len(x) > 256 {
						pages += pagesOf(len(x)) + 2
					}
					if len(m.m[x]) > 128 {
						pages += pagesOf(len(m.m[x])) + 2
					}
					heap += 3 * (len(x) + len(m.m[x]))
				case 1:
					if len(m.m[x]) > 128 {
						pages += 5
					}
				}
			}
			pages += inline/1024 + 2
			what := fmt.Sprintf("a range in direction %v from %s, and %d Advances with reads of kind %d,", desc, short([]byte(ks[i%len(ks)])), n, read)
			add(what, pages, heap, func() error {
				it := h.Ranger().RangeAsc(lo, hi)
				if desc {
					it = h.Ranger().RangeDesc(lo, hi)
				}
				for j := 0; j <= n; j++ {
					x, ok := at(j)
					if ok == it.IsAtEnd() {
						return &Inconclusive{"a range has a wrong end"}
					}
					if !ok {
						return nil
					}
					switch read {
					case 0:
						if k, v, err := it.ReadRecordAll(); err != nil || string(k) != x || !bytes.Equal(v, m.m[x]) {
							return &Inconclusive{"a range yields a wrong pair"}
						}
					case 1: // a window of the value
						var b [64]byte
						v := m.m[x]
						o := len(v) * window / 100
						if n, err := it.ReadValue(o, b[:]); err != nil || !bytes.Equal(b[:n], v[o:o+min(64, len(v)-o)]) {
							return &Inconclusive{"a window has wrong contents"}
						}
						if n, err := it.GetValueSize(); err != nil || n != len(v) {
							return &Inconclusive{"a value has a wrong size"}
						}
					}
					it.Advance()
				}
				return nil
			})
		default:
			// a scan from a drawn position on
			if len(ks) == 0 {
				continue
			}
			skip, n := g.n(min(len(ks), 3000)), 1+g.n(5)
			var c hashmap.Cursor
			sc := h.Scanner()
			last := ""
			for j := 0; j < skip; j++ {
				k, _, ok := sc.Scan(&c)
				if !ok {
					return nil, &Inconclusive{"a scan is short"}
				}
				last = string(k)
			}
			from := 0
			if skip > 0 {
				from = home(last)
			}
			// the slots the next pairs are in, and those between
			pages, heap := 10, 10240
			c2 := c
			to := from
			for j := 0; j < n; j++ {
				k, _, ok := sc.Scan(&c2)
				if !ok {
					to = st.Slots - 1
					break
				}
				if s := home(string(k)); s > to {
					to = s
				}
			}
			for s := from; s <= to; s++ {
				heap += 1024 + 3*size[s] + 512*count[s]
				if count[s] > 0 {
					pages += pagesOf(size[s]+32*count[s]) + 2
				}
			}
			add(fmt.Sprintf("a scan that goes on after %d pairs for another %d", skip, n), pages, heap, func() error {
				c := c
				for j := 0; j < n; j++ {
					k, v, ok := sc.Scan(&c)
					if !ok {
						return nil
					}
					if w, in := m.m[string(k)]; !in || !bytes.Equal(v, w) {
						return &Inconclusive{"a scan yields a wrong pair"}
					}
				}
				return nil
			})
		}
	}
	return out, nil
}

func genWork(t *rapid.T, profile string) *Case {
	c := &Case{Kind: rapid.SampledFrom([]int{kOD, kDict, kOD, kDict, kBPT, kHM}).Draw(t, "store")}
	ordered := c.Kind == kOD || c.Kind == kBPT
	cfg := profileCfg("medium", ordered)
	if profile == "small" || profile == "large" {
		cfg = profileCfg(profile, ordered)
	}
	if !ordered {
		cfg.Fams = []int{famDec, famRand, famTiny, famLong, famMid}
	}
	cfg.Kinds = withKinds(cfg.Kinds, "work")
	work := func(t *rapid.T, kind string, o *Op) {
		o.N = 8
		o.I = rapid.IntRange(0, 1<<20).Draw(t, "salt")
	}
	if treeProfile(profile) {
		c.Kind, ordered = kOD, true
	}
	if c.Ops = scenario(t, profile, ordered); c.Ops == nil {
		c.Ops = drawOps(t, cfg, work)
	}
	o := Op{K: "work"}
	work(t, "", &o)
	o.N = 24
	if profile != "small" && profile != "medium" {
		o.N = 300
	}
	c.Ops = append(c.Ops, o)
	return c
}

func runWork(c *Case, r *Report) error {
	e, err := openCase(c)
	if err != nil {
		return err
	}
	worstPages, worstHeap, queries, big := 0, 0, 0, 0
	e.extra = func(o Op) error {
		qs, err := workQueries(e, o.N, newRng(o.I, 28))
		if err != nil {
			return err
		}
		gate, err := newGate(e.H.path)
		if err != nil {
			return err
		}
		for _, q := range qs {
			n, err := gate.touched(q.pages, q.call)
			if err != nil {
				return err
			}
			if n > q.pages {
				return violf("%s on a dictionary of %d keys with %d bytes of payload touches more than %d pages", q.what, e.M.Len(), e.M.payload, q.pages)
			}
			if x := n * 100 / q.pages; x > worstPages {
				worstPages = x
			}
			queries++
			if q.pages*4*changePage < e.M.payload {
				big++
			}
			a := 0
			for try := 0; try < 5; try++ {
				if a, err = allocated(q.call); err != nil {
					return err
				}
				if a <= q.heap {
					break
				}
			}
			if a > q.heap {
				return violf("%s on a dictionary of %d keys takes %d bytes of memory, more than %d", q.what, e.M.Len(), a, q.heap)
			}
			if x := a * 100 / q.heap; x > worstHeap {
				worstHeap = x
			}
		}
		return nil
	}
	for _, o := range c.Ops {
		if err := e.Apply(o); err != nil {
			return err
		}
	}
	opLabels(e, r)
	r.Count("queries_measured", queries)
	r.Count("queries_bounded_by_less_than_a_quarter_of_the_payload", big)
	if queries > 0 {
		r.Label(fmt.Sprintf("pages_at_most_%d_percent", (worstPages+9)/10*10))
		r.Label(fmt.Sprintf("memory_at_most_%d_percent", (worstHeap+9)/10*10))
	}
	r.Nontrivial = e.Max >= 2 && queries >= 4
	return nil
}

func init() {
	register(&Prop{ID: "P28",
		Rule: "rapid draws a history with points where eight to two hundred queries (Test, conditional operations that fail, ranges opened at a drawn key and followed for some pairs with whole reads, windows or none, scans continued from a drawn position, Stats) are measured: the pages of the file they touch, counted exactly by making the mapping inaccessible page by page, and the heap they allocate; both are bounded by the height of the tree or the load of the slots concerned and by the size of what is returned. Non-trivial: at least two keys held and four queries measured.",
		Passes: stdPasses(
			[]Pass{{"small", 150, nil}, {"medium", 120, nil}, {"large", 16, nil}, {"tall", 3, nil}, {"dirs", 2, nil}},
			[]Pass{{"small", 5000, nil}, {"medium", 4000, nil}, {"large", 600, nil}, {"tall", 100, nil}, {"dirs", 60, nil}}),
		Gen: genWork, Run: runWork})
}
