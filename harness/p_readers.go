package main

import (
	"bytes"
	"runtime/debug"
	"sync"
	"syscall"
	"time"

	"github.com/roy2220/plainkv"
	"pgregory.net/rapid"
)

// ---- P27: queries of one dictionary at the same time ----
//
// Like P23 the check is built with the race detector.

func genReaders(t *rapid.T, profile string) *Case {
	c := &Case{Kind: rapid.SampledFrom([]int{kOD, kDict, kOD, kDict, kBPT, kHM}).Draw(t, "store")}
	drawBallast(t, c)
	draw := func(t *rapid.T, kind string, o *Op) {
		o.N = rapid.IntRange(2, 6).Draw(t, "goroutines")
		o.X = rapid.SampledFrom([]int{1, 5, 30}).Draw(t, "queries")
		o.I = rapid.IntRange(0, 1<<20).Draw(t, "salt")
	}
	cfg := profileCfg(profile, c.Kind == kOD || c.Kind == kBPT)
	cfg.Kinds = withKinds(cfg.Kinds, "readers", "readers")
	if profile == "small" {
		cfg.MaxOps = 30
	}
	c.Ops = drawOps(t, cfg, draw)
	o := Op{K: "readers"}
	draw(t, "readers", &o)
	c.Ops = append(c.Ops, o)
	return c
}

// someQueries makes n queries and compares their results with the model,
// which nobody changes meanwhile.
func someQueries(h *Handle, m *Model, want Stats, dump []byte, n int, g *rng) (done map[string]int, err error) {
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	done = map[string]int{}
	kv := h.KV()
	ks := m.Keys()
	pick := func() []byte {
		k := []byte("no such key")
		if len(ks) > 0 {
			k = []byte(ks[g.n(len(ks))])
		}
		if g.n(3) == 0 {
			k = perturb(k, 1+g.n(numKeyModes-1))
		}
		return k
	}
	err = guard(func() error {
		for i := 0; i < n; i++ {
			q := g.n(8)
			switch {
			case q < 4:
				done["test"]++
				k := pick()
				w, in := m.Get(k)
				ret := g.n(4) > 0
				if h.Ordered() && len(ks) > 0 && g.n(6) == 0 {
					k = plainkv.MinKey
					w, in = m.Get([]byte(ks[0]))
				}
				v, ok := kv.Test(k, ret)
				if ok != in || (ret && in && !bytes.Equal(v, w)) || ((!ret || !in) && len(v) > 0) {
					return violf("Test(%s) of a key that is stored: %v gives %v and %s instead of %s", short(k), in, ok, short(v), short(w))
				}
			case q == 4:
				done["stats"]++
				if s := h.Stats(); s != want {
					return violf("statistics are %+v instead of %+v", s, want)
				}
			case q == 5 && h.kind == kBPT && len(dump) < 1<<20:
				done["dump"]++
				var b bytes.Buffer
				if err := h.bt.Fprint(&b); err != nil {
					return violf("Fprint: %v", err)
				}
				if !bytes.Equal(b.Bytes(), dump) {
					return violf("Fprint writes something else")
				}
			case h.Ordered():
				done["range"]++
				lo, hi := plainkv.MinKey, plainkv.MaxKey
				if m.Len() == 0 || m.Len() > 200 || g.n(2) == 0 {
					lo = pick()
					hi = lo
					if i := g.n(len(ks) + 1); i < len(ks) {
						lo = []byte(ks[i])
						if i += g.n(100); i >= len(ks) {
							i = len(ks) - 1
						}
						hi = []byte(ks[i])
					}
					if err := expectRange(h.Ranger(), m, lo, hi, g.n(2) == 0, ""); err != nil {
						return err
					}
					break
				}
				desc := g.n(2) == 0
				it := h.Ranger().RangeAsc(lo, hi)
				if desc {
					it = h.Ranger().RangeDesc(lo, hi)
				}
				if err := expectIter(it, m, ks, desc, "the whole range"); err != nil {
					return err
				}
			default:
				done["scan"]++
				d, err := h.Dump(m.Len())
				if err != nil {
					return violf("%v", err)
				}
				if err := comparePairs(d, m, false); err != nil {
					return err
				}
			}
		}
		return nil
	})
	return
}

func runReaders(c *Case, r *Report) error {
	e, err := openCase(c)
	if err != nil {
		return err
	}
	total, most := 0, 0
	begun := time.Now()
	e.extra = func(o Op) error {
		e.M.Keys() // sorted now, by one goroutine
		want := e.H.Stats()
		var dump []byte
		if e.H.kind == kBPT {
			var b bytes.Buffer
			if err := e.H.bt.Fprint(&b); err != nil {
				return violf("Fprint: %v", err)
			}
			dump = b.Bytes()
		}
		if e.M.Len() > most {
			most = e.M.Len()
		}
		// one after the other first, with the file's memory read-only
		gate, err := newGate(e.H.path)
		if err != nil {
			return err
		}
		for i := 0; i < o.N; i++ {
			if err := gate.all(syscall.PROT_READ); err != nil {
				return err
			}
			_, err := someQueries(e.H, e.M, want, dump, o.X, newRng(o.I, i))
			if err := gate.all(syscall.PROT_READ | syscall.PROT_WRITE); err != nil {
				return err
			}
			if err == nil {
				continue
			}
			if _, err2 := someQueries(e.H, e.M, want, dump, o.X, newRng(o.I, i)); err2 != nil {
				return &Inconclusive{"a query fails by itself: " + err2.Error()}
			}
			return violf("a query of a dictionary of %d keys, which others may make at the same time, writes the memory of its file: %v", e.M.Len(), err)
		}
		var done []map[string]int
		for try := 0; try < insist && (try == 0 || time.Since(begun) < 15*time.Second); try++ {
			races := raceErrors()
			errs := make([]error, o.N)
			done = make([]map[string]int, o.N)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := range errs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					<-start
					done[i], errs[i] = someQueries(e.H, e.M, want, dump, o.X, newRng(o.I, i))
				}(i)
			}
			close(start)
			wg.Wait()
			if raceErrors() > races {
				return raceReport("two goroutines that only query the same dictionary write memory they share")
			}
			for i, err := range errs {
				if h, ok := err.(*HarnessError); ok {
					return h
				}
				if err == nil {
					continue
				}
				// does it take several goroutines?
				if _, err2 := someQueries(e.H, e.M, want, dump, o.X, newRng(o.I, i)); err2 != nil {
					return &Inconclusive{"a query fails by itself: " + err2.Error()}
				}
				return violf("%d goroutines query a dictionary of %d keys; in one of them, though not alone: %v", o.N, e.M.Len(), err)
			}
		}
		for _, d := range done {
			for k, n := range d {
				r.Count("query_"+k, n)
				total += n
			}
		}
		return nil
	}
	for _, o := range c.Ops {
		if err := e.Apply(o); err != nil {
			return err
		}
	}
	opLabels(e, r)
	r.Label(kindNames[c.Kind])
	if raceBuild {
		r.Label("with_race_detector")
	}
	r.Count("queries", total)
	r.Nontrivial = most >= 2 && total >= 4
	return nil
}

func init() {
	register(&Prop{ID: "P27",
		Rule: "rapid draws a history of a dictionary with points where two to six goroutines make queries of it at the same time (Test, ranges in both directions, whole scans, statistics, the dump), under the race detector; every result is compared with the model, which does not change meanwhile. Non-trivial: at least two keys held and four queries made.",
		Passes: stdPasses(
			[]Pass{{"small", 120, nil}, {"medium", 40, nil}},
			[]Pass{{"small", 4000, nil}, {"medium", 1500, nil}, {"large", 60, nil}}),
		Gen: genReaders, Run: runReaders})
}
