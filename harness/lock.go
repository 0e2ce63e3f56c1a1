package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/roy2220/plainkv"
)

// Lock runs one history on two stores in lockstep: e lives through what the
// property is about (reopens, neighbours in the same file, ...), tw does not.
// Every result, statistic (but the space manager's) and dump must agree.
type Lock struct {
	e, tw       *Exec
	res, twRes  []callRes
	twRange     [][2][]byte
	when        func() string
	other       string
	twinTrusted bool // a failure of the twin alone is not the property's
}

type callRes struct {
	v  []byte
	ok bool
}

func NewLock(e, tw *Exec, when func() string, other string) *Lock {
	l := &Lock{e: e, tw: tw, when: when, other: other, twinTrusted: true}
	tw.noReopen = true
	tw.around = func(op string, k, v []byte, ret bool, call func() ([]byte, bool)) ([]byte, bool, error) {
		b, ok := call()
		l.twRes = append(l.twRes, callRes{b, ok})
		return b, ok, nil
	}
	e.around = func(op string, k, v []byte, ret bool, call func() ([]byte, bool)) ([]byte, bool, error) {
		b, ok := call()
		i := len(l.res)
		l.res = append(l.res, callRes{b, ok})
		if i >= len(l.twRes) {
			return nil, false, hfail(fmt.Errorf("more calls than on the twin"))
		}
		if w := l.twRes[i]; ok != w.ok || !bytes.Equal(b, w.v) {
			return nil, false, violf("%s %s(%s) returned %s, %v; %s %s, %v", l.when(), op, short(k), short(b), ok, l.other, short(w.v), w.ok)
		}
		return b, ok, nil
	}
	tw.extra = func(o Op) error {
		var err error
		l.twRange, err = readRange(tw.H.Ranger(), boundKey(tw.M, o.M, o.I), boundKey(tw.M, o.N, o.X), o.R, 4*tw.M.Len()+4)
		return err
	}
	e.extra = func(o Op) error {
		d, err := readRange(e.H.Ranger(), boundKey(e.M, o.M, o.I), boundKey(e.M, o.N, o.X), o.R, 4*e.M.Len()+4)
		if err != nil {
			return violf("range query %s: %v", l.when(), err)
		}
		return l.same(d, l.twRange, "range query")
	}
	return l
}

// Apply applies one step to both.
func (l *Lock) Apply(o Op) error {
	l.twRes, l.res = l.twRes[:0], l.res[:0]
	if o.K != "reopen" {
		if err := guard(func() error { return l.tw.Apply(o) }); err != nil {
			return l.twinErr(err)
		}
	}
	if err := l.e.Apply(o); err != nil {
		return err
	}
	return l.stats()
}

func (l *Lock) twinErr(err error) error {
	if _, ok := err.(*HarnessError); ok {
		return err
	}
	if !l.twinTrusted {
		return violf("%v", err)
	}
	return &Inconclusive{"the store " + l.other + " fails by itself: " + err.Error()}
}

func (l *Lock) stats() error {
	s, s2 := l.e.H.Stats(), l.tw.H.Stats()
	s.Allocated, s2.Allocated = 0, 0
	if s != s2 {
		return violf("%s the statistics are %+v, %s %+v", l.when(), s, l.other, s2)
	}
	return nil
}

// Compare compares statistics and the whole contents.
func (l *Lock) Compare() error {
	if err := l.stats(); err != nil {
		return err
	}
	h, h2 := l.e.H, l.tw.H
	limit := 4*l.e.M.Len() + 4
	var d2 [][2][]byte
	if err := guard(func() (err error) { d2, err = h2.Dump(limit); return }); err != nil {
		return l.twinErr(err)
	}
	d, err := h.Dump(limit)
	if err != nil {
		return violf("dump %s: %v", l.when(), err)
	}
	if !h.Ordered() {
		sortPairs(d)
		sortPairs(d2)
	} else {
		var b [][2][]byte
		if err := guard(func() (err error) {
			b, err = readRange(h2.Ranger(), plainkv.MinKey, plainkv.MaxKey, true, limit)
			return
		}); err != nil {
			return l.twinErr(err)
		}
		a, err := readRange(h.Ranger(), plainkv.MinKey, plainkv.MaxKey, true, limit)
		if err != nil {
			return violf("RangeDesc %s: %v", l.when(), err)
		}
		if err := l.same(a, b, "RangeDesc"); err != nil {
			return err
		}
	}
	if err := l.same(d, d2, "dump"); err != nil {
		return err
	}
	return l.probes()
}

// probes compares some lookups and the beginnings of some range queries.
func (l *Lock) probes() error {
	ks := l.e.M.Keys()
	n := len(ks)
	step, first := n/20+1, 8
	if l.e.M.payload > 8<<20 {
		step, first = n/2+1, 2
	}
	var pts [][]byte
	for i := 0; i < n; i += step {
		if i+step >= n {
			i = n - 1
		}
		k := []byte(ks[i])
		pts = append(pts, k, perturb(append([]byte(nil), k...), 2), perturb(append([]byte(nil), k...), 5))
	}
	pts = append(pts, nil, []byte("MAX_KEY"), rep(0xff, 700))
	for i, p := range pts {
		v2, ok2 := []byte(nil), false
		if err := guard(func() error { v2, ok2 = l.tw.H.KV().Test(p, true); return nil }); err != nil {
			return l.twinErr(err)
		}
		if v, ok := l.e.H.KV().Test(p, true); ok != ok2 || !bytes.Equal(v, v2) {
			return violf("%s Test(%s) returns %s, %v; %s %s, %v", l.when(), short(p), short(v), ok, l.other, short(v2), ok2)
		}
		if !l.e.H.Ordered() {
			continue
		}
		to := pts[(i+1+i%5)%len(pts)]
		for j, b := range [][2][]byte{{p, plainkv.MaxKey}, {plainkv.MinKey, p}, {p, p}, {p, to}, {rep(0xff, 600), p}} {
			for _, desc := range []bool{false, true} {
				if j > 1 && desc != (i%2 == 0) {
					continue
				}
				var r2 [][2][]byte
				if err := guard(func() (err error) { r2, err = readSome(l.tw.H.Ranger(), b[0], b[1], desc, first); return }); err != nil {
					return l.twinErr(err)
				}
				r, err := readSome(l.e.H.Ranger(), b[0], b[1], desc, first)
				if err != nil {
					return violf("range query %s: %v", l.when(), err)
				}
				if err := l.same(r, r2, fmt.Sprintf("range %s to %s (descending: %v, first %d)", short(b[0]), short(b[1]), desc, first)); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// readSome reads the first n pairs of a range.
func readSome(rg ranger, min, max []byte, desc bool, n int) ([][2][]byte, error) {
	it := rg.RangeAsc(min, max)
	if desc {
		it = rg.RangeDesc(min, max)
	}
	var out [][2][]byte
	for ; !it.IsAtEnd() && len(out) < n; it.Advance() {
		k, v, err := it.ReadRecordAll()
		if err != nil {
			return out, err
		}
		out = append(out, [2][]byte{k, v})
	}
	return out, nil
}

func (l *Lock) same(a, b [][2][]byte, what string) error {
	for i := range a {
		if i >= len(b) {
			break
		}
		if !bytes.Equal(a[i][0], b[i][0]) {
			return violf("%s %s: pair %d has key %s, %s %s", what, l.when(), i, short(a[i][0]), l.other, short(b[i][0]))
		}
		if !bytes.Equal(a[i][1], b[i][1]) {
			return violf("%s %s: key %s has value %s, %s %s", what, l.when(), short(a[i][0]), short(a[i][1]), l.other, short(b[i][1]))
		}
	}
	if len(a) != len(b) {
		return violf("%s %s: %d pairs, %s %d", what, l.when(), len(a), l.other, len(b))
	}
	return nil
}

func sortPairs(d [][2][]byte) {
	sort.Slice(d, func(i, j int) bool {
		if c := bytes.Compare(d[i][0], d[j][0]); c != 0 {
			return c < 0
		}
		return bytes.Compare(d[i][1], d[j][1]) < 0
	})
}

// readRange reads a whole range; limit guards against an endless one.
func readRange(rg ranger, min, max []byte, desc bool, limit int) ([][2][]byte, error) {
	it := rg.RangeAsc(min, max)
	if desc {
		it = rg.RangeDesc(min, max)
	}
	var out [][2][]byte
	for ; !it.IsAtEnd(); it.Advance() {
		k, v, err := it.ReadRecordAll()
		if err != nil {
			return out, err
		}
		if out = append(out, [2][]byte{k, v}); len(out) > limit {
			return out, fmt.Errorf("more than %d pairs", limit)
		}
	}
	return out, nil
}
