package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/roy2220/plainkv"
	"github.com/roy2220/plainkv/bptree"
	"github.com/roy2220/plainkv/hashmap"
	"pgregory.net/rapid"
)

// ---- P07: keys and values of any length and content; windows ----

var lenEdges = []int{0, 1, 2, 8, 23, 24, 25, 120, 121, 122, 126, 127, 128, 129, 130, 131, 136, 137, 138,
	240, 247, 248, 249, 250, 251, 252, 255, 256, 257, 258, 259, 264, 265, 266,
	249 + 126, 249 + 127, 249 + 128, 249 + 129, 121 + 126, 121 + 127, 121 + 128,
	511, 512, 513, 1000, 4095, 4096, 4097, 8171, 8172, 8192,
	121 + 16383, 121 + 16384, 249 + 16383, 249 + 16384, 16383, 16384, 16385, 32768, 65535, 65536, 65537}

var lenHuge = []int{131072, 1 << 20, 1<<20 + 1, 1<<20 - 130, 2<<20 + 5, 3 << 20, 2097151 + 121, 2097152 + 121, 2097152 + 249}

var lenVast = []int{1<<24 - 1, 1 << 24, 1<<24 + 121, 1<<24 + 249, 1<<24 + 300, 40 << 20, 1<<25 + 1}

func drawLen(t *rapid.T, name string, profile string) int {
	if profile == "vast" {
		if rapid.IntRange(0, 2).Draw(t, name+"vast") > 0 {
			return rapid.SampledFrom(lenVast).Draw(t, name)
		}
		return rapid.IntRange(0, 400).Draw(t, name)
	}
	switch rapid.IntRange(0, 5).Draw(t, name+"class") {
	case 0, 1:
		return rapid.IntRange(0, 400).Draw(t, name)
	case 2:
		return rapid.IntRange(110, 140).Draw(t, name)
	case 3:
		return rapid.IntRange(240, 270).Draw(t, name)
	case 4:
		n := len(lenEdges)
		if profile == "edges" {
			n = 45
		}
		return lenEdges[rapid.IntRange(0, n-1).Draw(t, name)]
	}
	if profile == "huge" {
		return rapid.SampledFrom(lenHuge).Draw(t, name)
	}
	if profile == "long" {
		return rapid.IntRange(0, 70000).Draw(t, name)
	}
	return rapid.IntRange(0, 3000).Draw(t, name)
}

// patKey makes a key of length n: content pattern pat, one byte at position
// pos (from the end if negative patterns) distinguishing it.
func patKey(n, pat, pos, b int) []byte {
	var k []byte
	switch pat % 5 {
	case 0:
		k = rep('a', n)
	case 1:
		k = make([]byte, n)
	case 2:
		k = rep(0xff, n)
	case 3:
		k = fillBytes(n, 7) // common random prefix
	default:
		k = fillBytes(n, uint64(pos)*31+uint64(b))
	}
	if n > 0 {
		p := pos % n
		if pos%3 == 1 {
			p = n - 1 - pos%n
		}
		k[p] = byte(b)
	}
	return k
}

func genBytes(t *rapid.T, profile string) *Case {
	c := &Case{Kind: rapid.SampledFrom([]int{kOD, kOD, kBPT, kDict, kHM}).Draw(t, "store")}
	if profile == "2g" {
		c.Ops = append(scenario(t, profile, true), Op{K: "windows"})
		c.Ops = append(c.Ops[:3:3], append([]Op{{K: "windows", I: 1}}, c.Ops[3:]...)...)
		return c
	}
	drawBallast(t, c)
	pats := rapid.SliceOfN(rapid.IntRange(0, 4), 1, 3).Draw(t, "patterns")
	nl := rapid.IntRange(1, 6).Draw(t, "lengths")
	var lens []int
	for i := 0; i < nl; i++ {
		lens = append(lens, drawLen(t, "keylen", profile))
	}
	bs := rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 'a' - 1, 'a', 'b', 127, 128, 254, 255}), 1, 4).Draw(t, "bytes")
	max := map[string]int{"edges": 40, "many": 60, "long": 14, "huge": 6, "vast": 4}[profile]
	kinds := []string{"set", "set", "set", "set", "setnx", "setx", "clear", "test", "windows", "reopen"}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
		k := rapid.SampledFrom(kinds).Draw(t, "kind")
		o := Op{K: "p" + k}
		if k == "reopen" || k == "windows" {
			o.K = k
			o.I = rapid.IntRange(0, 1000).Draw(t, "salt")
			return o
		}
		o.N = rapid.SampledFrom(lens).Draw(t, "keylen") + rapid.SampledFrom([]int{0, 0, 0, 1, -1, 2, 8}).Draw(t, "delta")
		if o.N < 0 {
			o.N = 0
		}
		o.M = rapid.SampledFrom(pats).Draw(t, "pattern")
		o.X = rapid.SampledFrom([]int{0, 1, 120, 121, 240, 247, 248, 249, 250, 256, 257, 300, 375, 376, 9999}).Draw(t, "pos")
		o.Y = rapid.SampledFrom(bs).Draw(t, "byte")
		o.V = drawLen(t, "vallen", profile)
		o.R = rapid.Bool().Draw(t, "ret")
		return o
	}), 1, max).Draw(t, "ops")
	c.Ops = append(c.Ops, Op{K: "windows", I: rapid.IntRange(0, 1000).Draw(t, "salt")})
	if profile == "many" { // a background of pairs so that the tree is tall
		c.Ops = append([]Op{{K: "fill", Fam: rapid.SampledFrom(treeFams).Draw(t, "family"), I: 0, N: rapid.IntRange(10, 600).Draw(t, "n"), M: rapid.IntRange(0, 5).Draw(t, "order"), V: rapid.IntRange(0, valMidMax).Draw(t, "value"), W: rapid.IntRange(0, valMidMax).Draw(t, "value2")}}, c.Ops...)
	}
	return c
}

// checkWindow compares one windowed read with the whole.
func checkWindow(read func(int, []byte) (int, error), whole []byte, off, n int, what string) error {
	buf := make([]byte, n+16)
	for i := range buf {
		buf[i] = 0xA5
	}
	got, err := read(off, buf[:n:n])
	if err != nil {
		return violf("%s(%d, %d bytes): %v", what, off, n, err)
	}
	want := []byte{}
	if off < len(whole) {
		want = whole[off:]
		if len(want) > n {
			want = want[:n]
		}
	}
	if got != len(want) {
		return violf("%s(offset %d, buffer of %d) of %d bytes returned %d instead of %d", what, off, n, len(whole), got, len(want))
	}
	if !bytes.Equal(buf[:got], want) {
		return violf("%s(offset %d, buffer of %d) of %d bytes read wrong data", what, off, n, len(whole))
	}
	for i := got; i < len(buf); i++ {
		if buf[i] != 0xA5 {
			return violf("%s(offset %d, buffer of %d) of %d bytes returned %d but wrote byte %d", what, off, n, len(whole), got, i)
		}
	}
	return nil
}

// windows checks reads of many windows of the current record.
func windows(it bptree.Iterator, k string, v []byte, g *rng, dense bool) (int, error) {
	count := 0
	for _, side := range []struct {
		what  string
		whole []byte
		edge  int
		read  func(int, []byte) (int, error)
		size  func() (int, error)
		all   func() ([]byte, error)
	}{
		{"ReadKey", []byte(k), keyPrefix, it.ReadKey, it.GetKeySize, it.ReadKeyAll},
		{"ReadValue", v, valPrefix, it.ReadValue, it.GetValueSize, it.ReadValueAll},
	} {
		n := len(side.whole)
		if s, err := side.size(); err != nil || s != n {
			return count, violf("size of a key or value of %d bytes: %d, %v (%s)", n, s, err, side.what)
		}
		if b, err := side.all(); err != nil || !bytes.Equal(b, side.whole) {
			return count, violf("%sAll of %d bytes: %s, %v (%s)", side.what, n, short(b), err, diffAt(b, side.whole))
		}
		offs := []int{0, 1, side.edge - 1, side.edge, side.edge + 1, n - 1, n, n + 1, n + 1000, n / 2, math.MaxInt - 8, math.MaxInt}
		lens := []int{0, 1, 7, side.edge, side.edge + 1, n, n + 1, n + 300}
		if !dense {
			offs = []int{0, side.edge - 1, side.edge, n, g.n(n + 2)}
			lens = []int{0, 1, n, n + 5, g.n(n + 3)}
		}
		if n > 4<<20 { // each window of all costs milliseconds
			offs = []int{0, side.edge, n - 1, g.n(n), math.MaxInt - 8}
			lens = []int{1, 1 + g.n(1000)}
			if g.n(3) == 0 {
				lens = append(lens, n+5)
			}
		}
		for i := 0; i < 4; i++ {
			offs = append(offs, g.n(n+3))
			lens = append(lens, g.n(n+3))
		}
		for _, o := range offs {
			if o < 0 {
				continue
			}
			ls := append(lens[:len(lens):len(lens)], side.edge-o, side.edge-o+1, side.edge-o-1, n-o, n-o+1, n-o-1)
			for _, l := range ls {
				if l < 0 || l > n+2000 {
					continue
				}
				if n > 20000 && l > 1000 && count > 60 && g.n(8) != 0 {
					continue
				}
				count++
				if err := checkWindow(side.read, side.whole, o, l, side.what); err != nil {
					return count, err
				}
			}
		}
	}
	return count, nil
}

func runBytes(c *Case, r *Report) error {
	e, err := openCase(c)
	if err != nil {
		return err
	}
	e.Check = true
	wins, longest := 0, 0
	check := func(salt int) error {
		if err := verifyDump(e.H, e.M); err != nil {
			return err
		}
		if !e.H.Ordered() {
			return nil
		}
		if err := fullBoth(e.H.Ranger(), e.M); err != nil {
			return err
		}
		g := newRng(salt, 5)
		ks := e.M.Keys()
		i, left := 0, 12
		desc := salt%2 == 1
		it := e.H.Ranger().RangeAsc(plainkv.MinKey, plainkv.MaxKey)
		if desc {
			it = e.H.Ranger().RangeDesc(plainkv.MinKey, plainkv.MaxKey)
		}
		for ; !it.IsAtEnd() && i < len(ks); it.Advance() {
			k := ks[i]
			if desc {
				k = ks[len(ks)-1-i]
			}
			i++
			if len(ks) > 12 && g.n(len(ks)) > 12 || left == 0 {
				continue
			}
			left--
			n, err := windows(it, k, e.M.m[k], g, left%4 == 3)
			wins += n
			if err != nil {
				return err
			}
		}
		return nil
	}
	e.extra = func(o Op) error {
		if o.K == "windows" {
			return check(o.I)
		}
		k := patKey(o.N, o.M, o.X, o.Y)
		v := fillBytes(o.V, uint64(e.nextSalt())*13+uint64(o.V))
		if len(k) > longest {
			longest = len(k)
		}
		if len(v) > longest {
			longest = len(v)
		}
		if o.K == "pclear" || o.K == "ptest" {
			v = nil
			if k2 := e.M.Keys(); len(k2) > 0 && o.V%2 == 0 {
				k = []byte(k2[o.V%len(k2)])
			}
		}
		return e.prim(o.K[1:], k, v, o.R)
	}
	for _, o := range c.Ops {
		if err := e.Apply(o); err != nil {
			return err
		}
	}
	if err := e.verifyTests(); err != nil {
		return err
	}
	if err := e.H.Reopen(); err != nil {
		return violf("%v", err)
	}
	if err := check(c.Ops[len(c.Ops)-1].I + 1); err != nil {
		return err
	}
	if err := e.verifyTests(); err != nil {
		return err
	}
	opLabels(e, r)
	r.Count("windows_read", wins)
	if longest > 256 {
		r.Label("cases_over_256_bytes")
	}
	if longest > 65536 {
		r.Label("cases_over_64_KiB")
	}
	if longest >= 1<<20 {
		r.Label("cases_of_1_MiB_up")
	}
	if longest >= 1<<24 {
		r.Label("cases_of_16_MiB_up")
	}
	r.Nontrivial = e.Max >= 1 && longest > 0
	return nil
}

// ---- P14: memory isolation ----

// keep is a slice the library returned, with what it must still contain.
type keep struct {
	b, want []byte
	what    string
}

type isolation struct {
	kept   []keep
	g      *rng
	n      int
	scribs int
	pool   [2][]byte // memory of arguments, used again
	turn   int
}

// result takes a slice the library returned.
func (s *isolation) result(b []byte, what string) {
	s.n++
	if b == nil {
		return
	}
	k := keep{b, append([]byte(nil), b...), what}
	s.kept = append(s.kept, k)
	if s.g.n(3) == 0 {
		s.scribble(len(s.kept) - 1)
	}
	if len(s.kept) > 60 {
		// forget one
		i := s.g.n(len(s.kept))
		s.kept[i] = s.kept[len(s.kept)-1]
		s.kept = s.kept[:len(s.kept)-1]
	}
}

// scribble overwrites a result, or appends to it (which may use its spare
// capacity).
func (s *isolation) scribble(i int) {
	s.scribs++
	k := &s.kept[i]
	fill := byte(s.g.u64())
	if s.g.n(2) == 0 {
		for j := range k.b {
			k.b[j] = fill
			k.want[j] = fill
		}
	}
	spare := k.b[len(k.b):cap(k.b)]
	for j := range spare {
		spare[j] = fill
	}
	_ = append(k.b, fill, fill, fill)
}

func (s *isolation) verify(when string) error {
	for _, k := range s.kept {
		if !bytes.Equal(k.b, k.want) {
			return violf("a slice returned by %s (%d bytes) changed later: %s (%s)", k.what, len(k.b), when, diffAt(k.b, k.want))
		}
	}
	return nil
}

// arg is an argument slice inside a larger array of known content.
type arg struct{ all, want []byte }

func (s *isolation) arg(b []byte) (arg, []byte) {
	n := len(b)
	spare := s.g.n(3) * 12
	all := s.room(8 + n + spare + 8)
	for i := range all {
		all[i] = byte(0xC0 + i%16)
	}
	copy(all[8:], b)
	return arg{all, append([]byte(nil), all...)}, all[8 : 8+n : 8+n+spare]
}

// room returns memory for an argument: fresh, or that of an earlier one.
func (s *isolation) room(n int) []byte {
	if n <= 4096 && s.g.n(2) == 0 {
		s.turn++
		if b := &s.pool[s.turn%len(s.pool)]; *b == nil {
			*b = make([]byte, 4096)
		}
		return s.pool[s.turn%len(s.pool)][:n:n]
	}
	return make([]byte, n)
}

func (a arg) intact(what string) error {
	if !bytes.Equal(a.all, a.want) {
		return violf("%s modified an argument or the memory behind it", what)
	}
	return nil
}

func (a arg) scribble(f byte) {
	for i := range a.all {
		a.all[i] = f
	}
}

func genIsolation(t *rapid.T, profile string) *Case {
	c := &Case{Kind: rapid.SampledFrom([]int{kOD, kDict, kOD, kDict, kBPT, kHM}).Draw(t, "store")}
	drawBallast(t, c)
	c.P = []int{rapid.IntRange(0, 1000).Draw(t, "salt")}
	ordered := c.Kind == kOD || c.Kind == kBPT
	cfg := profileCfg(profile, ordered)
	cfg.Kinds = withKinds(cfg.Kinds, "read", "read")
	c.Ops = drawOps(t, cfg, func(t *rapid.T, kind string, o *Op) {
		if kind == "read" {
			o.I = rapid.IntRange(0, 100).Draw(t, "skip")
			o.X = rapid.IntRange(0, 1000).Draw(t, "salt")
			o.R = rapid.Bool().Draw(t, "desc")
		}
	})
	return c
}

func runIsolation(c *Case, r *Report) error {
	e, err := openCase(c)
	if err != nil {
		return err
	}
	e.Check = true
	s := &isolation{g: newRng(c.P[0], 9)}
	min0, max0 := string(plainkv.MinKey), string(plainkv.MaxKey)
	e.around = func(op string, k, v []byte, ret bool, call func() ([]byte, bool)) (res []byte, ok bool, err error) {
		ka, k2 := s.arg(k)
		va, v2 := s.arg(v)
		kv := e.H.KV()
		switch op {
		case "set":
			res, ok = kv.Set(k2, v2, ret), true
		case "setx":
			res, ok = kv.SetIfExists(k2, v2, ret)
		case "setnx":
			res, ok = kv.SetIfNotExists(k2, v2, ret)
		case "clear":
			res, ok = kv.Clear(k2, ret)
		case "test":
			res, ok = kv.Test(k2, ret)
		}
		if err := ka.intact(op); err != nil {
			return nil, false, err
		}
		if err := va.intact(op); err != nil {
			return nil, false, err
		}
		f := byte(s.g.u64())
		ka.scribble(f)
		va.scribble(f)
		out := append([]byte(nil), res...)
		s.result(res, op)
		return out, ok, nil
	}
	reads := 0
	read := func(o Op) error {
		reads++
		s.g = newRng(c.P[0]+o.X, 11)
		n := e.M.Len()
		limit := 60
		if e.H.Ordered() {
			it := e.H.Ranger().RangeAsc(plainkv.MinKey, plainkv.MaxKey)
			if n > 0 && s.g.n(2) == 0 {
				ks := e.M.Keys()
				aa, a := s.arg([]byte(ks[s.g.n(n)]))
				ba, b := s.arg([]byte(ks[s.g.n(n)]))
				if o.R {
					it = e.H.Ranger().RangeDesc(a, b)
				} else {
					it = e.H.Ranger().RangeAsc(a, b)
				}
				if err := aa.intact("a range query"); err != nil {
					return err
				}
				if err := ba.intact("a range query"); err != nil {
					return err
				}
				// the iterator must not depend on its bounds' memory
				lo, hi := string(a), string(b)
				aa.scribble(0x11)
				ba.scribble(0xEE)
				want := e.M.Range(lo, hi)
				for i := 0; ; i++ {
					if it.IsAtEnd() != (i >= len(want)) {
						return violf("a range query depends on its bounds' memory: it ends after %d of %d pairs", i, len(want))
					}
					if it.IsAtEnd() || i > limit {
						break
					}
					w := want[i%len(want)]
					if o.R {
						w = want[len(want)-1-i]
					}
					if err := readIsolated(s, it, w, e.M.m[w]); err != nil {
						return err
					}
					it.Advance()
				}
				return s.verify("after iterating")
			}
			for i := 0; i < o.I%(n+1); i++ {
				it.Advance()
			}
			for i := o.I % (n + 1); !it.IsAtEnd() && limit > 0; limit-- {
				ks := e.M.Keys()
				if i >= len(ks) {
					return violf("an iterator yields more than the %d keys", len(ks))
				}
				if err := readIsolated(s, it, ks[i], e.M.m[ks[i]]); err != nil {
					return err
				}
				it.Advance()
				i++
			}
			return s.verify("after iterating")
		}
		var cur hashmap.Cursor
		seen := map[string]bool{}
		for i := 0; ; i++ {
			k, v, ok := e.H.Scanner().Scan(&cur)
			if !ok {
				break
			}
			want, in := e.M.m[string(k)]
			if !in || seen[string(k)] || !bytes.Equal(v, want) {
				return violf("pair %d of a scan (%s, %s) is wrong after earlier ones were overwritten or appended to", i, short(k), short(v))
			}
			seen[string(k)] = true
			if i >= o.I && limit > 0 {
				limit--
				kc, vc := append([]byte(nil), k...), append([]byte(nil), v...)
				_ = kc
				s.result(k, "Scan (key)")
				if !bytes.Equal(v, vc) {
					return violf("overwriting or appending to a key returned by Scan changed the value returned with it")
				}
				s.result(v, "Scan (value)")
				if err := s.verify("while scanning"); err != nil {
					return err
				}
			}
		}
		if len(seen) != n {
			return violf("a scan whose results were overwritten or appended to ends after %d of %d pairs", len(seen), n)
		}
		return s.verify("after scanning")
	}
	e.extra = read
	for i, o := range c.Ops {
		if err := e.Apply(o); err != nil {
			return err
		}
		if o.N > 1 || i%6 == 5 || o.K == "reopen" || i == len(c.Ops)-1 {
			if len(s.kept) > 0 && s.g.n(2) == 0 {
				s.scribble(s.g.n(len(s.kept)))
			}
			if err := s.verify(fmt.Sprintf("after step %d (%s)", i, o.K)); err != nil {
				return err
			}
			if err := verifyDump(e.H, e.M); err != nil {
				return err
			}
		}
	}
	if err := read(Op{K: "read", X: 3}); err != nil {
		return err
	}
	if err := e.verifyTests(); err != nil {
		return err
	}
	// results outlive the dictionary
	if err := e.H.Reopen(); err != nil {
		return violf("%v", err)
	}
	if err := s.verify("after Close"); err != nil {
		return err
	}
	if err := verifyDump(e.H, e.M); err != nil {
		return err
	}
	if string(plainkv.MinKey) != min0 || string(plainkv.MaxKey) != max0 {
		return violf("MinKey or MaxKey was modified")
	}
	opLabels(e, r)
	r.Count("results_kept", s.n)
	r.Count("results_scribbled", s.scribs)
	r.Nontrivial = e.Max >= 2 && s.scribs > 0
	return nil
}

// readIsolated reads the current pair in several ways, scribbling over each
// result.
func readIsolated(s *isolation, it bptree.Iterator, wk string, wv []byte) error {
	check := func(what string, k, v []byte, err error, hasK, hasV bool) error {
		if err != nil {
			return violf("%s: %v", what, err)
		}
		if hasK && string(k) != wk {
			return violf("%s gives key %s instead of %s after earlier results were overwritten", what, short(k), short([]byte(wk)))
		}
		if hasV && !bytes.Equal(v, wv) {
			return violf("%s gives value %s instead of %s after earlier results were overwritten", what, short(v), short(wv))
		}
		return nil
	}
	for i, n := 0, 1+s.g.n(3); i < n; i++ {
		switch s.g.n(4) {
		case 0:
			k, v, err := it.ReadRecordAll()
			if e := check("ReadRecordAll", k, v, err, true, true); e != nil {
				return e
			}
			s.result(k, "ReadRecordAll (key)")
			if !bytes.Equal(v, wv) {
				return violf("overwriting or appending to a key changed the value returned with it by ReadRecordAll")
			}
			s.result(v, "ReadRecordAll (value)")
		case 1:
			k, err := it.ReadKeyAll()
			if e := check("ReadKeyAll", k, nil, err, true, false); e != nil {
				return e
			}
			s.result(k, "ReadKeyAll")
		case 2:
			v, err := it.ReadValueAll()
			if e := check("ReadValueAll", nil, v, err, false, true); e != nil {
				return e
			}
			s.result(v, "ReadValueAll")
		case 3:
			n, off := s.g.n(len(wv)+4), s.g.n(len(wv)+2)
			if err := checkWindow(it.ReadValue, wv, off, n, "ReadValue"); err != nil {
				return err
			}
			n, off = s.g.n(len(wk)+4), s.g.n(len(wk)+2)
			if err := checkWindow(it.ReadKey, []byte(wk), off, n, "ReadKey"); err != nil {
				return err
			}
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "P07",
		Rule: "rapid draws histories of keys of up to six lengths (uniform to 400, around 110-140 and 240-270, at internal limits, to 64 KiB or some MiB) that agree but for one byte at a drawn position, with values of such lengths; all results are compared with the model, in order, through point operations, both iterations or scans, and (offset, buffer) windows at and around every limit. Non-trivial: a pair with a non-empty key or value was stored.",
		Passes: stdPasses(
			[]Pass{{"edges", 250, nil}, {"many", 40, nil}, {"long", 40, nil}, {"huge", 8, nil}},
			[]Pass{{"edges", 10000, nil}, {"many", 2500, nil}, {"long", 1500, nil}, {"huge", 250, nil}}),
		Gen: genBytes, Run: runBytes})
	register(&Prop{ID: "P14",
		Rule: "rapid draws a history with reads; every argument lies inside guarded memory that is checked after the call and then overwritten; every result is kept with a copy, a third of them are overwritten or appended to up to their capacity, and all are compared again while the history goes on and after Close. Non-trivial: at least two keys held and a result overwritten.",
		Passes: stdPasses(
			[]Pass{{"small", 500, nil}, {"medium", 90, nil}, {"large", 5, nil}},
			[]Pass{{"small", 16000, nil}, {"medium", 4000, nil}, {"large", 200, nil}}),
		Gen: genIsolation, Run: runIsolation})
}
