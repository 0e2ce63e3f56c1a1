package main

import (
	"bytes"
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/roy2220/plainkv"
	"github.com/roy2220/plainkv/bptree"
	"pgregory.net/rapid"
)

// ---- P18: MinKey and MaxKey ----

func genSentinel(t *rapid.T, profile string) *Case {
	c := &Case{Kind: rapid.SampledFrom([]int{kOD, kOD, kBPT}).Draw(t, "store")}
	drawBallast(t, c)
	drawHole(t, c, profile)
	if g := scenario(t, profile, true); g != nil {
		if profile != "aim" {
			g = g[:1]
		}
		c.Ops = append(g[:len(g):len(g)], Op{K: "drain", S: rapid.IntRange(0, 2).Draw(t, "which"), N: rapid.IntRange(10, 4000).Draw(t, "n"), R: true})
		c.Ops = append(c.Ops, Op{K: "srange", I: 1}, Op{K: "drain", S: rapid.IntRange(0, 2).Draw(t, "which"), N: rapid.IntRange(10, 9000).Draw(t, "n")})
		return c
	}
	cfg := profileCfg(profile, true)
	extra := []string{"sent", "sent", "sent", "srange", "srange", "spell", "drain"}
	if profile == "small" {
		extra = append(extra, "sent", "sent", "srange", "spell")
	}
	cfg.Kinds = withKinds(cfg.Kinds, extra...)
	c.Ops = drawOps(t, cfg, func(t *rapid.T, kind string, o *Op) {
		o.S = rapid.IntRange(0, 2).Draw(t, "which")
		o.V = rapid.IntRange(0, cfg.ValMax[len(cfg.ValMax)-1]).Draw(t, "value")
		o.X = rapid.IntRange(0, 4).Draw(t, "op")
		o.Y = rapid.IntRange(0, 3).Draw(t, "max")
		o.M = rapid.IntRange(0, 3).Draw(t, "min")
		o.I = rapid.IntRange(0, 5000).Draw(t, "rank")
		o.N = rapid.IntRange(0, 20).Draw(t, "n")
		o.R = rapid.Bool().Draw(t, "ret")
		if kind == "drain" && profile != "small" {
			o.N *= 20
		}
	})
	return c
}

func runSentinel(c *Case, r *Report) error {
	e, err := openCase(c)
	if err != nil {
		return err
	}
	e.Check = true
	uses := 0
	// one call with a sentinel as the key
	call := func(op string, max bool, val []byte, ret bool) error {
		uses++
		kv := e.H.KV()
		s, name := plainkv.MinKey, "MinKey"
		if max {
			s, name = plainkv.MaxKey, "MaxKey"
		}
		ks := e.M.Keys()
		if len(ks) == 0 {
			var v []byte
			var ok bool
			switch op {
			case "setx":
				v, ok = kv.SetIfExists(s, val, ret)
			case "clear":
				v, ok = kv.Clear(s, ret)
			case "test":
				v, ok = kv.Test(s, ret)
			default:
				return nil // not specified
			}
			if ok || len(v) != 0 {
				return violf("%s(%s) on an empty dictionary returned %s, %v", op, name, short(v), ok)
			}
			return nil
		}
		k := ks[0]
		if max {
			k = ks[len(ks)-1]
		}
		old := e.M.m[k]
		var v []byte
		ok := true
		switch op {
		case "set":
			v = kv.Set(s, val, ret)
			e.M.Put([]byte(k), val)
		case "setx":
			v, ok = kv.SetIfExists(s, val, ret)
			e.M.Put([]byte(k), val)
		case "setnx":
			v, ok = kv.SetIfNotExists(s, val, ret)
			ok = !ok
		case "clear":
			v, ok = kv.Clear(s, ret)
			e.M.Del([]byte(k))
		case "test":
			v, ok = kv.Test(s, ret)
		}
		if !ok {
			return violf("%s(%s) on a dictionary of %d keys acted as if the key were absent", op, name, len(ks))
		}
		var want []byte
		if ret {
			want = old
		}
		if !bytes.Equal(v, want) {
			return violf("%s(%s, return flag %v) on a dictionary of %d keys returned %s instead of %s, the value of %s", op, name, ret, len(ks), short(v), short(want), short([]byte(k)))
		}
		// it did what it says to the key it stands for, and nothing else
		if v, in := kv.Test([]byte(k), true); in != (op != "clear") || in && !bytes.Equal(v, e.M.m[k]) {
			return violf("after %s(%s) the key %s it stood for has value %s, %v", op, name, short([]byte(k)), short(v), in)
		}
		if s := e.H.Stats(); s.Records != e.M.Len() {
			return violf("after %s(%s) there are %d keys, not %d", op, name, s.Records, e.M.Len())
		}
		return nil
	}
	ops := []string{"test", "clear", "set", "setx", "setnx"}
	bound := func(mode, i int) (arg []byte, eff []byte, name string) {
		ks := e.M.Keys()
		switch mode {
		case 0:
			if len(ks) > 0 {
				eff = []byte(ks[0])
			}
			return plainkv.MinKey, eff, "MinKey"
		case 1:
			if len(ks) > 0 {
				eff = []byte(ks[len(ks)-1])
			}
			return plainkv.MaxKey, eff, "MaxKey"
		case 2: // the same bytes, elsewhere
			b := append([]byte(nil), []string{"MIN_KEY", "MAX_KEY"}[i%2]...)
			return b, b, string(b)
		}
		b := boundKey(e.M, i%8, i)
		return b, b, short(b)
	}
	srange := func(o Op) error {
		uses++
		a, ae, an := bound(o.M%4, o.I)
		b, be, bn := bound(o.Y%4, o.I+o.N)
		var want []string
		if e.M.Len() > 0 {
			want = e.M.Range(string(ae), string(be))
		}
		for _, desc := range []bool{false, true} {
			var it bptree.Iterator
			if desc {
				it = e.H.Ranger().RangeDesc(a, b)
			} else {
				it = e.H.Ranger().RangeAsc(a, b)
			}
			if err := expectIter(it, e.M, want, desc, fmt.Sprintf("range %s to %s (descending: %v) on %d keys", an, bn, desc, e.M.Len())); err != nil {
				return err
			}
		}
		return nil
	}
	e.extra = func(o Op) error {
		switch o.K {
		case "sent":
			return call(ops[o.X%5], o.S%2 == 1, valOf(o.V, e.nextSalt()), o.R)
		case "drain":
			if o.N > 100 {
				e.M.Keys()
			}
			for i := 0; i < o.N && e.M.Len() > 0; i++ {
				if err := call("clear", o.S == 1 || o.S == 2 && i%2 == 0, nil, o.R); err != nil {
					return err
				}
			}
			return nil
		case "srange":
			return srange(o)
		case "spell":
			// an ordinary key spelled like a sentinel
			k := []byte([]string{"MIN_KEY", "MAX_KEY"}[o.S%2])
			return e.prim([]string{"set", "setnx", "clear", "test", "setx"}[o.X%5], k, valOf(o.V, e.nextSalt()), o.R)
		}
		panic(o.K)
	}
	for i, o := range c.Ops {
		if err := e.Apply(o); err != nil {
			return err
		}
		if e.M.Len() < 400 && (o.N > 1 || i%5 == 4) || i == len(c.Ops)-1 {
			for m := 0; m < 4; m++ {
				for y := 0; y < 4; y++ {
					if e.M.Len() > 2000 && (m == 3 || y == 3) {
						continue
					}
					if err := srange(Op{M: m, Y: y, I: o.I, N: o.N % 7}); err != nil {
						return err
					}
				}
			}
			for _, op := range []string{"test", "setnx"} {
				for _, mx := range []bool{false, true} {
					if err := call(op, mx, []byte("x"), true); err != nil {
						return err
					}
				}
			}
		}
	}
	if err := verifyDump(e.H, e.M); err != nil {
		return err
	}
	opLabels(e, r)
	r.Count("uses_of_sentinels", uses)
	r.Nontrivial = e.Max >= 2 && uses > 1
	return nil
}

// ---- P19: iterator protocol ----

func genIter(t *rapid.T, profile string) *Case {
	c := &Case{Kind: rapid.SampledFrom([]int{kOD, kOD, kBPT}).Draw(t, "store")}
	drawBallast(t, c)
	drawHole(t, c, profile)
	if g := scenario(t, profile, true); g != nil {
		c.Ops = g[:len(g)-1]
	} else {
		cfg := profileCfg(profile, true)
		cfg.MaxOps = cfg.MaxOps*2/3 + 1
		c.Ops = drawOps(t, cfg, nil)
	}
	c.Ops = append(c.Ops, Op{K: "iterating"})
	max := 120
	calls := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
		o := Op{K: rapid.SampledFrom([]string{"open", "call", "call", "call", "call", "call", "adv", "adv", "adv", "run"}).Draw(t, "call")}
		o.S = rapid.IntRange(0, 3).Draw(t, "iterator")
		switch o.K {
		case "open":
			drawRange(t, "range", &o)
		case "adv":
			o.N = rapid.SampledFrom([]int{1, 1, 2, 3, 30, 300}).Draw(t, "n")
		case "call":
			o.X = rapid.IntRange(0, 9).Draw(t, "which")
			o.Y = rapid.IntRange(0, 400).Draw(t, "offset")
			o.N = rapid.IntRange(0, 400).Draw(t, "size")
		case "run":
			o.X = rapid.IntRange(0, 20).Draw(t, "before")
		}
		return o
	}), 4, max).Draw(t, "calls")
	c.Ops = append(c.Ops, calls...)
	return c
}

type iterState struct {
	it   bptree.Iterator
	want []string // in iteration order
	pos  int
	name string
}

func runIter(c *Case, r *Report) error {
	e, err := openCase(c)
	if err != nil {
		return err
	}
	split := len(c.Ops)
	for i, o := range c.Ops {
		if o.K == "iterating" {
			split = i
			break
		}
		if err := e.Apply(o); err != nil {
			return err
		}
	}
	var calls []Op
	if split < len(c.Ops) {
		calls = c.Ops[split+1:]
	}
	its := make([]*iterState, 4)
	ends, ncalls := 0, 0
	open := func(i int, o Op) {
		x := o.X
		if o.Y < 2 {
			x = o.I + o.X%5
		}
		a, b := boundKey(e.M, o.M, o.I), boundKey(e.M, o.N, x)
		if o.Y == 3 {
			a, b = plainkv.MinKey, plainkv.MaxKey
		}
		s := &iterState{}
		if o.Y == 3 {
			s.want = append(s.want, e.M.Keys()...)
		} else {
			s.want = append(s.want, e.M.Range(string(a), string(b))...)
		}
		if o.R {
			for l, r := 0, len(s.want)-1; l < r; l, r = l+1, r-1 {
				s.want[l], s.want[r] = s.want[r], s.want[l]
			}
			s.it, s.name = e.H.Ranger().RangeDesc(a, b), "RangeDesc"
		} else {
			s.it, s.name = e.H.Ranger().RangeAsc(a, b), "RangeAsc"
		}
		s.name = fmt.Sprintf("%s over %d of %d keys", s.name, len(s.want), e.M.Len())
		its[i] = s
	}
	atEnd := func(s *iterState) error {
		want := s.pos >= len(s.want)
		if s.it.IsAtEnd() != want {
			return violf("%s: IsAtEnd is %v at position %d", s.name, !want, s.pos)
		}
		return nil
	}
	adv := func(s *iterState) error {
		it2 := s.it.Advance()
		if it2 != s.it {
			return violf("%s: Advance at position %d returned another iterator", s.name, s.pos)
		}
		if s.pos < len(s.want) {
			s.pos++
		} else {
			ends++
		}
		return atEnd(s)
	}
	call := func(s *iterState, o Op) error {
		ncalls++
		end := s.pos >= len(s.want)
		var k string
		var v []byte
		if !end {
			k = s.want[s.pos]
			v = e.M.m[k]
		} else {
			ends++
		}
		buf := make([]byte, o.N+4)
		for i := range buf {
			buf[i] = 0x5A
		}
		untouched := func(n int) bool {
			for _, x := range buf[n:] {
				if x != 0x5A {
					return false
				}
			}
			return true
		}
		bad := func(what string, got interface{}, err error) error {
			return violf("%s: %s at position %d (end: %v) gives %v, %v", s.name, what, s.pos, end, got, err)
		}
		switch o.X % 10 {
		case 0:
			return atEnd(s)
		case 1:
			n, err := s.it.GetKeySize()
			if n != len(k) || (err != nil) != end {
				return bad("GetKeySize", n, err)
			}
		case 2:
			n, err := s.it.GetValueSize()
			if n != len(v) || (err != nil) != end {
				return bad("GetValueSize", n, err)
			}
		case 3:
			b, err := s.it.ReadKeyAll()
			if string(b) != k || (err != nil) != end {
				return bad("ReadKeyAll", short(b), err)
			}
		case 4:
			b, err := s.it.ReadValueAll()
			if !bytes.Equal(b, v) || (err != nil) != end {
				return bad("ReadValueAll", short(b), err)
			}
		case 5, 6:
			a, b, err := s.it.ReadRecordAll()
			if string(a) != k || !bytes.Equal(b, v) || (err != nil) != end {
				return bad("ReadRecordAll", short(a)+"="+short(b), err)
			}
		case 7, 8:
			w, name, read := []byte(k), "ReadKey", s.it.ReadKey
			if o.X%10 == 8 {
				w, name, read = v, "ReadValue", s.it.ReadValue
			}
			n, err := read(o.Y, buf[:o.N:o.N])
			var want []byte
			if o.Y < len(w) {
				want = w[o.Y:]
				if len(want) > o.N {
					want = want[:o.N]
				}
			}
			if n != len(want) || (err != nil) != end || !bytes.Equal(buf[:n], want) || !untouched(n) {
				return bad(name, n, err)
			}
		case 9: // a look-up in between
			ks := e.M.Keys()
			if len(ks) > 0 {
				q := ks[o.Y%len(ks)]
				if b, ok := e.H.KV().Test([]byte(q), true); !ok || !bytes.Equal(b, e.M.m[q]) {
					return violf("Test(%s) while iterating gives %s, %v", short([]byte(q)), short(b), ok)
				}
			}
		}
		return nil
	}
	for _, o := range calls {
		i := o.S % 4
		if its[i] == nil && o.K != "open" {
			open(i, Op{Y: 3, R: o.S%2 == 1})
		}
		var err error
		switch o.K {
		case "open":
			open(i, o)
			err = atEnd(its[i])
		case "adv":
			for j := 0; j < o.N && err == nil; j++ {
				err = adv(its[i])
				if its[i].pos >= len(its[i].want) && j > 2 {
					break
				}
			}
		case "call":
			err = call(its[i], o)
		case "run": // to shortly before the end
			s := its[i]
			for err == nil && s.pos < len(s.want)-o.X {
				err = adv(s)
			}
		}
		if err != nil {
			return err
		}
	}
	// every iterator ends as it should, and stays there
	for _, s := range its {
		if s == nil {
			continue
		}
		for n := 0; s.pos < len(s.want); n++ {
			if n%7 == 0 {
				for x := 0; x < 9; x++ {
					if err := call(s, Op{X: x, Y: n % 300, N: n % 290}); err != nil {
						return err
					}
				}
			}
			if err := adv(s); err != nil {
				return err
			}
		}
		for n := 0; n < 3; n++ {
			for x := 0; x < 9; x++ {
				if err := call(s, Op{X: x, Y: n * 100, N: 10}); err != nil {
					return err
				}
			}
			if err := adv(s); err != nil {
				return err
			}
		}
	}
	opLabels(e, r)
	r.Count("iterator_calls", ncalls)
	r.Count("calls_past_the_end", ends)
	r.Nontrivial = e.Max >= 2 && ncalls > 2
	return nil
}

// ---- P20: Fprint ----

// failWriter fails at its n-th write (counting from 0); n < 0 never.
type failWriter struct {
	buf    bytes.Buffer
	n      int
	writes int
	short  bool // report part of the data written along with the error
	err    error
	late   int // writes after the failure
	failed bool
}

func (w *failWriter) Write(p []byte) (int, error) {
	if w.failed {
		w.late++
		return 0, w.err
	}
	if w.writes == w.n {
		w.failed = true
		n := 0
		if w.short {
			n = len(p) / 2
		}
		w.buf.Write(p[:n])
		return n, w.err
	}
	w.writes++
	return w.buf.Write(p)
}

// joined returns the first column in which a stroke leads from one line of the
// drawing to the next without being taken up there, or the other way round.
func joined(above, below []rune) int {
	for c := 0; c < len(above) || c < len(below); c++ {
		down := c < len(above) && strings.ContainsRune("┬├│", above[c])
		up := c < len(below) && strings.ContainsRune("├└│", below[c])
		if down != up {
			return c
		}
	}
	return -1
}

// checkPrint parses the dump and compares it with the model.
func checkPrint(out string, m *Model, s Stats) error {
	what := fmt.Sprintf("Fprint of a tree of %d keys and height %d", m.Len(), s.Height)
	if m.Len() == 0 {
		if strings.Contains(out, "●") {
			return violf("%s shows a record", what)
		}
		return nil
	}
	ks := m.Keys()
	next, seps := 0, 0
	var pend []string // separators since the last record
	last := ""
	var above []rune // the drawing on the line before
	for ln, line := range strings.Split(out, "\n") {
		i := strings.Index(line, "●")
		if i < 0 {
			return violf("%s: line %d shows nothing: %.60q", what, ln+1, line)
		}
		art := line[:i]
		if strings.Trim(art, "┬├└│─ ") != "" {
			return violf("%s: line %d does not begin with a drawing: %.60q", what, ln+1, line)
		}
		drawn := []rune(art)
		if c := joined(above, drawn); c >= 0 {
			return violf("%s: the drawing on line %d does not join the one above in column %d: %.60q", what, ln+1, c, line)
		}
		above = drawn
		cols := len(drawn)
		if cols%2 != 0 {
			return violf("%s: line %d is indented by %d columns", what, ln+1, cols)
		}
		depth := cols / 2
		rest := strings.TrimPrefix(line[i+len("●"):], " ")
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			return violf("%s: line %d has no quoted key: %.60q", what, ln+1, line)
		}
		k, err := strconv.Unquote(q)
		if err != nil {
			return violf("%s: line %d: bad quoting: %v", what, ln+1, err)
		}
		rest = rest[len(q):]
		if rest == "" {
			// a key of an inner page
			seps++
			if depth < 1 || depth >= s.Height {
				return violf("%s: line %d shows a key without a value at depth %d", what, ln+1, depth)
			}
			if next == 0 || k <= last {
				return violf("%s: the inner key %s on line %d does not lie above the records before it", what, short([]byte(k)), ln+1)
			}
			pend = append(pend, k)
			continue
		}
		if depth != s.Height {
			return violf("%s: line %d shows a record at depth %d", what, ln+1, depth)
		}
		if rest[0] != '=' {
			return violf("%s: line %d: no value after the key: %.60q", what, ln+1, rest)
		}
		v, err := strconv.Unquote(rest[1:])
		if err != nil {
			return violf("%s: line %d: bad value: %.60q", what, ln+1, rest)
		}
		if next >= len(ks) {
			return violf("%s: shows %s after all %d records", what, short([]byte(k)), len(ks))
		}
		if k != ks[next] {
			return violf("%s: record %d has key %s instead of %s", what, next, short([]byte(k)), short([]byte(ks[next])))
		}
		if v != string(m.m[k]) {
			return violf("%s: record %s has value %s instead of %s", what, short([]byte(k)), short([]byte(v)), short(m.m[k]))
		}
		for _, p := range pend {
			if p > k {
				return violf("%s: the inner key %s does not bound the record %s after it", what, short([]byte(p)), short([]byte(k)))
			}
		}
		pend = pend[:0]
		next++
		last = k
	}
	if next != len(ks) {
		return violf("%s shows %d records", what, next)
	}
	if c := joined(above, nil); c >= 0 {
		return violf("%s: the drawing on the last line goes on below in column %d", what, c)
	}
	if len(pend) > 0 {
		return violf("%s ends with an inner key", what)
	}
	if seps != s.Leafs-1 {
		return violf("%s shows %d inner keys between %d leafs", what, seps, s.Leafs)
	}
	return nil
}

func genPrint(t *rapid.T, profile string) *Case {
	c := &Case{Kind: kBPT}
	drawBallast(t, c)
	drawHole(t, c, profile)
	if g := scenario(t, profile, true); g != nil {
		c.Ops = g[:len(g)-1]
	} else {
		c.Ops = drawOps(t, profileCfg(profile, true), nil)
	}
	n := rapid.IntRange(1, 6).Draw(t, "prints")
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, Op{K: "print", I: rapid.IntRange(0, 999).Draw(t, "failat"), X: rapid.IntRange(0, 5).Draw(t, "where"), R: rapid.Bool().Draw(t, "short")})
	}
	return c
}

func runPrint(c *Case, r *Report) error {
	e, err := openCase(c)
	if err != nil {
		return err
	}
	prints, fails := 0, 0
	full := func() (*failWriter, error) {
		prints++
		before := e.H.Stats()
		w := &failWriter{n: -1}
		if err := e.H.bt.Fprint(w); err != nil {
			return nil, violf("Fprint fails: %v", err)
		}
		if err := checkPrint(w.buf.String(), e.M, before); err != nil {
			return nil, err
		}
		if s := e.H.Stats(); s != before {
			return nil, violf("Fprint changed the statistics: %+v, before %+v", s, before)
		}
		return w, nil
	}
	e.extra = func(o Op) error {
		w0, err := full()
		if err != nil {
			return err
		}
		// a writer that fails at one of those writes
		if w0.writes == 0 {
			return nil
		}
		fails++
		var at int
		switch o.X {
		case 0:
			at = 0
		case 1:
			at = w0.writes - 1
		case 2:
			at = o.I
		default:
			at = o.I * w0.writes / 1000
		}
		at %= w0.writes
		want := errors.New("disk full")
		before := e.H.Stats()
		w := &failWriter{n: at, err: want, short: o.R}
		got := e.H.bt.Fprint(w)
		if !errors.Is(got, want) {
			return violf("Fprint returned %v although write %d of %d failed", got, at+1, w0.writes)
		}
		if w.late > 0 {
			return violf("Fprint wrote %d more times after write %d of %d had failed", w.late, at+1, w0.writes)
		}
		if !bytes.HasPrefix(w0.buf.Bytes(), w.buf.Bytes()) {
			return violf("Fprint to a writer that fails at write %d wrote something else before it", at+1)
		}
		if s := e.H.Stats(); s != before {
			return violf("a failed Fprint changed the statistics: %+v, before %+v", s, before)
		}
		return nil
	}
	tall := 0
	for i, o := range c.Ops {
		if err := e.Apply(o); err != nil {
			return err
		}
		if h := e.H.Stats().Height; h > tall {
			tall = h
		}
		if o.K != "print" && (o.N > 1 || i%10 == 9) && e.M.Len() < 1000 {
			if _, err := full(); err != nil {
				return err
			}
		}
	}
	if err := verifyDump(e.H, e.M); err != nil {
		return err
	}
	opLabels(e, r)
	r.Label(fmt.Sprintf("max_height_%d", tall))
	r.Count("dumps", prints)
	r.Count("dumps_to_failing_writers", fails)
	r.Nontrivial = e.Max >= 2 && fails > 0
	return nil
}

func init() {
	register(&Prop{ID: "P18",
		Rule: "rapid draws a history with uses of the sentinels: as key of every operation (also draining the dictionary from either end), as bounds of ranges in all combinations with ordinary keys, and stored keys with their spelling; the model substitutes its first or last key. Non-trivial: at least two keys held and sentinels used.",
		Passes: stdPasses(
			[]Pass{{"small", 400, nil}, {"medium", 80, nil}, {"large", 5, nil}, {"tall", 2, nil}, {"waves", 8, nil}, {"aim", 5, nil}},
			[]Pass{{"small", 12000, nil}, {"medium", 3000, nil}, {"large", 200, nil}, {"tall", 50, nil}, {"waves", 200, nil}, {"aim", 100, nil}}),
		Gen: genSentinel, Run: runSentinel})
	register(&Prop{ID: "P19",
		Rule: "rapid draws a history and then up to 120 calls on up to four iterators (both directions, drawn ranges) interleaved with look-ups, stepping up to, onto and past the ends; every result is compared with a position in a list. Non-trivial: at least two keys held and three reads made.",
		Passes: stdPasses(
			[]Pass{{"small", 400, nil}, {"medium", 140, nil}, {"large", 10, nil}, {"tall", 2, nil}, {"waves", 8, nil}, {"aim", 5, nil}},
			[]Pass{{"small", 12000, nil}, {"medium", 5000, nil}, {"large", 300, nil}, {"tall", 50, nil}, {"waves", 200, nil}, {"aim", 100, nil}}),
		Gen: genIter, Run: runIter})
	register(&Prop{ID: "P20",
		Rule: "rapid draws a history on a bare tree and dumps; each dump is parsed (indentation, quoting, order, values, inner keys) and compared with the model and the reported height and leafs, and repeated to a writer that fails at a drawn write. Non-trivial: at least two keys held and one failing writer.",
		Passes: stdPasses(
			[]Pass{{"small", 400, nil}, {"medium", 100, nil}, {"large", 5, nil}, {"tall", 2, nil}, {"waves", 8, nil}, {"aim", 5, nil}},
			[]Pass{{"small", 12000, nil}, {"medium", 3000, nil}, {"large", 150, nil}, {"tall", 50, nil}, {"waves", 200, nil}, {"aim", 100, nil}}),
		Gen: genPrint, Run: runPrint})
}
