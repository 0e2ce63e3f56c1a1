package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"strings"

	"github.com/roy2220/plainkv"
)

// Op is one step of a history.  It is plain data; what it means is a function
// of the op and of the reference model at that point.
type Op struct {
	K   string `json:"k"`           // set setx setnx clear test | fill wipe rewrite | reopen | property-specific
	Fam int    `json:"f,omitempty"` // key family
	I   int    `json:"i,omitempty"` // key index or rank
	N   int    `json:"n,omitempty"` // count
	M   int    `json:"m,omitempty"` // key mode or order
	V   int    `json:"v,omitempty"` // value class
	W   int    `json:"w,omitempty"` // second value class of a bulk op
	X   int    `json:"x,omitempty"` // property-specific
	Y   int    `json:"y,omitempty"`
	S   int    `json:"s,omitempty"` // structure, where a case has several
	R   bool   `json:"r,omitempty"` // return flag
}

// Case is one generated input of a property's check.
type Case struct {
	Prop    string `json:"prop"`
	Kind    int    `json:"kind"`
	Profile string `json:"profile"`
	P       []int  `json:"p,omitempty"`
	B       int    `json:"b,omitempty"` // log2 of the bytes taken at the start of the file
	Ops     []Op   `json:"ops,omitempty"`
}

// Viol is a violation of the property under check.
type Viol struct{ msg string }

func (v *Viol) Error() string { return v.msg }

func violf(format string, a ...interface{}) error { return &Viol{fmt.Sprintf(format, a...)} }

// Inconclusive ends a case in which something other than the property under
// check went wrong, so that the property could not be decided.
type Inconclusive struct{ msg string }

func (v *Inconclusive) Error() string { return v.msg }

// HarnessError is a failure of the machinery itself (no file, no memory).
type HarnessError struct{ msg string }

func (v *HarnessError) Error() string { return v.msg }

func hfail(err error) error {
	if err == nil {
		return nil
	}
	return &HarnessError{err.Error()}
}

func guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = panicError(r)
		}
	}()
	return f()
}

func panicError(r interface{}) error {
	if f, ok := r.(interface{ Addr() uintptr }); ok && f.Addr() >= 4096 {
		// memory of the file that is no longer mapped
		return &Viol{fmt.Sprintf("memory handed out by the library is not accessible: %v", r)}
	}
	buf := make([]byte, 16384)
	buf = buf[:runtime.Stack(buf, false)]
	var at []string
	lines := strings.Split(string(buf), "\n")
	for i, l := range lines {
		// a line naming the function, followed by one naming the place
		if !strings.HasPrefix(l, "github.com/roy2220/plainkv") && !strings.HasPrefix(l, "github.com/roy2220/fsm") &&
			!strings.HasPrefix(l, "verifharness/ref") || i+1 == len(lines) {
			continue
		}
		place := strings.TrimSpace(lines[i+1])
		if i := strings.LastIndex(place, " +0x"); i > 0 {
			place = place[:i]
		}
		if at = append(at, place[strings.LastIndex(place, "/")+1:]); len(at) == 6 {
			break
		}
	}
	msg := fmt.Sprintf("panic: %v", r)
	if len(at) == 0 {
		// not in the code under test: the harness itself is at fault
		return &HarnessError{msg + "\n" + string(buf)}
	}
	return &Viol{msg + " at " + strings.Join(at, " < ")}
}

func short(b []byte) string {
	if b == nil {
		return "nil"
	}
	if len(b) > 24 {
		return fmt.Sprintf("%q...(%d bytes)", b[:20], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// diffAt describes how two byte strings differ.
func diffAt(got, want []byte) string {
	if len(got) != len(want) {
		return fmt.Sprintf("length %d instead of %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("byte %d of %d differs", i, len(got))
		}
	}
	return "equal"
}

// Exec runs a history on a store beside the model.
type Exec struct {
	H     *Handle
	M     *Model
	Check bool // compare every result with the model
	salt  int
	Calls int
	Max   int // most keys held at once
	// after is called after each primitive call.
	after func(op string, k, v []byte) error
	// around wraps each primitive call.
	around func(op string, k, v []byte, ret bool, call func() ([]byte, bool)) ([]byte, bool, error)
	// onReopen replaces closing and reopening.
	onReopen func() error
	// extra interprets property-specific ops.
	extra func(o Op) error
	// noReopen makes reopen a no-op
	noReopen bool
	// shadow is the tree that aimed steps look at.
	shadow *Handle
	inCall bool // a call on the store under test is under way
	seen   map[string]int
	kbuf   buffer
	vbuf   buffer
}

// buffer is memory in which a caller passes one argument after another.
type buffer struct{ b []byte }

func (r *buffer) lend(b []byte) []byte {
	if b == nil || len(b) > 1<<16 || len(b) > 0 && (&b[0] == &plainkv.MinKey[0] || &b[0] == &plainkv.MaxKey[0]) {
		return b
	}
	if len(r.b) < len(b) || r.b == nil {
		r.b = make([]byte, 64+2*len(b))
	}
	r.b = r.b[:cap(r.b)]
	return r.b[:copy(r.b, b)]
}

// scrub overwrites the beginning of what was lent.
func (r *buffer) scrub() {
	for i := 0; i < len(r.b) && i < 64; i++ {
		r.b[i] = 0xA5
	}
}

func NewExec(h *Handle) *Exec {
	e := &Exec{H: h, M: NewModel(), seen: map[string]int{}}
	if h.Ordered() && curCase != nil && aimed(curCase) {
		if err := e.openShadow(); err != nil {
			panic(err)
		}
	}
	return e
}

// trace, if set, gets the calls of a history (for writing demonstrations).
var trace io.Writer

func (e *Exec) nextSalt() int { e.salt++; return e.salt }

// prim performs one primitive call on store and model.
func (e *Exec) prim(op string, k, v []byte, ret bool) error {
	e.Calls++
	old, had := e.M.Get(k)
	if trace != nil {
		switch {
		case op == "set", op == "setx" && had, op == "setnx" && !had:
			fmt.Fprintf(trace, "s %d x%x\n", len(v), k)
		case op == "clear":
			fmt.Fprintf(trace, "c 0 x%x\n", k)
		}
	}
	call := func() (res []byte, ok bool) {
		kv := e.H.KV()
		// for stretches of calls, the caller uses its buffers again
		k, v := k, v
		if e.Calls&16 != 0 {
			k, v = e.kbuf.lend(k), e.vbuf.lend(v)
			defer e.kbuf.scrub()
			defer e.vbuf.scrub()
		}
		switch op {
		case "set":
			return kv.Set(k, v, ret), true
		case "setx":
			return kv.SetIfExists(k, v, ret)
		case "setnx":
			return kv.SetIfNotExists(k, v, ret)
		case "clear":
			return kv.Clear(k, ret)
		case "test":
			return kv.Test(k, ret)
		}
		panic("op " + op)
	}
	var res []byte
	var ok bool
	var err error
	e.inCall = true
	if e.around != nil {
		res, ok, err = e.around(op, k, v, ret, call)
		if err != nil {
			return err
		}
	} else {
		res, ok = call()
	}
	if e.Check {
		wantOk := had
		if op == "setnx" {
			wantOk = !had
		}
		if op == "set" && (e.H.kind == kBPT || e.H.kind == kHM) && !e.H.ref && e.H.added == had {
			return violf("adding or updating %s where the key %s reports that it was added: %v", short(k), map[bool]string{true: "exists", false: "is absent"}[had], e.H.added)
		}
		if op != "set" && ok != wantOk {
			return violf("%s(%s) on a dictionary that %s the key returned %v", op, short(k), map[bool]string{true: "holds", false: "does not hold"}[had], ok)
		}
		var want []byte
		if ret && had {
			want = old
		}
		if !bytes.Equal(res, want) {
			return violf("%s(%s, return flag %v) returned value %s instead of %s (%s)", op, short(k), ret, short(res), short(want), diffAt(res, want))
		}
	}
	switch op {
	case "set":
		e.M.Put(k, v)
	case "setx":
		if had {
			e.M.Put(k, v)
		}
	case "setnx":
		if !had {
			e.M.Put(k, v)
		}
	case "clear":
		e.M.Del(k)
	}
	if n := e.M.Len(); n > e.Max {
		e.Max = n
	}
	if e.after != nil {
		err = e.after(op, k, v)
	}
	e.inCall = false
	if err == nil && e.shadow != nil {
		e.mirror(op, k, v)
	}
	return err
}

// resolveKey turns the key reference of a point op into a key.
func (e *Exec) resolveKey(o Op) []byte {
	return resolveKey(e.M, o)
}

func resolveKey(m *Model, o Op) []byte {
	if o.M == 0 || m.Len() == 0 {
		return keyOf(o.Fam, o.I%famLimit(o.Fam))
	}
	ks := m.Keys()
	return perturb([]byte(ks[o.I%len(ks)]), o.M)
}

func perturb(k []byte, mode int) []byte {
	switch mode {
	case 2:
		return append(k, 0)
	case 3:
		if len(k) > 0 {
			return k[:len(k)-1]
		}
	case 4, 5:
		if n := len(k); n > 0 {
			if mode == 4 {
				k[n-1]++
			} else {
				k[n-1]--
			}
		}
	case 6:
		if len(k) > 249 {
			return k[:249]
		}
	case 7:
		return append(k, rep(0xff, 300)...)
	}
	return k
}

const numKeyModes = 8

// order returns a permutation of 0..n-1.
func order(n, mode, salt int) []int {
	p := make([]int, n)
	switch mode % 6 {
	case 1: // descending
		for i := range p {
			p[i] = n - 1 - i
		}
	case 2: // shuffled
		for i := range p {
			p[i] = i
		}
		r := newRng(n, salt)
		for i := n - 1; i > 0; i-- {
			j := r.n(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	case 3: // from both ends
		for i := range p {
			if i%2 == 0 {
				p[i] = i / 2
			} else {
				p[i] = n - 1 - i/2
			}
		}
	case 4: // from the middle outwards
		for i := range p {
			if i%2 == 0 {
				p[i] = n/2 + i/2
			} else {
				p[i] = n/2 - 1 - i/2
			}
		}
	case 5: // every 7th, then the next residue, ...
		j := 0
		for r := 0; r < 7; r++ {
			for i := r; i < n; i += 7 {
				p[j] = i
				j++
			}
		}
	default:
		for i := range p {
			p[i] = i
		}
	}
	return p
}

// bulkVal picks the value class of the j-th element of a bulk op.
func bulkVal(o Op, j int) int {
	if o.W < 0 { // any size up to that of V
		return int(mix(uint64(j)<<8+uint64(-o.W)) % uint64(o.V+1))
	}
	if o.W != 0 && j%3 == 1 {
		return o.W
	}
	return o.V
}

// rankSlice copies the keys selected by a bulk op over existing keys:
// X, Y are permille positions, N bounds the count.
func rankSlice(m *Model, o Op) []string {
	ks := m.Keys()
	n := len(ks)
	a, b := o.X*n/1000, o.Y*n/1000
	if a > b {
		a, b = b, a
	}
	if b > n {
		b = n
	}
	if o.Y >= 1000 {
		b = n
	}
	if b == a && a < n {
		b = a + 1
	}
	sel := ks[a:b]
	if o.I%4 == 3 { // thin: two of three
		var t []string
		for i, k := range sel {
			if i%3 != 0 {
				t = append(t, k)
			}
		}
		sel = t
	}
	if o.N > 0 && len(sel) > o.N {
		sel = sel[:o.N]
	}
	return append([]string(nil), sel...)
}

func (e *Exec) Apply(o Op) error {
	e.seen[o.K]++
	switch o.K {
	case "set", "setx", "setnx":
		return e.prim(o.K, e.resolveKey(o), valOf(o.V, e.nextSalt()), o.R)
	case "clear", "test":
		return e.prim(o.K, e.resolveKey(o), nil, o.R)
	case "fill":
		if o.N > 256 {
			e.M.Bulk()
		}
		op := []string{"set", "set", "setnx", "set"}[o.X%4]
		lim := famLimit(o.Fam)
		for j, p := range order(o.N, o.M, o.I) {
			if err := e.prim(op, keyOf(o.Fam, (o.I+p)%lim), valOf(bulkVal(o, j), e.nextSalt()), o.R && j%5 == 0); err != nil {
				return err
			}
		}
	case "wipe":
		sel := rankSlice(e.M, o)
		if len(sel) > 256 {
			e.M.Bulk()
		}
		for _, p := range order(len(sel), o.M, o.I) {
			if err := e.prim("clear", []byte(sel[p]), nil, o.R); err != nil {
				return err
			}
		}
	case "rewrite":
		sel := rankSlice(e.M, o)
		op := []string{"set", "setx"}[o.Fam%2]
		for j, p := range order(len(sel), o.M, o.I) {
			if err := e.prim(op, []byte(sel[p]), valOf(bulkVal(o, j), e.nextSalt()), o.R && j%3 == 0); err != nil {
				return err
			}
		}
	case "reopen":
		if trace != nil {
			fmt.Fprintln(trace, "r 0 x")
		}
		if e.onReopen != nil {
			return e.onReopen()
		}
		if e.noReopen {
			return nil
		}
		if err := e.H.Reopen(); err != nil {
			return violf("%v", err)
		}
	case "aim":
		return e.aim(o)
	default:
		if e.extra != nil {
			return e.extra(o)
		}
		panic("unknown op " + o.K)
	}
	return nil
}

// verifyTests looks every key of the model up, and some absent ones.
func (e *Exec) verifyTests() error {
	kv := e.H.KV()
	prev := ""
	for i, k := range e.M.Keys() {
		v, ok := kv.Test([]byte(k), true)
		want := e.M.m[k]
		if !ok {
			return violf("key %s was stored but Test does not find it (%d keys)", short([]byte(k)), e.M.Len())
		}
		if !bytes.Equal(v, want) {
			return violf("key %s has value %s instead of %s (%s)", short([]byte(k)), short(v), short(want), diffAt(v, want))
		}
		if i%3 == 0 {
			// keys that are not stored, next to stored ones
			for mode := 2; mode < numKeyModes; mode++ {
				q := perturb([]byte(k), mode)
				if _, in := e.M.m[string(q)]; in {
					continue
				}
				if v, ok := kv.Test(q, true); ok {
					return violf("key %s is not stored but Test finds it with value %s", short(q), short(v))
				}
			}
		}
		prev = k
	}
	_ = prev
	return nil
}

// verifyDump compares the whole contents with the model.
func verifyDump(h *Handle, m *Model) error {
	d, err := h.Dump(m.Len() + 1)
	if err != nil {
		return violf("%v", err)
	}
	return comparePairs(d, m, h.Ordered())
}

func comparePairs(d [][2][]byte, m *Model, ordered bool) error {
	if ordered {
		ks := m.Keys()
		for i, p := range d {
			if i >= len(ks) {
				return violf("iteration yields %s beyond the %d stored keys", short(p[0]), len(ks))
			}
			if string(p[0]) != ks[i] {
				return violf("pair %d of the iteration has key %s instead of %s", i, short(p[0]), short([]byte(ks[i])))
			}
			if !bytes.Equal(p[1], m.m[ks[i]]) {
				return violf("iteration yields key %s with value %s instead of %s", short(p[0]), short(p[1]), short(m.m[ks[i]]))
			}
		}
	} else {
		seen := make(map[string]bool, len(d))
		for _, p := range d {
			want, ok := m.m[string(p[0])]
			if !ok {
				return violf("scan yields key %s, which is not stored", short(p[0]))
			}
			if seen[string(p[0])] {
				return violf("scan yields key %s twice", short(p[0]))
			}
			seen[string(p[0])] = true
			if !bytes.Equal(p[1], want) {
				return violf("scan yields key %s with value %s instead of %s", short(p[0]), short(p[1]), short(want))
			}
		}
	}
	if len(d) != m.Len() {
		return violf("%d pairs come out of the iteration, %d are stored", len(d), m.Len())
	}
	return nil
}
