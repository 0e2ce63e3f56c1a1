package main

import (
	"bytes"
	"fmt"
	"os"

	"verifharness/ref/bptree"
)

// Aimed steps.  What random histories reach least is a call that makes
// several pages of a B+ tree give way at once: a removal that empties a leaf
// and at the same time replaces the separator above by one that its page has
// no room for, or a shift between leafs that makes the page above, and the
// one above that, shift, split or merge in turn.  An aimed step brings the
// pages along a path of the tree close to their limits and then makes one
// call that crosses them.  It chooses the keys by looking at the pages of a
// shadow tree, which the reference version (ref/) builds from the same calls;
// nothing is judged by the shadow, so a version that splits elsewhere is
// driven less precisely, and no more.

// aimed tells whether the running case has aimed steps.
func aimed(c *Case) bool {
	for _, o := range c.Ops {
		if o.K == "aim" {
			return true
		}
	}
	return false
}

var shadowCount int

// openShadow gives e a shadow tree.
func (e *Exec) openShadow() error {
	shadowCount++
	h := tracked(&Handle{kind: kOD, path: casePath(fmt.Sprintf("shadow%d", shadowCount)), ref: true})
	if err := h.doOpen(true); err != nil {
		return hfail(fmt.Errorf("shadow: %v", err))
	}
	e.shadow = h
	return nil
}

// mirror repeats a call on the shadow tree.
func (e *Exec) mirror(op string, k, v []byte) {
	defer func() {
		if recover() != nil {
			e.shadow = nil
		}
	}()
	kv := e.shadow.KV()
	switch op {
	case "set":
		kv.Set(k, v, false)
	case "setx":
		kv.SetIfExists(k, v, false)
	case "setnx":
		kv.SetIfNotExists(k, v, false)
	case "clear":
		kv.Clear(k, false)
	}
}

type aimer struct {
	e     *Exec
	g     *rng
	calls int                 // budget
	skip  func(i, n int) bool // children whose keys nonleaf leaves alone
}

func (a *aimer) set(k []byte, n int) error {
	a.calls--
	return a.e.prim("set", k, fillBytes(n, uint64(a.e.nextSalt())), false)
}

func (a *aimer) clear(k []byte) error {
	a.calls--
	return a.e.prim("clear", k, nil, a.g.n(4) == 0)
}

func (a *aimer) has(k []byte) bool { _, ok := a.e.M.Get(k); return ok }

func (a *aimer) root() bptree.Page { return a.e.shadow.rod.Tree().Root() }

// at follows a path of child indices; ok is false where the tree has changed
// too much.
func (a *aimer) at(path []int) (p bptree.Page, ok bool) {
	p = a.root()
	for _, i := range path {
		if p.Leaf() || i >= p.N() {
			return p, false
		}
		p = p.Child(i)
	}
	return p, true
}

func leftmost(p bptree.Page) bptree.Page {
	for !p.Leaf() {
		p = p.Child(0)
	}
	return p
}

// after returns a key of n bytes directly after k (before next, if given), or nil.
func (a *aimer) after(k, next []byte, n int) []byte {
	if n <= len(k) {
		return nil
	}
	q := append(append([]byte(nil), k...), make([]byte, n-len(k))...)
	if next != nil && bytes.Compare(q, next) >= 0 || a.has(q) {
		return nil
	}
	return q
}

// relabel replaces the first key of a leaf by one of about n bytes.
func (a *aimer) relabel(l bptree.Page, n int) (bool, error) {
	if l.N() < 2 {
		return false, nil
	}
	f, s := l.Key(0), l.Key(1)
	if n > len(f) {
		q := a.after(f, s, n)
		if q == nil {
			return false, nil
		}
		if err := a.set(q, a.g.n(3)); err != nil {
			return false, err
		}
		return true, a.clear(f)
	}
	// the shortest key between the two, or one of n bytes
	for j := 1; j <= len(s); j++ {
		if bytes.Compare(s[:j], f) > 0 {
			q := append([]byte(nil), s[:j]...)
			if j < n && j < len(s) {
				if q2 := a.after(q, s, n); q2 != nil {
					q = q2
				}
			}
			if !bytes.Equal(q, s) {
				if err := a.set(q, a.g.n(3)); err != nil {
					return false, err
				}
			}
			return true, a.clear(f)
		}
	}
	return false, nil
}

// nonleaf brings the load of the page at the path to between target-slack and
// target (up), or between target and target+slack (down), by replacing the
// keys that separate its children.
func (a *aimer) nonleaf(path []int, target int, up bool, slack int) error {
	for i := 0; i < 60 && a.calls > 0; i++ {
		p, ok := a.at(path)
		if !ok || p.Leaf() || p.N() < 2 {
			return nil
		}
		gap := target - p.Load()
		if !up {
			gap = -gap
		}
		if gap <= slack {
			return nil
		}
		c, best := 0, 0
		for t := 0; t < 4; t++ {
			j := 1 + a.g.n(p.N()-1)
			if a.skip != nil && a.skip(j, p.N()) {
				continue
			}
			if k := p.KeySize(j); c == 0 || up && k < best || !up && k > best {
				c, best = j, k
			}
		}
		if c == 0 {
			continue
		}
		n := best + gap
		if !up {
			n = best - gap
		} else if slack > 0 {
			n -= a.g.n(slack + 1)
		}
		if n > 256 {
			n = 256 - a.g.n(8)
		}
		if n < 1 {
			n = 1
		}
		if up && best >= 245 {
			// long keys everywhere: more children, or some room for that
			if gap >= 269 {
				if err := a.grow(path); err != nil {
					return err
				}
				continue
			}
			n = 4 + a.g.n(30)
		} else if up && gap >= 600 && a.g.n(4) == 0 {
			if err := a.grow(path); err != nil {
				return err
			}
			continue
		}
		if n == best {
			continue
		}
		if _, err := a.relabel(leftmost(p.Child(c)), n); err != nil {
			return err
		}
	}
	return nil
}

// grow adds records to a leaf below the inner page at the path until the page
// has one more child.
func (a *aimer) grow(path []int) error {
	p, ok := a.at(path)
	if !ok || p.Leaf() {
		return nil
	}
	for !p.Child(0).Leaf() {
		i := a.g.n(p.N())
		path = append(append([]int(nil), path...), i)
		p = p.Child(i)
	}
	n, c := p.N(), a.g.n(p.N())
	for t := 0; t < 8 && a.skip != nil && (a.skip(c, n) || a.skip(c+1, n)); t++ {
		c = a.g.n(n)
	}
	for i := 0; i < 50 && a.calls > 0; i++ {
		p, ok := a.at(path)
		if !ok || p.Leaf() || p.N() != n || c >= p.N() {
			return nil
		}
		l := p.Child(c)
		j := a.g.n(l.N())
		var next []byte
		if j+1 < l.N() {
			next = l.Key(j + 1)
		}
		k := l.Key(j)
		m := len(k) + 1 + a.g.n(3)
		if m < 150 {
			m = 150 + a.g.n(100)
		}
		if q := a.after(k, next, m); q != nil {
			if err := a.set(q, 120); err != nil {
				return err
			}
		}
	}
	return nil
}

// limit brings the page at the path close to its upper or lower limit.
func (a *aimer) limit(path []int, over bool, slack int) error {
	if over {
		return a.nonleaf(path, bptree.NonLeafOver, true, slack)
	}
	return a.nonleaf(path, bptree.NonLeafUnder, false, slack)
}

// leaf brings the leaf at the path close to a limit without touching its
// first record.
func (a *aimer) leaf(path []int, over bool, slack int) error {
	for i := 0; i < 60 && a.calls > 0; i++ {
		l, ok := a.at(path)
		if !ok || !l.Leaf() || l.N() < 3 {
			return nil
		}
		n := l.N()
		if over {
			gap := bptree.LeafOver - l.Load()
			if gap <= slack {
				return nil
			}
			j := 1 + a.g.n(n-1)
			if v := l.ValueSize(j); v < 120 {
				w := v + gap
				if slack > 0 {
					w -= a.g.n(slack + 1)
				}
				if w > 120 {
					w = 120
				}
				if w > v {
					if err := a.set(l.Key(j), w); err != nil {
						return err
					}
					continue
				}
			}
			var next []byte
			if j+1 < n {
				next = l.Key(j + 1)
			}
			k := l.Key(j)
			if q := a.after(k, next, len(k)+1+a.g.n(3)); q != nil && gap > len(q)+8 {
				if err := a.set(q, a.g.n(100)); err != nil {
					return err
				}
			}
			continue
		}
		gap := l.Load() - bptree.LeafUnder
		if gap <= slack {
			return nil
		}
		j := 1 + a.g.n(n-1)
		if l.RecordSize(j) <= gap && n > 3 {
			if err := a.clear(l.Key(j)); err != nil {
				return err
			}
			continue
		}
		if v := l.ValueSize(j); v > 0 {
			w := v - gap
			if w < 0 {
				w = 0
			}
			if err := a.set(l.Key(j), w); err != nil {
				return err
			}
		}
	}
	return nil
}

// aim performs o.N aimed steps.
func (e *Exec) aim(o Op) (err error) {
	if e.shadow == nil {
		return nil
	}
	defer func() {
		// the shadow is no judge: without it the case goes on unaimed
		if r := recover(); r != nil {
			if e.inCall {
				panic(r)
			}
			e.shadow = nil
			e.seen["aim_given_up"]++
			if os.Getenv("VH_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "aim:", panicError(r))
			}
		}
	}()
	a := &aimer{e: e, g: newRng(o.I, o.M*1000+o.N), calls: 4000}
	for i := 0; i < o.N && a.calls > 0; i++ {
		if err := a.step(o.M); err != nil {
			return err
		}
	}
	return nil
}

func (a *aimer) slack() int { return []int{0, 0, 1, 4, 20, 100}[a.g.n(6)] }

// starve makes a leaf take records from a neighbour so that the separator
// between the two, in a page that is low already, becomes a short one.
func (a *aimer) starve(path []int) error {
	g := a.g
	d := len(path)
	p, _ := a.at(path[:d-1])
	side := 1
	if c := path[d-1]; c > 0 && g.n(2) == 0 || c == p.N()-1 {
		side = -1
	}
	q := append([]int(nil), path...)
	q[d-1] += side
	if side > 0 {
		// a long separator to begin with
		if l, ok := a.at(q); ok && l.Leaf() {
			if _, err := a.relabel(l, 256); err != nil {
				return err
			}
		}
	}
	// a neighbour of short keys and large values
	if err := a.shorten(q); err != nil {
		return err
	}
	if err := a.leaf(q, true, 200); err != nil {
		return err
	}
	if err := a.limit(path[:d-1], false, a.slack()); err != nil {
		return err
	}
	if err := a.leaf(path, false, a.slack()); err != nil {
		return err
	}
	if l, ok := a.at(path); ok && l.Leaf() && l.N() > 2 {
		return a.clear(l.Key(1 + g.n(l.N()-1)))
	}
	return nil
}

// shorten gives a leaf short keys and large values.
func (a *aimer) shorten(q []int) error {
	for i := 0; i < 40 && a.calls > 0; i++ {
		l, ok := a.at(q)
		if !ok || !l.Leaf() {
			return nil
		}
		did := false
		for j, n := 1, l.N(); j+1 < n && !did; j++ {
			k, s := l.Key(j), l.Key(j+1)
			for m := 1; m < len(s) && m+20 < len(k); m++ {
				if bytes.Compare(s[:m], k) > 0 {
					if err := a.set(append([]byte(nil), s[:m]...), 120); err != nil {
						return err
					}
					if err := a.clear(k); err != nil {
						return err
					}
					did = true
					break
				}
			}
		}
		if !did {
			break
		}
	}
	return nil
}

// drain makes a leaf give records to a neighbour so that the separator between
// the two, in a page that is low already, becomes a short one.
func (a *aimer) drain(path []int) error {
	g := a.g
	d := len(path)
	p, _ := a.at(path[:d-1])
	side := 1
	if c := path[d-1]; c > 0 && g.n(2) == 0 || c == p.N()-1 {
		side = -1
	}
	q := append([]int(nil), path...)
	q[d-1] += side
	if err := a.shorten(path); err != nil {
		return err
	}
	// room in the neighbour, but not much
	if err := a.leaf(q, true, 300+g.n(2000)); err != nil {
		return err
	}
	l, ok := a.at(path)
	sep := path[d-1]
	if side > 0 {
		l, ok = a.at(q)
		sep++
	}
	if !ok || !l.Leaf() {
		return nil
	}
	if _, err := a.relabel(l, 256); err != nil {
		return err
	}
	if err := a.leaf(path, true, a.slack()); err != nil {
		return err
	}
	a.skip = func(i, n int) bool { return i == sep }
	defer func() { a.skip = nil }()
	if err := a.limit(path[:d-1], false, a.slack()); err != nil {
		return err
	}
	for i := 0; i < 4 && a.calls > 0; i++ {
		l, ok := a.at(path)
		if !ok || !l.Leaf() || l.N() < 3 {
			return nil
		}
		if err := a.set(l.Key(1+g.n(l.N()-1)), 600); err != nil {
			return err
		}
	}
	return nil
}

// shiftInner makes an inner page give children to a neighbour so that the
// separator between the two becomes a short one in a page that is low already,
// or a long one in a page that is full.
func (a *aimer) shiftInner(path []int) error {
	g := a.g
	j := 2 + g.n(len(path)-2)
	defer func() { a.skip = nil }()
	up, page := path[:j-1], path[:j]
	p, _ := a.at(up)
	side := 1
	if c := path[j-1]; c > 0 && g.n(2) == 0 || c == p.N()-1 {
		side = -1
	}
	q := append([]int(nil), page...)
	q[j-1] += side
	sep := path[j-1]
	if side > 0 {
		sep++
	}
	if sep < 1 || sep >= p.N() {
		return nil
	}
	long := g.n(3) == 0
	edge, between := 1, 256
	if long {
		edge, between = 256, 1
	}
	near := func(i, n int) bool { return side < 0 && i < 10 || side > 0 && i > n-10 }
	if s, ok := a.at(page); ok && !s.Leaf() {
		n := s.N()
		for i := 1; i < n; i++ {
			if s, ok = a.at(page); !ok || s.Leaf() || i >= s.N() {
				return nil
			}
			if near(i, n) {
				if _, err := a.relabel(leftmost(s.Child(i)), edge); err != nil {
					return err
				}
			}
		}
	}
	// room in the neighbour
	if s, ok := a.at(q); ok && !s.Leaf() {
		target := bptree.NonLeafOver - 290 - g.n(400)
		if err := a.nonleaf(q, target, s.Load() < target, 60); err != nil {
			return err
		}
	}
	p, ok := a.at(up)
	if !ok || p.Leaf() || sep >= p.N() {
		return nil
	}
	if _, err := a.relabel(leftmost(p.Child(sep)), between); err != nil {
		return err
	}
	a.skip = near
	if err := a.limit(page, true, a.slack()); err != nil {
		return err
	}
	a.skip = func(i, n int) bool { return i == sep }
	if err := a.limit(up, long, a.slack()); err != nil {
		return err
	}
	a.skip = nil
	// the page gets too full
	for i := 0; i < 4 && a.calls > 0; i++ {
		p, ok := a.at(page)
		if !ok || p.Leaf() || p.N() < 2 {
			return nil
		}
		c := 1 + g.n(p.N()-1)
		for t := 0; t < 4; t++ {
			if b := 1 + g.n(p.N()-1); p.KeySize(b) < p.KeySize(c) && !near(b, p.N()) {
				c = b
			}
		}
		if os.Getenv("VH_DEBUG") != "" {
			gp, _ := a.at(up)
			nb, _ := a.at(q)
			fmt.Fprintln(os.Stderr, "shiftInner", len(path), j, side, long, "up", gp.Load()-bptree.NonLeafUnder, gp.Load()-bptree.NonLeafOver, "page", p.Load()-bptree.NonLeafOver, "nb", nb.Load()-bptree.NonLeafOver, "sep", gp.KeySize(sep), "key", p.KeySize(c))
		}
		if p.KeySize(c) > 200 {
			if err := a.grow(page); err != nil {
				return err
			}
			continue
		}
		if _, err := a.relabel(leftmost(p.Child(c)), 256); err != nil {
			return err
		}
	}
	return nil
}

// starveInner makes an inner page take children from a neighbour so that the
// separator between the two, in a page that is low already, becomes a short
// one.
func (a *aimer) starveInner(path []int) error {
	g := a.g
	j := 2 + g.n(len(path)-2)
	defer func() { a.skip = nil }()
	up, page := path[:j-1], path[:j]
	p, _ := a.at(up)
	side := 1
	if c := path[j-1]; c > 0 && g.n(2) == 0 || c == p.N()-1 {
		side = -1
	}
	q := append([]int(nil), page...)
	q[j-1] += side
	sep := path[j-1]
	if side > 0 {
		sep++
	}
	if sep < 1 || sep >= p.N() {
		return nil
	}
	// the separators next to the page are short ones
	near := func(i, n int) bool { return side > 0 && i < 14 || side < 0 && i > n-14 }
	if s, ok := a.at(q); ok && !s.Leaf() {
		n := s.N()
		for i := 1; i < n; i++ {
			if s, ok = a.at(q); !ok || s.Leaf() || i >= s.N() {
				return nil
			}
			if near(i, n) {
				if _, err := a.relabel(leftmost(s.Child(i)), 1); err != nil {
					return err
				}
			}
		}
		a.skip = near
		target := bptree.NonLeafUnder + 40 + g.n(700)
		if s, ok = a.at(q); ok && !s.Leaf() {
			if err := a.nonleaf(q, target, s.Load() < target, 60); err != nil {
				return err
			}
		}
		a.skip = nil
	}
	if err := a.limit(page, false, a.slack()); err != nil {
		return err
	}
	// a long separator between the two
	p, ok := a.at(up)
	if !ok || p.Leaf() || sep >= p.N() {
		return nil
	}
	if _, err := a.relabel(leftmost(p.Child(sep)), 256); err != nil {
		return err
	}
	a.skip = func(i, n int) bool { return i == sep }
	if err := a.limit(up, false, a.slack()); err != nil {
		return err
	}
	a.skip = nil
	// the page gets too low
	for i := 0; i < 4 && a.calls > 0; i++ {
		p, ok := a.at(page)
		if !ok || p.Leaf() || p.N() < 2 {
			return nil
		}
		c := 1 + g.n(p.N()-1)
		for t := 0; t < 3; t++ {
			if b := 1 + g.n(p.N()-1); p.KeySize(b) > p.KeySize(c) {
				c = b
			}
		}
		if os.Getenv("VH_DEBUG") != "" {
			gp, _ := a.at(up)
			nb, _ := a.at(q)
			fmt.Fprintln(os.Stderr, "starveInner", len(path), j, side, "up", gp.Load()-bptree.NonLeafUnder, "page", p.Load()-bptree.NonLeafUnder, "nb", nb.Load()-bptree.NonLeafUnder, "sep", gp.KeySize(sep), "key", p.KeySize(c))
		}
		if _, err := a.relabel(leftmost(p.Child(c)), 1); err != nil {
			return err
		}
	}
	return nil
}

func (a *aimer) step(mode int) error {
	g := a.g
	r := a.root()
	if r.Leaf() {
		return nil
	}
	// a path down to a leaf: any, or one that begins the pages above it
	var path []int
	plan := []int{0, 0, 0, 0, 1, 1, 2, 2, 3}[g.n(9)]
	for p := r; !p.Leaf(); p = p.Child(path[len(path)-1]) {
		n := p.N()
		i := g.n(n)
		switch g.n(6) {
		case 0:
			i = 0
		case 1:
			i = n - 1
		}
		if plan == 2 && len(path) > 0 {
			i = 0
		}
		path = append(path, i)
	}
	d := len(path)
	if d < 2 && (plan == 1 || plan == 3) {
		plan = 0
	}
	if d >= 3 && g.n(4) == 0 {
		a.e.seen["aimed_at_inner_pages"]++
		if g.n(2) == 0 {
			return a.shiftInner(path)
		}
		return a.starveInner(path)
	}
	if d >= 2 && g.n(8) == 0 {
		return a.drain(path)
	}
	if plan == 3 {
		return a.starve(path)
	}
	switch plan {
	case 1:
		// a leaf at the edge of its page, with a neighbouring page that has
		// just room for it
		side := 1
		if g.n(2) == 0 {
			side = -1
		}
		pp, _ := a.at(path[:d-2])
		if path[d-2]+side < 0 || path[d-2]+side >= pp.N() {
			side = -side
		}
		p := pp.Child(path[d-2])
		var room int
		q := append([]int(nil), path[:d-1]...)
		q[d-2] += side
		if q[d-2] < 0 || q[d-2] >= pp.N() {
			return nil
		}
		if err := a.limit(path[:d-1], true, a.slack()); err != nil {
			return err
		}
		if pp, _ = a.at(path[:d-2]); pp.Leaf() || q[d-2] >= pp.N() || path[d-2] >= pp.N() {
			return nil
		}
		p = pp.Child(path[d-2])
		n := p.N()
		// the victim's separator is going to be a long one
		if side > 0 {
			path[d-1] = n - 1
			room = 12 + pp.KeySize(path[d-2]+1)
			if g.n(3) == 0 && n > 3 {
				path[d-1]--
				room += 12 + p.KeySize(n-1)
			}
		} else {
			path[d-1] = 1
			room = 24 + pp.KeySize(path[d-2]) + p.KeySize(1) + []int{10, 30, 230}[g.n(3)]
			if g.n(2) == 0 && n > 3 {
				room += 12 + p.KeySize(2)
			} else if g.n(3) == 0 && n > 3 {
				path[d-1]++
				room += 12 + p.KeySize(1)
			}
		}
		if err := a.nonleaf(q, bptree.NonLeafOver-room-g.n(6), true, g.n(20)); err != nil {
			return err
		}
	case 2:
		// the separator of the leaf lies in a page further up
		for j := 0; j < d; j++ {
			if j == 0 && g.n(2) == 0 {
				continue
			}
			if err := a.limit(path[:j], j < d-1 && g.n(3) > 0 || g.n(4) == 0, a.slack()); err != nil {
				return err
			}
		}
	default:
		// inner pages, from the top down; the root has only an upper limit
		for j := 0; j < d; j++ {
			var over bool
			switch g.n(3) {
			case 0:
				over = true
			case 1:
				if j == 0 {
					continue
				}
			case 2:
				continue
			}
			if j > 0 && g.n(3) == 0 {
				// a neighbour of the page, so that shifting finds it full or low
				q := append([]int(nil), path[:j]...)
				if g.n(2) == 0 {
					q[j-1]++
				} else if q[j-1] > 0 {
					q[j-1]--
				}
				if err := a.limit(q, g.n(2) == 0, a.slack()); err != nil {
					return err
				}
			}
			if err := a.limit(path[:j], over, a.slack()); err != nil {
				return err
			}
		}
	}
	// neighbours of the leaf
	for _, dlt := range []int{-1, 1} {
		if q := append([]int(nil), path...); g.n(3) == 0 && q[d-1]+dlt >= 0 {
			q[d-1] += dlt
			if err := a.leaf(q, g.n(2) == 0, a.slack()); err != nil {
				return err
			}
		}
	}
	over := plan == 0 && g.n(3) == 0
	if err := a.leaf(path, over, a.slack()); err != nil {
		return err
	}
	// the call that crosses the limits
	l, ok := a.at(path)
	if !ok || !l.Leaf() || l.N() < 3 {
		return nil
	}
	n := l.N()
	f, s := l.Key(0), l.Key(1)
	if over {
		j := g.n(n)
		k := l.Key(j)
		if g.n(2) == 0 {
			return a.set(k, g.n(600))
		}
		var next []byte
		if j+1 < n {
			next = l.Key(j + 1)
		}
		if q := a.after(k, next, len(k)+1+g.n(250)); q != nil {
			return a.set(q, g.n(200))
		}
		return nil
	}
	what := g.n(6)
	if plan == 1 && g.n(5) > 0 {
		what = 3
	}
	if p, ok := a.at(path[:d-1]); ok && !p.Leaf() && plan != 1 && g.n(2) == 0 {
		if p.Load()+260 > bptree.NonLeafOver {
			what = 3
		} else if p.Load() < bptree.NonLeafUnder+260 {
			what = 2
		}
	}
	switch what {
	case 0: // some record
		return a.clear(l.Key(g.n(n)))
	case 1: // a value that becomes short
		return a.set(l.Key(g.n(n)), 0)
	case 2: // the first record, followed by a short key
		for j := 1; j < len(s); j++ {
			if q := s[:j]; bytes.Compare(q, f) > 0 && !a.has(q) {
				if err := a.set(append([]byte(nil), q...), 0); err != nil {
					return err
				}
				break
			}
		}
	case 3, 4: // the first record, followed by a long key
		m := 256 - g.n(30)
		if g.n(2) == 0 {
			m = len(f) + 1 + g.n(40)
		}
		if q := a.after(f, s, m); q != nil {
			if err := a.set(q, g.n(2)); err != nil {
				return err
			}
		}
	}
	if g.n(2) == 0 {
		// what was added may have brought the leaf above its limit
		if l, ok := a.at(path); ok && l.Leaf() && l.N() > 3 {
			gap := l.Load() - bptree.LeafUnder
			for j := l.N() - 1; j > 1 && gap > 0; j-- {
				if l.RecordSize(j) <= gap {
					if err := a.clear(l.Key(j)); err != nil {
						return err
					}
					if l, ok = a.at(path); !ok || !l.Leaf() {
						break
					}
					gap = l.Load() - bptree.LeafUnder
					j = l.N()
				}
			}
			for j := l.N() - 1; j > 1 && gap > 0; j-- {
				if v := l.ValueSize(j); v > 0 {
					w := v - gap
					if w < 0 {
						w = 0
					}
					gap -= v - w
					if err := a.set(l.Key(j), w); err != nil {
						return err
					}
				}
			}
		}
	}
	return a.clear(f)
}
