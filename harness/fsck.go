package main

// An independent reader of the file format: it walks everything reachable
// from a descriptor of a closed file, checks the structure and frees every
// space it met, so that what remains allocated is what nothing refers to.
// It shares no code with the library under test; only the space manager
// (fsm, a dependency) is common.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"sort"

	"github.com/roy2220/fsm"
)

const (
	pageBytes     = 8192
	leafHead      = 20
	leafRecHead   = 8
	innerHead     = 4
	innerItemHead = 12
	inlineKeyMax  = 256 // longer keys keep keyPrefix bytes and an address
	keyPrefix     = 249
	inlineValMax  = 128
	valPrefix     = 121
	dirShift      = 12
)

// Fsck is what was found in one file.
type Fsck struct {
	Pairs     [][2][]byte // in the order of the structure
	Leafs     []PageInfo
	Inners    []PageInfo
	Height    int
	Slots     int
	SlotDirs  int
	MaxChain  int
	Remaining int // bytes still allocated after everything reachable was freed
	Overlap   string
	Spaces    []space // everything reachable
	LeakErr   error   // freeing failed
	FormErr   error   // the structure is malformed
	InfoErr   error   // the descriptor disagrees with the structure
	info      []int64
}

// PageInfo is one tree page.
type PageInfo struct {
	Addr  int64
	Depth int
	Load  int // bytes in use, without the page header
	N     int
	Root  bool
}

type space struct {
	addr    int64
	size    int
	aligned bool
	what    string
	need    int // bytes of it in use
}

type walker struct {
	fs     *fsm.FileStorage
	spaces []space
	seen   map[int64]string
	f      *Fsck
}

type formErr struct{ msg string }

func (w *walker) bad(format string, a ...interface{}) {
	panic(formErr{fmt.Sprintf(format, a...)})
}

// try calls f; a panic of the space manager is a malformed reference.
func (w *walker) access(addr int64, aligned bool, what string) []byte {
	var b []byte
	func() {
		defer func() {
			if r := recover(); r != nil {
				w.bad("%s refers to %#x, where nothing is allocated (%v)", what, addr, r)
			}
		}()
		if aligned {
			b = w.fs.AccessAlignedSpace(addr)
		} else {
			b = w.fs.AccessSpace(addr)
		}
	}()
	if prev, ok := w.seen[addr]; ok {
		w.bad("%s and %s share the space at %#x", what, prev, addr)
	}
	w.seen[addr] = what
	w.spaces = append(w.spaces, space{addr, len(b), aligned, what, len(b)})
	return b
}

// uses notes how much of the space met last is in use.
func (w *walker) uses(n int) { w.spaces[len(w.spaces)-1].need = n }

// fsckRoot is one structure in the file.
type fsckRoot struct {
	ordered bool
	addr    int64
}

func copyFile(dst, src string) error {
	in, err := os.Open(src)
	if err != nil {
		return err
	}
	defer in.Close()
	out, err := os.Create(dst)
	if err != nil {
		return err
	}
	st, err := in.Stat()
	if err != nil {
		return err
	}
	// keep holes: ballast files are sparse
	const seekData, seekHole = 3, 4
	size := st.Size()
	for pos := int64(0); pos < size; {
		d, err := in.Seek(pos, seekData)
		if err != nil {
			break // no more data
		}
		h, err := in.Seek(d, seekHole)
		if err != nil {
			h = size
		}
		in.Seek(d, 0)
		out.Seek(d, 0)
		if _, err := io.CopyN(out, in, h-d); err != nil {
			out.Close()
			return err
		}
		pos = h
	}
	if err := out.Truncate(size); err != nil {
		out.Close()
		return err
	}
	return out.Close()
}

// fsckFile examines a copy of a closed dictionary file.
func fsckFile(path string, ordered bool, ballast int) (*Fsck, error) {
	_, others := ballastOf(ballast)
	_, res, err := fsckRoots(path, []fsckRoot{{ordered, -2}}, others)
	if err != nil {
		return nil, err
	}
	return res[0], nil
}

// fsckRoots examines several structures of one closed file; root address -2
// stands for the primary space.  others are further spaces to free.
func fsckRoots(path string, roots []fsckRoot, others []int64) (remaining int, res []*Fsck, err error) {
	cp := casePath("fsck-copy")
	defer os.Remove(cp)
	if err := copyFile(cp, path); err != nil {
		return 0, nil, hfail(err)
	}
	fs := new(fsm.FileStorage).Init()
	if err := fs.Open(cp, false); err != nil {
		return 0, nil, violf("the closed file does not open: %v", err)
	}
	defer fs.Close()
	w := &walker{fs: fs, seen: map[int64]string{}}
	for _, rt := range roots {
		f := &Fsck{}
		w.f = f
		res = append(res, f)
		addr := rt.addr
		if addr == -2 {
			addr = fs.PrimarySpace()
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if fe, ok := r.(formErr); ok {
						f.FormErr = violf("%s", fe.msg)
						return
					}
					f.FormErr = violf("malformed structure: %v", r)
				}
			}()
			if addr < 0 {
				w.bad("the closed file has no descriptor")
			}
			if rt.ordered {
				w.tree(addr)
			} else {
				w.table(addr)
			}
		}()
	}
	for _, a := range others {
		w.access(a, false, "another space")
	}
	// no two spaces overlap
	sp := append([]space(nil), w.spaces...)
	sort.Slice(sp, func(i, j int) bool { return sp[i].addr < sp[j].addr })
	f0 := res[0]
	for i := 1; i < len(sp); i++ {
		if sp[i-1].addr+int64(sp[i-1].size) > sp[i].addr {
			f0.Overlap = fmt.Sprintf("%s at %#x (%d bytes) overlaps %s at %#x", sp[i-1].what, sp[i-1].addr, sp[i-1].size, sp[i].what, sp[i].addr)
			break
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				f0.LeakErr = violf("freeing the reachable spaces failed: %v", r)
			}
		}()
		for _, s := range w.spaces {
			if s.aligned {
				fs.FreeAlignedSpace(s.addr)
			} else {
				fs.FreeSpace(s.addr)
			}
		}
	}()
	remaining = fs.Stats().AllocatedSpaceSize
	f0.Remaining, f0.Spaces = remaining, w.spaces
	return remaining, res, nil
}

// leakVerdict: all and only the reachable spaces are allocated.
func (f *Fsck) leakVerdict() error {
	if f.FormErr != nil {
		return &Inconclusive{"malformed file: " + f.FormErr.Error()}
	}
	if f.Overlap != "" {
		return violf("two live spaces overlap: %s", f.Overlap)
	}
	if f.LeakErr != nil {
		return f.LeakErr
	}
	if f.Remaining != 0 {
		return violf("a file of %d pairs has allocated space that nothing refers to: after freeing everything reachable %d bytes remain allocated", len(f.Pairs), f.Remaining)
	}
	return nil
}

func i64(b []byte) int64 { return int64(binary.BigEndian.Uint64(b)) }
func i32(b []byte) int   { return int(int32(binary.BigEndian.Uint32(b))) }

func (w *walker) overflow(addr int64, what string) []byte {
	b := w.access(addr, false, what)
	n, i := binary.Uvarint(b)
	if i <= 0 || n > uint64(len(b)-i) {
		w.bad("%s at %#x has a bad length", what, addr)
	}
	w.uses(i + int(n))
	return append([]byte(nil), b[i:i+int(n)]...)
}

func (w *walker) rawKey(b []byte) []byte {
	if len(b) <= inlineKeyMax {
		return append([]byte(nil), b...)
	}
	if len(b) != keyPrefix+8 {
		w.bad("a key takes %d bytes in its page", len(b))
	}
	k := append([]byte(nil), b[:keyPrefix]...)
	rest := w.overflow(i64(b[keyPrefix:]), "a long key")
	return append(k, rest...)
}

func (w *walker) rawValue(b []byte) []byte {
	if len(b) <= inlineValMax {
		return append([]byte(nil), b...)
	}
	if len(b) != valPrefix+8 {
		w.bad("a value takes %d bytes in its page", len(b))
	}
	v := append([]byte(nil), b[:valPrefix]...)
	rest := w.overflow(i64(b[valPrefix:]), "a long value")
	return append(v, rest...)
}

type treeLeaf struct {
	addr, prev, next int64
	first            []byte // first key as stored in the page
}

func (w *walker) tree(infoAddr int64) {
	f := w.f
	b := w.access(infoAddr, false, "the tree descriptor")
	if len(b) < 57 {
		w.bad("the tree descriptor has %d bytes", len(b))
	}
	w.uses(57)
	root, height := i64(b), int(int8(b[8]))
	tailA, headA := i64(b[9:]), i64(b[17:])
	leafC, innerC, recC, payload := i64(b[25:]), i64(b[33:]), i64(b[41:]), i64(b[49:])
	f.Height = height
	if height < 1 {
		w.bad("the tree has height %d", height)
	}
	var leafs []treeLeaf
	w.node(root, 1, height, nil, nil, &leafs)
	n := len(leafs)
	if leafs[0].addr != headA || leafs[n-1].addr != tailA {
		w.bad("the descriptor's first and last leafs (%#x, %#x) are not the tree's (%#x, %#x)", headA, tailA, leafs[0].addr, leafs[n-1].addr)
	}
	for i, l := range leafs {
		if i+1 < n && l.next != leafs[i+1].addr {
			w.bad("leaf %d of %d does not link to its successor (%#x instead of %#x)", i, n, l.next, leafs[i+1].addr)
		}
		if i > 0 && l.prev != leafs[i-1].addr {
			w.bad("leaf %d of %d does not link to its predecessor (%#x instead of %#x)", i, n, l.prev, leafs[i-1].addr)
		}
	}
	for i := 1; i < len(f.Pairs); i++ {
		if bytes.Compare(f.Pairs[i-1][0], f.Pairs[i][0]) >= 0 {
			w.bad("records %d and %d of the tree are out of order: %s, %s", i-1, i, short(f.Pairs[i-1][0]), short(f.Pairs[i][0]))
		}
	}
	pay := 0
	for _, p := range f.Pairs {
		pay += len(p[0]) + len(p[1])
	}
	switch {
	case int(leafC) != len(f.Leafs):
		f.InfoErr = violf("the descriptor counts %d leafs, there are %d", leafC, len(f.Leafs))
	case int(innerC) != len(f.Inners):
		f.InfoErr = violf("the descriptor counts %d inner pages, there are %d", innerC, len(f.Inners))
	case int(recC) != len(f.Pairs):
		f.InfoErr = violf("the descriptor counts %d records, there are %d", recC, len(f.Pairs))
	case int(payload) != pay:
		f.InfoErr = violf("the descriptor counts %d bytes of payload, there are %d", payload, pay)
	}
}

// cmpStored compares a separator (as stored in an inner page) with a raw key;
// its overflow is shared with a record's, so it is read without claiming it.
func (w *walker) sepKey(b []byte) []byte {
	if len(b) <= inlineKeyMax {
		return append([]byte(nil), b...)
	}
	if len(b) != keyPrefix+8 {
		w.bad("a separator takes %d bytes in its page", len(b))
	}
	k := append([]byte(nil), b[:keyPrefix]...)
	addr := i64(b[keyPrefix:])
	var ob []byte
	func() {
		defer func() {
			if r := recover(); r != nil {
				w.bad("a separator refers to a long key at %#x, where nothing is allocated", addr)
			}
		}()
		ob = w.fs.AccessSpace(addr)
	}()
	n, i := binary.Uvarint(ob)
	if i <= 0 || n > uint64(len(ob)-i) {
		w.bad("a separator's long key at %#x has a bad length", addr)
	}
	return append(k, ob[i:i+int(n)]...)
}

func (w *walker) node(addr int64, depth, height int, lo, hi []byte, leafs *[]treeLeaf) {
	f := w.f
	what := "an inner page"
	if depth == height {
		what = "a leaf"
	}
	p := w.access(addr, true, what)
	if len(p) != pageBytes {
		w.bad("%s at %#x has %d bytes", what, addr, len(p))
	}
	if depth == height {
		n := i32(p[16:])
		if n < 0 || leafHead+n*leafRecHead > pageBytes {
			w.bad("a leaf holds %d records", n)
		}
		if n == 0 && height > 1 {
			w.bad("a leaf of a tree of height %d is empty", height)
		}
		*leafs = append(*leafs, treeLeaf{addr: addr, prev: i64(p), next: i64(p[8:])})
		end := leafHead + n*leafRecHead
		used := n * leafRecHead
		for i := 0; i < n; i++ {
			h := p[leafHead+i*leafRecHead:]
			ko, vo := i32(h), i32(h[4:])
			ve := pageBytes
			if i+1 < n {
				ve = i32(p[leafHead+(i+1)*leafRecHead:])
			}
			if ko < end || ko > vo || vo > ve || ve > pageBytes {
				w.bad("record %d of %d of a leaf lies at %d..%d..%d", i, n, ko, vo, ve)
			}
			used += ve - ko
			k, v := w.rawKey(p[ko:vo]), w.rawValue(p[vo:ve])
			if (lo != nil && bytes.Compare(k, lo) < 0) || (hi != nil && bytes.Compare(k, hi) >= 0) {
				w.bad("key %s lies outside its leaf's separators [%s, %s)", short(k), short(lo), short(hi))
			}
			f.Pairs = append(f.Pairs, [2][]byte{k, v})
		}
		f.Leafs = append(f.Leafs, PageInfo{addr, depth, used, n, depth == 1})
		return
	}
	n := i32(p)
	if n < 2 || innerHead+n*innerItemHead > pageBytes {
		w.bad("an inner page at depth %d has %d children", depth, n)
	}
	end := innerHead + n*innerItemHead
	used := n * innerItemHead
	seps := make([][]byte, n)
	childs := make([]int64, n)
	for i := 0; i < n; i++ {
		h := p[innerHead+i*innerItemHead:]
		ko := i32(h)
		ke := pageBytes
		if i+1 < n {
			ke = i32(p[innerHead+(i+1)*innerItemHead:])
		}
		if ko < end || ko > ke || ke > pageBytes {
			w.bad("separator %d of %d of an inner page lies at %d..%d", i, n, ko, ke)
		}
		used += ke - ko
		childs[i] = i64(h[4:])
		if i == 0 {
			seps[0] = lo
			continue
		}
		seps[i] = w.sepKey(p[ko:ke])
		if seps[i] == nil {
			seps[i] = []byte{}
		}
		if i > 1 && bytes.Compare(seps[i-1], seps[i]) >= 0 {
			w.bad("separators %d and %d of an inner page are out of order: %s, %s", i-1, i, short(seps[i-1]), short(seps[i]))
		}
		if (lo != nil && bytes.Compare(seps[i], lo) < 0) || (hi != nil && bytes.Compare(seps[i], hi) >= 0) {
			w.bad("separator %s lies outside its page's bounds [%s, %s)", short(seps[i]), short(lo), short(hi))
		}
	}
	f.Inners = append(f.Inners, PageInfo{addr, depth, used, n, depth == 1})
	for i := 0; i < n; i++ {
		chi := hi
		if i+1 < n {
			chi = seps[i+1]
		}
		w.node(childs[i], depth+1, height, seps[i], chi, leafs)
	}
}

// ---- hash table ----

// pbFields walks the fields of a protobuf message.
func pbFields(b []byte, f func(num int, wt int, v uint64, data []byte) bool) bool {
	for len(b) > 0 {
		tag, i := binary.Uvarint(b)
		if i <= 0 {
			return false
		}
		b = b[i:]
		switch tag & 7 {
		case 0:
			v, i := binary.Uvarint(b)
			if i <= 0 {
				return false
			}
			b = b[i:]
			if !f(int(tag>>3), 0, v, nil) {
				return false
			}
		case 1:
			if len(b) < 8 {
				return false
			}
			if !f(int(tag>>3), 1, binary.LittleEndian.Uint64(b), nil) {
				return false
			}
			b = b[8:]
		case 2:
			n, i := binary.Uvarint(b)
			if i <= 0 || n > uint64(len(b)-i) {
				return false
			}
			if !f(int(tag>>3), 2, 0, b[i:i+int(n)]) {
				return false
			}
			b = b[i+int(n):]
		default:
			return false
		}
	}
	return true
}

func (w *walker) table(infoAddr int64) {
	f := w.f
	b := w.access(infoAddr, false, "the table descriptor")
	n, i := binary.Uvarint(b)
	if i <= 0 || n > uint64(len(b)-i) {
		w.bad("the table descriptor has a bad length")
	}
	w.uses(i + int(n))
	var info [8]int64
	if !pbFields(b[i:i+int(n)], func(num, wt int, v uint64, _ []byte) bool {
		if num < 1 || num > 7 || wt != 0 {
			return false
		}
		info[num] = int64(v)
		return true
	}) {
		w.bad("the table descriptor does not parse")
	}
	dirsAddr, dirs, maxShift, slots, minShift, items, payload := info[1], int(info[2]), int(info[3]), int(info[4]), int(info[5]), info[6], info[7]
	f.Slots, f.SlotDirs = slots, dirs
	arr := w.access(dirsAddr, false, "the directory array")
	if maxShift < 3 || maxShift > 40 || len(arr) < 8<<uint(maxShift) || dirs < 1 || dirs > 1<<uint(maxShift) {
		w.bad("the directory array of 2^%d entries takes %d bytes and holds %d directories", maxShift, len(arr), dirs)
	}
	w.uses(8 << uint(maxShift))
	if slots < 1 || slots > dirs<<dirShift {
		w.bad("%d slots do not fit %d directories", slots, dirs)
	}
	if minShift < 0 || slots < 1<<uint(minShift) || slots >= 2<<uint(minShift) {
		w.bad("%d slots with a minimum of 2^%d", slots, minShift)
	}
	mask := uint64(2)<<uint(minShift) - 1
	pay := 0
	seen := map[string]bool{}
	for d := 0; d < dirs; d++ {
		dir := w.access(i64(arr[8*d:]), false, "a slot directory")
		if len(dir) < 8<<dirShift {
			w.bad("a slot directory takes %d bytes", len(dir))
		}
		w.uses(8 << dirShift)
		for j := 0; j < 1<<dirShift; j++ {
			s := d<<dirShift + j
			if s >= slots {
				break
			}
			a := i64(dir[8*j:])
			if a < 0 {
				continue
			}
			c := w.slot(a, s, slots, mask, uint64(1)<<uint(minShift), seen, &pay)
			if c > f.MaxChain {
				f.MaxChain = c
			}
		}
	}
	switch {
	case int(items) != len(f.Pairs):
		f.InfoErr = violf("the descriptor counts %d items, there are %d", items, len(f.Pairs))
	case int(payload) != pay:
		f.InfoErr = violf("the descriptor counts %d bytes of payload, there are %d", payload, pay)
	}
}

func (w *walker) slot(addr int64, s, slots int, mask, high uint64, seen map[string]bool, pay *int) int {
	b := w.access(addr, false, "a slot")
	n, i := binary.Uvarint(b)
	if i <= 0 || n > uint64(len(b)-i) {
		w.bad("slot %d has a bad length", s)
	}
	w.uses(i + int(n))
	type info struct {
		sum    uint64
		ks, vs int
	}
	var infos []info
	var bin []byte
	if !pbFields(b[i:i+int(n)], func(num, wt int, v uint64, data []byte) bool {
		switch {
		case num == 1 && wt == 2:
			var x info
			if !pbFields(data, func(num, wt int, v uint64, _ []byte) bool {
				switch {
				case num == 1 && wt == 1:
					x.sum = v
				case num == 2 && wt == 0:
					x.ks = int(v)
				case num == 3 && wt == 0:
					x.vs = int(v)
				default:
					return false
				}
				return true
			}) {
				return false
			}
			infos = append(infos, x)
		case num == 2 && wt == 2:
			bin = data
		default:
			return false
		}
		return true
	}) {
		w.bad("slot %d does not parse", s)
	}
	pos := 0
	for j, x := range infos {
		if x.ks < 0 || x.vs < 0 || pos+x.ks+x.vs > len(bin) {
			w.bad("item %d of slot %d takes %d+%d bytes of %d at %d", j, s, x.ks, x.vs, len(bin), pos)
		}
		k := append([]byte(nil), bin[pos:pos+x.ks]...)
		pos += x.ks
		vs := x.vs
		if j == len(infos)-1 {
			// the last value takes the rest; its size is normally left out
			vs = len(bin) - pos
			if x.vs != 0 && x.vs != vs {
				w.bad("the last item of slot %d has value size %d but %d bytes follow", s, x.vs, vs)
			}
		}
		v := append([]byte(nil), bin[pos:pos+vs]...)
		pos += vs
		sum := sum64(k)
		if len(k) > 24 && x.sum != sum {
			w.bad("key %s of slot %d is stored with a wrong hash", short(k), s)
		}
		if len(k) <= 24 && x.sum != 0 && x.sum != sum {
			w.bad("short key %s of slot %d is stored with a wrong hash", short(k), s)
		}
		home := sum & mask
		if home >= uint64(slots) {
			home &^= high
		}
		if home != uint64(s) {
			w.bad("key %s is in slot %d of %d, its hash selects slot %d", short(k), s, slots, home)
		}
		if seen[string(k)] {
			w.bad("key %s is stored twice", short(k))
		}
		seen[string(k)] = true
		*pay += len(k) + len(v)
		w.f.Pairs = append(w.f.Pairs, [2][]byte{k, v})
	}
	return len(infos)
}
