package bptree

// The harness looks at the pages of a tree through this file, to choose keys
// that make pages split, merge or shift at the places it wants.

// Thresholds of the pages.
const (
	LeafOver     = leafOverloadThreshold
	LeafUnder    = leafUnderloadThreshold
	NonLeafOver  = nonLeafOverloadThreshold
	NonLeafUnder = nonLeafUnderloadThreshold
	MaxKeySize   = maxKeySize
	MaxValueSize = maxValueSize
)

// Page is a page of the tree.
type Page struct {
	t     *BPTree
	addr  int64
	depth int
}

// Root returns the root page.
func (bpt *BPTree) Root() Page { return Page{bpt, bpt.rootAddr, 1} }

// Leaf tells whether the page is a leaf.
func (p Page) Leaf() bool { return p.depth == p.t.height }

// Addr returns the address of the page.
func (p Page) Addr() int64 { return p.addr }

// N returns the number of records or children.
func (p Page) N() int {
	if p.Leaf() {
		return p.t.getLeafController(p.addr).NumberOfRecords()
	}
	return p.t.getNonLeafController(p.addr).NumberOfChildren()
}

// Load returns the number of bytes used.
func (p Page) Load() int {
	if p.Leaf() {
		return p.t.getLeafController(p.addr).GetLoadSize()
	}
	return p.t.getNonLeafController(p.addr).GetLoadSize()
}

// Child returns the i-th child.
func (p Page) Child(i int) Page {
	return Page{p.t, p.t.getNonLeafController(p.addr).GetChildAddr(i), p.depth + 1}
}

// Key returns the key of the i-th record (a leaf) or child (an inner page).
func (p Page) Key(i int) []byte {
	return keyFactory{p.t.fileStorage}.ReadKeyAll(p.inlineKey(i))
}

func (p Page) inlineKey(i int) key {
	if p.Leaf() {
		return p.t.getLeafController(p.addr).GetKey(i)
	}
	return p.t.getNonLeafController(p.addr).GetKey(i)
}

// KeySize returns the bytes the key of the i-th record or child takes.
func (p Page) KeySize(i int) int { return len(p.inlineKey(i)) }

// ValueSize returns the bytes the value of the i-th record takes.
func (p Page) ValueSize(i int) int { return len(p.t.getLeafController(p.addr).GetValue(i)) }

// RecordSize returns the bytes the i-th record takes.
func (p Page) RecordSize(i int) int { return recordHeaderSize + p.KeySize(i) + p.ValueSize(i) }
