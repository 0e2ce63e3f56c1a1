package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/roy2220/fsm"
	"github.com/roy2220/plainkv"
	"github.com/roy2220/plainkv/bptree"
	"github.com/roy2220/plainkv/hashmap"
	ref "verifharness/ref"
)

// KV is what both dictionaries offer.
type KV interface {
	Set(k, v []byte, ret bool) []byte
	SetIfExists(k, v []byte, ret bool) ([]byte, bool)
	SetIfNotExists(k, v []byte, ret bool) ([]byte, bool)
	Clear(k []byte, ret bool) ([]byte, bool)
	Test(k []byte, ret bool) ([]byte, bool)
}

// Kinds of store.
const (
	kOD   = iota // plainkv.OrderedDict
	kDict        // plainkv.Dict
	kBPT         // bptree.BPTree on an own FileStorage
	kHM          // hashmap.HashMap on an own FileStorage
)

var kindNames = []string{"OrderedDict", "Dict", "BPTree", "HashMap"}

// bptKV and hmKV give the bare structures the dictionary interface.
// bptKV and hmKV also tell whether the last Set added its key.
type bptKV struct {
	*bptree.BPTree
	h *Handle
}

func (b bptKV) Set(k, v []byte, ret bool) []byte {
	old, added := b.AddOrUpdateRecord(k, v, ret)
	b.h.added = added
	return old
}
func (b bptKV) SetIfExists(k, v []byte, ret bool) ([]byte, bool) { return b.UpdateRecord(k, v, ret) }
func (b bptKV) SetIfNotExists(k, v []byte, ret bool) ([]byte, bool) {
	return b.AddRecord(k, v, ret)
}
func (b bptKV) Clear(k []byte, ret bool) ([]byte, bool) { return b.DeleteRecord(k, ret) }
func (b bptKV) Test(k []byte, ret bool) ([]byte, bool)  { return b.HasRecord(k, ret) }
func (b bptKV) RangeAsc(a, c []byte) bptree.Iterator    { return b.SearchForward(a, c) }
func (b bptKV) RangeDesc(a, c []byte) bptree.Iterator   { return b.SearchBackward(a, c) }

type hmKV struct {
	*hashmap.HashMap
	h *Handle
}

func (b hmKV) Set(k, v []byte, ret bool) []byte {
	old, added := b.AddOrUpdateItem(k, v, ret)
	b.h.added = added
	return old
}
func (b hmKV) SetIfExists(k, v []byte, ret bool) ([]byte, bool)    { return b.UpdateItem(k, v, ret) }
func (b hmKV) SetIfNotExists(k, v []byte, ret bool) ([]byte, bool) { return b.AddItem(k, v, ret) }
func (b hmKV) Clear(k []byte, ret bool) ([]byte, bool)             { return b.DeleteItem(k, ret) }
func (b hmKV) Test(k []byte, ret bool) ([]byte, bool)              { return b.HasItem(k, ret) }
func (b hmKV) Scan(c *hashmap.Cursor) ([]byte, []byte, bool)       { return b.FetchItem(c) }

type ranger interface {
	RangeAsc(min, max []byte) bptree.Iterator
	RangeDesc(min, max []byte) bptree.Iterator
}
type scanner interface {
	Scan(c *hashmap.Cursor) ([]byte, []byte, bool)
}

// Stats is the union of the statistics of both kinds.
type Stats struct {
	Records, Payload        int
	Height, Leafs, NonLeafs int
	Slots, SlotDirs         int
	Allocated               int
}

// Handle is an open store of any kind.
type Handle struct {
	kind int
	path string
	od   *plainkv.OrderedDict
	d    *plainkv.Dict
	fs   *fsm.FileStorage
	bt   *bptree.BPTree
	hm   *hashmap.HashMap
	open bool

	// ref: the dictionary is run by the reference version (kOD, kDict only)
	ref bool
	rod *ref.OrderedDict
	rd  *ref.Dict

	// shared: fs belongs to several structures; a dormant one is stored
	shared  bool
	dormant bool
	added   bool
	addr    int64
}

func tracked(h *Handle) *Handle { live = append(live, h); return h }

// live lists the handles opened by the running case so that a failing case
// can release them.
var live []*Handle

func closeLive() {
	for _, h := range live {
		h.Abandon()
	}
	live = live[:0]
	for _, s := range liveShared {
		if s.open {
			s.open = false
			func() {
				defer func() { recover() }()
				s.fs.Close()
			}()
		}
	}
	liveShared = liveShared[:0]
}

// makeBallast creates a file in which n bytes (a power of two) are already
// allocated, so that whatever is created next gets large file addresses.
func makeBallast(path string, n int) error {
	var fs fsm.FileStorage
	fs.Init()
	if err := fs.Open(path, true); err != nil {
		return err
	}
	fs.AllocateSpace(n)
	return fs.Close()
}

func OpenHandle(kind int, path string) (*Handle, error) {
	h := tracked(&Handle{kind: kind, path: path})
	return h, h.doOpen(true)
}

// OpenBallast opens a new store in a file whose first n bytes are taken.
func OpenBallast(kind int, path string, ballast int) (*Handle, error) {
	if sizes, _ := ballastOf(ballast); sizes != nil {
		var fs fsm.FileStorage
		fs.Init()
		if err := fs.Open(path, true); err != nil {
			return nil, err
		}
		for _, n := range sizes {
			fs.AllocateSpace(n)
		}
		var addr int64
		if kind == kOD || kind == kBPT {
			bt := new(bptree.BPTree).Init(&fs)
			bt.Create()
			addr = bt.Store()
		} else {
			hm := new(hashmap.HashMap).Init(&fs)
			hm.Create()
			addr = hm.Store()
		}
		fs.SetPrimarySpace(addr)
		if holeAtZero(ballast) {
			fs.FreeSpace(0)
		}
		if err := fs.Close(); err != nil {
			return nil, err
		}
	}
	return OpenHandle(kind, path)
}

func (h *Handle) doOpen(create bool) (err error) {
	if h.ref {
		if h.kind == kOD {
			h.rod, err = ref.OpenOrderedDict(h.path, create)
		} else {
			h.rd, err = ref.OpenDict(h.path, create)
		}
		h.open = err == nil
		return err
	}
	switch h.kind {
	case kOD:
		h.od, err = plainkv.OpenOrderedDict(h.path, create)
	case kDict:
		h.d, err = plainkv.OpenDict(h.path, create)
	default:
		h.fs = new(fsm.FileStorage).Init()
		if err = h.fs.Open(h.path, create); err != nil {
			return err
		}
		a := h.fs.PrimarySpace()
		if h.kind == kBPT {
			h.bt = new(bptree.BPTree).Init(h.fs)
			if a < 0 {
				h.bt.Create()
			} else {
				h.bt.Load(a)
			}
		} else {
			h.hm = new(hashmap.HashMap).Init(h.fs)
			if a < 0 {
				h.hm.Create()
			} else {
				h.hm.Load(a)
			}
		}
	}
	h.open = err == nil
	return err
}

func (h *Handle) KV() KV {
	if h.ref {
		if h.kind == kOD {
			return h.rod
		}
		return h.rd
	}
	switch h.kind {
	case kOD:
		return h.od
	case kDict:
		return h.d
	case kBPT:
		return bptKV{h.bt, h}
	}
	return hmKV{h.hm, h}
}

func (h *Handle) Ordered() bool { return h.kind == kOD || h.kind == kBPT }

func (h *Handle) Ranger() ranger {
	if h.kind == kOD {
		return h.od
	}
	return bptKV{h.bt, h}
}

func (h *Handle) Scanner() scanner {
	if h.kind == kDict {
		return h.d
	}
	return hmKV{h.hm, h}
}

func (h *Handle) Close() (err error) {
	h.open = false
	if h.ref {
		if h.kind == kOD {
			return h.rod.Close()
		}
		return h.rd.Close()
	}
	switch h.kind {
	case kOD:
		return h.od.Close()
	case kDict:
		return h.d.Close()
	case kBPT:
		h.fs.SetPrimarySpace(h.bt.Store())
	case kHM:
		h.fs.SetPrimarySpace(h.hm.Store())
	}
	return h.fs.Close()
}

// Abandon releases what it can of a handle whose case failed.
func (h *Handle) Abandon() {
	if !h.open {
		return
	}
	func() {
		defer func() { recover() }()
		h.Close()
	}()
	h.open = false
}

func (h *Handle) Reopen() error {
	if err := h.Close(); err != nil {
		return fmt.Errorf("Close: %v", err)
	}
	if err := h.doOpen(false); err != nil {
		return fmt.Errorf("reopen: %v", err)
	}
	return nil
}

func (h *Handle) Stats() Stats {
	if h.ref {
		if h.kind == kOD {
			s := h.rod.Stats()
			return Stats{Records: s.NumberOfBPTreeRecords, Payload: s.PayloadSize, Height: s.BPTreeHeight,
				Leafs: s.NumberOfBPTreeLeafs, NonLeafs: s.NumberOfBPTreeNonLeafs, Allocated: s.FSM.AllocatedSpaceSize}
		}
		s := h.rd.Stats()
		return Stats{Records: s.NumberOfHashItems, Payload: s.PayloadSize, Slots: s.NumberOfHashSlots,
			SlotDirs: s.NumberOfHashSlotDirs, Allocated: s.FSM.AllocatedSpaceSize}
	}
	switch h.kind {
	case kOD:
		s := h.od.Stats()
		return Stats{Records: s.NumberOfBPTreeRecords, Payload: s.PayloadSize, Height: s.BPTreeHeight,
			Leafs: s.NumberOfBPTreeLeafs, NonLeafs: s.NumberOfBPTreeNonLeafs, Allocated: s.FSM.AllocatedSpaceSize}
	case kDict:
		s := h.d.Stats()
		return Stats{Records: s.NumberOfHashItems, Payload: s.PayloadSize, Slots: s.NumberOfHashSlots,
			SlotDirs: s.NumberOfHashSlotDirs, Allocated: s.FSM.AllocatedSpaceSize}
	case kBPT:
		return Stats{Records: h.bt.NumberOfRecords(), Payload: h.bt.PayloadSize(), Height: h.bt.Height(),
			Leafs: h.bt.NumberOfLeafs(), NonLeafs: h.bt.NumberOfNonLeafs(), Allocated: h.fs.Stats().AllocatedSpaceSize}
	}
	return Stats{Records: h.hm.NumberOfItems(), Payload: h.hm.PayloadSize(), Slots: h.hm.NumberOfSlots(),
		SlotDirs: h.hm.NumberOfSlotDirs(), Allocated: h.fs.Stats().AllocatedSpaceSize}
}

// Dump reads the whole contents through the iteration API.
func (h *Handle) Dump(limit int) ([][2][]byte, error) {
	var out [][2][]byte
	if h.ref && h.kind == kOD {
		for it := h.rod.RangeAsc(ref.MinKey, ref.MaxKey); !it.IsAtEnd(); it.Advance() {
			k, v, err := it.ReadRecordAll()
			if err != nil {
				return nil, fmt.Errorf("iterator: %v", err)
			}
			if out = append(out, [2][]byte{k, v}); len(out) > limit {
				return nil, fmt.Errorf("iteration yields more than the %d stored pairs", limit)
			}
		}
		return out, nil
	}
	if h.ref {
		var c ref.DictCursor
		for {
			k, v, ok := h.rd.Scan(&c)
			if !ok {
				return out, nil
			}
			if out = append(out, [2][]byte{k, v}); len(out) > limit {
				return nil, fmt.Errorf("scan yields more than the %d stored pairs", limit)
			}
		}
	}
	if h.Ordered() {
		for it := h.Ranger().RangeAsc(plainkv.MinKey, plainkv.MaxKey); !it.IsAtEnd(); it.Advance() {
			k, v, err := it.ReadRecordAll()
			if err != nil {
				return nil, fmt.Errorf("iterator: %v", err)
			}
			if out = append(out, [2][]byte{k, v}); len(out) > limit {
				return nil, fmt.Errorf("iteration yields more than the %d stored pairs", limit)
			}
		}
		return out, nil
	}
	var c hashmap.Cursor
	s := h.Scanner()
	for {
		k, v, ok := s.Scan(&c)
		if !ok {
			return out, nil
		}
		if out = append(out, [2][]byte{k, v}); len(out) > limit {
			return nil, fmt.Errorf("scan yields more than the %d stored pairs", limit)
		}
	}
}

// scratch is the directory of the running worker; every file of a case lives
// in it and is removed after the case.
var scratch string

func casePath(name string) string { return filepath.Join(scratch, name) }

func cleanScratch() {
	ents, _ := os.ReadDir(scratch)
	for _, e := range ents {
		if e.Name() == "current.json" {
			continue
		}
		os.RemoveAll(filepath.Join(scratch, e.Name()))
	}
}
