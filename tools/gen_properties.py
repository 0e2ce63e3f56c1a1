#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os

def P(id, title, statement, over, text, why, files, mech, observe, state=()):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None))

BPT, LEAF, NONLEAF = "bptree/bptree.go", "bptree/leaf.go", "bptree/nonleaf.go"
KEY, VAL, ITER, LL, FPR = "bptree/key.go", "bptree/value.go", "bptree/iterator.go", "bptree/leaflist.go", "bptree/fprint.go"
OD, D, HM = "ordereddict.go", "dict.go", "hashmap/hashmap.go"
PB = "hashmap/internal/protocol/hashmap.pb.go"

props = [
P("P01", "OrderedDict point operations agree with a map for every history",
  "For every history of Set, SetIfExists, SetIfNotExists, Clear and Test on an OrderedDict, each call returns exactly what the same call on an in-memory map would return: whether the key existed, and (when the return flag asks for it) the replaced, removed or present value, and nothing (an empty slice) when it was not asked for or the key was absent. "
  "No call panics, loses, resurrects or alters any other key, however the tree was shaped by earlier splits, shifts, merges and height changes.",
  ["histories", "inputs"],
  "all finite histories of point operations over all byte-string keys and values, including bulk growth and shrinkage that takes the tree through several levels and back to empty",
  "The runnable tests make three Sets in an example and exercise single node pages; no test that runs here ever splits, merges or rebalances a tree, let alone over arbitrary key lengths and orders.",
  [OD, BPT, LEAF, NONLEAF, KEY, VAL],
  [("descent and binary search", "bptree.go findRecord, leaf.go LocateRecord, nonleaf.go LocateChild"),
   ("rebalancing", "bptree.go ensureNotOverload*/ensureNotUnderload*, syncKey"),
   ("page edits", "leaf.go/nonleaf.go Insert*/Remove*/SetValue/SetKey")],
  ["OrderedDict.Set/SetIfExists/SetIfNotExists/Clear/Test"],
  [("separator keys", "copies of the first key of each subtree but the first", NONLEAF)]),
P("P02", "Dict point operations agree with a map for every history",
  "For every history of Set, SetIfExists, SetIfNotExists, Clear and Test on a Dict, each call returns exactly what the same call on an in-memory map would return: whether the key existed, and (when the return flag asks for it) the replaced, removed or present value, and nothing (an empty slice) when it was not asked for or the key was absent. "
  "No call panics, loses, resurrects or alters any other key, however often the table grew or shrank and even when keys collide in their slot or in their whole hash.",
  ["histories", "inputs"],
  "all finite histories of point operations over all byte-string keys and values, including growth past many slot directories, shrinkage back to one slot, and colliding keys",
  "The runnable tests make a handful of Sets in one slot directory; growth, shrinkage, directory-array resizing and collisions are never exercised.",
  [D, HM, PB],
  [("slot choice", "hashmap.go calculateSlotIndex, calculateLowSlotIndex"),
   ("item match", "hashmap.go matchItem, sumKey"),
   ("linear hashing", "hashmap.go maybeExpand, maybeShrink, splitItems, mergeItems, addSlot, removeSlot, adjustSlotDirs"),
   ("slot encoding", "hashmap.go packSlot/unpackSlot, hashmap.pb.go")],
  ["Dict.Set/SetIfExists/SetIfNotExists/Clear/Test"]),
P("P03", "Range queries return exactly the keys in the range, in order",
  "RangeAsc(min, max) yields every stored key k with min <= k <= max (bytewise, both ends inclusive) exactly once in strictly ascending order with its current value, and RangeDesc(min, max) yields exactly the reverse sequence. "
  "This holds whether or not min and max are themselves stored, for empty, single-key and inverted ranges, and for every tree shape.",
  ["histories", "inputs"],
  "all reachable dictionary contents and tree shapes, and all pairs of bounds: stored, absent, in gaps between keys or between tree pages, outside the contents, equal, inverted, MinKey/MaxKey",
  "The example iterates three keys of one leaf over the full range; absent bounds, gaps at leaf boundaries and multi-leaf trees are never queried.",
  [OD, BPT, ITER, LL, LEAF, KEY],
  [("bound resolution", "bptree.go search"), ("leaf chain", "leaflist.go InsertLeafAfter/RemoveLeaf"), ("stepping", "iterator.go Advance, preAdvance")],
  ["OrderedDict.RangeAsc/RangeDesc", "OrderedDictIterator"]),
P("P04", "A Dict scan visits every pair exactly once and then stays at its end",
  "Starting from a zero cursor, repeated Scan calls on an unmodified Dict return every stored key with its current value exactly once, then report no more pairs, and keep reporting that. "
  "Cursors are independent of one another, of copies made of them and of point queries made between their steps.",
  ["histories", "inputs"],
  "all reachable table contents and sizes (empty, one slot, empty slots, many directories, after shrinking, after reopening), any interleaving of several cursors and Test calls",
  "The example scans three keys once with one cursor; table sizes beyond one directory, empty slots and interleaved cursors are never scanned.",
  [D, HM],
  [("cursor", "hashmap.go FetchItem, Cursor")], ["Dict.Scan"]),
P("P05", "An OrderedDict survives Close and reopen unchanged, at any point",
  "If an OrderedDict is closed and its file reopened at any points of any history, every later operation, range query and statistic about its contents and tree answers as if it had never been closed. "
  "The new file itself may be closed and reopened any number of times, also while empty.",
  ["histories"],
  "all histories, with Close/reopen inserted at any subset of their positions, including right after creation, after emptying, and at every tree height",
  "The runnable tests never reopen a file they wrote.",
  [OD, BPT, LL],
  [("tree descriptor", "bptree.go Store, Load"), ("root of the file", "ordereddict.go OpenOrderedDict, Close")],
  ["OpenOrderedDict, Close and all of OrderedDict"]),
P("P06", "A Dict survives Close and reopen unchanged, at any point",
  "If a Dict is closed and its file reopened at any points of any history, every later operation, scan (as a set of pairs) and statistic about its contents and table answers as if it had never been closed. "
  "The new file itself may be closed and reopened any number of times, also while empty.",
  ["histories"],
  "all histories, with Close/reopen inserted at any subset of their positions, including at table sizes with one, several and more than eight slot directories",
  "The runnable tests never reopen a file they wrote.",
  [D, HM, PB],
  [("table descriptor", "hashmap.go Store, Load"), ("root of the file", "dict.go OpenDict, Close")],
  ["OpenDict, Close and all of Dict"]),
P("P07", "Keys and values of any length and content are stored exactly, in byte order",
  "Any byte string, of any length from 0 up and with any content, works as key and as value in both dictionaries, and is read back byte for byte through every way of reading it: point operations, scans, iterators, and iterator reads of any window (offset, buffer length), which return exactly that slice of the whole. "
  "Keys of an OrderedDict are ordered as byte strings, including keys that agree on arbitrarily long prefixes.",
  ["inputs"],
  "all keys and values; in particular lengths around every internal limit (inline/overflow limits 121-129 and 249-257, length-prefix steps at 2^7 and 2^14, allocation classes, megabytes), long common prefixes, one key a prefix of another; all (offset, buffer size) windows",
  "Unit tests sample a few lengths of single encoded keys and values; comparisons, windows and stores over the length boundaries are not covered.",
  [KEY, VAL, ITER, LEAF, HM],
  [("overflow encoding", "key.go CreateKey/ReadKey*/getKeyOverflow, value.go CreateValue/ReadValue*/getValueOverflow"),
   ("comparison", "key.go CompareKey"), ("short keys", "hashmap.go maxShortKeySize, packSlot/unpackSlot")],
  ["all of OrderedDict, Dict, OrderedDictIterator.ReadKey/ReadValue/GetKeySize/GetValueSize"]),
P("P08", "Reported record counts and payload sizes are exact",
  "After every operation of any history, Stats of an OrderedDict or Dict reports exactly the number of stored keys and exactly the sum of the lengths of all stored keys and values.",
  ["histories", "inputs"],
  "all histories of point operations and reopens, all key and value lengths, for both dictionaries and for the tree and hash map used directly",
  "The runnable tests check no statistic after updates, deletions, overflow-sized data or a reopen.",
  [OD, D, BPT, HM],
  [("counters", "bptree.go recordCount/payloadSize in insertRecord, removeRecord, createRecord, destroyRecord, replaceValue"),
   ("counters", "hashmap.go itemCount/payloadSize in appendItem, removeItem, replaceValue, postAddItem, postDeleteItem")],
  ["OrderedDict.Stats, Dict.Stats"]),
P("P09", "File space is reclaimed: nothing leaks and nothing is freed twice",
  "The space a dictionary has allocated in its file depends only on what it holds now, not on how much was written, replaced and removed before: clearing every key returns the allocated size to that of the same dictionary when new, to within one of the space manager's 1 MiB blocks, and any number of overwrite, clear-and-set-again or close-and-reopen cycles leaves it bounded. "
  "All allocated space belongs to exactly one live record, page, slot, directory or descriptor.",
  ["histories"],
  "all histories including repeated fill/overwrite/clear/reopen cycles, with data below and above the overflow limits, for both dictionaries",
  "No runnable test looks at allocated space at all.",
  [BPT, LEAF, KEY, VAL, HM],
  [("freeing", "bptree.go destroyRecord, replaceValue, destroyLeaf, destroyNonLeaf, decreaseHeight, Load"),
   ("freeing", "hashmap.go restoreSlot, eraseSlot, removeSlotDir, adjustSlotDirs, Load")],
  ["Stats().FSM.AllocatedSpaceSize, and the pages of a closed file"]),
P("P10", "The B+ tree of an OrderedDict stays balanced and reasonably full",
  "After every operation of any history, no page of an OrderedDict but the root is less than a third full, so that its number of pages is bounded by a constant times (the size of its records / page size) plus one and its height is at most logarithmic in that number, and an emptied dictionary is back to one leaf and height one.",
  ["histories"],
  "all histories: ascending, descending, random and clustered insertion and removal, mixtures of tiny and maximal records, growing and shrinking values",
  "No runnable test builds a tree of more than one page.",
  [BPT, LEAF, NONLEAF],
  [("thresholds", "leaf.go leafOverloadThreshold/leafUnderloadThreshold, nonleaf.go nonLeafOverloadThreshold/nonLeafUnderloadThreshold"),
   ("rebalancing", "bptree.go ensureNotOverload*/ensureNotUnderload*, increaseHeight, decreaseHeight; Count*For*")],
  ["OrderedDict.Stats: BPTreeHeight, NumberOfBPTreeLeafs, NumberOfBPTreeNonLeafs"]),
P("P11", "The hash table of a Dict keeps its load factor within bounds both ways",
  "After every operation of any history, a Dict has at most 1.618... keys per slot and, unless it has a single slot, at least half that, and the number of slot directories fits its number of slots (enough to hold them, at most one spare). "
  "An emptied Dict is back to one slot in one directory.",
  ["histories"],
  "all histories growing and shrinking the table across power-of-two, directory and directory-array boundaries, and reopening it in between",
  "No runnable test holds more than a few keys.",
  [HM, D],
  [("resizing", "hashmap.go maybeExpand, maybeShrink, addSlot, removeSlot, addSlotDir, removeSlotDir")],
  ["Dict.Stats: NumberOfHashSlots, NumberOfHashSlotDirs, NumberOfHashItems"]),
P("P12", "Every file written is a well-formed image of its contents",
  "After any history, a closed file read by an independent reader of its format holds a well-formed structure with exactly the stored pairs: a tree whose leaves are all at one depth and chained both ways in key order, with sorted keys and separators that bound their subtrees; or a table with every key once, in the slot its hash selects, and consistent size fields.",
  ["histories"],
  "all histories of point operations and reopens, for both dictionaries",
  "The tests look at single pages in isolation, never at a whole file.",
  [BPT, LEAF, NONLEAF, LL, KEY, VAL, HM, PB],
  [("separator upkeep", "bptree.go syncKey; nonleaf.go Split/Merge*/Shift*"), ("leaf chain", "leaflist.go"), ("slot placement", "hashmap.go splitItems, calculateSlotIndex")],
  ["the closed file"]),
P("P13", "Files stay compatible with the pinned version, both ways",
  "A file written by the pinned version of the library (that commit with the repairs of its defects) is read, and can be further modified, by the current one with the same contents, and a file written by the current version is read and can be further modified by the pinned one with the same contents.",
  ["histories", "programs"],
  "all histories split at any point into a part run by one version and a part run by the other, for both dictionaries, at all sizes and key and value lengths",
  "The tests hold no file written by an earlier build.",
  [BPT, LEAF, NONLEAF, LL, KEY, VAL, HM, PB],
  [("formats", "bptree.go bpTreeInfo, leaf.go/nonleaf.go headers, key.go/value.go overflow, hashmap.proto, hashmap.go slot and directory layout, hash function and slot addressing")],
  ["OpenOrderedDict/OpenDict on files of another version"]),
P("P14", "Arguments and results never share memory with the dictionary",
  "The library neither modifies nor keeps the key and value slices it is given, and what it returns is the caller's own: overwriting or appending to any argument after a call, or to any returned key or value at any time, changes neither the dictionary's contents nor any other returned slice, and returned slices never change later. (Copies made of one DictCursor may share the pairs they already hold.)",
  ["inputs", "histories"],
  "all operations, scans and iterator reads, all key and value lengths, with the caller scribbling over and appending to every slice it passed or received, and later operations overwriting the same records",
  "No test modifies a slice after passing or receiving it.",
  [KEY, VAL, BPT, HM, OD, D],
  [("copies out", "key.go/value.go ReadKeyAll/ReadValueAll, hashmap.go getValue/replaceValue/removeItem/FetchItem copyBytes"),
   ("copies in", "leaf.go doInsertRecords/doSetValue, hashmap.go packSlot")],
  ["every method taking or returning byte slices"]),
P("P15", "Queries and failed conditional operations change nothing",
  "Test, SetIfExists on an absent key, SetIfNotExists on a present key, Clear of an absent key, RangeAsc/RangeDesc and their iterators, Scan, and Stats leave the contents, every statistic and the allocated space of a dictionary exactly as they were.",
  ["histories", "inputs"],
  "all such calls in all reachable states of both dictionaries, for all keys, values and return flags",
  "Tests do not compare state around read-only or failing calls.",
  [BPT, HM, OD, D],
  [("early returns", "bptree.go AddRecord/UpdateRecord/DeleteRecord/HasRecord/search, hashmap.go AddItem/UpdateItem/DeleteItem/HasItem/FetchItem")],
  ["Stats (including FSM), full contents, before and after"]),
P("P16", "Opening handles missing, existing and foreign files as documented",
  "Opening a missing file fails without creating it unless creation is asked for, in which case the result is an empty dictionary; opening an existing dictionary file gives its contents whether or not creation is asked for; opening something that is not such a file (a directory, a file too short, or one without the format's signature) returns an error, no dictionary, and leaves it untouched. "
  "A file reads the same after being copied or renamed while closed.",
  ["inputs", "configurations"],
  "all combinations of create flag, kind of dictionary and state of the path: missing, missing parent, directory, empty, short, random content, damaged signature, valid file, copy of a valid file",
  "The runnable tests open one fresh temporary file with creation on.",
  [OD, D],
  [("opening", "ordereddict.go OpenOrderedDict, dict.go OpenDict")],
  ["OpenOrderedDict, OpenDict and the file system"]),
P("P17", "Structures never interfere, in one file or in several",
  "Any number of B+ trees and hash maps created on one file storage, and any number of dictionaries open on different files at once, behave each as if it were alone under any interleaving of operations. "
  "Storing a structure and loading it from the returned address gives the same structure back, at any time and independently of the others.",
  ["histories", "schedules"],
  "all interleavings of operations, store/load and destroy on several structures of both kinds in one file storage and in several files",
  "Each test uses one structure on one file.",
  [BPT, HM, LEAF, KEY, VAL],
  [("instance state", "bptree.go BPTree, hashmap.go HashMap"), ("store and load", "bptree.go/hashmap.go Store, Load")],
  ["bptree.BPTree and hashmap.HashMap on a shared fsm.FileStorage; several OrderedDict and Dict"]),
P("P18", "MinKey and MaxKey always denote the first and last key",
  "On a non-empty OrderedDict, MinKey and MaxKey passed as a range bound or as the key of Test, SetIfExists, SetIfNotExists, Set or Clear act exactly as the smallest and the largest stored key would; on an empty one the ranges are empty and Test, SetIfExists and Clear find nothing. "
  "An ordinary key with the same bytes as MinKey or MaxKey is an ordinary key.",
  ["histories", "inputs"],
  "all reachable contents, all combinations of sentinels and ordinary keys as bounds, and stored keys that spell the sentinels' bytes",
  "The examples use the sentinels only as the outer bounds of one forward range.",
  [KEY, BPT, LEAF, NONLEAF, OD],
  [("identity of sentinels", "key.go isMinKey/isMaxKey"), ("use", "leaf.go LocateRecord, nonleaf.go LocateChild, bptree.go search")],
  ["OrderedDict methods given plainkv.MinKey/MaxKey"]),
P("P19", "Iterators follow their protocol",
  "An iterator over n pairs allows exactly n-1 Advance calls to a further pair; after the last pair, and always for an empty range, IsAtEnd is true, every read returns an error and no data, and Advance does nothing; before that, reads succeed, agree with each other and are repeatable. "
  "Advance returns the iterator itself, and iterators on the same dictionary do not disturb one another.",
  ["histories", "inputs"],
  "all ranges in both directions on all reachable trees, all interleavings of calls on several iterators",
  "The example runs one iterator in the one idiomatic order of calls.",
  [ITER, KEY, VAL],
  [("end handling", "iterator.go preAdvance, init, errEndOfIteration"), ("reads", "iterator.go Read*/Get*")],
  ["OrderedDictIterator"]),
P("P20", "The textual dump of a B+ tree shows every record, in order",
  "Fprint writes every record of the tree exactly once, as quoted key and value, in ascending key order, with inner-node keys that bound the records after them and one line drawing that joins up from line to line and whose nesting equals the tree's height; it changes nothing, and it returns the writer's error, without writing on, as soon as the writer fails.",
  ["histories", "fault_sequences"],
  "all reachable trees, all keys and values, and a writer failing at any write",
  "The runnable tests never call Fprint on a tree.",
  [FPR, BPT],
  [("dump", "fprint.go doFprint")], ["bptree.BPTree.Fprint"]),
P("P21", "Destroying a tree or hash map gives all its space back",
  "Destroying a B+ tree or hash map, empty or not, frees all and only the space it occupied in its file storage, after which a new one can be created there; any number of create/use/destroy and store/load cycles leaves the allocated space where it was and other structures intact.",
  ["histories"],
  "all create/use/destroy/store/load histories with contents from none to several levels or directories, alone and beside other structures",
  "The runnable tests never destroy a structure.",
  [BPT, HM],
  [("destruction", "bptree.go Destroy, hashmap.go Destroy"), ("creation", "bptree.go Create, hashmap.go Create")],
  ["fsm.FileStorage.Stats().AllocatedSpaceSize around Create/Destroy"]),
P("P22", "A Dict may be modified while it is being scanned",
  "A scan interleaved with other operations always ends, never panics, and returns only pairs that were stored at some moment since it began. "
  "If the interleaved operations only overwrite values of present keys (or change nothing), it still returns every key exactly once.",
  ["histories", "schedules"],
  "all interleavings of scan steps with updates, insertions and removals, including ones that grow or shrink the table under the cursor",
  "The example never writes during a scan.",
  [HM, D],
  [("cursor snapshot", "hashmap.go FetchItem (copied slot), splitItems, removeSlot")],
  ["Dict.Scan between other calls"]),
P("P23", "Different dictionaries may be used from different goroutines at once",
  "Goroutines that each use a dictionary (or B+ tree or hash map on a file storage) of their own, on different files, need no synchronisation, from opening to Close: each gets exactly the results, contents and statistics it would get alone, and no memory is shared between them.",
  ["schedules", "histories"],
  "all histories of two or more dictionaries of any kind and all ways in which their goroutines may run",
  "No test starts a goroutine, so package-level state that only one dictionary at a time may use would go unnoticed.",
  [BPT, HM, LEAF, KEY, VAL, OD, D],
  [("instance state", "bptree.go BPTree, hashmap.go HashMap"), ("scratch buffers", "key.go, value.go, hashmap.go sumKey/packSlot/storeSlot")],
  ["OrderedDict and Dict used from several goroutines"]),
P("P24", "Close and failed openings give back every file descriptor and mapping",
  "An open dictionary holds one descriptor and the mapping of its file and nothing else of the process; Close returns no error and gives them back, as does every opening that fails before it returns, so that any number of openings and closings leaves no open file, mapping or goroutine behind and a closed file can be opened again, renamed or removed at once.",
  ["histories", "fault_sequences"],
  "all histories of openings, operations and closings, of several dictionaries, and openings of paths in any state",
  "The examples open and close one file and look at none of the process's resources.",
  [OD, D],
  [("opening and closing", "ordereddict.go and dict.go Open..., Close")],
  ["OpenOrderedDict, OpenDict, Close"]),
P("P25", "Allocated space stays in proportion to what is stored",
  "After any history, every page, overflow area, slot, directory, array and descriptor of a file takes at most about twice the space its contents need, and all together a small multiple of the keys and values stored (plus a constant); in particular space that large keys, values or counts once needed is not kept by what replaced them.",
  ["histories", "inputs"],
  "all histories that grow, shrink, replace and clear, with keys and values of all sizes",
  "Unit tests look at no allocation sizes.",
  [BPT, LEAF, NONLEAF, KEY, VAL, HM],
  [("allocations", "key.go/value.go allocate...Overflow, hashmap.go storeSlot/addSlotDir/adjustSlotDirs, leaf.go and nonleaf.go factories"),
   ("replacement", "value.go DestroyValue/CreateValue, hashmap.go restoreSlot")],
  ["file size and fsm statistics of OrderedDict and Dict"]),
P("P26", "A single operation changes only a small part of the file",
  "Besides the space of the key and value involved, an operation on an OrderedDict changes at most a few pages for each level of its tree, and one on a Dict at most the few slots concerned, whatever the number of keys: growth and shrinkage are incremental, and no operation rewrites the file.",
  ["histories"],
  "all operations on all reachable contents, in particular those that split or join pages, add or remove slots and directories, or change the tree's height",
  "Unit tests check results, not what it takes to get them.",
  [BPT, HM],
  [("rebalancing", "bptree.go ensureNotOverload*/ensureNotUnderload*, syncKey"), ("incremental growth", "hashmap.go maybeExpand, maybeShrink, addSlotDir, adjustSlotDirs")],
  ["Set, SetIfExists, SetIfNotExists, Clear of OrderedDict and Dict"]),
P("P27", "Queries of one dictionary may run in several goroutines at once",
  "As long as nothing modifies the dictionary, any number of goroutines may query it (or the B+ tree or hash map) at the same time without synchronisation: Test, RangeAsc and RangeDesc with an iterator each, Scan with a cursor each, Stats and Fprint all return what they return alone, and none of them writes memory that another uses, be it the process's or the file's.",
  ["schedules", "histories"],
  "all contents and all ways in which the goroutines' queries may overlap",
  "No test starts a goroutine.",
  [BPT, HM, LEAF, KEY, VAL, OD, D],
  [("queries", "bptree.go HasRecord/findRecord/search, iterator.go, fprint.go, hashmap.go HasItem/locateItem/FetchItem")],
  ["Test, RangeAsc, RangeDesc, Iterator, Scan, Stats, Fprint from several goroutines"]),
P("P28", "A query's work is bounded by its result and the tree's height",
  "Whatever the number of keys, looking a key up (Test, or a conditional operation that then does nothing), opening a range, one step of an iterator or a scan, and Stats touch only a few pages of the file for each level of the tree, or the slots concerned, besides those of the keys and values they compare or return, and take memory in proportion to those; reading a window of a large key or value, or only asking for its size or presence, does not read or copy the rest.",
  ["histories", "inputs"],
  "all queries on all reachable contents, from empty to very large, with keys and values of all sizes",
  "Unit tests check results, not what it takes to get them.",
  [BPT, LEAF, NONLEAF, KEY, VAL, "bptree/iterator.go", HM],
  [("descent", "bptree.go findRecord, search; leaf.go and nonleaf.go Locate..."), ("partial reads", "key.go/value.go ReadKey, ReadValue, GetRawKeySize, GetRawValueSize"), ("scan steps", "hashmap.go FetchItem")],
  ["Test, RangeAsc, RangeDesc, Iterator, Scan, Stats, failed SetIfExists/SetIfNotExists/Clear"]),
]

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(props), "properties")
