From de597e8339945e40a76da68b730ef04fc7d0f303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:56 +0000
Subject: [PATCH 1/8] fix: judge a shift between leafs by the records it moves

CountRecordsForShiftingToLeft/ToRight checked the resulting loads including
the record they had just refused to move.  A shift could so be accepted that
left the leaf overloaded, and the next insertion overran the page, or that
left the sibling underloaded.
---
 bptree/leaf.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bptree/leaf.go b/bptree/leaf.go
index a0c3bd8..412cbe5 100644
--- a/bptree/leaf.go
+++ b/bptree/leaf.go
@@ -202,13 +202,13 @@ func (lc leafController) CountRecordsForShiftingToLeft(leftSibling leafControlle
 
 	for i := 0; ; i++ {
 		recordSize := recordHeaderSize + len(lc.GetKey(i)) + len(lc.GetValue(i))
-		loadSize1 -= recordSize
-		loadSize2 += recordSize
 
-		if loadSize1 < leafUnderloadThreshold || loadSize2 > leafOverloadThreshold {
+		if loadSize1-recordSize < leafUnderloadThreshold || loadSize2+recordSize > leafOverloadThreshold {
 			break
 		}
 
+		loadSize1 -= recordSize
+		loadSize2 += recordSize
 		recordCount++
 
 		if loadSize1 <= loadSize2 {
@@ -236,13 +236,13 @@ func (lc leafController) CountRecordsForShiftingToRight(rightSibling leafControl
 
 	for i := lc.NumberOfRecords() - 1; ; i-- {
 		recordSize := recordHeaderSize + len(lc.GetKey(i)) + len(lc.GetValue(i))
-		loadSize1 -= recordSize
-		loadSize2 += recordSize
 
-		if loadSize1 < leafUnderloadThreshold || loadSize2 > leafOverloadThreshold {
+		if loadSize1-recordSize < leafUnderloadThreshold || loadSize2+recordSize > leafOverloadThreshold {
 			break
 		}
 
+		loadSize1 -= recordSize
+		loadSize2 += recordSize
 		recordCount++
 
 		if loadSize1 <= loadSize2 {
-- 
2.43.0


From 34dff4758b688d22b8caf84c0ec343c5530702cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:56 +0000
Subject: [PATCH 2/8] fix: count the parent's key when shifting between
 non-leafs

A shift between two non-leafs brings the key that separates them down from
the parent and takes another one up.  CountChildrenForShiftingToLeft/ToRight
left the former out, and judged the result by the child they had just refused
to move, so with long keys a shift could leave a non-leaf overloaded and a
later insertion overran the page (slice bounds out of range, or corruption).
---
 bptree/bptree.go  |  8 +++----
 bptree/nonleaf.go | 54 +++++++++++++++++++++++++----------------------
 2 files changed, 33 insertions(+), 29 deletions(-)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index 014004e..2ac867a 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -494,7 +494,7 @@ func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafRSiblingAddr := nonLeafParentController.GetChildAddr(nonLeafIndex + 1)
 		nonLeafRSiblingController := bpt.getNonLeafController(nonLeafRSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToRight(nonLeafRSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToRight(nonLeafParentController, nonLeafIndex, nonLeafRSiblingController); numberOfChildren >= 1 {
 			m := nonLeafController1.NumberOfChildren() - numberOfChildren
 			nonLeafController1.ShiftToRight(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafRSiblingController)
 
@@ -516,7 +516,7 @@ func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafLSiblingAddr := nonLeafParentController.GetChildAddr(nonLeafIndex - 1)
 		nonLeafLSiblingController := bpt.getNonLeafController(nonLeafLSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToLeft(nonLeafLSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToLeft(nonLeafParentController, nonLeafIndex, nonLeafLSiblingController); numberOfChildren >= 1 {
 			m := nonLeafLSiblingController.NumberOfChildren()
 			nonLeafController1.ShiftToLeft(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafLSiblingController)
 
@@ -661,7 +661,7 @@ func (bpt *BPTree) ensureNotUnderloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafRSiblingAddr = nonLeafParentController.GetChildAddr(nonLeafIndex + 1)
 		nonLeafRSiblingController = bpt.getNonLeafController(nonLeafRSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromRight(nonLeafRSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromRight(nonLeafParentController, nonLeafIndex, nonLeafRSiblingController); numberOfChildren >= 1 {
 			nonLeafController1.UnshiftFromRight(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafRSiblingController)
 			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
 			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
@@ -675,7 +675,7 @@ func (bpt *BPTree) ensureNotUnderloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafLSiblingAddr = nonLeafParentController.GetChildAddr(nonLeafIndex - 1)
 		nonLeafLSiblingController = bpt.getNonLeafController(nonLeafLSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromLeft(nonLeafLSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromLeft(nonLeafParentController, nonLeafIndex, nonLeafLSiblingController); numberOfChildren >= 1 {
 			nonLeafController1.UnshiftFromLeft(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafLSiblingController)
 			// >>> fix record path begin
 			(*recordPath)[i].RecordOrNonLeafChildIndex = numberOfChildren + nonLeafChildIndex
diff --git a/bptree/nonleaf.go b/bptree/nonleaf.go
index f3c0f4d..78618f4 100644
--- a/bptree/nonleaf.go
+++ b/bptree/nonleaf.go
@@ -202,25 +202,28 @@ func (nlc nonLeafController) MergeFromRight(parent nonLeafController, index int,
 	nlc.InsertChildren(nlc.NumberOfChildren(), children)
 }
 
-func (nlc nonLeafController) CountChildrenForShiftingToLeft(leftSibling nonLeafController) int {
-	loadSize1 := nlc.GetLoadSize() - (nonLeafChildHeaderSize + len(nlc.GetKey(0)))
-	loadSize2 := leftSibling.GetLoadSize() + nonLeafChildHeaderSize
+func (nlc nonLeafController) CountChildrenForShiftingToLeft(parent nonLeafController, index int, leftSibling nonLeafController) int {
+	loadSize1 := nlc.GetLoadSize()
+	// the key in the parent comes down as the key of the first child shifted
+	loadSize2 := leftSibling.GetLoadSize() + len(parent.GetKey(index))
 	childCount := 0
 
-	for i := 1; ; i++ {
-		if loadSize1 < nonLeafUnderloadThreshold || loadSize2 > nonLeafOverloadThreshold {
+	for i := 0; ; i++ {
+		// the key of the child following the last one shifted goes up to the parent
+		childSize1 := nonLeafChildHeaderSize + len(nlc.GetKey(i+1))
+		childSize2 := nonLeafChildHeaderSize + len(nlc.GetKey(i))
+
+		if loadSize1-childSize1 < nonLeafUnderloadThreshold || loadSize2+childSize2 > nonLeafOverloadThreshold {
 			break
 		}
 
+		loadSize1 -= childSize1
+		loadSize2 += childSize2
 		childCount++
 
 		if loadSize1 <= loadSize2 {
 			break
 		}
-
-		childSize := nonLeafChildHeaderSize + len(nlc.GetKey(i))
-		loadSize1 -= childSize
-		loadSize2 += childSize
 	}
 
 	if loadSize1 > nonLeafOverloadThreshold || loadSize2 < nonLeafUnderloadThreshold {
@@ -238,28 +241,29 @@ func (nlc nonLeafController) ShiftToLeft(numberOfChildren int, parent nonLeafCon
 	leftSibling.InsertChildren(leftSibling.NumberOfChildren(), children)
 }
 
-func (nlc nonLeafController) CountChildrenForShiftingToRight(rightSibling nonLeafController) int {
-	n := nlc.NumberOfChildren()
-	lastChildSize := nonLeafChildHeaderSize + len(nlc.GetKey(n-1))
-	loadSize1 := nlc.GetLoadSize() - lastChildSize
-	loadSize2 := rightSibling.GetLoadSize() + nonLeafChildHeaderSize
+func (nlc nonLeafController) CountChildrenForShiftingToRight(parent nonLeafController, index int, rightSibling nonLeafController) int {
+	loadSize1 := nlc.GetLoadSize()
+	// the key in the parent comes down as the key of the right sibling's first child
+	loadSize2 := rightSibling.GetLoadSize() + len(parent.GetKey(index+1))
+	childSize2 := nonLeafChildHeaderSize
 	childCount := 0
 
-	for i := n - 2; ; i-- {
-		if loadSize1 < nonLeafUnderloadThreshold || loadSize2 > nonLeafOverloadThreshold {
+	for i := nlc.NumberOfChildren() - 1; ; i-- {
+		childSize1 := nonLeafChildHeaderSize + len(nlc.GetKey(i))
+
+		if loadSize1-childSize1 < nonLeafUnderloadThreshold || loadSize2+childSize2 > nonLeafOverloadThreshold {
 			break
 		}
 
+		loadSize1 -= childSize1
+		loadSize2 += childSize2
+		// the key of the first child shifted goes up to the parent
+		childSize2 = childSize1
 		childCount++
 
 		if loadSize1 <= loadSize2 {
 			break
 		}
-
-		childSize := nonLeafChildHeaderSize + len(nlc.GetKey(i))
-		loadSize1 -= childSize
-		loadSize2 += lastChildSize
-		lastChildSize = childSize
 	}
 
 	if loadSize1 > nonLeafOverloadThreshold || loadSize2 < nonLeafUnderloadThreshold {
@@ -277,16 +281,16 @@ func (nlc nonLeafController) ShiftToRight(numberOfChildren int, parent nonLeafCo
 	rightSibling.InsertChildren(0, children)
 }
 
-func (nlc nonLeafController) CountChildrenForUnshiftingFromLeft(leftSibling nonLeafController) int {
-	return leftSibling.CountChildrenForShiftingToRight(nlc)
+func (nlc nonLeafController) CountChildrenForUnshiftingFromLeft(parent nonLeafController, index int, leftSibling nonLeafController) int {
+	return leftSibling.CountChildrenForShiftingToRight(parent, index-1, nlc)
 }
 
 func (nlc nonLeafController) UnshiftFromLeft(numberOfChildren int, parent nonLeafController, index int, leftSibling nonLeafController) {
 	leftSibling.ShiftToRight(numberOfChildren, parent, index-1, nlc)
 }
 
-func (nlc nonLeafController) CountChildrenForUnshiftingFromRight(rightSibling nonLeafController) int {
-	return rightSibling.CountChildrenForShiftingToLeft(nlc)
+func (nlc nonLeafController) CountChildrenForUnshiftingFromRight(parent nonLeafController, index int, rightSibling nonLeafController) int {
+	return rightSibling.CountChildrenForShiftingToLeft(parent, index+1, nlc)
 }
 
 func (nlc nonLeafController) UnshiftFromRight(numberOfChildren int, parent nonLeafController, index int, rightSibling nonLeafController) {
-- 
2.43.0


From c3ec39fb1bc819f306296e26c69bf4bcbd5b5f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:56 +0000
Subject: [PATCH 3/8] fix: a range from an absent key to itself is empty

search returned the record following the key when minKey and maxKey were equal
and no record with that key existed.
---
 bptree/bptree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index 2ac867a..c778300 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -770,7 +770,7 @@ func (bpt *BPTree) search(minKey []byte, maxKey []byte) (int64, int, int64, int,
 	}
 
 	if d == 0 {
-		return minLeafAddr, minRecordIndex, minLeafAddr, minRecordIndex, true
+		return minLeafAddr, minRecordIndex, minLeafAddr, minRecordIndex, ok3
 	}
 
 	if !(!ok1 && ok3) {
-- 
2.43.0


From cedd9f06bfcb8158c6435978aa03eee54f810b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:56 +0000
Subject: [PATCH 4/8] fix: read the lower bound of a range from the leaf it
 lies in

When the lower bound moved on to the next leaf, its key was still read from
the previous one.  A range lying in the gap between two leafs was then not
recognized as empty, and its iterator ran around the whole tree.
---
 bptree/bptree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index c778300..3afe466 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -765,6 +765,7 @@ func (bpt *BPTree) search(minKey []byte, maxKey []byte) (int64, int, int64, int,
 			}
 
 			minLeafAddr = leafHeader(minLeafController).NextAddr()
+			minLeafController = bpt.getLeafController(minLeafAddr)
 			minRecordIndex = 0
 		}
 	}
-- 
2.43.0


From dc7c0585f077c10cba921ff46fde174a56816dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:56 +0000
Subject: [PATCH 5/8] fix: keep fetched keys and values apart

FetchItem returned slices with capacity reaching into the items that follow
in the cursor: appending to a key or value returned by a scan overwrote the
value of the same item and the items fetched next.
---
 hashmap/hashmap.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hashmap/hashmap.go b/hashmap/hashmap.go
index dd3a259..c1373fa 100644
--- a/hashmap/hashmap.go
+++ b/hashmap/hashmap.go
@@ -191,7 +191,7 @@ func (hm *HashMap) FetchItem(cursor *Cursor) ([]byte, []byte, bool) {
 	if cursor.itemIndex < len(cursor.items) {
 		item := &cursor.items[cursor.itemIndex]
 		cursor.itemIndex++
-		return item.Key, item.Value, true
+		return clipBytes(item.Key), clipBytes(item.Value), true
 	}
 
 	for cursor.slotIndex < hm.slotCount {
@@ -203,7 +203,7 @@ func (hm *HashMap) FetchItem(cursor *Cursor) ([]byte, []byte, bool) {
 		if len(cursor.items) >= 1 {
 			item := &cursor.items[0]
 			cursor.itemIndex = 1
-			return item.Key, item.Value, true
+			return clipBytes(item.Key), clipBytes(item.Value), true
 		}
 	}
 
@@ -691,3 +691,9 @@ func copyBytes(data []byte) []byte {
 	copy(buffer, data)
 	return buffer
 }
+
+// clipBytes leaves no capacity beyond the data, so that appending to it does
+// not overwrite what follows.
+func clipBytes(data []byte) []byte {
+	return data[:len(data):len(data)]
+}
-- 
2.43.0


From 7dc405d37ab0074039d9746a56b5ad4f7a1dd67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:56 +0000
Subject: [PATCH 6/8] fix: free everything when destroying a B+ tree or hash
 map

Destroy freed only the root node of a B+ tree, respectively the first slot
directory of a hash map, and leaked the rest of a non-empty structure.
---
 bptree/bptree.go   | 22 +++++++++++++++++++++-
 hashmap/hashmap.go | 10 ++++++++--
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index 3afe466..e82b06a 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -38,7 +38,7 @@ func (bpt *BPTree) Create() {
 
 // Destroy destroys the B+ tree on the file storage.
 func (bpt *BPTree) Destroy() {
-	bpt.destroyLeaf(bpt.rootAddr)
+	bpt.destroyNode(bpt.rootAddr, 1)
 	*bpt = *new(BPTree).Init(bpt.fileStorage)
 }
 
@@ -809,6 +809,26 @@ func (bpt *BPTree) search(minKey []byte, maxKey []byte) (int64, int, int64, int,
 	return minLeafAddr, minRecordIndex, maxLeafAddr, maxRecordIndex, true
 }
 
+func (bpt *BPTree) destroyNode(nodeAddr int64, nodeDepth int) {
+	// controllers get invalidated whenever space is freed, they are
+	// therefore fetched anew for each record/child.
+	if nodeDepth == bpt.height {
+		for i := bpt.getLeafController(nodeAddr).NumberOfRecords() - 1; i >= 0; i-- {
+			keyFactory{bpt.fileStorage}.DestroyKey(bpt.getLeafController(nodeAddr).GetKey(i))
+			valueFactory{bpt.fileStorage}.DestroyValue(bpt.getLeafController(nodeAddr).GetValue(i))
+		}
+
+		bpt.destroyLeaf(nodeAddr)
+		return
+	}
+
+	for i := bpt.getNonLeafController(nodeAddr).NumberOfChildren() - 1; i >= 0; i-- {
+		bpt.destroyNode(bpt.getNonLeafController(nodeAddr).GetChildAddr(i), nodeDepth+1)
+	}
+
+	bpt.destroyNonLeaf(nodeAddr)
+}
+
 func (bpt *BPTree) createLeaf() (int64, leafController) {
 	leafAddr, leafController := leafFactory{bpt.fileStorage}.CreateLeaf()
 	bpt.leafCount++
diff --git a/hashmap/hashmap.go b/hashmap/hashmap.go
index c1373fa..5db036e 100644
--- a/hashmap/hashmap.go
+++ b/hashmap/hashmap.go
@@ -46,9 +46,15 @@ func (hm *HashMap) Create() {
 
 // Destroy destroys the hash map on the file storage.
 func (hm *HashMap) Destroy() {
-	slotDirAddr := int64(binary.BigEndian.Uint64(hm.fileStorage.AccessSpace(hm.slotDirsAddr)))
+	for i := 0; i < hm.slotCount; i++ {
+		hm.eraseSlot(hm.locateSlotAddr(i).Get(hm.fileStorage))
+	}
+
+	for i := 0; i < hm.slotDirCount; i++ {
+		hm.fileStorage.FreeSpace(hm.locateSlotDirAddr(i).Get(hm.fileStorage))
+	}
+
 	hm.fileStorage.FreeSpace(hm.slotDirsAddr)
-	hm.fileStorage.FreeSpace(slotDirAddr)
 	*hm = *new(HashMap).Init(hm.fileStorage)
 }
 
-- 
2.43.0


From 9dfc6fd594dc21d20c58b2312b5b955001c5ac62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 7/8] fix: read nothing from far beyond the end of an
 overflowing key or value

Iterator.ReadKey and ReadValue added the offset to the length of the buffer,
which overflows for offsets near the largest int and led to a panic.
---
 bptree/key.go   | 2 +-
 bptree/value.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bptree/key.go b/bptree/key.go
index d8f8c1f..54a6148 100644
--- a/bptree/key.go
+++ b/bptree/key.go
@@ -86,7 +86,7 @@ func (kf keyFactory) ReadKey(key key, dataOffset int, buffer []byte) int {
 		return copy(buffer, key[dataOffset:])
 	}
 
-	if dataOffset+len(buffer) <= keyPrefixSize {
+	if dataOffset <= keyPrefixSize-len(buffer) {
 		return copy(buffer, key[dataOffset:])
 	}
 
diff --git a/bptree/value.go b/bptree/value.go
index 373d116..eff82b9 100644
--- a/bptree/value.go
+++ b/bptree/value.go
@@ -49,7 +49,7 @@ func (vf valueFactory) ReadValue(value value, dataOffset int, buffer []byte) int
 		return copy(buffer, value[dataOffset:])
 	}
 
-	if dataOffset+len(buffer) <= valuePrefixSize {
+	if dataOffset <= valuePrefixSize-len(buffer) {
 		return copy(buffer, value[dataOffset:])
 	}
 
-- 
2.43.0


From a0d4f0bab2ae34f7548b1b38c94caa30c0305196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:08 +0000
Subject: [PATCH 8/8] fix: do not take a leaf for an inner page once the height
 has decreased

---
 bptree/bptree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index e82b06a..ba3e319 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -464,6 +464,12 @@ func (bpt *BPTree) ensureNotOverloadLeaf(recordPath *recordPath) {
 }
 
 func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
+	if i == len(*recordPath)-1 {
+		// the height has been decreased in the meantime, what the index
+		// denotes now is the leaf.
+		return
+	}
+
 	nonLeafAddr := (*recordPath)[i].NodeAddr
 	nonLeafController1 := bpt.getNonLeafController(nonLeafAddr)
 
-- 
2.43.0

