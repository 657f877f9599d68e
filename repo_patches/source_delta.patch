From 4c93567fa119d67e319c56e38f3ae9052e417ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 01/42] fix: upsert folds duplicates of one call over the right
 rows and keeps the stored row for index maintenance

---
 table.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/table.go b/table.go
index 2a25b0a..3a08fa2 100644
--- a/table.go
+++ b/table.go
@@ -729,9 +729,8 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 
 			// apply conficts recursively if duplicate exist
 			for i < len(keys)-1 && t.keyDuplicate(i+1, keys) {
-				oldTr = tr
 				i++
-				tr = onConflict(oldTr, trs[i])
+				tr = onConflict(tr, trs[keyOrder[i]])
 				continue
 			}
 
-- 
2.43.0


From 44c154de91160f306b67f89c95b25da607e55acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 02/42] fix: keep argument order of equal keys when sorting the
 rows of a call

---
 table.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 3a08fa2..a2436e6 100644
--- a/table.go
+++ b/table.go
@@ -1201,7 +1201,11 @@ func (t *_table[T]) sortKeys(keys [][]byte) []int {
 			keyOrder[i], keyOrder[j] = keyOrder[j], keyOrder[i]
 		},
 		LessFn: func(i, j int) bool {
-			return bytes.Compare(keys[i], keys[j]) < 0
+			if c := bytes.Compare(keys[i], keys[j]); c != 0 {
+				return c < 0
+			}
+			// keep the order of the arguments for equal keys
+			return keyOrder[i] < keyOrder[j]
 		},
 	})
 	return keyOrder
-- 
2.43.0


From ae61c208827b8bd0e7f9b5b97daad7874ff6b693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 03/42] fix: decode the old row of update and upsert into a
 fresh object

---
 table.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/table.go b/table.go
index a2436e6..e44db0d 100644
--- a/table.go
+++ b/table.go
@@ -494,9 +494,6 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 		serialize = sw.SerializeFuncWithBuffer(valueBuffer)
 	}
 
-	// reusable object
-	var oldTr T
-
 	err := batched[T](trs, persistentBatchSize, func(trs []T) error {
 		// keys
 		keys := t.keysExternal(trs, keysBuffer)
@@ -530,6 +527,9 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 				return fmt.Errorf("record: %x not found", key[_KeyPrefixSplitIndex(key):])
 			}
 
+			// decode into a fresh object, otherwise pointer types would be merged
+			// with the previous row.
+			var oldTr T
 			err := t.serializer.Deserialize(iter.Value(), &oldTr)
 			if err != nil {
 				return err
@@ -679,9 +679,6 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 		serialize = sw.SerializeFuncWithBuffer(valueBuffer)
 	}
 
-	// reusable object
-	var oldTr T
-
 	err := batched[T](trs, persistentBatchSize, func(trs []T) error {
 		// keys
 		keys := t.keysExternal(trs, keysBuffer)
@@ -709,8 +706,9 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 			// update key
 			key := keys[i]
 
-			// old record
+			// old record, a fresh object for each row as onConflict may retain it
 			var (
+				oldTr    T
 				isUpdate bool
 				err      error
 			)
-- 
2.43.0


From d549660e639e4bfef23bbe8026b5e1067107a8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 04/42] fix: detect rows of one call that repeat a key in a
 different chunk

---
 table.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/table.go b/table.go
index e44db0d..570a056 100644
--- a/table.go
+++ b/table.go
@@ -350,7 +350,7 @@ func (t *_table[T]) Insert(ctx context.Context, trs []T, optBatch ...Batch) erro
 	if externalBatch {
 		batch = optBatch[0]
 	} else {
-		batch = t.db.Batch(BatchTypeWriteOnly)
+		batch = t.db.Batch(internalBatchType(len(trs)))
 		defer batch.Close()
 	}
 
@@ -464,7 +464,7 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 	if externalBatch {
 		batch = optBatch[0]
 	} else {
-		batch = t.db.Batch(BatchTypeWriteOnly)
+		batch = t.db.Batch(internalBatchType(len(trs)))
 		defer batch.Close()
 	}
 
@@ -649,7 +649,7 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 	if externalBatch {
 		batch = optBatch[0]
 	} else {
-		batch = t.db.Batch(BatchTypeWriteOnly)
+		batch = t.db.Batch(internalBatchType(len(trs)))
 		defer batch.Close()
 	}
 
@@ -1297,6 +1297,16 @@ func batched[T any](items []T, batchSize int, f func(batch []T) error) error {
 	return nil
 }
 
+// internalBatchType returns the type of batch for a call with given number of
+// rows. If the rows are processed in more than one chunk the later chunks have
+// to see what the earlier ones have written.
+func internalBatchType(numOfRows int) BatchType {
+	if numOfRows > persistentBatchSize {
+		return BatchTypeReadWrite
+	}
+	return BatchTypeWriteOnly
+}
+
 func minInt(a, b int) int {
 	if a < b {
 		return a
-- 
2.43.0


From 4907cdd02792900d4917dac86c42b0d0d36a1739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 05/42] fix: carry over 0xFF bytes when computing the exclusive
 end of a key prefix

---
 table.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/table.go b/table.go
index 570a056..c1a0f3a 100644
--- a/table.go
+++ b/table.go
@@ -1272,6 +1272,8 @@ func keySuccessor(src, dst []byte) []byte {
 			dst[i]++
 			return dst
 		}
+		// carry, otherwise the successor would be past other keys
+		dst[i] = 0x00
 	}
 	return dst
 }
-- 
2.43.0


From 453405da920e414cbc011b7da41975a83515bf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 06/42] fix: inclusive upper bound of ranges and primary key
 points does not match longer keys

---
 index.go | 6 +++---
 table.go | 6 ++++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/index.go b/index.go
index e4d2f52..c2ead23 100644
--- a/index.go
+++ b/index.go
@@ -208,7 +208,7 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 			lowerBound := encodeIndexKey(table, point, idx, keyBufferPool.Get()[:0])
 			upperBound := keySuccessor(lowerBound[0:_KeyPrefixSplitIndex(lowerBound)], keyBufferPool.Get()[:0])
 			if idx.IndexID == PrimaryIndexID {
-				upperBound = keySuccessor(lowerBound, upperBound[:0])
+				upperBound = keyInclusiveEnd(append(upperBound[:0], lowerBound...))
 			}
 
 			releaseBuffers := func() {
@@ -232,7 +232,7 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 
 		lowerBound := encodeIndexKey(table, low, idx, keyBufferPool.Get()[:0])
 		upperBound := encodeIndexKey(table, up, idx, keyBufferPool.Get()[:0])
-		upperBound = keySuccessor(upperBound, nil)
+		upperBound = keyInclusiveEnd(upperBound)
 
 		releaseBuffers := func() {
 			keyBufferPool.Put(lowerBound[:0])
@@ -255,7 +255,7 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 
 			lowerBound := encodeIndexKey(table, low, idx, keyBufferPool.Get()[:0])
 			upperBound := encodeIndexKey(table, up, idx, keyBufferPool.Get()[:0])
-			upperBound = keySuccessor(upperBound, nil)
+			upperBound = keyInclusiveEnd(upperBound)
 
 			releaseBuffers := func() {
 				keyBufferPool.Put(lowerBound[:0])
diff --git a/table.go b/table.go
index c1a0f3a..aab4caa 100644
--- a/table.go
+++ b/table.go
@@ -1278,6 +1278,12 @@ func keySuccessor(src, dst []byte) []byte {
 	return dst
 }
 
+// keyInclusiveEnd turns the key into the exclusive upper bound that includes
+// the key itself but none of the longer keys it is a prefix of.
+func keyInclusiveEnd(key []byte) []byte {
+	return append(key, 0x00)
+}
+
 func batched[T any](items []T, batchSize int, f func(batch []T) error) error {
 	batchNum := 0
 	itemsLen := len(items)
-- 
2.43.0


From 540009cfd000c92edf3327342a699075a8c3acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 07/42] fix: scans and queries without selector include rows
 whose key sorts before the zero value

---
 index.go    |  3 +++
 query.go    |  2 +-
 selector.go | 10 ++++++++++
 table.go    |  4 ++--
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/index.go b/index.go
index c2ead23..743dfcf 100644
--- a/index.go
+++ b/index.go
@@ -187,6 +187,9 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 
 		lowerBound := encodeIndexKey(table, sel.Point(), idx, keyBufferPool.Get()[:0])
 		upperBound := keySuccessor(lowerBound[0:_KeyPrefixSplitIndex(lowerBound)], keyBufferPool.Get()[:0])
+		if _, ok := selector.(*selectorPointFirst[T]); ok {
+			lowerBound = lowerBound[0:_KeyPrefixSplitIndex(lowerBound)]
+		}
 
 		releaseBuffers := func() {
 			keyBufferPool.Put(lowerBound[:0])
diff --git a/query.go b/query.go
index 4ebdf88..f03ba24 100644
--- a/query.go
+++ b/query.go
@@ -44,7 +44,7 @@ func newQuery[T any](t *_table[T], i *Index[T]) Query[T] {
 	return Query[T]{
 		table:         t,
 		index:         i,
-		indexSelector: NewSelectorPoint[T](utils.MakeNew[T]()),
+		indexSelector: newSelectorPointFirst[T](utils.MakeNew[T]()),
 		afterSelector: utils.MakeNew[T](),
 		filterFunc:    nil,
 		orderLessFunc: nil,
diff --git a/selector.go b/selector.go
index f05fe5c..87f3f71 100644
--- a/selector.go
+++ b/selector.go
@@ -70,6 +70,16 @@ func (s *selectorPoint[T]) SetPoint(p T) {
 	s.point = p
 }
 
+// selectorPointFirst is a point selector that starts from the first row of the
+// selected index value, whatever the order and primary key fields of the point.
+type selectorPointFirst[T any] struct {
+	selectorPoint[T]
+}
+
+func newSelectorPointFirst[T any](point T) Selector[T] {
+	return &selectorPointFirst[T]{selectorPoint[T]{point: point}}
+}
+
 type selectorPoints[T any] struct {
 	points []T
 }
diff --git a/table.go b/table.go
index aab4caa..ba16956 100644
--- a/table.go
+++ b/table.go
@@ -995,7 +995,7 @@ func (t *_table[T]) Query() Query[T] {
 }
 
 func (t *_table[T]) Scan(ctx context.Context, tr *[]T, reverse bool, optBatch ...Batch) error {
-	return t.ScanIndex(ctx, t.primaryIndex, NewSelectorPoint(t.valueEmpty), tr, reverse, optBatch...)
+	return t.ScanIndex(ctx, t.primaryIndex, newSelectorPointFirst(t.valueEmpty), tr, reverse, optBatch...)
 }
 
 func (t *_table[T]) ScanIndex(ctx context.Context, i *Index[T], s Selector[T], tr *[]T, reverse bool, optBatch ...Batch) error {
@@ -1010,7 +1010,7 @@ func (t *_table[T]) ScanIndex(ctx context.Context, i *Index[T], s Selector[T], t
 }
 
 func (t *_table[T]) ScanForEach(ctx context.Context, f func(keyBytes KeyBytes, l Lazy[T]) (bool, error), reverse bool, optBatch ...Batch) error {
-	return t.ScanIndexForEach(ctx, t.primaryIndex, NewSelectorPoint(t.valueEmpty), f, reverse, optBatch...)
+	return t.ScanIndexForEach(ctx, t.primaryIndex, newSelectorPointFirst(t.valueEmpty), f, reverse, optBatch...)
 }
 
 func (t *_table[T]) ScanIndexForEach(ctx context.Context, idx *Index[T], s Selector[T], f func(keyBytes KeyBytes, t Lazy[T]) (bool, error), reverse bool, optBatch ...Batch) error {
-- 
2.43.0


From 6bda7989dbdf669fd95b809f2f7f2b0c922d5216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 08/42] fix: delete removes the index entries of the stored
 row, not of the row passed by the caller

---
 table.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/table.go b/table.go
index ba16956..a6364ec 100644
--- a/table.go
+++ b/table.go
@@ -3,6 +3,7 @@ package bond
 import (
 	"bytes"
 	"context"
+	"errors"
 	"fmt"
 	"reflect"
 	"sort"
@@ -581,8 +582,9 @@ func (t *_table[T]) Delete(ctx context.Context, trs []T, optBatch ...Batch) erro
 	t.mutex.RUnlock()
 
 	var (
-		batch         Batch
-		externalBatch = len(optBatch) > 0 && optBatch[0] != nil
+		batch          Batch
+		batchReadWrite Batch
+		externalBatch  = len(optBatch) > 0 && optBatch[0] != nil
 	)
 
 	if externalBatch {
@@ -592,6 +594,10 @@ func (t *_table[T]) Delete(ctx context.Context, trs []T, optBatch ...Batch) erro
 		defer batch.Close()
 	}
 
+	if batch.Type() == BatchTypeReadWrite {
+		batchReadWrite = batch
+	}
+
 	var (
 		keyBuffer      = t.db.getKeyBufferPool().Get()[:0]
 		indexKeyBuffer = t.db.getKeyBufferPool().Get()[:0]
@@ -609,6 +615,22 @@ func (t *_table[T]) Delete(ctx context.Context, trs []T, optBatch ...Batch) erro
 		// data key
 		var key = t.key(tr, keyBuffer[:0])
 
+		// the stored row decides which index entries exist, the row passed by
+		// the caller may be partial or outdated.
+		var storedTr T
+		stored := false
+		if len(indexes) > 0 {
+			data, closer, err := t.db.Get(key, batchReadWrite)
+			if err == nil {
+				err = t.serializer.Deserialize(data, &storedTr)
+				stored = true
+				_ = closer.Close()
+			}
+			if err != nil && !errors.Is(err, pebble.ErrNotFound) {
+				return err
+			}
+		}
+
 		// delete
 		err := batch.Delete(key, Sync)
 		if err != nil {
@@ -617,6 +639,13 @@ func (t *_table[T]) Delete(ctx context.Context, trs []T, optBatch ...Batch) erro
 
 		// delete from index
 		for _, idx := range indexes {
+			if stored {
+				err = idx.OnDelete(t, storedTr, batch, indexKeyBuffer[:0])
+				if err != nil {
+					return err
+				}
+			}
+
 			err = idx.OnDelete(t, tr, batch, indexKeyBuffer[:0])
 			if err != nil {
 				return err
-- 
2.43.0


From 3f2d9eebba8f83925246f5e3d38f363d0aa1416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 09/42] fix: close callbacks of a batch run on close, committed
 callbacks only after success

---
 batch.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/batch.go b/batch.go
index eb73032..3f78517 100644
--- a/batch.go
+++ b/batch.go
@@ -121,13 +121,14 @@ func (b *_batch) Apply(batch Batch, opt WriteOptions) error {
 	if err != nil {
 		return err
 	}
-	defer innerBatch.notifyOnCommitted()
 
 	err = b.Batch.Apply(innerBatch.Batch, pebbleWriteOptions(opt))
 	if err != nil {
 		innerBatch.notifyOnError(err)
 		return err
 	}
+
+	innerBatch.notifyOnCommitted()
 	return nil
 }
 
@@ -202,7 +203,7 @@ func (b *_batch) notifyOnError(err error) {
 }
 
 func (b *_batch) notifyOnClose() {
-	for _, f := range b.onCommittedCallbacks {
+	for _, f := range b.onClose {
 		f(b)
 	}
 }
-- 
2.43.0


From 03a1a741410db3c7f2f4f1892bac7b314dde81b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 10/42] fix: descending byte order does not invert the bytes of
 the caller's record

---
 index.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/index.go b/index.go
index 743dfcf..e4a6dcb 100644
--- a/index.go
+++ b/index.go
@@ -91,9 +91,12 @@ func (o IndexOrder) OrderByte(b byte, orderType IndexOrderType) IndexOrder {
 
 func (o IndexOrder) OrderBytes(b []byte, orderType IndexOrderType) IndexOrder {
 	if orderType == IndexOrderTypeDESC {
+		// the slice belongs to the caller's record
+		inverted := make([]byte, len(b))
 		for i := 0; i < len(b); i++ {
-			b[i] = ^b[i]
+			inverted[i] = ^b[i]
 		}
+		b = inverted
 	}
 
 	o.KeyBuilder = o.KeyBuilder.AddBytesField(b)
-- 
2.43.0


From b2540b45d1a22b936a7cf45e9e72025cf36004ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:26 +0000
Subject: [PATCH 11/42] fix: a duplicate index id leaves the table unlocked and
 unchanged

---
 table.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/table.go b/table.go
index a6364ec..5a7865e 100644
--- a/table.go
+++ b/table.go
@@ -248,13 +248,16 @@ func (t *_table[T]) Serializer() Serializer[*T] {
 
 func (t *_table[T]) AddIndex(idxs []*Index[T], reIndex ...bool) error {
 	t.mutex.Lock()
+	added := make(map[IndexID]*Index[T], len(idxs))
 	for _, idx := range idxs {
 		_, ok := t.secondaryIndexes[idx.IndexID]
-		if ok {
+		if _, okAdded := added[idx.IndexID]; ok || okAdded {
+			t.mutex.Unlock()
 			return fmt.Errorf("found duplicate IndexID %d", idx.IndexID)
 		}
-		t.secondaryIndexes[idx.IndexID] = idx
+		added[idx.IndexID] = idx
 	}
+	maps.Copy(t.secondaryIndexes, added)
 	t.mutex.Unlock()
 
 	if len(reIndex) > 0 && reIndex[0] {
-- 
2.43.0


From e3f4b090cae659cd54627b0f1ea0307501acaa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 12/42] fix: upsert maintains indexes from the stored row when
 the conflict function modifies it in place

---
 table.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/table.go b/table.go
index 5a7865e..20e666e 100644
--- a/table.go
+++ b/table.go
@@ -755,6 +755,17 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 			// handle upsert
 			if isUpdate {
 				tr = onConflict(oldTr, tr)
+
+				// onConflict may have modified the old record in place, but the
+				// indexes have to be updated from what is stored.
+				if len(indexes) > 0 {
+					var storedTr T
+					err := t.serializer.Deserialize(iter.Value(), &storedTr)
+					if err != nil {
+						return err
+					}
+					oldTr = storedTr
+				}
 			}
 
 			// apply conficts recursively if duplicate exist
-- 
2.43.0


From 479b328ce5cf43c28da8cf568400232144a4a393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 13/42] fix: report storage read errors instead of treating the
 row as missing or the result as complete

---
 index.go |  8 ++++++--
 iter.go  | 33 +++++++++++++++++++++++----------
 table.go | 38 +++++++++++++++++++++++++++++++-------
 3 files changed, 60 insertions(+), 19 deletions(-)

diff --git a/index.go b/index.go
index e4a6dcb..706d804 100644
--- a/index.go
+++ b/index.go
@@ -373,7 +373,9 @@ func (idx *Index[T]) Intersect(ctx context.Context, table Table[T], sel Selector
 
 		intersectKeysMap[utils.BytesToString(KeyBytes(it.Key()).ToDataKeyBytes([]byte{}))] = struct{}{}
 	}
-	_ = it.Close()
+	if err := it.Close(); err != nil {
+		return nil, err
+	}
 
 	for i, idx2 := range indexes {
 		it = idx2.Iter(table, sels[i], optBatch...)
@@ -390,7 +392,9 @@ func (idx *Index[T]) Intersect(ctx context.Context, table Table[T], sel Selector
 				tempKeysMap[key] = struct{}{}
 			}
 		}
-		_ = it.Close()
+		if err := it.Close(); err != nil {
+			return nil, err
+		}
 
 		intersectKeysMap = tempKeysMap
 		tempKeysMap = map[string]struct{}{}
diff --git a/iter.go b/iter.go
index d6ded27..d995202 100644
--- a/iter.go
+++ b/iter.go
@@ -75,6 +75,9 @@ type _iteratorMulti struct {
 
 	iteratorConstuctor Iterationer
 	iterator           Iterator
+
+	// err is the first error of an iterator that is closed already.
+	err error
 }
 
 func newIteratorMulti(itc Iterationer, opts []*IterOptions) *_iteratorMulti {
@@ -88,8 +91,8 @@ func newIteratorMulti(itc Iterationer, opts []*IterOptions) *_iteratorMulti {
 
 func (it *_iteratorMulti) First() bool {
 	// find the valid iterator from the start of the list.
-	for i := 0; i < len(it.iteratorOptions); i++ {
-		_ = it.iterator.Close()
+	for i := 0; i < len(it.iteratorOptions) && it.Error() == nil; i++ {
+		it.closeIterator()
 		it.iteratorOptionsIndex = i
 		it.iterator = it.iteratorConstuctor.Iter(childIteratorOptions(it.iteratorOptions[it.iteratorOptionsIndex]))
 		if it.iterator.First() {
@@ -101,8 +104,8 @@ func (it *_iteratorMulti) First() bool {
 
 func (it *_iteratorMulti) Last() bool {
 	// find the valid iterator from the end of the list.
-	for i := len(it.iteratorOptions) - 1; i >= 0; i-- {
-		_ = it.iterator.Close()
+	for i := len(it.iteratorOptions) - 1; i >= 0 && it.Error() == nil; i-- {
+		it.closeIterator()
 		it.iteratorOptionsIndex = i
 		it.iterator = it.iteratorConstuctor.Iter(childIteratorOptions(it.iteratorOptions[it.iteratorOptionsIndex]))
 		if it.iterator.Last() {
@@ -114,11 +117,11 @@ func (it *_iteratorMulti) Last() bool {
 
 func (it *_iteratorMulti) Prev() bool {
 	for !it.iterator.Prev() {
-		if it.iteratorOptionsIndex == 0 {
+		if it.iteratorOptionsIndex == 0 || it.Error() != nil {
 			return false
 		}
 
-		_ = it.iterator.Close()
+		it.closeIterator()
 
 		it.iteratorOptionsIndex--
 		it.iterator = it.iteratorConstuctor.Iter(childIteratorOptions(it.iteratorOptions[it.iteratorOptionsIndex]))
@@ -131,11 +134,11 @@ func (it *_iteratorMulti) Prev() bool {
 
 func (it *_iteratorMulti) Next() bool {
 	for !it.iterator.Next() {
-		if it.iteratorOptionsIndex == len(it.iteratorOptions)-1 {
+		if it.iteratorOptionsIndex == len(it.iteratorOptions)-1 || it.Error() != nil {
 			return false
 		}
 
-		_ = it.iterator.Close()
+		it.closeIterator()
 
 		it.iteratorOptionsIndex++
 		it.iterator = it.iteratorConstuctor.Iter(childIteratorOptions(it.iteratorOptions[it.iteratorOptionsIndex]))
@@ -151,9 +154,18 @@ func (it *_iteratorMulti) Valid() bool {
 }
 
 func (it *_iteratorMulti) Error() error {
+	if it.err != nil {
+		return it.err
+	}
 	return it.iterator.Error()
 }
 
+func (it *_iteratorMulti) closeIterator() {
+	if err := it.iterator.Close(); err != nil && it.err == nil {
+		it.err = err
+	}
+}
+
 func (it *_iteratorMulti) SeekGE(key []byte) bool {
 	//TODO implement me
 	panic("implement me")
@@ -187,7 +199,8 @@ func (it *_iteratorMulti) Close() error {
 		}
 	}()
 
-	return it.iterator.Close()
+	it.closeIterator()
+	return it.err
 }
 
 func childIteratorOptions(opt *IterOptions) *IterOptions {
@@ -248,7 +261,7 @@ func (e errIterator) Value() []byte {
 }
 
 func (e errIterator) Close() error {
-	return nil
+	return e.err
 }
 
 var _ Iterator = (*errIterator)(nil)
diff --git a/table.go b/table.go
index 20e666e..772d2a6 100644
--- a/table.go
+++ b/table.go
@@ -407,7 +407,15 @@ func (t *_table[T]) Insert(ctx context.Context, trs []T, optBatch ...Batch) erro
 			}
 
 			// check if exist
-			if t.keyDuplicate(i, keys) || t.exist(key, batch, iter) {
+			exist := t.keyDuplicate(i, keys)
+			if !exist {
+				var err error
+				exist, err = t.exist(key, batch, iter)
+				if err != nil {
+					return err
+				}
+			}
+			if exist {
 				return fmt.Errorf("record: %x already exist", key[_KeyPrefixSplitIndex(key):])
 			}
 
@@ -528,6 +536,9 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 			}
 
 			if !iter.SeekGE(key) || !bytes.Equal(iter.Key(), key) {
+				if err := iter.Error(); err != nil {
+					return err
+				}
 				return fmt.Errorf("record: %x not found", key[_KeyPrefixSplitIndex(key):])
 			}
 
@@ -742,9 +753,12 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 			var (
 				oldTr    T
 				isUpdate bool
-				err      error
 			)
-			if t.exist(key, batch, iter) {
+			exist, err := t.exist(key, batch, iter)
+			if err != nil {
+				return err
+			}
+			if exist {
 				err := t.serializer.Deserialize(iter.Value(), &oldTr)
 				if err != nil {
 					return err
@@ -855,9 +869,9 @@ func (t *_table[T]) Exist(tr T, optBatch ...Batch) bool {
 	return true
 }
 
-func (t *_table[T]) exist(key []byte, batch Batch, iter Iterator) bool {
+func (t *_table[T]) exist(key []byte, batch Batch, iter Iterator) (bool, error) {
 	if t.filter != nil && !t.filter.MayContain(context.Background(), key) {
-		return false
+		return false, nil
 	}
 
 	if iter == nil {
@@ -870,7 +884,10 @@ func (t *_table[T]) exist(key []byte, batch Batch, iter Iterator) bool {
 		defer iter.Close()
 	}
 
-	return iter.SeekGE(key) && bytes.Equal(iter.Key(), key)
+	if iter.SeekGE(key) {
+		return bytes.Equal(iter.Key(), key), nil
+	}
+	return false, iter.Error()
 }
 
 func (t *_table[T]) GetPoint(ctx context.Context, in T, optBatch ...Batch) (T, error) {
@@ -909,9 +926,12 @@ func (t *_table[T]) Get(ctx context.Context, sel Selector[T], optBatch ...Batch)
 		}
 
 		record, closer, err := t.db.Get(key, batch)
-		if err != nil {
+		if errors.Is(err, pebble.ErrNotFound) {
 			return nil, ErrNotFound
 		}
+		if err != nil {
+			return nil, fmt.Errorf("get failed: %w", err)
+		}
 		defer closer.Close()
 
 		var rtr T
@@ -1005,6 +1025,10 @@ func (t *_table[T]) get(keys [][]byte, batch Batch, values [][]byte, errorOnNotE
 		}
 
 		if !iter.SeekGE(keys[i]) || !bytes.Equal(iter.Key(), keys[i]) {
+			if err := iter.Error(); err != nil {
+				return nil, err
+			}
+
 			if errorOnNotExist {
 				return nil, ErrNotFound
 			} else {
-- 
2.43.0


From c7fc3e57fb34b7571145de8148f2557a176fec37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 14/42] fix: row by row scans through the untyped scanner use
 the batch

---
 table_utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/table_utils.go b/table_utils.go
index 2f7cfa1..0571551 100644
--- a/table_utils.go
+++ b/table_utils.go
@@ -81,7 +81,7 @@ func TableAnyScanner[T any](scanner TableScanner[T]) TableScanner[any] {
 						return l.Get()
 					},
 				})
-			}, reverse)
+			}, reverse, optBatch...)
 		},
 		scanIndexForEach: func(ctx context.Context, i *Index[any], s Selector[any], f func(keyBytes KeyBytes, t Lazy[any]) (bool, error), reverse bool, optBatch ...Batch) error {
 			iAny := NewIndex[T](IndexOptions[T]{
@@ -110,7 +110,7 @@ func TableAnyScanner[T any](scanner TableScanner[T]) TableScanner[any] {
 						return l.Get()
 					},
 				})
-			}, reverse)
+			}, reverse, optBatch...)
 		},
 	}
 }
-- 
2.43.0


From ad19af3e1a5498afdc826006feccc22386f9ccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:18 +0000
Subject: [PATCH 15/42] fix: for-each scans of an index deliver every row once
 whether or not the callback fetches it, and accept a nil batch

---
 index.go |  2 +-
 table.go | 92 +++++++++++++++++++++++++++-----------------------------
 2 files changed, 46 insertions(+), 48 deletions(-)

diff --git a/index.go b/index.go
index 706d804..a46debd 100644
--- a/index.go
+++ b/index.go
@@ -178,7 +178,7 @@ func (idx *Index[T]) Name() string {
 // Iter returns an iterator for the index.
 func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batch) Iterator {
 	var iterConstructor Iterationer = table.DB()
-	if len(optBatch) > 0 {
+	if len(optBatch) > 0 && optBatch[0] != nil {
 		iterConstructor = optBatch[0]
 	}
 
diff --git a/table.go b/table.go
index 772d2a6..5d9e0e3 100644
--- a/table.go
+++ b/table.go
@@ -1154,7 +1154,7 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 	}
 
 	var batch Batch
-	if len(optBatch) > 0 {
+	if len(optBatch) > 0 && optBatch[0] != nil {
 		batch = optBatch[0]
 	}
 
@@ -1167,56 +1167,51 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 	defer t.db.getMultiKeyBufferPool().Put(multiKeyBuffer[:0])
 	defer t.db.putValueArray(valuesBuffer)
 
+	var prefetched bool
 	var prefetchedValues [][]byte
-	var prefetchedValuesIndex int
+	var prefetchErr error
 
-	var prefetchCloser func()
-	defer func() {
-		if prefetchCloser != nil {
-			prefetchCloser()
-			prefetchCloser = nil
+	getPrefetchedValue := func(i int) (T, error) {
+		if prefetchErr != nil {
+			return t.valueNil, prefetchErr
 		}
-	}()
 
-	getPrefetchedValue := func() (T, error) {
 		var rtr T
-		err := t.serializer.Deserialize(prefetchedValues[prefetchedValuesIndex], &rtr)
+		err := t.serializer.Deserialize(prefetchedValues[i], &rtr)
 		if err != nil {
 			return t.valueNil, fmt.Errorf("get failed to deserialize: %w", err)
 		}
 
-		prefetchedValuesIndex++
 		return rtr, nil
 	}
 
-	prefetchAndGetValue := func() (T, error) {
-		// prefetch the required data keys.
-		nextBuff := multiKeyBuffer
-		for it.Valid() {
-			iterKey := it.Key()
+	nextBuff := multiKeyBuffer
+	appendIndexKey := func() []byte {
+		indexKey := append(nextBuff[:0], it.Key()...)
+		indexKeys = append(indexKeys, indexKey)
+		nextBuff = indexKey[len(indexKey):]
+		return indexKey
+	}
 
-			indexKey := append(nextBuff[:0], iterKey...)
-			indexKeys = append(indexKeys, indexKey)
-			nextBuff = indexKey[len(indexKey):]
+	prefetchAndGetValue := func() (T, error) {
+		if prefetched {
+			return getPrefetchedValue(0)
+		}
+		prefetched = true
 
-			key := KeyBytes(iterKey).ToDataKeyBytes(nextBuff[:0])
+		// prefetch the required data keys, the first index key is there already.
+		for indexKey := indexKeys[0]; ; indexKey = appendIndexKey() {
+			key := KeyBytes(indexKey).ToDataKeyBytes(nextBuff[:0])
 			keys = append(keys, key)
-
 			nextBuff = key[len(key):]
-			if len(keys) < t.scanPrefetchSize {
-				next()
-				continue
-			}
-			break
-		}
 
-		var err error
-		prefetchedValues, err = t.get(keys, batch, valuesBuffer, true)
-		if err != nil {
-			return t.valueNil, err
+			if len(keys) >= t.scanPrefetchSize || !next() {
+				break
+			}
 		}
 
-		return getPrefetchedValue()
+		prefetchedValues, prefetchErr = t.get(keys, batch, valuesBuffer, true)
+		return getPrefetchedValue(0)
 	}
 
 	for first(); it.Valid(); next() {
@@ -1227,31 +1222,34 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 		default:
 		}
 
-		cont, err := f(it.Key(), Lazy[T]{GetFunc: prefetchAndGetValue})
+		prefetched, prefetchedValues, prefetchErr = false, nil, nil
+		keys = keys[:0]
+		indexKeys = indexKeys[:0]
+		nextBuff = multiKeyBuffer[:0]
+
+		// the key is copied because prefetching moves the iterator.
+		cont, err := f(appendIndexKey(), Lazy[T]{GetFunc: prefetchAndGetValue})
 		if !cont || err != nil {
 			_ = it.Close()
 			return err
 		}
 
-		// iterate from prefetched entire if exists.
-		for prefetchedValuesIndex < len(prefetchedValues) {
-			cont, err = f(indexKeys[prefetchedValuesIndex], Lazy[T]{GetFunc: getPrefetchedValue})
+		// iterate over the other prefetched rows if there are any.
+		for i := 1; i < len(indexKeys); i++ {
+			select {
+			case <-ctx.Done():
+				_ = it.Close()
+				return fmt.Errorf("context done: %w", ctx.Err())
+			default:
+			}
+
+			i := i
+			cont, err = f(indexKeys[i], Lazy[T]{GetFunc: func() (T, error) { return getPrefetchedValue(i) }})
 			if !cont || err != nil {
 				_ = it.Close()
 				return err
 			}
 		}
-
-		prefetchedValuesIndex = 0
-		prefetchedValues = nil
-		if prefetchCloser != nil {
-			prefetchCloser()
-			prefetchCloser = nil
-		}
-
-		keys = keys[:0]
-		indexKeys = indexKeys[:0]
-		multiKeyBuffer = multiKeyBuffer[:0]
 	}
 
 	return it.Close()
-- 
2.43.0


From 1333698c317c0d047ea928358985afafd7979514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:00 +0000
Subject: [PATCH 16/42] fix: offset and limit up to the largest value do not
 overflow

---
 query.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/query.go b/query.go
index f03ba24..20ae449 100644
--- a/query.go
+++ b/query.go
@@ -226,7 +226,7 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 		// check if we need to iterate further
 		if !hasSort && hasLimit {
 			limitApplied = true
-			next = count < q.offset+q.limit
+			next = count < q.offset || count-q.offset < q.limit
 		}
 
 		return next, nil
@@ -260,7 +260,7 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 
 	// offset
 	if hasOffset && !offsetApplied {
-		if int(q.offset) >= len(records) {
+		if q.offset >= uint64(len(records)) {
 			records = make([]T, 0)
 		} else {
 			records = records[q.offset:]
@@ -270,7 +270,7 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 	// limit
 	if hasLimit && !limitApplied {
 		lastIndex := q.limit
-		if int(lastIndex) >= len(records) {
+		if lastIndex >= uint64(len(records)) {
 			lastIndex = uint64(len(records))
 		}
 		records = records[:lastIndex]
@@ -306,7 +306,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 	if !hasFilter && !hasSort && !hasAfter {
 		if hasOffset {
 			offsetApplied = true
-			if int(q.offset) >= len(keys) {
+			if q.offset >= uint64(len(keys)) {
 				return make([]T, 0), nil
 			} else {
 				keys = keys[q.offset:]
@@ -316,7 +316,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		if hasLimit {
 			limitApplied = true
 			lastIndex := q.limit
-			if int(lastIndex) >= len(keys) {
+			if lastIndex >= uint64(len(keys)) {
 				lastIndex = uint64(len(keys))
 			}
 			keys = keys[:lastIndex]
@@ -370,7 +370,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 	if hasFilter || hasSort {
 		// offset
 		if hasOffset && !offsetApplied {
-			if int(q.offset) >= len(records) {
+			if q.offset >= uint64(len(records)) {
 				records = make([]T, 0)
 			} else {
 				records = records[q.offset:]
@@ -380,7 +380,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		// limit
 		if hasLimit && !limitApplied {
 			lastIndex := q.limit
-			if int(lastIndex) >= len(records) {
+			if lastIndex >= uint64(len(records)) {
 				lastIndex = uint64(len(records))
 			}
 			records = records[:lastIndex]
-- 
2.43.0


From ac6ac68eb34ed4b91acea81f69102a05aec6d873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 17/42] fix: intersections see the batch, apply offset, limit
 and reverse, and do not modify the query they are built from

---
 query.go | 63 ++++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/query.go b/query.go
index 20ae449..76f2fce 100644
--- a/query.go
+++ b/query.go
@@ -148,7 +148,10 @@ func (q Query[T]) Execute(ctx context.Context, r *[]T, optBatch ...Batch) error
 }
 
 func (q Query[T]) Intersects(queries ...Query[T]) Query[T] {
-	q.intersects = append(q.intersects, queries...)
+	// do not share the backing array with the query this one is built from
+	intersects := make([]Query[T], 0, len(q.intersects)+len(queries))
+	intersects = append(intersects, q.intersects...)
+	q.intersects = append(intersects, queries...)
 	return q
 }
 
@@ -302,6 +305,12 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		return nil, err
 	}
 
+	if q.reverse {
+		for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
+			keys[i], keys[j] = keys[j], keys[i]
+		}
+	}
+
 	// apply offset & limit early
 	if !hasFilter && !hasSort && !hasAfter {
 		if hasOffset {
@@ -324,7 +333,12 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 	}
 
 	// get data
-	values, err := q.table.get(keys, nil, make([][]byte, len(keys)), true)
+	var batch Batch
+	if len(optBatch) > 0 && optBatch[0] != nil {
+		batch = optBatch[0]
+	}
+
+	values, err := q.table.get(keys, batch, make([][]byte, len(keys)), true)
 	if err != nil {
 		return nil, err
 	}
@@ -367,31 +381,29 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		}
 	}
 
-	if hasFilter || hasSort {
-		// offset
-		if hasOffset && !offsetApplied {
-			if q.offset >= uint64(len(records)) {
-				records = make([]T, 0)
-			} else {
-				records = records[q.offset:]
-			}
+	// offset
+	if hasOffset && !offsetApplied {
+		if q.offset >= uint64(len(records)) {
+			records = make([]T, 0)
+		} else {
+			records = records[q.offset:]
 		}
+	}
 
-		// limit
-		if hasLimit && !limitApplied {
-			lastIndex := q.limit
-			if lastIndex >= uint64(len(records)) {
-				lastIndex = uint64(len(records))
-			}
-			records = records[:lastIndex]
+	// limit
+	if hasLimit && !limitApplied {
+		lastIndex := q.limit
+		if lastIndex >= uint64(len(records)) {
+			lastIndex = uint64(len(records))
 		}
+		records = records[:lastIndex]
 	}
 
 	return records, nil
 }
 
 func (q Query[T]) checkIntersectQueries() error {
-	for _, q1 := range q.intersects {
+	for _, q1 := range q.allIntersects() {
 		if q1.filterFunc != nil {
 			return fmt.Errorf("queries passed to Intersect do not support filter")
 		}
@@ -411,9 +423,20 @@ func (q Query[T]) checkIntersectQueries() error {
 	return nil
 }
 
+// allIntersects returns the intersected queries and the ones they are
+// intersected with.
+func (q Query[T]) allIntersects() []Query[T] {
+	var queries []Query[T]
+	for _, inter := range q.intersects {
+		queries = append(queries, inter)
+		queries = append(queries, inter.allIntersects()...)
+	}
+	return queries
+}
+
 func (q Query[T]) indexes() []*Index[T] {
 	indexes := make([]*Index[T], 0, len(q.intersects))
-	for _, inter := range q.intersects {
+	for _, inter := range q.allIntersects() {
 		indexes = append(indexes, inter.index)
 	}
 	return indexes
@@ -421,7 +444,7 @@ func (q Query[T]) indexes() []*Index[T] {
 
 func (q Query[T]) selectors() []Selector[T] {
 	sels := make([]Selector[T], 0, len(q.intersects))
-	for _, inter := range q.intersects {
+	for _, inter := range q.allIntersects() {
 		sels = append(sels, inter.indexSelector)
 	}
 	return sels
-- 
2.43.0


From 7ff8c92f75e27da90744085c06029e4cbe7ca2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 18/42] fix: After works in reverse, with unordered points,
 with all rows passed and with a deleted row; empty selectors select nothing

---
 index.go    |  22 ++++++-
 query.go    | 169 ++++++++++++++++++++++++++++++++++++----------------
 selector.go |   7 +++
 3 files changed, 145 insertions(+), 53 deletions(-)

diff --git a/index.go b/index.go
index a46debd..106a718 100644
--- a/index.go
+++ b/index.go
@@ -184,6 +184,12 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 
 	keyBufferPool := table.DB().getKeyBufferPool()
 
+	var until *T
+	if s, ok := selector.(*selectorUntil[T]); ok {
+		selector = s.Selector
+		until = &s.until
+	}
+
 	switch selector.Type() {
 	case SelectorTypePoint:
 		sel := selector.(SelectorPoint[T])
@@ -193,6 +199,9 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 		if _, ok := selector.(*selectorPointFirst[T]); ok {
 			lowerBound = lowerBound[0:_KeyPrefixSplitIndex(lowerBound)]
 		}
+		if until != nil {
+			upperBound = keyInclusiveEnd(encodeIndexKey(table, *until, idx, upperBound[:0]))
+		}
 
 		releaseBuffers := func() {
 			keyBufferPool.Put(lowerBound[:0])
@@ -210,12 +219,15 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 		sel := selector.(SelectorPoints[T])
 
 		var pebbleOpts []*IterOptions
-		for _, point := range sel.Points() {
+		for i, point := range sel.Points() {
 			lowerBound := encodeIndexKey(table, point, idx, keyBufferPool.Get()[:0])
 			upperBound := keySuccessor(lowerBound[0:_KeyPrefixSplitIndex(lowerBound)], keyBufferPool.Get()[:0])
 			if idx.IndexID == PrimaryIndexID {
 				upperBound = keyInclusiveEnd(append(upperBound[:0], lowerBound...))
 			}
+			if until != nil && i == len(sel.Points())-1 {
+				upperBound = keyInclusiveEnd(encodeIndexKey(table, *until, idx, upperBound[:0]))
+			}
 
 			releaseBuffers := func() {
 				keyBufferPool.Put(lowerBound[:0])
@@ -231,6 +243,10 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 			})
 		}
 
+		if len(pebbleOpts) == 0 {
+			return errIterator{}
+		}
+
 		return newIteratorMulti(iterConstructor, pebbleOpts)
 	case SelectorTypeRange:
 		sel := selector.(SelectorRange[T])
@@ -277,6 +293,10 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 			})
 		}
 
+		if len(pebbleOpts) == 0 {
+			return errIterator{}
+		}
+
 		return newIteratorMulti(iterConstructor, pebbleOpts)
 	default:
 		return errIterator{err: fmt.Errorf("unknown selector type: %v", selector.Type())}
diff --git a/query.go b/query.go
index 76f2fce..452cbec 100644
--- a/query.go
+++ b/query.go
@@ -165,7 +165,6 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 
 		//filterApplied = false
 		sortApplied   = false
-		afterApplied  = false
 		offsetApplied = false
 		limitApplied  = false
 	)
@@ -186,7 +185,6 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 	err := q.table.ScanIndexForEach(ctx, q.index, selector, func(key KeyBytes, lazy Lazy[T]) (bool, error) {
 		if q.isAfter && !hasSort && !skippedFirstRow {
 			skippedFirstRow = true
-			afterApplied = true
 
 			keyBuffer := q.table.db.getKeyBufferPool().Get()
 			defer q.table.db.getKeyBufferPool().Put(keyBuffer)
@@ -240,25 +238,13 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 
 	// sorting
 	if hasSort && !sortApplied {
-		sort.Slice(records, func(i, j int) bool {
+		sort.SliceStable(records, func(i, j int) bool {
 			return q.orderLessFunc(records[i], records[j])
 		})
 	}
 
-	if hasAfter && !afterApplied {
-		afterKey := q.table.PrimaryKey(NewKeyBuilder([]byte{}), q.afterSelector)
-		recordKey := []byte{}
-		for index, record := range records {
-			recordKey = q.table.PrimaryKey(NewKeyBuilder(recordKey[:0]), record)
-			if bytes.Equal(afterKey, recordKey) {
-				if index+1 == len(records) {
-					records = make([]T, 0)
-				} else {
-					records = records[index+1:]
-				}
-				break
-			}
-		}
+	if hasAfter && hasSort {
+		records = q.recordsAfter(records, q.index)
 	}
 
 	// offset
@@ -359,26 +345,14 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 
 	// sort
 	if hasSort && !sortApplied {
-		sort.Slice(records, func(i, j int) bool {
+		sort.SliceStable(records, func(i, j int) bool {
 			return q.orderLessFunc(records[i], records[j])
 		})
 	}
 
 	// after
 	if hasAfter {
-		afterKey := q.table.PrimaryKey(NewKeyBuilder([]byte{}), q.afterSelector)
-		recordKey := []byte{}
-		for index, record := range records {
-			recordKey = q.table.PrimaryKey(NewKeyBuilder(recordKey[:0]), record)
-			if bytes.Equal(afterKey, recordKey) {
-				if index+1 == len(records) {
-					records = make([]T, 0)
-				} else {
-					records = records[index+1:]
-				}
-				break
-			}
-		}
+		records = q.recordsAfter(records, q.table.primaryIndex)
 	}
 
 	// offset
@@ -450,47 +424,138 @@ func (q Query[T]) selectors() []Selector[T] {
 	return sels
 }
 
+// selectorWithAfter returns the selector of the rows from the after row on, in
+// the direction of the query.
 func (q Query[T]) selectorWithAfter() (Selector[T], error) {
 	switch q.indexSelector.Type() {
 	case SelectorTypePoint:
+		if q.reverse {
+			return &selectorUntil[T]{Selector: q.indexSelector, until: q.afterSelector}, nil
+		}
 		return NewSelectorPoint(q.afterSelector), nil
 	case SelectorTypePoints:
+		points := q.indexSelector.(SelectorPoints[T]).Points()
 		afterKey := encodeIndexKey[T](q.table, q.afterSelector, q.index, []byte{})
 
+		keys := make([][2][]byte, 0, len(points))
+		for _, pnt := range points {
+			lower := encodeIndexKey[T](q.table, pnt, q.index, []byte{})
+			upper := keyInclusiveEnd(append([]byte{}, lower...))
+			if q.index.IndexID != PrimaryIndexID {
+				upper = keySuccessor(lower[:_KeyPrefixSplitIndex(lower)], []byte{})
+			}
+			keys = append(keys, [2][]byte{lower, upper})
+		}
+
+		part, rest := q.splitAfter(afterKey, keys)
+
 		var newPoints []T
-		pntsSelector := q.indexSelector.(SelectorPoints[T])
-		for _, pnt := range pntsSelector.Points() {
-			pntKey := encodeIndexKey[T](q.table, pnt, q.index, []byte{})
-			if bytes.Compare(afterKey, pntKey) < 0 {
-				newPoints = append(newPoints, pnt)
-			} else if bytes.Compare(afterKey, pntKey) >= 0 &&
-				bytes.Compare(afterKey[:_KeyPrefixSplitIndex(afterKey)], pntKey[:_KeyPrefixSplitIndex(pntKey)]) == 0 {
-				newPoints = append(newPoints, q.afterSelector)
+		if q.reverse {
+			for _, i := range rest {
+				newPoints = append(newPoints, points[i])
 			}
+			if part == -1 {
+				return NewSelectorPoints(newPoints...), nil
+			}
+
+			newPoints = append(newPoints, points[part])
+			return &selectorUntil[T]{Selector: NewSelectorPoints(newPoints...), until: q.afterSelector}, nil
+		}
+
+		if part != -1 {
+			newPoints = append(newPoints, q.afterSelector)
+		}
+		for _, i := range rest {
+			newPoints = append(newPoints, points[i])
 		}
 		return NewSelectorPoints(newPoints...), nil
 	case SelectorTypeRange:
-		rngSelector := q.indexSelector.(SelectorRange[T])
-
-		_, upper := rngSelector.Range()
+		lower, upper := q.indexSelector.(SelectorRange[T]).Range()
+		if q.reverse {
+			return NewSelectorRange(lower, q.afterSelector), nil
+		}
 		return NewSelectorRange(q.afterSelector, upper), nil
 	case SelectorTypeRanges:
+		ranges := q.indexSelector.(SelectorRanges[T]).Ranges()
 		afterKey := encodeIndexKey[T](q.table, q.afterSelector, q.index, []byte{})
 
+		keys := make([][2][]byte, 0, len(ranges))
+		for _, rng := range ranges {
+			lower := encodeIndexKey[T](q.table, rng[0], q.index, []byte{})
+			upper := keyInclusiveEnd(encodeIndexKey[T](q.table, rng[1], q.index, []byte{}))
+			keys = append(keys, [2][]byte{lower, upper})
+		}
+
+		part, rest := q.splitAfter(afterKey, keys)
+
 		var newRanges [][]T
-		rngsSelector := q.indexSelector.(SelectorRanges[T])
-		for _, rng := range rngsSelector.Ranges() {
-			lowerKey := encodeIndexKey[T](q.table, rng[0], q.index, []byte{})
-			upperKey := encodeIndexKey[T](q.table, rng[1], q.index, []byte{})
-
-			if bytes.Compare(afterKey, lowerKey) < 0 {
-				newRanges = append(newRanges, rng)
-			} else if bytes.Compare(afterKey, lowerKey) >= 0 && bytes.Compare(afterKey, upperKey) <= 0 {
-				newRanges = append(newRanges, []T{q.afterSelector, rng[1]})
-			}
+		if part != -1 && !q.reverse {
+			newRanges = append(newRanges, []T{q.afterSelector, ranges[part][1]})
+		}
+		for _, i := range rest {
+			newRanges = append(newRanges, ranges[i])
+		}
+		if part != -1 && q.reverse {
+			newRanges = append(newRanges, []T{ranges[part][0], q.afterSelector})
 		}
 		return NewSelectorRanges(newRanges...), nil
 	default:
 		return nil, fmt.Errorf("unsupported selector type")
 	}
 }
+
+// splitAfter finds the part of a selector that contains the after key and the
+// parts that follow it in the direction of the query. If there is no such part
+// the ones past the after key follow. The keys are lower bounds and exclusive
+// upper bounds.
+func (q Query[T]) splitAfter(afterKey []byte, keys [][2][]byte) (int, []int) {
+	part := -1
+	for i, k := range keys {
+		if bytes.Compare(afterKey, k[0]) >= 0 && bytes.Compare(afterKey, k[1]) < 0 {
+			part = i
+			if !q.reverse {
+				break
+			}
+		}
+	}
+
+	var rest []int
+	for i, k := range keys {
+		switch {
+		case part != -1 && !q.reverse && i > part,
+			part != -1 && q.reverse && i < part,
+			part == -1 && !q.reverse && bytes.Compare(afterKey, k[0]) < 0,
+			part == -1 && q.reverse && bytes.Compare(afterKey, k[1]) >= 0:
+			rest = append(rest, i)
+		}
+	}
+	return part, rest
+}
+
+// recordsAfter returns the records that follow the after row. If the row is
+// not among them the records that precede it are dropped.
+func (q Query[T]) recordsAfter(records []T, index *Index[T]) []T {
+	afterKey := q.table.PrimaryKey(NewKeyBuilder([]byte{}), q.afterSelector)
+	recordKey := []byte{}
+	for i, record := range records {
+		recordKey = q.table.PrimaryKey(NewKeyBuilder(recordKey[:0]), record)
+		if bytes.Equal(afterKey, recordKey) {
+			return records[i+1:]
+		}
+	}
+
+	afterIndexKey := encodeIndexKey[T](q.table, q.afterSelector, index, []byte{})
+	for i, record := range records {
+		if q.orderLessFunc != nil && q.orderLessFunc(record, q.afterSelector) {
+			continue
+		}
+		if q.orderLessFunc == nil || !q.orderLessFunc(q.afterSelector, record) {
+			c := bytes.Compare(encodeIndexKey[T](q.table, record, index, []byte{}), afterIndexKey)
+			if !q.reverse && c < 0 || q.reverse && c > 0 {
+				continue
+			}
+		}
+		return records[i:]
+	}
+	return make([]T, 0)
+}
diff --git a/selector.go b/selector.go
index 87f3f71..cb3840e 100644
--- a/selector.go
+++ b/selector.go
@@ -80,6 +80,13 @@ func newSelectorPointFirst[T any](point T) Selector[T] {
 	return &selectorPointFirst[T]{selectorPoint[T]{point: point}}
 }
 
+// selectorUntil limits the last point of a point or multi-point selector to
+// the rows up to the given one.
+type selectorUntil[T any] struct {
+	Selector[T]
+	until T
+}
+
 type selectorPoints[T any] struct {
 	points []T
 }
-- 
2.43.0


From 96cc4e68bfba66647ba851c7cbc44546042eae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:39 +0000
Subject: [PATCH 19/42] fix: UnsafeUpdate closes its own batch and only its own

---
 table_unsafe.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/table_unsafe.go b/table_unsafe.go
index e6ba916..9b37ca6 100644
--- a/table_unsafe.go
+++ b/table_unsafe.go
@@ -33,6 +33,7 @@ func (t *_table[T]) UnsafeUpdate(ctx context.Context, trs []T, oldTrs []T, optBa
 		batch = optBatch[0]
 	} else {
 		batch = t.db.Batch(BatchTypeWriteOnly)
+		defer batch.Close()
 	}
 
 	// key
@@ -78,7 +79,6 @@ func (t *_table[T]) UnsafeUpdate(ctx context.Context, trs []T, oldTrs []T, optBa
 		// update entry
 		err = batch.Set(key, data, Sync)
 		if err != nil {
-			_ = batch.Close()
 			return err
 		}
 
@@ -94,7 +94,6 @@ func (t *_table[T]) UnsafeUpdate(ctx context.Context, trs []T, oldTrs []T, optBa
 	if !externalBatch {
 		err := batch.Commit(Sync)
 		if err != nil {
-			_ = batch.Close()
 			return err
 		}
 	}
-- 
2.43.0


From 403d7b14cb2fb1418bf8918e47a0f8e89528f814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 20/42] fix: dump lists the indexes of its snapshot and reports
 failed reads

---
 bond.go | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/bond.go b/bond.go
index 7e49f6f..88947d0 100644
--- a/bond.go
+++ b/bond.go
@@ -389,6 +389,15 @@ func (db *_db) Dump(_ context.Context, path string, tables []TableID, withIndex
 	defer snapshot.Close()
 
 	grp := new(errgroup.Group)
+	err := dumpTables(grp, snapshot, path, tables, withIndex)
+	// wait in any case, the snapshot is in use until then.
+	if grpErr := grp.Wait(); err == nil {
+		err = grpErr
+	}
+	return err
+}
+
+func dumpTables(grp *errgroup.Group, snapshot *pebble.Snapshot, path string, tables []TableID, withIndex bool) error {
 	// write all the table data to the sst file.
 	for _, tableID := range tables {
 		tablePath := filepath.Join(path, fmt.Sprintf("table_%d", tableID))
@@ -414,7 +423,10 @@ func (db *_db) Dump(_ context.Context, path string, tables []TableID, withIndex
 			continue
 		}
 		// write all the index data to sst file.
-		indexes := db.getIndexIDS(tableID)
+		indexes, err := getIndexIDS(snapshot, tableID)
+		if err != nil {
+			return err
+		}
 		for _, index := range indexes {
 			indexPath := filepath.Join(path, fmt.Sprintf("table_%d_index_%d", tableID, index))
 			if err := os.Mkdir(indexPath, 0755); err != nil {
@@ -435,7 +447,7 @@ func (db *_db) Dump(_ context.Context, path string, tables []TableID, withIndex
 			}(itr, indexPath))
 		}
 	}
-	return grp.Wait()
+	return nil
 }
 
 func (db *_db) Restore(_ context.Context, path string, tables []TableID, withIndex bool) error {
@@ -499,10 +511,18 @@ func (db *_db) Restore(_ context.Context, path string, tables []TableID, withInd
 }
 
 func (db *_db) getIndexIDS(tableID TableID) []IndexID {
+	indexIDS, _ := getIndexIDS(db.pebble, tableID)
+	return indexIDS
+}
+
+func getIndexIDS(reader pebble.Reader, tableID TableID) ([]IndexID, error) {
 	prefix := []byte{byte(tableID), 1}
 	indexIDS := []IndexID{}
 
-	itr := db.Iter(&IterOptions{})
+	itr, err := reader.NewIter(&pebble.IterOptions{})
+	if err != nil {
+		return nil, err
+	}
 	for {
 		if !itr.SeekGE(prefix) {
 			break
@@ -518,7 +538,10 @@ func (db *_db) getIndexIDS(tableID TableID) []IndexID {
 		}
 		prefix[1] = indexID + 1
 	}
-	return indexIDS
+	if err := itr.Close(); err != nil {
+		return nil, err
+	}
+	return indexIDS, nil
 }
 
 // write all the key/value of iterator to the SST file.
@@ -538,6 +561,7 @@ func iteratorToSST(itr Iterator, path string) error {
 
 	for itr.First(); itr.Valid(); itr.Next() {
 		if err := writer.Set(itr.Key(), itr.Value()); err != nil {
+			_ = writer.Close()
 			return err
 		}
 
@@ -554,6 +578,11 @@ func iteratorToSST(itr Iterator, path string) error {
 			writer = sstable.NewWriter(objstorageprovider.NewFileWritable(file), opts)
 		}
 	}
+	// without this check a failed read would end in a truncated dump.
+	if err := itr.Error(); err != nil {
+		_ = writer.Close()
+		return err
+	}
 	return writer.Close()
 }
 
-- 
2.43.0


From 8f07f0c4fc256668654b5c7d43c2bbb6f2433e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 21/42] fix: restore takes exactly the selected tables and
 leaves the dump intact

---
 bond.go | 71 +++++++++++++++++++++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 27 deletions(-)

diff --git a/bond.go b/bond.go
index 88947d0..7e0947f 100644
--- a/bond.go
+++ b/bond.go
@@ -5,7 +5,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"io/fs"
 	"math"
 	"os"
 	"path/filepath"
@@ -125,6 +124,9 @@ type DB interface {
 type _db struct {
 	pebble *pebble.DB
 
+	// bondPath is the directory of bond's own files
+	bondPath string
+
 	serializer Serializer[any]
 
 	keyBufferPool      *utils.PreAllocatedPool[[]byte]
@@ -205,6 +207,7 @@ func Open(dirname string, opts *Options) (DB, error) {
 
 	db := &_db{
 		pebble:     pdb,
+		bondPath:   bondPath,
 		serializer: serializer,
 		keyBufferPool: utils.NewPreAllocatedPool[[]byte](func() any {
 			return make([]byte, 0, DefaultKeyBufferSize)
@@ -473,41 +476,55 @@ func (db *_db) Restore(_ context.Context, path string, tables []TableID, withInd
 		}
 	}
 
-	// ingest the required sst file.
+	// ingest the required sst files. The ingested files are removed, so links
+	// are ingested and the dump stays as it is.
+	linkDir, err := os.MkdirTemp(db.bondPath, "restore-")
+	if err != nil {
+		return err
+	}
+	defer os.RemoveAll(linkDir)
+
+	dirs, err := os.ReadDir(path)
+	if err != nil {
+		return err
+	}
+
 	ssts := []string{}
-	err = filepath.Walk(path, func(path string, info fs.FileInfo, err error) error {
-		if info.IsDir() {
-			return nil
+	for _, dir := range dirs {
+		if !isDumpDir(dir.Name(), tables, withIndex) {
+			continue
 		}
-		if filepath.Ext(path) != ".sst" {
-			return nil
+
+		files, err := os.ReadDir(filepath.Join(path, dir.Name()))
+		if err != nil {
+			return err
 		}
-		// filter only relevant tables.
-		filter := true
-		for _, table := range tables {
-			if strings.Contains(path, fmt.Sprintf("table_%d", table)) {
-				filter = false
-				break
+
+		for _, file := range files {
+			if file.IsDir() || filepath.Ext(file.Name()) != ".sst" {
+				continue
 			}
-		}
 
-		if filter {
-			return nil
+			link := filepath.Join(linkDir, fmt.Sprintf("%s_%s", dir.Name(), file.Name()))
+			if err := vfs.LinkOrCopy(vfs.Default, filepath.Join(path, dir.Name(), file.Name()), link); err != nil {
+				return err
+			}
+			ssts = append(ssts, link)
 		}
+	}
+	return db.pebble.Ingest(ssts)
+}
 
-		if !strings.Contains(path, "index") {
-			ssts = append(ssts, path)
-			return nil
-		}
-		if withIndex {
-			ssts = append(ssts, path)
+// isDumpDir tells whether the directory of a dump holds data or index entries
+// of one of the tables.
+func isDumpDir(name string, tables []TableID, withIndex bool) bool {
+	for _, table := range tables {
+		tableDir := fmt.Sprintf("table_%d", table)
+		if name == tableDir || withIndex && strings.HasPrefix(name, tableDir+"_index_") {
+			return true
 		}
-		return nil
-	})
-	if err != nil {
-		return err
 	}
-	return db.pebble.Ingest(ssts)
+	return false
 }
 
 func (db *_db) getIndexIDS(tableID TableID) []IndexID {
-- 
2.43.0


From f95ab2eeba788f325823606e2626ea95baaf764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 22/42] fix: concurrent adds to one bucket of the bloom filter
 do not lose keys

---
 bloom/bloom_filter.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index 9993299..4152679 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -81,13 +81,22 @@ func (b *BloomFilter) Add(_ context.Context, key []byte) {
 	defer b.mutex.RUnlock()
 
 	bucket := b.buckets[b.hash(key)]
+
+	// b.mutex is held for reading only, so adds run concurrently.
+	bucket.mutex.Lock()
+	defer bucket.mutex.Unlock()
 	bucket.hasChanges = !bucket.filter.TestOrAdd(key) || bucket.hasChanges
 }
 
 func (b *BloomFilter) MayContain(_ context.Context, key []byte) bool {
 	b.mutex.RLock()
 	defer b.mutex.RUnlock()
-	return b.buckets[b.hash(key)].filter.Test(key)
+
+	bucket := b.buckets[b.hash(key)]
+
+	bucket.mutex.RLock()
+	defer bucket.mutex.RUnlock()
+	return bucket.filter.Test(key)
 }
 
 func (b *BloomFilter) Load(_ context.Context, store bond.FilterStorer) error {
-- 
2.43.0


From 8cd56b91980b12e2e8c82e0dd6b6868bf3479111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 23/42] fix: loading a damaged bloom filter fails without a
 panic and without keeping storage buffers

---
 bloom/bloom_filter.go | 47 ++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index 4152679..c505fe0 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -106,33 +106,22 @@ func (b *BloomFilter) Load(_ context.Context, store bond.FilterStorer) error {
 	var keyBuff [1024]byte
 
 	bucketNum, bucketNumCloser, err := store.Get(buildBucketNumKey(keyBuff[:0], b.keyPrefix))
-	if err != nil || (err == nil && binary.BigEndian.Uint64(bucketNum) != uint64(b.numOfBuckets)) {
-		if err == nil {
-			_ = bucketNumCloser.Close()
-		}
+	if err != nil {
 		return fmt.Errorf("configuration changed")
 	}
 
-	for _, bucket := range b.buckets {
-		data, closer, err := store.Get(buildKey(keyBuff[:0], b.keyPrefix, bucket.num))
-		if err != nil {
-			return err
-		}
-
-		filter := bloom.New(0, 0)
-		zr, err := zstd.NewReader(bytes.NewBuffer(data))
-		if err != nil {
-			return err
-		}
+	configChanged := len(bucketNum) != 8 || binary.BigEndian.Uint64(bucketNum) != uint64(b.numOfBuckets)
+	_ = bucketNumCloser.Close()
+	if configChanged {
+		return fmt.Errorf("configuration changed")
+	}
 
-		_, err = filter.ReadFrom(zr)
+	for _, bucket := range b.buckets {
+		filter, err := loadFilter(store, buildKey(keyBuff[:0], b.keyPrefix, bucket.num))
 		if err != nil {
 			return err
 		}
 
-		zr.Close()
-		_ = closer.Close()
-
 		err = bucket.filter.Merge(filter)
 		if err != nil {
 			return fmt.Errorf("configuration changed: %w", err)
@@ -144,6 +133,26 @@ func (b *BloomFilter) Load(_ context.Context, store bond.FilterStorer) error {
 	return nil
 }
 
+func loadFilter(store bond.FilterStorer, key []byte) (*bloom.BloomFilter, error) {
+	data, closer, err := store.Get(key)
+	if err != nil {
+		return nil, err
+	}
+	defer func() { _ = closer.Close() }()
+
+	zr, err := zstd.NewReader(bytes.NewBuffer(data))
+	if err != nil {
+		return nil, err
+	}
+	defer zr.Close()
+
+	filter := bloom.New(0, 0)
+	if _, err = filter.ReadFrom(zr); err != nil {
+		return nil, err
+	}
+	return filter, nil
+}
+
 func (b *BloomFilter) Save(_ context.Context, store bond.FilterStorer) error {
 	b.mutex.Lock()
 	defer b.mutex.Unlock()
-- 
2.43.0


From 9e9068ecce30ef3b77b7f0f3071208ba92a564e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 24/42] fix: a bloom filter saved after clear is complete

---
 bloom/bloom_filter.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index c505fe0..a27a82a 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -205,10 +205,21 @@ func (b *BloomFilter) Save(_ context.Context, store bond.FilterStorer) error {
 }
 
 func (b *BloomFilter) Clear(_ context.Context, store bond.FilterStorer) error {
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+
 	end := make([]byte, len(b.keyPrefix))
 	copy(end, b.keyPrefix)
 	end[len(end)-1]++
-	return store.DeleteRange(b.keyPrefix, end, bond.Sync)
+	if err := store.DeleteRange(b.keyPrefix, end, bond.Sync); err != nil {
+		return err
+	}
+
+	// nothing is stored any more, the next save has to write every bucket.
+	for _, bucket := range b.buckets {
+		bucket.hasBeenWritten = false
+	}
+	return nil
 }
 
 func (b *BloomFilter) hash(key []byte) int {
-- 
2.43.0


From fc25eebcff8c8892aca7486ddeb2be14416f2d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 25/42] fix: number sequence does not repeat numbers when the
 clock goes backwards

---
 helpers.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 33b980f..160bbb7 100644
--- a/helpers.go
+++ b/helpers.go
@@ -27,7 +27,9 @@ func (n *NumberSequence) Next() (uint64, error) {
 	defer n.mutex.Unlock()
 
 	nextId := uint64(time.Now().Unix() << NumberSequenceBitShift)
-	if n.lastId&NumberSequenceTimestampMask == nextId&NumberSequenceTimestampMask {
+	// the clock can also go backwards, then the range of the last used second
+	// is continued.
+	if n.lastId&NumberSequenceTimestampMask >= nextId&NumberSequenceTimestampMask {
 		if n.lastId&NumberSequenceSequenceNumberMask == NumberSequenceSequenceNumberMask {
 			return math.MaxUint64, fmt.Errorf("sequence number overflow")
 		}
-- 
2.43.0


From 7172a304dfd715fcbd3db6ce65c5ce620b178438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 26/42] fix: a synchronised batch stays usable after a function
 panics

---
 sync.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sync.go b/sync.go
index 0627966..b5b633d 100644
--- a/sync.go
+++ b/sync.go
@@ -19,7 +19,6 @@ func NewSyncBatch(batch Batch) *SyncBatch {
 
 func (s *SyncBatch) WithSync(f func(batch Batch) error) error {
 	s.mu.Lock()
-	err := f(s.batch)
-	s.mu.Unlock()
-	return err
+	defer s.mu.Unlock()
+	return f(s.batch)
 }
-- 
2.43.0


From b4113dabba63c23ca3f4bada6e65301760874bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 27/42] fix: pooled serializer buffers are empty when reused

---
 serializers/msgp.go     | 2 ++
 serializers/msgp_gen.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/serializers/msgp.go b/serializers/msgp.go
index 0921dd7..a6f7c13 100644
--- a/serializers/msgp.go
+++ b/serializers/msgp.go
@@ -75,6 +75,8 @@ func (m *MsgpackSerializer) getBuffer() bytes.Buffer {
 
 func (m *MsgpackSerializer) freeBuffer(buffer bytes.Buffer) {
 	if m.Buffer != nil {
+		// the next user appends to the buffer.
+		buffer.Reset()
 		m.Buffer.Put(buffer)
 	}
 }
diff --git a/serializers/msgp_gen.go b/serializers/msgp_gen.go
index a7cca1d..f24c323 100644
--- a/serializers/msgp_gen.go
+++ b/serializers/msgp_gen.go
@@ -88,6 +88,8 @@ func (m *MsgpackGenSerializer) getBuffer() bytes.Buffer {
 
 func (m *MsgpackGenSerializer) freeBuffer(buffer bytes.Buffer) {
 	if m.Buffer != nil {
+		// the next user appends to the buffer.
+		buffer.Reset()
 		m.Buffer.Put(buffer)
 	}
 }
-- 
2.43.0


From 93ee699101a55feac85bbf9cb859e5052edab524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 28/42] fix: filter file storer deletes only files of the range

---
 filters/filter_fs_storer.go | 43 +++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/filters/filter_fs_storer.go b/filters/filter_fs_storer.go
index ca8f547..b6ea6d0 100644
--- a/filters/filter_fs_storer.go
+++ b/filters/filter_fs_storer.go
@@ -3,10 +3,10 @@ package filters
 import (
 	"bytes"
 	"io"
-	"io/fs"
 	"os"
 	"path"
 	"regexp"
+	"strings"
 
 	"github.com/go-bond/bond"
 )
@@ -41,17 +41,42 @@ func (f *FilterFSStorer) Set(key []byte, value []byte, opt bond.WriteOptions, ba
 }
 
 func (f *FilterFSStorer) DeleteRange(start []byte, end []byte, opt bond.WriteOptions, batch ...bond.Batch) error {
-	startFile := []byte(f.prepareFilePath("", string(start)))
+	startFile := f.prepareFilePath("", string(start))
+	endFile := f.prepareFilePath("", string(end))
 
-	dirFS := os.DirFS(f.path)
-	err := fs.WalkDir(dirFS, ".", func(filePath string, d fs.DirEntry, err error) error {
-		if bytes.Compare([]byte(filePath), startFile) >= 0 {
-			return os.Remove(path.Join(f.path, filePath))
+	inRange := func(name string) bool {
+		return startFile <= name && name < endFile
+	}
+	// The end of a prefix range does not survive as file name if its last byte
+	// is one of those left out.
+	if isPrefixEnd(start, end) {
+		inRange = func(name string) bool {
+			return strings.HasPrefix(name, startFile)
+		}
+	}
+
+	entries, err := os.ReadDir(f.path)
+	if err != nil {
+		return err
+	}
+
+	for _, entry := range entries {
+		if entry.IsDir() || !inRange(entry.Name()) {
+			continue
+		}
+		if err = os.Remove(path.Join(f.path, entry.Name())); err != nil {
+			return err
 		}
-		return nil
-	})
+	}
+	return nil
+}
 
-	return err
+// isPrefixEnd tells whether end is the exclusive end of the keys that start
+// with prefix.
+func isPrefixEnd(prefix []byte, end []byte) bool {
+	n := len(prefix)
+	return n > 0 && len(end) == n && prefix[n-1] != 0xFF && end[n-1] == prefix[n-1]+1 &&
+		bytes.Equal(prefix[:n-1], end[:n-1])
 }
 
 func (f *FilterFSStorer) prepareFilePath(root, fileName string) string {
-- 
2.43.0


From ffd6a5e05b3c6786d92e24c64f23481aa5df3da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 29/42] fix: rebuilding the index with the highest id removes
 its old entries

---
 table.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 5d9e0e3..8cf324d 100644
--- a/table.go
+++ b/table.go
@@ -272,7 +272,8 @@ func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
 		idxsMap[idx.IndexID] = idx
 		err := t.db.DeleteRange(
 			[]byte{byte(t.id), byte(idx.IndexID)},
-			[]byte{byte(t.id), byte(idx.IndexID + 1)}, Sync)
+			// IndexID + 1 would overflow for the highest id.
+			[]byte{byte(t.id), byte(idx.IndexID), 0xFF, 0xFF, 0xFF, 0xFF}, Sync)
 		if err != nil {
 			return fmt.Errorf("failed to delete index: %w", err)
 		}
-- 
2.43.0


From c4de27383dc77e982f54954c8303ccfbe969e869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 30/42] fix: rebuilding an index reports failed reads and
 closes its iterator and batches

---
 table.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/table.go b/table.go
index 8cf324d..ee5b34d 100644
--- a/table.go
+++ b/table.go
@@ -290,6 +290,9 @@ func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
 			UpperBound: prefixSuccessor,
 		},
 	})
+	defer func() {
+		_ = iter.Close()
+	}()
 
 	batch := t.db.Batch(BatchTypeWriteOnly)
 	defer func() {
@@ -326,17 +329,20 @@ func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
 				return fmt.Errorf("failed to commit reindex batch: %w", err)
 			}
 
+			_ = batch.Close()
 			batch = t.db.Batch(BatchTypeWriteOnly)
 		}
 	}
 
+	if err := iter.Error(); err != nil {
+		return fmt.Errorf("failed to read rows during reindexing: %w", err)
+	}
+
 	err := batch.Commit(Sync)
 	if err != nil {
 		return fmt.Errorf("failed to commit reindex batch: %w", err)
 	}
 
-	_ = iter.Close()
-
 	return nil
 }
 
-- 
2.43.0


From cbd188a4a936658f793d19dc9dee7244c97732f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 31/42] fix: a crash while writing the engine version file
 leaves the database openable

---
 bond.go | 47 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/bond.go b/bond.go
index 7e0947f..809d8e3 100644
--- a/bond.go
+++ b/bond.go
@@ -174,9 +174,7 @@ func Open(dirname string, opts *Options) (DB, error) {
 	if err != nil && os.IsNotExist(err) {
 		// create version for to check invariant in the
 		// next open.
-		if err := os.WriteFile(pebbelVersionPath,
-			[]byte(fmt.Sprintf("%d", opts.PebbleOptions.FormatMajorVersion)),
-			os.ModePerm); err != nil {
+		if err := writePebbleFormatVersion(bondPath, uint64(opts.PebbleOptions.FormatMajorVersion)); err != nil {
 			return nil, err
 		}
 	} else {
@@ -643,12 +641,49 @@ func MigratePebbleFormatVersion(dir string, upgradeVersion uint64) error {
 	}
 	defer db.Close()
 
-	versionFile, err := os.OpenFile(filepath.Join(dir, "bond", PebbleFormatFile), os.O_RDWR|os.O_CREATE|os.O_TRUNC, os.ModePerm)
+	return writePebbleFormatVersion(filepath.Join(dir, "bond"), upgradeVersion)
+}
+
+// writePebbleFormatVersion replaces the version file in bondPath. The file has
+// either the old or the new version after a crash at any point.
+func writePebbleFormatVersion(bondPath string, version uint64) error {
+	versionPath := filepath.Join(bondPath, PebbleFormatFile)
+	tmpPath := versionPath + ".tmp"
+
+	file, err := os.OpenFile(tmpPath, os.O_RDWR|os.O_CREATE|os.O_TRUNC, os.ModePerm)
+	if err != nil {
+		return err
+	}
+	_, err = file.Write([]byte(fmt.Sprintf("%d", version)))
+	if err == nil {
+		err = file.Sync()
+	}
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(tmpPath, versionPath)
+	}
 	if err != nil {
+		_ = os.Remove(tmpPath)
 		return err
 	}
 
-	defer versionFile.Close()
-	_, err = versionFile.Write([]byte(fmt.Sprintf("%d", upgradeVersion)))
+	// sync the directories, otherwise the file can be lost or be the old one.
+	if err = syncDir(bondPath); err != nil {
+		return err
+	}
+	return syncDir(filepath.Dir(bondPath))
+}
+
+func syncDir(path string) error {
+	dir, err := os.Open(path)
+	if err != nil {
+		return err
+	}
+	err = dir.Sync()
+	if closeErr := dir.Close(); err == nil {
+		err = closeErr
+	}
 	return err
 }
-- 
2.43.0


From df980538b4a02cc62a1be1b22b329b18f653e311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 32/42] fix: open closes the engine when it refuses the data
 version and does not overwrite one it cannot read

---
 bond.go    | 10 ++++------
 version.go | 36 ++++++++++++++++++++++++++++++------
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/bond.go b/bond.go
index 809d8e3..c35adbb 100644
--- a/bond.go
+++ b/bond.go
@@ -221,12 +221,10 @@ func Open(dirname string, opts *Options) (DB, error) {
 		}, DefaultNumberOfPreAllocBytesArrays),
 	}
 
-	if db.Version() == 0 {
-		if err := db.initVersion(); err != nil {
-			return nil, err
-		}
-	} else if db.Version() != BOND_DB_DATA_VERSION {
-		return nil, fmt.Errorf("bond db version is %d but expecting %d", db.Version(), BOND_DB_DATA_VERSION)
+	if err := db.checkVersion(); err != nil {
+		// the directory is locked until it is closed.
+		_ = pdb.Close()
+		return nil, err
 	}
 
 	return db, nil
diff --git a/version.go b/version.go
index f8f4db1..a4a4b4d 100644
--- a/version.go
+++ b/version.go
@@ -13,20 +13,44 @@ const (
 )
 
 func (db *_db) Version() int {
-	value, closer, err := db.pebble.Get(bondDataVersionKey())
+	ver, err := db.readVersion()
 	if err != nil {
 		return 0
 	}
+	return ver
+}
+
+// readVersion returns the stored version, zero if there is none yet.
+func (db *_db) readVersion() (int, error) {
+	value, closer, err := db.pebble.Get(bondDataVersionKey())
+	if err == pebble.ErrNotFound {
+		return 0, nil
+	}
+	if err != nil {
+		return 0, err
+	}
 	defer func() { _ = closer.Close() }()
 
-	ver, _ := strconv.ParseInt(string(value), 10, 32)
-	return int(ver)
+	ver, err := strconv.ParseInt(string(value), 10, 32)
+	return int(ver), err
 }
 
-func (db *_db) initVersion() error {
-	if db.Version() > 0 {
-		return nil
+// checkVersion writes the version to a new database and compares it otherwise.
+func (db *_db) checkVersion() error {
+	ver, err := db.readVersion()
+	if err != nil {
+		return fmt.Errorf("failed to read bond db version: %w", err)
+	}
+	if ver == 0 {
+		return db.initVersion()
+	}
+	if ver != BOND_DB_DATA_VERSION {
+		return fmt.Errorf("bond db version is %d but expecting %d", ver, BOND_DB_DATA_VERSION)
 	}
+	return nil
+}
+
+func (db *_db) initVersion() error {
 	ver := fmt.Sprintf("%d", BOND_DB_DATA_VERSION)
 	return db.pebble.Set(bondDataVersionKey(), []byte(ver), pebble.Sync)
 }
-- 
2.43.0


From 808671fb56ba4bb55de63252630608d2dc599483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 33/42] fix: a failed first open does not leave an engine
 version behind

---
 bond.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bond.go b/bond.go
index c35adbb..97341fe 100644
--- a/bond.go
+++ b/bond.go
@@ -171,7 +171,8 @@ func Open(dirname string, opts *Options) (DB, error) {
 		return nil, err
 	}
 
-	if err != nil && os.IsNotExist(err) {
+	versionCreated := os.IsNotExist(err)
+	if versionCreated {
 		// create version for to check invariant in the
 		// next open.
 		if err := writePebbleFormatVersion(bondPath, uint64(opts.PebbleOptions.FormatMajorVersion)); err != nil {
@@ -193,6 +194,10 @@ func Open(dirname string, opts *Options) (DB, error) {
 
 	pdb, err := pebble.Open(dirname, opts.PebbleOptions)
 	if err != nil {
+		if versionCreated {
+			// the version was not taken, it must not bind the next open.
+			_ = os.Remove(pebbelVersionPath)
+		}
 		return nil, err
 	}
 
-- 
2.43.0


From c3cb845e4e302cf148d297abb82a0e4ae0b61bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 34/42] fix: migration refuses what the engine cannot do and
 directories without a database

---
 bond.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bond.go b/bond.go
index 97341fe..a2997e3 100644
--- a/bond.go
+++ b/bond.go
@@ -631,6 +631,7 @@ func PebbleFormatVersion(dir string) (uint64, error) {
 func MigratePebbleFormatVersion(dir string, upgradeVersion uint64) error {
 	opt := DefaultPebbleOptions()
 	opt.FormatMajorVersion = pebble.FormatMajorVersion(upgradeVersion)
+	opt.ErrorIfNotExists = true
 
 	// expand the path if it is not absolute
 	dir, err := filepath.Abs(dir)
@@ -644,6 +645,11 @@ func MigratePebbleFormatVersion(dir string, upgradeVersion uint64) error {
 	}
 	defer db.Close()
 
+	// the engine keeps its version if it is newer or cannot be changed
+	if engineVersion := uint64(db.FormatMajorVersion()); engineVersion != upgradeVersion {
+		return fmt.Errorf("cannot migrate to pebble version %d, db is in %d", upgradeVersion, engineVersion)
+	}
+
 	return writePebbleFormatVersion(filepath.Join(dir, "bond"), upgradeVersion)
 }
 
-- 
2.43.0


From 36e3520c34707f31918ac4806e9da460bcb71c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 35/42] fix: inspection of tables with struct entries does not
 panic

---
 inspect/inspect.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/inspect/inspect.go b/inspect/inspect.go
index 65db218..3dd6060 100644
--- a/inspect/inspect.go
+++ b/inspect/inspect.go
@@ -91,7 +91,7 @@ func (in *inspect) Query(ctx context.Context, table string, index string, indexS
 
 	if indexInfo.Name() != bond.PrimaryIndexName {
 		indexValue := reflect.ValueOf(indexInfo)
-		indexSelectorValue := utils.MakeValue(tableInfo.EntryType())
+		indexSelectorValue := makeEntry(tableInfo.EntryType())
 		err = setFields(indexSelectorValue, indexSelector)
 		if err != nil {
 			return nil, err
@@ -144,7 +144,7 @@ func (in *inspect) Query(ctx context.Context, table string, index string, indexS
 	}
 
 	if after != nil {
-		afterValue := utils.MakeValue(tableInfo.EntryType())
+		afterValue := makeEntry(tableInfo.EntryType())
 		err = setFields(afterValue, after)
 		if err != nil {
 			return nil, err
@@ -205,6 +205,15 @@ func (in *inspect) findTableAndIndexInfo(table string, index string) (bond.Table
 	return tableInfo, indexInfo, nil
 }
 
+// makeEntry makes a settable empty entry of the type.
+func makeEntry(entryType reflect.Type) reflect.Value {
+	value := utils.MakeValue(entryType)
+	if entryType.Kind() != reflect.Ptr {
+		return value.Elem()
+	}
+	return value
+}
+
 func setFields(val reflect.Value, toSet map[string]interface{}) error {
 	if val.Kind() == reflect.Ptr {
 		val = val.Elem()
-- 
2.43.0


From c467555cb73d29b49f6ae8e1b313867253afa183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 36/42] fix: inspection does not panic on null and named types
 and does not change values of other number types

---
 inspect/inspect.go | 87 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 70 insertions(+), 17 deletions(-)

diff --git a/inspect/inspect.go b/inspect/inspect.go
index 3dd6060..9f5dec1 100644
--- a/inspect/inspect.go
+++ b/inspect/inspect.go
@@ -2,6 +2,7 @@ package inspect
 
 import (
 	"context"
+	"encoding/json"
 	"fmt"
 	"reflect"
 
@@ -110,17 +111,13 @@ func (in *inspect) Query(ctx context.Context, table string, index string, indexS
 			row := structs.Map(args[0].Interface())
 
 			for filterField, filterInterface := range filter {
-				fv := reflect.ValueOf(filterInterface)
-				if rowInterface, ok := row[filterField]; ok {
-					rv := reflect.ValueOf(rowInterface)
-					if fv.Kind() != rv.Kind() {
-						if fv.CanConvert(rv.Type()) {
-							filterInterface = fv.Convert(rv.Type()).Interface()
-						} else {
-							ret = false
-							break
-						}
+				if rowInterface, ok := row[filterField]; ok && rowInterface != nil {
+					filterValue, err := convertTo(filterInterface, reflect.TypeOf(rowInterface))
+					if err != nil {
+						ret = false
+						break
 					}
+					filterInterface = filterValue.Interface()
 
 					if !reflect.DeepEqual(filterInterface, rowInterface) {
 						ret = false
@@ -222,15 +219,14 @@ func setFields(val reflect.Value, toSet map[string]interface{}) error {
 	for fieldNameToSet, valueToSetInterface := range toSet {
 		fields := structs.Map(val.Interface())
 		if _, ok := fields[fieldNameToSet]; ok {
-			vt := reflect.ValueOf(valueToSetInterface)
 			vv := val.FieldByName(fieldNameToSet)
+			if !vv.IsValid() {
+				return fmt.Errorf("field '%s' can not be set", fieldNameToSet)
+			}
 
-			if vt.Kind() != vv.Kind() {
-				if vt.CanConvert(vv.Type()) {
-					vt = vt.Convert(vv.Type())
-				} else {
-					return fmt.Errorf("field type mismatch %s != %s", vt.Kind().String(), vv.Kind().String())
-				}
+			vt, err := convertTo(valueToSetInterface, vv.Type())
+			if err != nil {
+				return err
 			}
 
 			vv.Set(vt)
@@ -241,3 +237,60 @@ func setFields(val reflect.Value, toSet map[string]interface{}) error {
 
 	return nil
 }
+
+// convertTo converts the value to the type. It fails if that changes the value.
+func convertTo(value interface{}, typ reflect.Type) (reflect.Value, error) {
+	if raw, ok := value.(json.RawMessage); ok {
+		return convertJSONTo(raw, typ)
+	}
+
+	v := reflect.ValueOf(value)
+	if !v.IsValid() {
+		return v, fmt.Errorf("field type mismatch null != %s", typ.Kind().String())
+	}
+	if v.Type() == typ {
+		return v, nil
+	}
+
+	mismatch := fmt.Errorf("field type mismatch %s != %s", v.Kind().String(), typ.Kind().String())
+	if isNumber(v.Type()) != isNumber(typ) || !v.CanConvert(typ) {
+		return v, mismatch
+	}
+
+	converted := v.Convert(typ)
+	if isNumber(typ) && (isNegative(converted) != isNegative(v) || !converted.Convert(v.Type()).Equal(v)) {
+		return v, mismatch
+	}
+	return converted, nil
+}
+
+func convertJSONTo(raw json.RawMessage, typ reflect.Type) (reflect.Value, error) {
+	value := reflect.New(typ)
+	if string(raw) == "null" {
+		switch typ.Kind() {
+		case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface:
+			return value.Elem(), nil
+		}
+		return value, fmt.Errorf("field type mismatch null != %s", typ.Kind().String())
+	}
+
+	err := json.Unmarshal(raw, value.Interface())
+	if err == nil {
+		return value.Elem(), nil
+	}
+
+	// integers in another notation, e.g. 1.0 or 1e3
+	var number float64
+	if isNumber(typ) && json.Unmarshal(raw, &number) == nil {
+		return convertTo(number, typ)
+	}
+	return value, err
+}
+
+func isNumber(typ reflect.Type) bool {
+	return reflect.Int <= typ.Kind() && typ.Kind() <= reflect.Float64
+}
+
+func isNegative(v reflect.Value) bool {
+	return v.CanInt() && v.Int() < 0 || v.CanFloat() && v.Float() < 0
+}
-- 
2.43.0


From 3b285e969d04462992f8a4a93a59bbdad3deeb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 37/42] fix: remote inspection keeps large integers and byte
 fields exact and honours the context

---
 inspect/inspect_cli.go            |  6 ++---
 inspect/inspect_handler.go        | 32 ++++++++++++++++++-----
 inspect/inspect_handler_client.go | 42 ++++++++++++++++++++++++++++++-
 3 files changed, 70 insertions(+), 10 deletions(-)

diff --git a/inspect/inspect_cli.go b/inspect/inspect_cli.go
index ed0fcf5..08d6439 100644
--- a/inspect/inspect_cli.go
+++ b/inspect/inspect_cli.go
@@ -192,7 +192,7 @@ func NewInspectCLI(init func(path string) (Inspect, error)) *cli.Command {
 						context.Background(), time.Now().Add(ctx.Duration(_FlagDeadline.Name)))
 					defer cancel()
 
-					var indexSelector map[string]interface{}
+					var indexSelector rawFields
 					if indexSelectorStr := ctx.String(_FlagIndexSelector.Name); indexSelectorStr != "" {
 						err = json.Unmarshal([]byte(indexSelectorStr), &indexSelector)
 						if err != nil {
@@ -200,7 +200,7 @@ func NewInspectCLI(init func(path string) (Inspect, error)) *cli.Command {
 						}
 					}
 
-					var filter map[string]interface{}
+					var filter rawFields
 					if filterStr := ctx.String(_FlagFilter.Name); filterStr != "" {
 						err = json.Unmarshal([]byte(filterStr), &filter)
 						if err != nil {
@@ -208,7 +208,7 @@ func NewInspectCLI(init func(path string) (Inspect, error)) *cli.Command {
 						}
 					}
 
-					var after map[string]interface{}
+					var after rawFields
 					if afterStr := ctx.String(_FlagAfter.Name); afterStr != "" {
 						err = json.Unmarshal([]byte(afterStr), &after)
 						if err != nil {
diff --git a/inspect/inspect_handler.go b/inspect/inspect_handler.go
index ee0ba20..6b71d35 100644
--- a/inspect/inspect_handler.go
+++ b/inspect/inspect_handler.go
@@ -177,12 +177,32 @@ func buildEntryFieldsHandler(inspect Inspect) http.HandlerFunc {
 }
 
 type requestQuery struct {
-	Table         string                 `json:"table"`
-	Index         string                 `json:"index"`
-	IndexSelector map[string]interface{} `json:"indexSelector"`
-	Filter        map[string]interface{} `json:"filter"`
-	Limit         uint64                 `json:"limit"`
-	After         map[string]interface{} `json:"after"`
+	Table         string    `json:"table"`
+	Index         string    `json:"index"`
+	IndexSelector rawFields `json:"indexSelector"`
+	Filter        rawFields `json:"filter"`
+	Limit         uint64    `json:"limit"`
+	After         rawFields `json:"after"`
+}
+
+// rawFields keeps the values as json until the types of the fields are known,
+// otherwise large integers and byte slices would not be the ones sent.
+type rawFields map[string]interface{}
+
+func (f *rawFields) UnmarshalJSON(data []byte) error {
+	var raw map[string]json.RawMessage
+	if err := json.Unmarshal(data, &raw); err != nil {
+		return err
+	}
+
+	*f = nil
+	if raw != nil {
+		*f = make(rawFields, len(raw))
+	}
+	for name, value := range raw {
+		(*f)[name] = value
+	}
+	return nil
 }
 
 func buildQueryHandler(inspect Inspect) http.HandlerFunc {
diff --git a/inspect/inspect_handler_client.go b/inspect/inspect_handler_client.go
index fb5db8c..259598d 100644
--- a/inspect/inspect_handler_client.go
+++ b/inspect/inspect_handler_client.go
@@ -1,9 +1,12 @@
 package inspect
 
 import (
+	"bytes"
 	"context"
 	"encoding/json"
 	"fmt"
+	"math"
+	"strconv"
 	"strings"
 
 	"github.com/go-resty/resty/v2"
@@ -150,6 +153,7 @@ func (i *inspectClient) Query(ctx context.Context, table string, index string, i
 	}
 
 	resp, err := i.client.R().
+		SetContext(ctx).
 		SetHeaders(i.headers).
 		SetBody(rqData).
 		Post(i.queryURL)
@@ -168,10 +172,46 @@ func (i *inspectClient) Query(ctx context.Context, table string, index string, i
 	}
 
 	var result []map[string]interface{}
-	err = json.Unmarshal(resp.Body(), &result)
+	decoder := json.NewDecoder(bytes.NewReader(resp.Body()))
+	decoder.UseNumber()
+	err = decoder.Decode(&result)
 	if err != nil {
 		return nil, err
 	}
 
+	for _, row := range result {
+		for name, value := range row {
+			row[name] = exactNumbers(value)
+		}
+	}
+
 	return result, nil
 }
+
+// exactNumbers replaces json numbers by float64 or, if that is not exact, by an
+// integer type.
+func exactNumbers(value interface{}) interface{} {
+	switch value := value.(type) {
+	case json.Number:
+		number, err := value.Float64()
+		if err == nil && math.Abs(number) < 1<<53 {
+			return number
+		}
+		if number, err := strconv.ParseInt(value.String(), 10, 64); err == nil {
+			return number
+		}
+		if number, err := strconv.ParseUint(value.String(), 10, 64); err == nil {
+			return number
+		}
+		return number
+	case []interface{}:
+		for i := range value {
+			value[i] = exactNumbers(value[i])
+		}
+	case map[string]interface{}:
+		for name := range value {
+			value[name] = exactNumbers(value[name])
+		}
+	}
+	return value
+}
-- 
2.43.0


From 96d467737cbbec34590b91f2ab481ee845cc6b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 38/42] fix: After with an order function and equal rows
 follows the order of the selector parts

---
 query.go | 58 +++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/query.go b/query.go
index 452cbec..b22c653 100644
--- a/query.go
+++ b/query.go
@@ -437,17 +437,7 @@ func (q Query[T]) selectorWithAfter() (Selector[T], error) {
 		points := q.indexSelector.(SelectorPoints[T]).Points()
 		afterKey := encodeIndexKey[T](q.table, q.afterSelector, q.index, []byte{})
 
-		keys := make([][2][]byte, 0, len(points))
-		for _, pnt := range points {
-			lower := encodeIndexKey[T](q.table, pnt, q.index, []byte{})
-			upper := keyInclusiveEnd(append([]byte{}, lower...))
-			if q.index.IndexID != PrimaryIndexID {
-				upper = keySuccessor(lower[:_KeyPrefixSplitIndex(lower)], []byte{})
-			}
-			keys = append(keys, [2][]byte{lower, upper})
-		}
-
-		part, rest := q.splitAfter(afterKey, keys)
+		part, rest := q.splitAfter(afterKey, q.selectorKeys())
 
 		var newPoints []T
 		if q.reverse {
@@ -479,14 +469,7 @@ func (q Query[T]) selectorWithAfter() (Selector[T], error) {
 		ranges := q.indexSelector.(SelectorRanges[T]).Ranges()
 		afterKey := encodeIndexKey[T](q.table, q.afterSelector, q.index, []byte{})
 
-		keys := make([][2][]byte, 0, len(ranges))
-		for _, rng := range ranges {
-			lower := encodeIndexKey[T](q.table, rng[0], q.index, []byte{})
-			upper := keyInclusiveEnd(encodeIndexKey[T](q.table, rng[1], q.index, []byte{}))
-			keys = append(keys, [2][]byte{lower, upper})
-		}
-
-		part, rest := q.splitAfter(afterKey, keys)
+		part, rest := q.splitAfter(afterKey, q.selectorKeys())
 
 		var newRanges [][]T
 		if part != -1 && !q.reverse {
@@ -504,6 +487,30 @@ func (q Query[T]) selectorWithAfter() (Selector[T], error) {
 	}
 }
 
+// selectorKeys returns the lower bounds and exclusive upper bounds of the parts
+// of a multi-point or multi-range selector.
+func (q Query[T]) selectorKeys() [][2][]byte {
+	var keys [][2][]byte
+	switch sel := q.indexSelector.(type) {
+	case SelectorPoints[T]:
+		for _, pnt := range sel.Points() {
+			lower := encodeIndexKey[T](q.table, pnt, q.index, []byte{})
+			upper := keyInclusiveEnd(append([]byte{}, lower...))
+			if q.index.IndexID != PrimaryIndexID {
+				upper = keySuccessor(lower[:_KeyPrefixSplitIndex(lower)], []byte{})
+			}
+			keys = append(keys, [2][]byte{lower, upper})
+		}
+	case SelectorRanges[T]:
+		for _, rng := range sel.Ranges() {
+			lower := encodeIndexKey[T](q.table, rng[0], q.index, []byte{})
+			upper := keyInclusiveEnd(encodeIndexKey[T](q.table, rng[1], q.index, []byte{}))
+			keys = append(keys, [2][]byte{lower, upper})
+		}
+	}
+	return keys
+}
+
 // splitAfter finds the part of a selector that contains the after key and the
 // parts that follow it in the direction of the query. If there is no such part
 // the ones past the after key follow. The keys are lower bounds and exclusive
@@ -544,13 +551,24 @@ func (q Query[T]) recordsAfter(records []T, index *Index[T]) []T {
 		}
 	}
 
+	// the order of the scan is the one of the selector parts first
+	var keys [][2][]byte
+	if len(q.intersects) == 0 {
+		keys = q.selectorKeys()
+	}
+
 	afterIndexKey := encodeIndexKey[T](q.table, q.afterSelector, index, []byte{})
+	afterPart, _ := q.splitAfter(afterIndexKey, keys)
 	for i, record := range records {
 		if q.orderLessFunc != nil && q.orderLessFunc(record, q.afterSelector) {
 			continue
 		}
 		if q.orderLessFunc == nil || !q.orderLessFunc(q.afterSelector, record) {
-			c := bytes.Compare(encodeIndexKey[T](q.table, record, index, []byte{}), afterIndexKey)
+			indexKey := encodeIndexKey[T](q.table, record, index, []byte{})
+			c, part := bytes.Compare(indexKey, afterIndexKey), -1
+			if part, _ = q.splitAfter(indexKey, keys); part != afterPart {
+				c = part - afterPart
+			}
 			if !q.reverse && c < 0 || q.reverse && c > 0 {
 				continue
 			}
-- 
2.43.0


From eac514b0383f5a6c63852c59cb5cf2a45a92695b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 39/42] fix: reject the primary index id in AddIndex and
 ReIndex, rebuilding it deleted the rows

---
 table.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/table.go b/table.go
index ee5b34d..480c686 100644
--- a/table.go
+++ b/table.go
@@ -251,7 +251,7 @@ func (t *_table[T]) AddIndex(idxs []*Index[T], reIndex ...bool) error {
 	added := make(map[IndexID]*Index[T], len(idxs))
 	for _, idx := range idxs {
 		_, ok := t.secondaryIndexes[idx.IndexID]
-		if _, okAdded := added[idx.IndexID]; ok || okAdded {
+		if _, okAdded := added[idx.IndexID]; ok || okAdded || idx.IndexID == PrimaryIndexID {
 			t.mutex.Unlock()
 			return fmt.Errorf("found duplicate IndexID %d", idx.IndexID)
 		}
@@ -267,6 +267,13 @@ func (t *_table[T]) AddIndex(idxs []*Index[T], reIndex ...bool) error {
 }
 
 func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
+	for _, idx := range idxs {
+		// the entries of the primary index are the rows themselves.
+		if idx.IndexID == PrimaryIndexID {
+			return fmt.Errorf("primary index can not be rebuilt")
+		}
+	}
+
 	idxsMap := make(map[IndexID]*Index[T])
 	for _, idx := range idxs {
 		idxsMap[idx.IndexID] = idx
-- 
2.43.0


From f9e8ee809620fb44d7084a8de6c0dd6b4708f661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 40/42] fix: refuse table ids out of range in the command line
 tool, they selected another table

---
 cmd/bond-cli/dump.go    | 24 ++++++++++++++++++++----
 cmd/bond-cli/restore.go |  8 ++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/cmd/bond-cli/dump.go b/cmd/bond-cli/dump.go
index 03c27f2..2f290ac 100644
--- a/cmd/bond-cli/dump.go
+++ b/cmd/bond-cli/dump.go
@@ -1,6 +1,9 @@
 package main
 
 import (
+	"fmt"
+	"math"
+
 	"github.com/go-bond/bond"
 	"github.com/urfave/cli/v2"
 )
@@ -42,15 +45,28 @@ func init() {
 			_FlagExportTables,
 		},
 		Action: func(ctx *cli.Context) error {
-			db, err := bond.Open(ctx.String("bond-dir"), nil)
+			tables, err := tableIDs(ctx.IntSlice("tables"))
 			if err != nil {
 				return err
 			}
-			var tables []bond.TableID
-			for _, id := range ctx.IntSlice("tables") {
-				tables = append(tables, bond.TableID(id))
+			db, err := bond.Open(ctx.String("bond-dir"), nil)
+			if err != nil {
+				return err
 			}
 			return db.Dump(ctx.Context, ctx.String("dir"), tables, ctx.Bool("with-index"))
 		},
 	}
 }
+
+// tableIDs converts the table ids of the command line, one that is out of range
+// would select another table.
+func tableIDs(ids []int) ([]bond.TableID, error) {
+	var tables []bond.TableID
+	for _, id := range ids {
+		if id < 0 || id > math.MaxUint8 {
+			return nil, fmt.Errorf("invalid table id %d", id)
+		}
+		tables = append(tables, bond.TableID(id))
+	}
+	return tables, nil
+}
diff --git a/cmd/bond-cli/restore.go b/cmd/bond-cli/restore.go
index 77283b9..fe70049 100644
--- a/cmd/bond-cli/restore.go
+++ b/cmd/bond-cli/restore.go
@@ -18,13 +18,13 @@ func init() {
 			_FlagExportTables,
 		},
 		Action: func(ctx *cli.Context) error {
-			db, err := bond.Open(ctx.String("bond-dir"), nil)
+			tables, err := tableIDs(ctx.IntSlice("tables"))
 			if err != nil {
 				return err
 			}
-			var tables []bond.TableID
-			for _, id := range ctx.IntSlice("tables") {
-				tables = append(tables, bond.TableID(id))
+			db, err := bond.Open(ctx.String("bond-dir"), nil)
+			if err != nil {
+				return err
 			}
 			return db.Restore(ctx.Context, ctx.String("dir"), tables, ctx.Bool("with-index"))
 		},
-- 
2.43.0


From f821ece1d767f176d92e4f644bef001babcdbb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 41/42] fix: clearing a filter whose key prefix ends in 0xFF
 removes what is stored of it

---
 bloom/bloom_filter.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index a27a82a..6536776 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -208,10 +208,7 @@ func (b *BloomFilter) Clear(_ context.Context, store bond.FilterStorer) error {
 	b.mutex.Lock()
 	defer b.mutex.Unlock()
 
-	end := make([]byte, len(b.keyPrefix))
-	copy(end, b.keyPrefix)
-	end[len(end)-1]++
-	if err := store.DeleteRange(b.keyPrefix, end, bond.Sync); err != nil {
+	if err := store.DeleteRange(b.keyPrefix, prefixEnd(b.keyPrefix), bond.Sync); err != nil {
 		return err
 	}
 
@@ -228,6 +225,19 @@ func (b *BloomFilter) hash(key []byte) int {
 	return int(HashBytes(key, int32(b.numOfBuckets), hasher))
 }
 
+// prefixEnd returns the exclusive end of the keys a filter with the prefix
+// stores.
+func prefixEnd(prefix []byte) []byte {
+	for i := len(prefix) - 1; i >= 0; i-- {
+		if prefix[i] != 0xFF {
+			end := append([]byte{}, prefix[:i+1]...)
+			end[i]++
+			return end
+		}
+	}
+	return append(append([]byte{}, prefix...), 0xFF)
+}
+
 func buildKey(buff []byte, keyPrefix []byte, bucketNo int) []byte {
 	buffer := bytes.NewBuffer(buff)
 	_, _ = buffer.Write(append(keyPrefix, []byte(fmt.Sprintf("%d", bucketNo))...))
-- 
2.43.0


From 9e3c58186e50e7a76c3690054b4d77e67de75815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 42/42] fix: a version file whose directory could not be synced
 is not taken for durable by the next open

---
 bond.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bond.go b/bond.go
index a2997e3..6ecd090 100644
--- a/bond.go
+++ b/bond.go
@@ -176,6 +176,8 @@ func Open(dirname string, opts *Options) (DB, error) {
 		// create version for to check invariant in the
 		// next open.
 		if err := writePebbleFormatVersion(bondPath, uint64(opts.PebbleOptions.FormatMajorVersion)); err != nil {
+			// it may not be durable, so the next open must write it again.
+			_ = os.Remove(pebbelVersionPath)
 			return nil, err
 		}
 	} else {
-- 
2.43.0

