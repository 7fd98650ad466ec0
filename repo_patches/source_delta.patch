From e0a5032baf59989d81886e7eadc89b9356b6b4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 01/57] fix: pagefile free list is written out of bounds once
 the ring wraps

---
 pkg/pagefile/pagefile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pagefile/pagefile.go b/pkg/pagefile/pagefile.go
index dbf9ba2..1c42c4e 100644
--- a/pkg/pagefile/pagefile.go
+++ b/pkg/pagefile/pagefile.go
@@ -100,7 +100,7 @@ func (pf *PageFile) writeFreePageIndices() error {
 	buf := make([]byte, len(pf.freePageIndexes)*8)
 	tail := (pf.freePageHead - pf.freePageCount + len(pf.freePageIndexes)) % len(pf.freePageIndexes)
 	for i := 0; i < pf.freePageCount; i++ {
-		offset := pf.freePageIndexes[tail+i]
+		offset := pf.freePageIndexes[(tail+i)%len(pf.freePageIndexes)]
 		binary.LittleEndian.PutUint64(buf[i*8:(i+1)*8], uint64(offset))
 	}
 	if _, err := pf.ReadWriteSeeker.Seek(0, io.SeekStart); err != nil {
-- 
2.43.0


From 326656a25527ca62f05e246e69b32269d24db147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 02/57] fix: reading back 255 bytes of metadata overflows the
 length and panics

---
 pkg/linkedpage/linkedpage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/linkedpage/linkedpage.go b/pkg/linkedpage/linkedpage.go
index d11bfc0..a3c0d20 100644
--- a/pkg/linkedpage/linkedpage.go
+++ b/pkg/linkedpage/linkedpage.go
@@ -131,7 +131,7 @@ func (m *LinkedPage) Metadata() ([]byte, error) {
 		return nil, err
 	}
 	// the first byte represents the length
-	length := buf[0]
+	length := int(buf[0])
 	return buf[1 : 1+length], nil
 }
 
-- 
2.43.0


From 657d625904fdba8b4e79a5e7427ffb42b59f3344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 03/57] fix: a failure to read the root pointer is taken for an
 empty tree

---
 pkg/bptree/bptree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 51325cd..a2f1e72 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -24,7 +24,7 @@ type BPTree struct {
 func (t *BPTree) root() (*BPTreeNode, pointer.MemoryPointer, error) {
 	mp, err := t.MetaPage.Root()
 	if err != nil || mp.Length == 0 {
-		return nil, mp, nil
+		return nil, mp, err
 	}
 	root, err := t.readNode(mp)
 	if err != nil {
-- 
2.43.0


From 57f7c1a736f4bb50a74b1e6c9571ec489212d249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 04/57] fix: lookups and scans starting past the last key of a
 leaf miss the next leaf

---
 pkg/bptree/bptree.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index a2f1e72..8176f24 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -89,6 +89,10 @@ func (p *TraversalIterator) incr(i, delta int) bool {
 	if rolloverLeft || rolloverRight {
 		// increment the parent node
 		if !p.incr(i+1, delta) {
+			// stay at most one step past the edge so that the iterator can turn around
+			if i > 0 || p.records[i].index < -1 || p.records[i].index > p.records[i].node.NumPointers() {
+				p.records[i].index -= delta
+			}
 			// if we weren't able to, return false
 			return false
 		}
@@ -113,6 +117,11 @@ func (p *TraversalIterator) Next() bool {
 	if p.records == nil {
 		res := p.init()
 
+		if res && p.records[0].index == p.records[0].node.NumPointers() {
+			// every key of this leaf is smaller, the next key is in the next leaf
+			p.records[0].index--
+			return p.incr(0, 1)
+		}
 		return res && (p.records[0].index != p.records[0].node.NumPointers())
 	}
 	return p.incr(0, 1)
-- 
2.43.0


From 0658562b4988ca738a7c6b9d3d0fb20ac4f007a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 05/57] fix: vectors read back from the btree are not the
 vectors written

---
 pkg/btree/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/btree/node.go b/pkg/btree/node.go
index 18c6bf5..21a522e 100644
--- a/pkg/btree/node.go
+++ b/pkg/btree/node.go
@@ -141,7 +141,7 @@ func (n *BTreeNode) UnmarshalBinary(buf []byte) error {
 		vector := make(hnsw.Point, vecdim)
 
 		for vi := range vector {
-			vector[vi] = float32(binary.LittleEndian.Uint32(buf[m:]))
+			vector[vi] = math.Float32frombits(binary.LittleEndian.Uint32(buf[m:]))
 			m += 4
 		}
 
-- 
2.43.0


From 3e9b1ee79e55c99d81786c59b08a550f1afd5e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 06/57] fix: opening a file shorter than a page may append to
 it before refusing it

---
 pkg/pagefile/pagefile.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/pagefile/pagefile.go b/pkg/pagefile/pagefile.go
index 1c42c4e..0014361 100644
--- a/pkg/pagefile/pagefile.go
+++ b/pkg/pagefile/pagefile.go
@@ -46,7 +46,11 @@ func NewPageFile(rws io.ReadWriteSeeker) (*PageFile, error) {
 		return nil, err
 	}
 	buf := make([]byte, pageSizeBytes)
-	_, err := rws.Read(buf)
+	_, err := io.ReadFull(rws, buf)
+	if err == io.ErrUnexpectedEOF {
+		// refuse before anything is written to a file that is not ours
+		return nil, errors.New("file size is not a multiple of the page size")
+	}
 	if err != nil && err != io.EOF {
 		return nil, err
 	}
-- 
2.43.0


From 3ace8fc9ba7334ea670f575a497cf666a96554ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 07/57] fix: re-inserting an id with a new distance breaks the
 order of the neighbour queue

---
 pkg/hnsw/heap.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/hnsw/heap.go b/pkg/hnsw/heap.go
index 5dcff52..dbd955d 100644
--- a/pkg/hnsw/heap.go
+++ b/pkg/hnsw/heap.go
@@ -215,10 +215,12 @@ func (d *DistHeap) Insert(id Id, dist float32) {
 	d.Fix(index)
 }
 
+// Fix restores the heap order after the distance of the item at i changed.
 func (d *DistHeap) Fix(i int) {
-	if !d.down(i, d.Len()) {
-		d.up(i)
-	}
+	// the item may belong on the other kind of level as well as further up or
+	// down, so move what is at i up first and then push down what is left there.
+	d.up(i)
+	d.down(i, d.Len())
 }
 
 func (d DistHeap) IsEmpty() bool      { return len(d.items) == 0 }
-- 
2.43.0


From 605076686b5d34c1f2123912322083c148ff29c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 08/57] fix: a cloned neighbour queue shares its items with the
 original

---
 pkg/hnsw/heap.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/heap.go b/pkg/hnsw/heap.go
index dbd955d..35f699f 100644
--- a/pkg/hnsw/heap.go
+++ b/pkg/hnsw/heap.go
@@ -134,7 +134,10 @@ func (d *DistHeap) Clone() *DistHeap {
 		visited: make(map[Id]int, len(d.visited)),
 	}
 
-	copy(n.items, d.items)
+	for i, item := range d.items {
+		c := *item
+		n.items[i] = &c
+	}
 	maps.Copy(n.visited, d.visited)
 
 	return n
-- 
2.43.0


From ba2ed6dbd4b04737399cc4ad3bcc03883fc1af03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 09/57] fix: a graph with one connection per node panics on the
 first insertion

---
 pkg/hnsw/hnsw.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/hnsw.go b/pkg/hnsw/hnsw.go
index ff9cf6b..bbf5998 100644
--- a/pkg/hnsw/hnsw.go
+++ b/pkg/hnsw/hnsw.go
@@ -49,6 +49,12 @@ func NewHnsw(d int, efConstruction int, M int, entryPoint Point) *Hnsw {
 	points := make([]*Point, 0)
 	points = append(points, &entryPoint)
 
+	levelMultiplier := 1 / math.Log(float64(M))
+	if M < 2 {
+		// the multiplier is not defined for a single connection, use one level
+		levelMultiplier = 0
+	}
+
 	return &Hnsw{
 		entryPointId:         defaultEntryPointId,
 		points:               points,
@@ -57,7 +63,7 @@ func NewHnsw(d int, efConstruction int, M int, entryPoint Point) *Hnsw {
 		efConstruction:       efConstruction,
 		M:                    M,
 		Mmax0:                2 * M,
-		levelMultiplier:      1 / math.Log(float64(M)),
+		levelMultiplier:      levelMultiplier,
 	}
 }
 
-- 
2.43.0


From 58c9010e32ba74493baccc6f6d311f54f961810c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 10/57] fix: adding a point with the same neighbours as an
 earlier one fails

---
 pkg/vectorpage/manager.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/vectorpage/manager.go b/pkg/vectorpage/manager.go
index 5e2541c..7a190d8 100644
--- a/pkg/vectorpage/manager.go
+++ b/pkg/vectorpage/manager.go
@@ -53,7 +53,11 @@ func (vp *VectorPageManager) AddNode(x hnsw.Point) error {
 		return err
 	}
 
-	if err := vp.bptree.Insert(pointer.ReferencedValue{Value: xfriendsBuf}, pointer.MemoryPointer{}); err != nil {
+	// points may share the same friends, the id tells their entries apart
+	if err := vp.bptree.Insert(pointer.ReferencedValue{
+		DataPointer: pointer.MemoryPointer{Offset: uint64(xId)},
+		Value:       xfriendsBuf,
+	}, pointer.MemoryPointer{}); err != nil {
 		return fmt.Errorf("failed to insert buf: %v", err)
 	}
 
-- 
2.43.0


From e115c16ad14481899e3a74bcccc569e297aacf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 11/57] fix: truncated header data panics or is misread

---
 pkg/appendable/appendable.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/appendable/appendable.go b/pkg/appendable/appendable.go
index 02f76d4..15fdf37 100644
--- a/pkg/appendable/appendable.go
+++ b/pkg/appendable/appendable.go
@@ -134,7 +134,10 @@ func (m *FileMeta) UnmarshalBinary(buf []byte) error {
 
 	m.ReadOffset = binary.LittleEndian.Uint64(buf[2:])
 
-	e, _ := binary.Uvarint(buf[10:])
+	e, n := binary.Uvarint(buf[10:])
+	if n <= 0 {
+		return fmt.Errorf("invalid entry count")
+	}
 	m.Entries = e
 
 	return nil
@@ -160,17 +163,20 @@ func (m *IndexMeta) MarshalBinary() ([]byte, error) {
 }
 
 func (m *IndexMeta) UnmarshalBinary(buf []byte) error {
-	if len(buf) < 4 {
+	if len(buf) < 6 {
 		return fmt.Errorf("invalid metadata size: %d", len(buf))
 	}
 	m.FieldType = FieldType(binary.LittleEndian.Uint16(buf[0:]))
 	m.Width = binary.LittleEndian.Uint16(buf[2:])
-	nameLength := binary.LittleEndian.Uint16(buf[4:])
-	if len(buf) < 4+int(nameLength) {
+	nameLength := int(binary.LittleEndian.Uint16(buf[4:]))
+	if len(buf) < 6+nameLength {
 		return fmt.Errorf("invalid metadata size: %d", len(buf))
 	}
 	m.FieldName = string(buf[6 : 6+nameLength])
-	tl, _ := binary.Uvarint(buf[6+nameLength:])
+	tl, n := binary.Uvarint(buf[6+nameLength:])
+	if n <= 0 {
+		return fmt.Errorf("invalid total field value length")
+	}
 	m.TotalFieldValueLength = tl
 	return nil
 }
-- 
2.43.0


From 01e55b16d43417dc51468e96340537b16d0bd7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 12/57] fix: a long field name corrupts the header list

---
 pkg/appendable/index_file.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/appendable/index_file.go b/pkg/appendable/index_file.go
index 263568b..79adbb4 100644
--- a/pkg/appendable/index_file.go
+++ b/pkg/appendable/index_file.go
@@ -1,6 +1,7 @@
 package appendable
 
 import (
+	"encoding/binary"
 	"errors"
 	"fmt"
 	"github.com/kevmo314/appendable/pkg/linkedpage"
@@ -13,6 +14,10 @@ import (
 
 const CurrentVersion = 1
 
+// maxFieldNameLength is the longest field name whose metadata stays within its
+// slot of the header page: 252 bytes less the fixed part and the largest varint.
+const maxFieldNameLength = 252 - 6 - binary.MaxVarintLen64
+
 type DataHandler interface {
 	bptree.DataParser
 	Synchronize(f *IndexFile, df []byte) error
@@ -170,6 +175,10 @@ func (i *IndexFile) FindOrCreateIndex(name string, fieldType FieldType) (*linked
 		mp = next
 	}
 	// we haven't found the index, so we need to create it
+	if len(name) > maxFieldNameLength {
+		// refuse before adding an entry that could not hold its metadata
+		return nil, nil, fmt.Errorf("field name is too long: %d bytes, at most %d are supported", len(name), maxFieldNameLength)
+	}
 	next, err := mp.AddNext()
 	if err != nil {
 		return nil, nil, fmt.Errorf("failed to add next meta page: %w", err)
-- 
2.43.0


From 9441f4dfa3b3f270a4c421a03d857be3fea7c256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 13/57] fix: value references are off when a record has
 whitespace before a colon

---
 pkg/handlers/jsonl.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index 56875f9..915fd47 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -141,7 +141,11 @@ func (j JSONLHandler) handleJSONLObject(f *appendable.IndexFile, r []byte, dec *
 		if key, ok := key.(string); !ok {
 			return fmt.Errorf("expected string key, got '%v'", key)
 		} else {
-			fieldOffset := dec.InputOffset() + 1 // skip the :
+			fieldOffset := dec.InputOffset()
+			for r[data.Offset+uint64(fieldOffset)] != ':' {
+				fieldOffset++ // skip whitespace before the :
+			}
+			fieldOffset++ // skip the :
 
 			value, err := dec.Token()
 			if err != nil {
-- 
2.43.0


From 573aba5a233a93f9c3347429a6ce733c655a5f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 14/57] fix: a searchable field holding anything but text
 cannot be indexed

---
 pkg/handlers/jsonl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index 915fd47..ab19f34 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -155,7 +155,7 @@ func (j JSONLHandler) handleJSONLObject(f *appendable.IndexFile, r []byte, dec *
 			name := strings.Join(append(path, key), ".")
 
 			fts := jsonTypeToFieldType(value)
-			if f.IsSearch(name) {
+			if _, ok := value.(string); ok && f.IsSearch(name) {
 				fts = append(fts, appendable.FieldTypeUnigram, appendable.FieldTypeBigram, appendable.FieldTypeTrigram)
 			}
 
-- 
2.43.0


From 8263185f2ea1177fff4b65734be0aa7e517c3345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 15/57] fix: synchronizing with data shorter than what is
 indexed panics

---
 pkg/handlers/csv.go   | 3 +++
 pkg/handlers/jsonl.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 8e0b1c2..2f4256e 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -36,6 +36,9 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 	if err != nil {
 		return fmt.Errorf("failed to read metadata: %w", err)
 	}
+	if metadata.ReadOffset > uint64(len(df)) {
+		return fmt.Errorf("the data is shorter than what is already indexed: %d < %d", len(df), metadata.ReadOffset)
+	}
 
 	fieldNames, err := f.IndexFieldNames()
 	if err != nil {
diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index ab19f34..b657b3e 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -30,6 +30,9 @@ func (j JSONLHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 	if err != nil {
 		return fmt.Errorf("failed to read metadata: %w", err)
 	}
+	if metadata.ReadOffset > uint64(len(df)) {
+		return fmt.Errorf("the data is shorter than what is already indexed: %d < %d", len(df), metadata.ReadOffset)
+	}
 	for {
 		i := bytes.IndexByte(df[metadata.ReadOffset:], '\n')
 		if i == -1 {
-- 
2.43.0


From 10c2dcfd19ae593938a86566aea816553e01a5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 16/57] fix: a malformed line leaves the index half updated and
 unusable after the line is repaired

---
 pkg/appendable/index_file.go | 12 ++++++++++--
 pkg/handlers/jsonl.go        | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/pkg/appendable/index_file.go b/pkg/appendable/index_file.go
index 79adbb4..c0d7662 100644
--- a/pkg/appendable/index_file.go
+++ b/pkg/appendable/index_file.go
@@ -24,6 +24,14 @@ type DataHandler interface {
 	Format() Format
 }
 
+// ValidateFieldName reports an error if name is too long to be indexed.
+func ValidateFieldName(name string) error {
+	if len(name) > maxFieldNameLength {
+		return fmt.Errorf("field name is too long: %d bytes, at most %d are supported", len(name), maxFieldNameLength)
+	}
+	return nil
+}
+
 // IndexFile is a representation of the entire index file.
 type IndexFile struct {
 	tree        *linkedpage.LinkedPage
@@ -175,9 +183,9 @@ func (i *IndexFile) FindOrCreateIndex(name string, fieldType FieldType) (*linked
 		mp = next
 	}
 	// we haven't found the index, so we need to create it
-	if len(name) > maxFieldNameLength {
+	if err := ValidateFieldName(name); err != nil {
 		// refuse before adding an entry that could not hold its metadata
-		return nil, nil, fmt.Errorf("field name is too long: %d bytes, at most %d are supported", len(name), maxFieldNameLength)
+		return nil, nil, err
 	}
 	next, err := mp.AddNext()
 	if err != nil {
diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index b657b3e..0dc8dc4 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -33,11 +33,30 @@ func (j JSONLHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 	if metadata.ReadOffset > uint64(len(df)) {
 		return fmt.Errorf("the data is shorter than what is already indexed: %d < %d", len(df), metadata.ReadOffset)
 	}
+	syncErr := j.synchronizeLines(f, df, metadata)
+	// update the metadata, also after an error: the lines before the one that
+	// failed are indexed and must not be indexed again.
+	if err := f.SetMetadata(metadata); err != nil && syncErr == nil {
+		return fmt.Errorf("failed to set metadata: %w", err)
+	}
+	return syncErr
+}
+
+func (j JSONLHandler) synchronizeLines(f *appendable.IndexFile, df []byte, metadata *appendable.FileMeta) error {
 	for {
 		i := bytes.IndexByte(df[metadata.ReadOffset:], '\n')
 		if i == -1 {
 			break
 		}
+		// validate the whole line before indexing any part of it
+		var record map[string]any
+		if err := json.Unmarshal(df[metadata.ReadOffset:(metadata.ReadOffset+uint64(i))], &record); err != nil {
+			return fmt.Errorf("invalid json object: %w", err)
+		}
+		if err := validateFieldNames(record, ""); err != nil {
+			return err
+		}
+
 		// create a new json decoder
 		dec := json.NewDecoder(bytes.NewReader(df[metadata.ReadOffset:(metadata.ReadOffset + uint64(i))]))
 
@@ -75,6 +94,22 @@ func (j JSONLHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 	return nil
 }
 
+// validateFieldNames reports an error if any of the record's fields cannot be
+// indexed because of its name.
+func validateFieldNames(record map[string]any, prefix string) error {
+	for key, value := range record {
+		if err := appendable.ValidateFieldName(prefix + key); err != nil {
+			return err
+		}
+		if object, ok := value.(map[string]any); ok {
+			if err := validateFieldNames(object, prefix+key+"."); err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
 func jsonTypeToFieldType(t json.Token) []appendable.FieldType {
 	switch t.(type) {
 	case json.Delim:
-- 
2.43.0


From fc91c7e8643a4e41f1f16149c7cb45aa1fd32f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 17/57] fix: reading or writing outside a memory mapped file
 panics

---
 pkg/mmap/mmap.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index 3c0d219..87e819f 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -114,6 +114,12 @@ func (m *MemoryMappedFile) Read(b []byte) (int, error) {
 
 // ReadAt reads len(b) bytes from the file starting at byte offset off.
 func (m *MemoryMappedFile) ReadAt(b []byte, off int64) (int, error) {
+	if off < 0 {
+		return 0, fmt.Errorf("mmap: negative position")
+	}
+	if off > int64(len(m.bytes)) {
+		return 0, io.EOF
+	}
 	n := copy(b, m.bytes[off:])
 	if n < len(b) {
 		return n, io.EOF
@@ -133,6 +139,12 @@ func (m *MemoryMappedFile) Write(b []byte) (int, error) {
 
 // WriteAt writes len(b) bytes to the file starting at byte offset off.
 func (m *MemoryMappedFile) WriteAt(b []byte, off int64) (int, error) {
+	if off < 0 {
+		return 0, fmt.Errorf("mmap: negative position")
+	}
+	if len(b) == 0 {
+		return 0, nil
+	}
 	// check if the file needs to be remapped
 	if off+int64(len(b)) > int64(len(m.bytes)) {
 		// write the data and remap the file
-- 
2.43.0


From 79e8ae3ca69cd38b2d891138035b90becb605115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 18/57] fix: writing to a read-only memory mapping faults or
 alters the file

---
 pkg/mmap/mmap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index 87e819f..13af2b3 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -139,6 +139,10 @@ func (m *MemoryMappedFile) Write(b []byte) (int, error) {
 
 // WriteAt writes len(b) bytes to the file starting at byte offset off.
 func (m *MemoryMappedFile) WriteAt(b []byte, off int64) (int, error) {
+	if m.prot&unix.PROT_WRITE == 0 {
+		// storing through the mapping would fault, appending would alter the file
+		return 0, fmt.Errorf("mmap: file is mapped read-only")
+	}
 	if off < 0 {
 		return 0, fmt.Errorf("mmap: negative position")
 	}
-- 
2.43.0


From 9d084cb22802239f4f6b78767b0b4f3ba128b9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 19/57] fix: growing a memory mapped file reports a wrong
 length and position

---
 pkg/mmap/mmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index 13af2b3..bacd235 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -166,11 +166,11 @@ func (m *MemoryMappedFile) WriteAt(b []byte, off int64) (int, error) {
 			}
 			return len(b), nil
 		}
-		b, err := mremap(m.bytes, int(m.file.Fd()), int(fi.Size()), m.prot, m.flags)
+		remapped, err := mremap(m.bytes, int(m.file.Fd()), int(fi.Size()), m.prot, m.flags)
 		if err != nil {
 			return 0, fmt.Errorf("mmap: %v", err)
 		}
-		m.bytes = b
+		m.bytes = remapped
 		return len(b), nil
 	}
 	// write the data
-- 
2.43.0


From 6a860b9a671956949ed62b70487cad0a4016ab85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 20/57] fix: a key 65536 bytes too long passes the key width
 check

---
 pkg/bptree/bptree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 8176f24..5de9b64 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -261,7 +261,7 @@ func (t *BPTree) traverse(key pointer.ReferencedValue, node *BPTreeNode, ptr poi
 func (t *BPTree) Insert(key pointer.ReferencedValue, value pointer.MemoryPointer) error {
 
 	if t.Width != uint16(0) {
-		if uint16(len(key.Value)) != t.Width-1 {
+		if len(key.Value) != int(t.Width)-1 {
 			return fmt.Errorf("key |%v| to insert does not match with BPTree width. Expected width: %v, got: %v", string(key.Value), t.Width-1, len(key.Value))
 		}
 	}
-- 
2.43.0


From c9bc540723d029ef66a73d8204cc10fc5e3ac684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 21/57] fix: CSV columns are mixed up when synchronizing again

---
 pkg/handlers/csv.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 2f4256e..32d69f3 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -40,11 +40,18 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 		return fmt.Errorf("the data is shorter than what is already indexed: %d < %d", len(df), metadata.ReadOffset)
 	}
 
-	fieldNames, err := f.IndexFieldNames()
-	if err != nil {
-		return fmt.Errorf("failed to retrieve index field names: %w", err)
+	if metadata.ReadOffset > 0 {
+		// the column names come from the first line, indexes only exist for
+		// columns that have had a value so far.
+		i := bytes.IndexByte(df, '\n')
+		if i == -1 {
+			return fmt.Errorf("failed to find the CSV header")
+		}
+		headers, err = csv.NewReader(bytes.NewReader(df[:i])).Read()
+		if err != nil {
+			return fmt.Errorf("failed to parse CSV header: %w", err)
+		}
 	}
-	headers = fieldNames
 
 	for {
 		i := bytes.IndexByte(df[metadata.ReadOffset:], '\n')
-- 
2.43.0


From f4aba3978295d01da9a3f01cff59e1d3f3556b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 22/57] fix: CSV value references are off in rows with quoted
 fields

---
 pkg/handlers/csv.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 32d69f3..4c7b5ca 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -137,6 +137,10 @@ func InferCSVField(fieldValue string) (interface{}, appendable.FieldType) {
 }
 
 func (c CSVHandler) Parse(value []byte) []byte {
+	if len(value) >= 2 && value[0] == '"' && value[len(value)-1] == '"' {
+		// a quoted field
+		value = bytes.ReplaceAll(value[1:len(value)-1], []byte(`""`), []byte(`"`))
+	}
 	parsed, fieldType := InferCSVField(string(value))
 
 	switch fieldType {
@@ -167,7 +171,8 @@ func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.R
 		return fmt.Errorf("failed to read CSV record: %w", err)
 	}
 
-	cumulativeLength := uint64(0)
+	// the end of the last field, the reader drops a trailing carriage return
+	line := bytes.TrimSuffix(df[data.Offset:data.Offset+uint64(data.Length)], []byte{'\r'})
 
 	for fieldIndex, fieldValue := range record {
 		if fieldIndex >= len(headers) {
@@ -179,8 +184,14 @@ func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.R
 
 		name := strings.Join(append(path, fieldName), ".")
 
-		fieldOffset := data.Offset + cumulativeLength
-		fieldLength := uint32(len(fieldValue))
+		// refer to the field as it is written, including any quotes
+		_, column := dec.FieldPos(fieldIndex)
+		fieldEnd := len(line)
+		if fieldIndex+1 < len(record) {
+			_, next := dec.FieldPos(fieldIndex + 1)
+			fieldEnd = next - 2 // before the comma
+		}
+		rawValue := line[column-1 : fieldEnd]
 
 		_, fieldType := InferCSVField(fieldValue)
 		page, _, err := f.FindOrCreateIndex(name, fieldType)
@@ -190,15 +201,13 @@ func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.R
 		}
 
 		mp := pointer.MemoryPointer{
-			Offset: fieldOffset,
-			Length: fieldLength,
+			Offset: data.Offset + uint64(column-1),
+			Length: uint32(len(rawValue)),
 		}
 
-		if err := page.BPTree(&bptree.BPTree{Data: df, DataParser: CSVHandler{}, Width: uint16(0)}).Insert(pointer.ReferencedValue{Value: c.Parse([]byte(fieldValue)), DataPointer: mp}, data); err != nil {
+		if err := page.BPTree(&bptree.BPTree{Data: df, DataParser: CSVHandler{}, Width: uint16(0)}).Insert(pointer.ReferencedValue{Value: c.Parse(rawValue), DataPointer: mp}, data); err != nil {
 			return fmt.Errorf("failed to insert into b+tree: %w", err)
 		}
-
-		cumulativeLength += uint64(fieldLength + 1)
 	}
 
 	return nil
-- 
2.43.0


From f0f365d3d067309298fb8baa72c58dccc2b79e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 23/57] fix: a refused CSV row leaves the index half updated
 and rows are not counted

---
 pkg/handlers/csv.go | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 4c7b5ca..37fb539 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -29,9 +29,6 @@ func (c CSVHandler) Format() appendable.Format {
 func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 	slog.Debug("Starting CSV synchronization")
 
-	var headers []string
-	var err error
-
 	metadata, err := f.Metadata()
 	if err != nil {
 		return fmt.Errorf("failed to read metadata: %w", err)
@@ -40,6 +37,23 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 		return fmt.Errorf("the data is shorter than what is already indexed: %d < %d", len(df), metadata.ReadOffset)
 	}
 
+	syncErr := c.synchronizeLines(f, df, metadata)
+	// update the metadata, also after an error: the rows before the one that
+	// failed are indexed and must not be indexed again.
+	if err := f.SetMetadata(metadata); err != nil && syncErr == nil {
+		return fmt.Errorf("failed to set metadata: %w", err)
+	}
+
+	slog.Debug("indexes", slog.Any("", f.Indexes))
+	slog.Debug("Ending CSV synchronization")
+	slog.Debug("=========")
+	return syncErr
+}
+
+func (c CSVHandler) synchronizeLines(f *appendable.IndexFile, df []byte, metadata *appendable.FileMeta) error {
+	var headers []string
+	var err error
+
 	if metadata.ReadOffset > 0 {
 		// the column names come from the first line, indexes only exist for
 		// columns that have had a value so far.
@@ -67,6 +81,11 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 				slog.Error("failed to parse CSV header", "error", err)
 				return fmt.Errorf("failed to parse CSV header: %w", err)
 			}
+			for _, name := range headers {
+				if err := appendable.ValidateFieldName(name); err != nil {
+					return err
+				}
+			}
 			metadata.ReadOffset += uint64(i) + 1
 			continue
 		}
@@ -81,16 +100,9 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 		}
 
 		metadata.ReadOffset += uint64(i) + 1 // include the newline
+		metadata.Entries++
 	}
 
-	// update the metadata
-	if err := f.SetMetadata(metadata); err != nil {
-		return fmt.Errorf("failed to set metadata: %w", err)
-	}
-
-	slog.Debug("indexes", slog.Any("", f.Indexes))
-	slog.Debug("Ending CSV synchronization")
-	slog.Debug("=========")
 	return nil
 }
 
@@ -171,15 +183,16 @@ func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.R
 		return fmt.Errorf("failed to read CSV record: %w", err)
 	}
 
+	// refuse the whole row before indexing any part of it
+	if len(record) > len(headers) {
+		slog.Error("Field index is out of bounds with headers", "fieldIndex", len(headers), "headers", slog.Any("headers", headers))
+		return fmt.Errorf("field index %d is out of bounds with header", len(headers))
+	}
+
 	// the end of the last field, the reader drops a trailing carriage return
 	line := bytes.TrimSuffix(df[data.Offset:data.Offset+uint64(data.Length)], []byte{'\r'})
 
 	for fieldIndex, fieldValue := range record {
-		if fieldIndex >= len(headers) {
-			slog.Error("Field index is out of bounds with headers", "fieldIndex", fieldIndex, "headers", slog.Any("headers", headers))
-			return fmt.Errorf("field index %d is out of bounds with header", fieldIndex)
-		}
-
 		fieldName := headers[fieldIndex]
 
 		name := strings.Join(append(path, fieldName), ".")
-- 
2.43.0


From 84dc75d977190b0aea03e7540c1bebd2fec43fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 24/57] fix: an insertion interrupted while splitting a node
 loses committed keys

---
 pkg/bptree/bptree.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 5de9b64..a67f76e 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -309,6 +309,10 @@ func (t *BPTree) Insert(key pointer.ReferencedValue, value pointer.MemoryPointer
 		n.LeafPointers[j] = value
 	}
 
+	// pages of nodes that were split. they stay in place until the new nodes are
+	// linked, so that nothing is lost if the insertion is interrupted.
+	var replaced []int64
+
 	// traverse up the tree and split if necessary
 	for i := 0; i < len(path); i++ {
 		tr := path[i]
@@ -346,13 +350,15 @@ func (t *BPTree) Insert(key pointer.ReferencedValue, value pointer.MemoryPointer
 				n.Keys = n.Keys[:mid]
 			}
 
-			noffset := tr.ptr.Offset
-			if _, err := t.PageFile.Seek(int64(noffset), io.SeekStart); err != nil {
+			nbuf, err := n.MarshalBinary()
+			if err != nil {
 				return err
 			}
-			if _, err := n.WriteTo(t.PageFile); err != nil {
+			noffset, err := t.PageFile.NewPage(nbuf)
+			if err != nil {
 				return err
 			}
+			replaced = append(replaced, int64(tr.ptr.Offset))
 
 			// update the parent
 			if i < len(path)-1 {
@@ -365,7 +371,7 @@ func (t *BPTree) Insert(key pointer.ReferencedValue, value pointer.MemoryPointer
 					p.node.Keys[p.index] = midKey
 				}
 				p.node.InternalPointers = append(p.node.InternalPointers[:p.index+1], p.node.InternalPointers[p.index:]...)
-				p.node.InternalPointers[p.index] = noffset
+				p.node.InternalPointers[p.index] = uint64(noffset)
 				p.node.InternalPointers[p.index+1] = uint64(moffset)
 				// the parent will be written to disk in the next iteration
 			} else {
@@ -373,7 +379,7 @@ func (t *BPTree) Insert(key pointer.ReferencedValue, value pointer.MemoryPointer
 				p := &BPTreeNode{Data: t.Data, DataParser: t.DataParser, Width: t.Width}
 				p.Keys = []pointer.ReferencedValue{midKey}
 				p.InternalPointers = []uint64{
-					noffset, uint64(moffset),
+					uint64(noffset), uint64(moffset),
 				}
 
 				pbuf, err := p.MarshalBinary()
@@ -387,7 +393,7 @@ func (t *BPTree) Insert(key pointer.ReferencedValue, value pointer.MemoryPointer
 				if err := t.MetaPage.SetRoot(pointer.MemoryPointer{Offset: uint64(poffset), Length: uint32(len(pbuf))}); err != nil {
 					return err
 				}
-				return nil
+				return t.freePages(replaced)
 			}
 		} else {
 			// write this node to disk and update the parent
@@ -398,12 +404,21 @@ func (t *BPTree) Insert(key pointer.ReferencedValue, value pointer.MemoryPointer
 				return err
 			}
 			// no new nodes were produced, so we can return here
-			return nil
+			return t.freePages(replaced)
 		}
 	}
 	panic("unreachable")
 }
 
+func (t *BPTree) freePages(offsets []int64) error {
+	for _, offset := range offsets {
+		if err := t.PageFile.FreePage(offset); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 type Entry struct {
 	Key   []byte
 	Value pointer.MemoryPointer
-- 
2.43.0


From a5db5af3a72f0ebcaaf70d9fc5406f6601044f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:57 +0000
Subject: [PATCH 25/57] fix: shuffling tokens concurrently gives varying orders

---
 pkg/ngram/tokenizer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/ngram/tokenizer.go b/pkg/ngram/tokenizer.go
index a1546a9..fea3a40 100644
--- a/pkg/ngram/tokenizer.go
+++ b/pkg/ngram/tokenizer.go
@@ -63,9 +63,10 @@ func Shuffle(tokens []Token) []Token {
 	copy(soup, tokens)
 
 	seed := combineHashes(tokens)
-	rand.Seed(seed)
+	// a source of its own, the shared one may be used concurrently
+	rng := rand.New(rand.NewSource(seed))
 	for i := len(tokens) - 1; i > 0; i-- {
-		j := rand.Intn(i + 1)
+		j := rng.Intn(i + 1)
 		soup[i], soup[j] = soup[j], soup[i]
 	}
 
-- 
2.43.0


From 1d3e8377de52617d961fd8dab04e9255b8251318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 26/57] fix: inserted points on several levels become their own
 neighbours

---
 pkg/hnsw/hnsw.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pkg/hnsw/hnsw.go b/pkg/hnsw/hnsw.go
index bbf5998..8068990 100644
--- a/pkg/hnsw/hnsw.go
+++ b/pkg/hnsw/hnsw.go
@@ -210,6 +210,10 @@ func (h *Hnsw) InsertVector(q Point) (Id, error) {
 
 	entryItem := h.findCloserEntryPoint(&q, qFriends)
 
+	// find the neighbors on every level before adding any connection, so that q
+	// is not found as a neighbor of itself.
+	neighborsAtLevel := make([][]*Item, min(topLevel, qTopLevel)+1)
+
 	for level := min(topLevel, qTopLevel); level >= 0; level-- {
 		nnToQAtLevel, err := h.searchLevel(&q, entryItem, h.efConstruction, level)
 
@@ -221,6 +225,18 @@ func (h *Hnsw) InsertVector(q Point) (Id, error) {
 		if err != nil {
 			return 0, fmt.Errorf("failed to select for nearest neighbors to Q at level %v: %w", level, err)
 		}
+		neighborsAtLevel[level] = neighbors
+
+		newEntryItem, err := nnToQAtLevel.PopMinItem()
+		if err != nil {
+			return 0, fmt.Errorf("failed to find nearest neighbor to Q at level %v: %w", level, err)
+		}
+
+		entryItem = newEntryItem
+	}
+
+	for level := len(neighborsAtLevel) - 1; level >= 0; level-- {
+		neighbors := neighborsAtLevel[level]
 
 		// add bidirectional connections from neighbors to q at layer c
 		for _, neighbor := range neighbors {
@@ -245,13 +261,6 @@ func (h *Hnsw) InsertVector(q Point) (Id, error) {
 
 			h.friends[neighbor.id].friends[level] = neighborFriendsAtLevel
 		}
-
-		newEntryItem, err := nnToQAtLevel.PopMinItem()
-		if err != nil {
-			return 0, fmt.Errorf("failed to find nearest neighbor to Q at level %v: %w", level, err)
-		}
-
-		entryItem = newEntryItem
 	}
 
 	if qTopLevel > topLevel {
-- 
2.43.0


From 7aca15a13eb791edc99e84e6829eb963de699d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 27/57] fix: searching for a point of the wrong dimension
 panics

---
 pkg/hnsw/hnsw.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/hnsw/hnsw.go b/pkg/hnsw/hnsw.go
index 8068990..e0b04df 100644
--- a/pkg/hnsw/hnsw.go
+++ b/pkg/hnsw/hnsw.go
@@ -275,6 +275,10 @@ func (h *Hnsw) isValidPoint(point Point) bool {
 }
 
 func (h *Hnsw) KnnSearch(q Point, numNeighborsToReturn int) (*DistHeap, error) {
+	if !h.isValidPoint(q) {
+		return nil, fmt.Errorf("invalid vector dimensionality")
+	}
+
 	entryPoint := h.points[h.entryPointId]
 
 	entryPointFriends, ok := h.friends[h.entryPointId]
-- 
2.43.0


From acb81f1881f1dc3679af0eaacc5177762bad3798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 28/57] fix: neighbours are recorded on level 0 instead of
 their highest level

---
 pkg/hnsw/friends.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/friends.go b/pkg/hnsw/friends.go
index 3d0cb75..7325b6e 100644
--- a/pkg/hnsw/friends.go
+++ b/pkg/hnsw/friends.go
@@ -54,7 +54,10 @@ func (v *Friends) InsertFriendsAtLevel(level int, friendId Id, dist float32) {
 		v.friends[i].Insert(friendId, dist)
 	}
 
-	v.maxLevels[friendId] = level
+	// the same friend is inserted again on the levels below
+	if maxLevel, ok := v.maxLevels[friendId]; !ok || maxLevel < level {
+		v.maxLevels[friendId] = level
+	}
 }
 
 func (v *Friends) GetFriendsAtLevel(level int) (*DistHeap, error) {
-- 
2.43.0


From 5a09c7086cb935c58c1279a6c38bc56fcee87ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 29/57] fix: client misreads variable-length integers of 2^31
 and more

---
 src/util/uvarint.ts | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/uvarint.ts b/src/util/uvarint.ts
index 5dbbaa7..6d71f59 100644
--- a/src/util/uvarint.ts
+++ b/src/util/uvarint.ts
@@ -11,8 +11,8 @@ export function encodeUvarint(n: number): ArrayBuffer {
   let ibuf = new Uint8Array(MAX_VARINT_64);
 
   while (n >= 0x80) {
-    ibuf[i++] = (n & 0xff) | 0x80;
-    n >>= 7;
+    ibuf[i++] = (n % 0x80) | 0x80;
+    n = Math.floor(n / 0x80);
   }
 
   ibuf[i] = n & 0xff;
@@ -22,7 +22,7 @@ export function encodeUvarint(n: number): ArrayBuffer {
 
 export function decodeUvarint(buf: ArrayBuffer): UvarintResponse {
   let x: number = 0;
-  let s: number = 0;
+  let scale: number = 1; // not a shift: bit operations are limited to 32 bits
 
   const view = new Uint8Array(buf);
 
@@ -38,12 +38,12 @@ export function decodeUvarint(buf: ArrayBuffer): UvarintResponse {
         return { value: 0, bytesRead: -(idx + 1) };
       }
 
-      let value = x | (b << s);
+      let value = x + b * scale;
       return { value, bytesRead: idx + 1 };
     }
 
-    x |= (b & 0x7f) << s;
-    s += 7;
+    x += (b & 0x7f) * scale;
+    scale *= 0x80;
   }
 
   return { value: 0, bytesRead: 0 };
-- 
2.43.0


From ee46e401c329ed92391afc6a5b9e4d4cbcc4f9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:01 +0000
Subject: [PATCH 30/57] fix: client accepts header metadata with a truncated
 integer

---
 src/file/meta.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/file/meta.ts b/src/file/meta.ts
index 333f786..3a4351f 100644
--- a/src/file/meta.ts
+++ b/src/file/meta.ts
@@ -30,7 +30,10 @@ export async function readFileMeta(buffer: ArrayBuffer): Promise<FileMeta> {
 
   const readOffset = dataView.getBigUint64(2, true);
 
-  const { value: entries } = decodeUvarint(buffer.slice(10));
+  const { value: entries, bytesRead } = decodeUvarint(buffer.slice(10));
+  if (bytesRead <= 0) {
+    throw new Error("invalid number of entries in file metadata");
+  }
 
   return {
     version,
@@ -69,9 +72,12 @@ export function readIndexMeta(buffer: ArrayBuffer): IndexMeta {
   const fieldNameBuffer = buffer.slice(6, 6 + nameLength);
   const fieldName = new TextDecoder("utf-8").decode(fieldNameBuffer);
 
-  const { value: totalFieldValueLength } = decodeUvarint(
+  const { value: totalFieldValueLength, bytesRead } = decodeUvarint(
     buffer.slice(6 + nameLength),
   );
+  if (bytesRead <= 0) {
+    throw new Error("invalid total field value length in index metadata");
+  }
 
   return {
     fieldName,
-- 
2.43.0


From f22248d0f98c2f599d0c2dfafa98b43b0c096469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:18 +0000
Subject: [PATCH 31/57] fix: client drops a byte order mark at the start of a
 field name

---
 src/file/meta.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/file/meta.ts b/src/file/meta.ts
index 3a4351f..2619416 100644
--- a/src/file/meta.ts
+++ b/src/file/meta.ts
@@ -70,7 +70,9 @@ export function readIndexMeta(buffer: ArrayBuffer): IndexMeta {
   }
 
   const fieldNameBuffer = buffer.slice(6, 6 + nameLength);
-  const fieldName = new TextDecoder("utf-8").decode(fieldNameBuffer);
+  const fieldName = new TextDecoder("utf-8", { ignoreBOM: true }).decode(
+    fieldNameBuffer,
+  );
 
   const { value: totalFieldValueLength, bytesRead } = decodeUvarint(
     buffer.slice(6 + nameLength),
-- 
2.43.0


From 74b839ae14a74e7f8ea42f3fe367ec638ad2343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:18 +0000
Subject: [PATCH 32/57] fix: client reads index files of unknown versions

---
 src/file/meta.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/file/meta.ts b/src/file/meta.ts
index 2619416..8e36398 100644
--- a/src/file/meta.ts
+++ b/src/file/meta.ts
@@ -1,5 +1,9 @@
 import { decodeUvarint } from "../util/uvarint";
 
+// the index format version this client understands, see CurrentVersion in
+// pkg/appendable/index_file.go
+const CURRENT_VERSION = 1;
+
 export enum FileFormat {
   JSONL = 0,
   CSV = 1,
@@ -22,6 +26,10 @@ export async function readFileMeta(buffer: ArrayBuffer): Promise<FileMeta> {
 
   const dataView = new DataView(buffer);
   const version = dataView.getUint8(0);
+  if (version !== CURRENT_VERSION) {
+    throw new Error(`unsupported version: ${version}`);
+  }
+
   const format = dataView.getUint8(1);
 
   if (Object.values(FileFormat).indexOf(format) === -1) {
-- 
2.43.0


From a0de3de33ceeedd65c5a2e06cd7b71d2d552c31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:33 +0000
Subject: [PATCH 33/57] fix: client remembers failed requests as answers

---
 src/bptree/bptree.ts | 11 ++++++++---
 src/bptree/node.ts   |  9 ++++++++-
 src/db/database.ts   |  9 ++++++++-
 src/file/multi.ts    |  9 ++++++++-
 4 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/bptree/bptree.ts b/src/bptree/bptree.ts
index 71bd6bc..319fcea 100644
--- a/src/bptree/bptree.ts
+++ b/src/bptree/bptree.ts
@@ -53,9 +53,14 @@ export class BPTree {
   async root(): Promise<RootResponse> {
     if (!this.rootNodeCache || !this.rootPointerCache) {
       this.rootPointerCache = this.meta.root();
-      this.rootNodeCache = this.rootPointerCache.then((ptr) =>
-        this.readNode(ptr),
-      );
+      const rootNode = this.rootPointerCache.then((ptr) => this.readNode(ptr));
+      this.rootNodeCache = rootNode;
+      rootNode.catch(() => {
+        // do not remember a failure, the next call tries again
+        if (this.rootNodeCache === rootNode) {
+          this.rootNodeCache = null;
+        }
+      });
     }
 
     const rootNode = await this.rootNodeCache;
diff --git a/src/bptree/node.ts b/src/bptree/node.ts
index 13a4a3c..32a94a2 100644
--- a/src/bptree/node.ts
+++ b/src/bptree/node.ts
@@ -69,7 +69,7 @@ export class BPTreeNode {
     if (!this.childrenCache[index]) {
       const childPointer = this.pointer(index);
 
-      this.childrenCache[index] = BPTreeNode.fromMemoryPointer(
+      const child = BPTreeNode.fromMemoryPointer(
         childPointer,
         this.tree,
         this.dataFileResolver,
@@ -83,6 +83,13 @@ export class BPTreeNode {
 
         return node;
       });
+      this.childrenCache[index] = child;
+      child.catch(() => {
+        // do not remember a failure, the next call tries again
+        if (this.childrenCache[index] === child) {
+          this.childrenCache[index] = null;
+        }
+      });
     }
 
     if (!this.childrenCache[index]) {
diff --git a/src/db/database.ts b/src/db/database.ts
index 07592fc..1338e0e 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -93,7 +93,14 @@ export class Database<T extends Schema> {
 
   async fields() {
     if (!this.indexHeadersPromise) {
-      this.indexHeadersPromise = this.indexFile.indexHeaders();
+      const headers = this.indexFile.indexHeaders();
+      this.indexHeadersPromise = headers;
+      headers.catch(() => {
+        // do not remember a failure, the next call tries again
+        if (this.indexHeadersPromise === headers) {
+          this.indexHeadersPromise = undefined;
+        }
+      });
     }
 
     return this.indexHeadersPromise;
diff --git a/src/file/multi.ts b/src/file/multi.ts
index a1ab846..9891379 100644
--- a/src/file/multi.ts
+++ b/src/file/multi.ts
@@ -58,12 +58,19 @@ export class LinkedMetaPage {
 
   private async getMetaPage(): Promise<ArrayBuffer> {
     if (!this.metaPageDataPromise) {
-      this.metaPageDataPromise = this.resolver([
+      const promise = this.resolver([
         {
           start: Number(this.offset),
           end: Number(this.offset) + PAGE_SIZE_BYTES - 1,
         },
       ]);
+      this.metaPageDataPromise = promise;
+      promise.catch(() => {
+        // do not remember a failure, the next call tries again
+        if (this.metaPageDataPromise === promise) {
+          this.metaPageDataPromise = undefined;
+        }
+      });
     }
 
     const res = await this.metaPageDataPromise;
-- 
2.43.0


From ae897ec4a722ccec7c873c66fd718d245befa146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 34/57] fix: overlapping or failed header requests duplicate or
 lose fields

---
 src/file/index-file.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/file/index-file.ts b/src/file/index-file.ts
index 3145e24..0da9d9a 100644
--- a/src/file/index-file.ts
+++ b/src/file/index-file.ts
@@ -116,8 +116,10 @@ export class IndexFileV1<T> implements VersionedIndexFile<T> {
       throw new Error(`failed to fetch meta pages`);
     }
 
+    // only take over complete lists, calls may overlap or fail halfway
+    const linkedMetaPages: LinkedMetaPage[] = [];
     while (true) {
-      this.linkedMetaPages.push(currMp);
+      linkedMetaPages.push(currMp);
 
       const nextMp = await currMp.next();
       if (!nextMp) {
@@ -125,6 +127,7 @@ export class IndexFileV1<T> implements VersionedIndexFile<T> {
       }
       currMp = nextMp;
     }
+    this.linkedMetaPages = linkedMetaPages;
   }
 
   async indexHeaders(): Promise<IndexHeader[]> {
-- 
2.43.0


From e5edbbeb9f18710afd6aa96bc443c3fef93cb6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:52 +0000
Subject: [PATCH 35/57] fix: client fails on an index without fields

---
 src/file/index-file.ts | 27 +++++----------------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/src/file/index-file.ts b/src/file/index-file.ts
index 0da9d9a..795d174 100644
--- a/src/file/index-file.ts
+++ b/src/file/index-file.ts
@@ -73,13 +73,9 @@ export class IndexFileV1<T> implements VersionedIndexFile<T> {
     const tree = await this.tree();
     let currMp = await tree.next();
 
-    if (!currMp) {
-      throw new Error(`failed to fetch meta pages`);
-    }
-
-    let headerMps = [];
+    let headerMps: LinkedMetaPage[] = [];
 
-    while (true) {
+    while (currMp) {
       const indexMeta = readIndexMeta(await currMp.metadata());
       if (indexMeta.fieldName === header) {
         if (fieldType === FieldType.Float64) {
@@ -98,11 +94,7 @@ export class IndexFileV1<T> implements VersionedIndexFile<T> {
         }
       }
 
-      const nextMp = await currMp.next();
-      if (!nextMp) {
-        break;
-      }
-      currMp = nextMp;
+      currMp = await currMp.next();
     }
 
     return headerMps;
@@ -112,20 +104,11 @@ export class IndexFileV1<T> implements VersionedIndexFile<T> {
     const tree = await this.tree();
     let currMp = await tree.next();
 
-    if (!currMp) {
-      throw new Error(`failed to fetch meta pages`);
-    }
-
     // only take over complete lists, calls may overlap or fail halfway
     const linkedMetaPages: LinkedMetaPage[] = [];
-    while (true) {
+    while (currMp) {
       linkedMetaPages.push(currMp);
-
-      const nextMp = await currMp.next();
-      if (!nextMp) {
-        break;
-      }
-      currMp = nextMp;
+      currMp = await currMp.next();
     }
     this.linkedMetaPages = linkedMetaPages;
   }
-- 
2.43.0


From b4a502e1d5627ecd0ee7da721883868108df1e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 36/57] fix: client lookups and scans starting past the last
 key of a leaf miss the next leaf

---
 src/bptree/traversal.ts | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/bptree/traversal.ts b/src/bptree/traversal.ts
index f7a5a2e..e32cba3 100644
--- a/src/bptree/traversal.ts
+++ b/src/bptree/traversal.ts
@@ -77,9 +77,16 @@ export class TraversalIterator {
     if (this.records.length === 0) {
       const res = await this.init();
 
-      return (
-        res && this.records[0].index !== this.records[0].node.numPointers()
-      );
+      if (
+        res &&
+        this.records[0].index === this.records[0].node.numPointers()
+      ) {
+        // every key of this leaf is smaller, the next key is in the next leaf
+        this.records[0].index--;
+        return this.increment(0, 1);
+      }
+
+      return res;
     }
 
     return this.increment(0, 1);
-- 
2.43.0


From 01c9fe58a22e5a7d03e9166d8ce318fd045c182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 37/57] fix: client fails on the first and last key of a tree
 with a single node

---
 src/bptree/bptree.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bptree/bptree.ts b/src/bptree/bptree.ts
index 319fcea..7daccd0 100644
--- a/src/bptree/bptree.ts
+++ b/src/bptree/bptree.ts
@@ -110,7 +110,7 @@ export class BPTree {
       throw new Error("unable to get root node");
     }
 
-    let currNode = await this.readNode(rootNode.pointer(0));
+    let currNode = rootNode;
 
     while (!currNode.leaf()) {
       const childPointer = currNode.pointer(0);
@@ -126,9 +126,7 @@ export class BPTree {
       throw new Error("unable to get root node");
     }
 
-    let currNode = await this.readNode(
-      rootNode.pointer(rootNode.numPointers() - 1),
-    );
+    let currNode = rootNode;
 
     while (!currNode.leaf()) {
       const childPointer = currNode.pointer(currNode.numPointers() - 1);
-- 
2.43.0


From 69c9c58cc38376d536aff5374217176927647a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 38/57] fix: client reads an empty tree from the start of the
 index file

---
 src/bptree/bptree.ts | 7 +++++--
 src/db/database.ts   | 5 +++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/bptree/bptree.ts b/src/bptree/bptree.ts
index 7daccd0..80a8b0f 100644
--- a/src/bptree/bptree.ts
+++ b/src/bptree/bptree.ts
@@ -21,7 +21,7 @@ export class BPTree {
   private readonly pageFieldType: FieldType;
   private readonly pageFieldWidth: number;
 
-  private rootNodeCache: Promise<BPTreeNode> | null = null;
+  private rootNodeCache: Promise<BPTreeNode | null> | null = null;
   private rootPointerCache: Promise<MemoryPointer> | null = null;
 
   // insight attributes below
@@ -53,7 +53,10 @@ export class BPTree {
   async root(): Promise<RootResponse> {
     if (!this.rootNodeCache || !this.rootPointerCache) {
       this.rootPointerCache = this.meta.root();
-      const rootNode = this.rootPointerCache.then((ptr) => this.readNode(ptr));
+      const rootNode = this.rootPointerCache.then((ptr) =>
+        // a tree without a root is empty
+        ptr.length === 0 ? null : this.readNode(ptr),
+      );
       this.rootNodeCache = rootNode;
       rootNode.catch(() => {
         // do not remember a failure, the next call tries again
diff --git a/src/db/database.ts b/src/db/database.ts
index 1338e0e..083e21e 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -229,6 +229,11 @@ export class Database<T extends Schema> {
           entries,
         );
 
+        if (!(await btree.root()).rootNode) {
+          // no records of this type
+          continue;
+        }
+
         if (operation === ">") {
           if (ord === "ASC") {
             const valueRef = new ReferencedValue(
-- 
2.43.0


From deb68bc5ed32d68b34c1466106b74588e07b5f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 39/57] fix: descending queries leave out the last record

---
 src/db/database.ts | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/db/database.ts b/src/db/database.ts
index 083e21e..23aad01 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -254,7 +254,13 @@ export class Database<T extends Schema> {
             }
           } else {
             const lastKey = await btree.last();
-            const iter = btree.iter(lastKey);
+            // prev() starts with the key before this one, so start past the end
+            const iter = btree.iter(
+              new ReferencedValue(
+                { offset: maxUint64, length: 0 },
+                lastKey.value,
+              ),
+            );
 
             while (await iter.prev()) {
               const currentKey = iter.getKey();
@@ -299,7 +305,13 @@ export class Database<T extends Schema> {
             }
           } else {
             const lastKey = await btree.last();
-            const iter = btree.iter(lastKey);
+            // prev() starts with the key before this one, so start past the end
+            const iter = btree.iter(
+              new ReferencedValue(
+                { offset: maxUint64, length: 0 },
+                lastKey.value,
+              ),
+            );
 
             while (await iter.prev()) {
               const currentKey = iter.getKey();
-- 
2.43.0


From 305eb531aa976e0864b7ce94aa04def760d63ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 40/57] fix: descending > queries include records equal to the
 value

---
 src/db/database.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db/database.ts b/src/db/database.ts
index 23aad01..8e9b838 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -266,7 +266,7 @@ export class Database<T extends Schema> {
               const currentKey = iter.getKey();
 
               if (
-                ReferencedValue.compareBytes(currentKey.value, valueBuf) < 0
+                ReferencedValue.compareBytes(currentKey.value, valueBuf) <= 0
               ) {
                 break;
               }
-- 
2.43.0


From 72ffde975be5caacffcbc2429fd413166e82b685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 41/57] fix: limit is ignored

---
 src/db/database.ts | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/db/database.ts b/src/db/database.ts
index 8e9b838..1104176 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -106,7 +106,22 @@ export class Database<T extends Schema> {
     return this.indexHeadersPromise;
   }
 
-  async *query(query: Query<T>) {
+  async *query(query: Query<T>): AsyncGenerator<any> {
+    if (query.limit !== undefined) {
+      const { limit, ...unlimited } = query;
+      let remaining = limit;
+      if (remaining <= 0) {
+        return;
+      }
+      for await (const row of this.query(unlimited)) {
+        yield row;
+        if (--remaining <= 0) {
+          return;
+        }
+      }
+      return;
+    }
+
     if (new Set((query.where ?? []).map((where) => where.key)).size > 1) {
       throw new Error("composite indexes not supported... yet");
     }
-- 
2.43.0


From 6d1e11feda2dc2faf6bb2ab8242696beeb7390a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 42/57] fix: search returns a record once per occurrence with
 counts of other tokens

---
 src/bptree/bptree.ts | 25 ++++++++++++++-----------
 src/db/database.ts   |  9 ++++++---
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/bptree/bptree.ts b/src/bptree/bptree.ts
index 80a8b0f..8983b7d 100644
--- a/src/bptree/bptree.ts
+++ b/src/bptree/bptree.ts
@@ -27,10 +27,6 @@ export class BPTree {
   // insight attributes below
 
   private readonly entries: number;
-  private readonly tfMap: Map<DataPointer, number> = new Map<
-    DataPointer,
-    number
-  >();
 
   constructor(
     tree: RangeResolver,
@@ -179,8 +175,13 @@ export class BPTree {
   }
 
   // these traverse through the iterator
-  public async termFrequency(key: ReferencedValue) {
+  public async termFrequency(
+    key: ReferencedValue,
+  ): Promise<Map<DataPointer, number>> {
     const p = await this.iter(key);
+    // a record occurs once per occurrence of the term
+    const records = new Map<number, DataPointer>();
+    const tfMap = new Map<DataPointer, number>();
 
     while (await p.next()) {
       const currentKey = p.getKey();
@@ -189,16 +190,18 @@ export class BPTree {
         break;
       }
       const mp = p.getPointer();
+      const start = Number(mp.offset);
 
-      const dp: DataPointer = {
-        start: Number(mp.offset),
-        end: Number(mp.offset) + mp.length - 1,
-      };
+      let dp = records.get(start);
+      if (!dp) {
+        dp = { start, end: start + mp.length - 1 };
+        records.set(start, dp);
+      }
 
-      this.tfMap.set(dp, (this.tfMap.get(dp) ?? 0) + 1);
+      tfMap.set(dp, (tfMap.get(dp) ?? 0) + 1);
     }
 
-    return this.tfMap;
+    return tfMap;
   }
 }
 
diff --git a/src/db/database.ts b/src/db/database.ts
index 1104176..bb5867f 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -142,7 +142,9 @@ export class Database<T extends Schema> {
       const tok = new NgramTokenizer(minGram, maxGram);
       const likeToks = NgramTokenizer.shuffle(tok.tokens(like));
 
-      const table = new PriorityTable<DataPointer>();
+      // records are identified by the start of their data
+      const table = new PriorityTable<number>();
+      const records = new Map<number, DataPointer>();
       const metaPageCache = new Map<FieldType, LinkedMetaPage>();
 
       const btreeMap = new Map<FieldType, BPTree>();
@@ -199,12 +201,13 @@ export class Database<T extends Schema> {
           const den = tf + K1;
           const score = idf * (num / den);
 
-          table.insert(key, score);
+          records.set(key.start, key);
+          table.insert(key.start, score);
         }
       }
 
       for (const { key, score } of table.top()) {
-        const { start, end } = key;
+        const { start, end } = records.get(key)!;
         const data = await this.dataFile.get(start, end);
         yield { data, score };
       }
-- 
2.43.0


From 17045d55000a838fb7205d91a14e3eb0095bcec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 43/57] fix: a truncated multipart response is read forever

---
 src/resolver/multipart.ts | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index eb1edd9..d61695f 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -1,6 +1,5 @@
 function getReader(stream: ReadableStream) {
   let residual: Uint8Array | null = null;
-  let readDone = false;
   let reader: ReadableStreamDefaultReader<Uint8Array> = stream.getReader();
   return async (
     buf: Uint8Array,
@@ -17,15 +16,15 @@ function getReader(stream: ReadableStream) {
             residual = null;
           }
           return {
-            done: readDone && residual === null,
+            done: false,
             value: buf.subarray(0, n),
           };
         }
         const result = await reader.read();
-        if (result.value) {
-          residual = result.value;
+        if (result.done) {
+          return { done: true, value: undefined };
         }
-        readDone ||= result.done;
+        residual = result.value;
       }
     }
   };
-- 
2.43.0


From 84f83621e2e7c4c1758c82fe2b18158ba65af3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 44/57] fix: multipart header names are case-sensitive and
 their values cut at colons

---
 src/resolver/multipart.ts | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index d61695f..30d3c7e 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -137,12 +137,13 @@ export default async function* parseMultipartBody(
           break;
         } else {
           const decoded = new TextDecoder().decode(new Uint8Array(header));
-          const tokens = decoded.split(":", 2);
-          if (tokens.length !== 2) {
+          const colon = decoded.indexOf(":");
+          if (colon < 0) {
             throw new Error(`Invalid header: ${decoded}`);
           }
-          const [key, value] = tokens;
-          headers[key.trim()] = value.trim();
+          // header names are case-insensitive, values may contain colons
+          const key = decoded.slice(0, colon).trim().toLowerCase();
+          headers[key] = decoded.slice(colon + 1).trim();
           header.length = 0;
         }
       } else {
@@ -153,12 +154,12 @@ export default async function* parseMultipartBody(
 
     // read body
     // read the Content-Range header
-    if (!headers["Content-Range"]) {
+    if (!headers["content-range"]) {
       // TODO: read until the next boundary
       throw new Error("Missing Content-Range header");
     }
     const [unit, start, end] = parseContentRangeHeader(
-      headers["Content-Range"],
+      headers["content-range"],
     );
     if (unit !== "bytes") {
       throw new Error("Invalid Content-Range header");
-- 
2.43.0


From 3c35507bb96bd8c6f3ce3797f4451d87d3fba56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 45/57] fix: multipart parts with an invalid range are returned

---
 src/resolver/multipart.ts | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index 30d3c7e..2d48f86 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -34,13 +34,11 @@ function parseContentRangeHeader(
   header: string,
 ): [string, number, number, number] {
   // parse bytes a-b/c
-  const tokens = header.split(" ");
-  if (tokens.length !== 2) {
+  const match = /^(\S+) +(\d+)-(\d+)\/(\d+|\*)$/.exec(header);
+  if (!match || Number(match[3]) < Number(match[2])) {
     throw new Error("Invalid Content-Range header");
   }
-  const [range, total] = tokens[1].split("/");
-  const [start, end] = range.split("-");
-  return [tokens[0], Number(start), Number(end), Number(total)];
+  return [match[1], Number(match[2]), Number(match[3]), Number(match[4])];
 }
 
 export default async function* parseMultipartBody(
-- 
2.43.0


From d2d03361ede9b575f4760f56525033e78fb6d5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 46/57] fix: multipart boundaries after a line break or in
 quotes are refused

---
 src/resolver/multipart.ts | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index 2d48f86..39000aa 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -53,7 +53,8 @@ export default async function* parseMultipartBody(
   const boundaryToken = tokens
     .map((s) => s.trim())
     .find((s) => s.startsWith("boundary="))
-    ?.split("=", 2)?.[1];
+    ?.slice("boundary=".length)
+    .replace(/^"(.*)"$/, "$1");
   if (!boundaryToken) {
     throw new Error("No boundary found");
   }
@@ -81,6 +82,20 @@ export default async function* parseMultipartBody(
     return false;
   };
 
+  // the first boundary may be preceded by a line break
+  for (const c of ["\r", "\n"]) {
+    while (length === 0) {
+      if (await extend()) {
+        return;
+      }
+    }
+    if (buf[ptr] !== c.charCodeAt(0)) {
+      break;
+    }
+    ptr = (ptr + 1) % buf.length;
+    length--;
+  }
+
   while (true) {
     // read boundary
     for (let i = 0; i < boundary.length; i++) {
-- 
2.43.0


From ab067d0659a7ce552e021682b9cbd96050df7862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 47/57] fix: ranges of a single byte are refused

---
 src/file/data-file.ts         | 2 +-
 src/resolver/range-request.ts | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/file/data-file.ts b/src/file/data-file.ts
index 76177d0..668cdef 100644
--- a/src/file/data-file.ts
+++ b/src/file/data-file.ts
@@ -26,7 +26,7 @@ export class DataFile {
   }
 
   async get(start: number, end: number) {
-    if (end <= start) {
+    if (end < start) {
       throw new Error(`Invalid range for start: ${start} and end: ${end}`);
     }
 
diff --git a/src/resolver/range-request.ts b/src/resolver/range-request.ts
index a471ca2..b8900c3 100644
--- a/src/resolver/range-request.ts
+++ b/src/resolver/range-request.ts
@@ -40,9 +40,9 @@ export async function requestRanges(
   }
 
   for (const { start, end } of ranges) {
-    if (end - start <= 0) {
+    if (end < start) {
       throw new Error(
-        `Invalid range: The start (${start}) and end (${end}) of a range are equal, indicating a zero-length range.`,
+        `Invalid range: The end (${end}) of a range is before its start (${start}), indicating a zero-length range.`,
       );
     }
   }
-- 
2.43.0


From 590fd18858c3222840e7b01d16263c938ff1cd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:42 +0000
Subject: [PATCH 48/57] fix: responses for other ranges are returned as the
 requested bytes

---
 src/resolver/multipart.ts     |   2 +-
 src/resolver/range-request.ts | 103 ++++++++++++++++++++--------------
 2 files changed, 63 insertions(+), 42 deletions(-)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index 39000aa..8563f42 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -30,7 +30,7 @@ function getReader(stream: ReadableStream) {
   };
 }
 
-function parseContentRangeHeader(
+export function parseContentRangeHeader(
   header: string,
 ): [string, number, number, number] {
   // parse bytes a-b/c
diff --git a/src/resolver/range-request.ts b/src/resolver/range-request.ts
index b8900c3..2945402 100644
--- a/src/resolver/range-request.ts
+++ b/src/resolver/range-request.ts
@@ -1,37 +1,60 @@
 import { Config } from "../index";
-import parseMultipartBody from "./multipart";
+import parseMultipartBody, { parseContentRangeHeader } from "./multipart";
 import { LengthIntegrityError } from "./resolver";
 
-async function resolveIndividualPromises(
-  url: string,
-  ranges: { start: number; end: number; expectedLength?: number }[],
-) {
+type Range = { start: number; end: number; expectedLength?: number };
+
+// returns the data only if it is what has been requested
+function checkRange(
+  { start, end, expectedLength }: Range,
+  contentRange: string | null | undefined,
+  data: ArrayBuffer,
+): { data: ArrayBuffer; totalLength: number } {
+  if (!contentRange) {
+    throw new Error("Missing Content-Range in response");
+  }
+  const [unit, receivedStart, receivedEnd, totalLength] =
+    parseContentRangeHeader(contentRange);
+  if (
+    unit !== "bytes" ||
+    receivedStart !== start ||
+    // only the end of the file may cut the range
+    receivedEnd !== Math.min(end, totalLength - 1) ||
+    data.byteLength !== receivedEnd - receivedStart + 1
+  ) {
+    throw new Error(
+      `Requested bytes ${start}-${end}, got ${contentRange} with ${data.byteLength} bytes`,
+    );
+  }
+  if (expectedLength && totalLength !== expectedLength) {
+    throw new LengthIntegrityError();
+  }
+  return { data, totalLength };
+}
+
+async function resolveIndividualPromises(url: string, ranges: Range[]) {
   // fallback to resolving ranges individually
-  const individualRangePromises = ranges.map(
-    async ({ start, end, expectedLength }) => {
-      const rangeHeader = `${start}-${end}`;
-      const res = await fetch(url, {
-        headers: { Range: `bytes=${rangeHeader}` },
-      });
+  const individualRangePromises = ranges.map(async (range) => {
+    const rangeHeader = `${range.start}-${range.end}`;
+    const res = await fetch(url, {
+      headers: { Range: `bytes=${rangeHeader}` },
+    });
+    if (res.status !== 206) {
+      throw new Error(`Expected 206 response, got ${res.status}`);
+    }
 
-      const totalLength = Number(
-        res.headers.get("Content-Range")!.split("/")[1],
-      );
-      if (expectedLength && totalLength !== expectedLength) {
-        throw new LengthIntegrityError();
-      }
-      return {
-        data: await res.arrayBuffer(),
-        totalLength: totalLength,
-      };
-    },
-  );
+    return checkRange(
+      range,
+      res.headers.get("Content-Range"),
+      await res.arrayBuffer(),
+    );
+  });
   return await Promise.all(individualRangePromises);
 }
 
 export async function requestRanges(
   url: string,
-  ranges: { start: number; end: number; expectedLength?: number }[],
+  ranges: Range[],
   config: Config,
 ): Promise<{ data: ArrayBuffer; totalLength: number }[]> {
   const { useMultipartByteRanges } = config;
@@ -83,27 +106,25 @@ export async function requestRanges(
           chunks.push(chunk);
         }
 
-        // the last element is null since the final boundary marker is followed by another delim.
-        if (chunks[chunks.length - 1].data === undefined) {
-          chunks.pop();
+        if (chunks.length !== ranges.length) {
+          throw new Error(
+            `Requested ${ranges.length} ranges, got ${chunks.length}`,
+          );
         }
 
-        return chunks.map(({ data, headers }) => {
-          const totalLengthStr = headers["content-range"]?.split("/")[1];
-          const totalLength = totalLengthStr ? parseInt(totalLengthStr, 10) : 0;
-
-          return { data, totalLength };
-        });
-      } else if (response.headers.has("Content-Range")) {
-        const abuf = await response.arrayBuffer();
-        const totalLength = Number(
-          response.headers.get("Content-Range")!.split("/")[1],
+        return chunks.map(({ data, headers }, i) =>
+          checkRange(ranges[i], headers["content-range"], data),
         );
+      } else if (response.headers.has("Content-Range")) {
+        if (ranges.length !== 1) {
+          throw new Error(`Requested ${ranges.length} ranges, got 1`);
+        }
         return [
-          {
-            data: abuf,
-            totalLength: totalLength,
-          },
+          checkRange(
+            ranges[0],
+            response.headers.get("Content-Range"),
+            await response.arrayBuffer(),
+          ),
         ];
       } else {
         throw new Error(`Unexpected response format: ${contentType}`);
-- 
2.43.0


From 02b0263eed444024b4420bfd36f7fc860be90d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 49/57] fix: cached range requests return wrong or only some
 bytes and remember failures

---
 src/resolver/cache.ts | 86 ++++++++++++++++++++++++++++++-------------
 1 file changed, 60 insertions(+), 26 deletions(-)

diff --git a/src/resolver/cache.ts b/src/resolver/cache.ts
index 6615163..bcd8bb6 100644
--- a/src/resolver/cache.ts
+++ b/src/resolver/cache.ts
@@ -1,35 +1,69 @@
 import { RangeResolver } from "./resolver";
 
+type Range = { start: number; end: number; expectedLength?: number };
+type RangeResponse = { data: ArrayBuffer; totalLength: number };
+type Entry = { range: Range; response: Promise<RangeResponse> };
+
 export function cache(resolver: RangeResolver): RangeResolver {
-  const cache: [
-    [number, number],
-    Promise<{ data: ArrayBuffer; totalLength: number }[]>,
-  ][] = [];
-
-  return async ([{ start, end }]): Promise<
-    { data: ArrayBuffer; totalLength: number }[]
-  > => {
-    // check if start-end is contained in any of the cached ranges
-    const cached = cache.find(([[s, e]]) => s <= start && end <= e);
-    if (cached) {
-      return cached[1].then((cachedData) => {
-        const data = cachedData[0].data.slice(
-          start - cached[0][0],
-          end - cached[0][0],
-        );
-        return [
-          {
-            data,
-            totalLength: cachedData[0].totalLength,
-          },
-        ];
-      });
+  const cache: Entry[] = [];
+
+  const fetch = (ranges: Range[]): Entry[] => {
+    const responses = resolver(ranges);
+    return ranges.map((range, i) => {
+      const entry = { range, response: responses.then((res) => res[i]) };
+      cache.push(entry);
+      // do not remember failures
+      entry.response.catch(() => cache.splice(cache.indexOf(entry), 1));
+      return entry;
+    });
+  };
+
+  const resolve = async (
+    range: Range,
+    entry: Entry,
+  ): Promise<RangeResponse> => {
+    const { data, totalLength } = await entry.response;
+    const start = range.start - entry.range.start;
+    // slice() copies, so that callers cannot change what is cached
+    return {
+      data: data.slice(start, start + range.end - range.start + 1),
+      totalLength,
+    };
+  };
+
+  const resolveCached = async (
+    range: Range,
+    entry: Entry,
+  ): Promise<RangeResponse> => {
+    const response = await resolve(range, entry).catch(() => null);
+    if (
+      response === null ||
+      // the cached range has been cut at the end of the file
+      response.data.byteLength !== range.end - range.start + 1 ||
+      (range.expectedLength && range.expectedLength !== response.totalLength)
+    ) {
+      return (await resolver([range]))[0];
     }
+    return response;
+  };
+
+  return async (ranges): Promise<RangeResponse[]> => {
+    // check if start-end is contained in any of the cached ranges
+    const cached = ranges.map(({ start, end }) =>
+      cache.find(({ range: r }) => r.start <= start && end <= r.end),
+    );
 
     // TODO: check if start-end overlaps with any of the cached ranges
 
-    const promise = resolver([{ start, end }]);
-    cache.push([[start, end], promise]);
-    return promise;
+    const missing = ranges.filter((_, i) => !cached[i]);
+    const fetched = missing.length > 0 ? fetch(missing) : [];
+
+    return await Promise.all(
+      ranges.map((range, i) =>
+        cached[i]
+          ? resolveCached(range, cached[i]!)
+          : resolve(range, fetched[missing.indexOf(range)]),
+      ),
+    );
   };
 }
-- 
2.43.0


From d60ac80d3d7c5cae3dd3aae8f7974cb9313790a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 50/57] fix: changing the array passed to select changes the
 query

---
 src/db/query-builder.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db/query-builder.ts b/src/db/query-builder.ts
index 6df5ac2..8b0e84e 100644
--- a/src/db/query-builder.ts
+++ b/src/db/query-builder.ts
@@ -60,7 +60,8 @@ export class QueryBuilder<T extends Schema> {
     const newQuery = new QueryBuilder<T>(this.database);
     newQuery.queryObject = {
       ...this.queryObject,
-      select: keys,
+      // later changes to the caller's array must not reach this query
+      select: Array.isArray(keys) ? [...keys] : keys,
     };
     return newQuery;
   }
-- 
2.43.0


From 8298bb76b040cc9af06b3bb52219a3a573004c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 51/57] fix: changing the result of toQuery changes the query

---
 src/db/query-builder.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/db/query-builder.ts b/src/db/query-builder.ts
index 8b0e84e..b9998ca 100644
--- a/src/db/query-builder.ts
+++ b/src/db/query-builder.ts
@@ -16,10 +16,8 @@ export class QueryBuilder<T extends Schema> {
 
   toQuery(): Query<T> {
     return {
-      where: this.queryObject.where ? [...this.queryObject.where] : [],
-      orderBy: this.queryObject.orderBy
-        ? [...this.queryObject.orderBy]
-        : undefined,
+      where: (this.queryObject.where ?? []).map((node) => ({ ...node })),
+      orderBy: this.queryObject.orderBy?.map((node) => ({ ...node })),
       select: this.queryObject.select
         ? [...this.queryObject.select]
         : undefined,
-- 
2.43.0


From a9e45458e5ece8ed5d87c619970ac00ec784ceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 52/57] fix: search validation accepts fractional gram lengths

---
 src/db/query-validation.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/db/query-validation.ts b/src/db/query-validation.ts
index 0781d35..2bfc09e 100644
--- a/src/db/query-validation.ts
+++ b/src/db/query-validation.ts
@@ -169,6 +169,12 @@ export function validateSearch<T extends Schema>(
     );
   }
 
+  if (!Number.isInteger(minGram) || !Number.isInteger(maxGram)) {
+    throw new Error(
+      `Invalid gram length configuration. ${config.minGram} and ${config.maxGram} must be whole numbers.`,
+    );
+  }
+
   if (maxGram > 3 || minGram > 3) {
     throw new Error(
       `Invalid gram length configuration. ${config.minGram} and ${config.maxGram} cannot be greater than 3.`,
-- 
2.43.0


From f5c2208bae6fbf4c225d868df0633b4c0adc5dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 53/57] fix: selecting a field named like an inherited property
 returns functions

---
 src/db/query-lang.ts | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/db/query-lang.ts b/src/db/query-lang.ts
index b06b077..2208335 100644
--- a/src/db/query-lang.ts
+++ b/src/db/query-lang.ts
@@ -79,15 +79,12 @@ export function processWhere<T>(value: T[keyof T]): QueryWhere | null {
 export function handleSelect<T>(data: string, select?: (keyof T)[]) {
   let jData = JSON.parse(data);
   if (select && select.length > 0) {
-    return select.reduce(
-      (acc, field) => {
-        if (field in jData) {
-          acc[field] = jData[field];
-        }
-        return acc;
-      },
-      {} as Pick<T, keyof T>,
-    );
+    // only own properties, not those every object inherits
+    return Object.fromEntries(
+      select
+        .filter((field) => Object.prototype.hasOwnProperty.call(jData, field))
+        .map((field) => [field, jData[field]]),
+    ) as Pick<T, keyof T>;
   }
 
   return jData;
-- 
2.43.0


From 09c2dbe54cff5fa464ac82cc866a72a78851d04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 54/57] fix: characters outside the basic plane shift the
 tokens after them

---
 src/ngram/tokenizer.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ngram/tokenizer.ts b/src/ngram/tokenizer.ts
index b8eaf37..be6dd2c 100644
--- a/src/ngram/tokenizer.ts
+++ b/src/ngram/tokenizer.ts
@@ -29,7 +29,10 @@ export class NgramTokenizer {
     let wordOffsets: number[][] = [];
     let currentWordOffsets: number[] = [];
 
-    Array.from(phrase).forEach((c, idx) => {
+    // wordOffsets count code points
+    const chars = Array.from(phrase);
+
+    chars.forEach((c, idx) => {
       if (/[a-zA-Z0-9]/.test(c)) {
         currentWordOffsets.push(idx);
       } else if (/\s/.test(c)) {
@@ -56,7 +59,7 @@ export class NgramTokenizer {
           let str = "";
 
           for (let jdx = idx; jdx <= idx + N - 1; jdx++) {
-            str += phrase[word[jdx]];
+            str += chars[word[jdx]];
           }
 
           let value = str.toLowerCase();
-- 
2.43.0


From 5bd4ef8c4fdf64003e507e53d72ff9689fe3e207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:36 +0000
Subject: [PATCH 55/57] fix: jsonl2json overwrites its input or writes
 elsewhere depending on the file name

---
 scripts/jsonl2json/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/jsonl2json/src/main.rs b/scripts/jsonl2json/src/main.rs
index 1d3a5d1..77b7f86 100644
--- a/scripts/jsonl2json/src/main.rs
+++ b/scripts/jsonl2json/src/main.rs
@@ -25,7 +25,7 @@ fn main() -> Result<()>{
         array.push(json);
     }
 
-    let output_path = file_path.replace(".jsonl", ".json").to_owned();
+    let output_path = format!("{}.json", file_path.strip_suffix(".jsonl").unwrap_or(&file_path));
     let json_string = serde_json::to_string_pretty(&array)
         .with_context(|| "Failed to serialize JSON data")?;
 
-- 
2.43.0


From acbe6e5d6165a9480deaaf8a86776fe85f8897b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:20 +0000
Subject: [PATCH 56/57] fix: membership of the empty value is reported although
 the tree has no key to compare with

---
 pkg/bptree/bptree.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index a67f76e..a16438c 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -158,12 +158,16 @@ func (t *BPTree) Find(key pointer.ReferencedValue) (pointer.ReferencedValue, poi
 }
 
 func (t *BPTree) Contains(key pointer.ReferencedValue) (bool, error) {
-	k, _, err := t.Find(key)
+	p, err := t.Iter(key)
 	if err != nil {
 		return false, err
 	}
+	if !p.Next() {
+		// there is no key to compare with
+		return false, p.Err()
+	}
 
-	return bytes.Equal(k.Value, key.Value), nil
+	return bytes.Equal(p.Key().Value, key.Value), nil
 }
 
 func (t *BPTree) readNode(ptr pointer.MemoryPointer) (*BPTreeNode, error) {
-- 
2.43.0


From 104c296f11768f94bd83e94e5285962b7ed952fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:34 +0000
Subject: [PATCH 57/57] fix: IsEmpty reports whether the index has no fields

---
 pkg/appendable/index_file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/appendable/index_file.go b/pkg/appendable/index_file.go
index c0d7662..3d5cd7d 100644
--- a/pkg/appendable/index_file.go
+++ b/pkg/appendable/index_file.go
@@ -123,7 +123,7 @@ func (i *IndexFile) IsEmpty() (bool, error) {
 	if err != nil && !errors.Is(err, io.EOF) {
 		return false, fmt.Errorf("failed to get next meta page: %w", err)
 	}
-	return n != nil, nil
+	return n == nil, nil
 }
 
 func (i *IndexFile) IndexFieldNames() ([]string, error) {
-- 
2.43.0

