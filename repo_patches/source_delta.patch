From a508c849acefcfa14200f418a4448c50b2ec5a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:16 +0000
Subject: [PATCH 01/29] fix: LumpIndex counts every id once

Overwriting an id, or deleting an id which does not exist, changed the number
of lumps reported by Usage().
---
 lumpindex/lump_index.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lumpindex/lump_index.go b/lumpindex/lump_index.go
index 716448c..2ed1594 100644
--- a/lumpindex/lump_index.go
+++ b/lumpindex/lump_index.go
@@ -42,20 +42,30 @@ func (index *LumpIndex) Get(id lump.LumpId) (p portion.Portion, err error) {
 func (index *LumpIndex) InsertDataPortion(id lump.LumpId, data portion.DataPortion) {
 	var n uint64 = 0
 	n = data.Start.AsU64() | uint64(data.Len)<<40 | 1<<63
-	index.tree.Insert(id.U64(), n)
-	atomic.AddUint64(&index.counts, 1)
+	index.insert(id, n)
 }
 
 func (index *LumpIndex) InsertJournalPortion(id lump.LumpId, data portion.JournalPortion) {
 	var n uint64 = 0
 	n = data.Start.AsU64() | uint64(data.Len)<<40
+	index.insert(id, n)
+}
+
+//counts is the number of ids in tree, replacing the portion of an id does not change it
+func (index *LumpIndex) insert(id lump.LumpId, n uint64) {
+	_, exist := index.tree.Get(id.U64())
 	index.tree.Insert(id.U64(), n)
-	atomic.AddUint64(&index.counts, 1)
+	if !exist {
+		atomic.AddUint64(&index.counts, 1)
+	}
 }
 
 func (index *LumpIndex) Delete(id lump.LumpId) bool {
+	if !index.tree.Delete(id.U64()) {
+		return false
+	}
 	atomic.AddUint64(&index.counts, ^uint64(0))
-	return index.tree.Delete(id.U64())
+	return true
 }
 
 func (index *LumpIndex) DeleteRange(start lump.LumpId, end lump.LumpId) {
-- 
2.43.0


From 94b56086c7b84e019c12167cd7a2e97bec47ebdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 02/29] fix: apply a journal record to the index before journal
 GC runs

GC decides from the index whether a record is garbage. A put record was added to
the index after GC, so GC could drop it from the journal; a range delete was
applied after GC, so GC could append the put records of deleted lumps behind it.
---
 storage/journal/region.go | 14 +++++++----
 storage/storage.go        | 49 ++++++++++++++++++---------------------
 2 files changed, 33 insertions(+), 30 deletions(-)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index 3707049..0623f61 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -132,11 +132,17 @@ func (journal *JournalRegion) append(index *lumpindex.LumpIndex, record JournalR
 	if embeded, err = journal.ring.Enqueue(record); err != nil {
 		return err
 	}
-	//if record is an embeded entry, we should update the index as well
-	//because journal GC start after append, to prevent to be GCed
+	//the record is in the journal, apply it to the index right now: journal GC
+	//starts after append, and GC decides whether a record is garbage from the index
 	switch v := record.(type) {
+	case PutRecord:
+		index.InsertDataPortion(v.LumpID, v.DataPortion)
 	case EmbedRecord:
 		index.InsertJournalPortion(v.LumpID, embeded)
+	case DeleteRecord:
+		index.Delete(v.LumpID)
+	case DeleteRange:
+		index.DeleteRange(v.Start, v.End)
 	}
 	return nil
 }
@@ -296,7 +302,8 @@ func (journal *JournalRegion) trySync() {
 	}
 }
 
-//Write Journal, Update Index
+//Write Journal, Update Index. All the Record* functions do both, the index is
+//unchanged if error is returned
 func (journal *JournalRegion) RecordPut(index *lumpindex.LumpIndex, id lump.LumpId, data portion.DataPortion) error {
 	record := PutRecord{
 		LumpID:      id,
@@ -305,7 +312,6 @@ func (journal *JournalRegion) RecordPut(index *lumpindex.LumpIndex, id lump.Lump
 	return journal.appendWithGC(index, record)
 }
 
-//WARNING: this will update the INDEX
 func (journal *JournalRegion) RecordEmbed(index *lumpindex.LumpIndex, id lump.LumpId, data []byte) error {
 	if len(data) > lump.MAX_EMBEDDED_SIZE {
 		return internalerror.InvalidInput
diff --git a/storage/storage.go b/storage/storage.go
index bac392b..4ed98e4 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -488,8 +488,6 @@ func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (err error
 		return
 	}
 
-	store.index.InsertDataPortion(lumpid, dataPortion)
-
 	if int64(lumpdata.Inner.Len()) == 1 {
 
 		panic("FUCK")
@@ -591,15 +589,14 @@ func (store *Storage) deleteIfExist(lumpid lump.LumpId, doRecord bool) (bool, ui
 		return false, 0, nil
 	}
 
-	//Because previous Get is ok, this Delete will surely success
-	if ok := store.index.Delete(lumpid); ok == false {
-		panic("Delete after Get failed, something bad happend")
-	}
-
 	if doRecord {
+		//write DeleteRecord and remove lumpid from the index
 		store.jr.Lock()
 		store.journalRegion.RecordDelete(store.index, lumpid)
 		store.jr.Unlock()
+	} else if ok := store.index.Delete(lumpid); ok == false {
+		//Because previous Get is ok, this Delete will surely success
+		panic("Delete after Get failed, something bad happend")
 	}
 
 	var releasedSize uint32
@@ -707,25 +704,29 @@ func (store *Storage) DeleteRange(start lump.LumpId, end lump.LumpId, hasDataPor
 	if !store.opened {
 		return internalerror.StorageClosed
 	}
-	store.jr.Lock()
-	err := store.journalRegion.RecordDeleteRange(store.index, start, end)
-	store.jr.Unlock()
-	if err != nil {
-		return err
-	}
-	return store.index.RangeIter(start, end, func(id lump.LumpId, p portion.Portion) error {
-		p, err := store.index.Get(id)
-		if err != nil {
-			return err
-		}
-		store.index.Delete(id)
+	//the space of these lumps is released after they are removed from the index
+	var released []portion.DataPortion
+	err := store.index.RangeIter(start, end, func(id lump.LumpId, p portion.Portion) error {
 		switch v := p.(type) {
 		case portion.DataPortion:
-			store.dataRegion.Release(v)
+			released = append(released, v)
 		}
 		return nil
-
 	})
+	if err != nil {
+		return err
+	}
+
+	store.jr.Lock()
+	err = store.journalRegion.RecordDeleteRange(store.index, start, end)
+	store.jr.Unlock()
+	if err != nil {
+		return err
+	}
+	for _, p := range released {
+		store.dataRegion.Release(p)
+	}
+	return nil
 }
 
 //added API for raft log and raft apply
@@ -795,9 +796,5 @@ func (store *Storage) WriteRecord(lumpid lump.LumpId, dataPortion portion.DataPo
 	if store.opened == false {
 		return internalerror.StorageClosed
 	}
-	if err := store.journalRegion.RecordPut(store.index, lumpid, dataPortion); err != nil {
-		return err
-	}
-	store.index.InsertDataPortion(lumpid, dataPortion)
-	return nil
+	return store.journalRegion.RecordPut(store.index, lumpid, dataPortion)
 }
-- 
2.43.0


From 414775451d85eb9efb70a3bfa8a82d172a005526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 03/29] fix: journal GC keeps a live record when the journal is
 full

gcOnce ignored the error of append, and the live record was neither in gcQueue
nor in the journal after the next header update.
---
 storage/journal/region.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index 0623f61..bae2a67 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -204,18 +204,27 @@ func (Journal *JournalRegion) isGarbage(index *lumpindex.LumpIndex, entry Journa
 	}
 }
 
-func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) {
+//gcOnce moves at most one live record in gcQueue to the tail of journal.
+//return false if there is no space for it, the record stays in gcQueue then.
+func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) bool {
 	if journal.gcQueue.Len() == 0 && journal.ring.Capacity() < journal.ring.Usage()*2 {
 		journal.fillGCQueue()
 	}
 
+	moved := true
 	for {
 		if e := journal.gcQueue.PopFront(); e != nil {
 			entry := e.(JournalEntry)
 
 			if journal.isGarbage(index, entry) == false {
 				record := entry.Record
-				journal.append(index, record)
+				if err := journal.append(index, record); err != nil {
+					if err != internalerror.JournalStorageFull {
+						panic(fmt.Sprintf("journal gc failed: %+v", err))
+					}
+					journal.gcQueue.PushFront(entry)
+					moved = false
+				}
 				goto ENDFOR
 			}
 			//metric, if record is garbage, the recordCount should decrease
@@ -241,7 +250,7 @@ ENDFOR:
 			journal.ring.ReleaseBytesUntil(head)
 		}
 	*/
-
+	return moved
 }
 
 func (journal *JournalRegion) writeUnusedJournalHeader(head uint64) {
@@ -344,8 +353,7 @@ func (journal *JournalRegion) RunSideJobOnce(index *lumpindex.LumpIndex, countSi
 	} else if journal.syncCountDown != SYNC_INTERVAL {
 		journal.Sync()
 	} else {
-		for i := 0; i < countSideJob; i++ {
-			journal.gcOnce(index)
+		for i := 0; i < countSideJob && journal.gcOnce(index); i++ {
 		}
 		journal.trySync()
 	}
@@ -359,10 +367,13 @@ func (journal *JournalRegion) GetEmbededData(embeded portion.JournalPortion) (bu
 	return
 }
 
-func (journal *JournalRegion) gcAllEntriesInQueue(index *lumpindex.LumpIndex) {
+func (journal *JournalRegion) gcAllEntriesInQueue(index *lumpindex.LumpIndex) bool {
 	for journal.gcQueue.Len() != 0 {
-		journal.gcOnce(index)
+		if !journal.gcOnce(index) {
+			return false
+		}
 	}
+	return true
 }
 
 func (journal *JournalRegion) JournalEntries() (uint64, uint64, uint64, []JournalEntry) {
@@ -391,7 +402,10 @@ func (journal *JournalRegion) GcAllEntries(index *lumpindex.LumpIndex) {
 			journal.fillGCQueue()
 		}
 
-		journal.gcAllEntriesInQueue(index)
+		if !journal.gcAllEntriesInQueue(index) {
+			//journal is full, the records left in gcQueue are still needed
+			return
+		}
 
 		if between(before_head, tail, journal.ring.Head()) {
 			break
-- 
2.43.0


From cb1a0f750c6666c855f9ef7da976622be864e3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 04/29] fix: flush the journal before its header is updated

GcAllEntries updated the head in journal header while the records it had moved
were still in the write buffer. The error of the header update was ignored, and
the bytes before the new head were reused anyway.
---
 storage/journal/region.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index bae2a67..450a2a1 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -253,21 +253,24 @@ ENDFOR:
 	return moved
 }
 
+//The bytes before head are reused after this call, so the records which GC
+//moved to the tail have to be in the nvm, and then the new head.
 func (journal *JournalRegion) writeUnusedJournalHeader(head uint64) {
-	journal.headerRegion.WriteTo(head)
+	if err := journal.ring.Flush(); err != nil {
+		panic(fmt.Sprintf("journal flush failed: %+v", err))
+	}
+	if err := journal.headerRegion.WriteTo(head); err != nil {
+		panic(fmt.Sprintf("journal header write failed: %+v", err))
+	}
 	journal.ring.ReleaseBytesUntil(head)
 }
 
 func (journal *JournalRegion) fillGCQueue() {
 
-	var err error
 	if journal.ring.isEmpty() {
 		return
 	}
 
-	if err = journal.ring.Flush(); err != nil {
-		panic(fmt.Sprintf("fillGCQueue %+v", err))
-	}
 	journal.writeUnusedJournalHeader(journal.ring.head)
 
 	var i int
-- 
2.43.0


From 38cd6a10cc4851d3fcf8c38b5ce620f30f9888e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 05/29] fix: Close takes the locks in the same order as the
 others

Close locked jr and then i, all the other functions lock i and then jr.
---
 storage/storage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 4ed98e4..758e92c 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -669,10 +669,10 @@ func (store *Storage) journalSync() {
 }
 
 func (store *Storage) Close() {
-	store.jr.Lock()
-	defer store.jr.Unlock()
 	store.i.Lock()
 	defer store.i.Unlock()
+	store.jr.Lock()
+	defer store.jr.Unlock()
 	if !store.opened {
 		return
 	}
-- 
2.43.0


From 9a8fece83f131d2830b3fdbc39d275eea1b29333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:28 +0000
Subject: [PATCH 06/29] fix: Delete returns the error of the journal

The lump was removed from the index and its space was released, although no
delete record was in the journal.
---
 storage/storage.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/storage/storage.go b/storage/storage.go
index 758e92c..2a26096 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -592,8 +592,11 @@ func (store *Storage) deleteIfExist(lumpid lump.LumpId, doRecord bool) (bool, ui
 	if doRecord {
 		//write DeleteRecord and remove lumpid from the index
 		store.jr.Lock()
-		store.journalRegion.RecordDelete(store.index, lumpid)
+		err = store.journalRegion.RecordDelete(store.index, lumpid)
 		store.jr.Unlock()
+		if err != nil {
+			return false, 0, err
+		}
 	} else if ok := store.index.Delete(lumpid); ok == false {
 		//Because previous Get is ok, this Delete will surely success
 		panic("Delete after Get failed, something bad happend")
-- 
2.43.0


From abc346f43e5bd2014781ef2d335df6d12126e6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 07/29] fix: a record is in the journal only if its end mark is
 written

Enqueue advanced the tail, and then returned the error of writing EndOfRecords:
the caller drops the change while the record is part of the journal.
---
 storage/journal/ring_buffer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index f5fcb1f..4505d70 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -118,13 +118,14 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 	if err = record.WriteTo(ring.nvm); err != nil {
 		return
 	}
-	ring.tail = ring.nvm.Position()
+	newTail := ring.nvm.Position()
 
 	//4. write End OF Record
 	endRecord := EndOfRecords{}
 	if err = endRecord.WriteTo(ring.nvm); err != nil {
 		return
 	}
+	ring.tail = newTail
 
 	switch r := record.(type) {
 	case EmbedRecord:
-- 
2.43.0


From 7deb90e7dc0c2308e23bf0c091d94f00418968b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:31 +0000
Subject: [PATCH 08/29] fix: the journal wraps around only if the record fits
 in the front

Enqueue wrote GoToFront and reset the tail before it found out that there is no
space in the front, all the records before the tail were lost then. It also
wrote GoToFront before the front was marked as the end of journal, so stale
records there were replayed if the process crashed in between.
---
 storage/journal/ring_buffer.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index 4505d70..5a3ecf0 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -97,6 +97,23 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 
 	//2. check overflow
 	if ring.isOverFlow(record) {
+		//the record would be written at the front, do not touch the journal
+		//if the free space there is not enough
+		if ring.spaceFrom(0, record) > ring.unreleasedHead {
+			err = internalerror.JournalStorageFull
+			return
+		}
+		//the front must be the end of journal before GoToFront is in the nvm,
+		//otherwise stale records in the front are replayed after crash
+		if _, err = ring.nvm.Seek(0, io.SeekStart); err != nil {
+			return
+		}
+		if err = (EndOfRecords{}).WriteTo(ring.nvm); err != nil {
+			return
+		}
+		if err = ring.nvm.Flush(); err != nil {
+			return
+		}
 		if _, err = ring.nvm.Seek(int64(ring.tail), io.SeekStart); err != nil {
 			return
 		}
@@ -136,9 +153,14 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 	return
 }
 
+//the end of the blocks which are changed if record is written at position
+func (ring *JournalRingBuffer) spaceFrom(position uint64, record JournalRecord) uint64 {
+	writeEnd := position + uint64(record.ExternalSize()) + END_OF_RECORDS_SIZE
+	return ring.nvm.BlockSize().CeilAlign(writeEnd)
+}
+
 func (ring *JournalRingBuffer) checkFreeSpace(record JournalRecord) bool {
-	writeEnd := ring.tail + uint64(record.ExternalSize()) + END_OF_RECORDS_SIZE
-	writeEnd = ring.nvm.BlockSize().CeilAlign(writeEnd)
+	writeEnd := ring.spaceFrom(ring.tail, record)
 
 	/*
 	* freeEnd is the length this record could possiblly reach. It could be overflow
-- 
2.43.0


From 3c07ab4e1930487c2e2a2695b3d4781ea2f2e845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 09/29] fix: journal write buffer keeps its data and reports
 read errors

A write which ends before the end of write buffer shrank the buffer and dropped
dirty data. The errors of filling the write buffer were ignored, the garbage in
it was written back.
---
 storage/journal/nvm_buffer.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/storage/journal/nvm_buffer.go b/storage/journal/nvm_buffer.go
index 3b49aa3..9bcbd8b 100644
--- a/storage/journal/nvm_buffer.go
+++ b/storage/journal/nvm_buffer.go
@@ -120,12 +120,13 @@ func (jb *JournalNvmBuffer) Write(buf []byte) (n int, err error) {
 		start := jb.position - writeBufStart
 		end := uint32(start) + uint32(len(buf))
 
-		oldLen := uint64(jb.writeBuf.Len())
-		jb.writeBuf.AlignResize(end)
-
-		if uint64(jb.writeBuf.Len()) - oldLen >= uint64(jb.nvm.BlockSize().AsU16()) {
-			jb.nvm.Seek(int64(jb.writeBufOffset+oldLen), io.SeekStart)
-			jb.nvm.Read(jb.writeBuf.AsBytes()[oldLen:])
+		//never shrink, the data behind end may be dirty
+		if oldLen := jb.writeBuf.Len(); end > oldLen {
+			jb.writeBuf.AlignResize(end)
+			if err := jb.readBlocks(jb.writeBufOffset+uint64(oldLen), jb.writeBuf.AsBytes()[oldLen:]); err != nil {
+				jb.writeBuf.Truncate(oldLen)
+				return 0, err
+			}
 		}
 
 		copy(jb.writeBuf.AsBytes()[start:end], buf)
@@ -149,8 +150,10 @@ func (jb *JournalNvmBuffer) Write(buf []byte) (n int, err error) {
 			jb.writeBufOffset = jb.nvm.BlockSize().FloorAlign(jb.position)
 			//fmt.Printf("update buf offset to %d", jb.position)
 			jb.writeBuf.AlignResize(uint32(jb.nvm.BlockSize().AsU16())) //resize to a sector
-			jb.nvm.Seek(int64(jb.writeBufOffset), io.SeekStart)
-			jb.nvm.Read(jb.writeBuf.AsBytes())
+			if err := jb.readBlocks(jb.writeBufOffset, jb.writeBuf.AsBytes()); err != nil {
+				jb.writeBuf.Truncate(0)
+				return 0, err
+			}
 		}
 
 		//call
@@ -158,6 +161,17 @@ func (jb *JournalNvmBuffer) Write(buf []byte) (n int, err error) {
 	}
 }
 
+//fill buf with the blocks at offset
+func (jb *JournalNvmBuffer) readBlocks(offset uint64, buf []byte) error {
+	if _, err := jb.nvm.Seek(int64(offset), io.SeekStart); err != nil {
+		return err
+	}
+	if _, err := jb.nvm.Read(buf); err != nil {
+		return err
+	}
+	return nil
+}
+
 func (jb *JournalNvmBuffer) Close() error {
 	return jb.Sync()
 }
-- 
2.43.0


From 9767f8dac64ee283a5cad843bcad2444d7fb45a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 10/29] fix: a failed put does not leak space of the data
 region

DataRegion.Put kept the portion if the write failed, and left the trailer in
lumpdata of the caller. Lump data bigger than LUMP_MAX_SIZE got a truncated
portion and panicked.
---
 storage/data_region.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/storage/data_region.go b/storage/data_region.go
index be6f10d..39dc08d 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -59,6 +59,9 @@ func (region *DataRegion) shiftBlockSize(size uint32) uint32 {
 //thread-safe
 func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
 
+	if data.Inner.Len() > lump.LUMP_MAX_SIZE {
+		return portion.DataPortion{}, errors.Wrap(internalerror.InvalidInput, "lump data is too big")
+	}
 	size := data.Inner.Len() + LUMP_DATA_TRAILER_SIZE
 
 	//Aligned
@@ -79,6 +82,7 @@ func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
 	region.Unlock()
 
 	if err != nil {
+		data.Inner.Resize(size - LUMP_DATA_TRAILER_SIZE)
 		return portion.DataPortion{}, err
 	}
 
@@ -96,12 +100,16 @@ func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
 			return data_portion, err
 		}
 	*/
-	_, err = region.nvm.WriteAt(data.Inner.AsBytes(), int64(offset))
+	if _, err = region.nvm.WriteAt(data.Inner.AsBytes(), int64(offset)); err != nil {
+		region.Release(data_portion)
+		data.Inner.Resize(size - LUMP_DATA_TRAILER_SIZE)
+		return portion.DataPortion{}, err
+	}
 
 	ostats.Record(context.Background(), x.DataRegionMetric.WriteBytes.M(int64(data.Inner.Len())))
 	ostats.Record(context.Background(), x.DataRegionMetric.Writes.M(1))
 
-	return data_portion, err
+	return data_portion, nil
 }
 
 //thread-safe
-- 
2.43.0


From f174d43b31b7247be01a25cb2231c23e2a1516cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 11/29] fix: a failed Put keeps the lump it should replace

Put and PutEmbed removed the old lump from the index and released its space
before anything was written: if the put failed the lump was gone, and after
reopen it was back with its space reused by others. A lump put concurrently with
the same id leaked its space, and a put racing with Close was acknowledged but
lost. The old lump is now replaced when the new record is in the journal.
---
 storage/storage.go | 122 +++++++++++++++++++++++++++++++++------------
 1 file changed, 90 insertions(+), 32 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 2a26096..3ff844a 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -469,14 +469,33 @@ func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, leng
 
 }
 
-func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (err error) {
+//Put lumpdata, and release the space of the lump it replaces. If error is
+//returned, the lump which existed before is untouched.
+func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated bool, err error) {
+	store.i.RLock()
+	if !store.opened {
+		store.i.RUnlock()
+		return false, internalerror.StorageClosed
+	}
 	dataPortion, err := store.dataRegion.Put(lumpdata)
-	if err != nil {
-		return
+	store.i.RUnlock()
+	full := errors.Cause(err) == internalerror.StorageFull
+	if err != nil && !full {
+		return false, err
 	}
 
 	store.i.Lock()
 	defer store.i.Unlock()
+	if !store.opened {
+		return false, internalerror.StorageClosed
+	}
+
+	if full {
+		//the space of the old lump is the only place for lumpdata
+		return store.replaceInPlace(lumpid, lumpdata, err)
+	}
+
+	old, getErr := store.index.Get(lumpid)
 
 	store.jr.Lock()
 	err = store.journalRegion.RecordPut(store.index, lumpid, dataPortion)
@@ -485,22 +504,57 @@ func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (err error
 	if err != nil {
 		// revert the dataPortion
 		store.dataRegion.Release(dataPortion)
-		return
+		return false, err
 	}
 
-	if int64(lumpdata.Inner.Len()) == 1 {
+	if getErr == nil {
+		store.release(old)
+	}
+	return getErr == nil, nil
+}
 
-		panic("FUCK")
+//Delete lumpid, and put lumpdata into the space it had. Return fullErr if
+//lumpdata does not fit.
+func (store *Storage) replaceInPlace(lumpid lump.LumpId, lumpdata lump.LumpData, fullErr error) (bool, error) {
+	p, err := store.index.Get(lumpid)
+	if err != nil {
+		return false, fullErr
 	}
-	return
+	old, ok := p.(portion.DataPortion)
+	size := uint64(lumpdata.Inner.Len()) + LUMP_DATA_TRAILER_SIZE
+	if !ok || size > uint64(old.SizeOnDisk(store.innerNVM.BlockSize())) {
+		return false, fullErr
+	}
+
+	store.jr.Lock()
+	defer store.jr.Unlock()
+	if err = store.journalRegion.RecordDelete(store.index, lumpid); err != nil {
+		return false, err
+	}
+	//lumpdata overwrites the old lump, which must not come back after crash
+	store.journalSync()
+	store.dataRegion.Release(old)
+
+	dataPortion, err := store.dataRegion.Put(lumpdata)
+	if err != nil {
+		return false, err
+	}
+	if err = store.journalRegion.RecordPut(store.index, lumpid, dataPortion); err != nil {
+		store.dataRegion.Release(dataPortion)
+		return false, err
+	}
+	return true, nil
 }
 
-func (store *Storage) Put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated bool, err error) {
-	err = nil
-	if updated, _, err = store.deleteIfExist(lumpid, false); err != nil {
-		return updated, err
+func (store *Storage) release(p portion.Portion) {
+	switch v := p.(type) {
+	case portion.DataPortion:
+		store.dataRegion.Release(v)
 	}
-	return updated, store.put(lumpid, lumpdata)
+}
+
+func (store *Storage) Put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated bool, err error) {
+	return store.put(lumpid, lumpdata)
 }
 
 // padding payload with necessary zeros before and after, return:
@@ -540,7 +594,8 @@ func (store *Storage) PutWithOffset(lumpid lump.LumpId, lumpdata lump.LumpData,
 		toWrite := paddingWithZero(payload, startOffset, reservation)
 		data := block.FromBytes(toWrite, block.Min())
 		lumpdata = lump.NewLumpDataWithAb(data)
-		return store.put(lumpid, lumpdata)
+		_, err = store.put(lumpid, lumpdata)
+		return err
 	}
 
 	// update exist object; `reservation` is ignored in this case
@@ -557,24 +612,32 @@ func (store *Storage) PutWithOffset(lumpid lump.LumpId, lumpdata lump.LumpData,
 }
 
 func (store *Storage) PutEmbed(lumpid lump.LumpId, data []byte) (updated bool, err error) {
-	if updated, _, err = store.deleteIfExist(lumpid, false); err != nil {
-		return
-	}
-
 	store.i.Lock()
 	defer store.i.Unlock()
+	if !store.opened {
+		return false, internalerror.StorageClosed
+	}
+	old, getErr := store.index.Get(lumpid)
+
 	store.jr.Lock()
-	defer store.jr.Unlock()
 	err = store.journalRegion.RecordEmbed(store.index, lumpid, data)
-	return
+	store.jr.Unlock()
+	if err != nil {
+		return false, err
+	}
+
+	if getErr == nil {
+		store.release(old)
+	}
+	return getErr == nil, nil
 }
 
 func (store *Storage) Delete(lumpid lump.LumpId) (updated bool, size uint32, err error) {
-	updated, size, err = store.deleteIfExist(lumpid, true)
+	updated, size, err = store.deleteIfExist(lumpid)
 	return
 }
 
-func (store *Storage) deleteIfExist(lumpid lump.LumpId, doRecord bool) (bool, uint32, error) {
+func (store *Storage) deleteIfExist(lumpid lump.LumpId) (bool, uint32, error) {
 
 	store.i.Lock()
 	defer store.i.Unlock()
@@ -589,17 +652,12 @@ func (store *Storage) deleteIfExist(lumpid lump.LumpId, doRecord bool) (bool, ui
 		return false, 0, nil
 	}
 
-	if doRecord {
-		//write DeleteRecord and remove lumpid from the index
-		store.jr.Lock()
-		err = store.journalRegion.RecordDelete(store.index, lumpid)
-		store.jr.Unlock()
-		if err != nil {
-			return false, 0, err
-		}
-	} else if ok := store.index.Delete(lumpid); ok == false {
-		//Because previous Get is ok, this Delete will surely success
-		panic("Delete after Get failed, something bad happend")
+	//write DeleteRecord and remove lumpid from the index
+	store.jr.Lock()
+	err = store.journalRegion.RecordDelete(store.index, lumpid)
+	store.jr.Unlock()
+	if err != nil {
+		return false, 0, err
 	}
 
 	var releasedSize uint32
-- 
2.43.0


From e90774d95e0da9f9b02481244d44f21260f2557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 12/29] fix: MaxSegmentSize of a full storage is 0

---
 storage/storage.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/storage/storage.go b/storage/storage.go
index 3ff844a..fc5dd4f 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -263,13 +263,17 @@ func (store *Storage) GetSnapshotReader() (*nvm.SnapshotReader, error) {
 
 func (store *Storage) Usage() StorageUsage {
 	blockSize := uint64(store.Header().BlockSize.AsU16())
+	var maxSegmentSize uint64
+	if n := store.alloc.MaxSegmentSize(); n > 0 {
+		maxSegmentSize = n*blockSize - LUMP_DATA_TRAILER_SIZE
+	}
 	return StorageUsage{
 		JournalCapacity:   store.Header().JournalRegionSize,
 		DataCapacity:      store.Header().DataRegionSize,
 		FileCounts:        store.index.Count(),
 		DataFreeBytes:     store.alloc.FreeCount() * blockSize,
 		JournalUsageBytes: store.journalRegion.Usage(),
-		MaxSegmentSize:    util.Min(lump.LUMP_MAX_SIZE, store.alloc.MaxSegmentSize()*blockSize-2),
+		MaxSegmentSize:    util.Min(lump.LUMP_MAX_SIZE, maxSegmentSize),
 		//	CurrentFileSize: uint64(store.innerNVM.RawSize()),
 	}
 }
-- 
2.43.0


From c00e549e3cb1282e634879673ac3803d08d9e7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 13/29] fix: lock GC mode, allocation status and journal
 snapshot

SetAutomaticGcMode and GetAllocationStatus raced with the other operations, and
JournalSnapshot read the journal of a closed storage.
---
 storage/data_region.go |  6 ++++++
 storage/storage.go     | 13 +++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/storage/data_region.go b/storage/data_region.go
index 39dc08d..f4cc521 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -184,6 +184,12 @@ func (region *DataRegion) Release(portion portion.DataPortion) {
 }
 
 //read/write threadSafe
+func (region *DataRegion) GetAllocationBitStatus(n uint64, totalBlocks uint64) []float64 {
+	region.Lock()
+	defer region.Unlock()
+	return region.allocator.GetAllocationBitStatus(n, totalBlocks)
+}
+
 func (region *DataRegion) GetSize(dataPortion portion.DataPortion) (size uint32, err error) {
 	/*
 		_, err = region.nvm.Seek(int64(dataPortion.ShiftToPaddingBlock(region.block_size)),
diff --git a/storage/storage.go b/storage/storage.go
index fc5dd4f..d03359b 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -216,6 +216,8 @@ func (store *Storage) Header() nvm.StorageHeader {
 }
 
 func (store *Storage) SetAutomaticGcMode(gc bool) {
+	store.jr.Lock()
+	defer store.jr.Unlock()
 	store.journalRegion.SetAutomaticGcMode(gc)
 }
 
@@ -350,6 +352,9 @@ type JournalSnapshot struct {
 func (store *Storage) JournalSnapshot() JournalSnapshot {
 	store.jr.Lock()
 	defer store.jr.Unlock()
+	if !store.opened {
+		return JournalSnapshot{}
+	}
 	unreleasedhead, head, tail, entries := store.journalRegion.JournalEntries()
 	return JournalSnapshot{
 		UnreleasedHead: unreleasedhead,
@@ -690,9 +695,13 @@ func (store *Storage) deleteIfExist(lumpid lump.LumpId) (bool, uint32, error) {
 
 /*
 return value: len([]float) no more than 12800 points, each point is 4MB
-//thread-UNSAFE
 */
 func (store *Storage) GetAllocationStatus() []float64 {
+	store.i.RLock()
+	defer store.i.RUnlock()
+	if !store.opened {
+		return nil
+	}
 	//each point represents 4M bytes
 	blockSizeBytes := store.storageHeader.BlockSize.AsU32()
 
@@ -708,7 +717,7 @@ func (store *Storage) GetAllocationStatus() []float64 {
 		total = 12800 * n //max size is 50GB
 	}
 
-	return store.alloc.GetAllocationBitStatus(n, total)
+	return store.dataRegion.GetAllocationBitStatus(n, total)
 }
 
 func (store *Storage) Sync() {
-- 
2.43.0


From 190d318b19b1e5bc2601c670935c68a718f9902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 14/29] fix: hold the lock while a lump is read or updated

Get, GetSize, GetWithOffset and PutWithOffset looked up the portion, unlocked,
and then used it: the lump could be deleted and its space given to another lump
in between. Concurrent updates of a lump were lost.
---
 storage/storage.go | 56 +++++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index d03359b..49e3a75 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -390,15 +390,13 @@ func (store *Storage) GetSizeOnDisk(lumpid lump.LumpId) (size uint32, err error)
 
 // Get accurate size of object, require a disk IO
 func (store *Storage) GetSize(lumpid lump.LumpId) (size uint32, err error) {
+	//keep the lock until data is read, the space is not reused in the meantime
 	store.i.RLock()
+	defer store.i.RUnlock()
 	if !store.opened {
-		store.i.RUnlock()
 		return 0, internalerror.StorageClosed
 	}
 	p, err := store.index.Get(lumpid)
-
-	store.i.RUnlock()
-
 	if err != nil {
 		return 0, err
 	}
@@ -419,13 +417,13 @@ func (store *Storage) GetSize(lumpid lump.LumpId) (size uint32, err error) {
 }
 
 func (store *Storage) Get(lumpid lump.LumpId) ([]byte, error) {
+	//keep the lock until data is read, the space is not reused in the meantime
 	store.i.RLock()
+	defer store.i.RUnlock()
 	if !store.opened {
-		store.i.RUnlock()
 		return nil, internalerror.StorageClosed
 	}
 	p, err := store.index.Get(lumpid)
-	store.i.RUnlock()
 	if err != nil {
 		return nil, err
 	}
@@ -451,13 +449,13 @@ func (store *Storage) Get(lumpid lump.LumpId) ([]byte, error) {
 }
 
 func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, length uint32) ([]byte, error) {
+	//keep the lock until data is read, the space is not reused in the meantime
 	store.i.RLock()
+	defer store.i.RUnlock()
 	if !store.opened {
-		store.i.RUnlock()
 		return nil, internalerror.StorageClosed
 	}
 	p, err := store.index.Get(lumpId)
-	store.i.RUnlock()
 	if err != nil {
 		return nil, err
 	}
@@ -588,33 +586,41 @@ func paddingWithZero(payload []byte, startOffset, reservation uint32) []byte {
 func (store *Storage) PutWithOffset(lumpid lump.LumpId, lumpdata lump.LumpData,
 	startOffset uint32, reservation uint32) (err error) {
 
-	store.i.RLock()
-	if !store.opened {
-		store.i.RUnlock()
-		return internalerror.StorageClosed
-	}
-	p, err := store.index.Get(lumpid)
-	store.i.RUnlock()
 	payload := lumpdata.AsBytes()
 
-	if err != nil {
-		// Only one error possible, which is "object could not be found",
-		// meaning this is a new object. Padding necessary zeros and call `put`
-		toWrite := paddingWithZero(payload, startOffset, reservation)
-		data := block.FromBytes(toWrite, block.Min())
-		lumpdata = lump.NewLumpDataWithAb(data)
-		_, err = store.put(lumpid, lumpdata)
+	exist, err := store.updateIfExist(lumpid, payload, startOffset)
+	if exist || err != nil {
+		// for exist object, `reservation` is ignored
 		return err
 	}
 
-	// update exist object; `reservation` is ignored in this case
+	// this is a new object. Padding necessary zeros and call `put`
+	toWrite := paddingWithZero(payload, startOffset, reservation)
+	data := block.FromBytes(toWrite, block.Min())
+	lumpdata = lump.NewLumpDataWithAb(data)
+	_, err = store.put(lumpid, lumpdata)
+	return err
+}
+
+func (store *Storage) updateIfExist(lumpid lump.LumpId, payload []byte, startOffset uint32) (exist bool, err error) {
+	//the lump is read, changed and written back: no one else can use it
+	store.i.Lock()
+	defer store.i.Unlock()
+	if !store.opened {
+		return false, internalerror.StorageClosed
+	}
+	p, err := store.index.Get(lumpid)
+	if err != nil {
+		// Only one error possible, which is "object could not be found"
+		return false, nil
+	}
 
 	switch v := p.(type) {
 	case portion.DataPortion:
-		return store.dataRegion.Update(v, startOffset, payload)
+		return true, store.dataRegion.Update(v, startOffset, payload)
 	case portion.JournalPortion:
 		// TODO?
-		return errors.Wrap(internalerror.InvalidInput, "embedt object does not support update")
+		return true, errors.Wrap(internalerror.InvalidInput, "embedt object does not support update")
 	default:
 		panic("never here")
 	}
-- 
2.43.0


From 5d464cf8fcdd6d94d8bc3fd5dfd439d347330f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 15/29] fix: offset reads and writes of a lump at block
 boundaries

GetWithOffset and Update transferred too few blocks if the range crossed a block
boundary, and missed the object end right before the last block. Update dropped
the error of the write. The sums of offset and length wrapped around uint32,
an embedded lump was sliced without bounds check, and the padding size on disk
was used unchecked.
---
 storage/data_region.go | 94 ++++++++++++++++++++++++++++--------------
 storage/storage.go     |  9 +++-
 2 files changed, 70 insertions(+), 33 deletions(-)

diff --git a/storage/data_region.go b/storage/data_region.go
index f4cc521..6d315aa 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -140,27 +140,27 @@ func (region *DataRegion) Update(dataPortion portion.DataPortion,
 	startOffset uint32, payload []byte) error {
 
 	offsetToDisk, onDiskSize := dataPortion.ShiftBlockToBytes(region.block_size)
-	if startOffset+uint32(len(payload)) > onDiskSize-LUMP_DATA_TRAILER_SIZE {
+	end := uint64(startOffset) + uint64(len(payload))
+	if end > uint64(onDiskSize-LUMP_DATA_TRAILER_SIZE) {
 		return errors.Wrap(internalerror.InvalidInput,
 			"object reserved capacity exceeded")
 	}
-	readOffset := region.block_size.FloorAlign(offsetToDisk + uint64(startOffset))
-	data, err := region.readBlocks(int64(readOffset),
-		(len(payload)+int(region.block_size)-1)/int(region.block_size))
+	readOffset, data, hasTrailer, err := region.readRange(offsetToDisk, onDiskSize, startOffset, end)
 	if err != nil {
 		return err
 	}
-	prefixPadding := startOffset % region.block_size.AsU32()
-	copy(data[prefixPadding:], payload)
-	if startOffset+uint32(len(payload)) > onDiskSize-region.block_size.AsU32() {
-		paddingSize := onDiskSize -
-			startOffset - uint32(len(payload)) - LUMP_DATA_TRAILER_SIZE
-		originalPaddingSize := util.GetUINT16(data[len(data)-2:])
-		if paddingSize < uint32(originalPaddingSize) {
+	if hasTrailer {
+		paddingSize, err := region.paddingSize(data)
+		if err != nil {
+			return err
+		}
+		if end > uint64(onDiskSize-LUMP_DATA_TRAILER_SIZE-paddingSize) {
 			return errors.Wrap(internalerror.InvalidInput,
 				"object reserved capacity exceeded")
 		}
 	}
+	prefixPadding := startOffset % region.block_size.AsU32()
+	copy(data[prefixPadding:], payload)
 
 	/*
 		_, err = region.nvm.Seek(int64(readOffset), io.SeekStart)
@@ -170,13 +170,40 @@ func (region *DataRegion) Update(dataPortion portion.DataPortion,
 		// data is already aligned since it's returned from AlignedBytes
 		_, err = region.nvm.Write(data)
 	*/
-	region.nvm.WriteAt(data, int64(readOffset))
+	if _, err = region.nvm.WriteAt(data, int64(readOffset)); err != nil {
+		return err
+	}
 	ostats.Record(context.Background(), x.DataRegionMetric.WriteBytes.M(int64(len(data))))
 	ostats.Record(context.Background(), x.DataRegionMetric.Writes.M(1))
-	return err
+	return nil
+}
+
+//read the blocks which hold [startOffset, end) of the object at offset. The
+//object ends in the last block, or right before it if the trailer has a block of
+//its own: hasTrailer is true if the last block has to be and is part of data.
+func (region *DataRegion) readRange(offset uint64, onDiskSize uint32,
+	startOffset uint32, end uint64) (readOffset uint64, data []byte, hasTrailer bool, err error) {
+	blockSize := uint64(region.block_size)
+	hasTrailer = end+blockSize >= uint64(onDiskSize)
+	if hasTrailer {
+		end = uint64(onDiskSize)
+	}
+	readStart := region.block_size.FloorAlign(uint64(startOffset))
+	blockCount := (end - readStart + blockSize - 1) / blockSize
+	readOffset = offset + readStart
+	data, err = region.readBlocks(int64(readOffset), int(blockCount))
+	return
+}
+
+//read the padding size from the trailer, which is at the end of data
+func (region *DataRegion) paddingSize(data []byte) (uint32, error) {
+	size := uint32(util.GetUINT16(data[len(data)-LUMP_DATA_TRAILER_SIZE:]))
+	if size >= region.block_size.AsU32() {
+		return 0, errors.Wrapf(internalerror.StorageCorrupted, "padding size of object is %d", size)
+	}
+	return size, nil
 }
 
-//thread safe
 func (region *DataRegion) Release(portion portion.DataPortion) {
 	region.Lock()
 	defer region.Unlock()
@@ -210,7 +237,10 @@ func (region *DataRegion) GetSize(dataPortion portion.DataPortion) (size uint32,
 	if err != nil {
 		return 0, err
 	}
-	paddingSize := uint32(util.GetUINT16(buf[region.block_size-2:]))
+	paddingSize, err := region.paddingSize(buf)
+	if err != nil {
+		return 0, err
+	}
 	size = uint32(dataPortion.Len)*uint32(region.block_size) -
 		paddingSize - LUMP_DATA_TRAILER_SIZE
 
@@ -239,7 +269,10 @@ func (region *DataRegion) Get(dataPortion portion.DataPortion) (lump.LumpData, e
 	if _, err := region.nvm.ReadAt(ab.AsBytes(), int64(offset)); err != nil {
 		return lump.LumpData{}, err
 	}
-	paddingSize := uint32(util.GetUINT16(ab.AsBytes()[ab.Len()-2:]))
+	paddingSize, err := region.paddingSize(ab.AsBytes())
+	if err != nil {
+		return lump.LumpData{}, err
+	}
 
 	ab.Resize(ab.Len() - paddingSize - LUMP_DATA_TRAILER_SIZE)
 
@@ -257,33 +290,30 @@ func (region *DataRegion) GetWithOffset(dataPortion portion.DataPortion,
 
 	offset, onDiskSize := dataPortion.ShiftBlockToBytes(region.block_size)
 
-	if startOffset+length > onDiskSize-LUMP_DATA_TRAILER_SIZE {
+	end := uint64(startOffset) + uint64(length)
+	if end > uint64(onDiskSize-LUMP_DATA_TRAILER_SIZE) {
 		return nil, errors.Wrap(internalerror.InvalidInput, "given length is too big")
 	}
 
-	newReadStart := region.block_size.FloorAlign(offset + uint64(startOffset))
-	prefixPadding := startOffset % region.block_size.AsU32()
-
-	data, err := region.readBlocks(int64(newReadStart),
-		(int(length)+int(region.block_size)-1)/int(region.block_size))
+	_, data, hasTrailer, err := region.readRange(offset, onDiskSize, startOffset, end)
 	if err != nil {
 		return nil, err
 	}
-	//If length is small, and the read op doesn't reach the last block
-	if startOffset+length <= onDiskSize-region.block_size.AsU32() {
-		return data[prefixPadding : prefixPadding+length], nil
+	//Prevent to read the padding data
+	if hasTrailer {
+		paddingSize, err := region.paddingSize(data)
+		if err != nil {
+			return nil, err
+		}
+		end = util.Min(end, uint64(onDiskSize-LUMP_DATA_TRAILER_SIZE-paddingSize))
 	}
-
-	//In this case, if length is too big(reach to the last block), prevent to read the padding data
-
-	padding_size := uint32(util.GetUINT16(data[len(data)-2:]))
-	realFileSize := util.Min32(uint32(len(data))-padding_size-LUMP_DATA_TRAILER_SIZE, prefixPadding+length)
-	if prefixPadding > realFileSize {
+	if uint64(startOffset) > end {
 		return nil, errors.Wrap(internalerror.InvalidInput,
 			"startOffset > object length")
 	}
 
 	ostats.Record(context.Background(), x.DataRegionMetric.ReadBytes.M(int64(len(data))))
 	ostats.Record(context.Background(), x.DataRegionMetric.Reads.M(1))
-	return data[prefixPadding:realFileSize], nil
+	prefixPadding := uint64(startOffset % region.block_size.AsU32())
+	return data[prefixPadding : prefixPadding+end-uint64(startOffset)], nil
 }
diff --git a/storage/storage.go b/storage/storage.go
index 49e3a75..57a92ce 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -469,7 +469,11 @@ func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, leng
 		if err != nil {
 			return nil, err
 		}
-		return data[startOffset : startOffset+length], nil
+		if uint64(startOffset) > uint64(len(data)) {
+			return nil, errors.Wrap(internalerror.InvalidInput, "startOffset > object length")
+		}
+		end := util.Min(uint64(startOffset)+uint64(length), uint64(len(data)))
+		return data[startOffset:end], nil
 	default:
 		panic("never here")
 	}
@@ -587,6 +591,9 @@ func (store *Storage) PutWithOffset(lumpid lump.LumpId, lumpdata lump.LumpData,
 	startOffset uint32, reservation uint32) (err error) {
 
 	payload := lumpdata.AsBytes()
+	if uint64(startOffset)+uint64(len(payload)) > lump.LUMP_MAX_SIZE || reservation > lump.LUMP_MAX_SIZE {
+		return errors.Wrap(internalerror.InvalidInput, "given offset or reservation is too big")
+	}
 
 	exist, err := store.updateIfExist(lumpid, payload, startOffset)
 	if exist || err != nil {
-- 
2.43.0


From c6890e1635446ce89f79fde5b6d124439c2ee87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 16/29] fix: offsets of file and memory NVM stay inside the
 view

---
 nvm/file.go   | 11 +++++++++++
 nvm/memory.go | 12 +++++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/nvm/file.go b/nvm/file.go
index 5ab93f5..3c224db 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -161,6 +161,9 @@ func (nvm *FileNVM) Split(position uint64) (sp1 NonVolatileMemory, sp2 NonVolati
 	if block.Min().CeilAlign(uint64(position)) != position {
 		return nil, nil, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in split", position)
 	}
+	if position > nvm.Capacity() {
+		return nil, nil, errors.Wrapf(internalerror.InvalidInput, "out of range :%d in split", position)
+	}
 
 	//TODO
 	leftNVM := &FileNVM{
@@ -209,6 +212,10 @@ func (nvm *FileNVM) ReadAt(buf []byte, off int64) (n int, err error) {
 		return int(off), errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in seek", off)
 	}
 
+	if off < 0 || uint64(off) > nvm.Capacity() {
+		return -1, errors.Wrapf(internalerror.InvalidInput, "offset is out of range :%d in read", off)
+	}
+
 	maxLen := nvm.Capacity() - uint64(off)
 	if maxLen == 0 {
 		return 0, io.EOF
@@ -258,6 +265,10 @@ func (nvm *FileNVM) WriteAt(buf []byte, offset int64) (n int, err error) {
 		return int(offset), errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in seek", offset)
 	}
 
+	if offset < 0 || uint64(offset) > nvm.Capacity() {
+		return -1, errors.Wrapf(internalerror.InvalidInput, "offset is out of range :%d in write", offset)
+	}
+
 	realPos := int64(nvm.viewStart) + offset
 	maxLen := nvm.Capacity() - uint64(offset)
 	bufLen := uint64(len(buf))
diff --git a/nvm/memory.go b/nvm/memory.go
index 61cdb1d..9cc1dcb 100644
--- a/nvm/memory.go
+++ b/nvm/memory.go
@@ -47,7 +47,7 @@ func (memory *MemoryNVM) RawSize() int64 {
 }
 
 func (memory *MemoryNVM) Split(p uint64) (sp1 NonVolatileMemory, sp2 NonVolatileMemory, err error) {
-	if memory.BlockSize().CeilAlign(p) != p {
+	if memory.BlockSize().CeilAlign(p) != p || p > memory.Capacity() {
 		return nil, nil, internalerror.InvalidInput
 	}
 
@@ -85,8 +85,8 @@ func (memory *MemoryNVM) Seek(offset int64, whence int) (int64, error) {
 }
 
 func (memory *MemoryNVM) Read(buf []byte) (n int, err error) {
-	memory.RLock()
-	defer memory.RUnlock()
+	memory.Lock()
+	defer memory.Unlock()
 	if memory.position >= uint64(len(memory.vec)) {
 		return 0, io.EOF
 	}
@@ -120,6 +120,9 @@ func (memory *MemoryNVM) BlockSize() block.BlockSize {
 func (memory *MemoryNVM) ReadAt(p []byte, off int64) (n int, err error) {
 	memory.RLock()
 	defer memory.RUnlock()
+	if off < 0 {
+		return -1, internalerror.InvalidInput
+	}
 	if off >= int64(len(memory.vec)) {
 		return 0, io.EOF
 	}
@@ -130,6 +133,9 @@ func (memory *MemoryNVM) ReadAt(p []byte, off int64) (n int, err error) {
 func (memory *MemoryNVM) WriteAt(p []byte, off int64) (n int, err error) {
 	memory.Lock()
 	defer memory.Unlock()
+	if off < 0 {
+		return -1, internalerror.InvalidInput
+	}
 	if off >= int64(len(memory.vec)) {
 		return 0, io.EOF
 	}
-- 
2.43.0


From 98af627927f411b6f26d0964fb4d4f94dd4af1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 17/29] fix: a snapshot reader is isolated from concurrent
 writes and delete

---
 nvm/snapnvm.go | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 953d508..7d3b576 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -477,6 +477,7 @@ func OpenBackingFile(fileName string) (*BackingFile, error) {
 
 type SnapshotReader struct {
 	snap          *SnapNVM
+	backfile      *BackingFile
 	offset        uint64
 	buf           *block.AlignedBytes
 	waterHighMark int
@@ -487,6 +488,7 @@ func newSnapshotReader(snap *SnapNVM) *SnapshotReader {
 	ab := block.NewAlignedBytes(int(snap.myBackfile.RegionSize()), block.Min())
 	return &SnapshotReader{
 		snap:          snap,
+		backfile:      snap.myBackfile,
 		buf:           ab,
 		offset:        0,
 		waterHighMark: 0,
@@ -496,18 +498,12 @@ func newSnapshotReader(snap *SnapNVM) *SnapshotReader {
 
 //read/write threadSafe
 func (self *SnapshotReader) Seek(offset int64, whence int) (int64, error) {
-	self.waterHighMark = 0
-	self.waterLowMark = 0
-	if offset > int64(self.snap.myBackfile.rawCapacity) {
-		return 0, errors.Errorf("fail to seek to %d, rawCapacity is %d", offset, self.snap.myBackfile.rawCapacity)
-	}
 	switch whence {
 	case 0:
-		self.offset = uint64(offset)
-		return offset, nil
+		return self.seek(offset)
 	case 1:
-		self.offset = uint64(int64(self.offset) + offset)
-		return int64(self.offset), nil
+		//offset is the end of the buffered data
+		return self.seek(int64(self.offset) - int64(self.waterHighMark-self.waterLowMark) + offset)
 	case 2:
 		panic("not supported so far")
 	default:
@@ -515,11 +511,25 @@ func (self *SnapshotReader) Seek(offset int64, whence int) (int64, error) {
 	}
 }
 
+func (self *SnapshotReader) seek(offset int64) (int64, error) {
+	if offset < 0 || uint64(offset) > self.backfile.rawCapacity {
+		return 0, errors.Errorf("fail to seek to %d, rawCapacity is %d", offset, self.backfile.rawCapacity)
+	}
+	self.waterHighMark = 0
+	self.waterLowMark = 0
+	self.offset = uint64(offset)
+	return offset, nil
+}
+
 //read thread-safe
 func (self *SnapshotReader) Read(p []byte) (n int, err error) {
 
-	//self.snap.Lock() //lock write
-	//defer self.snap.Unlock()
+	//lock write: a region must not be overwritten between the lookup and the read
+	self.snap.RLock()
+	defer self.snap.RUnlock()
+	if self.snap.myBackfile == nil || self.snap.myBackfile != self.backfile {
+		return 0, errors.New("the snapshot was deleted")
+	}
 
 	regionSize := self.snap.myBackfile.RegionSize()
 	/* local buffer is empty */
@@ -729,8 +739,9 @@ func (self *SnapNVM) ReadAt(buf []byte, off int64) (n int, err error) {
 	return self.originFile.ReadAt(buf, off)
 }
 func (self *SnapNVM) Read(buf []byte) (n int, err error) {
-	self.RLock()
-	defer self.RUnlock()
+	//Read moves the cursor
+	self.Lock()
+	defer self.Unlock()
 	return self.originFile.Read(buf)
 }
 
@@ -853,8 +864,8 @@ func (self *SnapNVM) Position() uint64 {
 }
 
 func (self *SnapNVM) RawSize() int64 {
-	self.Lock()
-	self.Unlock()
+	self.RLock()
+	defer self.RUnlock()
 	return self.rawSnapNVM.originFile.RawSize()
 }
 
-- 
2.43.0


From ac38706989cd438d7fe52ee2c8a534b483df260f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 18/29] fix: a failed backup of a region fails the write

---
 nvm/snapnvm.go | 129 +++++++++++++++++++++++++++----------------------
 1 file changed, 71 insertions(+), 58 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 7d3b576..7d4a6b8 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -271,10 +271,10 @@ type BackingFile struct {
 	fileName       string
 }
 
-func (bf *BackingFile) Close() {
+func (bf *BackingFile) Close() error {
 	bf.Lock()
 	defer bf.Unlock()
-	bf.file.Close()
+	return bf.file.Close()
 }
 
 func (bf *BackingFile) Sync() error {
@@ -344,7 +344,7 @@ func (bf *BackingFile) ReadFromOffset(buf []byte, offset uint32) (int, error) {
 //buf's size must be regionSize,
 //offset is buf's offset in origin file
 //WriteOffset write journal first, and then write the buf
-func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) {
+func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) error {
 	bf.Lock()
 	defer bf.Unlock()
 	if uint64(len(buf)) != bf.regionSize {
@@ -362,23 +362,28 @@ func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) {
 		SnapOffset:   uint32((start - bf.dataStart) / bf.regionSize),
 	}
 	//Write journal
-	bf.file.Seek(int64(bf.JournalEnd), io.SeekStart)
+	if _, err := bf.file.Seek(int64(bf.JournalEnd), io.SeekStart); err != nil {
+		return err
+	}
 	if err := entry.WriteTo(bf.file); err != nil {
-		panic("write failed")
+		return err
 	}
 	//Write data
 	if _, err := bf.file.Seek(int64(bf.dataEnd), io.SeekStart); err != nil {
-		panic("im panic")
+		return err
 	}
-	bf.dataEnd += bf.regionSize
 	if _, err := bf.file.Write(buf); err != nil {
-		panic("write panic")
+		return err
 	}
-
+	if err := bf.file.Sync(); err != nil {
+		return err
+	}
+	//the region is copied: a failed copy above is overwritten by the next one
+	bf.dataEnd += bf.regionSize
 	bf.JournalEnd += entry.Size()
 	//fmt.Printf("entry insert %d:%d\n", entry.OriginOffset, entry.SnapOffset)
 	bf.tree.Insert(uint64(entry.OriginOffset), uint64(entry.SnapOffset))
-	bf.file.Sync()
+	return nil
 }
 
 func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64) (*BackingFile, error) {
@@ -672,28 +677,46 @@ func (self *SnapNVM) Unlock() {
 	self.rawSnapNVM.mu.Unlock()
 }
 
+//backup copies the regions of [start, end) which are not in the backing file,
+//start and end are absolute positions of the origin file
+func (self *SnapNVM) backup(start uint64, end uint64) error {
+	backfile := self.rawSnapNVM.myBackfile
+	if backfile == nil {
+		return nil
+	}
+	rawFile := self.rawSnapNVM.originFile
+	end = util.Min(end, rawFile.Capacity())
+	if start >= end {
+		return nil
+	}
+	if end-start > backfile.RegionSize() {
+		panic("Write buf is too big")
+	}
+
+	_, onOrigin := backfile.GetCopyOffset(start, end)
+	for i := 0; i < len(onOrigin); i++ {
+		if _, err := rawFile.Seek(int64(uint64(onOrigin[i])*backfile.RegionSize()), io.SeekStart); err != nil {
+			return err
+		}
+		//although n could be less than regionSize at the end of file, we still write
+		//the whole regionSize to backfile
+		_, err := io.ReadFull(rawFile, self.rawSnapNVM.ab.AsBytes())
+		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+			return err
+		}
+		if err = backfile.WriteOffset(self.rawSnapNVM.ab.AsBytes(), onOrigin[i]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (self *SnapNVM) WriteAt(buf []byte, off int64) (n int, err error) {
 	self.Lock()
 	defer self.Unlock()
 	realPos := self.originFile.ViewStart() + uint64(off)
-	if self.rawSnapNVM.myBackfile != nil {
-		if len(buf) > int(self.rawSnapNVM.myBackfile.RegionSize()) {
-			panic("Write buf is too big")
-		}
-		rawFile := self.rawSnapNVM.originFile
-
-		_, onOrigin := self.rawSnapNVM.myBackfile.GetCopyOffset(realPos, realPos+uint64(len(buf)))
-
-		for i := 0; i < len(onOrigin); i++ {
-			rawFile.Seek(int64(uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize()), io.SeekStart)
-			n, err = io.ReadFull(rawFile, self.rawSnapNVM.ab.AsBytes())
-			if n < 0 {
-				panic("fail to read data")
-			}
-			//although n could be less than regionSize at the end of file, we still write
-			//the whole regionSize to backfile
-			self.rawSnapNVM.myBackfile.WriteOffset(self.rawSnapNVM.ab.AsBytes(), onOrigin[i])
-		}
+	if err = self.backup(realPos, realPos+uint64(len(buf))); err != nil {
+		return -1, err
 	}
 	return self.originFile.WriteAt(buf, off)
 }
@@ -703,33 +726,14 @@ func (self *SnapNVM) Write(buf []byte) (n int, err error) {
 	defer self.Unlock()
 	start := self.originFile.Position() //start is a relative position
 	realPos := self.originFile.ViewStart() + start
-	if self.rawSnapNVM.myBackfile != nil {
-
-		if len(buf) > int(self.rawSnapNVM.myBackfile.RegionSize()) {
-			panic("Write buf is too big")
-		}
-		rawFile := self.rawSnapNVM.originFile
-
-		_, onOrigin := self.rawSnapNVM.myBackfile.GetCopyOffset(realPos, realPos+uint64(len(buf)))
-		/*
-			fmt.Printf("start backup for %+v, start is %d , realPos is start:end is %d:%d \n",
-				onOrigin, start, realPos, realPos+uint64(len(buf)))
-		*/
-		for i := 0; i < len(onOrigin); i++ {
-			rawFile.Seek(int64(uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize()), io.SeekStart)
-
-			//fmt.Printf("offset is %d, len is %d\n", uint64(onOrigin[i])*self.myBackfile.RegionSize(), self.ab.Len())
-			//fmt.Printf("raw file %+v, ab. len %d\n", rawFile, self.ab.Len())
-			n, err = io.ReadFull(rawFile, self.rawSnapNVM.ab.AsBytes())
-			if n < 0 {
-				panic("fail to read data")
-			}
-			//although n could be less than regionSize at the end of file, we still write
-			//the whole regionSize to backfile
-			self.rawSnapNVM.myBackfile.WriteOffset(self.rawSnapNVM.ab.AsBytes(), onOrigin[i])
-		}
+	err = self.backup(realPos, realPos+uint64(len(buf)))
+	//backup moves the cursor of the raw file, restore it
+	if _, seekErr := self.originFile.Seek(int64(start), io.SeekStart); err == nil {
+		err = seekErr
+	}
+	if err != nil {
+		return -1, err
 	}
-	self.originFile.Seek(int64(start), io.SeekStart)
 	return self.originFile.Write(buf)
 }
 
@@ -758,17 +762,26 @@ func (self *SnapNVM) Close() error {
 	if self.splited {
 		return errors.Errorf("can not close splited NVM")
 	}
+	var err error
 	if self.myBackfile != nil {
-		self.myBackfile.Sync()
-		self.myBackfile.Close()
+		err = self.myBackfile.Sync()
+		if closeErr := self.myBackfile.Close(); err == nil {
+			err = closeErr
+		}
+	}
+	if closeErr := self.originFile.Close(); err == nil {
+		err = closeErr
 	}
-	return self.originFile.Close()
+	return err
 }
 
 func (self *SnapNVM) Split(position uint64) (sp1 NonVolatileMemory, sp2 NonVolatileMemory, err error) {
 	self.Lock()
 	defer self.Unlock()
-	left, right, _ := self.originFile.Split(position)
+	left, right, err := self.originFile.Split(position)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	sp1 = &SnapNVM{
 		originFile: left.(*FileNVM),
-- 
2.43.0


From a70afaa7d384ffc41c8bfe34b71f138960242efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 19/29] fix: snapshot file is next to the device and reopened
 only if it is complete

---
 nvm/snapnvm.go | 126 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 85 insertions(+), 41 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 7d4a6b8..19d14cc 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 	"time"
 
@@ -71,22 +72,26 @@ func (entry BitmapEntry) WriteTo(writer io.Writer) (err error) {
 	return
 }
 
-func ReadRecordFrom(reader io.Reader) BitmapEntry {
+func ReadRecordFrom(reader io.Reader) (BitmapEntry, error) {
 	var buf [4]byte
 	if _, err := io.ReadFull(reader, buf[:]); err != nil {
-		panic("can not read from disk: from ReadRecordFrom")
+		return BitmapEntry{}, err
 	}
 	checksum := binary.BigEndian.Uint32(buf[:])
 	var originOffset uint32
 	var snapOffset uint32
-	binary.Read(reader, binary.BigEndian, &originOffset)
-	binary.Read(reader, binary.BigEndian, &snapOffset)
+	if err := binary.Read(reader, binary.BigEndian, &originOffset); err != nil {
+		return BitmapEntry{}, err
+	}
+	if err := binary.Read(reader, binary.BigEndian, &snapOffset); err != nil {
+		return BitmapEntry{}, err
+	}
 	bitmap := BitmapEntry{OriginOffset: originOffset, SnapOffset: snapOffset}
 	//check entry's crc
 	if bitmap.CheckSum() != checksum {
-		panic("check sum failed")
+		return BitmapEntry{}, errors.Wrap(internalerror.StorageCorrupted, "check sum of snapshot entry failed")
 	}
-	return bitmap
+	return bitmap, nil
 }
 
 func (self *BackingFileHeader) WriteTo(writer io.Writer) (err error) {
@@ -283,12 +288,13 @@ func (bf *BackingFile) Sync() error {
 	return bf.file.Sync()
 }
 
-func (bf *BackingFile) Delete() {
+func (bf *BackingFile) Delete() error {
 	bf.Lock()
 	defer bf.Unlock()
 	if err := os.Remove(bf.fileName); err != nil {
-		panic("delete failed")
+		return err
 	}
+	return bf.file.Close()
 }
 
 //give [start, end) of the buf
@@ -299,6 +305,9 @@ func (bf *BackingFile) Delete() {
 func (bf *BackingFile) GetCopyOffset(start uint64, end uint64) (onBacking []uint32, onOrigin []uint32) {
 	bf.RLock()
 	defer bf.RUnlock()
+	if start >= end {
+		return
+	}
 	n0 := start / bf.regionSize
 	n1 := (end - 1) / bf.regionSize
 	for i := n0; i <= n1; i++ {
@@ -389,7 +398,7 @@ func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) error {
 func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64) (*BackingFile, error) {
 	uuidFile := uuid.NewV4()
 	fileName := prefix + "_" + uuidFile.String() + "_lusf.snapshot"
-	file, err := os.OpenFile(fileName, os.O_SYNC|os.O_CREATE|os.O_RDWR, 0755)
+	file, err := os.OpenFile(fileName, os.O_SYNC|os.O_CREATE|os.O_EXCL|os.O_RDWR, 0755)
 	if err != nil {
 		return nil, err
 	}
@@ -404,12 +413,15 @@ func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64
 		RawCapacity:  currentCapacity,
 	}
 
-	if err = header.WriteTo(file); err != nil {
+	if err = header.WriteTo(file); err == nil {
+		err = file.Sync()
+	}
+	if err != nil {
+		file.Close()
+		os.Remove(fileName)
 		return nil, err
 	}
 
-	file.Sync()
-
 	fmt.Printf("Creating Backingfile journalSize is %d, dataStart At %d\n", header.JournalSize, 512+header.JournalSize)
 	return &BackingFile{
 		file:           file,
@@ -427,15 +439,20 @@ func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64
 	}, nil
 }
 
-func OpenBackingFile(fileName string) (*BackingFile, error) {
-	file, err := os.OpenFile(fileName, os.O_RDWR, 0755)
+func OpenBackingFile(fileName string) (backingFile *BackingFile, err error) {
+	file, err := os.OpenFile(fileName, os.O_SYNC|os.O_RDWR, 0755)
 	if err != nil {
 		return nil, errors.Wrapf(internalerror.InvalidInput, "failed to open backfile %v", fileName)
 	}
+	defer func() {
+		if err != nil {
+			file.Close()
+		}
+	}()
 	var header *BackingFileHeader
 	header, err = readBackingFileHeaderFrom(file)
 	if err != nil {
-		panic(fmt.Sprint(err.Error()))
+		return nil, err
 	}
 
 	fmt.Printf("header is %+v\n", header)
@@ -444,20 +461,28 @@ func OpenBackingFile(fileName string) (*BackingFile, error) {
 	tree := judy.JudyL{}
 
 	var dataStart uint64 = 512 + header.JournalSize //unit bytes
-	info, _ := file.Stat()
-	var dataEnd = util.Max(dataStart, uint64(info.Size()))
-
-	n := (dataEnd - dataStart) >> header.RegionShift
+	info, err := file.Stat()
+	if err != nil {
+		return nil, err
+	}
+	//the last copy may be partial, only complete regions count
+	n := (util.Max(dataStart, uint64(info.Size())) - dataStart) >> header.RegionShift
+	dataEnd := dataStart + n<<header.RegionShift
 
 	//fmt.Printf("snapshot number of entry is %d\n", n)
 
 	if _, err = file.Seek(512, io.SeekStart); err != nil {
-		panic("seek failed")
+		return nil, err
 	}
 	for i := uint64(0); i < n; i++ {
-		entry := ReadRecordFrom(file)
-		entryDataEnd := dataStart + uint64(entry.SnapOffset+1)*(1<<header.RegionShift)
-		dataEnd = util.Max(dataEnd, entryDataEnd)
+		var entry BitmapEntry
+		if entry, err = ReadRecordFrom(file); err != nil {
+			return nil, err
+		}
+		if uint64(entry.SnapOffset) != i {
+			err = errors.Wrap(internalerror.StorageCorrupted, "offset of snapshot entry")
+			return nil, err
+		}
 		//fmt.Printf("entry %d %d\n", entry.OriginOffset, entry.SnapOffset)
 		tree.Insert(uint64(entry.OriginOffset), uint64(entry.SnapOffset))
 	}
@@ -618,34 +643,50 @@ type SnapNVM struct {
 	rawSnapNVM *SnapNVM
 }
 
+//findBackingFiles returns the files CreateBackingFile(prefix) made: prefix_UUID_lusf.snapshot
+func findBackingFiles(prefix string) ([]string, error) {
+	entries, err := os.ReadDir(filepath.Dir(prefix))
+	if err != nil {
+		return nil, err
+	}
+	var matches []string
+	for _, entry := range entries {
+		name := entry.Name()
+		id := strings.TrimSuffix(strings.TrimPrefix(name, filepath.Base(prefix)+"_"), "_lusf.snapshot")
+		if _, err := uuid.FromString(id); err != nil || name != filepath.Base(prefix)+"_"+id+"_lusf.snapshot" {
+			continue
+		}
+		matches = append(matches, filepath.Join(filepath.Dir(prefix), name))
+	}
+	return matches, nil
+}
+
 func NewSnapshotNVM(originFile *FileNVM) (*SnapNVM, error) {
 
 	if originFile.splited {
 		panic("can not create snap from splited NVM")
 	}
-	var err error
-	fileDirectory := filepath.Dir(originFile.path)
 	var myBackFile *BackingFile = nil
 	///a/b/c/d/EXXX.lusf => EXXX
 	//../../../ASDF.lusf => ASDF
 	baseName := filepath.Base(originFile.path)
-	prefix := baseName[0 : len(baseName)-5]
-	pattern := fmt.Sprintf("%s/%s_*_lusf.snapshot", fileDirectory, prefix)
-	//fmt.Println(pattern)
-	matches, err := filepath.Glob(pattern)
-	//fmt.Println(matches)
-	if err != nil {
-		panic(err.Error())
-	}
-	if len(matches) == 0 {
-		//myBackFile, err = CreateBackingFile(prefix, uint64(originFile.RawSize()))
-	} else if len(matches) == 1 {
-		fmt.Printf("found snapshot file %s\n", matches[0])
-		myBackFile, err = OpenBackingFile(matches[0])
+	if len(baseName) < 5 {
+		return nil, errors.Wrapf(internalerror.InvalidInput, "name of the file is too short: %s", baseName)
 	}
+	prefix := filepath.Join(filepath.Dir(originFile.path), baseName[0:len(baseName)-5])
+	matches, err := findBackingFiles(prefix)
 	if err != nil {
 		return nil, err
 	}
+	if len(matches) > 1 {
+		return nil, errors.Wrapf(internalerror.InvalidInput, "more than one snapshot file: %v", matches)
+	}
+	if len(matches) == 1 {
+		fmt.Printf("found snapshot file %s\n", matches[0])
+		if myBackFile, err = OpenBackingFile(matches[0]); err != nil {
+			return nil, err
+		}
+	}
 	snapNVM := &SnapNVM{
 		originFile: originFile,
 		myBackfile: myBackFile,
@@ -830,7 +871,9 @@ func (self *SnapNVM) DeleteSnapshot() error {
 		return errors.Errorf("can not create snapshot in splited NVM")
 	}
 	if self.myBackfile != nil {
-		self.myBackfile.Delete()
+		if err := self.myBackfile.Delete(); err != nil {
+			return err
+		}
 		self.myBackfile = nil
 	}
 	return nil
@@ -850,11 +893,12 @@ func (self *SnapNVM) createSnapshotIfNeeded() (err error) {
 	}
 	size := self.originFile.Capacity()
 
-	self.myBackfile, err = CreateBackingFile(self.prefix, uint64(size), uint64(self.originFile.RawSize()))
-	fmt.Printf("backingfile is %+v\n", self.myBackfile)
+	backFile, err := CreateBackingFile(self.prefix, uint64(size), uint64(self.originFile.RawSize()))
 	if err != nil {
 		return err
 	}
+	fmt.Printf("backingfile is %+v\n", backFile)
+	self.myBackfile = backFile
 	regionSize := self.myBackfile.RegionSize()
 	self.ab = block.NewAlignedBytes(int(regionSize), block.Min())
 	return
-- 
2.43.0


From a8cf3272c825a1c35fb911b6d088b99e00bc2349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 20/29] fix: FromBytes copies to the aligned part of the buffer

---
 block/aligned_bytes.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/block/aligned_bytes.go b/block/aligned_bytes.go
index d6d3ccc..689ac23 100644
--- a/block/aligned_bytes.go
+++ b/block/aligned_bytes.go
@@ -61,11 +61,14 @@ func FromBytes(src []byte, blockSize BlockSize) *AlignedBytes {
 
 //for debug
 func fromBytes(src []byte, blockSize BlockSize) (*AlignedBytes, bool) {
-	a := alignment(src, blockSize.AsU16())
+	if cap(src) == 0 {
+		return NewAlignedBytes(0, blockSize), true
+	}
+	a := alignment(src[:1], blockSize.AsU16())
 	capacity := blockSize.CeilAlign(uint64(len(src)))
 	if a != 0 || capacity > uint64(cap(src)) {
 		newAlignedBytes := NewAlignedBytes(len(src), blockSize)
-		copy(newAlignedBytes.buf, src)
+		copy(newAlignedBytes.AsBytes(), src)
 		return newAlignedBytes, true
 	}
 	return &AlignedBytes{
-- 
2.43.0


From e89f5c76ea8d4b0e8c7e28d93b2320d89ce92fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 21/29] fix: Compare of lump ids is a total order

---
 lump/lump.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lump/lump.go b/lump/lump.go
index 262b649..f4ade96 100644
--- a/lump/lump.go
+++ b/lump/lump.go
@@ -66,7 +66,12 @@ func (id LumpId) Write(w io.Writer) (int, error) {
 }
 
 func (left LumpId) Compare(right LumpId) int {
-	return int(left.lo - right.lo)
+	if left.lo < right.lo {
+		return -1
+	} else if left.lo > right.lo {
+		return 1
+	}
+	return 0
 }
 
 func EmptyLump() LumpId {
-- 
2.43.0


From 7cc2875258d566563f783b305bf072bfdd84e200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 22/29] fix: a corrupt journal fails the open instead of a
 panic

---
 storage/journal/record.go | 10 +++++++---
 storage/journal/region.go | 27 +++++++++++++++------------
 storage/storage.go        |  4 +++-
 3 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/storage/journal/record.go b/storage/journal/record.go
index b5f3dbd..d8d37f7 100644
--- a/storage/journal/record.go
+++ b/storage/journal/record.go
@@ -246,8 +246,12 @@ func (record DeleteRange) WriteTo(w io.Writer) error {
 	if err := writeRecordHeader(record, w); err != nil {
 		return err
 	}
-	record.Start.Write(w)
-	record.End.Write(w)
+	if _, err := record.Start.Write(w); err != nil {
+		return err
+	}
+	if _, err := record.End.Write(w); err != nil {
+		return err
+	}
 
 	return nil
 }
@@ -319,7 +323,7 @@ func ReadRecordFrom(reader io.Reader) (JournalRecord, error) {
 		}
 		record = DeleteRange{Start: start, End: end}
 	default:
-		panic("read tag error")
+		return nil, errors.Wrapf(internalerror.StorageCorrupted, "unknown tag: %d", tag)
 	}
 
 	if checksum != record.CheckSum() {
diff --git a/storage/journal/region.go b/storage/journal/region.go
index 450a2a1..4bbbd46 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -7,6 +7,7 @@ import (
 	"io"
 
 	"github.com/phf/go-queue/queue"
+	"github.com/pkg/errors"
 	"github.com/thesues/cannyls-go/block"
 	"github.com/thesues/cannyls-go/internalerror"
 	"github.com/thesues/cannyls-go/lump"
@@ -36,19 +37,21 @@ func (journal *JournalRegion) SetAutomaticGcMode(gc bool) {
 	journal.gcAfterAppend = gc
 }
 
-func InitialJournalRegion(writer io.Writer, sector block.BlockSize) {
+func InitialJournalRegion(writer io.Writer, sector block.BlockSize) error {
 	//journal header, in sector one
 	padding := sector.AsU16() - 8
 	var buf = make([]byte, padding)
-	writer.Write(buf)
+	if _, err := writer.Write(buf); err != nil {
+		return err
+	}
 
-	binary.Write(writer, binary.BigEndian, uint64(0))
+	if err := binary.Write(writer, binary.BigEndian, uint64(0)); err != nil {
+		return err
+	}
 
 	//first record in sector two
 	r := EndOfRecords{}
-	if err := r.WriteTo(writer); err != nil {
-		panic("failed to initialize JournalRegion")
-	}
+	return r.WriteTo(writer)
 }
 
 func OpenJournalRegion(nvm nvm.NonVolatileMemory) (*JournalRegion, error) {
@@ -84,16 +87,19 @@ func OpenJournalRegion(nvm nvm.NonVolatileMemory) (*JournalRegion, error) {
 	}, nil
 }
 
-func (journal *JournalRegion) RestoreIndex(index *lumpindex.LumpIndex) {
+func (journal *JournalRegion) RestoreIndex(index *lumpindex.LumpIndex) error {
 	var entry JournalEntry
 	var err error
 	iter := journal.ring.BufferedIter()
+	//this iter has more than one goroutine to read data from nvm
+	//It must be sure all the goroutines are closed before normal operations
+	defer iter.Close()
 	var i int64 = 0
 	for {
 		entry, err = iter.PopFront()
 		if err != nil {
 			if err != internalerror.NoEntries {
-				panic(fmt.Sprintf("Can not restore journal :%v", err))
+				return errors.Wrap(err, "Can not restore journal")
 			}
 			break
 		}
@@ -120,10 +126,7 @@ func (journal *JournalRegion) RestoreIndex(index *lumpindex.LumpIndex) {
 	ostats.Record(context.Background(), x.JournalRegionMetric.RecordCounts.M(i))
 	//update usage
 	journal.ring.DoStoreUsage()
-
-	//this iter has more than one goroutine to read data from nvm
-	//It must be sure all the goroutines are closed before normal operations
-	iter.Close()
+	return nil
 }
 
 func (journal *JournalRegion) append(index *lumpindex.LumpIndex, record JournalRecord) error {
diff --git a/storage/storage.go b/storage/storage.go
index 57a92ce..c5c1d02 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -74,7 +74,9 @@ func OpenCannylsStorage(path string) (*Storage, error) {
 		return nil, err
 	}
 
-	journalRegion.RestoreIndex(index)
+	if err = journalRegion.RestoreIndex(index); err != nil {
+		return nil, err
+	}
 	/*
 		fmt.Printf("Index's mem is %d\n", index.MemoryUsed())
 		id, _ := index.Min()
-- 
2.43.0


From 0fdd8a26097178e509b6e49fe6a63c866e67202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 23/29] fix: a failed create or open does not leak the file and
 its lock

---
 nvm/file.go        |  4 +++-
 nvm/header.go      |  3 +++
 storage/storage.go | 36 ++++++++++++++++++++++++++++--------
 3 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/nvm/file.go b/nvm/file.go
index 3c224db..2fdc538 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -45,7 +45,7 @@ func CreateIfAbsent(path string, capacity uint64) (*FileNVM, error) {
 	var flags int
 	var f *os.File
 	var err error
-	flags = os.O_CREATE | os.O_RDWR
+	flags = os.O_CREATE | os.O_EXCL | os.O_RDWR
 
 	if f, err = openFileWithDirectIO(path, flags, 0755); err != nil {
 		return nil, errors.Wrapf(err, "failed to open file %s\n", path)
@@ -74,6 +74,7 @@ func CreateIfAbsent(path string, capacity uint64) (*FileNVM, error) {
 	*/
 
 	if err = lockFileWithExclusiveLock(f); err != nil {
+		f.Close()
 		return nil, err
 	}
 
@@ -120,6 +121,7 @@ func Open(path string) (nvm *FileNVM, header *StorageHeader, err error) {
 	}
 
 	if err = lockFileWithExclusiveLock(f); err != nil {
+		f.Close()
 		return nil, nil, err
 	}
 	err = nil
diff --git a/nvm/header.go b/nvm/header.go
index 5c230f8..3116eef 100644
--- a/nvm/header.go
+++ b/nvm/header.go
@@ -238,5 +238,8 @@ func (self *StorageHeader) SplitRegion(nvm NonVolatileMemory) (NonVolatileMemory
 		return nil, nil
 	}
 	journalNVM, dataNVM, err := body.Split(self.JournalRegionSize)
+	if err != nil {
+		return nil, nil
+	}
 	return journalNVM, dataNVM
 }
diff --git a/storage/storage.go b/storage/storage.go
index c5c1d02..b2b0adf 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -63,18 +63,25 @@ func OpenCannylsStorage(path string) (*Storage, error) {
 	}
 	snapNVM, err := nvm.NewSnapshotNVM(file)
 	if err != nil {
+		file.Close()
 		return nil, err
 	}
 
 	index := lumpindex.NewIndex()
 	journalNVM, dataNVM := header.SplitRegion(snapNVM)
+	if journalNVM == nil || dataNVM == nil {
+		snapNVM.Close()
+		return nil, errors.Wrap(internalerror.StorageCorrupted, "failed to split regions")
+	}
 
 	journalRegion, err := journal.OpenJournalRegion(journalNVM)
 	if err != nil {
+		snapNVM.Close()
 		return nil, err
 	}
 
 	if err = journalRegion.RestoreIndex(index); err != nil {
+		snapNVM.Close()
 		return nil, err
 	}
 	/*
@@ -148,30 +155,43 @@ func CreateCannylsStorage(path string, capacity uint64, journal_ratio float64) (
 	}
 	snapNVM, err := nvm.NewSnapshotNVM(file)
 	if err != nil {
+		file.Close()
 		return nil, err
 	}
 
+	if err = initializeNVM(snapNVM, journal_ratio); err != nil {
+		snapNVM.Close()
+		return nil, err
+	}
+	if err = snapNVM.Close(); err != nil {
+		return nil, err
+	}
+
+	return OpenCannylsStorage(path)
+}
+
+//initializeNVM writes the header and the empty journal
+func initializeNVM(snapNVM *nvm.SnapNVM, journal_ratio float64) (err error) {
 	headBuf := new(bytes.Buffer)
 	header := makeHeader(snapNVM, journal_ratio)
 
 	if err = header.WriteHeaderRegionTo(headBuf); err != nil {
-		return nil, err
+		return err
 	}
 	//now headBuf's len should be at least 512
 
-	journal.InitialJournalRegion(headBuf, snapNVM.BlockSize())
+	if err = journal.InitialJournalRegion(headBuf, snapNVM.BlockSize()); err != nil {
+		return err
+	}
 	//headbuf should be header(512) + (journal header)512 + (journal)512
 
 	alignedBufHead := block.FromBytes(headBuf.Bytes(), snapNVM.BlockSize())
 	alignedBufHead.Align()
-	snapNVM.Write(alignedBufHead.AsBytes())
-
-	if err = snapNVM.Sync(); err != nil {
-		return nil, err
+	if _, err = snapNVM.Write(alignedBufHead.AsBytes()); err != nil {
+		return err
 	}
-	snapNVM.Close()
 
-	return OpenCannylsStorage(path)
+	return snapNVM.Sync()
 }
 
 func makeHeader(file nvm.NonVolatileMemory, journal_ratio float64) nvm.StorageHeader {
-- 
2.43.0


From 0f1f0f1786586c36f0a5f6ddad16320ec3c4c52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 24/29] fix: the regions of a new storage fit in the device

---
 storage/storage.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index b2b0adf..8c5036a 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -216,16 +216,18 @@ func makeHeader(file nvm.NonVolatileMemory, journal_ratio float64) nvm.StorageHe
 		journalSize = uint64(file.BlockSize().AsU16() * 2)
 	}
 
+	//the data region has one block at least
+	blockSize := uint64(file.BlockSize().AsU16())
+	if headerSize+journalSize+blockSize > totalSize {
+		journalSize = file.BlockSize().FloorAlign(totalSize - headerSize - blockSize)
+	}
+
 	dataSize := totalSize - journalSize - headerSize
 	dataSize = file.BlockSize().FloorAlign(dataSize)
 	if dataSize > MAX_DATA_REGION_SIZE {
 		panic(fmt.Sprintf("data size is too big: %d", dataSize))
 	}
 
-	if dataSize < uint64(file.BlockSize().AsU16()) {
-		dataSize = uint64(file.BlockSize().AsU16())
-	}
-
 	header := nvm.DefaultStorageHeader()
 	header.BlockSize = file.BlockSize()
 	header.JournalRegionSize = journalSize
-- 
2.43.0


From a3ff87a28392dd54ea0e2087e8a846b9b207c341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:01 +0000
Subject: [PATCH 25/29] fix: kanils Put reads the whole file, Resize reads its
 size and syncs

---
 cmd/kanils/main.go | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/cmd/kanils/main.go b/cmd/kanils/main.go
index e21fab1..b0ec928 100644
--- a/cmd/kanils/main.go
+++ b/cmd/kanils/main.go
@@ -82,7 +82,7 @@ func expandDataRegionSize(c *cli.Context) (err error) {
 	if _, err = fileNVM.Write(alignedBufHead.AsBytes()); err != nil {
 		return err
 	}
-	return nil
+	return fileNVM.Sync()
 }
 
 func headerCannyls(c *cli.Context) (err error) {
@@ -143,7 +143,7 @@ func dumpCannyls(c *cli.Context) (err error) {
 	for _, id := range ids {
 		d, err := store.Get(id)
 		if err != nil {
-			break
+			return err
 		}
 
 		fmt.Printf("%s :%s\n", id.String(), string(d))
@@ -318,6 +318,7 @@ func putCannyls(c *cli.Context) (err error) {
 		if err != nil {
 			return err
 		}
+		defer file.Close()
 		info, err := file.Stat()
 		if err != nil {
 			return err
@@ -346,17 +347,8 @@ func putCannyls(c *cli.Context) (err error) {
 }
 
 func readUpData(r io.Reader, lumpdata lump.LumpData) error {
-	s := lumpdata.AsBytes()
-	for {
-		n, err := r.Read(s)
-		if err == io.EOF {
-			return nil
-		}
-		if err != nil {
-			return err
-		}
-		s = s[:n]
-	}
+	_, err := io.ReadFull(r, lumpdata.AsBytes())
+	return err
 }
 
 func main() {
@@ -464,7 +456,7 @@ func main() {
 			Usage: "Resize --storage <path> --size <size>",
 			Flags: []cli.Flag{
 				cli.StringFlag{Name: "storage"},
-				cli.StringFlag{Name: "size"},
+				cli.Uint64Flag{Name: "size"},
 			},
 			Action: expandDataRegionSize,
 		},
-- 
2.43.0


From c6a11072d8e83cb17f2bb73e9812e55eba14afd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 26/29] fix: kanils fails with an exit code, Resize keeps a
 snapshot intact

---
 cmd/kanils/main.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/cmd/kanils/main.go b/cmd/kanils/main.go
index b0ec928..a2d14c6 100644
--- a/cmd/kanils/main.go
+++ b/cmd/kanils/main.go
@@ -60,11 +60,20 @@ func expandDataRegionSize(c *cli.Context) (err error) {
 	if err != nil {
 		return err
 	}
-	defer fileNVM.Close()
+	//if a snapshot exists, the old header belongs to it
+	snapNVM, err := nvm.NewSnapshotNVM(fileNVM)
+	if err != nil {
+		fileNVM.Close()
+		return err
+	}
+	defer snapNVM.Close()
 	newSize := fileNVM.BlockSize().FloorAlign(paramSize)
 	if newSize <= header.DataRegionSize {
 		return errors.Errorf("new Size %d is smaller than current size %d", newSize, header.DataRegionSize)
 	}
+	if newSize > nvm.MAX_DATA_REGION_SIZE {
+		return errors.Errorf("new Size %d is too big", newSize)
+	}
 	fmt.Printf("setting new size to %d\n", newSize)
 	header.DataRegionSize = newSize
 
@@ -76,13 +85,13 @@ func expandDataRegionSize(c *cli.Context) (err error) {
 	alignedBufHead := block.FromBytes(headBuf.Bytes(), fileNVM.BlockSize())
 	alignedBufHead.Align()
 	//now headBuf's len should be at least 512
-	if _, err = fileNVM.Seek(0, io.SeekStart); err != nil {
+	if _, err = snapNVM.Seek(0, io.SeekStart); err != nil {
 		return err
 	}
-	if _, err = fileNVM.Write(alignedBufHead.AsBytes()); err != nil {
+	if _, err = snapNVM.Write(alignedBufHead.AsBytes()); err != nil {
 		return err
 	}
-	return fileNVM.Sync()
+	return snapNVM.Sync()
 }
 
 func headerCannyls(c *cli.Context) (err error) {
@@ -464,6 +473,7 @@ func main() {
 	err := app.Run(os.Args)
 	if err != nil {
 		fmt.Println(err)
+		os.Exit(1)
 	}
 }
 
-- 
2.43.0


From e93c325c1b576c0d4c3472b52c91b8239f0d20e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 27/29] fix: readup answers every request and keeps the
 snapshot until the backup is durable

---
 cmd/readup/main.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/cmd/readup/main.go b/cmd/readup/main.go
index 050a128..51ca2c2 100644
--- a/cmd/readup/main.go
+++ b/cmd/readup/main.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
+	"sync/atomic"
 
 	"io"
 	"os"
@@ -36,7 +37,7 @@ func favicon(w http.ResponseWriter, r *http.Request) {
 
 //Based on https://medium.com/@cep21/how-to-correctly-use-context-context-in-go-1-7-8f2c0fafdf39
 
-var backupRuning bool = false
+var backupRuning int32
 
 //put
 type PutRequest struct {
@@ -141,7 +142,7 @@ func ServeStore(store *storage.Storage) {
 						if !have {
 							req.resultChan <- PutResult{id.U64(), NoLumpIdSpaceError, nil}
 							span.End()
-							return
+							continue
 						}
 					}
 					var err error
@@ -205,7 +206,10 @@ func ServeStore(store *storage.Storage) {
 			c.String(500, err.Error())
 			return
 		}
-		store.Delete(id)
+		if _, _, err = store.Delete(id); err != nil {
+			c.String(500, err.Error())
+			return
+		}
 		c.Status(200)
 		c.Header("content-length", fmt.Sprintf("%d", len(data)))
 		c.Stream(func(w io.Writer) bool {
@@ -278,7 +282,7 @@ func ServeStore(store *storage.Storage) {
 			return
 		}
 
-		if backupRuning {
+		if !atomic.CompareAndSwapInt32(&backupRuning, 0, 1) {
 			c.String(http.StatusCreated, "backup is running")
 			return
 		}
@@ -287,20 +291,24 @@ func ServeStore(store *storage.Storage) {
 		backupStopper.RunWorker(func() {
 			//open backup file, name is start time
 			defer func() {
-				backupRuning = false
+				atomic.StoreInt32(&backupRuning, 0)
 			}()
 
 			reader, err := store.GetSnapshotReader()
+			if err != nil {
+				fmt.Printf("failed to backup: %+v\n", err)
+				return
+			}
 			fileName := time.Now().Format(time.RFC3339) + "_backup.lusf"
 			backfile, err := os.OpenFile(fileName, os.O_CREATE|os.O_RDWR, 0644)
 			if err != nil {
 				return
 			}
+			defer backfile.Close()
 			var buf [512 << 10]byte
 			for {
 				select {
 				case <-backupStopper.ShouldStop():
-					backfile.Close()
 					return
 				case <-time.After(100 * time.Millisecond):
 					n, err := reader.Read(buf[:])
@@ -309,8 +317,14 @@ func ServeStore(store *storage.Storage) {
 						return
 					}
 					if n == 0 {
-						store.DeleteSnapshot()
-						backfile.Close()
+						//the snapshot is the only copy until the backup file is on disk
+						if err = backfile.Sync(); err != nil {
+							fmt.Printf("failed to sync backup: %+v\n", err)
+							return
+						}
+						if err = store.DeleteSnapshot(); err != nil {
+							fmt.Printf("failed to delete snapshot: %+v\n", err)
+						}
 						return
 					}
 					n, err = backfile.Write(buf[0:n])
-- 
2.43.0


From 7493d21d1c2bc03969a607fb8447507c9f9bf8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 28/29] fix: the journal buffer reports the end of the region

---
 storage/journal/nvm_buffer.go  | 3 +++
 storage/journal/ring_buffer.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/storage/journal/nvm_buffer.go b/storage/journal/nvm_buffer.go
index 9bcbd8b..80d1c66 100644
--- a/storage/journal/nvm_buffer.go
+++ b/storage/journal/nvm_buffer.go
@@ -94,6 +94,9 @@ func (jb *JournalNvmBuffer) Read(buf []byte) (n int, err error) {
 	}
 
 	start := jb.position - readBufStart
+	if uint64(innerReadSize) <= start && len(buf) > 0 {
+		return 0, io.EOF
+	}
 	end := util.Min(uint64(innerReadSize), start+uint64(len(buf)))
 	readSize := end - start
 
diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index 5a3ecf0..4987d10 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -51,7 +51,7 @@ func (ring *JournalRingBuffer) ReadEmbededBuffer(position uint64, data []byte) (
 	if _, err = ring.nvm.Seek(int64(position), io.SeekStart); err != nil {
 		return err
 	}
-	if _, err = ring.nvm.Read(data); err != nil {
+	if _, err = io.ReadFull(ring.nvm, data); err != nil {
 		return err
 	}
 	return
-- 
2.43.0


From 544ecac3ae8731d8847e02559461bcda4d1a5758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:17 +0000
Subject: [PATCH 29/29] fix: a running backup is stopped before the store is
 closed

Its stopper was local to the request that started it, so nobody could
end it: it went on reading the snapshot while the store was closed.
---
 cmd/readup/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/readup/main.go b/cmd/readup/main.go
index 51ca2c2..397bdf1 100644
--- a/cmd/readup/main.go
+++ b/cmd/readup/main.go
@@ -109,6 +109,9 @@ func ServeStore(store *storage.Storage) {
 
 	reqeustChan := make(chan PutRequest, 20)
 
+	//a running backup is stopped before the storage is closed
+	backupStopper := util.NewStopper()
+
 	//cannyls storage routine
 	cannylsStopper := util.NewStopper()
 
@@ -287,7 +290,6 @@ func ServeStore(store *storage.Storage) {
 			return
 		}
 
-		backupStopper := util.NewStopper()
 		backupStopper.RunWorker(func() {
 			//open backup file, name is start time
 			defer func() {
@@ -435,6 +437,8 @@ func ServeStore(store *storage.Storage) {
 			}
 			httpStopper.Stop() //wait for the ListenAndServe finish.
 
+			backupStopper.Stop()
+
 			//stop cannyls server, it will call store.Close first.
 			cannylsStopper.Stop()
 			return
-- 
2.43.0

