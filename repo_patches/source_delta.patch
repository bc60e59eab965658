From e0f187b598380912071ee663fbc83cea8b82dc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:52 +0000
Subject: [PATCH 01/54] fix: wal orders logs written in one clock tick and
 skips files that are not logs

---
 wal/file.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/wal/file.go b/wal/file.go
index a2a8ab9..f2f9909 100644
--- a/wal/file.go
+++ b/wal/file.go
@@ -24,7 +24,9 @@ import (
 	"path"
 	"sort"
 	"strconv"
+	"strings"
 	"sync"
+	"time"
 
 	"github.com/unit-io/bpool"
 )
@@ -177,21 +179,33 @@ func (fs *_FileStore) all() []int64 {
 	// 	return files[i].Name() < files[j].Name()
 	// })
 
-	sort.Slice(files[:], func(i, j int) bool {
-		return files[i].ModTime().Before(files[j].ModTime())
-	})
-
+	modTimes := make(map[int64]time.Time)
 	for _, f := range files {
 		name := f.Name()
-		if name[len(name)-4:] != logExt {
+		if path.Ext(name) != logExt {
 			// skipping file, doesn't have right extension.
 			continue
 		}
 
-		timeID, _ := strconv.ParseInt(name[:len(name)-4], 10, 64) // remove file extension
+		timeID, err := strconv.ParseInt(strings.TrimSuffix(name, logExt), 10, 64) // remove file extension
+		if err != nil {
+			// skipping file, it is not a log.
+			continue
+		}
 		timeIDs = append(timeIDs, timeID)
+		modTimes[timeID] = f.ModTime()
 	}
 
+	// logs are replayed in the order written. The modification time has limited granularity
+	// so logs written within the same clock tick are ordered by time ID.
+	sort.Slice(timeIDs[:], func(i, j int) bool {
+		ti, tj := modTimes[timeIDs[i]], modTimes[timeIDs[j]]
+		if ti.Equal(tj) {
+			return timeIDs[i] < timeIDs[j]
+		}
+		return ti.Before(tj)
+	})
+
 	return timeIDs
 }
 
-- 
2.43.0


From 0467bbe3f756a26bf711d80d5479463c1dfb62e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:14 +0000
Subject: [PATCH 02/54] fix: wal reader does not panic on a truncated or
 corrupt log

---
 wal/file.go   | 13 +++++++++++--
 wal/reader.go | 11 ++++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/wal/file.go b/wal/file.go
index f2f9909..af2af17 100644
--- a/wal/file.go
+++ b/wal/file.go
@@ -144,8 +144,17 @@ func (fs *_FileStore) read(timeID int64, data *bpool.Buffer) _LogInfo {
 		return info
 	}
 
+	if stat, err := f.Stat(); err != nil || stat.Size() < int64(logHeaderSize)+int64(info.size) {
+		f.Close()
+		os.Rename(log, corruptPath(fs.dirName, timeID))
+
+		// log was truncated, return nil
+		return _LogInfo{}
+	}
+
 	if _, err := data.Extend(int64(info.size)); err != nil {
-		return info
+		f.Close()
+		return _LogInfo{}
 	}
 
 	if _, err := f.ReadAt(data.Internal(), int64(logHeaderSize)); err != nil {
@@ -153,7 +162,7 @@ func (fs *_FileStore) read(timeID int64, data *bpool.Buffer) _LogInfo {
 		os.Rename(log, corruptPath(fs.dirName, timeID))
 
 		// log was unreadable, return nil
-		return info
+		return _LogInfo{}
 	}
 	f.Close()
 
diff --git a/wal/reader.go b/wal/reader.go
index f704e0c..94a1b0a 100644
--- a/wal/reader.go
+++ b/wal/reader.go
@@ -82,8 +82,17 @@ func (r *Reader) Next() ([]byte, bool, error) {
 		return nil, false, nil
 	}
 	r.entryCount--
-	scratch, _ := r.buffer.Slice(r.offset, r.offset+4)
+	if r.offset+4 > r.buffer.Size() {
+		return nil, false, errors.New("error reading log")
+	}
+	scratch, err := r.buffer.Slice(r.offset, r.offset+4)
+	if err != nil {
+		return nil, false, errors.New("error reading log")
+	}
 	dataLen := binary.LittleEndian.Uint32(scratch)
+	if dataLen < 4 || r.offset+int64(dataLen) > r.buffer.Size() {
+		return nil, false, errors.New("error reading log")
+	}
 	data, err := r.buffer.Slice(r.offset+4, r.offset+int64(dataLen))
 	if err != nil {
 		return nil, false, errors.New("error reading log")
-- 
2.43.0


From d0b67a8d2737e71af77ea021b3baefff5232df7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:54 +0000
Subject: [PATCH 03/54] fix: memdb lookups search every time block and share no
 query cache

---
 memdb/block.go       |  15 +++++-
 memdb/db.go          | 120 +++++--------------------------------------
 memdb/db_internal.go |  59 ++-------------------
 memdb/query.go       |  26 ----------
 memdb/recovery.go    |  25 +--------
 5 files changed, 34 insertions(+), 211 deletions(-)
 delete mode 100644 memdb/query.go

diff --git a/memdb/block.go b/memdb/block.go
index 59ee26b..de7ed17 100644
--- a/memdb/block.go
+++ b/memdb/block.go
@@ -76,7 +76,20 @@ func (b *_Block) get(off int64) ([]byte, error) {
 		return nil, err
 	}
 
-	return data[8+1+4:], nil
+	// copy data, it remains valid after the block is released.
+	return append([]byte(nil), data[8+1+4:]...), nil
+}
+
+// lookup gets a copy of the data for the provided key.
+func (b *_Block) lookup(key uint64) ([]byte, bool, error) {
+	b.RLock()
+	defer b.RUnlock()
+	off, ok := b.records[iKey(false, key)]
+	if !ok {
+		return nil, false, nil
+	}
+	data, err := b.get(off)
+	return data, true, err
 }
 
 func (b *_Block) put(ikey _Key, data []byte) error {
diff --git a/memdb/db.go b/memdb/db.go
index 3bffcce..5698e29 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -17,10 +17,8 @@
 package memdb
 
 import (
-	"encoding/binary"
 	"errors"
 	"os"
-	"sort"
 	"sync"
 	"time"
 
@@ -97,9 +95,6 @@ func Open(opts ...Options) (*DB, error) {
 		}
 	}
 
-	// Query manager
-	db.newQueryManager()
-
 	// Log Manager
 	db.newLogManager(&_TinyLogOptions{poolCapacity: nPoolSize, writeInterval: options.logInterval, blockDuration: options.timeBlockDuration})
 
@@ -154,25 +149,17 @@ func (db *DB) Lookup(timeID int64, key uint64) ([]byte, error) {
 		return nil, errEntryDoesNotExist
 	}
 
-	block.RLock()
-	defer block.RUnlock()
 	// Get item from block.
-	off, ok := block.records[iKey(false, key)]
-	if !ok {
-		return nil, errEntryDoesNotExist
-	}
-	scratch, err := block.data.Slice(off, off+4) // read data length.
+	data, ok, err := block.lookup(key)
 	if err != nil {
 		return nil, err
 	}
-	dataLen := int64(binary.LittleEndian.Uint32(scratch[:4]))
-	data, err := block.data.Slice(off, off+dataLen)
-	if err != nil {
-		return nil, err
+	if !ok {
+		return nil, errEntryDoesNotExist
 	}
 	db.internal.meter.Gets.Inc(1)
 
-	return data[8+1+4:], nil
+	return data, nil
 }
 
 // Get gets data from most recent time ID for the provided key.
@@ -181,78 +168,23 @@ func (db *DB) Get(key uint64) ([]byte, error) {
 		return nil, err
 	}
 
-	db.mu.RLock()
-	// Get time block
-	blockKey := db.blockKey(key)
-	db.mu.RUnlock()
-
-	// first execute query plan
-	if len(db.internal.queryManager.timeFilters[blockKey].timeRecords) == 0 {
-		if err := db.seek(key, 0); err != nil {
+	for _, timeID := range db.timeIDs(key) {
+		block, ok := db.timeBlock(timeID)
+		if !ok {
+			continue
+		}
+		data, ok, err := block.lookup(key)
+		if err != nil {
 			return nil, err
 		}
-	}
-
-	// Lookup key first for the current timeRecord.
-	block, ok := db.internal.queryManager.timeBlocks[db.internal.queryManager.timeRcord]
-	if ok {
-		block.RLock()
-		off, ok := block.records[iKey(false, key)]
-		block.RUnlock()
 		if ok {
-			block.RLock()
-			defer block.RUnlock()
-
 			db.internal.meter.Gets.Inc(1)
 
-			return block.get(off)
-		}
-	}
-
-	db.mu.RLock()
-	// Get time block
-	r, ok := db.internal.queryManager.timeFilters[blockKey]
-	db.mu.RUnlock()
-	if !ok {
-		return nil, errEntryDoesNotExist
-	}
-
-	var timeIDs []_TimeID
-	r.RLock()
-	for timeID := range r.timeRecords {
-		timeIDs = append(timeIDs, timeID)
-	}
-	r.RUnlock()
-	sort.Slice(timeIDs[:], func(i, j int) bool {
-		return timeIDs[i] > timeIDs[j]
-	})
-	for _, timeID := range timeIDs {
-		block, ok := db.internal.queryManager.timeBlocks[timeID]
-		if ok {
-			block.RLock()
-			off, ok := block.records[iKey(false, key)]
-			block.RUnlock()
-			if ok {
-				block.RLock()
-				defer block.RUnlock()
-				db.internal.meter.Gets.Inc(1)
-				db.internal.queryManager.timeRcord = timeID
-
-				return block.get(off)
-			}
-			r.RLock()
-			fltr := r.timeRecords[timeID]
-			r.RUnlock()
-			if !fltr.Test(key) {
-				break
-			}
+			return data, nil
 		}
 	}
 
-	// reset timeBlock and start over
-	db.internal.queryManager.timeFilters[blockKey] = &_TimeFilter{timeRecords: make(map[_TimeID]*filter.Block), filter: filter.NewFilterGenerator()}
-
-	return db.Get(key)
+	return nil, errEntryDoesNotExist
 }
 
 // BlockIterator iterates all time blocks from DB committed to the WAL.
@@ -293,26 +225,8 @@ func (db *DB) Delete(key uint64) error {
 		return err
 	}
 
-	db.mu.RLock()
-	// Get time block
-	blockKey := db.blockKey(key)
-	r, ok := db.timeFilters[blockKey]
-	db.mu.RUnlock()
-	if !ok {
-		return errEntryDoesNotExist
-	}
-
-	var timeIDs []_TimeID
-	r.RLock()
-	for timeID := range r.timeRecords {
-		timeIDs = append(timeIDs, timeID)
-	}
-	r.RUnlock()
-	sort.Slice(timeIDs[:], func(i, j int) bool {
-		return timeIDs[i] > timeIDs[j]
-	})
 	ikey := iKey(false, key)
-	for _, timeID := range timeIDs {
+	for _, timeID := range db.timeIDs(key) {
 		db.mu.RLock()
 		block, ok := db.timeBlocks[timeID]
 		db.mu.RUnlock()
@@ -321,12 +235,6 @@ func (db *DB) Delete(key uint64) error {
 			_, ok := block.records[ikey]
 			block.RUnlock()
 			if !ok {
-				r.RLock()
-				fltr := r.timeRecords[timeID]
-				r.RUnlock()
-				if !fltr.Test(key) {
-					return errEntryDoesNotExist
-				}
 				continue
 			}
 
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index c86d10f..aed8014 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -73,9 +73,6 @@ type _DB struct {
 	// Write ahead log
 	wal *wal.WAL
 
-	// query
-	queryManager *_QueryManager
-
 	// close
 	closed uint32
 	closer io.Closer
@@ -172,31 +169,12 @@ func (db *DB) addTimeFilter(timeID _TimeID, key uint64) error {
 	return nil
 }
 
-func (db *DB) newQueryManager() {
-	queryManager := &_QueryManager{timeBlocks: make(map[_TimeID]*_Block), timeFilters: make(map[_BlockKey]*_TimeFilter)}
-	for i := 0; i < nBlocks; i++ {
-		queryManager.timeFilters[_BlockKey(i)] = &_TimeFilter{timeRecords: make(map[_TimeID]*filter.Block), filter: filter.NewFilterGenerator()}
-	}
-
-	db.internal.queryManager = queryManager
-}
-
-// seek finds timeRecords and timeBlock for the provided key and cutoff duration and caches those for query.
-func (db *DB) seek(key uint64, cutoff int64) error {
-	if err := db.ok(); err != nil {
-		return err
-	}
-
-	db.mu.RLock()
-	// Get time block
-	blockKey := db.blockKey(key)
-	r, ok := db.timeFilters[blockKey]
-	db.mu.RUnlock()
+// timeIDs returns time IDs of the blocks that may hold the key, most recent time ID first.
+func (db *DB) timeIDs(key uint64) (timeIDs []_TimeID) {
+	r, ok := db.timeFilters[db.blockKey(key)]
 	if !ok {
-		return errEntryDoesNotExist
+		return nil
 	}
-
-	var timeIDs []_TimeID
 	r.RLock()
 	for timeID := range r.timeRecords {
 		timeIDs = append(timeIDs, timeID)
@@ -205,35 +183,8 @@ func (db *DB) seek(key uint64, cutoff int64) error {
 	sort.Slice(timeIDs[:], func(i, j int) bool {
 		return timeIDs[i] > timeIDs[j]
 	})
-	for _, timeID := range timeIDs {
-		db.mu.RLock()
-		block, ok := db.timeBlocks[timeID]
-		db.mu.RUnlock()
-		if ok {
-			block.RLock()
-			_, ok := block.records[iKey(false, key)]
-			block.RUnlock()
-			if ok {
-				b, ok := db.internal.queryManager.timeFilters[blockKey]
-				if ok {
-					b.timeRecords[timeID] = filter.NewFilterBlock(r.filter.Bytes())
-				}
-				db.internal.queryManager.timeBlocks[timeID] = block
-				if cutoff != 0 {
-					db.internal.queryManager.cutoff = _TimeID(cutoff)
-				}
-				return nil
-			}
-			r.RLock()
-			fltr := r.timeRecords[timeID]
-			r.RUnlock()
-			if !fltr.Test(key) {
-				return errEntryDoesNotExist
-			}
-		}
-	}
 
-	return errEntryDoesNotExist
+	return timeIDs
 }
 
 // move moves the entry to the new block
diff --git a/memdb/query.go b/memdb/query.go
deleted file mode 100644
index 9538895..0000000
--- a/memdb/query.go
+++ /dev/null
@@ -1,26 +0,0 @@
-/*
- * Copyright 2020 Saffat Technologies, Ltd.
- *
- * Licensed under the Apache License, Version 2.0 (the "License");
- * you may not use this file except in compliance with the License.
- * You may obtain a copy of the License at
- *
- *     http://www.apache.org/licenses/LICENSE-2.0
- *
- * Unless required by applicable law or agreed to in writing, software
- * distributed under the License is distributed on an "AS IS" BASIS,
- * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
- * See the License for the specific language governing permissions and
- * limitations under the License.
- */
-
-package memdb
-
-type _QueryManager struct {
-	timeRcord   _TimeID
-	timeFilters map[_BlockKey]*_TimeFilter
-	timeBlocks  _TimeBlocks
-
-	cutoff _TimeID
-	limit  int
-}
diff --git a/memdb/recovery.go b/memdb/recovery.go
index f5fbbe8..9e616a4 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -18,7 +18,6 @@ package memdb
 
 import (
 	"encoding/binary"
-	"sort"
 	"time"
 
 	"github.com/unit-io/unitdb/filter"
@@ -28,35 +27,13 @@ import (
 //
 // This method is not thread safe.
 func (db *DB) delete(key uint64) error {
-	// Get time block
-	blockKey := db.blockKey(key)
-	r, ok := db.timeFilters[blockKey]
-	if !ok {
-		return errEntryDoesNotExist
-	}
-
-	var timeIDs []_TimeID
-	r.RLock()
-	for timeID := range r.timeRecords {
-		timeIDs = append(timeIDs, timeID)
-	}
-	r.RUnlock()
-	sort.Slice(timeIDs[:], func(i, j int) bool {
-		return timeIDs[i] > timeIDs[j]
-	})
-	for _, timeID := range timeIDs {
+	for _, timeID := range db.timeIDs(key) {
 		block, ok := db.timeBlocks[timeID]
 		if ok {
 			block.RLock()
 			_, ok := block.records[iKey(false, key)]
 			block.RUnlock()
 			if !ok {
-				r.RLock()
-				fltr := r.timeRecords[timeID]
-				r.RUnlock()
-				if !fltr.Test(key) {
-					return errEntryDoesNotExist
-				}
 				continue
 			}
 			block.Lock()
-- 
2.43.0


From dabb7bd4d8ce81192224e65b129a2cfb845a651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:08 +0000
Subject: [PATCH 04/54] fix: memdb time mark counts every pending log of a time
 block

---
 memdb/time_mark.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/memdb/time_mark.go b/memdb/time_mark.go
index d13797b..1205546 100644
--- a/memdb/time_mark.go
+++ b/memdb/time_mark.go
@@ -41,10 +41,9 @@ func newTimeMark() *_TimeMark {
 func (tm *_TimeMark) add(timeID _TimeID) {
 	tm.Lock()
 	defer tm.Unlock()
-	if r, ok := tm.records[timeID]; ok {
-		r.refs++
-	}
-	tm.records[timeID] = _TimeRecord{refs: 1}
+	r := tm.records[timeID]
+	r.refs++
+	tm.records[timeID] = r
 }
 
 func (tm *_TimeMark) release(timeID _TimeID) {
@@ -69,6 +68,10 @@ func (tm *_TimeMark) timeRefs(timeRef _TimeID) (timeIDs []_TimeID) {
 	tm.RLock()
 	defer tm.RUnlock()
 	for timeID, r := range tm.releasedRecords {
+		if _, ok := tm.records[timeID]; ok {
+			// logs of the time block are yet to be written.
+			continue
+		}
 		if r.lastUnref > 0 && r.lastUnref < timeRef {
 			timeIDs = append(timeIDs, timeID)
 		}
@@ -83,7 +86,11 @@ func (tm *_TimeMark) timeRefs(timeRef _TimeID) (timeIDs []_TimeID) {
 func (tm *_TimeMark) allRefs() (timeIDs []_TimeID) {
 	tm.RLock()
 	defer tm.RUnlock()
-	for timeID, _ := range tm.releasedRecords {
+	for timeID := range tm.releasedRecords {
+		if _, ok := tm.records[timeID]; ok {
+			// logs of the time block are yet to be written.
+			continue
+		}
 		timeIDs = append(timeIDs, timeID)
 	}
 	sort.Slice(timeIDs[:], func(i, j int) bool {
-- 
2.43.0


From 437358979a2b0510367c85a4a6ee199094dd2ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:45 +0000
Subject: [PATCH 05/54] fix: memdb neither drops a queued log nor hides that it
 failed to write

---
 memdb/batch.go       |   4 +-
 memdb/db_internal.go |  15 ++---
 memdb/time_mark.go   |   6 ++
 memdb/tiny_log.go    | 131 ++++++++++++++++++++++++-------------------
 4 files changed, 90 insertions(+), 66 deletions(-)

diff --git a/memdb/batch.go b/memdb/batch.go
index 7290373..fcdcf21 100644
--- a/memdb/batch.go
+++ b/memdb/batch.go
@@ -86,10 +86,10 @@ func (b *Batch) Write() error {
 		<-b.writeLockC
 	}()
 	b.batchGroup = append(b.batchGroup, b.tinyLog.timeID())
-	b.db.internal.logManager.writeWait(b.tinyLog)
+	err := b.db.internal.logManager.writeWait(b.tinyLog)
 	b.newTinyLog()
 
-	return nil
+	return err
 }
 
 // Commit commits changes to the DB. In batch operation commit is managed and client is not allowed to call Commit.
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index aed8014..938a424 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -83,9 +83,8 @@ func (db *DB) close() error {
 		return errClosed
 	}
 
-	db.internal.logManager.closeWait()
+	err := db.internal.logManager.closeWait()
 
-	var err error
 	if db.internal.closer != nil {
 		if err1 := db.internal.closer.Close(); err1 != nil {
 			err = err1
@@ -249,15 +248,17 @@ func (db *DB) tinyWrite(tinyLog *_TinyLog) error {
 
 // tinyCommit commits tiny log to DB.
 func (db *DB) tinyCommit(tinyLog *_TinyLog) error {
-	defer tinyLog.abort()
+	err := db.tinyWrite(tinyLog)
 
-	if err := db.tinyWrite(tinyLog); err != nil {
+	if tinyLog.managed {
+		tinyLog.err = err
+		tinyLog.abort()
 		return err
 	}
-
-	if !tinyLog.managed {
-		db.internal.timeMark.release(tinyLog.timeID())
+	if err != nil {
+		return err
 	}
+	db.internal.timeMark.release(tinyLog.timeID())
 
 	return nil
 }
diff --git a/memdb/time_mark.go b/memdb/time_mark.go
index 1205546..a033b76 100644
--- a/memdb/time_mark.go
+++ b/memdb/time_mark.go
@@ -67,6 +67,12 @@ func (tm *_TimeMark) release(timeID _TimeID) {
 func (tm *_TimeMark) timeRefs(timeRef _TimeID) (timeIDs []_TimeID) {
 	tm.RLock()
 	defer tm.RUnlock()
+	// time blocks are handed out in the order of time ID.
+	for timeID := range tm.records {
+		if timeID < timeRef {
+			timeRef = timeID
+		}
+	}
 	for timeID, r := range tm.releasedRecords {
 		if _, ok := tm.records[timeID]; ok {
 			// logs of the time block are yet to be written.
diff --git a/memdb/tiny_log.go b/memdb/tiny_log.go
index a7c2fd1..aa0f4c9 100644
--- a/memdb/tiny_log.go
+++ b/memdb/tiny_log.go
@@ -37,6 +37,7 @@ type _TinyLog struct {
 	_TimeID
 
 	managed  bool
+	err      error // err is commit error and it is set before doneChan is closed.
 	doneChan chan struct{}
 }
 
@@ -90,6 +91,9 @@ type (
 		writeQueue chan *_TinyLog
 		logQueue   chan *_TinyLog
 		stop       chan struct{}
+		writeDone  chan struct{} // writeDone is closed when the write loop is done.
+		commitDone chan struct{} // commitDone is closed when the commit loop is done.
+		commitErr  error         // commitErr is set before commitDone is closed.
 		stopOnce   sync.Once
 		stopWg     sync.WaitGroup
 	}
@@ -136,6 +140,8 @@ func (db *DB) newLogManager(opts *_TinyLogOptions) {
 		writeQueue: make(chan *_TinyLog, 1),
 		logQueue:   make(chan *_TinyLog, opts.poolCapacity),
 		stop:       make(chan struct{}),
+		writeDone:  make(chan struct{}),
+		commitDone: make(chan struct{}),
 	}
 
 	logManager.newTinyLog()
@@ -148,10 +154,8 @@ func (db *DB) newLogManager(opts *_TinyLogOptions) {
 	go logManager.commitLoop()
 
 	// start the dispacther
-	for i := 0; i < opts.logCount; i++ {
-		logManager.stopWg.Add(1)
-		go logManager.dispatch(opts.timeout)
-	}
+	logManager.stopWg.Add(1)
+	go logManager.dispatch()
 
 	db.internal.logManager = logManager
 }
@@ -169,17 +173,19 @@ func (p *_TinyLogManager) size() int {
 }
 
 // close tells dispatcher to exit, and wether or not complete queued jobs.
-func (p *_TinyLogManager) close(wait bool) {
+func (p *_TinyLogManager) close(wait bool) error {
 	p.stopOnce.Do(func() {
 		// Close write queue and wait for currently running jobs to finish.
 		close(p.stop)
 	})
 	p.stopWg.Wait()
+
+	return p.commitErr
 }
 
 // closeWait stops worker pool and wait for all queued jobs to complete.
-func (p *_TinyLogManager) closeWait() {
-	p.close(true)
+func (p *_TinyLogManager) closeWait() error {
+	return p.close(true)
 }
 
 // write enqueues a log to write.
@@ -190,12 +196,27 @@ func (p *_TinyLogManager) write() {
 }
 
 // writeWait enqueues the log and waits for it to be executed.
-func (p *_TinyLogManager) writeWait(tinyLog *_TinyLog) {
+func (p *_TinyLogManager) writeWait(tinyLog *_TinyLog) error {
 	if tinyLog == nil {
-		return
+		return nil
+	}
+	select {
+	case p.writeQueue <- tinyLog:
+	case <-p.stop:
+		return errClosed
 	}
-	p.writeQueue <- tinyLog
-	<-tinyLog.doneChan
+	select {
+	case <-tinyLog.doneChan:
+	case <-p.commitDone:
+		select {
+		case <-tinyLog.doneChan:
+		default:
+			// log manager is closed before the log is committed.
+			return errClosed
+		}
+	}
+
+	return tinyLog.err
 }
 
 // writeLoop enqueue the tiny log to the log pool.
@@ -212,7 +233,7 @@ func (p *_TinyLogManager) writeLoop(interval time.Duration) {
 		select {
 		case <-p.stop:
 			p.write()
-			close(p.writeQueue)
+			close(p.writeDone)
 
 			return
 		case <-writeC:
@@ -242,60 +263,56 @@ func (p *_TinyLogManager) writeLoop(interval time.Duration) {
 }
 
 // dispatch handles tiny log commit for the jobs in queue.
-func (p *_TinyLogManager) dispatch(timeout time.Duration) {
-LOOP:
+func (p *_TinyLogManager) dispatch() {
+	defer func() {
+		close(p.logQueue)
+		p.stopWg.Done()
+	}()
 	for {
 		select {
-		case tinyLog, ok := <-p.writeQueue:
-			// Get a buffer from the queue
-			if !ok {
-				close(p.logQueue)
-				p.stopWg.Done()
-				return
-			}
-
-			// return tinyLog to the pool
-			select {
-			case p.logQueue <- tinyLog:
-			default:
-				// pool is full, let GC handle the buffer
-				goto WAIT
+		case tinyLog := <-p.writeQueue:
+			p.logQueue <- tinyLog
+		case <-p.writeDone:
+			for {
+				select {
+				case tinyLog := <-p.writeQueue:
+					p.logQueue <- tinyLog
+				default:
+					return
+				}
 			}
 		}
 	}
-
-WAIT:
-	// Wait for a while
-	time.Sleep(timeout)
-	goto LOOP
 }
 
-// commitLoop commits the tiny log to the WAL.
+// commitLoop commits the tiny log to the WAL until the log queue is closed.
 func (p *_TinyLogManager) commitLoop() {
-	for {
-		select {
-		case <-p.stop:
-			// run queued jobs from the log queue and
-			// process it until queue is empty.
-			for {
-				select {
-				case tinyLog, ok := <-p.logQueue:
-					if !ok {
-						p.stopWg.Done()
-						return
-					}
-					if err := p.db.tinyCommit(tinyLog); err != nil {
-						fmt.Println("logPool.tinyCommit: error ", err)
-					}
-				default:
-				}
-			}
-		case tinyLog := <-p.logQueue:
-			if tinyLog != nil {
-				if err := p.db.tinyCommit(tinyLog); err != nil {
-					fmt.Println("logPool.tinyCommit: error ", err)
-				}
+	defer func() {
+		close(p.commitDone)
+		p.stopWg.Done()
+	}()
+	var pending []*_TinyLog
+	for tinyLog := range p.logQueue {
+		pending = p.commit(append(pending, tinyLog))
+	}
+	if len(pending) != 0 {
+		p.commit(pending)
+	}
+}
+
+// commit commits tiny logs and returns logs those are failed to commit.
+func (p *_TinyLogManager) commit(tinyLogs []*_TinyLog) (failed []*_TinyLog) {
+	p.commitErr = nil
+	for _, tinyLog := range tinyLogs {
+		if err := p.db.tinyCommit(tinyLog); err != nil {
+			fmt.Println("logPool.tinyCommit: error ", err)
+			if !tinyLog.managed {
+				// log is committed again along with the next log.
+				failed = append(failed, tinyLog)
+				p.commitErr = err
 			}
 		}
 	}
+
+	return failed
 }
-- 
2.43.0


From a5249c0e1b4c4be9d3011615d87bccd82f20ed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:24 +0000
Subject: [PATCH 06/54] fix: memdb put, free, list and iterate neither lose
 entries nor deadlock when they run concurrently

---
 memdb/block.go       |  19 ++++++-
 memdb/db.go          | 115 +++++++++++++++----------------------------
 memdb/db_internal.go | 115 ++++++++++++++++++++++++++++++++-----------
 memdb/recovery.go    |  13 ++---
 4 files changed, 148 insertions(+), 114 deletions(-)

diff --git a/memdb/block.go b/memdb/block.go
index de7ed17..c15c115 100644
--- a/memdb/block.go
+++ b/memdb/block.go
@@ -53,9 +53,26 @@ type (
 
 		timeRefs   []_TimeID
 		lastOffset int64 // last offset of block data written to the log
+
+		logLock  sync.Mutex // logLock is held during log write of the block.
+		sealed   bool       // sealed block does not accept new entries.
+		released bool       // released block is removed from the DB.
 	}
 )
 
+// seal seals the block and gets keys of the block.
+func (b *_Block) seal() (keys []uint64) {
+	b.Lock()
+	defer b.Unlock()
+	b.sealed = true
+	for ik := range b.records {
+		if ik.delFlag == 0 {
+			keys = append(keys, ik.key)
+		}
+	}
+	return keys
+}
+
 // iKey an internal key includes deleted flag.
 func iKey(delFlag bool, k uint64) _Key {
 	dFlag := uint8(0)
@@ -114,7 +131,7 @@ func (b *_Block) put(ikey _Key, data []byte) error {
 	if _, err := b.data.WriteAt(data, off+8+1+4); err != nil {
 		return err
 	}
-	if ikey.delFlag == 0 {
+	if _, ok := b.records[ikey]; !ok && ikey.delFlag == 0 {
 		b.count++
 	}
 	b.records[ikey] = off
diff --git a/memdb/db.go b/memdb/db.go
index 5698e29..9fffdaa 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -107,23 +107,19 @@ func (db *DB) Close() error {
 		return err
 	}
 
-	if db.timeBlocks != nil {
-		db.timeBlocks = nil
-		db.version = -1
-
-	}
+	db.mu.Lock()
+	db.timeBlocks = make(map[_TimeID]*_Block)
+	db.version = -1
+	db.mu.Unlock()
 
 	return nil
 }
 
 // Keys gets all keys from DB.
 func (db *DB) Keys() []uint64 {
-	db.mu.RLock()
-	defer db.mu.RUnlock()
-
 	var keys []uint64
 
-	for _, block := range db.timeBlocks {
+	for _, block := range db.blocks() {
 		block.RLock()
 		for ik := range block.records {
 			if ik.delFlag == 0 {
@@ -192,21 +188,17 @@ func (db *DB) BlockIterator(f func(timeID int64, keys []uint64) (bool, error)) (
 	// Get timeBlocks successfully committed to WAL.
 	timeIDs := db.internal.timeMark.timeRefs(db.timeID())
 	for _, timeID := range timeIDs {
-		db.mu.RLock()
-		block, ok := db.timeBlocks[timeID]
-		db.mu.RUnlock()
+		block, ok := db.timeBlock(timeID)
 		if !ok {
+			db.internal.timeMark.timeUnref(timeID)
 			continue
 		}
-		var keys []uint64
-		block.RLock()
-		for ik := range block.records {
-			if ik.delFlag == 0 {
-				keys = append(keys, ik.key)
-			}
-		}
-		block.RUnlock()
+		keys := block.seal()
 		if len(keys) == 0 {
+			// all entries are deleted from the block.
+			if err := db.releaseLog(timeID); err != nil && err != errEntryDoesNotExist {
+				return err
+			}
 			continue
 		}
 		if stop, err := f(int64(timeID), keys); stop || err != nil {
@@ -225,50 +217,35 @@ func (db *DB) Delete(key uint64) error {
 		return err
 	}
 
-	ikey := iKey(false, key)
+	err := errEntryDoesNotExist
 	for _, timeID := range db.timeIDs(key) {
-		db.mu.RLock()
-		block, ok := db.timeBlocks[timeID]
-		db.mu.RUnlock()
+		block, ok := db.timeBlock(timeID)
+		if !ok {
+			continue
+		}
+		timeLock := db.timeLock()
+		timeLock.RLock()
+		block.Lock()
+		_, ok = block.records[iKey(false, key)]
 		if ok {
-			block.RLock()
-			_, ok := block.records[ikey]
-			block.RUnlock()
-			if !ok {
-				continue
-			}
-
-			timeLock := db.timeLock()
-			timeLock.RLock()
-			defer timeLock.RUnlock()
-
-			block.Lock()
-			block.delete(key)
-			db.internal.meter.Dels.Inc(1)
-			if block.count == 0 {
-				// all entries are deleted from the block,
-				// now check if timeIDs for deleted entries are released.
-				for ikey, timeID := range block.records {
-					db.mu.RLock()
-					if _, ok := db.timeBlocks[_TimeID(timeID)]; ok {
-						db.move(_TimeID(timeID), ikey.key)
-					}
-					db.mu.RUnlock()
-					delete(block.records, ikey)
-				}
-				// released timeblock from the WAL if all records are deleted.
-				if len(block.records) == 0 && timeID < db.timeID() {
-					block.Unlock()
-					return db.releaseLog(timeID)
-				}
-			}
-			block.Unlock()
-
-			return db.move(timeID, key)
+			err = block.delete(key)
+		}
+		block.Unlock()
+		timeLock.RUnlock()
+		if !ok {
+			continue
+		}
+		if err != nil {
+			return err
+		}
+		db.internal.meter.Dels.Inc(1)
+		// persist the delete before the time block is released.
+		if err = db.move(timeID, key); err != nil {
+			return err
 		}
 	}
 
-	return errEntryDoesNotExist
+	return err
 }
 
 // Put inserts a new key-value pair to the DB.
@@ -277,21 +254,10 @@ func (db *DB) Put(key uint64, data []byte) (int64, error) {
 		return 0, err
 	}
 
-	timeID := db.timeID()
-	db.mu.RLock()
-	block, ok := db.timeBlocks[timeID]
-	db.mu.RUnlock()
-	if !ok {
-		return 0, errForbidden
-	}
-
-	block.Lock()
-	defer block.Unlock()
-	ikey := iKey(false, key)
-	if err := block.put(ikey, data); err != nil {
+	timeID, err := db.put(iKey(false, key), data)
+	if err != nil {
 		return int64(timeID), err
 	}
-	db.addTimeFilter(timeID, key)
 
 	db.internal.meter.Puts.Inc(1)
 
@@ -333,10 +299,7 @@ func (db *DB) Free(timeID int64) error {
 // Size returns the total number of entries in DB.
 func (db *DB) Size() int64 {
 	size := int64(0)
-	db.mu.RLock()
-	defer db.mu.RUnlock()
-
-	for _, block := range db.timeBlocks {
+	for _, block := range db.blocks() {
 		block.RLock()
 		size += block.count
 		block.RUnlock()
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index 938a424..7185b0c 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -146,25 +146,34 @@ func (db *DB) timeBlock(timeID _TimeID) (*_Block, bool) {
 	return nil, false
 }
 
+// blocks returns all time blocks.
+func (db *DB) blocks() []*_Block {
+	db.mu.RLock()
+	defer db.mu.RUnlock()
+	blocks := make([]*_Block, 0, len(db.timeBlocks))
+	for _, block := range db.timeBlocks {
+		blocks = append(blocks, block)
+	}
+
+	return blocks
+}
+
 // addTimeFilter adds unique time block to the set.
 func (db *DB) addTimeFilter(timeID _TimeID, key uint64) error {
-	blockKey := db.blockKey(key)
-	db.mu.RLock()
-	r, ok := db.timeFilters[blockKey]
-	db.mu.RUnlock()
+	// timeFilters is not modified once DB is opened.
+	r, ok := db.timeFilters[db.blockKey(key)]
+	if !ok {
+		return nil
+	}
 	r.Lock()
 	defer r.Unlock()
-	if ok {
-		if _, ok := r.timeRecords[timeID]; !ok {
-			db.mu.Lock()
-			r.timeRecords[timeID] = filter.NewFilterBlock(r.filter.Bytes())
-			db.mu.Unlock()
-		}
-
-		// Append key to bloom filter
-		r.filter.Append(key)
+	if _, ok := r.timeRecords[timeID]; !ok {
+		r.timeRecords[timeID] = filter.NewFilterBlock(r.filter.Bytes())
 	}
 
+	// Append key to bloom filter
+	r.filter.Append(key)
+
 	return nil
 }
 
@@ -186,23 +195,43 @@ func (db *DB) timeIDs(key uint64) (timeIDs []_TimeID) {
 	return timeIDs
 }
 
+// put puts the key into the current time block.
+func (db *DB) put(ikey _Key, data []byte) (_TimeID, error) {
+	for {
+		if err := db.ok(); err != nil {
+			return 0, err
+		}
+		timeID := db.timeID()
+		block, ok := db.timeBlock(timeID)
+		if !ok {
+			// current time block is released, start over.
+			db.addTimeBlock(timeID)
+			continue
+		}
+		block.Lock()
+		if block.sealed {
+			// block is sealed after it was picked as the current block.
+			block.Unlock()
+			continue
+		}
+		err := block.put(ikey, data)
+		if err == nil && ikey.delFlag == 0 {
+			db.addTimeFilter(timeID, ikey.key)
+		}
+		block.Unlock()
+
+		return timeID, err
+	}
+}
+
 // move moves the entry to the new block
 func (db *DB) move(timeID _TimeID, key uint64) error {
-	newTimeID := db.timeID()
 	// add deleted key to new time block to persist deleted entry to the WAL.
-	dkey := iKey(true, key)
-	newBlock, ok := db.timeBlock(newTimeID)
-	if !ok {
-		return errForbidden
-	}
-	newBlock.Lock()
-	defer newBlock.Unlock()
-
 	rawTimeID := make([]byte, 8)
 	binary.LittleEndian.PutUint64(rawTimeID[:8], uint64(timeID))
+	_, err := db.put(iKey(true, key), rawTimeID)
 
-	newBlock.records[dkey] = int64(newTimeID)
-	return newBlock.put(dkey, rawTimeID)
+	return err
 }
 
 // tinyWrite writes tiny log to the WAL.
@@ -215,7 +244,14 @@ func (db *DB) tinyWrite(tinyLog *_TinyLog) error {
 		// all records has already deleted and nothing to write.
 		return nil
 	}
+	block.logLock.Lock()
+	defer block.logLock.Unlock()
 	block.RLock()
+	if block.released {
+		// time block is released and nothing to write.
+		block.RUnlock()
+		return nil
+	}
 	blockSize := block.data.Size()
 	log, err := block.data.Slice(block.lastOffset, blockSize)
 	block.RUnlock()
@@ -271,20 +307,41 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 		return errEntryDoesNotExist
 	}
 
-	block.RLock()
-	defer block.RUnlock()
-	for _, timeRef := range block.timeRefs {
+	// wait for the log write of the block to finish.
+	block.logLock.Lock()
+	defer block.logLock.Unlock()
+	block.Lock()
+	if block.released {
+		block.Unlock()
+		return errEntryDoesNotExist
+	}
+	block.sealed = true
+	timeRefs := block.timeRefs
+	block.Unlock()
+
+	for _, timeRef := range timeRefs {
 		if err := db.internal.wal.SignalLogApplied(int64(timeRef)); err != nil {
 			return err
 		}
 	}
 
 	db.mu.Lock()
-	defer db.mu.Unlock()
-	delete(db.timeBlocks, _TimeID(timeID))
+	delete(db.timeBlocks, timeID)
+	db.mu.Unlock()
 	db.internal.timeMark.timeUnref(timeID)
 
+	block.Lock()
+	block.released = true
+	block.records = make(map[_Key]int64)
+	block.count = 0
 	db.internal.buffer.Put(block.data)
+	block.Unlock()
+
+	for _, r := range db.timeFilters {
+		r.Lock()
+		delete(r.timeRecords, timeID)
+		r.Unlock()
+	}
 
 	return nil
 }
diff --git a/memdb/recovery.go b/memdb/recovery.go
index 9e616a4..236a0e0 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -172,15 +172,12 @@ func (db *DB) All(f func(timeID int64, keys []uint64) (bool, error)) (err error)
 		if !ok {
 			continue
 		}
-		var keys []uint64
-		block.RLock()
-		for ik := range block.records {
-			if ik.delFlag == 0 {
-				keys = append(keys, ik.key)
-			}
-		}
-		block.RUnlock()
+		keys := block.seal()
 		if len(keys) == 0 {
+			// all entries are deleted from the block.
+			if err := db.releaseLog(timeID); err != nil && err != errEntryDoesNotExist {
+				return err
+			}
 			continue
 		}
 		if stop, err := f(int64(timeID), keys); stop || err != nil {
-- 
2.43.0


From 10a1ad5ddc537005982d399a1585d28f7c77ba7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:39 +0000
Subject: [PATCH 07/54] fix: memdb recovers logs in the order written and keeps
 deletes until the deleted entry's log is released

---
 memdb/block.go       |  33 +++++++++
 memdb/db_internal.go |  86 +++++++++++++++++----
 memdb/recovery.go    | 173 ++++++++++++++++---------------------------
 memdb/tiny_log.go    |   4 +
 4 files changed, 174 insertions(+), 122 deletions(-)

diff --git a/memdb/block.go b/memdb/block.go
index c15c115..e846478 100644
--- a/memdb/block.go
+++ b/memdb/block.go
@@ -73,6 +73,39 @@ func (b *_Block) seal() (keys []uint64) {
 	return keys
 }
 
+// deletes gets deleted keys logged with the block for each of the time ID.
+func (b *_Block) deletes() (map[_TimeID][]uint64, error) {
+	deletes := make(map[_TimeID][]uint64)
+	for ik, off := range b.records {
+		if ik.delFlag == 0 {
+			continue
+		}
+		data, err := b.get(off)
+		if err != nil {
+			return nil, err
+		}
+		timeID := _TimeID(binary.LittleEndian.Uint64(data[:8]))
+		deletes[timeID] = append(deletes[timeID], ik.key)
+	}
+	return deletes, nil
+}
+
+// rawTimeID returns data of a deleted key.
+func rawTimeID(timeID _TimeID) []byte {
+	raw := make([]byte, 8)
+	binary.LittleEndian.PutUint64(raw, uint64(timeID))
+	return raw
+}
+
+// packDelete packs deleted key into a log record.
+func packDelete(key uint64, timeID _TimeID) []byte {
+	rec := make([]byte, 4+1+8, 4+1+8+8)
+	binary.LittleEndian.PutUint32(rec[:4], uint32(cap(rec)))
+	rec[4] = 1
+	binary.LittleEndian.PutUint64(rec[5:], key)
+	return append(rec, rawTimeID(timeID)...)
+}
+
 // iKey an internal key includes deleted flag.
 func iKey(delFlag bool, k uint64) _Key {
 	dFlag := uint8(0)
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index 7185b0c..bf9bc5a 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -17,7 +17,6 @@
 package memdb
 
 import (
-	"encoding/binary"
 	"errors"
 	"io"
 	"sort"
@@ -158,6 +157,18 @@ func (db *DB) blocks() []*_Block {
 	return blocks
 }
 
+// isSealed checks whether time block for the time ID is sealed.
+func (db *DB) isSealed(timeID _TimeID) bool {
+	block, ok := db.timeBlock(timeID)
+	if !ok {
+		return false
+	}
+	block.RLock()
+	defer block.RUnlock()
+
+	return block.sealed
+}
+
 // addTimeFilter adds unique time block to the set.
 func (db *DB) addTimeFilter(timeID _TimeID, key uint64) error {
 	// timeFilters is not modified once DB is opened.
@@ -227,13 +238,25 @@ func (db *DB) put(ikey _Key, data []byte) (_TimeID, error) {
 // move moves the entry to the new block
 func (db *DB) move(timeID _TimeID, key uint64) error {
 	// add deleted key to new time block to persist deleted entry to the WAL.
-	rawTimeID := make([]byte, 8)
-	binary.LittleEndian.PutUint64(rawTimeID[:8], uint64(timeID))
-	_, err := db.put(iKey(true, key), rawTimeID)
+	_, err := db.put(iKey(true, key), rawTimeID(timeID))
 
 	return err
 }
 
+// writeLog writes log to the WAL.
+func (db *DB) writeLog(ID _TimeID, log []byte) error {
+	logWriter, err := db.internal.wal.NewWriter()
+	if err != nil {
+		return err
+	}
+
+	if err := <-logWriter.Append(log); err != nil {
+		return err
+	}
+
+	return <-logWriter.SignalInitWrite(int64(ID))
+}
+
 // tinyWrite writes tiny log to the WAL.
 func (db *DB) tinyWrite(tinyLog *_TinyLog) error {
 	timeLock := db.newTimeLock(tinyLog.ID())
@@ -262,15 +285,7 @@ func (db *DB) tinyWrite(tinyLog *_TinyLog) error {
 		// nothing to write
 		return nil
 	}
-	logWriter, err := db.internal.wal.NewWriter()
-	if err != nil {
-		return err
-	}
-
-	if err := <-logWriter.Append(log); err != nil {
-		return err
-	}
-	if err := <-logWriter.SignalInitWrite(int64(tinyLog.ID())); err != nil {
+	if err := db.writeLog(tinyLog.ID(), log); err != nil {
 		return err
 	}
 
@@ -317,7 +332,21 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 	}
 	block.sealed = true
 	timeRefs := block.timeRefs
+	deletes, err := block.deletes()
 	block.Unlock()
+	if err != nil {
+		return err
+	}
+
+	// deletes logged with the block are kept for the time blocks not yet released.
+	for timeRef, keys := range deletes {
+		if timeRef == timeID {
+			continue
+		}
+		if err := db.keepDeletes(timeRef, keys); err != nil {
+			return err
+		}
+	}
 
 	for _, timeRef := range timeRefs {
 		if err := db.internal.wal.SignalLogApplied(int64(timeRef)); err != nil {
@@ -346,6 +375,37 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 	return nil
 }
 
+// keepDeletes logs deleted keys of the time block and the log is released along with the block.
+func (db *DB) keepDeletes(timeID _TimeID, keys []uint64) error {
+	block, ok := db.timeBlock(timeID)
+	if !ok {
+		return nil
+	}
+	var log []byte
+	for _, key := range keys {
+		if _, err := db.Get(key); err == nil {
+			// key is stored again.
+			continue
+		}
+		log = append(log, packDelete(key, timeID)...)
+	}
+	if len(log) == 0 {
+		return nil
+	}
+	logID := _TimeID(time.Now().UTC().UnixNano())
+	if err := db.writeLog(logID, log); err != nil {
+		return err
+	}
+	block.Lock()
+	defer block.Unlock()
+	if block.released {
+		return db.internal.wal.SignalLogApplied(int64(logID))
+	}
+	block.timeRefs = append(block.timeRefs, logID)
+
+	return nil
+}
+
 // setClosed flag; return true if DB is not already closed.
 func (db *DB) setClosed() bool {
 	return atomic.CompareAndSwapUint32(&db.internal.closed, 0, 1)
diff --git a/memdb/recovery.go b/memdb/recovery.go
index 236a0e0..9d948dc 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -18,58 +18,84 @@ package memdb
 
 import (
 	"encoding/binary"
-	"time"
-
-	"github.com/unit-io/unitdb/filter"
 )
 
-// delete deletes entry from the DB.
+// delete deletes entry from the recovered time blocks and keeps the delete in the block provided.
 //
 // This method is not thread safe.
-func (db *DB) delete(key uint64) error {
+func (db *DB) delete(block *_Block, key uint64) error {
+	ikey := iKey(false, key)
 	for _, timeID := range db.timeIDs(key) {
-		block, ok := db.timeBlocks[timeID]
-		if ok {
-			block.RLock()
-			_, ok := block.records[iKey(false, key)]
-			block.RUnlock()
-			if !ok {
-				continue
-			}
-			block.Lock()
-			ikey := iKey(false, key)
-			delete(block.records, ikey)
-			block.count--
-			db.internal.meter.Dels.Inc(1)
-			if len(block.records) == 0 {
-				delete(db.timeBlocks, _TimeID(timeID))
-				db.internal.buffer.Put(block.data)
-			}
-			block.Unlock()
+		b, ok := db.timeBlocks[timeID]
+		if !ok {
+			continue
+		}
+		if _, ok := b.records[ikey]; !ok {
+			continue
+		}
+		if err := b.delete(key); err != nil {
+			return err
+		}
+		db.internal.meter.Dels.Inc(1)
+		if err := block.put(iKey(true, key), rawTimeID(timeID)); err != nil {
+			return err
+		}
+	}
 
-			return nil
+	return nil
+}
+
+// recoverLog recovers entries of a log in the order those were written.
+//
+// This method is not thread safe.
+func (db *DB) recoverLog(timeID _TimeID, block *_Block, logData []byte) error {
+	const headerSize = 4 + 1 + 8 // data len, flag bit and key
+	for len(logData) >= headerSize {
+		dataLen := int(binary.LittleEndian.Uint32(logData[:4]))
+		if dataLen < headerSize || dataLen > len(logData) {
+			return errEntryInvalid
 		}
+		dBit := logData[4]
+		key := binary.LittleEndian.Uint64(logData[5:headerSize])
+		val := logData[headerSize:dataLen]
+		logData = logData[dataLen:]
+		if dBit == 1 {
+			if err := db.delete(block, key); err != nil {
+				return err
+			}
+			continue
+		}
+		if err := block.put(iKey(false, key), val); err != nil {
+			return err
+		}
+		db.addTimeFilter(timeID, key)
+		db.internal.meter.Puts.Inc(1)
+		db.internal.meter.Recovers.Inc(1)
 	}
 
-	return errEntryDoesNotExist
+	return nil
 }
 
 // startRecovery recovers pending entries from the WAL.
 func (db *DB) startRecovery() error {
-	db.mu.RLock()
-	defer db.mu.RUnlock()
-
 	// start log recovery
 	r, err := db.internal.wal.NewReader()
 	if err != nil {
 		return err
 	}
 
-	delKeys := make(map[_TimeID][]uint64)
-	err = r.Iterator(func(ID int64) (ok bool, err error) {
-		log := make(map[uint64][]byte)
+	return r.Iterator(func(ID int64) (ok bool, err error) {
 		l := r.Count()
-		timeID := _TimeID(time.Unix(0, ID).UTC().Truncate(db.opts.logInterval).UnixNano())
+		if l == 0 {
+			// log was unreadable.
+			return false, nil
+		}
+		// each log is recovered into its own time block.
+		timeID := _TimeID(ID)
+		db.addTimeBlock(timeID)
+		block := db.timeBlocks[timeID]
+		block.sealed = true
+		db.internal.timeMark.add(timeID)
 		for i := uint32(0); i < l; i++ {
 			logData, ok, err := r.Next()
 			if err != nil {
@@ -78,87 +104,16 @@ func (db *DB) startRecovery() error {
 			if !ok {
 				break
 			}
-
-			var off int
-			for off < len(logData) {
-				dataLen := int(binary.LittleEndian.Uint32(logData[off : off+4]))
-				data := logData[off+4 : off+dataLen]
-				dBit := data[0]
-				key := binary.LittleEndian.Uint64(data[1:9])
-				val := data[9:]
-				off += dataLen
-				if dBit == 1 {
-					timeRefID := _TimeID(binary.LittleEndian.Uint64(val[:8]))
-					if _, ok := delKeys[timeRefID]; ok {
-						delKeys[timeRefID] = append(delKeys[timeRefID], key)
-					} else {
-						delKeys[timeRefID] = []uint64{key}
-					}
-				} else {
-					log[key] = val
-				}
-			}
-			db.internal.timeMark.add(timeID)
-			block, ok := db.timeBlocks[timeID]
-			if !ok {
-				block = &_Block{data: db.internal.buffer.Get(), records: make(map[_Key]int64)}
-				db.timeBlocks[timeID] = block
-			}
-			block.Lock()
-			for key, val := range log {
-				ikey := iKey(false, key)
-				if err := block.put(ikey, val); err != nil {
-					return false, err
-				}
-				blockKey := db.blockKey(key)
-				r, ok := db.timeFilters[blockKey]
-				if ok {
-					if _, ok := r.timeRecords[timeID]; !ok {
-						r.timeRecords[timeID] = filter.NewFilterBlock(r.filter.Bytes())
-					}
-
-					// Append key to bloom filter
-					r.filter.Append(key)
-				}
-				db.internal.meter.Puts.Inc(1)
+			if err := db.recoverLog(timeID, block, logData); err != nil {
+				return false, err
 			}
-			block.timeRefs = append(block.timeRefs, _TimeID(ID))
-			block.Unlock()
-			db.internal.timeMark.release(timeID)
-			db.internal.meter.Recovers.Inc(int64(len(log)))
 		}
+		block.lastOffset = block.data.Size()
+		block.timeRefs = append(block.timeRefs, timeID)
+		db.internal.timeMark.release(timeID)
+
 		return false, nil
 	})
-
-	for timeID, keys := range delKeys {
-		if block, exists := db.timeBlocks[timeID]; exists {
-			for _, key := range keys {
-				ikey := iKey(false, key)
-				block.RLock()
-				_, ok := block.records[ikey]
-				block.RUnlock()
-				if !ok {
-					// errEntryDoesNotExist
-					continue
-				}
-				block.Lock()
-				delete(block.records, ikey)
-				block.count--
-				db.internal.meter.Dels.Inc(1)
-				if len(block.records) == 0 {
-					delete(db.timeBlocks, _TimeID(timeID))
-					db.internal.buffer.Put(block.data)
-				}
-				block.Unlock()
-			}
-		} else {
-			for _, key := range keys {
-				db.delete(key)
-			}
-		}
-	}
-
-	return nil
 }
 
 // All gets all keys from DB recovered from WAL.
diff --git a/memdb/tiny_log.go b/memdb/tiny_log.go
index aa0f4c9..29e250c 100644
--- a/memdb/tiny_log.go
+++ b/memdb/tiny_log.go
@@ -126,6 +126,10 @@ func (src *_TinyLogOptions) withDefaultOptions() *_TinyLogOptions {
 func (p *_TinyLogManager) newTinyLog() {
 	timeNow := time.Now().UTC()
 	timeID := _TimeID(timeNow.Truncate(p.opts.blockDuration).UnixNano())
+	// entries are not added to a block recovered from the WAL or to a sealed block.
+	for p.db.isSealed(timeID) {
+		timeID++
+	}
 	p.db.addTimeBlock(timeID)
 	p.db.internal.timeMark.add(timeID)
 	p.tinyLog = &_TinyLog{id: _TimeID(timeNow.UnixNano()), _TimeID: timeID, managed: false, doneChan: make(chan struct{})}
-- 
2.43.0


From 60f3be0dae07b2f8d53b4b48642650a0ef638be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:19 +0000
Subject: [PATCH 08/54] fix: memdb batch is logged entirely or not at all and
 is removed on abort

---
 memdb/batch.go       | 48 ++++++++++++++++++++++----------------------
 memdb/block.go       |  7 +++++++
 memdb/db.go          |  8 ++++++++
 memdb/db_internal.go |  4 ++++
 memdb/time_mark.go   | 10 +++++++++
 5 files changed, 53 insertions(+), 24 deletions(-)

diff --git a/memdb/batch.go b/memdb/batch.go
index fcdcf21..3133719 100644
--- a/memdb/batch.go
+++ b/memdb/batch.go
@@ -28,9 +28,8 @@ type Batch struct {
 	managed bool
 
 	//tiny Log
-	tinyLog    *_TinyLog
-	writeLockC chan struct{}
-	batchGroup []_TimeID
+	tinyLog   *_TinyLog
+	committed bool
 
 	// commitComplete is used to signal if batch commit is complete and batch is fully written to WAL.
 	commitComplete chan struct{}
@@ -38,13 +37,16 @@ type Batch struct {
 
 func (b *Batch) newTinyLog() {
 	timeID := _TimeID(time.Now().UTC().UnixNano())
-	b.db.addTimeBlock(timeID)
+	// time block is not shared with any other batch.
+	for !b.db.addTimeBlock(timeID) {
+		timeID++
+	}
 	b.tinyLog = &_TinyLog{id: timeID, _TimeID: timeID, managed: true, doneChan: make(chan struct{})}
 }
 
 // batch starts a new batch.
 func (db *DB) batch() *Batch {
-	b := &Batch{db: db, writeLockC: make(chan struct{}, 1), commitComplete: make(chan struct{})}
+	b := &Batch{db: db, commitComplete: make(chan struct{})}
 	b.newTinyLog()
 
 	return b
@@ -79,17 +81,10 @@ func (b *Batch) Put(key uint64, data []byte) error {
 	return nil
 }
 
-// Write starts writing entries into DB.
+// Write starts writing entries into DB. Entries are logged all together on Commit
+// so that either all entries of the batch are recovered or none.
 func (b *Batch) Write() error {
-	b.writeLockC <- struct{}{}
-	defer func() {
-		<-b.writeLockC
-	}()
-	b.batchGroup = append(b.batchGroup, b.tinyLog.timeID())
-	err := b.db.internal.logManager.writeWait(b.tinyLog)
-	b.newTinyLog()
-
-	return err
+	return b.db.ok()
 }
 
 // Commit commits changes to the DB. In batch operation commit is managed and client is not allowed to call Commit.
@@ -105,13 +100,13 @@ func (b *Batch) Commit() error {
 	if err := b.Write(); err != nil {
 		return err
 	}
-
-	for _, timeID := range b.batchGroup {
-		b.db.internal.timeMark.add(timeID)
-		b.db.internal.timeMark.release(timeID)
+	if err := b.db.internal.logManager.writeWait(b.tinyLog); err != nil {
+		return err
 	}
 
-	b.batchGroup = b.batchGroup[:0]
+	b.committed = true
+	b.db.internal.timeMark.add(b.tinyLog.timeID())
+	b.db.internal.timeMark.release(b.tinyLog.timeID())
 
 	return nil
 }
@@ -119,12 +114,17 @@ func (b *Batch) Commit() error {
 //Abort aborts batch or perform cleanup operation on batch complete.
 func (b *Batch) Abort() error {
 	_assert(!b.managed, "managed batch abort not allowed")
-	for _, ID := range b.batchGroup {
-		if err := b.db.releaseLog(ID); err != nil {
-			return err
-		}
+	if b.db == nil {
+		return nil
 	}
+	db := b.db
 	b.db = nil
+	if b.committed {
+		return nil
+	}
+	if err := db.releaseLog(b.tinyLog.timeID()); err != nil && err != errEntryDoesNotExist {
+		return err
+	}
 
 	return nil
 }
diff --git a/memdb/block.go b/memdb/block.go
index e846478..f50dadb 100644
--- a/memdb/block.go
+++ b/memdb/block.go
@@ -130,6 +130,13 @@ func (b *_Block) get(off int64) ([]byte, error) {
 	return append([]byte(nil), data[8+1+4:]...), nil
 }
 
+// isEmpty checks whether all entries are deleted from the block.
+func (b *_Block) isEmpty() bool {
+	b.RLock()
+	defer b.RUnlock()
+	return b.count == 0
+}
+
 // lookup gets a copy of the data for the provided key.
 func (b *_Block) lookup(key uint64) ([]byte, bool, error) {
 	b.RLock()
diff --git a/memdb/db.go b/memdb/db.go
index 9fffdaa..5abafd2 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -243,6 +243,13 @@ func (db *DB) Delete(key uint64) error {
 		if err = db.move(timeID, key); err != nil {
 			return err
 		}
+		// release time block from the WAL if all records are deleted.
+		if block.isEmpty() && db.internal.timeMark.isReleased(timeID) && timeID < db.timeID() {
+			if err = db.releaseLog(timeID); err != nil && err != errEntryDoesNotExist {
+				return err
+			}
+			err = nil
+		}
 	}
 
 	return err
@@ -282,6 +289,7 @@ func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
 	b.setManaged()
 	// If an error is returned from the function then rollback and return error.
 	if err := fn(b, b.commitComplete); err != nil {
+		b.unsetManaged()
 		b.Abort()
 		close(b.commitComplete)
 		return err
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index bf9bc5a..a028440 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -302,6 +302,10 @@ func (db *DB) tinyCommit(tinyLog *_TinyLog) error {
 	err := db.tinyWrite(tinyLog)
 
 	if tinyLog.managed {
+		if err != nil {
+			// a failed batch is not recovered.
+			db.internal.wal.SignalLogApplied(int64(tinyLog.ID()))
+		}
 		tinyLog.err = err
 		tinyLog.abort()
 		return err
diff --git a/memdb/time_mark.go b/memdb/time_mark.go
index a033b76..06a3682 100644
--- a/memdb/time_mark.go
+++ b/memdb/time_mark.go
@@ -64,6 +64,16 @@ func (tm *_TimeMark) release(timeID _TimeID) {
 	}
 }
 
+// isReleased checks whether all logs of the time block are written.
+func (tm *_TimeMark) isReleased(timeID _TimeID) bool {
+	tm.RLock()
+	defer tm.RUnlock()
+	_, pending := tm.records[timeID]
+	_, released := tm.releasedRecords[timeID]
+
+	return released && !pending
+}
+
 func (tm *_TimeMark) timeRefs(timeRef _TimeID) (timeIDs []_TimeID) {
 	tm.RLock()
 	defer tm.RUnlock()
-- 
2.43.0


From 245ec59a5d8a3a7f5c72f2df2a364b95129625e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:37 +0000
Subject: [PATCH 09/54] fix: wal reports a log it could not remove

---
 wal/file.go | 13 ++++++++-----
 wal/wal.go  |  3 +--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/wal/file.go b/wal/file.go
index af2af17..b52a930 100644
--- a/wal/file.go
+++ b/wal/file.go
@@ -82,12 +82,15 @@ func (fs *_FileStore) put(info _LogInfo, data *bpool.Buffer) error {
 	}
 	buf, err := info.MarshalBinary()
 	if err != nil {
+		f.Close()
 		return err
 	}
 	if _, err := f.WriteAt(buf, 0); err != nil {
+		f.Close()
 		return err
 	}
 	if _, err := f.WriteAt(data.Bytes(), int64(logHeaderSize)); err != nil {
+		f.Close()
 		return err
 	}
 	if err := f.Close(); err != nil {
@@ -218,21 +221,21 @@ func (fs *_FileStore) all() []int64 {
 	return timeIDs
 }
 
-func (fs *_FileStore) del(timeID int64) {
+func (fs *_FileStore) del(timeID int64) error {
 	fs.Lock()
 	defer fs.Unlock()
 
 	if !fs.opened {
 		// trying to use file store, but not open.
-		return
+		return nil
 	}
 
 	log := logPath(fs.dirName, timeID)
-	if !exists(log) {
-		return
+	if err := os.Remove(log); err != nil && !os.IsNotExist(err) {
+		return err
 	}
 
-	os.Remove(log)
+	return nil
 }
 
 // reset removes all persisted logs from file store.
diff --git a/wal/wal.go b/wal/wal.go
index b838cdb..7e4a7d3 100644
--- a/wal/wal.go
+++ b/wal/wal.go
@@ -127,9 +127,8 @@ func (wal *WAL) SignalLogApplied(timeID int64) error {
 	}()
 
 	wal.logCountApplied++
-	wal.logStore.del(timeID)
 
-	return nil
+	return wal.logStore.del(timeID)
 }
 
 // Reset removes all persistested logs from log store.
-- 
2.43.0


From 6fdf464c47b8760e7d0c363801f4ff7c58417dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:59 +0000
Subject: [PATCH 10/54] fix: window block at offset zero is not used for a
 topic

---
 time_window_writer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/time_window_writer.go b/time_window_writer.go
index d836dc0..1e7793b 100644
--- a/time_window_writer.go
+++ b/time_window_writer.go
@@ -35,7 +35,8 @@ type _WindowWriter struct {
 }
 
 func newWindowWriter(fs *_FileSet, buf *bpool.Buffer) (*_WindowWriter, error) {
-	w := &_WindowWriter{windowIdx: -1, winBlocks: make(map[int32]_WinBlock), winLeases: make(map[int32][]uint64), fs: fs, buffer: buf}
+	// window block at offset 0 is not used as zero offset indicates a new topic and also end of the linked window blocks.
+	w := &_WindowWriter{windowIdx: 0, winBlocks: make(map[int32]_WinBlock), winLeases: make(map[int32][]uint64), fs: fs, buffer: buf}
 	winFile, err := fs.getFile(_FileDesc{fileType: typeTimeWindow})
 	if err != nil {
 		return nil, err
@@ -43,7 +44,7 @@ func newWindowWriter(fs *_FileSet, buf *bpool.Buffer) (*_WindowWriter, error) {
 	w.winFile = winFile
 	w.offset = winFile.currSize()
 	if w.offset > 0 {
-		w.windowIdx = int32(w.offset / int64(blockSize))
+		w.windowIdx = int32((w.offset - 1) / int64(blockSize))
 	}
 
 	return w, nil
@@ -70,7 +71,7 @@ func (w *_WindowWriter) del(seq uint64, winIdx int32) error {
 	b.entryIdx--
 
 	i := entryIdx
-	for ; i < entriesPerIndexBlock-1; i++ {
+	for ; i < entriesPerWindowBlock-1; i++ {
 		b.entries[i] = b.entries[i+1]
 	}
 	b.entries[i] = _WinEntry{}
-- 
2.43.0


From 07ae8528b01234e9ba62ca47219f18008277d8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:01 +0000
Subject: [PATCH 11/54] fix: encryption flag is stored in its own byte of the
 db info

---
 db_info.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db_info.go b/db_info.go
index ba56ab4..32ee9f0 100644
--- a/db_info.go
+++ b/db_info.go
@@ -43,7 +43,7 @@ func (inf _DBInfo) MarshalBinary() ([]byte, error) {
 	buf := make([]byte, fixed)
 	copy(buf[:7], inf.header.signature[:])
 	binary.LittleEndian.PutUint32(buf[7:11], inf.header.version)
-	buf[12] = uint8(inf.encryption)
+	buf[11] = uint8(inf.encryption)
 	binary.LittleEndian.PutUint64(buf[12:20], inf.sequence)
 	binary.LittleEndian.PutUint64(buf[20:28], inf.count)
 
@@ -54,7 +54,7 @@ func (inf _DBInfo) MarshalBinary() ([]byte, error) {
 func (inf *_DBInfo) UnmarshalBinary(data []byte) error {
 	copy(inf.header.signature[:], data[:7])
 	inf.header.version = binary.LittleEndian.Uint32(data[7:11])
-	inf.encryption = int8(data[7])
+	inf.encryption = int8(data[11])
 	inf.sequence = binary.LittleEndian.Uint64(data[12:20])
 	inf.count = binary.LittleEndian.Uint64(data[20:28])
 
-- 
2.43.0


From a397a41ecf4cd47afad51835a15a78296dac672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:03 +0000
Subject: [PATCH 12/54] fix: time-to-live given in seconds is a duration from
 now

---
 entry.go         | 3 ++-
 message/topic.go | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/entry.go b/entry.go
index 1eac420..9526af4 100644
--- a/entry.go
+++ b/entry.go
@@ -80,7 +80,8 @@ func (e *Entry) WithContract(contract uint32) *Entry {
 func (e *Entry) WithTTL(ttl string) *Entry {
 	val, err := strconv.ParseInt(ttl, 10, 64)
 	if err == nil {
-		e.ExpiresAt = uint32(time.Now().Add(time.Duration(int(val)) * time.Second).Unix())
+		e.ExpiresAt = uint32(time.Now().Add(time.Duration(val) * time.Second).Unix())
+		return e
 	}
 	var duration time.Duration
 	duration, _ = time.ParseDuration(ttl)
diff --git a/message/topic.go b/message/topic.go
index 78d122e..1fb52e1 100644
--- a/message/topic.go
+++ b/message/topic.go
@@ -107,8 +107,11 @@ func (_SplitFunc) splitOpsKeyValue(c rune) bool {
 // TTL returns a Time-To-Live option.
 func (t *Topic) TTL() (uint32, bool) {
 	ttl, sec, ok := t.getOption("ttl")
+	if !ok {
+		return 0, false
+	}
 	if sec > 0 {
-		return uint32(time.Duration(sec) * time.Second), ok
+		return uint32(time.Now().Add(time.Duration(sec) * time.Second).Unix()), ok
 	}
 	var duration time.Duration
 	duration, _ = time.ParseDuration(ttl)
-- 
2.43.0


From 695c897d0f877958947495dea5c6548fca8d44eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:05 +0000
Subject: [PATCH 13/54] fix: topics with the same parts in a different order
 have different hash

---
 message/topic.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/message/topic.go b/message/topic.go
index 1fb52e1..8d6621d 100644
--- a/message/topic.go
+++ b/message/topic.go
@@ -19,6 +19,7 @@ package message
 import (
 	"bytes"
 	"encoding/binary"
+	"hash/fnv"
 	"strconv"
 	"time"
 	"unsafe"
@@ -79,11 +80,18 @@ func (t *Topic) GetHash(contract uint32) uint64 {
 	if len(t.Parts) == 1 {
 		return uint64(contract)
 	}
-	h := t.Parts[0].Hash
-	for _, i := range t.Parts[1:] {
-		h ^= i.Hash
+	// hash depends on the order of the parts and on the wildcards between the parts.
+	h := fnv.New64a()
+	var scratch [5]byte
+	binary.LittleEndian.PutUint32(scratch[:4], contract)
+	scratch[4] = t.Depth
+	h.Write(scratch[:])
+	for _, part := range t.Parts {
+		binary.LittleEndian.PutUint32(scratch[:4], part.Hash)
+		scratch[4] = part.Wildchars
+		h.Write(scratch[:])
 	}
-	return uint64(h)<<32 + uint64((contract<<8)|uint32(t.Depth))
+	return h.Sum64()
 }
 
 // _SplitFunc various split function to split topic using delimeter.
-- 
2.43.0


From fa1a95ccb2f02ea7feba7fef3d0a027403776f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:25 +0000
Subject: [PATCH 14/54] fix: wildcard at the start of a topic matches, only '*'
 is a wildcard and topics without parts are invalid

---
 message/topic.go | 45 +++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/message/topic.go b/message/topic.go
index 8d6621d..7ff1299 100644
--- a/message/topic.go
+++ b/message/topic.go
@@ -63,12 +63,14 @@ type Topic struct {
 	Depth        uint8
 	Options      []TopicOption // Gets or sets the options.
 	TopicType    uint8
+
+	wildchars uint8 // The number of wildcard parts at the start of the topic.
 }
 
 // AddContract adds contract to the parts of a topic.
 func (t *Topic) AddContract(contract uint32) {
 	part := Part{
-		Wildchars: 0,
+		Wildchars: t.wildchars,
 		Hash:      contract,
 	}
 	parts := []Part{part}
@@ -77,9 +79,6 @@ func (t *Topic) AddContract(contract uint32) {
 
 // GetHash combines the parts into a single hash.
 func (t *Topic) GetHash(contract uint32) uint64 {
-	if len(t.Parts) == 1 {
-		return uint64(contract)
-	}
 	// hash depends on the order of the parts and on the wildcards between the parts.
 	h := fnv.New64a()
 	var scratch [5]byte
@@ -263,37 +262,26 @@ func parseWildcardTopic(contract uint32, topic *Topic) (ok bool) {
 	}
 
 	parts := bytes.FieldsFunc(topic.Topic, fn.splitTopic)
+	if len(parts) == 0 && topic.TopicType != TopicWildcard || len(parts) >= TopicMaxDepth {
+		topic.TopicType = TopicInvalid
+		return false
+	}
 	q = []byte{TopicWildcardSymbol}
 	part = Part{}
 	wildchars := uint8(0)
-	wildcharcount := 0
-	for idx, p := range parts {
+	for _, p := range parts {
 		depth++
-		if bytes.HasSuffix(p, q) {
+		if bytes.Equal(p, q) {
 			topic.TopicType = TopicWildcard
-			if idx == 0 {
-				part.Hash = hash.WithSalt(p, contract)
-				topic.Parts = append(topic.Parts, part)
-			}
 			wildchars++
-			wildcharcount++
 			continue
 		}
+		topic.setWildchars(wildchars)
+		wildchars = 0
 		part.Hash = hash.WithSalt(p, contract)
 		topic.Parts = append(topic.Parts, part)
-		if wildchars > 0 {
-			if idx-wildcharcount-1 >= 0 {
-				topic.Parts[idx-wildcharcount-1].Wildchars = wildchars
-			} else {
-				topic.Parts[0].Wildchars = wildchars
-			}
-			wildchars = 0
-		}
-	}
-
-	if wildchars > 0 {
-		topic.Parts[len(topic.Parts)-1:][0].Wildchars = wildchars
 	}
+	topic.setWildchars(wildchars)
 	if topic.Depth == TopicMaxDepth {
 		part.Hash = Wildcard
 		topic.Parts = append(topic.Parts, part)
@@ -306,6 +294,15 @@ func parseWildcardTopic(contract uint32, topic *Topic) (ok bool) {
 	return true
 }
 
+// setWildchars sets number of wildcard parts following the last part of the topic.
+func (t *Topic) setWildchars(wildchars uint8) {
+	if len(t.Parts) == 0 {
+		t.wildchars = wildchars
+		return
+	}
+	t.Parts[len(t.Parts)-1].Wildchars = wildchars
+}
+
 // Marshal serializes topic to binary.
 func (t *Topic) Marshal() []byte {
 	// preallocate buffer of appropriate size
-- 
2.43.0


From da3eee9d6646c3d06b1a615784335638360979d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:28 +0000
Subject: [PATCH 15/54] fix: topics added to the trie concurrently do not
 replace each other

---
 trie.go | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/trie.go b/trie.go
index fe63f31..d02b240 100644
--- a/trie.go
+++ b/trie.go
@@ -93,15 +93,12 @@ func newTopicTrie() *_TopicTrie {
 // _Trie trie data structure to store topic parts
 type _Trie struct {
 	sync.RWMutex
-	mutex     _Mutex
 	topicTrie *_TopicTrie
 }
 
 // newTrie new trie creates a Trie with an initialized Trie.
-// Mutex is used to lock concurent read/write on a contract, and it does not lock entire trie.
 func newTrie() *_Trie {
 	return &_Trie{
-		mutex:     newMutex(),
 		topicTrie: newTopicTrie(),
 	}
 }
@@ -115,10 +112,8 @@ func (t *_Trie) Count() int {
 
 // add adds a topic to trie.
 func (t *_Trie) add(topic _Topic, parts []message.Part, depth uint8) (added bool) {
-	// Get mutex
-	mu := t.mutex.getMutex(topic.hash)
-	mu.Lock()
-	defer mu.Unlock()
+	t.Lock()
+	defer t.Unlock()
 	if _, ok := t.topicTrie.summary[topic.hash]; ok {
 		return false
 	}
@@ -128,28 +123,21 @@ func (t *_Trie) add(topic _Topic, parts []message.Part, depth uint8) (added bool
 			hash:      p.Hash,
 			wildchars: p.Wildchars,
 		}
-		t.RLock()
 		child, ok := curr.children[newPart]
-		t.RUnlock()
 		if !ok {
 			child = &_Node{
 				part:     newPart,
 				parent:   curr,
 				children: make(map[_Part]*_Node),
 			}
-			t.Lock()
 			curr.children[newPart] = child
-			t.Unlock()
 		}
 		curr = child
 	}
-	t.Lock()
+	curr.depth = depth
 	curr.topics.addUnique(topic)
 	t.topicTrie.summary[topic.hash] = curr
-	t.Unlock()
-	added = true
-	curr.depth = depth
-	return
+	return true
 }
 
 // lookup returns window entry set for given topic.
-- 
2.43.0


From de92ee20629f354edac004d7825e86ec81f7f2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:00 +0000
Subject: [PATCH 16/54] fix: sync and size of the file set cover the files of
 the database

---
 file.go   | 18 +++++++++++++-----
 filter.go |  6 +++---
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/file.go b/file.go
index 3dc7103..d1c0939 100644
--- a/file.go
+++ b/file.go
@@ -230,9 +230,11 @@ func (fs *_FileSet) getFile(fd _FileDesc) (*_File, error) {
 func (fs *_FileSet) sync() error {
 	fs.mu.RLock()
 	defer fs.mu.RUnlock()
-	for _, f := range fs.fileMap {
-		if err := f.Sync(); err != nil {
-			return err
+	for _, files := range fs.list {
+		for _, f := range files.fileMap {
+			if err := f.Sync(); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
@@ -242,8 +244,14 @@ func (fs *_FileSet) size() (int64, error) {
 	fs.mu.RLock()
 	defer fs.mu.RUnlock()
 	size := int64(0)
-	for _, f := range fs.fileMap {
-		size += f.currSize()
+	for _, files := range fs.list {
+		for _, f := range files.fileMap {
+			stat, err := f.Stat()
+			if err != nil {
+				return 0, err
+			}
+			size += stat.Size()
+		}
 	}
 	return size, nil
 }
diff --git a/filter.go b/filter.go
index 5fb5ec0..5c14002 100644
--- a/filter.go
+++ b/filter.go
@@ -64,18 +64,18 @@ func (f *Filter) writeFilterBlock() error {
 }
 
 func (f *Filter) getFilterBlock(fillCache bool) (*filter.Block, error) {
-	if f.file.currSize() <= 0 {
+	if f.file.Size() <= 0 {
 		return nil, nil
 	}
 	var cacheKey uint64
 	if f.blockCache != nil {
-		cacheKey = f.cacheID ^ uint64(f.file.currSize())
+		cacheKey = f.cacheID ^ uint64(f.file.Size())
 		if data, err := f.blockCache.Get(cacheKey); data != nil {
 			return filter.NewFilterBlock(data), err
 		}
 	}
 
-	raw := make([]byte, f.file.currSize())
+	raw := make([]byte, f.file.Size())
 	if _, err := f.file.ReadAt(raw, 0); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 734fd59cad65d51c00b1b49444fd3b56b12c24de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:03 +0000
Subject: [PATCH 17/54] fix: file offset of a block does not overflow past 2GB

---
 block.go              |  2 +-
 block_writer.go       |  2 +-
 time_window.go        |  2 +-
 time_window_writer.go | 10 +++++-----
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/block.go b/block.go
index 4946422..232df9b 100644
--- a/block.go
+++ b/block.go
@@ -52,7 +52,7 @@ func blockOffset(idx int32) int64 {
 	if idx == -1 {
 		return int64(0)
 	}
-	return int64(blockSize * idx)
+	return int64(blockSize) * int64(idx)
 }
 
 func (e _IndexEntry) mSize() uint32 {
diff --git a/block_writer.go b/block_writer.go
index 8dd0d99..c004b2b 100644
--- a/block_writer.go
+++ b/block_writer.go
@@ -51,7 +51,7 @@ func newBlockWriter(fs *_FileSet, lease *_Lease, buf *bpool.Buffer) (*_BlockWrit
 	if w.indexOffset > 0 {
 		w.blockIdx = int32(w.indexOffset / int64(blockSize))
 		// read final block from index file.
-		if w.indexOffset > int64(w.blockIdx*blockSize) {
+		if w.indexOffset > blockOffset(w.blockIdx) {
 			r := _BlockReader{indexFile: w.indexFile, offset: blockOffset(w.blockIdx)}
 			b, err := r.readIndexBlock()
 			if err != nil {
diff --git a/time_window.go b/time_window.go
index a7eeb4c..aee731b 100644
--- a/time_window.go
+++ b/time_window.go
@@ -101,7 +101,7 @@ func (b *_WinBlock) unmarshalBinary(data []byte) error {
 }
 
 func winBlockOffset(idx int32) int64 {
-	return int64(blockSize * idx)
+	return int64(blockSize) * int64(idx)
 }
 
 type (
diff --git a/time_window_writer.go b/time_window_writer.go
index 1e7793b..9b70591 100644
--- a/time_window_writer.go
+++ b/time_window_writer.go
@@ -110,7 +110,7 @@ func (w *_WindowWriter) append(topicHash uint64, off int64, wEntries _WindowEntr
 		}
 		if b.entryIdx == entriesPerWindowBlock {
 			topicHash := b.topicHash
-			next := int64(blockSize * wIdx)
+			next := winBlockOffset(wIdx)
 			// set approximate cutoff on winBlock.
 			b.cutoffTime = time.Now().Unix()
 			w.winBlocks[wIdx] = b
@@ -127,7 +127,7 @@ func (w *_WindowWriter) append(topicHash uint64, off int64, wEntries _WindowEntr
 	}
 	w.winBlocks[wIdx] = b
 
-	return int64(blockSize * wIdx), nil
+	return winBlockOffset(wIdx), nil
 }
 
 func (w *_WindowWriter) write() error {
@@ -135,7 +135,7 @@ func (w *_WindowWriter) write() error {
 		if !b.leased || !b.dirty {
 			continue
 		}
-		off := int64(blockSize * bIdx)
+		off := winBlockOffset(bIdx)
 		if _, err := w.winFile.WriteAt(b.marshalBinary(), off); err != nil {
 			return err
 		}
@@ -163,7 +163,7 @@ func (w *_WindowWriter) write() error {
 	for _, blocks := range winBlocks {
 		if len(blocks) == 1 {
 			bIdx := blocks[0]
-			off := int64(blockSize * bIdx)
+			off := winBlockOffset(bIdx)
 			b := w.winBlocks[bIdx]
 			buf := b.marshalBinary()
 			if _, err := w.winFile.WriteAt(buf, off); err != nil {
@@ -174,7 +174,7 @@ func (w *_WindowWriter) write() error {
 			// fmt.Println("timeWindow.write: topicHash, seq ", b.topicHash, b.entries[0])
 			continue
 		}
-		blockOff := int64(blockSize * blocks[0])
+		blockOff := winBlockOffset(blocks[0])
 		for bIdx := blocks[0]; bIdx <= blocks[1]; bIdx++ {
 			b := w.winBlocks[bIdx]
 			w.buffer.Write(b.marshalBinary())
-- 
2.43.0


From c1364a842e3b26c9c0e8ae8874355677427a10da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:03 +0000
Subject: [PATCH 18/54] fix: free blocks are found, merged and reloaded without
 losing or duplicating free space

---
 db.go      |   2 +-
 db_sync.go |   2 +-
 leasing.go | 197 ++++++++++++++++++++++++-----------------------------
 3 files changed, 90 insertions(+), 111 deletions(-)

diff --git a/db.go b/db.go
index 59bc810..e2d6528 100644
--- a/db.go
+++ b/db.go
@@ -189,7 +189,7 @@ func Open(path string, opts ...Options) (*DB, error) {
 	}
 
 	// Read freeList.
-	if err := db.internal.freeList.read(); err != nil {
+	if _, err := db.internal.freeList.read(); err != nil {
 		logger.Error().Err(err).Str("context", "db.readHeader")
 		return nil, err
 	}
diff --git a/db_sync.go b/db_sync.go
index 8515c7f..f405db6 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -320,7 +320,7 @@ func (db *DB) expireEntries() error {
 		if err != nil {
 			return err
 		}
-		db.internal.freeList.free(e.seq, e.msgOffset, e.mSize())
+		db.internal.freeList.freeBlock(e.msgOffset, e.mSize())
 		db.decount(1)
 	}
 
diff --git a/leasing.go b/leasing.go
index 6a429d8..b2eae1f 100644
--- a/leasing.go
+++ b/leasing.go
@@ -19,22 +19,18 @@ package unitdb
 import (
 	"encoding/binary"
 	"io"
+	"math"
 	"sort"
 	"sync"
+	"sync/atomic"
 
 	"github.com/unit-io/unitdb/hash"
 )
 
-type _Leases struct {
-	ls           map[uint64]struct{} // map[timeID]map[seq]
-	sync.RWMutex                     // Read Write mutex, guards access to internal collection.
-}
-
 // A "thread" safe lease freeblocks.
 // To avoid lock bottlenecks blocks are divided into several shards (nShards).
 type _Lease struct {
 	file                  _FileSet
-	leases                []*_Leases
 	blocks                []*_FreeBlocks
 	size                  int64 // Total size of free blocks.
 	minimumFreeBlocksSize int64 // Minimum free blocks size before free blocks are reused for new allocation.
@@ -56,16 +52,11 @@ type _FreeBlocks struct {
 func newLease(fs _FileSet, minimumSize int64) *_Lease {
 	l := &_Lease{
 		file:                  fs,
-		leases:                make([]*_Leases, nShards),
 		blocks:                make([]*_FreeBlocks, nShards),
 		minimumFreeBlocksSize: minimumSize,
 		consistent:            hash.InitConsistent(int(nShards), int(nShards)),
 	}
 
-	for i := 0; i < nShards; i++ {
-		l.leases[i] = &_Leases{ls: make(map[uint64]struct{})}
-	}
-
 	for i := 0; i < nShards; i++ {
 		l.blocks[i] = &_FreeBlocks{cache: make(map[int64]bool)}
 	}
@@ -94,7 +85,7 @@ func (b *_FreeBlocks) UnmarshalBinary(data []byte, size uint32) error {
 		// _ = data[12] // bounds check hint to compiler; see golang.org/issue/14808.
 		blockOff := int64(binary.LittleEndian.Uint64(data[:8]))
 		blockSize := binary.LittleEndian.Uint32(data[8:12])
-		if blockOff != 0 {
+		if blockSize != 0 {
 			b.fb = append(b.fb, _FreeBlock{size: blockSize, offset: blockOff})
 		}
 		data = data[12:]
@@ -102,153 +93,141 @@ func (b *_FreeBlocks) UnmarshalBinary(data []byte, size uint32) error {
 	return nil
 }
 
-// leaseBlock returns leases under given blockID.
-func (l *_Lease) leaseBlock(blockID uint64) *_Leases {
-	return l.leases[l.consistent.FindBlock(blockID)]
-}
-
 // freeBlocks returns freeBlocks under given blockID.
 func (l *_Lease) freeBlocks(blockID uint64) *_FreeBlocks {
 	return l.blocks[l.consistent.FindBlock(blockID)]
 }
 
+// search gets index of the smallest free block that fits the size, free blocks are sorted by size.
 func (b *_FreeBlocks) search(size uint32) int {
 	return sort.Search(len(b.fb), func(i int) bool {
 		return b.fb[i].size >= size
 	})
 }
 
-func (b *_FreeBlocks) len() int {
-	return len(b.fb)
+// insert adds free block to the set. It returns false if block is already free.
+func (b *_FreeBlocks) insert(fb _FreeBlock) bool {
+	b.Lock()
+	defer b.Unlock()
+	// Verify that block is not already free.
+	if b.cache[fb.offset] {
+		return false
+	}
+	i := b.search(fb.size)
+	b.fb = append(b.fb, _FreeBlock{})
+	copy(b.fb[i+1:], b.fb[i:])
+	b.fb[i] = fb
+	b.cache[fb.offset] = true
+	return true
 }
 
-func (b *_FreeBlocks) defrag() {
-	l := len(b.fb)
-	if l <= 1 {
-		return
+// remove removes the smallest free block that fits the size.
+func (b *_FreeBlocks) remove(size uint32) (fb _FreeBlock, ok bool) {
+	b.Lock()
+	defer b.Unlock()
+	i := b.search(size)
+	if i >= len(b.fb) {
+		return fb, false
 	}
-	sort.Slice(b.fb[:l], func(i, j int) bool {
-		return b.fb[i].offset < b.fb[j].offset
-	})
-	var merged []_FreeBlock
-	curOff := b.fb[0].offset
-	curSize := b.fb[0].size
-	for i := 1; i < l; i++ {
-		if curOff+int64(curSize) == b.fb[i].offset {
-			curSize += b.fb[i].size
-			delete(b.cache, b.fb[i].offset)
-		} else {
-			merged = append(merged, _FreeBlock{size: curSize, offset: curOff})
-			curOff = b.fb[i].offset
-			curSize = b.fb[i].size
-		}
-	}
-	merged = append(merged, _FreeBlock{offset: curOff, size: curSize})
-	sort.Slice(merged, func(i, j int) bool {
-		return merged[i].size < merged[j].size
-	})
-	copy(b.fb[:l], merged)
+	fb = b.fb[i]
+	b.fb = append(b.fb[:i], b.fb[i+1:]...)
+	delete(b.cache, fb.offset)
+	return fb, true
 }
 
+func (b *_FreeBlocks) len() int {
+	return len(b.fb)
+}
+
+// defrag merges adjacent free blocks.
 func (l *_Lease) defrag() {
-	for i := 0; i < nShards; i++ {
-		fbs := l.blocks[i]
-		fbs.defrag()
+	var fbs []_FreeBlock
+	for _, b := range l.blocks {
+		b.Lock()
+		fbs = append(fbs, b.fb...)
+		b.fb = nil
+		b.cache = make(map[int64]bool)
+		b.Unlock()
+	}
+	sort.Slice(fbs[:], func(i, j int) bool {
+		return fbs[i].offset < fbs[j].offset
+	})
+	atomic.StoreInt64(&l.size, 0)
+	for i := 0; i < len(fbs); {
+		fb := fbs[i]
+		for i++; i < len(fbs) && fb.offset+int64(fb.size) == fbs[i].offset && fb.size <= math.MaxUint32-fbs[i].size; i++ {
+			fb.size += fbs[i].size
+		}
+		l.freeBlock(fb.offset, fb.size)
 	}
 }
 
 func (l *_Lease) freeBlock(off int64, size uint32) {
-	fbs := l.freeBlocks(uint64(off))
-	fbs.Lock()
-	defer fbs.Unlock()
-	// Verify that block is not already free.
-	if fbs.cache[off] {
+	if off < 0 || size == 0 {
 		return
 	}
-	fbs.fb = append(fbs.fb, _FreeBlock{offset: off, size: size})
-	fbs.cache[off] = true
-	l.size += int64(size)
-}
-
-func (l *_Lease) free(seq uint64, off int64, size uint32) {
-	if size == 0 {
-		panic("unable to free zero bytes")
+	if ok := l.freeBlocks(uint64(off)).insert(_FreeBlock{offset: off, size: size}); ok {
+		atomic.AddInt64(&l.size, int64(size))
 	}
-	l.freeBlock(off, size)
 }
 
 func (l *_Lease) allocate(size uint32) int64 {
 	if size == 0 {
 		panic("unable to allocate zero bytes")
 	}
-	if l.size < l.minimumFreeBlocksSize {
-		return -1
-	}
-	fbs := l.freeBlocks(uint64(size))
-	fbs.Lock()
-	defer fbs.Unlock()
-	i := fbs.search(size)
-	if i >= len(fbs.fb) {
+	if atomic.LoadInt64(&l.size) < l.minimumFreeBlocksSize {
 		return -1
 	}
-	off := fbs.fb[i].offset
-	if fbs.fb[i].size == size {
-		copy(fbs.fb[i:], fbs.fb[i+1:])
-		fbs.fb[len(fbs.fb)-1] = _FreeBlock{}
-		fbs.fb = fbs.fb[:len(fbs.fb)-1]
-	} else {
-		fbs.fb[i].size -= size
-		fbs.fb[i].offset += int64(size)
+	for _, fbs := range l.blocks {
+		fb, ok := fbs.remove(size)
+		if !ok {
+			continue
+		}
+		atomic.AddInt64(&l.size, -int64(fb.size))
+		l.freeBlock(fb.offset+int64(size), fb.size-size)
+		return fb.offset
 	}
-	delete(fbs.cache, off)
-	l.size -= int64(size)
-	return off
+	return -1
 }
 
-func (l *_Lease) read() error {
-	off := int64(0)
-	blocks := &_FreeBlocks{cache: make(map[int64]bool)}
-	buf := make([]byte, 4)
-	if _, err := l.file.ReadAt(buf, off); err != nil {
-		if err == io.EOF {
-			return nil
-		}
-		return err
+// read reads free blocks written when the DB was closed. It returns false if DB was not closed.
+func (l *_Lease) read() (bool, error) {
+	buf := make([]byte, l.file.Size())
+	if _, err := l.file.ReadAt(buf, 0); err != nil && err != io.EOF {
+		return false, err
+	}
+	if len(buf) < 4 {
+		return false, nil
 	}
 	size := binary.LittleEndian.Uint32(buf)
-	off += 4
-	buf = make([]byte, 12*size)
-	if _, err := l.file.ReadAt(buf, off); err != nil {
-		return err
+	buf = buf[4:]
+	if uint64(len(buf)) != 12*uint64(size) {
+		// free blocks are not entirely written.
+		return false, nil
 	}
+	blocks := &_FreeBlocks{}
 	blocks.UnmarshalBinary(buf, size)
-
 	for _, b := range blocks.fb {
 		l.freeBlock(b.offset, b.size)
 	}
 
-	return nil
+	return true, nil
+}
+
+// reset truncates lease file so that free blocks allocated hereafter are not read from it after a crash.
+func (l *_Lease) reset() error {
+	return l.file.truncate(0)
 }
 
 func (l *_Lease) write() error {
-	if len(l.blocks) == 0 {
-		return nil
-	}
-	if err := l.file.Truncate(0); err != nil {
+	if err := l.file.truncate(0); err != nil {
 		return err
 	}
-	var off int64
-	blocks := &_FreeBlocks{cache: make(map[int64]bool)}
-	for i := 0; i < nShards; i++ {
-		fbs := l.blocks[i]
-		if fbs.len() == 0 {
-			continue
-		}
+	blocks := &_FreeBlocks{}
+	for _, fbs := range l.blocks {
 		blocks.fb = append(blocks.fb, fbs.fb...)
 	}
-
-	data := blocks.MarshalBinary()
-	if _, err := l.file.WriteAt(data, off); err != nil {
+	if _, err := l.file.write(blocks.MarshalBinary()); err != nil {
 		return err
 	}
 
-- 
2.43.0


From abf778aa454e36415a6d3bc13cc48844450454b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:25 +0000
Subject: [PATCH 19/54] fix: lock file is not removed while another open may
 hold it and all files are closed

---
 file.go      | 9 +++++----
 file_unix.go | 5 +----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/file.go b/file.go
index d1c0939..543fd56 100644
--- a/file.go
+++ b/file.go
@@ -138,6 +138,7 @@ func newFile(path string, nFiles int16, fd _FileDesc) (_FileSet, error) {
 		f.fd = fd
 		stat, err := fi.Stat()
 		if err != nil {
+			fi.Close()
 			return fs, err
 		}
 		f.size = stat.Size()
@@ -256,17 +257,17 @@ func (fs *_FileSet) size() (int64, error) {
 	return size, nil
 }
 
-func (fs *_FileSet) close() error {
+func (fs *_FileSet) close() (err error) {
 	fs.mu.Lock()
 	defer fs.mu.Unlock()
 	for _, files := range fs.list {
 		for _, f := range files.fileMap {
-			if err := f.Close(); err != nil {
-				return err
+			if err1 := f.Close(); err1 != nil {
+				err = err1
 			}
 		}
 	}
-	return nil
+	return err
 }
 
 func ensureDir(dirName string) error {
diff --git a/file_unix.go b/file_unix.go
index f6c5c82..848d48c 100644
--- a/file_unix.go
+++ b/file_unix.go
@@ -28,11 +28,8 @@ type _UnixFileLock struct {
 	name string
 }
 
-// Unlock removes the lock from file.
+// Unlock releases the lock. File is kept as it might be already opened to acquire the lock.
 func (fl *_UnixFileLock) unlock() error {
-	if err := os.Remove(fl.name); err != nil {
-		return err
-	}
 	return fl.f.Close()
 }
 
-- 
2.43.0


From 0344f666e7aa2649ab60edddac4de690485434b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:27 +0000
Subject: [PATCH 20/54] fix: sync, recovery, delete, expiry and batch neither
 lose, duplicate nor reorder messages

Entries are written to the window, index and data files before they are
released from memory and the log, an interrupted or failed sync is redone
from the log, deletes are kept in the index, a batch is logged entirely or
not at all, a query reads every block needed to reach its limit, and
requests with an invalid topic, ID or limit are refused.
---
 batch.go              | 156 +++++++++++++------
 block.go              |  15 ++
 block_reader.go       |  90 ++++++++---
 block_writer.go       | 145 +++++++-----------
 db.go                 | 280 +++++++++++++++-------------------
 db_internal.go        | 346 +++++++++++++++++++++++++++++++-----------
 db_sync.go            | 294 ++++++++++++++++++-----------------
 entry.go              |   1 -
 expiry_window.go      |  57 +++----
 query.go              |  29 ++--
 recovery.go           | 159 +------------------
 time_window.go        | 171 +++++++++------------
 time_window_reader.go |  12 +-
 time_window_writer.go |  64 +-------
 14 files changed, 905 insertions(+), 914 deletions(-)

diff --git a/batch.go b/batch.go
index d592255..6898f24 100644
--- a/batch.go
+++ b/batch.go
@@ -37,8 +37,15 @@ func (b *Batch) SetOptions(opts ...Options) {
 // Batch is a write batch.
 type (
 	_BatchIndex struct {
-		delFlag bool
-		offset  int64
+		offset int64
+	}
+	_BatchEntry struct {
+		topicHash uint64
+		winEntry  _WinEntry
+	}
+	_BatchDelete struct {
+		topicHash uint64
+		seq       uint64
 	}
 
 	Batch struct {
@@ -52,6 +59,10 @@ type (
 		buffer *bpool.Buffer
 		size   int64
 
+		entries []_BatchEntry  // entries written to the batch and not yet committed.
+		dels    []_BatchDelete // deletes are applied on commit.
+		err     error          // error while writing the batch.
+
 		// commitComplete is used to signal if batch commit is complete and batch is fully written to DB.
 		commitComplete chan struct{}
 	}
@@ -80,6 +91,9 @@ func (b *Batch) PutEntry(e *Entry) error {
 		return errValueTooLarge
 	}
 	e.Encryption = e.Encryption || b.opts.batchOptions.encryption
+	if e.Contract == 0 {
+		e.Contract = b.opts.batchOptions.contract
+	}
 	if err := b.db.setEntry(e); err != nil {
 		return err
 	}
@@ -93,7 +107,7 @@ func (b *Batch) PutEntry(e *Entry) error {
 		return err
 	}
 
-	b.index = append(b.index, _BatchIndex{delFlag: false, offset: b.size})
+	b.index = append(b.index, _BatchIndex{offset: b.size})
 	b.size += int64(len(e.entry.cache) + 4)
 
 	// reset message entry
@@ -124,21 +138,23 @@ func (b *Batch) DeleteEntry(e *Entry) error {
 		return errTopicTooLarge
 	}
 
-	if err := b.db.setEntry(e); err != nil {
+	seq, err := parseID(e.ID)
+	if err != nil {
 		return err
 	}
-
-	var scratch [4]byte
-	binary.LittleEndian.PutUint32(scratch[0:4], uint32(len(e.entry.cache)+4))
-	if _, err := b.buffer.Write(scratch[:]); err != nil {
-		return err
+	if e.Contract == 0 {
+		e.Contract = b.opts.batchOptions.contract
 	}
-	if _, err := b.buffer.Write(e.entry.cache); err != nil {
+	if e.Contract == 0 {
+		e.Contract = message.MasterContract
+	}
+	topic, _, err := b.db.parseTopic(e.Contract, e.Topic)
+	if err != nil {
 		return err
 	}
+	topic.AddContract(e.Contract)
 
-	b.index = append(b.index, _BatchIndex{delFlag: true, offset: b.size})
-	b.size += int64(len(e.entry.cache) + 4)
+	b.dels = append(b.dels, _BatchDelete{topicHash: topic.GetHash(e.Contract), seq: seq})
 
 	// reset message entry
 	e.reset()
@@ -167,15 +183,6 @@ func (b *Batch) writeInternal(fn func(i int, e _Entry, data []byte) error) error
 		if err := e.UnmarshalBinary(entryData); err != nil {
 			return err
 		}
-		if index.delFlag && e.seq != 0 {
-			/// Test filter block for presence.
-			if !b.db.internal.filter.Test(e.seq) {
-				return nil
-			}
-			b.db.delete(e.topicHash, e.seq)
-			continue
-		}
-
 		// put packed entry into memdb.
 		data = data[:0]
 		data, err = b.buffer.Slice(off+4, off+dataLen)
@@ -198,37 +205,45 @@ func (b *Batch) Write() error {
 	defer func() {
 		<-b.writeLockC
 	}()
+	return b.write()
+}
+
+func (b *Batch) write() error {
+	if b.err != nil {
+		return b.err
+	}
 	if b.len() == 0 {
 		return nil
 	}
-	topics := make(map[uint64]*message.Topic)
-	timeID := b.mem.TimeID()
-	var seqs []uint64
-	b.writeInternal(func(i int, e _Entry, data []byte) error {
-		if e.topicSize != 0 {
-			t, ok := topics[e.topicHash]
-			if !ok {
-				t = new(message.Topic)
-				rawTopic := data[entrySize+idSize : entrySize+idSize+e.topicSize]
-				t.Unmarshal(rawTopic)
-				topics[e.topicHash] = t
-			}
-			b.db.internal.trie.add(newTopic(e.topicHash, 0), t.Parts, t.Depth)
+	b.err = b.writeInternal(func(i int, e _Entry, data []byte) error {
+		if err := b.db.addTopic(e, data); err != nil {
+			return err
 		}
 		if err := b.mem.Put(e.seq, data); err != nil {
 			return err
 		}
-		if ok := b.db.internal.timeWindow.add(timeID, e.topicHash, newWinEntry(e.seq, e.expiresAt)); !ok {
-			return errForbidden
-		}
-		seqs = append(seqs, e.seq)
+		b.entries = append(b.entries, _BatchEntry{topicHash: e.topicHash, winEntry: newWinEntry(e.seq, e.expiresAt)})
 		return nil
 	})
-
-	b.mem.Write()
+	if b.err == nil {
+		b.err = b.mem.Write()
+	}
 	b.reset()
 
-	return nil
+	return b.err
+}
+
+// writeDeletes writes deletes into the batch, deletes are recovered along with the entries of the batch.
+func (b *Batch) writeDeletes() error {
+	if len(b.dels) == 0 {
+		return nil
+	}
+	seq := b.db.nextSeq()
+	data, err := packDeletes(seq, b.dels)
+	if err != nil {
+		return err
+	}
+	return b.mem.Put(seq, data)
 }
 
 // Commit commits changes to the DB. In batch operation commit is managed and client is not allowed to call Commit.
@@ -236,26 +251,78 @@ func (b *Batch) Write() error {
 func (b *Batch) Commit() error {
 	_assert(!b.managed, "managed batch commit not allowed")
 
-	b.db.internal.closeW.Add(1)
+	closeW := &b.db.internal.closeW
+	closeW.Add(1)
 	defer func() {
 		close(b.commitComplete)
-		b.db.internal.closeW.Done()
 		b.Abort()
+		closeW.Done()
 	}()
+	if err := b.db.ok(); err != nil {
+		return err
+	}
 
 	// Write if any pending entries in batch.
 	if err := b.Write(); err != nil {
 		return err
 	}
+	if err := b.writeDeletes(); err != nil {
+		return err
+	}
+	if len(b.entries) == 0 && len(b.dels) == 0 {
+		return nil
+	}
 
 	// Commit batch to database.
+	timeID := b.mem.TimeID()
 	if err := b.mem.Commit(); err != nil {
 		return err
 	}
 
+	// entries are visible once batch is committed to the log.
+	for _, e := range b.entries {
+		if ok := b.db.internal.timeWindow.add(timeID, e.topicHash, e.winEntry); !ok {
+			return errForbidden
+		}
+		b.db.internal.meter.Puts.Inc(1)
+	}
+	for _, d := range b.dels {
+		// deletes are in the log, those are applied on next open if DB is closing.
+		if err := b.db.delete(d.topicHash, d.seq); err != nil && err != errClosed {
+			return err
+		}
+	}
+
 	return nil
 }
 
+// packDeletes packs deletes of a batch into an entry. An entry to put always has a value and
+// it is not packed as an entry for deletes.
+func packDeletes(seq uint64, dels []_BatchDelete) ([]byte, error) {
+	data, err := _Entry{seq: seq}.MarshalBinary()
+	if err != nil {
+		return nil, err
+	}
+	var scratch [8]byte
+	for _, d := range dels {
+		binary.LittleEndian.PutUint64(scratch[:], d.seq)
+		data = append(data, scratch[:]...)
+	}
+	return data, nil
+}
+
+// unpackDeletes gets sequence of the entries deleted in a batch.
+func unpackDeletes(data []byte) (seqs []uint64) {
+	var e _Entry
+	if err := e.UnmarshalBinary(data[:entrySize]); err != nil || e.valueSize != 0 || e.topicSize != 0 {
+		return nil
+	}
+	for data = data[entrySize:]; len(data) >= 8; data = data[8:] {
+		seqs = append(seqs, binary.LittleEndian.Uint64(data[:8]))
+	}
+	return seqs
+}
+
 func (b *Batch) reset() {
 	b.index = b.index[:0]
 	b.size = 0
@@ -265,6 +332,9 @@ func (b *Batch) reset() {
 //Abort abort is a batch cleanup operation on batch complete.
 func (b *Batch) Abort() {
 	_assert(!b.managed, "managed batch abort not allowed")
+	if b.db == nil {
+		return
+	}
 
 	b.reset()
 	b.mem.Abort()
diff --git a/block.go b/block.go
index 232df9b..3ea926e 100644
--- a/block.go
+++ b/block.go
@@ -59,6 +59,21 @@ func (e _IndexEntry) mSize() uint32 {
 	return idSize + uint32(e.topicSize) + e.valueSize
 }
 
+// isDeleted checks whether entry is deleted from the DB. Deleted entry with a topic keeps its topic.
+func (e _IndexEntry) isDeleted() bool {
+	return e.msgOffset == -1 || e.valueSize == 0
+}
+
+// entry gets index of the entry for the seq, it returns -1 if entry does not exist in the block.
+func (b *_IndexBlock) entry(seq uint64) int {
+	for i := 0; i < int(b.entryIdx) && i < entriesPerIndexBlock; i++ {
+		if b.entries[i].seq == seq {
+			return i
+		}
+	}
+	return -1
+}
+
 func (b _IndexBlock) validation(blockIdx int32) error {
 	bIdx := blockIndex(b.entries[0].seq)
 	if bIdx != blockIdx {
diff --git a/block_reader.go b/block_reader.go
index aa9085c..da6701f 100644
--- a/block_reader.go
+++ b/block_reader.go
@@ -16,11 +16,13 @@
 
 package unitdb
 
+import (
+	"io"
+)
+
 type _BlockReader struct {
-	indexBlock          _IndexBlock
 	fs                  *_FileSet
 	indexFile, dataFile *_File
-	offset              int64
 }
 
 func newBlockReader(fs *_FileSet) *_BlockReader {
@@ -41,36 +43,28 @@ func newBlockReader(fs *_FileSet) *_BlockReader {
 	return r
 }
 
-func (r *_BlockReader) readIndexBlock() (_IndexBlock, error) {
-	buf, err := r.indexFile.slice(r.offset, r.offset+int64(blockSize))
+func (r *_BlockReader) readIndexBlock(bIdx int32) (b _IndexBlock, err error) {
+	off := blockOffset(bIdx)
+	buf, err := r.indexFile.slice(off, off+int64(blockSize))
 	if err != nil {
-		return _IndexBlock{}, err
-	}
-	if err := r.indexBlock.unmarshalBinary(buf); err != nil {
-		return _IndexBlock{}, err
+		return b, err
 	}
+	err = b.unmarshalBinary(buf)
 
-	return r.indexBlock, nil
+	return b, err
 }
 
-func (r *_BlockReader) readEntry(seq uint64) (_IndexEntry, error) {
-	bIdx := blockIndex(seq)
-	r.offset = blockOffset(bIdx)
-	b, err := r.readIndexBlock()
+// readIndexEntry reads entry from the index file, the entry may be deleted.
+func (r *_BlockReader) readIndexEntry(seq uint64) (_IndexEntry, error) {
+	b, err := r.readIndexBlock(blockIndex(seq))
 	if err != nil {
-		return _IndexEntry{}, err
-	}
-	entryIdx := -1
-	for i := 0; i < entriesPerIndexBlock; i++ {
-		e := b.entries[i]
-		if e.seq == seq { //topic exist in db
-			if e.msgOffset == -1 {
-				return _IndexEntry{}, errMsgIDDeleted
-			}
-			entryIdx = i
-			break
+		if err == io.EOF {
+			// block is not yet written.
+			err = errEntryInvalid
 		}
+		return _IndexEntry{}, err
 	}
+	entryIdx := b.entry(seq)
 	if entryIdx == -1 {
 		return _IndexEntry{}, errEntryInvalid
 	}
@@ -78,6 +72,36 @@ func (r *_BlockReader) readEntry(seq uint64) (_IndexEntry, error) {
 	return b.entries[entryIdx], nil
 }
 
+func (r *_BlockReader) readEntry(seq uint64) (_IndexEntry, error) {
+	e, err := r.readIndexEntry(seq)
+	if err != nil {
+		return _IndexEntry{}, err
+	}
+	if e.isDeleted() {
+		return _IndexEntry{}, errMsgIDDeleted
+	}
+
+	return e, nil
+}
+
+// count counts entries in the index file which are not deleted.
+func (r *_BlockReader) count() (count uint64, err error) {
+	for bIdx := int32(0); ; bIdx++ {
+		b, err := r.readIndexBlock(bIdx)
+		if err != nil {
+			if err == io.EOF {
+				return count, nil
+			}
+			return 0, err
+		}
+		for i := 0; i < int(b.entryIdx) && i < entriesPerIndexBlock; i++ {
+			if !b.entries[i].isDeleted() {
+				count++
+			}
+		}
+	}
+}
+
 func (r *_BlockReader) readMessage(e _IndexEntry) ([]byte, []byte, error) {
 	if e.cache != nil {
 		return e.cache[:idSize], e.cache[e.topicSize+idSize:], nil
@@ -95,3 +119,21 @@ func (r *_BlockReader) readTopic(e _IndexEntry) ([]byte, error) {
 	}
 	return r.dataFile.slice(e.msgOffset+int64(idSize), e.msgOffset+int64(e.topicSize)+int64(idSize))
 }
+
+// readRawTopic reads topic of the entry if topic is packed into the entry, the entry may be deleted.
+func (r *_BlockReader) readRawTopic(seq uint64) ([]byte, error) {
+	if seq == 0 {
+		return nil, nil
+	}
+	e, err := r.readIndexEntry(seq)
+	if err != nil {
+		if err == errEntryInvalid {
+			return nil, nil
+		}
+		return nil, err
+	}
+	if e.topicSize == 0 || e.msgOffset == -1 {
+		return nil, nil
+	}
+	return r.readTopic(e)
+}
diff --git a/block_writer.go b/block_writer.go
index c004b2b..b4da2f4 100644
--- a/block_writer.go
+++ b/block_writer.go
@@ -18,28 +18,28 @@ package unitdb
 
 import (
 	"fmt"
+	"io"
 	"sort"
 
 	"github.com/unit-io/bpool"
 )
 
 type _BlockWriter struct {
-	blockIdx    int32
 	indexBlocks map[int32]_IndexBlock // map[blockIdx]block
 
 	fs     *_FileSet
 	lease  *_Lease
 	buffer *bpool.Buffer
 
-	indexLeases                     map[uint64]struct{} //map[seq]struct
-	dataLeases                      map[int64]uint32    // map[offset]size
+	dataLeases                      map[int64]uint32 // map[offset]size
 	indexFile, dataFile             *_File
 	offset, indexOffset, dataOffset int64
+
+	indexed bool // indexed is set once write to the index file is started.
 }
 
 func newBlockWriter(fs *_FileSet, lease *_Lease, buf *bpool.Buffer) (*_BlockWriter, error) {
-	w := &_BlockWriter{blockIdx: -1, indexBlocks: make(map[int32]_IndexBlock), fs: fs, lease: lease, buffer: buf}
-	w.indexLeases = make(map[uint64]struct{})
+	w := &_BlockWriter{indexBlocks: make(map[int32]_IndexBlock), fs: fs, lease: lease, buffer: buf}
 	w.dataLeases = make(map[int64]uint32)
 
 	indexFile, err := fs.getFile(_FileDesc{fileType: typeIndex})
@@ -48,18 +48,6 @@ func newBlockWriter(fs *_FileSet, lease *_Lease, buf *bpool.Buffer) (*_BlockWrit
 	}
 	w.indexFile = indexFile
 	w.indexOffset = indexFile.currSize()
-	if w.indexOffset > 0 {
-		w.blockIdx = int32(w.indexOffset / int64(blockSize))
-		// read final block from index file.
-		if w.indexOffset > blockOffset(w.blockIdx) {
-			r := _BlockReader{indexFile: w.indexFile, offset: blockOffset(w.blockIdx)}
-			b, err := r.readIndexBlock()
-			if err != nil {
-				return nil, err
-			}
-			w.indexBlocks[w.blockIdx] = b
-		}
-	}
 
 	dataFile, err := fs.getFile(_FileDesc{fileType: typeData})
 	if err != nil {
@@ -79,63 +67,60 @@ func (w *_BlockWriter) extend(upperSeq uint64) (int64, error) {
 	return w.indexFile.extend(uint32(off - w.indexFile.currSize()))
 }
 
-func (w *_BlockWriter) del(seq uint64) (_IndexEntry, error) {
-	var delEntry _IndexEntry
-	bIdx := blockIndex(seq)
-	if bIdx > w.blockIdx {
-		return delEntry, nil // no entry in db to delete
+// block gets index block from the blocks appended or reads it from the index file.
+func (w *_BlockWriter) block(bIdx int32) (_IndexBlock, error) {
+	if b, ok := w.indexBlocks[bIdx]; ok {
+		return b, nil
 	}
-	r := _BlockReader{indexFile: w.indexFile, offset: blockOffset(bIdx)}
-	b, err := r.readIndexBlock()
-	if err != nil {
-		return _IndexEntry{}, err
+	r := _BlockReader{indexFile: w.indexFile}
+	b, err := r.readIndexBlock(bIdx)
+	if err == io.EOF {
+		// block does not exist or it was not written entirely.
+		return _IndexBlock{}, nil
 	}
-	entryIdx := -1
-	for i := 0; i < int(b.entryIdx); i++ {
-		e := b.entries[i]
-		if e.seq == seq { //record exist in db
-			entryIdx = i
-			break
-		}
+	b.leased = true
+	return b, err
+}
+
+// del deletes entry from the index file and gets the deleted entry.
+// It returns false if entry does not exist or it is already deleted.
+func (w *_BlockWriter) del(seq uint64) (delEntry _IndexEntry, ok bool, err error) {
+	bIdx := blockIndex(seq)
+	b, err := w.block(bIdx)
+	if err != nil {
+		return delEntry, false, err
 	}
-	if entryIdx == -1 {
-		return delEntry, nil // no entry in db to delete
+	entryIdx := b.entry(seq)
+	if entryIdx == -1 || b.entries[entryIdx].isDeleted() {
+		return delEntry, false, nil // no entry in db to delete
 	}
 	delEntry = b.entries[entryIdx]
-	delEntry.msgOffset = -1
-	b.entries[entryIdx] = delEntry
-	b.dirty = true
-	w.indexBlocks[bIdx] = b
+	if delEntry.topicSize != 0 {
+		// topic is read from the entry to load it into the trie.
+		b.entries[entryIdx].valueSize = 0
+	} else {
+		b.entries[entryIdx].msgOffset = -1
+	}
+	if _, err := w.indexFile.WriteAt(b.marshalBinary(), blockOffset(bIdx)); err != nil {
+		return delEntry, false, err
+	}
 
-	return delEntry, nil
+	return delEntry, true, nil
 }
 
 func (w *_BlockWriter) append(e _IndexEntry) (err error) {
-	var b _IndexBlock
-	var ok bool
 	if e.seq == 0 {
 		panic("unable to append zero sequence")
 	}
 	bIdx := blockIndex(e.seq)
-	b, ok = w.indexBlocks[bIdx]
-	if !ok {
-		if bIdx < w.blockIdx {
-			r := _BlockReader{indexFile: w.indexFile, offset: blockOffset(bIdx)}
-			b, err = r.readIndexBlock()
-			if err != nil {
-				return err
-			}
-			b.leased = true
-		}
+	b, err := w.block(bIdx)
+	if err != nil {
+		return err
 	}
-	entryIdx := 0
-	for i := 0; i < int(b.entryIdx); i++ {
-		if b.entries[i].seq == e.seq { //record exist in db
-			entryIdx = -1
-			break
+	if entryIdx := b.entry(e.seq); entryIdx != -1 { //record exist in db
+		if b.entries[entryIdx].isDeleted() {
+			return errMsgIDDeleted
 		}
-	}
-	if entryIdx == -1 {
 		return errEntryExist
 	}
 
@@ -165,10 +150,6 @@ func (w *_BlockWriter) append(e _IndexEntry) (err error) {
 	}
 	e.msgOffset = off
 
-	if b.leased {
-		w.indexLeases[e.seq] = struct{}{}
-	}
-
 	b.entries[b.entryIdx] = e
 	b.dirty = true
 	b.entryIdx++
@@ -186,6 +167,8 @@ func (w *_BlockWriter) write() error {
 		return err
 	}
 
+	w.indexed = true
+
 	// Reset buffer before reusing it.
 	w.buffer.Reset()
 	for bIdx, b := range w.indexBlocks {
@@ -288,35 +271,17 @@ func blockRange(idx []int32) ([][]int32, error) {
 	return parts, nil
 }
 
-func (w *_BlockWriter) rollback() error {
-	// rollback data leases
+// abort rolls back data written. Once write to the index file is started
+// data is not rolled back as entries in the index file may refer to it.
+func (w *_BlockWriter) abort() error {
+	if w.indexed {
+		return nil
+	}
 	for off, size := range w.dataLeases {
 		w.lease.freeBlock(off, size)
 	}
-
-	// roll back index leases
-	for seq := range w.indexLeases {
-		if _, err := w.del(seq); err != nil {
-			return err
-		}
+	if err := w.indexFile.truncate(w.indexOffset); err != nil {
+		return err
 	}
-	return nil
-}
-
-func (w *_BlockWriter) reset() error {
-	w.buffer.Reset()
-
-	w.indexOffset = w.indexFile.currSize()
-	w.blockIdx = int32(w.indexOffset / int64(blockSize))
-
-	w.dataOffset = w.dataFile.currSize()
-
-	return nil
-}
-
-func (w *_BlockWriter) abort() error {
-	w.indexFile.truncate(w.indexOffset)
-	w.dataFile.truncate(w.dataOffset)
-
-	return w.rollback()
+	return w.dataFile.truncate(w.dataOffset)
 }
diff --git a/db.go b/db.go
index e2d6528..d14d327 100644
--- a/db.go
+++ b/db.go
@@ -19,15 +19,12 @@ package unitdb
 import (
 	"bytes"
 	"encoding/binary"
-	"fmt"
 	"math/rand"
 	"os"
-	"sort"
 	"sync"
 	"sync/atomic"
 	"time"
 
-	"github.com/golang/snappy"
 	"github.com/unit-io/bpool"
 	"github.com/unit-io/unitdb/crypto"
 	fltr "github.com/unit-io/unitdb/filter"
@@ -66,80 +63,111 @@ func Open(path string, opts ...Options) (*DB, error) {
 		return nil, err
 	}
 
-	infoFile, err := newFile(path, 1, _FileDesc{fileType: typeInfo})
-	if err != nil {
+	db := &DB{
+		opts: options,
+
+		lock: lock,
+		fs:   &_FileSet{mu: new(sync.RWMutex)},
+	}
+	if err := db.open(path); err != nil {
+		if db.internal != nil && db.internal.mem != nil {
+			db.internal.mem.Close()
+		}
+		db.fs.close()
+		lock.unlock()
 		return nil, err
 	}
 
-	timeOptions := &_TimeOptions{
-		maxDuration:         options.syncDurationType * time.Duration(options.maxSyncDurations),
-		expDurationType:     time.Minute,
-		maxExpDurations:     maxExpDur,
-		backgroundKeyExpiry: options.flags.backgroundKeyExpiry,
+	db.internal.syncHandle = _SyncHandle{DB: db}
+	db.startSyncer(options.syncDurationType * time.Duration(options.maxSyncDurations))
+
+	if db.opts.flags.backgroundKeyExpiry {
+		db.startExpirer(time.Minute, maxExpDur)
 	}
-	winFile, err := newFile(path, 1, _FileDesc{fileType: typeTimeWindow})
-	if err != nil {
-		return nil, err
+
+	return db, nil
+}
+
+// open opens or creates files and recovers DB from the files.
+func (db *DB) open(path string) error {
+	options := db.opts
+
+	openFile := func(fileType _FileType) (_FileSet, error) {
+		file, err := newFile(path, 1, _FileDesc{fileType: fileType})
+		if err != nil {
+			return file, err
+		}
+		db.fs.list = append(db.fs.list, file)
+		return file, nil
 	}
 
-	indexFile, err := newFile(path, 1, _FileDesc{fileType: typeIndex})
+	// Create a new MAC from the key.
+	mac, err := crypto.New(options.encryptionKey)
 	if err != nil {
-		return nil, err
+		return err
 	}
 
-	dataFile, err := newFile(path, 1, _FileDesc{fileType: typeData})
+	infoFile, err := openFile(typeInfo)
 	if err != nil {
-		return nil, err
+		return err
+	}
+
+	timeOptions := &_TimeOptions{
+		maxDuration:         options.syncDurationType * time.Duration(options.maxSyncDurations),
+		expDurationType:     time.Minute,
+		maxExpDurations:     maxExpDur,
+		backgroundKeyExpiry: options.flags.backgroundKeyExpiry,
+	}
+	for _, fileType := range []_FileType{typeTimeWindow, typeIndex, typeData} {
+		if _, err := openFile(fileType); err != nil {
+			return err
+		}
 	}
 
 	dbInfo := _DBInfo{}
-	if infoFile.currSize() == 0 {
+	if infoFile.currSize() < int64(fixed) {
 		dbInfo = _DBInfo{
 			header: _Header{
 				signature: signature,
 				version:   version,
 			},
 		}
-		if _, err = infoFile.extend(fixed); err != nil {
-			return nil, err
-		}
 		if err := infoFile.writeMarshalableAt(dbInfo, 0); err != nil {
-			return nil, err
+			return err
 		}
 	}
 
 	if err := infoFile.readUnmarshalableAt(&dbInfo, fixed, 0); err != nil {
 		logger.Error().Err(err).Str("context", "db.readHeader")
-		return nil, err
+		return err
 	}
 	if !bytes.Equal(dbInfo.header.signature[:], signature[:]) {
-		return nil, errCorrupted
+		return errCorrupted
 	}
 
-	leaseFile, err := newFile(path, 1, _FileDesc{fileType: typeLease})
+	leaseFile, err := openFile(typeLease)
 	if err != nil {
-		return nil, err
+		return err
 	}
-	lease := newLease(leaseFile, options.freeBlockSize)
 
-	filterFile, err := newFile(path, 1, _FileDesc{fileType: typeFilter})
+	filterFile, err := openFile(typeFilter)
 	if err != nil {
-		return nil, err
+		return err
 	}
 
-	fileset := &_FileSet{mu: new(sync.RWMutex), list: []_FileSet{infoFile, winFile, indexFile, dataFile, leaseFile, filterFile}}
-	internal := &_DB{
+	db.internal = &_DB{
 		mutex: newMutex(),
 		start: time.Now(),
 		meter: NewMeter(),
 
 		dbInfo: dbInfo,
+		mac:    mac,
 
 		bufPool: bpool.NewBufferPool(options.bufferSize, &bpool.Options{MaxElapsedTime: 10 * time.Second}),
 
 		info:     infoFile,
 		filter:   Filter{file: filterFile, filterBlock: fltr.NewFilterGenerator()},
-		freeList: lease,
+		freeList: newLease(leaseFile, options.freeBlockSize),
 
 		timeWindow: newTimeWindowBucket(timeOptions),
 
@@ -147,7 +175,7 @@ func Open(path string, opts ...Options) (*DB, error) {
 		trie: newTrie(),
 
 		// Block reader
-		reader: newBlockReader(fileset),
+		reader: newBlockReader(db.fs),
 
 		// Sync Handler
 		syncLockC: make(chan struct{}, 1),
@@ -156,57 +184,42 @@ func Open(path string, opts ...Options) (*DB, error) {
 		closeC: make(chan struct{}),
 	}
 
-	// Create a new MAC from the key.
-	if internal.mac, err = crypto.New(options.encryptionKey); err != nil {
-		return nil, err
-	}
-
 	// set encryption flag to encrypt messages.
 	if options.flags.encryption {
-		internal.dbInfo.encryption = 1
+		db.internal.dbInfo.encryption = 1
 	}
 
 	// Create a blockcache.
-	memdb, err := memdb.Open(memdb.WithLogFilePath(path), memdb.WithMemdbSize(options.memdbSize), memdb.WithBufferSize(options.bufferSize))
+	mem, err := memdb.Open(memdb.WithLogFilePath(path), memdb.WithMemdbSize(options.memdbSize), memdb.WithBufferSize(options.bufferSize))
 	if err != nil {
-		return nil, err
+		return err
 	}
-	internal.mem = memdb
-
-	internal.filter.blockCache = internal.mem
+	db.internal.mem = mem
 
-	db := &DB{
-		opts: options,
-
-		lock: lock,
-		fs:   fileset,
-
-		internal: internal,
-	}
+	db.internal.filter.blockCache = db.internal.mem
 
 	if err := db.loadTrie(); err != nil {
 		logger.Error().Err(err).Str("context", "db.loadTrie")
+		return err
 	}
 
 	// Read freeList.
-	if _, err := db.internal.freeList.read(); err != nil {
+	ok, err := db.internal.freeList.read()
+	if err != nil {
 		logger.Error().Err(err).Str("context", "db.readHeader")
-		return nil, err
+		return err
 	}
-
-	if err := db.recoverLog(); err != nil {
-		// if unable to recover db then close db.
-		panic(fmt.Sprintf("Unable to recover db on sync error %v. Closing db...", err))
+	if err := db.internal.freeList.reset(); err != nil {
+		return err
 	}
-
-	db.internal.syncHandle = _SyncHandle{DB: db}
-	db.startSyncer(options.syncDurationType * time.Duration(options.maxSyncDurations))
-
-	if db.opts.flags.backgroundKeyExpiry {
-		db.startExpirer(time.Minute, maxExpDur)
+	if !ok {
+		// DB was not closed.
+		if err := db.loadCount(); err != nil {
+			return err
+		}
 	}
 
-	return db, nil
+	return db.recoverLog()
 }
 
 // Close closes the DB.
@@ -238,80 +251,34 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 	mu := db.internal.mutex.getMutex(q.internal.prefix)
 	mu.RLock()
 	defer mu.RUnlock()
-	db.lookup(q)
-	if len(q.internal.winEntries) == 0 {
-		return
-	}
-	sort.Slice(q.internal.winEntries[:], func(i, j int) bool {
-		return q.internal.winEntries[i].seq > q.internal.winEntries[j].seq
-	})
-	start := 0
 	limit := q.Limit
-	if len(q.internal.winEntries) < int(q.Limit) {
-		limit = len(q.internal.winEntries)
-	}
-
 	for {
-		invalidCount := 0
-		for _, query := range q.internal.winEntries[start:limit] {
-			err = func() error {
-				if query.seq == 0 {
-					return nil
-				}
-				s, err := db.readEntry(query)
-				if err != nil {
-					if err == errMsgIDDeleted {
-						invalidCount++
-						return nil
-					}
-					logger.Error().Err(err).Str("context", "db.readEntry")
-					return err
-				}
-				id, val, err := db.internal.reader.readMessage(s)
-				if err != nil {
-					logger.Error().Err(err).Str("context", "data.readMessage")
-					return err
-				}
-				msgID := message.ID(id)
-				if !msgID.EvalPrefix(q.Contract, q.internal.cutoff) {
-					invalidCount++
-					return nil
-				}
-
-				// last bit of ID is an encryption flag.
-				if uint8(id[idSize-1]) == 1 {
-					val, err = db.internal.mac.Decrypt(nil, val)
-					if err != nil {
-						logger.Error().Err(err).Str("context", "mac.decrypt")
-						return err
-					}
-				}
-				var buffer []byte
-				val, err = snappy.Decode(buffer, val)
-				if err != nil {
-					logger.Error().Err(err).Str("context", "snappy.Decode")
-					return err
-				}
-				items = append(items, val)
-				db.internal.meter.OutBytes.Inc(int64(s.valueSize))
-				return nil
-			}()
+		entries, more, err := db.lookup(q, limit)
+		if err != nil {
+			return nil, err
+		}
+		items = nil
+		for _, e := range entries {
+			if len(items) == q.Limit {
+				break
+			}
+			val, ok, err := db.readPayload(q, e)
 			if err != nil {
 				return items, err
 			}
+			if !ok {
+				continue
+			}
+			items = append(items, val)
 		}
-
-		if invalidCount == 0 || len(items) == int(q.Limit) || len(q.internal.winEntries) == limit {
+		if !more || len(items) == q.Limit {
 			break
 		}
-
-		if len(q.internal.winEntries) <= int(q.Limit+invalidCount) {
-			start = limit
-			limit = len(q.internal.winEntries)
-		} else {
-			start = limit
-			limit = limit + invalidCount
-		}
+		// some of the entries are deleted or does not match the query, lookup more entries.
+		limit *= 2
+	}
+	for _, val := range items {
+		db.internal.meter.OutBytes.Inc(int64(len(val)))
 	}
 	db.internal.meter.Gets.Inc(int64(len(items)))
 	db.internal.meter.OutMsgs.Inc(int64(len(items)))
@@ -363,6 +330,10 @@ func (db *DB) PutEntry(e *Entry) error {
 		return err
 	}
 
+	if err := db.addTopic(e.entry, e.entry.cache); err != nil {
+		return err
+	}
+
 	timeID, err := db.internal.mem.Put(e.entry.seq, e.entry.cache)
 	if err != nil {
 		return err
@@ -372,13 +343,6 @@ func (db *DB) PutEntry(e *Entry) error {
 		return errForbidden
 	}
 
-	if e.entry.topicSize != 0 {
-		t := new(message.Topic)
-		rawTopic := e.entry.cache[entrySize+idSize : entrySize+idSize+e.entry.topicSize]
-		t.Unmarshal(rawTopic)
-		db.internal.trie.add(newTopic(e.entry.topicHash, 0), t.Parts, t.Depth)
-	}
-
 	db.internal.meter.Puts.Inc(1)
 
 	// reset message entry.
@@ -397,6 +361,10 @@ func (db *DB) Delete(id, topic []byte) error {
 // It is safe to modify the contents of the argument after Delete returns but
 // not before.
 func (db *DB) DeleteEntry(e *Entry) error {
+	if err := db.ok(); err != nil {
+		return err
+	}
+
 	switch {
 	case db.opts.flags.immutable:
 		return errImmutable
@@ -407,21 +375,20 @@ func (db *DB) DeleteEntry(e *Entry) error {
 	case len(e.Topic) > maxTopicLength:
 		return errTopicTooLarge
 	}
-	id := message.ID(e.ID)
-	topic, _, err := db.parseTopic(e.Contract, e.Topic)
+	seq, err := parseID(e.ID)
 	if err != nil {
 		return err
 	}
 	if e.Contract == 0 {
 		e.Contract = message.MasterContract
 	}
-	topic.AddContract(e.Contract)
-
-	if err := db.delete(topic.GetHash(e.Contract), message.ID(id).Sequence()); err != nil {
+	topic, _, err := db.parseTopic(e.Contract, e.Topic)
+	if err != nil {
 		return err
 	}
+	topic.AddContract(e.Contract)
 
-	return nil
+	return db.delete(topic.GetHash(e.Contract), seq)
 }
 
 // Batch executes a function within the context of a read-write managed transaction.
@@ -432,12 +399,17 @@ func (db *DB) DeleteEntry(e *Entry) error {
 //
 // Attempting to manually commit or rollback within the function will cause a panic.
 func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
+	if err := db.ok(); err != nil {
+		return err
+	}
+
 	b := db.batch()
 
 	b.setManaged()
 
 	// If an error is returned from the function then rollback and return error.
 	if err := fn(b, b.commitComplete); err != nil {
+		b.unsetManaged()
 		b.Abort()
 		close(b.commitComplete)
 		return err
@@ -450,24 +422,12 @@ func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
 // Sync write window entries into summary file and write index, and data to respective index and data files.
 // In case of any error during sync operation recovery is performed on log file (write ahead log).
 func (db *DB) Sync() error {
-	// start := time.Now()
-	if ok := db.internal.syncHandle.status(); ok {
-		// sync is in-progress.
-		return nil
-	}
-
 	// Sync happens synchronously.
-	db.internal.syncLockC <- struct{}{}
-	defer func() {
-		<-db.internal.syncLockC
-	}()
-
-	if ok := db.internal.syncHandle.startSync(); !ok {
-		return nil
+	if err := db.lockSync(); err != nil {
+		return err
 	}
-	defer func() {
-		db.internal.syncHandle.finish()
-	}()
+	defer db.unlockSync()
+
 	return db.internal.syncHandle.Sync()
 }
 
diff --git a/db_internal.go b/db_internal.go
index 8b59f82..01cefcb 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -63,7 +63,7 @@ const (
 	maxKeys = math.MaxInt64
 
 	// maxSeq is the maximum number of seq supported.
-	maxSeq = math.MaxUint64
+	maxSeq = math.MaxInt32 * entriesPerIndexBlock
 )
 
 type (
@@ -96,6 +96,7 @@ type (
 		syncLockC  chan struct{}
 		syncWrites bool
 		syncHandle _SyncHandle
+		recount    bool // recount is set if count does not match entries in the index file.
 
 		// Close.
 		closeW sync.WaitGroup
@@ -135,23 +136,25 @@ func (db *DB) close() error {
 	db.internal.closeW.Wait()
 
 	// close memdb.
-	db.internal.mem.Close()
+	err := db.internal.mem.Close()
 
-	if err := db.writeInfo(); err != nil {
-		return err
+	if err1 := db.writeInfo(); err1 != nil {
+		err = err1
 	}
-	db.internal.freeList.defrag()
-	if err := db.internal.freeList.write(); err != nil {
-		return err
+	if !db.internal.recount {
+		// count is loaded on open if free blocks are not written.
+		db.internal.freeList.defrag()
+		if err1 := db.internal.freeList.write(); err1 != nil {
+			err = err1
+		}
 	}
-	if err := db.fs.close(); err != nil {
-		return err
+	if err1 := db.fs.close(); err1 != nil {
+		err = err1
 	}
-	if err := db.lock.unlock(); err != nil {
-		return err
+	if err1 := db.lock.unlock(); err1 != nil {
+		err = err1
 	}
 
-	var err error
 	if db.internal.closer != nil {
 		if err1 := db.internal.closer.Close(); err1 != nil {
 			err = err1
@@ -164,73 +167,171 @@ func (db *DB) close() error {
 	return err
 }
 
-// loadTopicHash loads topic and offset from window blocks on stored on disk.
+// loadTrie loads topic and offset of the most recent window block from window blocks stored on disk.
 func (db *DB) loadTrie() error {
+	type topicOffset struct {
+		topic  *message.Topic
+		offset int64
+	}
+	topics := make(map[uint64]*topicOffset)
 	r := newWindowReader(db.fs)
-	err := r.blockIterator(func(startSeq, topicHash uint64, off int64) (bool, error) {
-		e, err := db.internal.reader.readEntry(startSeq)
-		if err != nil {
-			return true, err
-		}
-		if e.topicSize == 0 {
-			return false, nil
+	err := r.blockIterator(func(b *_WinBlock, off int64) (bool, error) {
+		top, ok := topics[b.topicHash]
+		if !ok {
+			top = &topicOffset{}
+			topics[b.topicHash] = top
 		}
-		rawtopic, err := db.internal.reader.readTopic(e)
-		if err != nil {
-			return true, err
+		// window blocks of a topic are written in the order of offset.
+		top.offset = off
+		for i := 0; i < int(b.entryIdx) && top.topic == nil; i++ {
+			rawtopic, err := db.internal.reader.readRawTopic(b.entries[i].seq())
+			if err != nil {
+				return true, err
+			}
+			if len(rawtopic) == 0 {
+				continue
+			}
+			t := new(message.Topic)
+			if err := t.Unmarshal(rawtopic); err != nil {
+				return true, err
+			}
+			top.topic = t
 		}
-		t := new(message.Topic)
-		err = t.Unmarshal(rawtopic)
-		if err != nil {
-			return true, err
+		return false, nil
+	})
+	if err != nil {
+		return err
+	}
+	for h, top := range topics {
+		if top.topic == nil {
+			// entries are not yet written to the index file and those are recovered from the log.
+			continue
 		}
-		if ok := db.internal.trie.add(newTopic(topicHash, off), t.Parts, t.Depth); !ok {
+		if ok := db.internal.trie.add(newTopic(h, top.offset), top.topic.Parts, top.topic.Depth); !ok {
 			logger.Info().Str("context", "db.loadTrie: topic exist in the trie")
-			return false, nil
 		}
-		return false, nil
-	})
-	return err
+	}
+	return nil
 }
 
-func (db *DB) readEntry(q _Query) (_IndexEntry, error) {
-	data, _ := db.internal.mem.Get(q.seq)
-	if data != nil {
+// loadCount loads count of entries from the index file.
+func (db *DB) loadCount() error {
+	count, err := db.internal.reader.count()
+	if err != nil {
+		db.internal.recount = true
+		return err
+	}
+	db.internal.recount = false
+	atomic.StoreUint64(&db.internal.dbInfo.count, count)
+	return nil
+}
+
+// readMessage reads message for the query entry from memory or from the data file.
+func (db *DB) readMessage(q _Query) (id, val []byte, err error) {
+	if data, _ := db.internal.mem.Get(q.seq); len(data) >= entrySize {
 		var m _Entry
-		m.UnmarshalBinary(data[:entrySize])
-		e := _IndexEntry{
+		if err := m.UnmarshalBinary(data[:entrySize]); err != nil {
+			return nil, nil, err
+		}
+		return db.internal.reader.readMessage(_IndexEntry{
 			seq:       m.seq,
 			topicSize: m.topicSize,
 			valueSize: m.valueSize,
 
 			cache: data[entrySize:],
+		})
+	}
+
+	e, err := db.internal.reader.readEntry(q.seq)
+	if err != nil {
+		return nil, nil, err
+	}
+	id, val, err = db.internal.reader.readMessage(e)
+	// space of a message is not reused unless the message is deleted from the index.
+	if _, err1 := db.internal.reader.readEntry(q.seq); err1 != nil {
+		return nil, nil, err1
+	}
+	return id, val, err
+}
+
+// readPayload reads payload of the message for the query entry. It returns false if query does not match the message.
+func (db *DB) readPayload(q *Query, e _Query) (val []byte, ok bool, err error) {
+	id, val, err := db.readMessage(e)
+	if err != nil {
+		if err == errMsgIDDeleted || err == errEntryInvalid {
+			return nil, false, nil
 		}
-		return e, nil
+		logger.Error().Err(err).Str("context", "db.readMessage")
+		return nil, false, err
+	}
+	if !message.ID(id).EvalPrefix(q.Contract, q.internal.cutoff) {
+		return nil, false, nil
 	}
 
-	return db.internal.reader.readEntry(q.seq)
+	// last bit of ID is an encryption flag.
+	if id[idSize-1] != 0 {
+		val, err = db.internal.mac.Decrypt(nil, val)
+		if err != nil {
+			logger.Error().Err(err).Str("context", "mac.decrypt")
+			return nil, false, err
+		}
+	}
+	val, err = snappy.Decode(nil, val)
+	if err != nil {
+		logger.Error().Err(err).Str("context", "snappy.Decode")
+		return nil, false, err
+	}
+	return val, true, nil
 }
 
+// lookup gets entries of the topics matching the query in the reverse order of sequence. Lookup is limited
+// to the most recent entries of each topic, it returns true if there are more entries.
+//
 // lookups are performed in following order
 // ilookup lookups in memory entries from timeWindow
 // lookup lookups persisted entries from timeWindow file.
-func (db *DB) lookup(q *Query) error {
-	topics := db.internal.trie.lookup(q.internal.parts, q.internal.depth, q.internal.topicType)
-	sort.Slice(topics[:], func(i, j int) bool {
-		return topics[i].offset > topics[j].offset
+func (db *DB) lookup(q *Query, limit int) (entries []_Query, more bool, err error) {
+	minSeq := uint64(0) // entries older than minSeq are not entirely looked up.
+	for _, topic := range db.internal.trie.lookup(q.internal.parts, q.internal.depth, q.internal.topicType) {
+		topicHash := topic.hash
+		wEntries, ok, err := db.internal.timeWindow.lookup(db.fs, topicHash, func() int64 {
+			off, _ := db.internal.trie.getOffset(topicHash)
+			return off
+		}, q.internal.cutoff, limit)
+		if err != nil {
+			return nil, false, err
+		}
+		topicSeq := uint64(maxSeq)
+		for _, we := range wEntries {
+			entries = append(entries, _Query{topicHash: topicHash, seq: we.seq()})
+			if we.seq() < topicSeq {
+				topicSeq = we.seq()
+			}
+		}
+		if ok {
+			more = true
+			if topicSeq > minSeq {
+				minSeq = topicSeq
+			}
+		}
+	}
+	sort.Slice(entries[:], func(i, j int) bool {
+		return entries[i].seq > entries[j].seq
 	})
-	for _, topic := range topics {
-		if len(q.internal.winEntries) > q.Limit {
+	n := 0
+	for i, e := range entries {
+		if e.seq < minSeq {
 			break
 		}
-		limit := q.Limit - len(q.internal.winEntries)
-		wEntries := db.internal.timeWindow.lookup(db.fs, topic.hash, topic.offset, q.internal.cutoff, limit)
-		for _, we := range wEntries {
-			q.internal.winEntries = append(q.internal.winEntries, _Query{topicHash: topic.hash, seq: we.seq()})
+		// an entry may be found both in memory and in the window file.
+		if e.seq == 0 || i > 0 && e.seq == entries[i-1].seq {
+			continue
 		}
+		entries[n] = e
+		n++
 	}
 
-	return nil
+	return entries[:n], more, nil
 }
 
 func (db *DB) parseTopic(contract uint32, topic []byte) (*message.Topic, uint32, error) {
@@ -255,40 +356,39 @@ func (db *DB) setEntry(e *Entry) error {
 	var eBit uint8
 	var seq uint64
 	var rawTopic []byte
-	if !e.entry.parsed {
-		if e.Contract == 0 {
-			e.Contract = message.MasterContract
-		}
-		t, ttl, err := db.parseTopic(e.Contract, e.Topic)
-		if err != nil {
-			return err
-		}
-		if e.ExpiresAt == 0 && ttl > 0 {
-			e.ExpiresAt = ttl
-		}
-		t.AddContract(e.Contract)
-		e.entry.topicHash = t.GetHash(e.Contract)
-		// topic is packed if it is new topic entry
-		if _, ok := db.internal.trie.getOffset(e.entry.topicHash); !ok {
-			rawTopic = t.Marshal()
-			e.entry.topicSize = uint16(len(rawTopic))
-		}
-		e.entry.parsed = true
+	if e.Contract == 0 {
+		e.Contract = message.MasterContract
+	}
+	t, ttl, err := db.parseTopic(e.Contract, e.Topic)
+	if err != nil {
+		return err
+	}
+	t.AddContract(e.Contract)
+	e.entry.topicHash = t.GetHash(e.Contract)
+	// topic is packed until an entry for the topic is synced.
+	e.entry.topicSize = 0
+	if off, _ := db.internal.trie.getOffset(e.entry.topicHash); off == 0 {
+		rawTopic = t.Marshal()
+		e.entry.topicSize = uint16(len(rawTopic))
 	}
 	if e.ID != nil {
+		if seq, err = parseID(e.ID); err != nil {
+			return err
+		}
 		id = message.ID(e.ID)
-		seq = id.Sequence()
+		// ID of the entry is not generated again.
+		db.upperSeq(seq)
 	} else {
 		seq = db.nextSeq()
 		id = message.NewID(seq)
 	}
-	if seq == 0 {
-		panic("db.setEntry: seq is zero")
-	}
 
 	id.SetContract(e.Contract)
 	e.entry.seq = seq
 	e.entry.expiresAt = e.ExpiresAt
+	if e.entry.expiresAt == 0 {
+		e.entry.expiresAt = ttl
+	}
 	val := snappy.Encode(nil, e.Payload)
 	if db.internal.dbInfo.encryption == 1 || e.Encryption {
 		eBit = 1
@@ -312,36 +412,90 @@ func (db *DB) setEntry(e *Entry) error {
 	return nil
 }
 
-// delete deletes the given key from the DB.
-func (db *DB) delete(topicHash, seq uint64) error {
-	if db.opts.flags.immutable {
+// addTopic adds topic packed into the entry to the trie.
+func (db *DB) addTopic(e _Entry, data []byte) error {
+	if e.topicSize == 0 {
 		return nil
 	}
+	t := new(message.Topic)
+	if err := t.Unmarshal(data[entrySize+idSize : entrySize+idSize+int(e.topicSize)]); err != nil {
+		return err
+	}
+	db.internal.trie.add(newTopic(e.topicHash, 0), t.Parts, t.Depth)
+	return nil
+}
 
-	db.internal.meter.Dels.Inc(1)
-	db.internal.mem.Delete(seq)
+// parseID gets sequence of the ID.
+func parseID(id []byte) (uint64, error) {
+	if len(id) != len(message.NewID(0)) {
+		return 0, errBadRequest
+	}
+	seq := message.ID(id).Sequence()
+	if seq == 0 || seq > maxSeq {
+		return 0, errBadRequest
+	}
+	return seq, nil
+}
 
-	// Test filter block for the message id presence.
-	if !db.internal.filter.Test(seq) {
+// delete deletes the given key from the DB.
+func (db *DB) delete(topicHash, seq uint64) error {
+	if db.opts.flags.immutable {
 		return nil
 	}
 
-	w, err := newBlockWriter(db.fs, db.internal.freeList, nil)
-	if err != nil {
+	// delete from the files happens synchronously.
+	if err := db.lockSync(); err != nil {
 		return err
 	}
-	e, err := w.del(seq)
-	if err != nil {
+	defer db.unlockSync()
+
+	db.internal.meter.Dels.Inc(1)
+	if err := db.remove(topicHash, seq); err != nil {
 		return err
 	}
-	db.internal.freeList.freeBlock(e.msgOffset, e.mSize())
-	db.decount(1)
 	if db.internal.syncWrites {
 		return db.sync()
 	}
 	return nil
 }
 
+// remove removes entry from the index file, window and memory. Sync lock is held by the caller.
+func (db *DB) remove(topicHash, seq uint64) error {
+	if seq == 0 || seq > db.seq() {
+		return nil // no entry in db to delete
+	}
+
+	// Test filter block for the message id presence.
+	if db.internal.filter.Test(seq) {
+		w, err := newBlockWriter(db.fs, db.internal.freeList, nil)
+		if err != nil {
+			return err
+		}
+		e, ok, err := w.del(seq)
+		if err != nil {
+			return err
+		}
+		if ok {
+			off, size := e.msgOffset, e.mSize()
+			if e.topicSize != 0 {
+				// topic is kept.
+				off += idSize + int64(e.topicSize)
+				size = e.valueSize
+			}
+			db.internal.freeList.freeBlock(off, size)
+			db.decount(1)
+		}
+	}
+
+	if _, err := db.internal.mem.Get(seq); err == nil {
+		if err := db.internal.mem.Delete(seq); err != nil {
+			return err
+		}
+	}
+	db.internal.timeWindow.remove(topicHash, seq)
+	return nil
+}
+
 // batch starts a new batch.
 func (db *DB) batch() *Batch {
 	opts := &_Options{}
@@ -363,12 +517,30 @@ func (db *DB) nextSeq() uint64 {
 	return atomic.AddUint64(&db.internal.dbInfo.sequence, 1)
 }
 
+// upperSeq raises sequence so that seq is not generated again.
+func (db *DB) upperSeq(seq uint64) {
+	for {
+		curSeq := db.seq()
+		if seq <= curSeq || atomic.CompareAndSwapUint64(&db.internal.dbInfo.sequence, curSeq, seq) {
+			return
+		}
+	}
+}
+
 func (db *DB) incount(count uint64) uint64 {
 	return atomic.AddUint64(&db.internal.dbInfo.count, count)
 }
 
 func (db *DB) decount(count uint64) uint64 {
-	return atomic.AddUint64(&db.internal.dbInfo.count, -count)
+	for {
+		curCount := atomic.LoadUint64(&db.internal.dbInfo.count)
+		if count > curCount {
+			count = curCount
+		}
+		if atomic.CompareAndSwapUint64(&db.internal.dbInfo.count, curCount, curCount-count) {
+			return curCount - count
+		}
+	}
 }
 
 // setClosed flag; return true if not already closed.
diff --git a/db_sync.go b/db_sync.go
index f405db6..9affae3 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -17,20 +17,17 @@
 package unitdb
 
 import (
-	"errors"
-	"fmt"
 	"sort"
 	"time"
 
 	"github.com/unit-io/bpool"
+	"github.com/unit-io/unitdb/message"
 )
 
 type (
 	_SyncInfo struct {
-		lastSyncSeq    uint64
 		upperSeq       uint64
 		syncStatusOk   bool
-		syncComplete   bool
 		inBytes        int64
 		count          int64
 		entriesInvalid uint64
@@ -47,98 +44,87 @@ type (
 	}
 )
 
-func (db *_SyncHandle) startSync() bool {
-	if db.syncInfo.lastSyncSeq == db.seq() {
-		db.syncInfo.syncStatusOk = false
-		return db.syncInfo.syncStatusOk
-	}
+func (db *_SyncHandle) startSync() error {
+	db.syncInfo = _SyncInfo{}
 
-	db.rawWindow = db.internal.bufPool.Get()
-	db.rawBlock = db.internal.bufPool.Get()
+	rawWindow := db.internal.bufPool.Get()
+	rawBlock := db.internal.bufPool.Get()
 
 	var err error
-	db.windowWriter, err = newWindowWriter(db.fs, db.rawWindow)
-	if err != nil {
-		logger.Error().Err(err).Str("context", "startSync").Msg("Error syncing to db")
-		return false
+	if db.windowWriter, err = newWindowWriter(db.fs, rawWindow); err == nil {
+		db.blockWriter, err = newBlockWriter(db.fs, db.internal.freeList, rawBlock)
 	}
-	db.blockWriter, err = newBlockWriter(db.fs, db.internal.freeList, db.rawBlock)
 	if err != nil {
-		logger.Error().Err(err).Str("context", "startSync").Msg("Error syncing to db")
-		return false
+		db.internal.bufPool.Put(rawWindow)
+		db.internal.bufPool.Put(rawBlock)
+		return err
 	}
+	db.rawWindow = rawWindow
+	db.rawBlock = rawBlock
 	db.syncInfo.syncStatusOk = true
 
-	return db.syncInfo.syncStatusOk
+	return nil
 }
 
-func (db *_SyncHandle) finish() error {
+func (db *_SyncHandle) finish() {
 	if !db.syncInfo.syncStatusOk {
-		return nil
+		return
 	}
 
 	db.internal.bufPool.Put(db.rawWindow)
 	db.internal.bufPool.Put(db.rawBlock)
 
 	db.syncInfo.syncStatusOk = false
-	return nil
-}
-
-func (db *_SyncHandle) status() (ok bool) {
-	return db.syncInfo.syncStatusOk
-}
-
-func (db *_SyncHandle) reset() error {
-	db.syncInfo.lastSyncSeq = db.syncInfo.upperSeq
-	db.syncInfo.count = 0
-	db.syncInfo.inBytes = 0
-	db.syncInfo.upperSeq = 0
-
-	if err := db.windowWriter.reset(); err != nil {
-		return err
-	}
-	if err := db.blockWriter.reset(); err != nil {
-		return err
-	}
-
-	return nil
 }
 
-func (db *_SyncHandle) abort() error {
-	defer db.reset()
-	if db.syncInfo.syncComplete {
-		return nil
+// abort rolls back a failed sync. Entries are in the log and are written again on next sync.
+func (db *_SyncHandle) abort() {
+	if db.blockWriter.indexed {
+		// some of the entries are already in the index file.
+		db.internal.recount = true
 	}
-	// Rollback.
 	if err := db.windowWriter.abort(); err != nil {
-		return err
+		logger.Error().Err(err).Str("context", "windowWriter.abort")
 	}
-
 	if err := db.blockWriter.abort(); err != nil {
-		return err
+		logger.Error().Err(err).Str("context", "blockWriter.abort")
 	}
+}
 
-	db.decount(uint64(db.syncInfo.count))
-
+// lockSync acquires sync lock, sync, expiry and delete from the files happens synchronously.
+func (db *DB) lockSync() error {
+	select {
+	case <-db.internal.closeC:
+		return errClosed
+	case db.internal.syncLockC <- struct{}{}:
+	}
+	if db.isClosed() {
+		<-db.internal.syncLockC
+		return errClosed
+	}
 	return nil
 }
 
+func (db *DB) unlockSync() {
+	<-db.internal.syncLockC
+}
+
 func (db *DB) startSyncer(interval time.Duration) {
 	db.internal.closeW.Add(1)
-	defer db.internal.closeW.Done()
 	syncTicker := time.NewTicker(interval)
 	go func() {
 		defer func() {
 			syncTicker.Stop()
+			db.internal.closeW.Done()
 		}()
 		for {
 			select {
 			case <-db.internal.closeC:
 				return
 			case <-syncTicker.C:
-				if err := db.Sync(); err != nil {
+				// entries are in the log, sync is tried again on next tick.
+				if err := db.Sync(); err != nil && err != errClosed {
 					logger.Error().Err(err).Str("context", "startSyncer").Msg("Error syncing to db")
-					panic(err)
 				}
 			}
 		}
@@ -146,14 +132,20 @@ func (db *DB) startSyncer(interval time.Duration) {
 }
 
 func (db *DB) startExpirer(durType time.Duration, maxDur int) {
+	db.internal.closeW.Add(1)
 	expirerTicker := time.NewTicker(durType * time.Duration(maxDur))
 	go func() {
+		defer func() {
+			expirerTicker.Stop()
+			db.internal.closeW.Done()
+		}()
 		for {
 			select {
 			case <-expirerTicker.C:
-				db.expireEntries()
+				if err := db.expireEntries(); err != nil && err != errClosed {
+					logger.Error().Err(err).Str("context", "startExpirer").Msg("Error expiring entries")
+				}
 			case <-db.internal.closeC:
-				expirerTicker.Stop()
 				return
 			}
 		}
@@ -165,20 +157,10 @@ func (db *DB) sync() error {
 	if err := db.writeInfo(); err != nil {
 		return err
 	}
-	if err := db.fs.sync(); err != nil {
-		return nil
-	}
-
-	return nil
+	return db.fs.sync()
 }
 
 func (db *_SyncHandle) sync(recovery bool) error {
-	if db.syncInfo.upperSeq == 0 {
-		return nil
-	}
-	db.syncInfo.syncComplete = false
-	defer db.abort()
-
 	if _, err := db.blockWriter.extend(db.syncInfo.upperSeq); err != nil {
 		logger.Error().Err(err).Str("context", "db.extendBlocks")
 		return err
@@ -193,6 +175,11 @@ func (db *_SyncHandle) sync(recovery bool) error {
 	}
 
 	db.incount(uint64(db.syncInfo.count))
+	if db.internal.recount {
+		if err := db.loadCount(); err != nil {
+			return err
+		}
+	}
 	if err := db.DB.sync(); err != nil {
 		return err
 	}
@@ -202,7 +189,6 @@ func (db *_SyncHandle) sync(recovery bool) error {
 	db.internal.meter.Syncs.Inc(db.syncInfo.count)
 	db.internal.meter.InMsgs.Inc(db.syncInfo.count)
 	db.internal.meter.InBytes.Inc(db.syncInfo.inBytes)
-	db.syncInfo.syncComplete = true
 	return nil
 }
 
@@ -210,31 +196,45 @@ func (db *_SyncHandle) sync(recovery bool) error {
 // Sync write window entries into summary file and write index, and data to respective index and data files.
 // In case of any error during sync operation recovery is performed on log file (write ahead log).
 func (db *_SyncHandle) Sync() error {
+	return db.syncBlocks(db.internal.mem.BlockIterator, false)
+}
+
+// syncBlocks syncs time blocks into DB. Window entries of a topic are written in the order of sequence
+// and time blocks are released once all entries are written to the DB.
+func (db *_SyncHandle) syncBlocks(blockIterator func(func(timeID int64, seqs []uint64) (bool, error)) error, recovery bool) error {
 	// // CPU profiling by default
 	// defer profile.Start().Stop()
-	var err1 error
-	timeRelease := db.internal.timeWindow.release()
-	err := db.internal.mem.BlockIterator(func(timeID int64, seqs []uint64) (bool, error) {
-		winEntries := make(map[uint64]_WindowEntries)
+	if err := db.startSync(); err != nil {
+		return err
+	}
+	defer db.finish()
+
+	var timeIDs []int64
+	var delSeqs []uint64
+	winEntries := make(map[uint64]_WindowEntries)
+	err := blockIterator(func(timeID int64, seqs []uint64) (bool, error) {
 		sort.Slice(seqs[:], func(i, j int) bool {
 			return seqs[i] < seqs[j]
 		})
-		if seqs[len(seqs)-1] > db.syncInfo.upperSeq {
-			db.syncInfo.upperSeq = seqs[len(seqs)-1]
-		}
 		for _, seq := range seqs {
 			memdata, err := db.internal.mem.Lookup(timeID, seq)
-			if err != nil || memdata == nil {
+			if err != nil {
+				return true, err
+			}
+			if len(memdata) < entrySize {
 				db.syncInfo.entriesInvalid++
-				logger.Error().Err(err).Str("context", "mem.Get")
-				err1 = err
+				continue
+			}
+			if seq > db.syncInfo.upperSeq {
+				db.syncInfo.upperSeq = seq
+			}
+			if dels := unpackDeletes(memdata); dels != nil {
+				delSeqs = append(delSeqs, dels...)
 				continue
 			}
 			var m _Entry
 			if err = m.UnmarshalBinary(memdata[:entrySize]); err != nil {
-				db.syncInfo.entriesInvalid++
-				err1 = err
-				continue
+				return true, err
 			}
 			e := _IndexEntry{
 				seq:       m.seq,
@@ -243,85 +243,95 @@ func (db *_SyncHandle) Sync() error {
 
 				cache: memdata[entrySize:],
 			}
-			if err := db.blockWriter.append(e); err != nil {
-				if err == errEntryExist {
-					continue
+			if recovery && m.topicSize != 0 {
+				rawtopic, err := db.internal.reader.readTopic(e)
+				if err != nil {
+					return true, err
 				}
-				return true, err
-			}
-
-			we := newWinEntry(seq, m.expiresAt)
-			if _, ok := winEntries[m.topicHash]; ok {
-				winEntries[m.topicHash] = append(winEntries[m.topicHash], we)
-			} else {
-				winEntries[m.topicHash] = _WindowEntries{we}
-			}
-
-			db.internal.filter.Append(we.seq())
-			db.syncInfo.count++
-			db.syncInfo.inBytes += int64(e.valueSize)
-		}
-		for h := range winEntries {
-			topicOff, ok := db.internal.trie.getOffset(h)
-			if !ok {
-				return true, errors.New("db.Sync: timeWindow sync error: unable to get topic offset from trie")
-			}
-			wOff, err := db.windowWriter.append(h, topicOff, winEntries[h])
-			if err != nil {
-				return true, err
-			}
-			if ok := db.internal.trie.setOffset(_Topic{hash: h, offset: wOff}); !ok {
-				return true, errors.New("db:Sync: timeWindow sync error: unable to set topic offset in trie")
-			}
-		}
-		if err1 != nil {
-			fmt.Println("db.sync: error ", err1)
-			return true, err1
-		}
-
-		if err := db.sync(false); err != nil {
-			fmt.Println("db.sync: sync error ", err)
-			return true, err
-		}
-		if db.syncInfo.syncComplete {
-			if err := timeRelease(timeID); err != nil {
-				return false, err
+				t := new(message.Topic)
+				if err := t.Unmarshal(rawtopic); err != nil {
+					return true, err
+				}
+				db.internal.trie.add(newTopic(m.topicHash, 0), t.Parts, t.Depth)
 			}
-			if err := db.internal.mem.Free(timeID); err != nil {
+			switch err := db.blockWriter.append(e); err {
+			case nil:
+				db.syncInfo.count++
+				db.syncInfo.inBytes += int64(e.valueSize)
+			case errEntryExist:
+				// entry is written by a sync that was not completed.
+			case errMsgIDDeleted:
+				continue
+			default:
 				return true, err
 			}
+			winEntries[m.topicHash] = append(winEntries[m.topicHash], newWinEntry(m.seq, m.expiresAt))
+			db.internal.filter.Append(m.seq)
 		}
+		timeIDs = append(timeIDs, timeID)
 
 		return false, nil
 	})
-	if err != nil || err1 != nil {
-		db.syncInfo.syncComplete = false
+	if err != nil {
+		db.abort()
+		return err
+	}
+	if len(timeIDs) == 0 && !db.internal.recount {
+		return nil
+	}
+
+	offsets := make(map[uint64]int64, len(winEntries))
+	for h, wEntries := range winEntries {
+		sort.Slice(wEntries[:], func(i, j int) bool {
+			return wEntries[i].seq() < wEntries[j].seq()
+		})
+		topicOff, _ := db.internal.trie.getOffset(h)
+		if offsets[h], err = db.windowWriter.append(h, topicOff, wEntries); err != nil {
+			db.abort()
+			return err
+		}
+	}
+	if recovery {
+		db.upperSeq(db.syncInfo.upperSeq)
+	}
+	if err := db.sync(recovery); err != nil {
 		db.abort()
+		return err
+	}
+	for h, off := range offsets {
+		db.internal.trie.setOffset(newTopic(h, off))
+	}
+	for _, seq := range delSeqs {
+		if err := db.remove(0, seq); err != nil {
+			return err
+		}
+	}
+
+	// entries are synced, release time blocks.
+	timeRelease := db.internal.timeWindow.release()
+	for _, timeID := range timeIDs {
+		timeRelease(timeID)
+		if err := db.internal.mem.Free(timeID); err != nil {
+			return err
+		}
 	}
 
-	return db.sync(false)
+	return nil
 }
 
 // expireEntries run expirer to delete entries from db if ttl was set on entries and that has expired.
 func (db *DB) expireEntries() error {
-	// sync happens synchronously.
-	db.internal.syncLockC <- struct{}{}
-	defer func() {
-		<-db.internal.syncLockC
-	}()
+	// expiry happens synchronously.
+	if err := db.lockSync(); err != nil {
+		return err
+	}
+	defer db.unlockSync()
 	expiredEntries := db.internal.timeWindow.expiryWindowBucket.getExpiredEntries(db.opts.queryOptions.defaultQueryLimit)
 	for _, expiredEntry := range expiredEntries {
-		we := expiredEntry.(_WinEntry)
-		/// Test filter block if message hash presence.
-		if !db.internal.filter.Test(we.seq()) {
-			continue
-		}
-		e, err := db.internal.reader.readEntry(we.seq())
-		if err != nil {
+		e := expiredEntry.(_ExpiryEntry)
+		if err := db.remove(e.topicHash, e.seq()); err != nil {
 			return err
 		}
-		db.internal.freeList.freeBlock(e.msgOffset, e.mSize())
-		db.decount(1)
 	}
 
 	return nil
diff --git a/entry.go b/entry.go
index 9526af4..6e78a35 100644
--- a/entry.go
+++ b/entry.go
@@ -34,7 +34,6 @@ type (
 		valueSize uint32
 		expiresAt uint32 // expiresAt for recovery from log and not persisted to index file but persisted to the time window file.
 
-		parsed    bool
 		topicHash uint64 // topicHash for recovery from log and not persisted to the DB.
 		cache     []byte // entry from memdb if it exist.
 	}
diff --git a/expiry_window.go b/expiry_window.go
index f67b746..57c9b5d 100644
--- a/expiry_window.go
+++ b/expiry_window.go
@@ -17,7 +17,6 @@
 package unitdb
 
 import (
-	"sort"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -32,6 +31,12 @@ type (
 		expiryTime() uint32
 	}
 
+	// _ExpiryEntry is an expired window entry of a topic.
+	_ExpiryEntry struct {
+		_WinEntry
+		topicHash uint64
+	}
+
 	_ExpiryWindow struct {
 		windows map[int64]_ExpiryWindowEntries // map[expiryHash]windowEntries.
 
@@ -93,35 +98,35 @@ func (wb *_ExpiryWindowBucket) getExpiredEntries(maxResults int) []timeWindowEnt
 		return expiredEntries
 	}
 
-	for i := 0; i < wb.maxExpDurations; i++ {
-		// get windows shard.
-		ws := wb.expiryWindows.expiry[i]
-		ws.mu.Lock()
-		defer ws.mu.Unlock()
-		windowTimes := make([]int64, 0, len(ws.windows))
-		for windowTime := range ws.windows {
-			windowTimes = append(windowTimes, windowTime)
+	for _, ws := range wb.expiryWindows.expiry {
+		if len(expiredEntries) > maxResults {
+			break
 		}
-		sort.Slice(windowTimes[:], func(i, j int) bool { return windowTimes[i] < windowTimes[j] })
-		for i := 0; i < len(windowTimes); i++ {
-			if windowTimes[i] > int64(startTime) || len(expiredEntries) > maxResults {
-				break
-			}
-			windowEntries := ws.windows[windowTimes[i]]
-			expiredEntriesCount := 0
-			for i := range windowEntries {
-				entry := windowEntries[i]
-				if entry.expiryTime() < startTime {
-					expiredEntries = append(expiredEntries, entry)
-					expiredEntriesCount++
-				}
-			}
-			if expiredEntriesCount == len(windowEntries) {
-				delete(ws.windows, windowTimes[i])
+		expiredEntries = append(expiredEntries, ws.getExpiredEntries(startTime)...)
+	}
+	atomic.StoreInt64(&wb.earliestExpiryHash, 0)
+	return expiredEntries
+}
+
+// getExpiredEntries removes expired entries from the window and returns those.
+func (ws *_ExpiryWindow) getExpiredEntries(startTime uint32) (expiredEntries []timeWindowEntry) {
+	ws.mu.Lock()
+	defer ws.mu.Unlock()
+	for windowTime, windowEntries := range ws.windows {
+		var entries _ExpiryWindowEntries
+		for _, entry := range windowEntries {
+			if entry.expiryTime() > startTime {
+				entries = append(entries, entry)
+				continue
 			}
+			expiredEntries = append(expiredEntries, entry)
+		}
+		if len(entries) == 0 {
+			delete(ws.windows, windowTime)
+			continue
 		}
+		ws.windows[windowTime] = entries
 	}
-	atomic.StoreInt64(&wb.earliestExpiryHash, 0)
 	return expiredEntries
 }
 
diff --git a/query.go b/query.go
index c6b2d96..f06d456 100644
--- a/query.go
+++ b/query.go
@@ -29,12 +29,11 @@ type (
 		seq       uint64
 	}
 	_InternalQuery struct {
-		parts      []message.Part // The parts represents a topic which contains a contract and a list of hashes for various parts of the topic.
-		depth      uint8
-		topicType  uint8
-		prefix     uint64 // The prefix is generated from contract and first of the topic.
-		cutoff     int64  // The cutoff is time limit check on message IDs.
-		winEntries []_Query
+		parts     []message.Part // The parts represents a topic which contains a contract and a list of hashes for various parts of the topic.
+		depth     uint8
+		topicType uint8
+		prefix    uint64 // The prefix is generated from contract and first of the topic.
+		cutoff    int64  // The cutoff is time limit check on message IDs.
 
 		opts *_QueryOptions
 	}
@@ -77,12 +76,6 @@ func (q *Query) WithLast(dur string) *Query {
 	}
 	// In case of last, include it to the query.
 	q.internal.cutoff = base.Add(-duration).Unix()
-	switch {
-	case (q.Limit == 0):
-		q.Limit = q.internal.opts.defaultQueryLimit
-	case q.Limit > q.internal.opts.maxQueryLimit:
-		q.Limit = q.internal.opts.maxQueryLimit
-	}
 
 	return q
 }
@@ -107,17 +100,15 @@ func (q *Query) parse() error {
 	// In case of last, include it to the query.
 	if from, limit, ok := topic.Last(); ok {
 		q.internal.cutoff = from.Unix()
-		switch {
-		case (q.Limit == 0 && limit == 0):
-			q.Limit = q.internal.opts.defaultQueryLimit
-		case q.Limit > q.internal.opts.maxQueryLimit || limit > q.internal.opts.maxQueryLimit:
-			q.Limit = q.internal.opts.maxQueryLimit
-		case limit > q.Limit:
+		if limit > q.Limit {
 			q.Limit = limit
 		}
 	}
-	if q.Limit == 0 {
+	if q.Limit <= 0 {
 		q.Limit = q.internal.opts.defaultQueryLimit
 	}
+	if q.Limit > q.internal.opts.maxQueryLimit {
+		q.Limit = q.internal.opts.maxQueryLimit
+	}
 	return nil
 }
diff --git a/recovery.go b/recovery.go
index 1da08d5..1d7663c 100644
--- a/recovery.go
+++ b/recovery.go
@@ -16,163 +16,14 @@
 
 package unitdb
 
-import (
-	"errors"
-	"fmt"
-	"sort"
-
-	"github.com/unit-io/unitdb/message"
-	// _ "net/http/pprof"
-)
-
-func (db *_SyncHandle) recoverWindowBlocks(windowEntries map[uint64]_WindowEntries) error {
-	for h, wEntries := range windowEntries {
-		topicOff, ok := db.internal.trie.getOffset(h)
-		if !ok {
-			return fmt.Errorf("recovery.recoverWindowBlocks: timeWindow sync error, unable to get topic offset from trie %d", h)
-		}
-		wOff, err := db.windowWriter.append(h, topicOff, wEntries)
-		if err != nil {
-			return err
-		}
-		if ok := db.internal.trie.setOffset(_Topic{hash: h, offset: wOff}); !ok {
-			return errors.New("recovery.recoverWindowBlocks: timeWindow sync error, unable to set topic offset in trie")
-		}
-	}
-	return nil
-}
-
-func (db *_SyncHandle) startRecovery() error {
-	// p := profile.Start(profile.MemProfile, profile.ProfilePath("."), profile.NoShutdownHook)
-	// defer p.Stop()
-	db.internal.closeW.Add(1)
-	defer func() {
-		db.internal.closeW.Done()
-	}()
-	fmt.Println("db.recoverLog: start recovery")
-	if ok := db.startSync(); !ok {
-		return nil
-	}
-	defer func() {
-		db.finish()
-	}()
-
-	var err1 error
-	pendingEntries := make(map[uint64]_WindowEntries)
-
-	err := db.internal.mem.All(func(timeID int64, seqs []uint64) (bool, error) {
-		winEntries := make(map[uint64]_WindowEntries)
-		sort.Slice(seqs[:], func(i, j int) bool {
-			return seqs[i] < seqs[j]
-		})
-		if seqs[len(seqs)-1] > db.syncInfo.upperSeq {
-			db.syncInfo.upperSeq = seqs[len(seqs)-1]
-		}
-		for _, seq := range seqs {
-			memdata, err := db.internal.mem.Lookup(timeID, seq)
-			if err != nil || memdata == nil {
-				db.syncInfo.entriesInvalid++
-				logger.Error().Err(err).Str("context", "mem.Get")
-				err1 = err
-				continue
-			}
-			var m _Entry
-			if err = m.UnmarshalBinary(memdata[:entrySize]); err != nil {
-				db.syncInfo.entriesInvalid++
-				err1 = err
-				continue
-			}
-			e := _IndexEntry{
-				seq:       m.seq,
-				topicSize: m.topicSize,
-				valueSize: m.valueSize,
-
-				cache: memdata[entrySize:],
-			}
-			if err := db.blockWriter.append(e); err != nil {
-				if err == errEntryExist {
-					continue
-				}
-				return true, err
-			}
-			if m.topicSize != 0 {
-				rawtopic, _ := db.internal.reader.readTopic(e)
-
-				t := new(message.Topic)
-				if err := t.Unmarshal(rawtopic); err != nil {
-					return false, err
-				}
-				db.internal.trie.add(newTopic(m.topicHash, 0), t.Parts, t.Depth)
-			}
-			if _, ok := winEntries[m.topicHash]; ok {
-				winEntries[m.topicHash] = append(winEntries[m.topicHash], newWinEntry(e.seq, m.expiresAt))
-			} else {
-				winEntries[m.topicHash] = _WindowEntries{newWinEntry(m.seq, m.expiresAt)}
-			}
-			db.internal.filter.Append(e.seq)
-			db.syncInfo.count++
-			db.syncInfo.inBytes += int64(e.valueSize)
-		}
-		if err1 != nil {
-			return true, err1
-		}
-
-		for h := range winEntries {
-			_, ok := db.internal.trie.getOffset(h)
-			if !ok {
-				if _, ok := pendingEntries[h]; ok {
-					pendingEntries[h] = append(pendingEntries[h], winEntries[h]...)
-				} else {
-					pendingEntries[h] = winEntries[h]
-				}
-				delete(winEntries, h)
-			}
-		}
-		if err := db.recoverWindowBlocks(winEntries); err != nil {
-			logger.Error().Err(err).Str("context", "db.recoverWindowBlocks")
-			return true, err
-		}
-		// timeRelease := db.internal.timeWindow.release()
-		if err := db.sync(true); err != nil {
-			return true, err
-		}
-		if db.syncInfo.syncComplete {
-			// if err := timeRelease(timeID); err != nil {
-			// 	return false, err
-			// }
-			if err := db.internal.mem.Free(timeID); err != nil {
-				return true, err
-			}
-		}
-
-		return false, nil
-	})
-
-	if err != nil || err1 != nil {
-		db.syncInfo.syncComplete = false
-		db.abort()
-		return err1
-	}
-
-	if err := db.recoverWindowBlocks(pendingEntries); err != nil {
-		logger.Error().Err(err).Str("context", "db.recoverWindowBlocks")
-		return err
-	}
-
-	return db.sync(true)
-}
-
+// recoverLog syncs all entries recovered from the log.
 func (db *DB) recoverLog() error {
 	// Sync happens synchronously.
-	db.internal.syncLockC <- struct{}{}
-	defer func() {
-		<-db.internal.syncLockC
-	}()
-
-	syncHandle := _SyncHandle{DB: db}
-	if err := syncHandle.startRecovery(); err != nil {
+	if err := db.lockSync(); err != nil {
 		return err
 	}
+	defer db.unlockSync()
 
-	return nil
+	syncHandle := _SyncHandle{DB: db}
+	return syncHandle.syncBlocks(db.internal.mem.All, true)
 }
diff --git a/time_window.go b/time_window.go
index aee731b..4c5db84 100644
--- a/time_window.go
+++ b/time_window.go
@@ -185,148 +185,113 @@ func (tw *_TimeWindowBucket) add(timeID int64, topicHash uint64, e _WinEntry) (o
 	}
 	return true
 }
-func (tw *_TimeWindowBucket) release() func(timeID int64) error {
+
+// remove removes window entry of a topic.
+func (tw *_TimeWindowBucket) remove(topicHash, seq uint64) {
+	b := tw.windowBlocks.getWindowBlock(topicHash)
+	b.mu.Lock()
+	defer b.mu.Unlock()
+	for key, wEntries := range b.entries {
+		if key.topicHash != topicHash {
+			continue
+		}
+		for i, we := range wEntries {
+			if we.seq() != seq {
+				continue
+			}
+			if len(wEntries) == 1 {
+				delete(b.entries, key)
+			} else {
+				b.entries[key] = append(wEntries[:i], wEntries[i+1:]...)
+			}
+			break
+		}
+	}
+}
+
+// release gets function to release window entries of a time block.
+func (tw *_TimeWindowBucket) release() func(timeID int64) {
 	releasedKeys := make(map[int64][]_Key)
 	for i := 0; i < nShards; i++ {
 		wb := tw.windowBlocks.window[i]
 		wb.mu.RLock()
 		for k := range wb.entries {
-			if _, ok := releasedKeys[k.timeID]; ok {
-				releasedKeys[k.timeID] = append(releasedKeys[k.timeID], k)
-			} else {
-				releasedKeys[k.timeID] = []_Key{k}
-			}
+			releasedKeys[k.timeID] = append(releasedKeys[k.timeID], k)
 		}
 		wb.mu.RUnlock()
 	}
 
-	return func(timeID int64) error {
-		keys, ok := releasedKeys[timeID]
-		if !ok {
-			return errBadRequest
-		}
-		for _, k := range keys {
+	return func(timeID int64) {
+		for _, k := range releasedKeys[timeID] {
 			b := tw.windowBlocks.getWindowBlock(k.topicHash)
 			b.mu.Lock()
 			delete(b.entries, k)
 			b.mu.Unlock()
 		}
+	}
+}
 
-		return nil
+// unexpired appends window entries which are not expired.
+func (tw *_TimeWindowBucket) unexpired(topicHash uint64, winEntries, wEntries _WindowEntries) _WindowEntries {
+	for _, we := range wEntries {
+		if we.isExpired() {
+			if err := tw.expiryWindowBucket.addExpiry(_ExpiryEntry{_WinEntry: we, topicHash: topicHash}); err != nil {
+				logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
+			}
+			// if id is expired it does not return an error but continue the iteration.
+			continue
+		}
+		winEntries = append(winEntries, we)
 	}
+	return winEntries
 }
 
 // ilookup lookups window entries from timeWindowBucket and not yet sync to DB.
-func (tw *_TimeWindowBucket) ilookup(topicHash uint64, limit int) (winEntries _WindowEntries) {
-	winEntries = make([]_WinEntry, 0)
+func (tw *_TimeWindowBucket) ilookup(topicHash uint64) (winEntries _WindowEntries) {
 	// get windowBlock shard.
 	b := tw.windowBlocks.getWindowBlock(topicHash)
 	b.mu.RLock()
 	defer b.mu.RUnlock()
-	var l int
-	var expiryCount int
 
-	for key := range b.entries {
-		if key.topicHash != topicHash {
-			continue
-		}
-		wEntries := b.entries[key]
-		if len(wEntries) > 0 {
-			l = limit + expiryCount - l
-			if len(wEntries) < l {
-				l = len(wEntries)
-			}
-			for i := len(wEntries) - 1; i >= len(wEntries)-l; i-- {
-				we := wEntries[i]
-				if we.isExpired() {
-					if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
-						expiryCount++
-						logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
-					}
-					// if id is expired it does not return an error but continue the iteration.
-					continue
-				}
-				winEntries = append(winEntries, we)
-			}
+	for key, wEntries := range b.entries {
+		if key.topicHash == topicHash {
+			winEntries = tw.unexpired(topicHash, winEntries, wEntries)
 		}
 	}
 	return winEntries
 }
 
-// lookup lookups window entries from window file.
-func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, off, cutoff int64, limit int) (winEntries _WindowEntries) {
-	winEntries = make([]_WinEntry, 0)
-	winEntries = tw.ilookup(topicHash, limit)
-	if len(winEntries) >= limit {
-		return winEntries
-	}
+// lookup lookups window entries from timeWindowBucket and then from window file until limit is reached.
+// It returns true if there are more entries in the window file.
+//
+// Window offset is read after the lookup from timeWindowBucket so that
+// entries are found when those are synced to the DB during lookup.
+func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, winOffset func() int64, cutoff int64, limit int) (winEntries _WindowEntries, more bool, err error) {
+	winEntries = tw.ilookup(topicHash)
 	winFile, err := fs.getFile(_FileDesc{fileType: typeTimeWindow})
 	if err != nil {
-		return winEntries
-	}
-	next := func(blockOff int64, f func(_WinBlock) (bool, error)) error {
-		for {
-			r := _WindowReader{winFile: winFile, offset: blockOff}
-			b, err := r.readWindowBlock()
-			if err != nil {
-				return err
-			}
-			if stop, err := f(b); stop || err != nil {
-				return err
-			}
-			if b.next == 0 {
-				return nil
-			}
-			blockOff = b.next
-		}
+		return winEntries, false, err
 	}
-	expiryCount := 0
-	err = next(off, func(curb _WinBlock) (bool, error) {
-		b := &curb
-		if b.topicHash != topicHash {
-			return true, nil
+	for off := winOffset(); off != 0; {
+		if len(winEntries) >= limit {
+			return winEntries, true, nil
 		}
-		if len(winEntries) > limit-int(b.entryIdx) {
-			limit = limit - len(winEntries)
-			for i := len(b.entries[:b.entryIdx]) - 1; i >= len(b.entries[:b.entryIdx])-limit; i-- {
-				we := b.entries[i]
-				if we.isExpired() {
-					if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
-						expiryCount++
-						logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
-					}
-					// if id is expired it does not return an error but continue the iteration.
-					continue
-				}
-				winEntries = append(winEntries, we)
-			}
-			if len(winEntries) >= limit {
-				return true, nil
-			}
+		r := _WindowReader{winFile: winFile, offset: off}
+		b, err := r.readWindowBlock()
+		if err != nil {
+			return winEntries, false, err
 		}
-		for i := len(b.entries[:b.entryIdx]) - 1; i >= 0; i-- {
-			we := b.entries[i]
-			if we.isExpired() {
-				if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
-					expiryCount++
-					logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
-				}
-				// if id is expired it does not return an error but continue the iteration.
-				continue
-			}
-			winEntries = append(winEntries, we)
-
+		if b.topicHash != topicHash {
+			break
 		}
+		winEntries = tw.unexpired(topicHash, winEntries, b.entries[:b.entryIdx])
 		if b.cutoff(cutoff) {
-			return true, nil
+			break
 		}
-		return false, nil
-	})
-	if err != nil {
-		return winEntries
+		off = b.next
 	}
 
-	return winEntries
+	return winEntries, false, nil
 }
 
 func (b _WinBlock) validation(topicHash uint64) error {
diff --git a/time_window_reader.go b/time_window_reader.go
index cfe3ca2..0bea140 100644
--- a/time_window_reader.go
+++ b/time_window_reader.go
@@ -55,10 +55,8 @@ func (r *_WindowReader) readWindowBlock() (_WinBlock, error) {
 }
 
 // blockIterator iterates all window blocks from disk.
-func (r *_WindowReader) blockIterator(f func(startSeq, topicHash uint64, off int64) (bool, error)) (err error) {
-	windowIdx := int32(0)
-	nBlocks := r.windowIdx
-	for windowIdx <= nBlocks {
+func (r *_WindowReader) blockIterator(f func(b *_WinBlock, off int64) (bool, error)) (err error) {
+	for windowIdx := int32(0); windowIdx <= r.windowIdx; windowIdx++ {
 		r.offset = winBlockOffset(windowIdx)
 		b, err := r.readWindowBlock()
 		if err != nil {
@@ -67,12 +65,10 @@ func (r *_WindowReader) blockIterator(f func(startSeq, topicHash uint64, off int
 			}
 			return err
 		}
-		windowIdx++
-		if b.entryIdx == 0 || b.next != 0 {
+		if b.entryIdx == 0 {
 			continue
 		}
-		// fmt.Println("timeWindow.blockIterator: topicHash, seq ", b.topicHash, b.entries[0].sequence)
-		if stop, err := f(b.entries[0].sequence, b.topicHash, r.offset); stop || err != nil {
+		if stop, err := f(&b, r.offset); stop || err != nil {
 			return err
 		}
 	}
diff --git a/time_window_writer.go b/time_window_writer.go
index 9b70591..63b9ff5 100644
--- a/time_window_writer.go
+++ b/time_window_writer.go
@@ -26,7 +26,6 @@ import (
 type _WindowWriter struct {
 	windowIdx int32
 	winBlocks map[int32]_WinBlock // map[windowIdx]winBlock
-	winLeases map[int32][]uint64  // map[blockIdx][]seq
 
 	fs      *_FileSet
 	buffer  *bpool.Buffer
@@ -36,7 +35,7 @@ type _WindowWriter struct {
 
 func newWindowWriter(fs *_FileSet, buf *bpool.Buffer) (*_WindowWriter, error) {
 	// window block at offset 0 is not used as zero offset indicates a new topic and also end of the linked window blocks.
-	w := &_WindowWriter{windowIdx: 0, winBlocks: make(map[int32]_WinBlock), winLeases: make(map[int32][]uint64), fs: fs, buffer: buf}
+	w := &_WindowWriter{windowIdx: 0, winBlocks: make(map[int32]_WinBlock), fs: fs, buffer: buf}
 	winFile, err := fs.getFile(_FileDesc{fileType: typeTimeWindow})
 	if err != nil {
 		return nil, err
@@ -50,36 +49,6 @@ func newWindowWriter(fs *_FileSet, buf *bpool.Buffer) (*_WindowWriter, error) {
 	return w, nil
 }
 
-func (w *_WindowWriter) del(seq uint64, winIdx int32) error {
-	r := _WindowReader{winFile: w.winFile, offset: winBlockOffset(winIdx)}
-	b, err := r.readWindowBlock()
-	if err != nil {
-		return err
-	}
-	entryIdx := -1
-	for i := 0; i < int(b.entryIdx); i++ {
-		e := b.entries[i]
-		if e.sequence == seq { //record exist in db.
-			entryIdx = i
-			break
-		}
-	}
-	if entryIdx == -1 {
-		return nil // no entry in db to delete.
-	}
-	b.dirty = true
-	b.entryIdx--
-
-	i := entryIdx
-	for ; i < entriesPerWindowBlock-1; i++ {
-		b.entries[i] = b.entries[i+1]
-	}
-	b.entries[i] = _WinEntry{}
-
-	w.winBlocks[winIdx] = b
-	return nil
-}
-
 // append appends window entries to buffer.
 func (w *_WindowWriter) append(topicHash uint64, off int64, wEntries _WindowEntries) (newOff int64, err error) {
 	var b _WinBlock
@@ -99,7 +68,9 @@ func (w *_WindowWriter) append(topicHash uint64, off int64, wEntries _WindowEntr
 			if err != nil {
 				return 0, err
 			}
-			b.validation(topicHash)
+			if err := b.validation(topicHash); err != nil {
+				return 0, err
+			}
 			b.leased = true
 		}
 	}
@@ -118,9 +89,6 @@ func (w *_WindowWriter) append(topicHash uint64, off int64, wEntries _WindowEntr
 			wIdx = w.windowIdx
 			b = _WinBlock{topicHash: topicHash, next: next}
 		}
-		if b.leased {
-			w.winLeases[wIdx] = append(w.winLeases[wIdx], we.sequence)
-		}
 		b.entries[b.entryIdx] = _WinEntry{sequence: we.sequence, expiresAt: we.expiresAt}
 		b.dirty = true
 		b.entryIdx++
@@ -194,26 +162,8 @@ func (w *_WindowWriter) write() error {
 	return nil
 }
 
-func (w *_WindowWriter) rollback() error {
-	for bIdx, seqs := range w.winLeases {
-		for _, seq := range seqs {
-			if err := w.del(seq, bIdx); err != nil {
-				return err
-			}
-		}
-	}
-	return nil
-}
-
-func (w *_WindowWriter) reset() error {
-	w.buffer.Reset()
-	w.offset = w.winFile.currSize()
-
-	return nil
-}
-
+// abort removes new blocks written. Entries written to the existing blocks
+// are written again when those are synced, and are read only once.
 func (w *_WindowWriter) abort() error {
-	w.winFile.truncate(w.offset)
-
-	return w.rollback()
+	return w.winFile.truncate(w.offset)
 }
-- 
2.43.0


From 2c6e61465de17759c7743147363c4b2885b016d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:29 +0000
Subject: [PATCH 21/54] fix: encrypted payload of any length round-trips and no
 part of it is stored in clear

---
 db_internal.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/db_internal.go b/db_internal.go
index 01cefcb..447e6f2 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -17,6 +17,7 @@
 package unitdb
 
 import (
+	"encoding/binary"
 	"errors"
 	"io"
 	"math"
@@ -42,6 +43,9 @@ const (
 	idSize                = 9 // message ID prefix with additional encryption bit.
 	version               = 1 // file format version.
 
+	// encryptedEpoch is an encryption flag of the message, payload is prefixed with the epoch.
+	encryptedEpoch = 2
+
 	// maxExpDur expired keys are deleted from DB after durType*maxExpDur.
 	// For example if durType is Minute and maxExpDur then
 	// all expired keys are deleted from db in 1 minutes
@@ -268,13 +272,16 @@ func (db *DB) readPayload(q *Query, e _Query) (val []byte, ok bool, err error) {
 		return nil, false, nil
 	}
 
-	// last bit of ID is an encryption flag.
-	if id[idSize-1] != 0 {
+	// last byte of ID is an encryption flag.
+	if eBit := id[idSize-1]; eBit != 0 {
 		val, err = db.internal.mac.Decrypt(nil, val)
 		if err != nil {
 			logger.Error().Err(err).Str("context", "mac.decrypt")
 			return nil, false, err
 		}
+		if eBit == encryptedEpoch {
+			val = val[crypto.EpochSize:]
+		}
 	}
 	val, err = snappy.Decode(nil, val)
 	if err != nil {
@@ -391,8 +398,11 @@ func (db *DB) setEntry(e *Entry) error {
 	}
 	val := snappy.Encode(nil, e.Payload)
 	if db.internal.dbInfo.encryption == 1 || e.Encryption {
-		eBit = 1
-		val = db.internal.mac.Encrypt(nil, val)
+		eBit = encryptedEpoch
+		// first bytes are not encrypted, payload is encrypted after the epoch.
+		epoch := make([]byte, crypto.EpochSize, crypto.EpochSize+len(val))
+		binary.LittleEndian.PutUint32(epoch, uint32(seq))
+		val = db.internal.mac.Encrypt(nil, append(epoch, val...))
 	}
 	e.entry.valueSize = uint32(len(val))
 	mLen := entrySize + idSize + uint32(e.entry.topicSize) + uint32(e.entry.valueSize)
-- 
2.43.0


From 39f2e2ce6b531288883d140599eb00044b55a500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:42 +0000
Subject: [PATCH 22/54] fix: disabled background sync does not crash open

---
 db_sync.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db_sync.go b/db_sync.go
index 9affae3..b54c8c7 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -110,6 +110,9 @@ func (db *DB) unlockSync() {
 }
 
 func (db *DB) startSyncer(interval time.Duration) {
+	if interval <= 0 {
+		return // background sync is disabled.
+	}
 	db.internal.closeW.Add(1)
 	syncTicker := time.NewTicker(interval)
 	go func() {
-- 
2.43.0


From 4c8a2cf580be09073e0c48f55f1c2e4ca450ab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:17 +0000
Subject: [PATCH 23/54] fix: window blocks are written in order and recovery
 does not write window entries again

---
 block_writer.go       |  4 +---
 db_internal.go        |  1 +
 db_sync.go            | 12 ++++++++++++
 time_window_writer.go | 28 ++++++++++++++++++++++++++--
 4 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/block_writer.go b/block_writer.go
index b4da2f4..cb32611 100644
--- a/block_writer.go
+++ b/block_writer.go
@@ -251,9 +251,7 @@ func blockRange(idx []int32) ([][]int32, error) {
 			n2++
 		}
 		s := []int32{(idx[n1])}
-		if n2 == n1+2 {
-			parts = append(parts, []int32{idx[n2-1]})
-		} else if n2 > n1+2 {
+		if n2 > n1+1 {
 			s = append(s, idx[n2-1])
 		}
 		parts = append(parts, s)
diff --git a/db_internal.go b/db_internal.go
index 447e6f2..2de56a4 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -100,6 +100,7 @@ type (
 		syncLockC  chan struct{}
 		syncWrites bool
 		syncHandle _SyncHandle
+		resync     bool // resync is set if a sync failed and its entries may be in the window file.
 		recount    bool // recount is set if count does not match entries in the index file.
 
 		// Close.
diff --git a/db_sync.go b/db_sync.go
index b54c8c7..b11ed16 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -79,6 +79,7 @@ func (db *_SyncHandle) finish() {
 
 // abort rolls back a failed sync. Entries are in the log and are written again on next sync.
 func (db *_SyncHandle) abort() {
+	db.internal.resync = true
 	if db.blockWriter.indexed {
 		// some of the entries are already in the index file.
 		db.internal.recount = true
@@ -289,6 +290,16 @@ func (db *_SyncHandle) syncBlocks(blockIterator func(func(timeID int64, seqs []u
 			return wEntries[i].seq() < wEntries[j].seq()
 		})
 		topicOff, _ := db.internal.trie.getOffset(h)
+		if recovery || db.internal.resync {
+			// some of the entries are written by a sync that was not completed.
+			if wEntries, err = db.windowWriter.unwritten(h, topicOff, wEntries); err != nil {
+				db.abort()
+				return err
+			}
+			if len(wEntries) == 0 {
+				continue
+			}
+		}
 		if offsets[h], err = db.windowWriter.append(h, topicOff, wEntries); err != nil {
 			db.abort()
 			return err
@@ -301,6 +312,7 @@ func (db *_SyncHandle) syncBlocks(blockIterator func(func(timeID int64, seqs []u
 		db.abort()
 		return err
 	}
+	db.internal.resync = false
 	for h, off := range offsets {
 		db.internal.trie.setOffset(newTopic(h, off))
 	}
diff --git a/time_window_writer.go b/time_window_writer.go
index 63b9ff5..7ae5d2a 100644
--- a/time_window_writer.go
+++ b/time_window_writer.go
@@ -49,6 +49,31 @@ func newWindowWriter(fs *_FileSet, buf *bpool.Buffer) (*_WindowWriter, error) {
 	return w, nil
 }
 
+// unwritten gets window entries of a topic which are not in the window file.
+func (w *_WindowWriter) unwritten(topicHash uint64, off int64, wEntries _WindowEntries) (unwritten _WindowEntries, err error) {
+	written := make(map[uint64]bool)
+	for off != 0 {
+		r := _WindowReader{winFile: w.winFile, offset: off}
+		b, err := r.readWindowBlock()
+		if err != nil {
+			return nil, err
+		}
+		if b.topicHash != topicHash {
+			break
+		}
+		for _, we := range b.entries[:b.entryIdx] {
+			written[we.seq()] = true
+		}
+		off = b.next
+	}
+	for _, we := range wEntries {
+		if !written[we.seq()] {
+			unwritten = append(unwritten, we)
+		}
+	}
+	return unwritten, nil
+}
+
 // append appends window entries to buffer.
 func (w *_WindowWriter) append(topicHash uint64, off int64, wEntries _WindowEntries) (newOff int64, err error) {
 	var b _WinBlock
@@ -162,8 +187,7 @@ func (w *_WindowWriter) write() error {
 	return nil
 }
 
-// abort removes new blocks written. Entries written to the existing blocks
-// are written again when those are synced, and are read only once.
+// abort removes new blocks written. Entries written to the existing blocks are kept.
 func (w *_WindowWriter) abort() error {
 	return w.winFile.truncate(w.offset)
 }
-- 
2.43.0


From 7db552ff28ee54e3f60e96bea037d45b91e83b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:44 +0000
Subject: [PATCH 24/54] fix: time block emptied by the deletes of a batch does
 not fail sync and recovery

---
 memdb/db.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/memdb/db.go b/memdb/db.go
index 5abafd2..af19065 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -301,7 +301,11 @@ func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
 
 // Free frees time block from DB for a provided time ID and releases block from WAL.
 func (db *DB) Free(timeID int64) error {
-	return db.releaseLog(_TimeID(timeID))
+	if err := db.releaseLog(_TimeID(timeID)); err != nil && err != errEntryDoesNotExist {
+		return err
+	}
+	// time block is released already if all its entries were deleted.
+	return nil
 }
 
 // Size returns the total number of entries in DB.
-- 
2.43.0


From c01fab3cd49e78997fdb0402f6d5b3e0b4efa13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:17 +0000
Subject: [PATCH 25/54] fix: logs are recovered in the order written, a delete
 of a batch entry is not lost

---
 memdb/db_internal.go | 18 +++++++++++++++++-
 memdb/recovery.go    |  3 +++
 memdb/tiny_log.go    |  6 ++++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index a028440..1606ea8 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -64,6 +64,7 @@ type _DB struct {
 
 	// tiny Log
 	timeRef    _TimeID
+	logID      _TimeID // logID is ID of the most recent log.
 	logManager *_TinyLogManager
 
 	// buffer pool
@@ -243,6 +244,19 @@ func (db *DB) move(timeID _TimeID, key uint64) error {
 	return err
 }
 
+// newLogID returns ID of the next log, it is greater than ID of any log already written.
+func (db *DB) newLogID() _TimeID {
+	db.mu.Lock()
+	defer db.mu.Unlock()
+	logID := _TimeID(time.Now().UTC().UnixNano())
+	if logID <= db.internal.logID {
+		logID = db.internal.logID + 1
+	}
+	db.internal.logID = logID
+
+	return logID
+}
+
 // writeLog writes log to the WAL.
 func (db *DB) writeLog(ID _TimeID, log []byte) error {
 	logWriter, err := db.internal.wal.NewWriter()
@@ -259,6 +273,8 @@ func (db *DB) writeLog(ID _TimeID, log []byte) error {
 
 // tinyWrite writes tiny log to the WAL.
 func (db *DB) tinyWrite(tinyLog *_TinyLog) error {
+	// logs are recovered in the order those are written.
+	tinyLog.setID(db.newLogID())
 	timeLock := db.newTimeLock(tinyLog.ID())
 	timeLock.Lock()
 	defer timeLock.Unlock()
@@ -396,7 +412,7 @@ func (db *DB) keepDeletes(timeID _TimeID, keys []uint64) error {
 	if len(log) == 0 {
 		return nil
 	}
-	logID := _TimeID(time.Now().UTC().UnixNano())
+	logID := db.newLogID()
 	if err := db.writeLog(logID, log); err != nil {
 		return err
 	}
diff --git a/memdb/recovery.go b/memdb/recovery.go
index 9d948dc..f19cd39 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -92,6 +92,9 @@ func (db *DB) startRecovery() error {
 		}
 		// each log is recovered into its own time block.
 		timeID := _TimeID(ID)
+		if db.internal.logID < timeID {
+			db.internal.logID = timeID
+		}
 		db.addTimeBlock(timeID)
 		block := db.timeBlocks[timeID]
 		block.sealed = true
diff --git a/memdb/tiny_log.go b/memdb/tiny_log.go
index 29e250c..73c0c0c 100644
--- a/memdb/tiny_log.go
+++ b/memdb/tiny_log.go
@@ -47,6 +47,12 @@ func (l *_TinyLog) ID() _TimeID {
 	return l.id
 }
 
+func (l *_TinyLog) setID(id _TimeID) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+	l.id = id
+}
+
 func (l *_TinyLog) timeID() _TimeID {
 	l.mu.RLock()
 	defer l.mu.RUnlock()
-- 
2.43.0


From 9259f0a306b7cec9e53c8db4c5407855a580d44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:52 +0000
Subject: [PATCH 26/54] fix: an I/O error while opening or reading logs is
 returned, logs are not lost and nothing panics

---
 wal/file.go   | 90 +++++++++++++++++++++------------------------------
 wal/reader.go |  5 ++-
 wal/wal.go    | 11 +++----
 3 files changed, 46 insertions(+), 60 deletions(-)

diff --git a/wal/file.go b/wal/file.go
index b52a930..9ad19bb 100644
--- a/wal/file.go
+++ b/wal/file.go
@@ -18,7 +18,7 @@ package wal
 
 import (
 	"errors"
-	"fmt"
+	"io"
 	"io/ioutil"
 	"os"
 	"path"
@@ -52,11 +52,9 @@ func openFile(dirName string, bufferSize int64) (*_FileStore, error) {
 	}
 
 	// if store dir does not exists then create it.
-	if !exists(dirName) {
-		perms := os.FileMode(0770)
-		if err := os.MkdirAll(fs.dirName, perms); err != nil {
-			return nil, err
-		}
+	perms := os.FileMode(0770)
+	if err := os.MkdirAll(fs.dirName, perms); err != nil {
+		return nil, err
 	}
 	fs.opened = true
 
@@ -98,18 +96,12 @@ func (fs *_FileStore) put(info _LogInfo, data *bpool.Buffer) error {
 	}
 	log := logPath(fs.dirName, info.timeID)
 
-	if err := os.Rename(tmp, log); err != nil {
-		return err
-	}
-
-	if !exists(log) {
-		return errors.New(fmt.Sprintf("file not created, %s", log))
-	}
-
-	return nil
+	return os.Rename(tmp, log)
 }
 
-func (fs *_FileStore) read(timeID int64, data *bpool.Buffer) _LogInfo {
+// read reads the log. A damaged log is set aside and read as an empty log, but a log that
+// cannot be read at the moment is kept and the error is returned.
+func (fs *_FileStore) read(timeID int64, data *bpool.Buffer) (_LogInfo, error) {
 	fs.RLock()
 	defer fs.RUnlock()
 
@@ -117,74 +109,72 @@ func (fs *_FileStore) read(timeID int64, data *bpool.Buffer) _LogInfo {
 
 	if !fs.opened {
 		// trying to use file store, but not open.
-		return info
+		return info, errors.New("Trying to use file store, but not open")
 	}
 
 	log := logPath(fs.dirName, timeID)
-	if !exists(log) {
-		return info
-	}
-
 	f, err := os.Open(log)
 	if err != nil {
-		return info
+		if os.IsNotExist(err) {
+			return info, nil
+		}
+		return info, err
 	}
+	defer f.Close()
 
 	buf := make([]byte, uint32(logHeaderSize))
 	if _, err := f.ReadAt(buf, 0); err != nil {
-		f.Close()
+		if err != io.EOF {
+			return info, err
+		}
 		os.Rename(log, corruptPath(fs.dirName, timeID))
 
 		// log was unreadable, return nil
-		return info
+		return info, nil
 	}
 
 	if err := info.UnmarshalBinary(buf); err != nil {
-		f.Close()
 		os.Rename(log, corruptPath(fs.dirName, timeID))
 
 		// log was unreadable, return nil
-		return info
+		return info, nil
 	}
 
-	if stat, err := f.Stat(); err != nil || stat.Size() < int64(logHeaderSize)+int64(info.size) {
-		f.Close()
+	stat, err := f.Stat()
+	if err != nil {
+		return _LogInfo{}, err
+	}
+	if stat.Size() < int64(logHeaderSize)+int64(info.size) {
 		os.Rename(log, corruptPath(fs.dirName, timeID))
 
 		// log was truncated, return nil
-		return _LogInfo{}
+		return _LogInfo{}, nil
 	}
 
 	if _, err := data.Extend(int64(info.size)); err != nil {
-		f.Close()
-		return _LogInfo{}
+		return _LogInfo{}, err
 	}
 
 	if _, err := f.ReadAt(data.Internal(), int64(logHeaderSize)); err != nil {
-		f.Close()
-		os.Rename(log, corruptPath(fs.dirName, timeID))
-
-		// log was unreadable, return nil
-		return _LogInfo{}
+		return _LogInfo{}, err
 	}
-	f.Close()
 
-	return info
+	return info, nil
 }
 
 // all provides a list of all time IDs currently stored in the file store.
-func (fs *_FileStore) all() []int64 {
+func (fs *_FileStore) all() ([]int64, error) {
 	var timeIDs []int64
 	var files _FileInfos
 
 	if !fs.opened {
 		// trying to use file store, but not open.
-		return nil
+		return nil, nil
 	}
 
 	files, err := ioutil.ReadDir(fs.dirName)
 	if err != nil {
-		return nil
+		return nil, err
 	}
 
 	// sort.Slice(files[:], func(i, j int) bool {
@@ -218,7 +208,7 @@ func (fs *_FileStore) all() []int64 {
 		return ti.Before(tj)
 	})
 
-	return timeIDs
+	return timeIDs, nil
 }
 
 func (fs *_FileStore) del(timeID int64) error {
@@ -240,7 +230,11 @@ func (fs *_FileStore) del(timeID int64) error {
 
 // reset removes all persisted logs from file store.
 func (fs *_FileStore) reset() {
-	for _, timeID := range fs.all() {
+	timeIDs, err := fs.all()
+	if err != nil {
+		return
+	}
+	for _, timeID := range timeIDs {
 		fs.del(timeID)
 	}
 }
@@ -259,13 +253,3 @@ func corruptPath(dirName string, timeID int64) string {
 	suffix := strconv.FormatInt(timeID, 10) + corruptExt
 	return path.Join(dirName, suffix)
 }
-
-func exists(file string) bool {
-	if _, err := os.Stat(file); err != nil {
-		if os.IsNotExist(err) {
-			return false
-		}
-		panic(err)
-	}
-	return true
-}
diff --git a/wal/reader.go b/wal/reader.go
index 94a1b0a..253a9a5 100644
--- a/wal/reader.go
+++ b/wal/reader.go
@@ -61,7 +61,10 @@ func (r *Reader) Iterator(f func(timeID int64) (bool, error)) (err error) {
 	for _, timeID := range r.wal.recoveredTimeIDs {
 		r.offset = 0
 		r.buffer.Reset()
-		info := r.wal.logStore.read(timeID, r.buffer)
+		info, err := r.wal.logStore.read(timeID, r.buffer)
+		if err != nil {
+			return err
+		}
 		r.entryCount = info.count
 		if stop, err := f(timeID); stop || err != nil {
 			return err
diff --git a/wal/wal.go b/wal/wal.go
index 7e4a7d3..3d2fbfd 100644
--- a/wal/wal.go
+++ b/wal/wal.go
@@ -75,7 +75,7 @@ func newWal(opts Options) (wal *WAL, err error) {
 	}
 	wal.logStore, err = openFile(opts.Path, opts.BufferSize)
 	if err != nil {
-		return wal, err
+		return nil, err
 	}
 
 	if opts.Reset {
@@ -83,14 +83,13 @@ func newWal(opts Options) (wal *WAL, err error) {
 		return wal, nil
 	}
 
-	wal.recoverWal()
-
-	return wal, nil
+	return wal, wal.recoverWal()
 }
 
 // recoverWal recovers a WAL for the log written but not released. It also updates free blocks.
-func (wal *WAL) recoverWal() {
-	wal.recoveredTimeIDs = wal.logStore.all()
+func (wal *WAL) recoverWal() (err error) {
+	wal.recoveredTimeIDs, err = wal.logStore.all()
+	return err
 }
 
 // Close closes the wal, frees used resources and checks for active
-- 
2.43.0


From 89653f71785f57edbe05683a2b6a6cefa2f566fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:08 +0000
Subject: [PATCH 27/54] fix: entries are not written twice if logs are not
 released, count and seq are loaded after a failed delete or close

---
 block_reader.go | 11 +++++++----
 db_internal.go  |  8 ++++++--
 db_sync.go      |  4 +++-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/block_reader.go b/block_reader.go
index da6701f..ccf548b 100644
--- a/block_reader.go
+++ b/block_reader.go
@@ -84,17 +84,20 @@ func (r *_BlockReader) readEntry(seq uint64) (_IndexEntry, error) {
 	return e, nil
 }
 
-// count counts entries in the index file which are not deleted.
-func (r *_BlockReader) count() (count uint64, err error) {
+// count counts entries in the index file which are not deleted and gets the most recent seq of the entries.
+func (r *_BlockReader) count() (count, upperSeq uint64, err error) {
 	for bIdx := int32(0); ; bIdx++ {
 		b, err := r.readIndexBlock(bIdx)
 		if err != nil {
 			if err == io.EOF {
-				return count, nil
+				return count, upperSeq, nil
 			}
-			return 0, err
+			return 0, 0, err
 		}
 		for i := 0; i < int(b.entryIdx) && i < entriesPerIndexBlock; i++ {
+			if b.entries[i].seq > upperSeq {
+				upperSeq = b.entries[i].seq
+			}
 			if !b.entries[i].isDeleted() {
 				count++
 			}
diff --git a/db_internal.go b/db_internal.go
index 2de56a4..15d1c2b 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -144,10 +144,11 @@ func (db *DB) close() error {
 	err := db.internal.mem.Close()
 
 	if err1 := db.writeInfo(); err1 != nil {
+		db.internal.recount = true
 		err = err1
 	}
 	if !db.internal.recount {
-		// count is loaded on open if free blocks are not written.
+		// count and seq are loaded on open if free blocks are not written.
 		db.internal.freeList.defrag()
 		if err1 := db.internal.freeList.write(); err1 != nil {
 			err = err1
@@ -221,13 +222,14 @@ func (db *DB) loadTrie() error {
 
 // loadCount loads count of entries from the index file.
 func (db *DB) loadCount() error {
-	count, err := db.internal.reader.count()
+	count, upperSeq, err := db.internal.reader.count()
 	if err != nil {
 		db.internal.recount = true
 		return err
 	}
 	db.internal.recount = false
 	atomic.StoreUint64(&db.internal.dbInfo.count, count)
+	db.upperSeq(upperSeq)
 	return nil
 }
 
@@ -484,6 +486,8 @@ func (db *DB) remove(topicHash, seq uint64) error {
 		}
 		e, ok, err := w.del(seq)
 		if err != nil {
+			// entry may be deleted from the index file.
+			db.internal.recount = true
 			return err
 		}
 		if ok {
diff --git a/db_sync.go b/db_sync.go
index b11ed16..6e26b0f 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -312,10 +312,11 @@ func (db *_SyncHandle) syncBlocks(blockIterator func(func(timeID int64, seqs []u
 		db.abort()
 		return err
 	}
-	db.internal.resync = false
 	for h, off := range offsets {
 		db.internal.trie.setOffset(newTopic(h, off))
 	}
+	// entries are synced again if time blocks are not released.
+	db.internal.resync = true
 	for _, seq := range delSeqs {
 		if err := db.remove(0, seq); err != nil {
 			return err
@@ -330,6 +331,7 @@ func (db *_SyncHandle) syncBlocks(blockIterator func(func(timeID int64, seqs []u
 			return err
 		}
 	}
+	db.internal.resync = false
 
 	return nil
 }
-- 
2.43.0


From d636b9ef3874e1ba6efdd1ac7243477d624c80ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:52 +0000
Subject: [PATCH 28/54] fix: memdb keys deleted from several time blocks,
 stored again or stored around a batch are recovered as they were

---
 memdb/block.go       | 25 ++++++++----------------
 memdb/db_internal.go | 46 +++++++++++++++++++++++++++++++++-----------
 memdb/recovery.go    |  3 +++
 memdb/tiny_log.go    |  6 +++++-
 4 files changed, 51 insertions(+), 29 deletions(-)

diff --git a/memdb/block.go b/memdb/block.go
index f50dadb..a736f90 100644
--- a/memdb/block.go
+++ b/memdb/block.go
@@ -51,6 +51,7 @@ type (
 		data         *bpool.Buffer
 		records      map[_Key]int64 // map[key]offset
 
+		dels       map[_TimeID][]uint64 // dels are deleted keys logged with the block for each of the time ID.
 		timeRefs   []_TimeID
 		lastOffset int64 // last offset of block data written to the log
 
@@ -73,23 +74,6 @@ func (b *_Block) seal() (keys []uint64) {
 	return keys
 }
 
-// deletes gets deleted keys logged with the block for each of the time ID.
-func (b *_Block) deletes() (map[_TimeID][]uint64, error) {
-	deletes := make(map[_TimeID][]uint64)
-	for ik, off := range b.records {
-		if ik.delFlag == 0 {
-			continue
-		}
-		data, err := b.get(off)
-		if err != nil {
-			return nil, err
-		}
-		timeID := _TimeID(binary.LittleEndian.Uint64(data[:8]))
-		deletes[timeID] = append(deletes[timeID], ik.key)
-	}
-	return deletes, nil
-}
-
 // rawTimeID returns data of a deleted key.
 func rawTimeID(timeID _TimeID) []byte {
 	raw := make([]byte, 8)
@@ -175,6 +159,13 @@ func (b *_Block) put(ikey _Key, data []byte) error {
 		b.count++
 	}
 	b.records[ikey] = off
+	if ikey.delFlag == 1 {
+		timeID := _TimeID(binary.LittleEndian.Uint64(data[:8]))
+		if b.dels == nil {
+			b.dels = make(map[_TimeID][]uint64)
+		}
+		b.dels[timeID] = append(b.dels[timeID], ikey.key)
+	}
 
 	return nil
 }
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index 1606ea8..63804ea 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -63,9 +63,10 @@ type _DB struct {
 	timeLock _TimeLock
 
 	// tiny Log
-	timeRef    _TimeID
-	logID      _TimeID // logID is ID of the most recent log.
-	logManager *_TinyLogManager
+	timeRef     _TimeID
+	logID       _TimeID // logID is ID of the most recent log.
+	recoveredID _TimeID // recoveredID is ID of the most recent time block recovered from the WAL.
+	logManager  *_TinyLogManager
 
 	// buffer pool
 	buffer *bpool.BufferPool
@@ -315,7 +316,14 @@ func (db *DB) tinyWrite(tinyLog *_TinyLog) error {
 
 // tinyCommit commits tiny log to DB.
 func (db *DB) tinyCommit(tinyLog *_TinyLog) error {
-	err := db.tinyWrite(tinyLog)
+	var err error
+	if tinyLog.managed {
+		// entries put or deleted before the batch are logged before the batch.
+		err = db.tinyWrite(&_TinyLog{_TimeID: db.timeID()})
+	}
+	if err == nil {
+		err = db.tinyWrite(tinyLog)
+	}
 
 	if tinyLog.managed {
 		if err != nil {
@@ -352,18 +360,15 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 	}
 	block.sealed = true
 	timeRefs := block.timeRefs
-	deletes, err := block.deletes()
+	deletes := block.dels
 	block.Unlock()
-	if err != nil {
-		return err
-	}
 
 	// deletes logged with the block are kept for the time blocks not yet released.
 	for timeRef, keys := range deletes {
 		if timeRef == timeID {
 			continue
 		}
-		if err := db.keepDeletes(timeRef, keys); err != nil {
+		if err := db.keepDeletes(timeID, timeRef, keys); err != nil {
 			return err
 		}
 	}
@@ -396,14 +401,15 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 }
 
 // keepDeletes logs deleted keys of the time block and the log is released along with the block.
-func (db *DB) keepDeletes(timeID _TimeID, keys []uint64) error {
+// releaseID is ID of the time block being released.
+func (db *DB) keepDeletes(releaseID, timeID _TimeID, keys []uint64) error {
 	block, ok := db.timeBlock(timeID)
 	if !ok {
 		return nil
 	}
 	var log []byte
 	for _, key := range keys {
-		if _, err := db.Get(key); err == nil {
+		if db.isStored(releaseID, key) {
 			// key is stored again.
 			continue
 		}
@@ -426,6 +432,24 @@ func (db *DB) keepDeletes(timeID _TimeID, keys []uint64) error {
 	return nil
 }
 
+// isStored checks whether key is stored in any time block other than the block being released.
+func (db *DB) isStored(releaseID _TimeID, key uint64) bool {
+	for _, timeID := range db.timeIDs(key) {
+		if timeID == releaseID {
+			continue
+		}
+		block, ok := db.timeBlock(timeID)
+		if !ok {
+			continue
+		}
+		if _, ok, _ := block.lookup(key); ok {
+			return true
+		}
+	}
+
+	return false
+}
+
 // setClosed flag; return true if DB is not already closed.
 func (db *DB) setClosed() bool {
 	return atomic.CompareAndSwapUint32(&db.internal.closed, 0, 1)
diff --git a/memdb/recovery.go b/memdb/recovery.go
index f19cd39..3d23047 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -95,6 +95,9 @@ func (db *DB) startRecovery() error {
 		if db.internal.logID < timeID {
 			db.internal.logID = timeID
 		}
+		if db.internal.recoveredID < timeID {
+			db.internal.recoveredID = timeID
+		}
 		db.addTimeBlock(timeID)
 		block := db.timeBlocks[timeID]
 		block.sealed = true
diff --git a/memdb/tiny_log.go b/memdb/tiny_log.go
index 73c0c0c..42fa715 100644
--- a/memdb/tiny_log.go
+++ b/memdb/tiny_log.go
@@ -132,7 +132,11 @@ func (src *_TinyLogOptions) withDefaultOptions() *_TinyLogOptions {
 func (p *_TinyLogManager) newTinyLog() {
 	timeNow := time.Now().UTC()
 	timeID := _TimeID(timeNow.Truncate(p.opts.blockDuration).UnixNano())
-	// entries are not added to a block recovered from the WAL or to a sealed block.
+	// time block is more recent than any block recovered from the WAL.
+	if timeID <= p.db.internal.recoveredID {
+		timeID = p.db.internal.recoveredID + 1
+	}
+	// entries are not added to a sealed block.
 	for p.db.isSealed(timeID) {
 		timeID++
 	}
-- 
2.43.0


From 12e19eaaffd3d2f5d9f2d6b91ae94eaad5f30597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:06 +0000
Subject: [PATCH 29/54] fix: an entry put into a memdb time block after its
 last log was written was never logged

---
 memdb/db_internal.go | 51 ++++++++++++++++++++++++--------------------
 memdb/tiny_log.go    | 28 ++++++++++++++++++++++++
 2 files changed, 56 insertions(+), 23 deletions(-)

diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index 63804ea..11a61ba 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -214,29 +214,41 @@ func (db *DB) put(ikey _Key, data []byte) (_TimeID, error) {
 		if err := db.ok(); err != nil {
 			return 0, err
 		}
-		timeID := db.timeID()
-		block, ok := db.timeBlock(timeID)
+		timeID, ok, err := db.tryPut(ikey, data)
 		if !ok {
-			// current time block is released, start over.
-			db.addTimeBlock(timeID)
-			continue
-		}
-		block.Lock()
-		if block.sealed {
-			// block is sealed after it was picked as the current block.
-			block.Unlock()
+			// block is being released, start over.
 			continue
 		}
-		err := block.put(ikey, data)
-		if err == nil && ikey.delFlag == 0 {
-			db.addTimeFilter(timeID, ikey.key)
-		}
-		block.Unlock()
 
 		return timeID, err
 	}
 }
 
+// tryPut puts the key into the current time block unless the block is sealed.
+func (db *DB) tryPut(ikey _Key, data []byte) (timeID _TimeID, ok bool, err error) {
+	// time block remains current until the entry is added, so the entry is written to the log along with the block.
+	logManager := db.internal.logManager
+	logManager.mu.RLock()
+	defer logManager.mu.RUnlock()
+	timeID = logManager.tinyLog.timeID()
+	db.addTimeBlock(timeID)
+	block, ok := db.timeBlock(timeID)
+	if !ok {
+		return timeID, false, nil
+	}
+	block.Lock()
+	defer block.Unlock()
+	if block.sealed {
+		return timeID, false, nil
+	}
+	err = block.put(ikey, data)
+	if err == nil && ikey.delFlag == 0 {
+		db.addTimeFilter(timeID, ikey.key)
+	}
+
+	return timeID, true, err
+}
+
 // move moves the entry to the new block
 func (db *DB) move(timeID _TimeID, key uint64) error {
 	// add deleted key to new time block to persist deleted entry to the WAL.
@@ -316,14 +328,7 @@ func (db *DB) tinyWrite(tinyLog *_TinyLog) error {
 
 // tinyCommit commits tiny log to DB.
 func (db *DB) tinyCommit(tinyLog *_TinyLog) error {
-	var err error
-	if tinyLog.managed {
-		// entries put or deleted before the batch are logged before the batch.
-		err = db.tinyWrite(&_TinyLog{_TimeID: db.timeID()})
-	}
-	if err == nil {
-		err = db.tinyWrite(tinyLog)
-	}
+	err := db.tinyWrite(tinyLog)
 
 	if tinyLog.managed {
 		if err != nil {
diff --git a/memdb/tiny_log.go b/memdb/tiny_log.go
index 42fa715..7b374fc 100644
--- a/memdb/tiny_log.go
+++ b/memdb/tiny_log.go
@@ -209,11 +209,39 @@ func (p *_TinyLogManager) write() {
 	}
 }
 
+// writeCurrent enqueues the current log if its time block has entries yet to be written.
+func (p *_TinyLogManager) writeCurrent() error {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	block, ok := p.db.timeBlock(p.tinyLog.timeID())
+	if !ok {
+		return nil
+	}
+	block.RLock()
+	pending := !block.released && block.lastOffset < block.data.Size()
+	block.RUnlock()
+	if !pending {
+		return nil
+	}
+	select {
+	case p.writeQueue <- p.tinyLog:
+		p.newTinyLog()
+	case <-p.stop:
+		return errClosed
+	}
+
+	return nil
+}
+
 // writeWait enqueues the log and waits for it to be executed.
 func (p *_TinyLogManager) writeWait(tinyLog *_TinyLog) error {
 	if tinyLog == nil {
 		return nil
 	}
+	// entries put or deleted before the batch are logged before the batch.
+	if err := p.writeCurrent(); err != nil {
+		return err
+	}
 	select {
 	case p.writeQueue <- tinyLog:
 	case <-p.stop:
-- 
2.43.0


From 5cea419de846c26fd51299efd2860c252e51d53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 30/54] fix: consistent hash is initialised for blocks that are
 not in use yet

---
 hash/consistent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/consistent.go b/hash/consistent.go
index fa3299f..c2a624b 100644
--- a/hash/consistent.go
+++ b/hash/consistent.go
@@ -41,7 +41,7 @@ func InitConsistent(blocks, used int) *Consistent {
 		R: make([]uint16, blocks-used, blocks),
 		N: uint16(used),
 	}
-	for b := uint16(0); b < uint16(used); b++ {
+	for b := uint16(0); b < uint16(blocks); b++ {
 		c.K[b], c.W[b], c.L[b] = b, b, b
 	}
 	for b, r := uint16(blocks)-1, 0; b >= uint16(used); b, r = b-1, r+1 {
-- 
2.43.0


From 12d38bd84ea03ec3828499c9dd5b94c3641f7d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 31/54] fix: a damaged log that says it is empty does not make
 the wal reader panic

---
 wal/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wal/file.go b/wal/file.go
index 9ad19bb..d2c31f0 100644
--- a/wal/file.go
+++ b/wal/file.go
@@ -144,10 +144,10 @@ func (fs *_FileStore) read(timeID int64, data *bpool.Buffer) (_LogInfo, error) {
 	if err != nil {
 		return _LogInfo{}, err
 	}
-	if stat.Size() < int64(logHeaderSize)+int64(info.size) {
+	if info.size == 0 || stat.Size() < int64(logHeaderSize)+int64(info.size) {
 		os.Rename(log, corruptPath(fs.dirName, timeID))
 
-		// log was truncated, return nil
+		// log was damaged or truncated, return nil
 		return _LogInfo{}, nil
 	}
 
-- 
2.43.0


From c9793a26df661386f735a5fba5c165271d57152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:33 +0000
Subject: [PATCH 32/54] fix: utp: keep the message id of DISCONNECT and read
 the bodies of PINGREQ and DISCONNECT from the stream

---
 server/internal/net/message.go | 8 ++++----
 server/utp/connect.go          | 4 +++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/server/internal/net/message.go b/server/internal/net/message.go
index 5c38aa7..8416f48 100644
--- a/server/internal/net/message.go
+++ b/server/internal/net/message.go
@@ -46,10 +46,6 @@ func Read(r io.Reader) (MessagePack, error) {
 		// return &utp.Pingreq{}, nil
 		fmt.Println("message::Read: Invalid zero-length packet type ", fh.MessageType)
 		return nil, fmt.Errorf("message::Read: Invalid zero-length packet type %d", fh.MessageType)
-	case utp.PINGREQ:
-		return &utp.Pingreq{}, nil
-	case utp.DISCONNECT:
-		return &utp.Disconnect{}, nil
 	}
 
 	rawMsg := make([]byte, fh.MessageLength)
@@ -66,6 +62,10 @@ func Read(r io.Reader) (MessagePack, error) {
 		return pack, nil
 	}
 	switch fh.MessageType {
+	case utp.PINGREQ:
+		pack = &utp.Pingreq{}
+	case utp.DISCONNECT:
+		pack = &utp.Disconnect{}
 	case utp.CONNECT:
 		pack = &utp.Connect{}
 	case utp.PUBLISH:
diff --git a/server/utp/connect.go b/server/utp/connect.go
index acd9d37..9df50b9 100644
--- a/server/utp/connect.go
+++ b/server/utp/connect.go
@@ -177,7 +177,9 @@ func (p *Pingreq) Info() Info {
 
 func (d *Disconnect) ToBinary() (bytes.Buffer, error) {
 	var buf bytes.Buffer
-	var disc pbx.Disconnect
+	disc := pbx.Disconnect{
+		MessageID: int32(d.MessageID),
+	}
 	rawMsg, err := proto.Marshal(&disc)
 	if err != nil {
 		return buf, err
-- 
2.43.0


From f8c84821ed602f61ccb48e863a370f3ca210ddd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:11 +0000
Subject: [PATCH 33/54] fix: utp: do not allocate the sizes a peer announces
 before the bytes arrive, refuse negative ones

---
 server/internal/net/message.go | 10 +++++++---
 server/utp/message.go          |  7 +++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/server/internal/net/message.go b/server/internal/net/message.go
index 8416f48..68e2ab1 100644
--- a/server/internal/net/message.go
+++ b/server/internal/net/message.go
@@ -48,11 +48,15 @@ func Read(r io.Reader) (MessagePack, error) {
 		return nil, fmt.Errorf("message::Read: Invalid zero-length packet type %d", fh.MessageType)
 	}
 
-	rawMsg := make([]byte, fh.MessageLength)
-	_, err := io.ReadFull(r, rawMsg)
-	if err != nil {
+	if fh.MessageLength < 0 {
+		return nil, fmt.Errorf("message::Read: Invalid message length %d", fh.MessageLength)
+	}
+	// The length comes from the peer, so memory is taken only as the bytes arrive.
+	var body bytes.Buffer
+	if _, err := io.CopyN(&body, r, int64(fh.MessageLength)); err != nil {
 		return nil, err
 	}
+	rawMsg := body.Bytes()
 
 	// unpack the body
 	var pack MessagePack
diff --git a/server/utp/message.go b/server/utp/message.go
index 69d3f72..d159ee8 100644
--- a/server/utp/message.go
+++ b/server/utp/message.go
@@ -18,6 +18,7 @@ package utp
 
 import (
 	"bytes"
+	"errors"
 	"io"
 
 	"github.com/golang/protobuf/proto"
@@ -51,6 +52,9 @@ const (
 	ErrBadRequest                = 0x06
 )
 
+// maxHeaderSize is more than the size of an encoded FixedHeader.
+const maxHeaderSize = 64
+
 // FixedHeader
 type FixedHeader struct {
 	MessageType   MessageType
@@ -88,6 +92,9 @@ func (fh *FixedHeader) FromBinary(r io.Reader) error {
 	}
 
 	// read FixedHeader
+	if fhSize > maxHeaderSize {
+		return errors.New("utp: fixed header is too long")
+	}
 	head := make([]byte, fhSize)
 	if _, err := io.ReadFull(r, head); err != nil {
 		return err
-- 
2.43.0


From 75a8f3d2e4437d115e79522460408f5011d57a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:13 +0000
Subject: [PATCH 34/54] fix: security: treat a topic without any part as
 invalid instead of panicking

---
 server/internal/message/security/key.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/internal/message/security/key.go b/server/internal/message/security/key.go
index 6e081c7..0dd4c75 100644
--- a/server/internal/message/security/key.go
+++ b/server/internal/message/security/key.go
@@ -101,7 +101,11 @@ func ParseKey(text string) (topic *Topic) {
 	var fn splitFunc
 
 	parts := strings.FieldsFunc(text, fn.splitKey)
-	if parts == nil || len(parts) < 2 {
+	if len(parts) == 0 {
+		topic.TopicType = TopicInvalid
+		return topic
+	}
+	if len(parts) < 2 {
 		// topic.TopicType = TopicInvalid
 		topic.Topic = parts[0]
 		topic.Size = len(parts[0])
-- 
2.43.0


From 339d28cdcadfb6e78df84135151f466c8161e32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:43 +0000
Subject: [PATCH 35/54] fix: message: skip resumed ids without taking the lock
 again

---
 server/internal/message/messageids.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/internal/message/messageids.go b/server/internal/message/messageids.go
index efd508b..671f517 100644
--- a/server/internal/message/messageids.go
+++ b/server/internal/message/messageids.go
@@ -61,8 +61,11 @@ func (mids *MessageIds) NextID(pktType utp.MessageType) MID {
 	mids.Lock()
 	defer mids.Unlock()
 	mids.id++
-	if _, ok := mids.resume[mids.id]; ok {
-		mids.NextID(pktType)
+	for {
+		if _, ok := mids.resume[mids.id]; !ok {
+			break
+		}
+		mids.id++
 	}
 	mids.index[mids.id] = pktType
 	return mids.id
-- 
2.43.0


From 21c73d4827deaf3f58203ae797668f4f4feec887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:45 +0000
Subject: [PATCH 36/54] fix: server: require write permission to publish and
 read permission to subscribe, relay and unsubscribe

---
 server/internal/hdl_conn.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 7c1beb9..2635455 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -357,7 +357,7 @@ func (c *_Conn) onRelay(req *utp.RelayRequest) *types.Error {
 	}
 
 	if !c.insecure {
-		if _, err := c.onSecureRequest(topic); err != nil {
+		if _, err := c.onSecureRequest(topic, security.AllowRead); err != nil {
 			return err
 		}
 	}
@@ -392,7 +392,7 @@ func (c *_Conn) onSubscribe(subMsg utp.Subscribe, sub *utp.Subscription) *types.
 	}
 
 	if !c.insecure {
-		if _, err := c.onSecureRequest(topic); err != nil {
+		if _, err := c.onSecureRequest(topic, security.AllowRead); err != nil {
 			return err
 		}
 	}
@@ -418,7 +418,7 @@ func (c *_Conn) onUnsubscribe(unsubMsg utp.Unsubscribe, sub *utp.Subscription) *
 	}
 
 	if !c.insecure {
-		if _, err := c.onSecureRequest(topic); err != nil {
+		if _, err := c.onSecureRequest(topic, security.AllowRead); err != nil {
 			return err
 		}
 	}
@@ -449,7 +449,7 @@ func (c *_Conn) onPublish(pub utp.Publish) *types.Error {
 		}
 
 		if !c.insecure {
-			wildcard, err := c.onSecureRequest(topic)
+			wildcard, err := c.onSecureRequest(topic, security.AllowWrite)
 			if err != nil {
 				return err
 			}
@@ -486,15 +486,15 @@ func (c *_Conn) acknowledge(pub utp.Publish) *types.Error {
 	return nil
 }
 
-func (c *_Conn) onSecureRequest(topic *security.Topic) (bool, *types.Error) {
+func (c *_Conn) onSecureRequest(topic *security.Topic, access uint32) (bool, *types.Error) {
 	// Attempt to decode the key
 	key, err := security.DecodeKey(topic.Key)
 	if err != nil {
 		return false, types.ErrBadRequest
 	}
 
-	// Check if the key has the permission to read the topic
-	if !key.HasPermission(security.AllowRead) {
+	// Check if the key has the permission to read or write the topic
+	if !key.HasPermission(access) {
 		return false, types.ErrUnauthorized
 	}
 
-- 
2.43.0


From 706cf89da1b4e75883b78f4f208be7d26e1a79ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:30 +0000
Subject: [PATCH 37/54] fix: server: look up cached client ids by the whole id,
 not by four of its characters

---
 server/internal/hdl_conn.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 2635455..6a00808 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -28,7 +28,6 @@ import (
 	"github.com/unit-io/unitdb/server/internal/message"
 	"github.com/unit-io/unitdb/server/internal/message/security"
 	lp "github.com/unit-io/unitdb/server/internal/net"
-	"github.com/unit-io/unitdb/server/internal/pkg/crypto"
 	"github.com/unit-io/unitdb/server/internal/pkg/log"
 	"github.com/unit-io/unitdb/server/internal/pkg/stats"
 	"github.com/unit-io/unitdb/server/internal/pkg/uid"
@@ -316,7 +315,7 @@ func (c *_Conn) onConnect(clientID []byte) (uid.ID, *types.Error) {
 	defer log.ErrLogger.Debug().Str("context", "conn.onConnect").Int64("duration", time.Since(start).Nanoseconds()).Msg("")
 	var clientid = uid.ID{}
 	if clientID != nil && len(clientID) > c.service.mac.Overhead() {
-		if contract, ok := c.service.cache.Load(crypto.SignatureToUint32(clientID[crypto.EpochSize:crypto.MessageOffset])); ok {
+		if contract, ok := c.service.cache.Load(string(clientID)); ok {
 			clientid, err := uid.CachedClientID(contract.(uint32))
 			if err != nil {
 				return nil, types.ErrUnauthorized
@@ -338,8 +337,7 @@ func (c *_Conn) onConnect(clientID []byte) (uid.ID, *types.Error) {
 
 	//do not cache primary client Id
 	if !clientid.IsPrimary() {
-		cid := []byte(clientid.Encode(c.service.mac))
-		c.service.cache.LoadOrStore(crypto.SignatureToUint32(cid[crypto.EpochSize:crypto.MessageOffset]), clientid.Contract())
+		c.service.cache.LoadOrStore(clientid.Encode(c.service.mac), clientid.Contract())
 	}
 
 	return clientid, nil
-- 
2.43.0


From 99052794529cefa681f5b4f27def5d2759794487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:32 +0000
Subject: [PATCH 38/54] fix: cluster: do not end the process when a call to
 another node fails

---
 server/internal/cluster.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/internal/cluster.go b/server/internal/cluster.go
index aebf01a..b1e16fd 100644
--- a/server/internal/cluster.go
+++ b/server/internal/cluster.go
@@ -191,7 +191,7 @@ func (n *ClusterNode) call(proc string, reqMsg, respMsg interface{}) error {
 	}
 
 	if err := n.endpoint.Call(proc, reqMsg, respMsg); err != nil {
-		log.Fatal("cluster.call", "call failed to "+n.name, err)
+		log.Error("cluster.call", "call failed to "+n.name+": "+err.Error())
 
 		n.lock.Lock()
 		if n.connected {
-- 
2.43.0


From 8118add4659f3542d47c38873716d92b4db92574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:09 +0000
Subject: [PATCH 39/54] fix: server: refuse requests of clients that have not
 connected instead of crashing

---
 server/internal/hdl_conn.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 6a00808..0fb573f 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -87,6 +87,16 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 		c.service.stats.PrecisionTiming("conn_time_ns", time.Since(start), stats.IntTag("status", status))
 	}()
 
+	// Until it is accepted a client may only connect.
+	if c.clientID == nil {
+		switch inMsg.Type() {
+		case utp.CONNECT, utp.PINGREQ, utp.DISCONNECT:
+		default:
+			status = types.ErrUnauthorized.Status
+			return types.ErrUnauthorized
+		}
+	}
+
 	switch inMsg.Type() {
 	// An attempt to connect.
 	case utp.CONNECT:
-- 
2.43.0


From bab73827d389b4a48d7c0b4875e6e3a315c86af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:41 +0000
Subject: [PATCH 40/54] fix: server: queueing a message for a client that
 disconnects neither panics nor blocks forever

---
 server/internal/conn.go     | 18 ++++++++++++++----
 server/internal/hdl_conn.go | 16 ++++++++--------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index 0f8fd83..922e8ed 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -122,6 +122,16 @@ func (c *_Conn) Type() message.SubscriberType {
 	return message.SubscriberDirect
 }
 
+// enqueue queues the message for the client unless the connection is closed.
+func (c *_Conn) enqueue(m lp.MessagePack) bool {
+	select {
+	case c.send <- m:
+		return true
+	case <-c.closeC:
+		return false
+	}
+}
+
 // Send forwards the message to the underlying client.
 func (c *_Conn) SendMessage(msg *message.Message) bool {
 	pubMsg := &utp.PublishMessage{
@@ -149,6 +159,8 @@ func (c *_Conn) SendMessage(msg *message.Message) bool {
 	// Acknowledge the publication
 	select {
 	case c.pub <- pub:
+	case <-c.closeC:
+		return false
 	case <-time.After(publishWaitTimeout):
 		return false
 	}
@@ -283,7 +295,7 @@ func (c *_Conn) publish(pub utp.Publish, topic *security.Topic, pubMsg *utp.Publ
 					}
 					// persist outbound
 					store.Log.PersistOutbound(uint32(sub.sessID), &pub)
-					sub.send <- notify
+					sub.enqueue(notify)
 				// Subscriber's DeliveryMode EXPRESS
 				case 0:
 					if !sub.SendMessage(msg) {
@@ -333,7 +345,7 @@ func (c *_Conn) resume(prefix uint32) {
 					FlowControl: utp.NOTIFY,
 					MessageID:   pub.MessageID,
 				}
-				c.send <- notify
+				c.enqueue(notify)
 			default:
 				store.Log.Delete(k)
 			}
@@ -413,8 +425,6 @@ func (c *_Conn) close() error {
 	Globals.connCache.delete(c.connID)
 	defer log.ConnLogger.Info().Str("context", "conn.close").Int64("connid", int64(c.connID)).Msg("conn closed")
 	Globals.Cluster.connGone(c)
-	close(c.send)
-
 	c.batchManager.close()
 
 	// Decrement the connection counter
diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 0fb573f..62579c3 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -122,7 +122,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			FlowControl: utp.ACKNOWLEDGE,
 			Message:     rawAck.Bytes(),
 		}
-		c.send <- ack
+		c.enqueue(ack)
 
 		if err == types.ErrInvalidClientID {
 			c.sendClientID(clientID.Encode(c.service.mac))
@@ -186,7 +186,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			return nil
 		}
 
-		c.send <- ack
+		c.enqueue(ack)
 	// An attempt to subscribe to a topic.
 	case utp.SUBSCRIBE:
 		m := *inMsg.(*utp.Subscribe)
@@ -209,7 +209,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			return nil
 		}
 
-		c.send <- ack
+		c.enqueue(ack)
 
 	// An attempt to unsubscribe from a topic.
 	case utp.UNSUBSCRIBE:
@@ -231,7 +231,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			return nil
 		}
 
-		c.send <- ack
+		c.enqueue(ack)
 
 	// Ping response, respond appropriately.
 	case utp.PINGREQ:
@@ -239,7 +239,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			MessageType: utp.PINGREQ,
 			FlowControl: utp.ACKNOWLEDGE,
 		}
-		c.send <- ack
+		c.enqueue(ack)
 
 	case utp.PUBLISH:
 		m := *inMsg.(*utp.Publish)
@@ -262,7 +262,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			}
 			switch msg.(type) {
 			case *utp.Publish:
-				c.send <- msg
+				c.enqueue(msg)
 			}
 		case utp.RECEIPT:
 			comp := &utp.ControlMessage{
@@ -271,7 +271,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 				MessageID:   ctrlMsg.MessageID,
 			}
 			c.storeOutbound(comp)
-			c.send <- comp
+			c.enqueue(comp)
 		}
 	}
 
@@ -490,7 +490,7 @@ func (c *_Conn) acknowledge(pub utp.Publish) *types.Error {
 		FlowControl: utp.ACKNOWLEDGE,
 		MessageID:   pub.MessageID,
 	}
-	c.send <- ack
+	c.enqueue(ack)
 	return nil
 }
 
-- 
2.43.0


From fb5d20f254f03819b1812c503a05eb13ebf90124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:43 +0000
Subject: [PATCH 41/54] fix: server: batches are added and collected under the
 lock and not after the connection is closed

---
 server/internal/batch.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/server/internal/batch.go b/server/internal/batch.go
index dcd6986..d272973 100644
--- a/server/internal/batch.go
+++ b/server/internal/batch.go
@@ -93,6 +93,12 @@ func (m *batchManager) close() {
 func (m *batchManager) add(delay int32, pubMsg *utp.PublishMessage) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	select {
+	case <-m.stop:
+		// the connection is closed
+		return
+	default:
+	}
 	timeID := m.TimeID(delay)
 	b, ok := m.batchGroup[timeID]
 	if !ok {
@@ -128,27 +134,27 @@ func (m *batchManager) publishLoop(interval time.Duration) {
 		select {
 		case <-m.stop:
 			timeNow := timeID(TimeNow().UnixNano())
+			m.mu.Lock()
 			for timeID, batch := range m.batchGroup {
 				if timeID < timeNow {
-					m.mu.Lock()
 					m.push(batch)
 					delete(m.batchGroup, timeID)
-					m.mu.Unlock()
 				}
 			}
 			close(m.publishQueue)
+			m.mu.Unlock()
 
 			return
 		case <-publishC:
 			timeNow := timeID(TimeNow().UnixNano())
+			m.mu.Lock()
 			for timeID, batch := range m.batchGroup {
 				if timeID < timeNow {
-					m.mu.Lock()
 					m.push(batch)
 					delete(m.batchGroup, timeID)
-					m.mu.Unlock()
 				}
 			}
+			m.mu.Unlock()
 		}
 	}
 }
@@ -196,6 +202,7 @@ func (m *batchManager) publish(c *_Conn, publishWaitTimeout time.Duration) {
 
 			select {
 			case c.pub <- pub:
+			case <-c.closeC:
 			case <-time.After(publishWaitTimeout):
 				// b.r.setError(errors.New("publish timeout error occurred"))
 			}
@@ -208,6 +215,7 @@ func (m *batchManager) publish(c *_Conn, publishWaitTimeout time.Duration) {
 				store.Log.PersistOutbound(uint32(c.connID), pub)
 				select {
 				case c.pub <- pub:
+				case <-c.closeC:
 				case <-time.After(publishWaitTimeout):
 					// b.r.setError(errors.New("publish timeout error occurred"))
 				}
-- 
2.43.0


From 56d53057d28103218d1fb8eee96823ca642a7a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 42/54] fix: server: count subscriptions by topic, so that they
 can be cancelled without a key and one key can be used for several topics

---
 server/internal/conn.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index 922e8ed..97b32d9 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -193,14 +193,8 @@ func (c *_Conn) subscribe(subMsg utp.Subscribe, topic *security.Topic, sub *utp.
 	c.Lock()
 	defer c.Unlock()
 
-	key := string(topic.Key)
-	if key == "" {
-		key, err = security.GenerateKey(c.clientID.Contract(), topic.Topic, security.AllowNone)
-		if err != nil {
-			log.ErrLogger.Err(err).Str("context", "conn.subscribe")
-			return err
-		}
-	}
+	// The subscription is to the topic, whatever the key it was asked with.
+	key := topic.Topic[:topic.Size]
 	if exists := c.subs.Exist(key); exists && !subMsg.IsForwarded && Globals.Cluster.isRemoteContract(fmt.Sprint(c.clientID.Contract())) {
 		// The contract is handled by a remote node. Forward message to it.
 		if err := Globals.Cluster.routeToContract(&subMsg, topic, message.SUBSCRIBE, &message.Message{}, c); err != nil {
@@ -235,7 +229,7 @@ func (c *_Conn) unsubscribe(unsubMsg utp.Unsubscribe, topic *security.Topic) (er
 	c.Lock()
 	defer c.Unlock()
 
-	key := string(topic.Key)
+	key := topic.Topic[:topic.Size]
 	// Remove the subscription from stats and if there's no more subscriptions, notify everyone.
 	if last, messageID := c.subs.Decrement(topic.Topic[:topic.Size], key); last {
 		// Unsubscribe the subscriber
-- 
2.43.0


From baf1e0cb52c945b5dc2fcbe1740ad6023fa232b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:22 +0000
Subject: [PATCH 43/54] fix: server: number and store the messages for a
 subscriber by themselves, not under the number and with the contents of the
 publisher's request

---
 server/internal/conn.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index 97b32d9..8c6f3db 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -268,14 +268,14 @@ func (c *_Conn) publish(pub utp.Publish, topic *security.Topic, pubMsg *utp.Publ
 		Payload:   pubMsg.Payload,
 	}
 	for _, subscription := range subscriptions {
+		msg := &message.Message{Topic: msg.Topic, Payload: msg.Payload}
 		msg.DeliveryMode = subscription[0]
 		connID := uid.LID(binary.LittleEndian.Uint32(subscription[1:5]))
 		msg.Delay = int32(uid.LID(binary.LittleEndian.Uint32(subscription[5:9])))
 		sub := Globals.connCache.get(connID)
 		if sub != nil {
-			if msg.MessageID == 0 {
-				msg.MessageID = uint16(c.MessageIds.NextID(utp.PUBLISH))
-			}
+			// The numbers of the messages sent to a subscriber are its own, not the publisher's.
+			msg.MessageID = uint16(sub.MessageIds.NextID(utp.PUBLISH))
 			switch pub.DeliveryMode {
 			// Publisher's DeliveryMode RELIABLE or BATCH
 			case 1, 2:
@@ -288,7 +288,11 @@ func (c *_Conn) publish(pub utp.Publish, topic *security.Topic, pubMsg *utp.Publ
 						MessageID:   msg.MessageID,
 					}
 					// persist outbound
-					store.Log.PersistOutbound(uint32(sub.sessID), &pub)
+					store.Log.PersistOutbound(uint32(sub.sessID), &utp.Publish{
+						MessageID:    msg.MessageID,
+						DeliveryMode: pub.DeliveryMode,
+						Messages:     []*utp.PublishMessage{{Topic: msg.Topic, Payload: msg.Payload}},
+					})
 					sub.enqueue(notify)
 				// Subscriber's DeliveryMode EXPRESS
 				case 0:
-- 
2.43.0


From c1ea998b1a47a90b68c364737516b7eb26614823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:24 +0000
Subject: [PATCH 44/54] fix: server: pending messages of half of the sessions
 were deleted instead of offered again

---
 server/internal/conn.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index 8c6f3db..5d2773f 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -332,22 +332,17 @@ func (c *_Conn) resume(prefix uint32) {
 			continue
 		}
 
-		// isKeyOutbound
-		if (k & (1 << 4)) == 0 {
-			switch msg.Type() {
-			case utp.PUBLISH:
-				pub := msg.(*utp.Publish)
-				c.MessageIds.ResumeID(message.MID(pub.MessageID))
-				notify := &utp.ControlMessage{
-					MessageType: utp.PUBLISH,
-					FlowControl: utp.NOTIFY,
-					MessageID:   pub.MessageID,
-				}
-				c.enqueue(notify)
-			default:
-				store.Log.Delete(k)
+		switch msg.Type() {
+		case utp.PUBLISH:
+			pub := msg.(*utp.Publish)
+			c.MessageIds.ResumeID(message.MID(pub.MessageID))
+			notify := &utp.ControlMessage{
+				MessageType: utp.PUBLISH,
+				FlowControl: utp.NOTIFY,
+				MessageID:   pub.MessageID,
 			}
-		} else {
+			c.enqueue(notify)
+		default:
 			store.Log.Delete(k)
 		}
 	}
-- 
2.43.0


From d1d61074a762bdad6c123926bc37e4c934a1a4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 45/54] fix: server: a resumed session lost its messages when
 it was resumed again

---
 server/internal/hdl_conn.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 62579c3..554a2ba 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -149,13 +149,13 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 		// Take care of any messages in the store
 		sessID := c.sessID
 		if rawSess, err := store.Session.Get(uint64(sessKey)); err == nil {
-			sessID := binary.LittleEndian.Uint32(rawSess[:4])
+			sessID = uid.LID(binary.LittleEndian.Uint32(rawSess[:4]))
 			if !m.CleanSessFlag {
-				c.resume(sessID)
+				c.resume(uint32(sessID))
 			} else {
-				store.Log.Reset(sessID)
+				store.Log.Reset(uint32(sessID))
 			}
-			c.sessID = uid.LID(sessID)
+			c.sessID = sessID
 		}
 		rawSess := make([]byte, 4)
 		binary.LittleEndian.PutUint32(rawSess[0:4], uint32(sessID))
-- 
2.43.0


From 6d6f9580e7b15cec66058cee44bc2c00e126b4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 46/54] fix: server: clients of different contracts with the
 same session key shared a session

---
 server/internal/conn.go        | 6 ++++++
 server/internal/hdl_conn.go    | 6 +++---
 server/internal/store/store.go | 3 ++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index 5d2773f..f6110f6 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -378,6 +378,12 @@ func TimeNow() time.Time {
 	return time.Now().UTC().Round(time.Millisecond)
 }
 
+// sessionKey is the key a session is stored with. Sessions of different contracts are different, and the
+// highest bit tells sessions from the messages of the log.
+func (c *_Conn) sessionKey(sessKey int32) uint64 {
+	return 1<<63 | uint64(c.clientID.Contract())<<32 | uint64(uint32(sessKey))
+}
+
 func (c *_Conn) storeInbound(m lp.MessagePack) {
 	if c.clientID != nil {
 		store.Log.PersistInbound(uint32(c.sessID), m)
diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 554a2ba..d88e680 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -148,7 +148,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 
 		// Take care of any messages in the store
 		sessID := c.sessID
-		if rawSess, err := store.Session.Get(uint64(sessKey)); err == nil {
+		if rawSess, err := store.Session.Get(c.sessionKey(sessKey)); err == nil {
 			sessID = uid.LID(binary.LittleEndian.Uint32(rawSess[:4]))
 			if !m.CleanSessFlag {
 				c.resume(uint32(sessID))
@@ -159,9 +159,9 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 		}
 		rawSess := make([]byte, 4)
 		binary.LittleEndian.PutUint32(rawSess[0:4], uint32(sessID))
-		store.Session.Put(uint64(sessKey), rawSess)
+		store.Session.Put(c.sessionKey(sessKey), rawSess)
 		if sessKey != int32(c.clientID.Epoch()) {
-			store.Session.Put(uint64(c.clientID.Epoch()), rawSess)
+			store.Session.Put(c.sessionKey(int32(c.clientID.Epoch())), rawSess)
 		}
 	case utp.DISCONNECT:
 		go c.clientDisconnect(errors.New("client initiated disconnect")) // no harm in calling this if the connection is already down (better than stopping!)
diff --git a/server/internal/store/store.go b/server/internal/store/store.go
index 3a1c1bf..4f87424 100644
--- a/server/internal/store/store.go
+++ b/server/internal/store/store.go
@@ -284,5 +284,6 @@ func (l *MessageLog) Reset(prefix uint32) {
 }
 
 func evalPrefix(prefix uint32, key uint64) bool {
-	return uint64(prefix) == key&0xFFFFFFFF
+	// the numbers of messages are 16 bits; larger keys are not those of messages
+	return uint64(prefix) == key&0xFFFFFFFF && key>>48 == 0
 }
-- 
2.43.0


From 6407bce9fbd5d3a88bbc9d0940b8be08cb113941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:47 +0000
Subject: [PATCH 47/54] fix: server: error replies of different connections
 shared one message number

---
 server/internal/conn.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index f6110f6..b531d61 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -358,8 +358,9 @@ func (c *_Conn) sendClientID(clientidentifier string) {
 
 // notifyError notifies the connection about an error
 func (c *_Conn) notifyError(err *types.Error, messageID uint16) {
-	err.ID = int(messageID)
-	if b, err := json.Marshal(err); err == nil {
+	reply := *err // the errors are shared by all connections
+	reply.ID = int(messageID)
+	if b, err := json.Marshal(&reply); err == nil {
 		c.SendMessage(&message.Message{
 			Topic:   "unitdb/error/",
 			Payload: b,
-- 
2.43.0


From a2a04b8a6cc68e5e5503aa62d27ead25487e2c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:27 +0000
Subject: [PATCH 48/54] fix: a new cluster leader rehashes with the nodes it
 announces

---
 server/internal/cluster_leader.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/server/internal/cluster_leader.go b/server/internal/cluster_leader.go
index 5aac0bd..be1ec3b 100644
--- a/server/internal/cluster_leader.go
+++ b/server/internal/cluster_leader.go
@@ -185,22 +185,27 @@ func (c *Cluster) sendPings() {
 	}
 
 	if rehash {
-		var activeNodes []string
-		for _, node := range c.nodes {
-			if node.failCount < c.fo.nodeFailCountLimit {
-				activeNodes = append(activeNodes, node.name)
-			}
-		}
-		activeNodes = append(activeNodes, c.thisNodeName)
-
-		c.fo.activeNodes = activeNodes
-		c.rehash(activeNodes)
+		c.rehashActive()
 
-		log.Println("cluster: initiating failover rehash for nodes", activeNodes)
+		log.Println("cluster: initiating failover rehash for nodes", c.fo.activeNodes)
 		//globals.hub.rehash <- true
 	}
 }
 
+// rehashActive rehashes with the nodes which this node, as the leader, considers active.
+func (c *Cluster) rehashActive() {
+	var activeNodes []string
+	for _, node := range c.nodes {
+		if node.failCount < c.fo.nodeFailCountLimit {
+			activeNodes = append(activeNodes, node.name)
+		}
+	}
+	activeNodes = append(activeNodes, c.thisNodeName)
+
+	c.fo.activeNodes = activeNodes
+	c.rehash(activeNodes)
+}
+
 func (c *Cluster) electLeader() {
 	// Increment the term (voting for myself in this term) and clear the leader
 	c.fo.term++
@@ -252,6 +257,8 @@ func (c *Cluster) electLeader() {
 	if voteCount >= expectVotes {
 		// Current node elected as the leader
 		c.fo.leader = c.thisNodeName
+		// The ring may be the one of the previous leader: make it agree with the nodes announced in pings.
+		c.rehashActive()
 		log.Println("Elected myself as a new leader")
 	}
 }
-- 
2.43.0


From f25138d1250a37f376f6f40b54e811f462f20161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:50 +0000
Subject: [PATCH 49/54] fix: queries return the most recent entries when
 entries are not synced in order

---
 time_window.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/time_window.go b/time_window.go
index 4c5db84..51ae2f1 100644
--- a/time_window.go
+++ b/time_window.go
@@ -19,6 +19,7 @@ package unitdb
 import (
 	"encoding/binary"
 	"fmt"
+	"sort"
 	"sync"
 	"time"
 
@@ -261,9 +262,24 @@ func (tw *_TimeWindowBucket) ilookup(topicHash uint64) (winEntries _WindowEntrie
 	return winEntries
 }
 
+// recentSeq sorts window entries in the reverse order of sequence and returns sequence of the last
+// of the most recent entries up to the limit. It returns zero if limit is not reached.
+func (w _WindowEntries) recentSeq(limit int) uint64 {
+	if len(w) == 0 || len(w) < limit {
+		return 0
+	}
+	sort.Slice(w[:], func(i, j int) bool {
+		return w[i].seq() > w[j].seq()
+	})
+	return w[limit-1].seq()
+}
+
 // lookup lookups window entries from timeWindowBucket and then from window file until limit is reached.
 // It returns true if there are more entries in the window file.
 //
+// Entries are not synced in the order of sequence if those are put while a batch is committed or if ID of
+// an entry was generated earlier, so blocks are read until a block does not have any more recent entries.
+//
 // Window offset is read after the lookup from timeWindowBucket so that
 // entries are found when those are synced to the DB during lookup.
 func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, winOffset func() int64, cutoff int64, limit int) (winEntries _WindowEntries, more bool, err error) {
@@ -272,9 +288,10 @@ func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, winOffset fu
 	if err != nil {
 		return winEntries, false, err
 	}
-	for off := winOffset(); off != 0; {
-		if len(winEntries) >= limit {
-			return winEntries, true, nil
+	minSeq := winEntries.recentSeq(limit)
+	for off, recent := winOffset(), true; off != 0; {
+		if len(winEntries) >= limit && !recent {
+			return winEntries[:limit], true, nil
 		}
 		r := _WindowReader{winFile: winFile, offset: off}
 		b, err := r.readWindowBlock()
@@ -288,6 +305,8 @@ func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, winOffset fu
 		if b.cutoff(cutoff) {
 			break
 		}
+		seq := winEntries.recentSeq(limit)
+		recent, minSeq = seq > minSeq, seq
 		off = b.next
 	}
 
-- 
2.43.0


From 27711b02c9178812e20fe7f5bc5bf1dcf60b0965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:52 +0000
Subject: [PATCH 50/54] fix: entries are logged when memdb is small and over
 its capacity

---
 memdb/tiny_log.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/memdb/tiny_log.go b/memdb/tiny_log.go
index 7b374fc..c49da00 100644
--- a/memdb/tiny_log.go
+++ b/memdb/tiny_log.go
@@ -181,6 +181,13 @@ func (p *_TinyLogManager) timeID() _TimeID {
 	return p.tinyLog.timeID()
 }
 
+// age returns duration since the tinyLog is created.
+func (p *_TinyLogManager) age() time.Duration {
+	p.mu.RLock()
+	defer p.mu.RUnlock()
+	return time.Since(time.Unix(0, int64(p.tinyLog.id)))
+}
+
 // size returns maximum number of concurrent jobs.
 func (p *_TinyLogManager) size() int {
 	return p.opts.poolCapacity
@@ -290,7 +297,8 @@ func (p *_TinyLogManager) writeLoop(interval time.Duration) {
 				block.RLock()
 				size := block.data.Size()
 				block.RUnlock()
-				if size < 1<<20 {
+				// entries are not held back for longer than the duration of a time block.
+				if size < 1<<20 && p.age() < p.opts.blockDuration {
 					break
 				}
 				fallthrough
-- 
2.43.0


From 3f592aa25522c00624791f6a49a70b19119f8c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:44 +0000
Subject: [PATCH 51/54] fix: figures of a live series are those of its latest
 samples, in order

---
 metrics/sample.go                     | 28 +++++++++++++--------------
 server/internal/pkg/metrics/sample.go | 28 +++++++++++++--------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/metrics/sample.go b/metrics/sample.go
index 4b562c8..620df10 100644
--- a/metrics/sample.go
+++ b/metrics/sample.go
@@ -85,46 +85,46 @@ func (s *_Sample) Reset() {
 }
 
 // Cumulative returns cumulative time of all sampled events.
-func (s *_Sample) Cumulative() time.Duration { return s.Times.cumulative() }
+func (s *_Sample) Cumulative() time.Duration { return s.Snapshot().Cumulative() }
 
 // HMean returns event duration harmonic mean.
-func (s *_Sample) HMean() time.Duration { return s.Times.hMean() }
+func (s *_Sample) HMean() time.Duration { return s.Snapshot().HMean() }
 
 // Avg returns average of number of events recorded.
-func (s *_Sample) Avg() time.Duration { return s.Times.avg() }
+func (s *_Sample) Avg() time.Duration { return s.Snapshot().Avg() }
 
 // P50 returns event duration nth percentiles.
-func (s *_Sample) P50() time.Duration { return s.Times[s.Times.Len()/2] }
+func (s *_Sample) P50() time.Duration { return s.Snapshot().P50() }
 
 // P75 returns event duration nth percentiles.
-func (s *_Sample) P75() time.Duration { return s.Times.p(0.75) }
+func (s *_Sample) P75() time.Duration { return s.Snapshot().P75() }
 
 // P95 returns event duration nth percentiles.
-func (s *_Sample) P95() time.Duration { return s.Times.p(0.95) }
+func (s *_Sample) P95() time.Duration { return s.Snapshot().P95() }
 
 // P99 returns event duration nth percentiles.
-func (s *_Sample) P99() time.Duration { return s.Times.p(0.99) }
+func (s *_Sample) P99() time.Duration { return s.Snapshot().P99() }
 
 // P999 returns event duration nth percentiles.
-func (s *_Sample) P999() time.Duration { return s.Times.p(0.999) }
+func (s *_Sample) P999() time.Duration { return s.Snapshot().P999() }
 
 // StdDev returns standard deviation.
-func (s *_Sample) StdDev() time.Duration { return s.Times.stdDev() }
+func (s *_Sample) StdDev() time.Duration { return s.Snapshot().StdDev() }
 
 // Long5p returns average of the longest 5% event durations.
-func (s *_Sample) Long5p() time.Duration { return s.Times.long5p() }
+func (s *_Sample) Long5p() time.Duration { return s.Snapshot().Long5p() }
 
 // Short5p returns average of the shortest 5% event durations.
-func (s *_Sample) Short5p() time.Duration { return s.Times.short5p() }
+func (s *_Sample) Short5p() time.Duration { return s.Snapshot().Short5p() }
 
 // Min returns lowest event duration.
-func (s *_Sample) Min() time.Duration { return s.Times.min() }
+func (s *_Sample) Min() time.Duration { return s.Snapshot().Min() }
 
 // Max returns highest event duration.
-func (s *_Sample) Max() time.Duration { return s.Times.max() }
+func (s *_Sample) Max() time.Duration { return s.Snapshot().Max() }
 
 // Range returns event duration range (Max-Min).
-func (s *_Sample) Range() time.Duration { return s.Times.srange() }
+func (s *_Sample) Range() time.Duration { return s.Snapshot().Range() }
 
 // AddTime adds a time.Duration to metrics.
 func (s *_Sample) AddTime(t time.Duration) {
diff --git a/server/internal/pkg/metrics/sample.go b/server/internal/pkg/metrics/sample.go
index ea9413a..5d4fec5 100644
--- a/server/internal/pkg/metrics/sample.go
+++ b/server/internal/pkg/metrics/sample.go
@@ -84,46 +84,46 @@ func (s *sample) Reset() {
 }
 
 // Cumulative returns cumulative time of all sampled events.
-func (s *sample) Cumulative() time.Duration { return s.Times.cumulative() }
+func (s *sample) Cumulative() time.Duration { return s.Snapshot().Cumulative() }
 
 // HMean returns event duration harmonic mean.
-func (s *sample) HMean() time.Duration { return s.Times.hMean() }
+func (s *sample) HMean() time.Duration { return s.Snapshot().HMean() }
 
 // Avg returns average of number of events recorded.
-func (s *sample) Avg() time.Duration { return s.Times.avg() }
+func (s *sample) Avg() time.Duration { return s.Snapshot().Avg() }
 
 // P50 returns event duration nth percentiles ..
-func (s *sample) P50() time.Duration { return s.Times[s.Times.Len()/2] }
+func (s *sample) P50() time.Duration { return s.Snapshot().P50() }
 
 // P75 returns event duration nth percentiles ..
-func (s *sample) P75() time.Duration { return s.Times.p(0.75) }
+func (s *sample) P75() time.Duration { return s.Snapshot().P75() }
 
 // P95 returns event duration nth percentiles ..
-func (s *sample) P95() time.Duration { return s.Times.p(0.95) }
+func (s *sample) P95() time.Duration { return s.Snapshot().P95() }
 
 // P99 returns event duration nth percentiles ..
-func (s *sample) P99() time.Duration { return s.Times.p(0.99) }
+func (s *sample) P99() time.Duration { return s.Snapshot().P99() }
 
 // P999 returns event duration nth percentiles ..
-func (s *sample) P999() time.Duration { return s.Times.p(0.999) }
+func (s *sample) P999() time.Duration { return s.Snapshot().P999() }
 
 // StdDev returns standard deviation.
-func (s *sample) StdDev() time.Duration { return s.Times.stdDev() }
+func (s *sample) StdDev() time.Duration { return s.Snapshot().StdDev() }
 
 // Long5p returns average of the longest 5% event durations.
-func (s *sample) Long5p() time.Duration { return s.Times.long5p() }
+func (s *sample) Long5p() time.Duration { return s.Snapshot().Long5p() }
 
 // Short5p returns average of the shortest 5% event durations.
-func (s *sample) Short5p() time.Duration { return s.Times.short5p() }
+func (s *sample) Short5p() time.Duration { return s.Snapshot().Short5p() }
 
 // Min returns lowest event duration.
-func (s *sample) Min() time.Duration { return s.Times.min() }
+func (s *sample) Min() time.Duration { return s.Snapshot().Min() }
 
 // Max returns highest event duration.
-func (s *sample) Max() time.Duration { return s.Times.max() }
+func (s *sample) Max() time.Duration { return s.Snapshot().Max() }
 
 //  Range returns event duration range (Max-Min).
-func (s *sample) Range() time.Duration { return s.Times.srange() }
+func (s *sample) Range() time.Duration { return s.Snapshot().Range() }
 
 // AddTime adds a time.Duration to metrics.
 func (s *sample) AddTime(t time.Duration) {
-- 
2.43.0


From 74776c13a9abfaf467015e0c466710547d1d9251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:55 +0000
Subject: [PATCH 52/54] fix: figures of a series without samples are zero

---
 metrics/sample.go                     | 33 ++++++++++++++++++++++++++-
 server/internal/pkg/metrics/sample.go | 33 ++++++++++++++++++++++++++-
 2 files changed, 64 insertions(+), 2 deletions(-)

diff --git a/metrics/sample.go b/metrics/sample.go
index 620df10..b5ec678 100644
--- a/metrics/sample.go
+++ b/metrics/sample.go
@@ -186,7 +186,7 @@ func (s *SampleSnapshot) HMean() time.Duration { return s.timeSlice.hMean() }
 func (s *SampleSnapshot) Avg() time.Duration { return s.timeSlice.avg() }
 
 // P50 returns event duration nth percentiles.
-func (s *SampleSnapshot) P50() time.Duration { return s.timeSlice[s.timeSlice.Len()/2] }
+func (s *SampleSnapshot) P50() time.Duration { return s.timeSlice.p50() }
 
 // P75 returns event duration nth percentiles.
 func (s *SampleSnapshot) P75() time.Duration { return s.timeSlice.p(0.75) }
@@ -243,6 +243,9 @@ func (ts _TimeSlice) cumulative() time.Duration {
 }
 
 func (ts _TimeSlice) hMean() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	var total float64
 
 	for _, t := range ts {
@@ -253,6 +256,9 @@ func (ts _TimeSlice) hMean() time.Duration {
 }
 
 func (ts _TimeSlice) avg() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	var total time.Duration
 	for _, t := range ts {
 		total += t
@@ -260,11 +266,24 @@ func (ts _TimeSlice) avg() time.Duration {
 	return time.Duration(int(total) / ts.Len())
 }
 
+func (ts _TimeSlice) p50() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
+	return ts[ts.Len()/2]
+}
+
 func (ts _TimeSlice) p(p float64) time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	return ts[int(float64(ts.Len())*p+0.5)-1]
 }
 
 func (ts _TimeSlice) stdDev() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	m := ts.avg()
 	s := 0.00
 
@@ -278,6 +297,9 @@ func (ts _TimeSlice) stdDev() time.Duration {
 }
 
 func (ts _TimeSlice) long5p() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	set := ts[int(float64(ts.Len())*0.95+0.5):]
 
 	if len(set) <= 1 {
@@ -295,6 +317,9 @@ func (ts _TimeSlice) long5p() time.Duration {
 }
 
 func (ts _TimeSlice) short5p() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	set := ts[:int(float64(ts.Len())*0.05+0.5)]
 
 	if len(set) <= 1 {
@@ -312,10 +337,16 @@ func (ts _TimeSlice) short5p() time.Duration {
 }
 
 func (ts _TimeSlice) min() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	return ts[0]
 }
 
 func (ts _TimeSlice) max() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	return ts[ts.Len()-1]
 }
 
diff --git a/server/internal/pkg/metrics/sample.go b/server/internal/pkg/metrics/sample.go
index 5d4fec5..a326fe9 100644
--- a/server/internal/pkg/metrics/sample.go
+++ b/server/internal/pkg/metrics/sample.go
@@ -184,7 +184,7 @@ func (s *SampleSnapshot) HMean() time.Duration { return s.timeSlice.hMean() }
 func (s *SampleSnapshot) Avg() time.Duration { return s.timeSlice.avg() }
 
 // P50 returns event duration nth percentiles ..
-func (s *SampleSnapshot) P50() time.Duration { return s.timeSlice[s.timeSlice.Len()/2] }
+func (s *SampleSnapshot) P50() time.Duration { return s.timeSlice.p50() }
 
 // P75 returns event duration nth percentiles ..
 func (s *SampleSnapshot) P75() time.Duration { return s.timeSlice.p(0.75) }
@@ -241,6 +241,9 @@ func (ts timeSlice) cumulative() time.Duration {
 }
 
 func (ts timeSlice) hMean() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	var total float64
 
 	for _, t := range ts {
@@ -251,6 +254,9 @@ func (ts timeSlice) hMean() time.Duration {
 }
 
 func (ts timeSlice) avg() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	var total time.Duration
 	for _, t := range ts {
 		total += t
@@ -258,11 +264,24 @@ func (ts timeSlice) avg() time.Duration {
 	return time.Duration(int(total) / ts.Len())
 }
 
+func (ts timeSlice) p50() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
+	return ts[ts.Len()/2]
+}
+
 func (ts timeSlice) p(p float64) time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	return ts[int(float64(ts.Len())*p+0.5)-1]
 }
 
 func (ts timeSlice) stdDev() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	m := ts.avg()
 	s := 0.00
 
@@ -276,6 +295,9 @@ func (ts timeSlice) stdDev() time.Duration {
 }
 
 func (ts timeSlice) long5p() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	set := ts[int(float64(ts.Len())*0.95+0.5):]
 
 	if len(set) <= 1 {
@@ -293,6 +315,9 @@ func (ts timeSlice) long5p() time.Duration {
 }
 
 func (ts timeSlice) short5p() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	set := ts[:int(float64(ts.Len())*0.05+0.5)]
 
 	if len(set) <= 1 {
@@ -310,10 +335,16 @@ func (ts timeSlice) short5p() time.Duration {
 }
 
 func (ts timeSlice) min() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	return ts[0]
 }
 
 func (ts timeSlice) max() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	return ts[ts.Len()-1]
 }
 
-- 
2.43.0


From 2f8f43159dbdee975379f1f9e90265be09d2de13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:08 +0000
Subject: [PATCH 53/54] fix: metrics reported after the shutdown of the
 reporter are ignored

---
 server/internal/pkg/stats/buffers.go | 6 ++++++
 server/internal/pkg/stats/stats.go   | 5 +++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/server/internal/pkg/stats/buffers.go b/server/internal/pkg/stats/buffers.go
index 9fedd8c..c134dbd 100644
--- a/server/internal/pkg/stats/buffers.go
+++ b/server/internal/pkg/stats/buffers.go
@@ -29,6 +29,12 @@ func (t *transport) checkBuf(lastLen int) {
 
 // flushBuf sends buffer to the queue and initializes new buffer
 func (t *transport) flushBuf(length int) {
+	if t.closed {
+		// nothing is sent after the shutdown
+		t.buf = t.buf[0:0]
+		return
+	}
+
 	sendBuf := t.buf[0:length]
 	tail := t.buf[length:len(t.buf)]
 
diff --git a/server/internal/pkg/stats/stats.go b/server/internal/pkg/stats/stats.go
index 0f4b1a3..e002cd5 100644
--- a/server/internal/pkg/stats/stats.go
+++ b/server/internal/pkg/stats/stats.go
@@ -56,6 +56,7 @@ type transport struct {
 	bufSize   int
 	bufLock   sync.Mutex
 	sendQueue chan []byte
+	closed    bool
 
 	shutdown     chan struct{}
 	shutdownOnce sync.Once
@@ -136,9 +137,9 @@ func (t *transport) flushLoop(flushInterval time.Duration) {
 			if len(t.buf) > 0 {
 				t.flushBuf(len(t.buf))
 			}
-			t.bufLock.Unlock()
-
+			t.closed = true
 			close(t.sendQueue)
+			t.bufLock.Unlock()
 			return
 		case <-flushC:
 			t.bufLock.Lock()
-- 
2.43.0


From 4d09abdbf8eb282874d3356d77274fa5f896c451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:41 +0000
Subject: [PATCH 54/54] fix: the reporter of metrics can be shut down while its
 server is unreachable

---
 server/internal/pkg/stats/stats.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/server/internal/pkg/stats/stats.go b/server/internal/pkg/stats/stats.go
index e002cd5..9b4ac71 100644
--- a/server/internal/pkg/stats/stats.go
+++ b/server/internal/pkg/stats/stats.go
@@ -207,8 +207,14 @@ RECONNECT:
 
 WAIT:
 	// Wait for a while
-	time.Sleep(retryTimeout)
-	goto RECONNECT
+	select {
+	case <-time.After(retryTimeout):
+		goto RECONNECT
+	case <-t.shutdown:
+		// the server cannot be reached
+		t.shutdownWg.Done()
+		return
+	}
 }
 
 // reportLoop reports periodically number of packets lost
-- 
2.43.0

