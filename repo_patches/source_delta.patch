From d5259892c876ac7d423f33fbd5dde417d832b062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:16 +0000
Subject: [PATCH 01/13] fix: ignore a key that is set and then deleted in the
 same block

MoeingADS.update treated the deletion of a key inserted earlier in the same
block as an insertion without next key, leaving the key live and unlinked.
---
 moeingads.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/moeingads.go b/moeingads.go
index 827df28..029a4cc 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -539,6 +539,9 @@ func (mads *MoeingADS) update() {
 		if isFakeInserted(hotEntry) {
 			continue
 		}
+		if hotEntry.Operation == types.OpDelete && hotEntry.EntryPtr.SerialNum < 0 {
+			continue // set and then deleted in the same block: it was never inserted
+		}
 		if hotEntry.Operation == types.OpDelete {
 			hotEntry.IsModified = true
 			next := getNext(mads.cachedEntries, i)
-- 
2.43.0


From 8a7e74da990db2fc2e6baa4508269b5e24f43835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:17 +0000
Subject: [PATCH 02/13] fix: advance the iterator past non-index records in
 NVTreeMem.Init

Init looped forever when the database also held metadata keys.
---
 indextree/indextree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indextree/indextree.go b/indextree/indextree.go
index ef3fadb..92a1108 100644
--- a/indextree/indextree.go
+++ b/indextree/indextree.go
@@ -137,6 +137,7 @@ func (tree *NVTreeMem) Init(repFn func([]byte)) (err error) {
 		k := iter.Key()
 		v := iter.Value()
 		if k[0] != 0 {
+			iter.Next()
 			continue // the first byte must be zero
 		}
 		k = k[1:]
-- 
2.43.0


From 9bc4357484d09c8298e932fccf47ee61a77175a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 03/13] fix: keep the twig roots which RecoverTree reads when
 pruning twigmt files

---
 datatree/tree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datatree/tree.go b/datatree/tree.go
index 99271bb..72e3f54 100644
--- a/datatree/tree.go
+++ b/datatree/tree.go
@@ -409,7 +409,8 @@ func (tree *Tree) PruneTwigs(startID, endID int64) []byte {
 	endPos := tree.twigMtFile.GetFirstEntryPos(endID)
 	//fmt.Printf("NOW entry prune till %d\n", endPos)
 	tree.entryFile.PruneHead(endPos)
-	tree.twigMtFile.PruneHead(endID * TwigMtSize)
+	// RecoverTree still reads the roots of the twigs from the left sibling of endID-1 on
+	tree.twigMtFile.PruneHead(((endID - 1) &^ 1) * TwigMtSize)
 	return tree.ReapNodes(startID, endID)
 }
 
-- 
2.43.0


From 24bb9fd14f67a34aea578a269a9a9fc5567ca9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 04/13] fix: persist lastPrunedTwig before removing pruned
 files

---
 datatree/mock_datatree.go |  7 +++++++
 datatree/tree.go          |  7 ++++++-
 moeingads.go              | 10 +++++++++-
 types/types.go            |  2 ++
 4 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/datatree/mock_datatree.go b/datatree/mock_datatree.go
index 797eeda..ffbb8f3 100644
--- a/datatree/mock_datatree.go
+++ b/datatree/mock_datatree.go
@@ -116,6 +116,13 @@ func (dt *MockDataTree) PruneTwigs(startID, endID int64) []byte {
 	return nil
 }
 
+func (dt *MockDataTree) PruneFiles(endID int64) {
+}
+
+func (dt *MockDataTree) ReapNodes(startID, endID int64) []byte {
+	return nil
+}
+
 func (dt *MockDataTree) GetFileSizes() (int64, int64) {
 	return 0, 0
 }
diff --git a/datatree/tree.go b/datatree/tree.go
index 72e3f54..8ef33d4 100644
--- a/datatree/tree.go
+++ b/datatree/tree.go
@@ -406,12 +406,17 @@ func (tree *Tree) PruneTwigs(startID, endID int64) []byte {
 	if endID-startID < MinPruneCount {
 		panic(fmt.Sprintf("The count of pruned twigs is too small: %d", endID-startID))
 	}
+	tree.PruneFiles(endID)
+	return tree.ReapNodes(startID, endID)
+}
+
+// Remove the files which only contain twigs before endID
+func (tree *Tree) PruneFiles(endID int64) {
 	endPos := tree.twigMtFile.GetFirstEntryPos(endID)
 	//fmt.Printf("NOW entry prune till %d\n", endPos)
 	tree.entryFile.PruneHead(endPos)
 	// RecoverTree still reads the roots of the twigs from the left sibling of endID-1 on
 	tree.twigMtFile.PruneHead(((endID - 1) &^ 1) * TwigMtSize)
-	return tree.ReapNodes(startID, endID)
 }
 
 func (tree *Tree) ReapNodes(start, end int64) []byte {
diff --git a/moeingads.go b/moeingads.go
index 029a4cc..9e574fc 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -737,7 +737,7 @@ func (mads *MoeingADS) PruneBeforeHeight(height int64) {
 	for shardID := 0; shardID < types.ShardCount; shardID++ {
 		start, end := starts[shardID], ends[shardID]
 		if end > start+datatree.MinPruneCount {
-			edgeNodesBytes := mads.datTree[shardID].PruneTwigs(start, end)
+			edgeNodesBytes := mads.datTree[shardID].ReapNodes(start, end)
 			mads.meta.SetEdgeNodes(shardID, edgeNodesBytes)
 			for twig := start; twig < end; twig++ {
 				mads.meta.DeleteTwigHeight(shardID, twig)
@@ -745,7 +745,15 @@ func (mads *MoeingADS) PruneBeforeHeight(height int64) {
 			mads.meta.SetLastPrunedTwig(shardID, end-1)
 		}
 	}
+	mads.meta.Commit()
 	mads.kvdb.CloseOldBatch()
+	// the files can be removed only after the new lastPrunedTwig and edgeNodes are on the disk
+	for shardID := 0; shardID < types.ShardCount; shardID++ {
+		start, end := starts[shardID], ends[shardID]
+		if end > start+datatree.MinPruneCount {
+			mads.datTree[shardID].PruneFiles(end)
+		}
+	}
 	mads.kvdb.SetPruneHeight(uint64(height))
 }
 
diff --git a/types/types.go b/types/types.go
index 83f1153..8408840 100644
--- a/types/types.go
+++ b/types/types.go
@@ -99,6 +99,8 @@ type DataTree interface {
 	ScanEntriesLite(oldestActiveTwigID int64, outChan chan KeyAndPos)
 	TwigCanBePruned(twigID int64) bool
 	PruneTwigs(startID, endID int64) []byte
+	PruneFiles(endID int64)
+	ReapNodes(startID, endID int64) []byte
 	GetFileSizes() (int64, int64)
 	EndBlock() [32]byte
 	WaitForFlushing()
-- 
2.43.0


From 77872fbb9ec36016aadaee20b0fc925cd1bbd135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:30 +0000
Subject: [PATCH 05/13] fix: remember the prune height across a restart

---
 metadb/metadb.go | 19 +++++++++++++++++++
 moeingads.go     |  6 ++++++
 types/types.go   |  3 +++
 3 files changed, 28 insertions(+)

diff --git a/metadb/metadb.go b/metadb/metadb.go
index d99c0f7..99ab2db 100644
--- a/metadb/metadb.go
+++ b/metadb/metadb.go
@@ -21,6 +21,7 @@ const (
 	ByteOldestActiveTwigID = byte(0x17)
 	ByteIsRunning          = byte(0x18) //Not Used
 	ByteRootHash           = byte(0x19)
+	BytePruneHeight        = byte(0x1A)
 )
 
 type MetaDB struct {
@@ -188,6 +189,24 @@ func (db *MetaDB) GetLastPrunedTwig(shardID int) int64 {
 	return db.lastPrunedTwig[shardID]
 }
 
+func (db *MetaDB) SetPruneHeight(height uint64) {
+	db.mtx.Lock()
+	defer db.mtx.Unlock()
+	var buf [8]byte
+	binary.LittleEndian.PutUint64(buf[:], height)
+	db.kvdb.LockBatch()
+	defer db.kvdb.UnlockBatch()
+	db.kvdb.CurrBatch().Set([]byte{BytePruneHeight}, buf[:])
+}
+
+func (db *MetaDB) GetPruneHeight() (height uint64, ok bool) {
+	bz := db.kvdb.Get([]byte{BytePruneHeight})
+	if len(bz) == 0 {
+		return 0, false
+	}
+	return binary.LittleEndian.Uint64(bz), true
+}
+
 func (db *MetaDB) GetEdgeNodes(shardID int) []byte {
 	return db.kvdb.Get([]byte{ByteEdgeNodes, byte(shardID)})
 }
diff --git a/moeingads.go b/moeingads.go
index 9e574fc..23a60d8 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -105,6 +105,9 @@ func NewMoeingADS(dirName string, canQueryHistory bool, startEndKeys [][]byte) (
 	mads.meta = metadb.NewMetaDB(mads.kvdb)
 	if !dirNotExists {
 		mads.meta.ReloadFromKVDB()
+		if h, ok := mads.meta.GetPruneHeight(); ok {
+			mads.kvdb.SetPruneHeight(h)
+		}
 		//mads.meta.PrintInfo()
 	}
 
@@ -745,6 +748,9 @@ func (mads *MoeingADS) PruneBeforeHeight(height int64) {
 			mads.meta.SetLastPrunedTwig(shardID, end-1)
 		}
 	}
+	if h, ok := mads.meta.GetPruneHeight(); !ok || h < uint64(height) {
+		mads.meta.SetPruneHeight(uint64(height))
+	}
 	mads.meta.Commit()
 	mads.kvdb.CloseOldBatch()
 	// the files can be removed only after the new lastPrunedTwig and edgeNodes are on the disk
diff --git a/types/types.go b/types/types.go
index 8408840..1c32b46 100644
--- a/types/types.go
+++ b/types/types.go
@@ -132,6 +132,9 @@ type MetaDB interface {
 	GetLastPrunedTwig(shardID int) int64
 
 	SetEdgeNodes(shardID int, bz []byte)
+	SetPruneHeight(height uint64)
+	GetPruneHeight() (height uint64, ok bool)
+
 	GetEdgeNodes(shardID int) []byte
 
 	// MaxSerialNum is the maximum serial num among all the entries
-- 
2.43.0


From 905d22460a8c7b47d0fd975a66307f0c2f5126c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:12 +0000
Subject: [PATCH 06/13] fix: drop the pre-read buffer when a record file is
 truncated

---
 datatree/hpfile.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/datatree/hpfile.go b/datatree/hpfile.go
index 487d29e..291d486 100644
--- a/datatree/hpfile.go
+++ b/datatree/hpfile.go
@@ -107,6 +107,7 @@ func (hpf *HPFile) Size() int64 {
 }
 
 func (hpf *HPFile) Truncate(size int64) error {
+	hpf.preReader.Invalidate() // it may hold bytes which are removed now
 	for size < int64(hpf.largestID)*int64(hpf.blockSize) {
 		f := hpf.fileMap[hpf.largestID]
 		err := f.Close()
@@ -314,6 +315,12 @@ func (pr *PreReader) Init() {
 	pr.buf = make([]byte, PreReadBufSize)
 }
 
+func (pr *PreReader) Invalidate() {
+	pr.mtx.Lock()
+	defer pr.mtx.Unlock()
+	pr.fileID = -1
+}
+
 func (pr *PreReader) GetToFill(fileID, start, end int64) []byte {
 	pr.fileID = fileID
 	pr.start = start
-- 
2.43.0


From e6cab6f652152933b6a6bf5cff9ea0b788c9894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:12 +0000
Subject: [PATCH 07/13] fix: keep the left sibling of the first kept twig when
 pruning nodes

---
 datatree/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datatree/tree.go b/datatree/tree.go
index 8ef33d4..b678dcb 100644
--- a/datatree/tree.go
+++ b/datatree/tree.go
@@ -428,7 +428,7 @@ func (tree *Tree) removeUselessNodes(start, end int64) {
 	maxLevel := calcMaxLevel(tree.youngestTwigID)
 	for level := FirstLevelAboveTwig - 1; level <= maxLevel; level++ {
 		endRound := end
-		if end%2 != 0 && level != FirstLevelAboveTwig-1 {
+		if end%2 != 0 { // proofs still need the left sibling of the first kept node
 			endRound--
 		}
 		for i := start - 1; i < endRound; i++ { // minus 1 from start to cover some margin nodes
-- 
2.43.0


From 0fb5625130599e45b8449680749ff156dc76b67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:24 +0000
Subject: [PATCH 08/13] fix: reject a serialised proof without an upper path
 instead of panicking in Check

---
 datatree/proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datatree/proof.go b/datatree/proof.go
index 7476cc5..381b029 100644
--- a/datatree/proof.go
+++ b/datatree/proof.go
@@ -49,7 +49,7 @@ func BytesToProofPath(bz []byte) (*ProofPath, error) {
 	pp := &ProofPath{}
 	n := len(bz) - 8
 	upperCount := n/32 - OtherNodeCount
-	if n%32 != 0 || upperCount < 0 {
+	if n%32 != 0 || upperCount <= 0 {
 		return nil, fmt.Errorf("Invalid byte slice length: %d", len(bz))
 	}
 	pp.UpperPath = make([]ProofNode, upperCount)
-- 
2.43.0


From a5989075de70501466eac470da67be912c0f28e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 09/13] fix: reject proofs whose serial number lies outside the
 tree

---
 datatree/proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datatree/proof.go b/datatree/proof.go
index 381b029..241427c 100644
--- a/datatree/proof.go
+++ b/datatree/proof.go
@@ -79,6 +79,9 @@ func BytesToProofPath(bz []byte) (*ProofPath, error) {
 }
 
 func (pp *ProofPath) Check(complete bool) error {
+	if (pp.SerialNum >> (TwigShift + len(pp.UpperPath))) != 0 { // these bits select no node of the path
+		return fmt.Errorf("Serial number %d is out of the tree", pp.SerialNum)
+	}
 	for i := 0; i < len(pp.LeftOfTwig)-1; i++ {
 		var res []byte
 		if pp.LeftOfTwig[i].PeerAtLeft {
-- 
2.43.0


From ed839fe040d27828da92fba141c58235a0fe01ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 10/13] fix: GetAtHeight at the largest height

---
 indextree/indextree.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/indextree/indextree.go b/indextree/indextree.go
index 92a1108..3d3f35a 100644
--- a/indextree/indextree.go
+++ b/indextree/indextree.go
@@ -241,9 +241,10 @@ func (tree *NVTreeMem) GetAtHeight(k []byte, height uint64) (position int64, ok
 	if h, enable := tree.kvdb.GetPruneHeight(); enable && height <= h {
 		return 0, false
 	}
-	newK := make([]byte, 1+len(k)+8) // all bytes equal zero
+	newK := make([]byte, 1+len(k)+8+1) // all bytes equal zero
 	copy(newK[1:], k)
-	binary.BigEndian.PutUint64(newK[1+len(k):], height+1)
+	// with the zero byte at its end, newK is the first key after the one of this height
+	binary.BigEndian.PutUint64(newK[1+len(k):], height)
 	iter := tree.kvdb.ReverseIterator([]byte{}, newK)
 	defer iter.Close()
 	if !iter.Valid() || !bytes.Equal(iter.Key()[1:1+len(k)], k) { //not exists or to a different key
-- 
2.43.0


From a10164da408139d5e494bd226dc5ec2b2b2be49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 11/13] fix: setting an absent key to a nil value

---
 moeingads.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moeingads.go b/moeingads.go
index 23a60d8..bbc2df2 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -308,9 +308,9 @@ func (mads *MoeingADS) getEntry(k []byte, forProof bool) (entry *Entry, entryBz
 	return
 }
 
-// An entry is prepared for insertion, but not inserted (no SerialNum and Value assigned)
+// An entry is prepared for insertion, but not inserted (no SerialNum and Value assigned, the value may be nil)
 func isFakeInserted(hotEntry *HotEntry) bool {
-	return hotEntry.EntryPtr.SerialNum == -1 && hotEntry.EntryPtr.Value == nil
+	return hotEntry.EntryPtr.SerialNum == -1 && hotEntry.Operation != types.OpInsertOrChange
 }
 
 func isInserted(hotEntry *HotEntry) bool {
-- 
2.43.0


From cfddbc17eb47ca2e1057a53cc0e5d2594f2a19f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:47 +0000
Subject: [PATCH 12/13] fix: refuse a record whose stored length disagrees with
 its fields

Recovery hashes the decoded fields, so a length that the padding absorbs went
unnoticed, while the serial number is taken from the end of the raw record:
the key was dropped from the index although the root matched.
---
 datatree/entryfile.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datatree/entryfile.go b/datatree/entryfile.go
index 2a64315..5e79361 100644
--- a/datatree/entryfile.go
+++ b/datatree/entryfile.go
@@ -258,6 +258,11 @@ func getNextPos(off, length int64) int64 {
 func (ef *EntryFile) ReadEntryAndSNList(off int64) (entry *Entry, deactivedSerialNumList []int64, nextPos int64) {
 	entryBz, numberOfSN, nextPos := ef.readEntry(off, true /*withSNList*/, false /*useRaw*/, true /*withBuf*/)
 	entry, deactivedSerialNumList = EntryFromBytes(entryBz, numberOfSN)
+	// the hash covers the decoded fields, so the stored length must agree with them
+	size := 3*4 + len(entry.Key) + len(entry.Value) + len(entry.NextKey) + 3*8 + 8*numberOfSN
+	if size != len(entryBz) {
+		panic(fmt.Sprintf("Invalid entry length at %d", off))
+	}
 	return
 }
 
-- 
2.43.0


From bedf204d62f1b73f5452d1880eb1e48429206e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 13/13] fix: a checkpoint file cut inside an entry is refused
 instead of loaded without it

---
 datatree/load.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/datatree/load.go b/datatree/load.go
index 489b0cf..e8584f9 100644
--- a/datatree/load.go
+++ b/datatree/load.go
@@ -100,7 +100,10 @@ func LoadTwigFromFile(infile io.Reader) (twigID int64, twig Twig, err error) {
 	slices[12] = buf2[:]
 	h := meow.New32(0)
 	for i, slice := range slices {
-		_, err = infile.Read(slice)
+		_, err = io.ReadFull(infile, slice)
+		if err == io.EOF && i > 0 { // only the end of a twig is a proper end
+			err = io.ErrUnexpectedEOF
+		}
 		if err != nil {
 			return
 		}
@@ -169,7 +172,7 @@ func (tree *Tree) DumpNodes(outfile io.Writer) error {
 func (tree *Tree) LoadNodes(infile io.Reader) error {
 	var buf [8 + 32 + 4]byte
 	for {
-		_, err := infile.Read(buf[:])
+		_, err := io.ReadFull(infile, buf[:])
 		if err == io.EOF {
 			break
 		}
-- 
2.43.0

