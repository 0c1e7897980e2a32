From f9672b378ee24d1e93ef08b7a60119c90096d277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:45 +0000
Subject: [PATCH 1/7] fix: HPFile.Truncate also drops buffered and prefetched
 bytes

---
 datatree/hpfile.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datatree/hpfile.go b/datatree/hpfile.go
index 487d29e..7ca4cb6 100644
--- a/datatree/hpfile.go
+++ b/datatree/hpfile.go
@@ -107,6 +107,8 @@ func (hpf *HPFile) Size() int64 {
 }
 
 func (hpf *HPFile) Truncate(size int64) error {
+	hpf.flush()               // bytes still in the write buffer must be truncated, too
+	hpf.preReader.fileID = -1 // prefetched bytes may be truncated and overwritten
 	for size < int64(hpf.largestID)*int64(hpf.blockSize) {
 		f := hpf.fileMap[hpf.largestID]
 		err := f.Close()
-- 
2.43.0


From fe7b940d95cd23f0645993592127eba0f50bac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:45 +0000
Subject: [PATCH 2/7] fix: ProofPath.Check refuses a proof without upper path
 instead of panicking

---
 datatree/proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datatree/proof.go b/datatree/proof.go
index 7476cc5..2fa9f2d 100644
--- a/datatree/proof.go
+++ b/datatree/proof.go
@@ -79,6 +79,9 @@ func BytesToProofPath(bz []byte) (*ProofPath, error) {
 }
 
 func (pp *ProofPath) Check(complete bool) error {
+	if len(pp.UpperPath) == 0 {
+		return errors.New("Empty upper path")
+	}
 	for i := 0; i < len(pp.LeftOfTwig)-1; i++ {
 		var res []byte
 		if pp.LeftOfTwig[i].PeerAtLeft {
-- 
2.43.0


From 82e2c8808360721c89d32b2799c20beea3e24777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:45 +0000
Subject: [PATCH 3/7] fix: ProofPath.Check refuses serial numbers outside the
 range the path covers

---
 datatree/proof.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datatree/proof.go b/datatree/proof.go
index 2fa9f2d..d04c324 100644
--- a/datatree/proof.go
+++ b/datatree/proof.go
@@ -82,6 +82,11 @@ func (pp *ProofPath) Check(complete bool) error {
 	if len(pp.UpperPath) == 0 {
 		return errors.New("Empty upper path")
 	}
+	// the path covers 2^(TwigShift+len(UpperPath)) leaves: a larger (or negative) serial
+	// number would be authenticated by its low bits only
+	if pp.SerialNum>>(TwigShift+len(pp.UpperPath)) != 0 {
+		return fmt.Errorf("Serial number out of range: %d", pp.SerialNum)
+	}
 	for i := 0; i < len(pp.LeftOfTwig)-1; i++ {
 		var res []byte
 		if pp.LeftOfTwig[i].PeerAtLeft {
-- 
2.43.0


From b61e5eaa0ce0412676a961ee64fc87283cc33043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:32 +0000
Subject: [PATCH 4/7] fix: keep the twig roots that recovery reads when pruning
 the twig Merkle tree file

---
 datatree/tree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datatree/tree.go b/datatree/tree.go
index 99271bb..edc33a3 100644
--- a/datatree/tree.go
+++ b/datatree/tree.go
@@ -409,7 +409,8 @@ func (tree *Tree) PruneTwigs(startID, endID int64) []byte {
 	endPos := tree.twigMtFile.GetFirstEntryPos(endID)
 	//fmt.Printf("NOW entry prune till %d\n", endPos)
 	tree.entryFile.PruneHead(endPos)
-	tree.twigMtFile.PruneHead(endID * TwigMtSize)
+	// RecoverTree reads the roots of the last pruned twig and of its left sibling
+	tree.twigMtFile.PruneHead(((endID - 1) &^ 1) * TwigMtSize)
 	return tree.ReapNodes(startID, endID)
 }
 
-- 
2.43.0


From a1e60c62877374e4dc5f9861737ccc15b46acd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 5/7] fix: keep the left sibling of the first remaining twig
 when pruning, its proofs need it

---
 datatree/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datatree/tree.go b/datatree/tree.go
index edc33a3..243cb2f 100644
--- a/datatree/tree.go
+++ b/datatree/tree.go
@@ -423,7 +423,7 @@ func (tree *Tree) removeUselessNodes(start, end int64) {
 	maxLevel := calcMaxLevel(tree.youngestTwigID)
 	for level := FirstLevelAboveTwig - 1; level <= maxLevel; level++ {
 		endRound := end
-		if end%2 != 0 && level != FirstLevelAboveTwig-1 {
+		if end%2 != 0 { // the proofs of the right sibling's leaves need its left sibling
 			endRound--
 		}
 		for i := start - 1; i < endRound; i++ { // minus 1 from start to cover some margin nodes
-- 
2.43.0


From b37cad473b4b5f00b29e0f312f782685c4dc836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 6/7] fix: deleting a key that was set for the first time in
 the same block no longer leaves it in the store

---
 moeingads.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/moeingads.go b/moeingads.go
index 827df28..4f76f96 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -572,8 +572,10 @@ func (mads *MoeingADS) update() {
 				continue
 			}
 			chanID := types.GetIndexChanID(ptr.Key[0])
-			if hotEntry.Operation == types.OpDelete && ptr.SerialNum >= 0 {
-				// if ptr.SerialNum==-1, then we are deleting a just-inserted value, so ignore it.
+			if hotEntry.Operation == types.OpDelete {
+				if ptr.SerialNum < 0 {
+					continue // we are deleting a just-inserted value, so ignore it.
+				}
 				mads.DeactiviateEntry(shardID, ptr.SerialNum)
 				mads.idxTreeJobChan[chanID] <- idxTreeJob{key: ptr.Key, pos: -1} //delete
 			} else if hotEntry.Operation != types.OpNone || hotEntry.IsTouchedByNext {
-- 
2.43.0


From d7960557be626a5c59dc4561284428b460dde772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 7/7] fix: pruning makes the metadata durable before it cuts
 the files, a store reopened right after could not recover

---
 datatree/mock_datatree.go |  7 +++++++
 datatree/tree.go          |  9 ++++++++-
 moeingads.go              | 10 +++++++++-
 types/types.go            |  2 ++
 4 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/datatree/mock_datatree.go b/datatree/mock_datatree.go
index 797eeda..06fa829 100644
--- a/datatree/mock_datatree.go
+++ b/datatree/mock_datatree.go
@@ -116,6 +116,13 @@ func (dt *MockDataTree) PruneTwigs(startID, endID int64) []byte {
 	return nil
 }
 
+func (dt *MockDataTree) ReapNodes(startID, endID int64) []byte {
+	return nil
+}
+
+func (dt *MockDataTree) PruneFiles(endID int64) {
+}
+
 func (dt *MockDataTree) GetFileSizes() (int64, int64) {
 	return 0, 0
 }
diff --git a/datatree/tree.go b/datatree/tree.go
index 243cb2f..59a7451 100644
--- a/datatree/tree.go
+++ b/datatree/tree.go
@@ -406,12 +406,19 @@ func (tree *Tree) PruneTwigs(startID, endID int64) []byte {
 	if endID-startID < MinPruneCount {
 		panic(fmt.Sprintf("The count of pruned twigs is too small: %d", endID-startID))
 	}
+	edgeNodesBytes := tree.ReapNodes(startID, endID)
+	tree.PruneFiles(endID)
+	return edgeNodesBytes
+}
+
+// Remove the files' content before endID. Without this content, the tree can only be recovered
+// with the edge nodes which were returned by ReapNodes.
+func (tree *Tree) PruneFiles(endID int64) {
 	endPos := tree.twigMtFile.GetFirstEntryPos(endID)
 	//fmt.Printf("NOW entry prune till %d\n", endPos)
 	tree.entryFile.PruneHead(endPos)
 	// RecoverTree reads the roots of the last pruned twig and of its left sibling
 	tree.twigMtFile.PruneHead(((endID - 1) &^ 1) * TwigMtSize)
-	return tree.ReapNodes(startID, endID)
 }
 
 func (tree *Tree) ReapNodes(start, end int64) []byte {
diff --git a/moeingads.go b/moeingads.go
index 4f76f96..aac295e 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -736,7 +736,7 @@ func (mads *MoeingADS) PruneBeforeHeight(height int64) {
 	for shardID := 0; shardID < types.ShardCount; shardID++ {
 		start, end := starts[shardID], ends[shardID]
 		if end > start+datatree.MinPruneCount {
-			edgeNodesBytes := mads.datTree[shardID].PruneTwigs(start, end)
+			edgeNodesBytes := mads.datTree[shardID].ReapNodes(start, end)
 			mads.meta.SetEdgeNodes(shardID, edgeNodesBytes)
 			for twig := start; twig < end; twig++ {
 				mads.meta.DeleteTwigHeight(shardID, twig)
@@ -744,7 +744,15 @@ func (mads *MoeingADS) PruneBeforeHeight(height int64) {
 			mads.meta.SetLastPrunedTwig(shardID, end-1)
 		}
 	}
+	// the files can be cut only after the information needed for recovering without the cut part gets durable
+	mads.meta.Commit()
 	mads.kvdb.CloseOldBatch()
+	for shardID := 0; shardID < types.ShardCount; shardID++ {
+		start, end := starts[shardID], ends[shardID]
+		if end > start+datatree.MinPruneCount {
+			mads.datTree[shardID].PruneFiles(end)
+		}
+	}
 	mads.kvdb.SetPruneHeight(uint64(height))
 }
 
diff --git a/types/types.go b/types/types.go
index 83f1153..209ae51 100644
--- a/types/types.go
+++ b/types/types.go
@@ -99,6 +99,8 @@ type DataTree interface {
 	ScanEntriesLite(oldestActiveTwigID int64, outChan chan KeyAndPos)
 	TwigCanBePruned(twigID int64) bool
 	PruneTwigs(startID, endID int64) []byte
+	ReapNodes(startID, endID int64) []byte
+	PruneFiles(endID int64)
 	GetFileSizes() (int64, int64)
 	EndBlock() [32]byte
 	WaitForFlushing()
-- 
2.43.0

