#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json,sys
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p("C01","Key-value store semantics across blocks",
 "After any sequence of blocks, each preparing, setting and deleting arbitrary keys, reading a key returns exactly the entry most recently set for it and nothing for a key that was never set or was last deleted, where the last operation on a key inside a block decides. This holds for inserts, overwrites, deletes, re-inserts, deletes of absent keys and keys inserted and deleted within one block, in any combination and order.",
 ["histories","inputs"],"every history of blocks of prepare/set/delete operations over every choice of keys and values",
 "The unit tests run one or two fixed scripts; which neighbours are inserted, deleted or only prepared in the same block is combinatorial, and only particular adjacency patterns exercise the linked-list repair.",
 ["moeingads.go","types/types.go","datatree/mock_datatree.go","indextree/mock_indextree.go"],
 [("block application: hot entries sorted, next-key repair, append and index update","moeingads.go: update, getPrev, getNext"),("prepare phase","moeingads.go: PrepareForUpdate, PrepareForDeletion")],
 [("k2heMap","hot entries of the current block","moeingads.go"),("nkSet","next keys touched in the current block","moeingads.go")],
 ["MoeingADS.GetEntry","MoeingADS.ScanAll"])
p("C02","Live entries form one sorted next-key chain",
 "After every block the live entries together with the two guards form a single chain in ascending key order: each live entry's next-key is the smallest live key greater than its own, starting at the start guard and ending at the end guard. This is what makes non-existence of a key provable.",
 ["histories","inputs"],"every history of blocks over every choice of neighbouring keys, including deletions and insertions adjacent to each other",
 "Tests check the chain for a handful of scripted orders; the defects live in particular mixtures of deleted, inserted and merely prepared neighbours.",
 ["moeingads.go"],[("next-key repair","moeingads.go: update, getPrev, getNext")],(),["MoeingADS.GetEntry(...).NextKey","CheckConsistency"])
p("C03","Exactly one active leaf per live key; versions and serials are right",
 "After every block each live key is backed by exactly one active leaf in the data tree of its shard, which is the leaf its index position points to, and every superseded or deleted version is inactive; serial numbers within a shard are used once, in append order. Each entry records the height of the block that wrote it and the height of the version it replaced.",
 ["histories","inputs"],"every history of blocks, keys and values, all shards",
 "No test compares the set of active leaves with the set of live keys; a leaked or lost active bit is invisible to reads.",
 ["moeingads.go","datatree/tree.go"],[("deactivate-then-append","moeingads.go: update, DeactiviateEntry, compactForShard")],(),["DataTree.GetActiveBit","MoeingADS.GetEntry"])
p("C04","Entry log round trip on every read path",
 "An entry with any key, value, next-key, heights and serial number, stored with any list of at most 255 deactivated serial numbers, reads back equal in every field from the position returned by the append, through the full, prefetching, key-only and raw read paths, even when its bytes contain or straddle the record delimiter. The next position reported for a record is exactly where the following record starts.",
 ["inputs"],"every entry content and length and every list of deactivated serial numbers, any write-buffer alignment",
 "Tests use a few literal entries; delimiter escaping, prefix overlaps and length-field carry only matter for rare byte patterns.",
 ["datatree/entryfile.go","datatree/hpfile.go"],[("delimiter escaping","datatree/entryfile.go: EntryToBytes, getAllPos, recoverMagicBytes"),("length and padding arithmetic","datatree/entryfile.go: getNextPos, getPaddingSize")],(),["EntryFile.ReadEntry","EntryFile.ReadEntryAndSNList","EntryFile.ReadEntryRawBytes"])
p("C05","Relocating a stored entry preserves it and its leaf hash is recomputable",
 "A stored entry copied in raw form to the tail of the log under a new serial number decodes to the same key, value, next-key and heights with the new serial number and an empty deactivation list, and can be relocated again. The bytes used as the leaf in proofs and the leaf hash computed at append, at relocation and when the log is re-read all agree.",
 ["inputs"],"every entry content, old and new serial number, with and without embedded delimiters and deactivation lists",
 "Tests relocate benign entries only; offsets inside the raw form shift with the number of embedded delimiters and the deactivation list length.",
 ["datatree/entryfile.go","datatree/tree.go","datatree/recover.go"],[("in-place serial number update","datatree/entryfile.go: UpdateSerialNum, ExtractSerialNum, ExtractKeyFromRawBytes"),("raw append","datatree/tree.go: AppendEntryRawBytes")],(),["EntryFile.ReadEntry","Tree.ReadEntryBytesForProof"])
p("C06","Segmented log file behaves as one append-only byte stream",
 "Bytes appended to the segmented log are readable unchanged at the offset returned by the append once they are flushed, and after a reopen, for every append size, read size and segment and buffer geometry, also when records straddle write buffers and segment ends; the prefetching read returns the same bytes as the plain read. The reported size equals the offset at which the next append lands.",
 ["inputs","histories","configurations"],"every sequence of appends, flushes, reads and reopens within stated sizes",
 "Tests use a few literal sizes; boundary straddling and cache reuse are combinations of append sizes, flush points and read offsets.",
 ["datatree/hpfile.go"],[("append/flush","datatree/hpfile.go: Append, Flush"),("reads","datatree/hpfile.go: ReadAt, ReadAtWithBuf")],(),["HPFile.ReadAt","HPFile.Size"])
p("C07","Log truncation and head pruning touch only what they are told to",
 "Truncating the log to a size keeps every byte before it, discards everything after it, and later appends land exactly at that size, also when it falls in an earlier segment. Pruning the head below an offset leaves every byte at or beyond it readable and survives reopening.",
 ["inputs","histories"],"every log content, truncation size and prune offset within stated sizes",
 "Tests truncate once in the middle of one segment; segment-edge sizes and pruned-then-reopened logs are not exercised.",
 ["datatree/hpfile.go"],[("truncate","datatree/hpfile.go: Truncate"),("prune","datatree/hpfile.go: PruneHead")],(),["HPFile.ReadAt","HPFile.Size"])
p("C08","Every leaf has a valid membership proof",
 "For every leaf that has not been pruned, active or not, in the youngest twig, an in-memory full twig or an evicted twig, the generated proof verifies against the shard root reported at the last block end, with the leaf equal to the stored entry's bytes, and still does after being serialized and parsed.",
 ["inputs","histories"],"every serial number in the tree and every leaf content and activity pattern",
 "Tests prove a few serial numbers of one fixed tree; the path source changes per twig position and level.",
 ["datatree/proof.go","datatree/tree.go","datatree/twigmtfile.go"],[("proof assembly","datatree/proof.go"),("stored half tree","datatree/twigmtfile.go")],(),["Tree.GetProof","ProofPath.Check"])
p("C09","Proofs are tamper evident",
 "A proof that verifies fixes the leaf, its activity bits, its serial number and its position: changing any authenticated hash, leaf, root or the serial number it claims makes verification fail, and parsing never accepts bytes whose re-serialization differs. Two different verifying proofs against the same root never disagree about the leaf at a serial number (assuming SHA-256 is collision free).",
 ["inputs"],"every proof and every modification of any field or bit of it",
 "Tests alter one or two fields of one proof; the check must bind every single field, which sampling cannot show.",
 ["datatree/proof.go"],[("path check","datatree/proof.go: Check, checkNodes"),("codec","datatree/proof.go: ToBytes, BytesToProofPath")],(),["ProofPath.Check","BytesToProofPath"])
p("C10","Incrementally maintained root equals the root computed from scratch",
 "The shard root reported at a block end is a function only of the leaf hashes and the activity bits: it equals the Merkle root computed from scratch over them, whatever order entries were appended, deactivated, evicted and batched into blocks, and however hashing is scheduled over workers.",
 ["inputs","histories","schedules"],"every history of appends and deactivations and every activity pattern within stated tree sizes",
 "Tests compare against a checker on one pseudo-random run; missing one invalidated ancestor only shows for particular leaf positions.",
 ["datatree/tree.go","datatree/hasher.go"],[("touched-position propagation","datatree/tree.go: syncMT4ActiveBits, syncUpperNodes, syncMT4YoungestTwig"),("level hashing","datatree/hasher.go")],(),["Tree.EndBlock"])
p("C11","Reopening a data tree from its files restores it exactly",
 "Rebuilding a data tree from its log, its twig Merkle file, the recorded edge nodes and sizes yields the same root, the same activity bits and the same readable entries as the tree that was closed, for every history of appends, deactivations, evictions and pruning, and it keeps producing the same roots afterwards.",
 ["histories","inputs"],"every history within stated sizes, every choice of oldest active twig and pruning point",
 "Tests recover one pseudo-random tree; deactivation lists written just before or after a twig boundary and pruned prefixes need specific histories.",
 ["datatree/recover.go","datatree/load.go","datatree/tree.go"],[("recovery","datatree/recover.go: RecoverTree, RecoverEntry")],(),["RecoverTree","Tree.EndBlock"])
p("C12","Pruning old twigs never changes roots, proofs or recoverability",
 "Removing fully dead twigs leaves the shard root, the proofs and entries of every remaining leaf and all future roots unchanged, and the edge nodes it hands back, serialized and parsed, are exactly enough to recompute the root after a restart.",
 ["histories","inputs"],"every prune range and tree size within stated bounds, all later growth",
 "Tests prune one range of one tree; which left-edge nodes are needed depends on the binary form of the prune point and the tree size.",
 ["datatree/tree.go","datatree/recover.go"],[("pruning","datatree/tree.go: PruneTwigs, ReapNodes"),("edge nodes","datatree/tree.go: EdgeNodesToBytes, BytesToEdgeNodes")],(),["Tree.PruneTwigs","RecoverTree"])
p("C13","Saved tree memory image reloads identically or is rejected",
 "Dumping a tree's in-memory state and loading it back yields a tree with the same root, activity bits, proofs and future behaviour. A dump whose bytes were altered is rejected instead of being loaded as a different tree.",
 ["inputs","fault_sequences"],"every tree state within stated sizes and every single altered field or byte of a dump",
 "Tests reload one dump and never alter it.",
 ["datatree/load.go"],[("dump and load","datatree/load.go")],(),["LoadTree","Tree.SaveMemToDisk"])
p("C14","Twig Merkle file returns the stored node for every node and twig",
 "For every twig appended to the twig Merkle file every node of its Merkle tree from the leaves to the root, including the levels that are not stored, reads back equal to the node computed in memory, and the recorded position of the twig's first entry is returned; truncating or pruning whole twigs does not affect the others.",
 ["inputs"],"every node index, twig index and leaf content",
 "Tests look at one twig and one dense loop of fixed content; the index arithmetic around the omitted levels is per-level.",
 ["datatree/twigmtfile.go"],[("node index mapping","datatree/twigmtfile.go: getPhysicalPos, getLevel0to5, GetHashNode")],(),["TwigMtFile.GetHashNode"])
p("C15","Index is an exact ordered map with exact iteration",
 "The in-memory index returns for every key exactly the last position set and nothing after a delete; forward and reverse iteration over any half-open range yields exactly the live keys in it, in order, with their positions, for every key set and every 48-bit-representable position, including keys that share or straddle the internal partition prefix.",
 ["inputs","histories"],"every history of sets and deletes over all 64-bit keys and every iterator range",
 "Tests and fuzzers sample keys; the seek logic across partitions and compact/large representations has corner cases at exact key coincidences.",
 ["indextree/b/cppbtree/bigmap.h","indextree/b/cppbtree/cppbtree.cpp","indextree/b/cppbtree/btree.go","indextree/indextree.go"],[("partitioned map","indextree/b/cppbtree/bigmap.h"),("seek","indextree/b/cppbtree/cppbtree.cpp"),("iterators","indextree/indextree.go")],(),["IndexTree.Get","IndexTree.Iterator","IndexTree.ReverseIterator"])
p("C16","Historical index queries return the version in force at that height",
 "With history enabled, querying a key at height h returns the position recorded by the last block at or below h that changed the key, and nothing if the key did not exist then or was deleted, for every write history and every height up to the latest; other keys and the metadata stored beside the history never affect the answer.",
 ["histories","inputs"],"every history of blocks with increasing heights, all keys, all query heights",
 "Tests query a few heights of one history; adjacent keys, heights sharing byte prefixes and repeated changes in one block are not enumerated.",
 ["indextree/indextree.go","indextree/rocks_db.go"],[("versioned records","indextree/indextree.go: batchSet, batchDelete, GetAtHeight"),("reverse seek","indextree/rocks_db.go: ReverseIterator")],(),["IndexTree.GetAtHeight","MoeingADS.GetEntryAtHeight"])
p("C17","Metadata survives restart exactly and never collides",
 "All recorded metadata (heights, file sizes, twig heights, last pruned twig, edge nodes, serial-number counters, oldest active twigs, root hashes) read after a commit and reload equals what was recorded, independently per shard and per twig, and is never confused with other metadata or with index history kept in the same database.",
 ["inputs","histories"],"every shard, twig id and recorded value, every interleaving of setters and commits",
 "One test writes one value set; key construction and per-shard independence are universally quantified.",
 ["metadb/metadb.go"],[("serialization","metadb/metadb.go: Commit, ReloadFromKVDB"),("serial counter and twig heights","metadb/metadb.go: IncrMaxSerialNum")],(),["MetaDB getters after ReloadFromKVDB"])
p("C18","Key-value database wrapper honours ranges, batches and prune limits",
 "Forward iteration over [start,end) and reverse iteration over [start,end) of the database yield exactly the stored pairs in that range in order, for all bounds including nil and bounds that equal stored keys; a batch becomes visible as a whole when it is closed, the last write to a key winning. Background pruning only ever removes history records that are older than the prune height and superseded, never the metadata.",
 ["inputs","histories"],"every set of stored pairs, bounds and batch content",
 "Tests hit a few bounds; the reverse-seek adjustment depends on exact equality and prefix relations between the bound and stored keys.",
 ["indextree/rocks_db.go"],[("iterators","indextree/rocks_db.go: Iterator, ReverseIterator, newRocksDBIterator"),("history compaction filter","indextree/rocks_db.go: HeightCompactionFilter")],(),["RocksDB.Iterator","RocksDB.ReverseIterator"])
p("C19","Hash-keyed store is a map even when short keys collide",
 "The store that maps arbitrary byte-string keys to short hashed keys returns for every key exactly the value last set, and nothing if absent or deleted, whatever collisions occur among the short keys of different keys, including deletions in the middle of a collision chain and re-insertions, both before and after the values are written through.",
 ["inputs","histories"],"every history of sets and deletes over every possible pattern of hash collisions",
 "Real collisions of 8-byte hashes essentially never occur in tests, so all the chaining and pass-by logic is untested.",
 ["store/rabbit/rabbit.go","store/rabbit/simple_cache.go","store/rabbit/simple_multi.go"],[("probing by repeated hashing","store/rabbit/rabbit.go: find, Set, Delete"),("cached value","store/rabbit/rabbit.go")],(),["RabbitStore.Get","RabbitStore.Has"])
p("C20","Cached-value codec round trips and rejects nothing valid",
 "Serializing and parsing a record of the hash-keyed store preserves its key, its pass-by count and whether it is empty, and its value unless it is empty, for every key, value and count. Parsing arbitrary bytes never crashes: it refuses those too short for what they declare, and what it accepts serializes to bytes that parse to the same record.",
 ["inputs"],"every key, value and pass-by count",
 "Only a few fixed records are encoded in tests.",
 ["store/rabbit/rabbit.go"],[("codec","store/rabbit/rabbit.go: CachedValue ToBytes/BytesToCachedValue")],(),["CachedValue"])
p("C21","Layered transaction stores are coherent and atomic",
 "Reads through a transactional store see its own uncommitted writes and deletes first and the underlying state otherwise; closing it with write-back makes exactly its last writes visible below, and closing without write-back makes none visible. Height-aware and cached reads of the root agree with the state last committed.",
 ["histories","inputs"],"every sequence of gets, sets, deletes and closes on nested stores",
 "Tests follow one script per store; the interaction of the cache, in-block updates and deletes is order dependent.",
 ["store/trunk.go","store/root.go","store/cache.go","store/rabbit/simple_multi.go"],[("trunk cache and write back","store/trunk.go"),("root cache","store/root.go")],(),["TrunkStore.Get","RootStore.Get"])
p("C22","Compaction preserves the store's contents",
 "Reaping the oldest twigs relocates exactly their live entries: every key keeps its value, next-key and heights, dead entries stay dead, each relocated key is backed by exactly one active leaf, and the twig left behind holds none.",
 ["histories","inputs"],"every pattern of live and dead leaves in the reaped twig, every content",
 "Compaction starts only beyond a million live entries in production settings, so tests never reach it with checks.",
 ["moeingads.go","datatree/tree.go"],[("compaction","moeingads.go: compactForShard"),("live entry enumeration","datatree/tree.go: GetActiveEntriesInTwig, EvictTwig")],(),["MoeingADS.GetEntry","Tree.GetActiveBit"])
p("C23","A crash leaves exactly the last committed block",
 "If the process stops at any point while a block is being written, reopening the directory yields exactly the state before that block or exactly the state after it - same root, same live entries, same chain - and the store can continue from there. Data whose commit was acknowledged is never lost.",
 ["crash_points","histories"],"every crash point between file writes, every block content within bounds",
 "No test kills the process between individual writes.",
 ["moeingads.go","datatree/recover.go","metadb/metadb.go"],[("commit order","moeingads.go: EndWrite"),("truncate on recovery","datatree/recover.go")],(),["NewMoeingADS on a crashed directory"])
p("C24","Results are deterministic",
 "The root hash, positions and read results after a block depend only on the operations performed, not on map iteration order, goroutine scheduling, the number of CPUs or the order in which keys were prepared.",
 ["schedules","histories"],"every iteration order and every schedule within bounds",
 "A test run sees one schedule; consensus nodes need all of them to agree.",
 ["moeingads.go","datatree/tree.go","datatree/hasher.go"],[("sorting of hot entries by bucket","moeingads.go: update"),("ordered per-shard workers","moeingads.go: runIdxTreeJobs")],(),["MoeingADS.GetRootHash"])
p("C25","Index rebuilt at start-up equals the index before shutdown",
 "Scanning the log after a restart re-creates an index holding exactly the live keys with exactly their positions, whatever inactive, relocated or dummy entries the log contains, and both full and lightweight scans report every record once in order.",
 ["histories","inputs"],"every log content and activity pattern within bounds",
 "Tests reopen one small store.",
 ["moeingads.go","datatree/tree.go","datatree/entryfile.go"],[("scans","datatree/tree.go: ScanEntries, ScanEntriesLite"),("index rebuild","moeingads.go: NewMoeingADS")],(),["IndexTree.Get after reopen"])
p("C26","Activity bits are exact per leaf",
 "Setting or clearing the activity of one leaf changes that leaf's bit only, for every leaf position and every prior pattern, the bit read back is the one last written, and every change is reflected in the shard root at the next block end.",
 ["inputs"],"every leaf position and every prior bit pattern",
 "Tests toggle a few positions.",
 ["datatree/tree.go"],[("bit operations","datatree/tree.go: setBit, clearBit, getBit")],(),["Tree.GetActiveBit"])
p("C27","Every key routes to a valid shard, bucket and index channel",
 "Every key is assigned one shard in range by a fixed function of the key, the same for reading, writing, proving and recovery; bucket and index-channel routing are in range for every key and keep the global key order across buckets, so block processing sees keys in ascending order.",
 ["inputs"],"every 8-byte key and every guard key",
 "Tests use a handful of keys.",
 ["types/types.go","moeingads.go"],[("routing","types/types.go: GetShardID, GetIndexChanID"),("buckets","moeingads.go: BucketMap")],(),["GetShardID","GetIndexChanID"])
p("C28","Pruning by height keeps everything at or above that height reachable",
 "Pruning below a height never removes an entry that is live, or that was in force at or above that height, and a store reopened right after pruning recovers the same root and contents.",
 ["histories","crash_points"],"every history, prune height and crash point within bounds",
 "Tests prune once at one height and never reopen in between.",
 ["moeingads.go","indextree/rocks_db.go","metadb/metadb.go"],[("prune range selection","moeingads.go: PruneBeforeHeight")],(),["GetEntryAtHeight","NewMoeingADS after PruneBeforeHeight"])
p("C29","A transaction's reported footprint is exact",
 "The short keys a hash-keyed transaction reports as touched are exactly those it found below or wrote, those reported dirty are exactly the ones later written back, each was prepared for the matching operation beforehand, reading alone makes nothing dirty, and the reported path of a key is the chain of cells leading to it.",
 ["inputs","histories"],"every history of reads, sets and deletes over every pattern of short-key collisions within bounds",
 "Callers decide from this footprint whether two transactions conflict; a missing key is a silent race, and collisions, where footprints get complicated, do not occur in tests.",
 ["store/rabbit/rabbit.go","store/rabbit/simple_cache.go","store/rabbit/simple_multi.go"],[("touched keys","store/rabbit/rabbit.go: ScanAllShortKeys, GetShortKeyPath, IsClean"),("preparation","store/rabbit/simple_multi.go: SetCachedValue, MustGetCachedValue")],(),["RabbitStore.ScanAllShortKeys","RabbitStore.GetShortKeyPath","RabbitStore.IsClean","RabbitStore.CachedEntryCount"])
p("C30","Readers are isolated from the writer",
 "A reader holding the store's read lock, directly or through a read-only transaction, sees at every read the state of exactly one committed block, whatever the interleaving with a block being written back; a reader that begins after the write-back sees the new block; reader and writer both finish.",
 ["schedules"],"every interleaving of one reader and one write-back within the scheduling bounds",
 "A test run sees one schedule, and the race detector sees unsynchronised accesses but not a state torn between two blocks.",
 ["store/root.go","store/trunk.go","store/rabbit/rabbit.go"],[("locks","store/root.go: Update, RLock, RUnlock"),("write-back","store/trunk.go: writeBack"),("read-only transactions","store/rabbit/rabbit.go: NewReadOnlyRabbitStore")],(),["RabbitStore.Get of a read-only transaction","RootStore.Get"])
out=open('/verif/properties.jsonl','w')
for x in P: out.write(json.dumps(x)+"\n")
print(len(P))
