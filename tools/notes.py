COMMON=("Bounded: holds for every value of the symbolic inputs within the bounds written at each harness (repeated in the evidence), nothing outside. "
 "Trusts the SSA interpreter gose (validated on every run by native replay of sampled paths; C++ code is interpreted from clang's LLVM IR), the solver (cvc5, z3 as fallback), an ideal hash for SHA-256 on symbolic data, and the in-memory file system and RocksDB models.")
NA={}
NOTES={
'C01':"Whole store (NewMoeingADS..EndWrite), oracle: an association list over the key pool kept by the harness; every key of the pool is read back after every block. The tests run one fixed sequence and random ones compared on few keys; here the order and collision of prefixes of the keys, the operations and the values are all free.",
'C02':"Same runs as C01; the oracle walks the index from the start guard and compares each entry's NextKey with the next live key of the reference, guards included.",
'C03':"Same runs; for every leaf of every shard the activity bit is compared with 'is the version the index points at', serial numbers must be consecutive, Height/LastHeight are compared with the reference's history. VH_C03_ManyDeletes crosses the 64-entry flush threshold of the deactivation list.",
'C04':"EntryFile/EntryToBytes/ExtractKeyFromRawBytes with symbolic bytes everywhere (so every position at which the magic bytes may occur is covered by the solver, which is what sampling cannot do: 8-byte coincidences); oracle: field-by-field equality and the next position.",
'C05':"Tree.AppendEntryRawBytes on a record read raw; the leaf hash is compared with the hash of the proof's leaf bytes and with the one recomputed by recovery. Hash is ideal.",
'C06':"HPFile with small buffer and segment constants (overridden by the overlay, the code is the same) so that every straddling case is within a few appends; oracle: a byte slice. Lengths and offsets are symbolic.",
'C07':"HPFile.Truncate / PruneHead at every offset within bounds; oracle: a byte slice; reopen and further appends included.",
'C08':"Tree.GetProof -> Check against the root returned by EndBlock, ToBytes/parse round trip; symbolic leaf among all leaves of 3 twigs (in-memory, youngest, evicted).",
'C09':"ProofPath.Check over ideal hash with all nodes symbolic: tamper of any field must be refused; two accepted proofs for one serial number agree. Parse: any bytes.",
'C10':"Tree with a symbolic choice of leaves to append/deactivate/evict and block partition; oracle: a plain recursive Merkle root written in the harness. Worker scheduling is fixed here (see C24).",
'C11':"Tree closed/flushed and RecoverTree from model files; roots, bits, entries and later roots compared, after every combination of the bounded operations.",
'C12':"PruneTwigs + edge nodes; the twig counts around powers of two are chosen so that every shape of the remaining tree occurs; roots/proofs compared with an unpruned twin.",
'C13':"DumpNodes/LoadNodes etc. A dump whose record content is altered is rejected; truncation at a record boundary is accepted by the loader without error (see findings): outside this check.",
'C14':"TwigMtFile with the leaves of a twig; node id symbolic over all 4095 nodes; ideal hash.",
'C15':"The production index is C++ (cpp-btree behind cgo): the real C++ is compiled by clang to LLVM IR on every run and interpreted symbolically together with the Go wrapper. Oracle: sorted slice. Keys: upper 16 bits concrete out of boundary sets, lower 48 bits symbolic, positions symbolic.",
'C16':"NVTreeMem with history on the RocksDB model; oracle: list of (height, position) per key; symbolic heights and query height.",
'C17':"MetaDB over the RocksDB model, committed and reloaded; every setter, shards and twig ids symbolic.",
'C18':"RocksDB wrapper: range iteration with symbolic bounds and keys; batch visibility; the compaction filter is applied to every history key for symbolic prune heights. The filter also removes the newest record of a key when it is old enough: known finding K2.",
'C19':"RabbitStore with a hash function replaced so that short keys collide as the solver chooses; oracle: a map.",
'C20':"CachedValue.ToBytes/FromBytes with symbolic bytes and lengths up to the bound.",
'C21':"TrunkStore/RootStore/MultiStore-like layers with symbolic operations; oracle: stacked maps.",
'C22':"compactForShard driven through the real EndWrite by an index that reports enough entries (an in-package wrapper whose ActiveCount is large); every leaf and entry before and after is compared.",
'C23':"Whole store with a crash chosen by the solver before any file-system or database mutation, an interrupted write cut at three places, process crash and power failure (unsynced data lost), three scheduling policies (flushers as early or as late as possible); the directory is reopened by the real recovery code and compared. Excluded: a crash during the very first creation of the directory.",
'C24':"The same block executed under different schedules, map orders and worker counts must give the same root, positions and reads; delay-bounded and preemption-bounded scheduling at synchronisation operations. Switches happen at synchronisation operations only: an unsynchronised access that never meets one is outside.",
'C25':"Reopen after each bounded history and compare the index (all keys and positions); ScanEntries/ScanEntriesLite over logs with inactive, dummy and relocated entries.",
'C26':"Twig bit operations for a symbolic leaf and symbolic prior pattern; then in the tree with the root.",
'C27':"GetShardID, bucket and index-channel routing over all 8-byte keys (and other lengths), symbolically, in a handful of queries: complete for 8-byte keys.",
'C28':"PruneBeforeHeight on stores with symbolic heights; live entries and entries in force at or above the height must be readable, then reopen (also after a crash). Relocated entries: known finding K1.",
'C29':"A second hash-keyed transaction over a trunk that records what is read, prepared and written; short-key collisions chosen by the solver; what ScanAllShortKeys, IsClean, CachedEntryCount and GetShortKeyPath report is compared with the record.",
'C30':"A read-only transaction or a locked reader of the root runs in a goroutine of its own beside the write-back of a block that changes, deletes and creates keys; delay- and preemption-bounded scheduling at synchronisation operations; every value read must belong to one block.",
}
