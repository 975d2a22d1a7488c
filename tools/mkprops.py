import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
M="moeingads.go"
p("C01","Committed reads equal the sequential map of all block operations",
 "After every committed block, looking a key up returns exactly the value of the last set applied to it in block order, or nothing if the last operation was a delete or it was never set; several operations on one key inside a block, deletes of absent keys and keys that were only prepared have exactly the effect of the final operation (or none). The returned record carries the height of the block that last rewrote it and, as last-height, the height it had before that rewrite.",
 ["histories","inputs"],"every sequence of blocks of prepare/set/delete operations over every key population (all shards, all first-byte ranges, adjacent keys, empty values)",
 "The unit tests run a handful of fixed short histories; they do not sample set-then-delete, delete-then-set, prepared-but-unused keys or shard/bucket boundaries in combination.",
 [M,"indextree/indextree.go","datatree/entryfile.go"],
 [("block update merge of hot entries","moeingads.go: update, PrepareForUpdate, PrepareForDeletion, Set, Delete"),("key->position index","indextree/indextree.go")],
 ["MoeingADS.GetEntry","MoeingADS.ScanAll","MoeingADS.ActiveCount","MoeingADS.GetCurrHeight"])
p("C02","Live records form one sorted linked list; one active record per key",
 "After every committed block the live keys together with the two guard keys form a single chain in ascending byte order: each live record's next-key is the smallest live key greater than it, ending at the end guard. Exactly one record per live key is active and none for absent keys, and ordered scans enumerate exactly the live keys.",
 ["histories","inputs"],"every history of blocks, including blocks that insert, delete and change neighbouring keys at once, keys next to the guards, and whole runs of neighbours deleted or inserted together",
 "Tests check consistency after a few fixed histories; the interaction of simultaneous neighbour inserts and deletes across shards is combinatorial.",
 [M],[("neighbour patching","moeingads.go: update, getPrev, getNext"),("consistency scan","moeingads.go: CheckConsistency, ScanAll")],
 ["MoeingADS.GetEntry (NextKey)","MoeingADS.ScanAll","MoeingADS.CheckConsistency"])
p("C03","The root hash is a deterministic commitment to the block history",
 "After every block the root hash equals the hash computed, from the documented tree layout, over the record log and the active/inactive flag of every record that the block history determines. It is the same for every goroutine schedule, order of prepare and set calls and internal buffer or file size, and after restarts or crash recovery, so any two replicas that executed the same blocks agree.",
 ["histories","schedules","configurations"],"every block history; every schedule and order of concurrent prepare/set/delete calls; every buffer and file size; with and without restarts in between",
 "Tests compare hashes of one run with itself or a fixed constant; they neither recompute the commitment independently nor vary schedules, sizes or restarts over long histories that cross twig boundaries.",
 [M,"datatree/tree.go","datatree/hasher.go","datatree/recover.go"],
 [("Merkle synchronisation","datatree/tree.go: syncMT, syncUpperNodes, syncNodesByLevel, syncMTree"),("shard roots to one root","moeingads.go: GetRootHash"),("serial number allocation in key order","moeingads.go: update")],
 ["MoeingADS.GetRootHash","SyncUpdateTo"])
p("C04","Every live key has a verifying proof; altered proofs are rejected",
 "For every live key a proof can be produced whose record bytes decode to the current record and which verifies up to the current shard root, and the proof passes serialisation unchanged; for absent keys proof generation reports an error. A proof whose record, serial number, activity bits, sibling hash or root has been altered does not verify against the true root.",
 ["histories","inputs"],"every live key at every height of every history, including keys in the youngest, full, and partially deactivated twigs, before and after compaction, pruning, restart; every single alteration of a proof",
 "Tests check proofs for a few entries of one small tree; path shape depends on twig position, tree height and how much was evicted or pruned.",
 ["datatree/proof.go","datatree/twigmtfile.go",M],
 [("proof construction and check","datatree/proof.go: GetProof, Check, CheckProof"),("hash nodes of full twigs on disk","datatree/twigmtfile.go: GetHashNode")],
 ["MoeingADS.GetProof","datatree.BytesToProofPath","ProofPath.Check"])
p("C05","A crash anywhere recovers to exactly the last committed block",
 "If the process dies at any point after the database was created - inside block execution, while a block's data or metadata is being written, or while old data is being pruned - reopening succeeds and shows exactly the state of the last block whose commit completed (all of that block or none of it): same records, root hash, height, proofs and history. Blocks reported as ended before the crash are never lost, and continuing from the recovered database gives the same results as if no crash had happened.",
 ["crash_points","histories"],"every crash point between the system calls that change files, in every block and prune operation of every history, repeated crashes included",
 "No test kills the process in the middle of a block; the orders in which 16 data files and the key-value store reach the disk are scheduled by background goroutines.",
 [M,"datatree/recover.go","datatree/hpfile.go","metadb/metadb.go","indextree/rocks_db.go"],
 [("flush-before-commit ordering","moeingads.go: EndWrite, allShardEndBlock"),("truncate to committed sizes and rescan","datatree/recover.go: RecoverTree"),("atomic batch","indextree/rocks_db.go: CloseOldBatch")],
 ["NewMoeingADS on a crash image","MoeingADS.GetEntry","GetRootHash","GetCurrHeight"],None,
 [("committed file sizes","sizes the metadata vouches for","metadb/metadb.go")])
p("C06","Closing and reopening never changes anything observable",
 "Closing the database after a committed block and opening it again, any number of times and with or without history queries enabled, yields the same records, height, root hash, proofs and counts, and every later block behaves exactly as it would have without the restart.",
 ["histories","configurations"],"every history with restarts at every block boundary, including after twig rollover, compaction and pruning and with several restarts in a row",
 "Tests reopen once after one short history; what must be rebuilt depends on twig boundaries, deactivation lists, evicted and pruned twigs.",
 [M,"datatree/recover.go","metadb/metadb.go"],
 [("rebuild of index and active bits from the log","moeingads.go: NewMoeingADS; datatree/recover.go"),("persistent counters","metadb/metadb.go: Commit, ReloadFromKVDB")],
 ["NewMoeingADS","MoeingADS.Close","all read APIs"])
p("C07","Compaction preserves all live data and really reclaims old twigs",
 "When a block ends with too many stale records relative to live ones, every live record of the oldest twig of each sufficiently long shard is rewritten unchanged (apart from its serial number) and that twig leaves the active set, so that the oldest active position advances; otherwise no compaction happens. No key's value, next-key, heights, proof or ordering changes, and nothing becomes unreadable.",
 ["histories"],"every history that reaches the reclaim threshold: any mix of live and dead records in the oldest twig, empty twigs, full deactivation lists, compaction in the same block as changes to the same keys",
 "The threshold is a million live records and ten twigs, so the unit tests hardly reach it; they never check what was moved.",
 [M,"datatree/entryfile.go","datatree/tree.go"],
 [("compaction","moeingads.go: EndWrite, compactForShard"),("raw copy of live records","datatree/entryfile.go: GetActiveEntriesInTwig; tree.go: AppendEntryRawBytes, EvictTwig")],
 ["MoeingADS.EndWrite with low thresholds, then all read APIs"],"constants made settable by a build overlay at check time; no change in /repo")
p("C08","Pruning removes only unneeded data and changes no current result",
 "Pruning before a height removes only twigs that were already evicted and began before that height; afterwards and after any later blocks, restarts and further prunings, all current records, root hashes and proofs are unchanged and further blocks behave as without pruning. Pruned space is really released once enough twigs qualify, and queries at or below the prune height report not-found rather than wrong data.",
 ["histories","crash_points"],"every history of blocks, prunings at any height, restarts immediately after pruning, repeated pruning; every file size",
 "No unit test prunes and restarts a database, and edge nodes depend on the parity of the pruned range at every level.",
 [M,"datatree/tree.go","datatree/recover.go","datatree/hpfile.go"],
 [("prune","moeingads.go: PruneBeforeHeight"),("edge nodes","datatree/tree.go: PruneTwigs, ReapNodes, getEdgeNodes"),("file head removal","datatree/hpfile.go: PruneHead")],
 ["MoeingADS.PruneBeforeHeight then all read APIs and NewMoeingADS"])
p("C09","Historical reads return the record as of the requested height",
 "With history enabled and no pruning, reading a key at height h returns exactly the record it had after the last block at or below h, or nothing if it did not exist then; later blocks, deletions, re-creations, compaction and restarts never change answers about the past. After pruning before height p, queries at heights at or below p report not-found, and queries above p still give exact answers.",
 ["histories","inputs"],"every key, every height (before first, between, at, and after blocks), in every history with deletion and re-creation, compaction and restarts",
 "Tests query a few heights of one key; correctness depends on neighbouring keys in the ordered store and on what compaction rewrites.",
 [M,"indextree/indextree.go","indextree/rocks_db.go"],
 [("versioned index","indextree/indextree.go: Set, Delete, GetAtHeight"),("prune filter","indextree/rocks_db.go: HeightCompactionFilter")],
 ["MoeingADS.GetEntryAtHeight","RootStore.GetAtHeight","NewReadOnlyRabbitStoreAtHeight"])
p("C10","The rabbit store is an exact map in spite of slot collisions",
 "For any keys, including keys whose slot sequences collide, a rabbit store behaves as a map: after any sequence of sets, changes and deletes, within one transaction or across written-back transactions, each key reads back its own last value or nothing, a key's presence check agrees with that, and no operation on one key disturbs another. When all keys are deleted no slots remain in the underlying store.",
 ["histories","inputs"],"every sequence of set/get/has/delete over every set of keys with every pattern of slot collisions, split over transactions in any way",
 "With 8-byte slots collisions never occur in tests; the tombstone and pass-by counters only matter under collisions.",
 ["store/rabbit/rabbit.go","store/rabbit/simple_cache.go","store/rabbit/simple_multi.go"],
 [("rabbit jump probing with pass-by counts","store/rabbit/rabbit.go: find, setHelper, Delete"),("slot encoding","store/rabbit/simple_cache.go: ToBytes, BytesToCachedValue")],
 ["RabbitStore.Get/Has/Set/Delete/WriteBack","underlying store's ActiveCount"],"slot width overridden by a build overlay at check time; no change in /repo")
p("C11","Layered stores give isolated, all-or-nothing, read-your-writes transactions",
 "A transaction store reads its own writes first, then those written back to its trunk, then the committed block state (never a stale cached value); nothing of a transaction is visible elsewhere until it is written back, a discarded transaction or trunk leaves no trace, and read-only stores can never write. After a trunk is written back, reading the root store, through its cache or not, gives exactly the merged result, and applying a trunk's captured content to a replica gives the same root hash.",
 ["histories","inputs","configurations"],"every nesting and ordering of transactions, discards, deletes and write-backs, with any cacheable-key rule and cache size, across blocks and restarts",
 "Tests cover one simple nesting; cache eviction, deletes that shadow lower layers, discards and read-only variants combine in many ways.",
 ["store/root.go","store/trunk.go","store/cache.go","store/rabbit/simple_multi.go"],
 [("write-through cache","store/root.go: Get, Set, Delete, addToCache"),("write buffer","store/trunk.go; store/cache.go"),("transaction buffer","store/rabbit/simple_multi.go")],
 ["RootStore.Get","TrunkStore.Get","RabbitStore.Get","SyncUpdateTo","GetRootHash"])
p("C12","Readers always see one committed block, under every schedule",
 "While one writer commits blocks, every concurrently opened transaction or read-only store sees one committed block for its whole lifetime, never a mixture of two blocks, and a write-back waits until open readers have closed and then becomes visible to all later readers at once. Concurrent preparation of keys from many goroutines never loses or corrupts an update.",
 ["schedules"],"every interleaving of one writer with many readers and of concurrent prepare calls",
 "Unit tests are single threaded or run few schedules and check nothing about which snapshot a reader saw.",
 ["store/root.go","store/trunk.go","store/rabbit/simple_multi.go",M],
 [("reader/writer lock held for the life of a reader","store/root.go: RLock, Lock; simple_multi.go: NewSimpleMultiStore, Close"),("bucket locks","moeingads.go: BucketMap, BucketSet")],
 ["recorded begin/read/close/commit events of concurrent runs"])
p("C13","The index is an exact ordered map with exact range iteration",
 "The in-memory index returns the position last set for each key and nothing for deleted keys, counts its keys exactly, and forward and reverse iteration over any half-open range yields exactly the present keys of that range in ascending or descending order, wherever the bounds fall. Rebuilding the index from its persistent records yields the same map.",
 ["histories","inputs"],"every sequence of set/delete blocks over keys that share or straddle high-order prefixes, extreme keys, and every pair of range bounds including empty and inverted ranges",
 "The index is split into 65536 prefix slots over a C++ tree; tests use random keys that rarely put range bounds at slot edges or empty slots.",
 ["indextree/indextree.go","indextree/b/cppbtree/cppbtree.go","indextree/b/cppbtree/cppbtree.cpp","indextree/rocks_db.go"],
 [("slot array of trees","indextree/b/cppbtree"),("iterators","indextree/indextree.go: Iterator, ReverseIterator, Init")],
 ["NVTreeMem.Get/Iterator/ReverseIterator/ActiveCount/Init"])
p("C14","Record files are exact append-only logs across file and buffer edges",
 "A record appended to a data file is read back bit-for-bit at the position returned by the append, whatever its size, content (including embedded marker bytes) and the buffer and file sizes, after flushing and reopening; sequential scanning from any record visits the following records exactly once and in order. Truncating to an earlier size removes exactly the later records so that appending again continues as if they never existed, and pruning the head removes no record at or above the given position.",
 ["inputs","histories","configurations"],"every sequence of append/flush/read/scan/truncate/prune/reopen with every record size relative to buffer and file boundaries and every placement of marker bytes",
 "Tests use one file size and a few records; boundaries depend on exact byte counts.",
 ["datatree/hpfile.go","datatree/entryfile.go","datatree/twigmtfile.go"],
 [("multi-file stream","datatree/hpfile.go: Append, flush, ReadAt, Truncate, PruneHead"),("record codec","datatree/entryfile.go: EntryToBytes, readEntry")],
 ["HPFile.*","EntryFile.*","datatree.EntryToBytes/EntryFromBytes"])
p("C15","A data tree rebuilt or reloaded from disk equals the one in memory",
 "At every block boundary a tree recovered from its files, or saved and loaded through the checkpoint files, has the same root hash, active flags, proofs and file sizes as the tree in memory, and behaves identically when further records are appended, deactivated, evicted or pruned. This holds at every position within and across twig boundaries and after any eviction and pruning.",
 ["histories","configurations"],"every sequence of append/deactivate/evict/prune/save/load/recover operations on one tree, every buffer and file size",
 "Tests recover one tree once; upper-tree rebuilding depends on parity and depth of the evicted and pruned range.",
 ["datatree/tree.go","datatree/recover.go","datatree/load.go","datatree/proof.go"],
 [("recovery","datatree/recover.go"),("checkpoint","datatree/load.go: SaveMemToDisk, LoadTree")],
 ["datatree.RecoverTree","datatree.LoadTree","Tree.EndBlock","Tree.GetProof"])
p("C16","Transactions report the slots they depend on, and non-overlapping ones commute",
 "A transaction on a rabbit store reports through its slot scan every slot it changes, marked as changed (dirty), and every occupied slot it met, and nothing it never looked at, before and after it is closed; a scan can be stopped. The short-key path of any key, present or absent, lists the slots on which the lookup depends, the free slot at which it ended included. Transactions executed side by side on one trunk, none of which changes a slot that a later one looked at, give when they are written back in order the same answers and the same state as executed one after another.",
 ["histories","schedules","inputs"],"every pair and group of concurrently executed transactions over every state of the store and every way the slots of the keys can collide",
 "No test looks at the slot scan or runs two transactions side by side; what a transaction depends on is decided by collisions, empty holes and pass-by counts that random keys never produce.",
 ["store/rabbit/rabbit.go","store/rabbit/simple_cache.go","store/rabbit/simple_multi.go","store/trunk.go"],
 [("lookup along the slot path","store/rabbit/rabbit.go: find, GetShortKeyPath"),("slot scan","store/rabbit/simple_cache.go: ScanAllShortKeys"),("dirty marks and write-back","store/rabbit/simple_multi.go: SetCachedValue, WriteBack")],
 ["RabbitStore.ScanAllShortKeys/GetShortKeyPath/CachedEntryCount/IsClean","answers and written-back state of concurrent transactions"])
p("C17","Damaged files are refused or change nothing",
 "A closed database one of whose record or twig files, or one of whose checkpoint files, has been altered (a byte changed, a file cut short, removed) either refuses to open or shows exactly the committed state: the same reads, root and counters, the same behaviour afterwards and after another restart. Everything the root hash is computed from at start-up is covered: a change of a record from the oldest active twig on, of the position stored for that twig, of an evicted twig's root the upper tree is rebuilt from, or of any byte of a checkpoint is refused. A proof asked for after such an alteration, also one made while the database is open, is refused or is a proof of the committed record against the root. Not covered: alterations of the key-value store's own files, historical values of already evicted records, a checkpoint cut exactly between two entries.",
 ["inputs","histories"],"every committed state and every byte of every record, twig and checkpoint file, changed in every way",
 "No test alters a file; which bytes are protected by what depends on where eviction, pruning and the twig boundaries are.",
 ["datatree/entryfile.go","datatree/twigmtfile.go","datatree/recover.go","datatree/load.go","datatree/proof.go","moeingads.go"],
 [("root comparison at start-up","moeingads.go: recoverDataTrees; datatree/recover.go: RecoverTree"),("record codec","datatree/entryfile.go: ReadEntryAndSNList"),("twig file checks","datatree/twigmtfile.go: GetFirstEntryPos, GetHashNode"),("checkpoint checks","datatree/load.go: LoadTwigFromFile, LoadNodes, LoadMtree4YT")],
 ["moeingads.NewMoeingADS on altered files","datatree.LoadTree on altered files","MoeingADS.GetProof"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
