#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Write-ahead log: committed operations survive any crash, exactly once, in order",
  "After a crash at any point of any history of log appends (including a torn or corrupted tail, and crashes after earlier recoveries), "
  "replay returns every operation whose commit had been acknowledged, exactly once, with its original payload, in operation-id order, "
  "and never returns an operation that was not committed or bytes that were never logged. Operation ids handed out after a restart are "
  "strictly larger than every id already used, and appending after recovery never makes earlier or later committed operations unreadable.",
  ["crash_points", "histories"], "every history of begin/commit/reset/restart up to the stated depth, every byte offset of the log as crash cut, repeated crash-recover-append cycles",
  "recovery_test.cpp replays a handful of hand-written logs and one truncated tail; it never appends after a torn tail nor cuts at every byte.",
  ["include/recovery/write_ahead_log.hpp", "include/utils/binary_io.hpp"],
  [("append_insert_begin/append_remove_begin/append_upsert_begin/append_commit", "write_ahead_log.hpp"), ("replay_committed_ops", "write_ahead_log.hpp")],
  [("wal file", "framed begin/commit records", "wal.bin")], "append_commit (ack), replay_committed_ops")

p("P02", "The current snapshot is always complete and matches the log",
  "At every crash point of a snapshot publication, recovery finds either the previous snapshot or the new one, complete with all of its files, "
  "and the operations to replay on top of it are exactly the committed operations that the chosen snapshot does not already contain. "
  "A damaged snapshot pointer or manifest is reported as an error or as absent, never loaded as a different snapshot.",
  ["crash_points", "histories"], "every crash point (operation boundary and torn last write) of every history of log-append / snapshot / restart up to the stated depth; every single-byte truncation of the manifest files",
  "Tests publish one snapshot and reopen it; no crash between the directory write, the pointer rename and the log truncation is exercised.",
  ["include/recovery/recovery_manager.hpp", "include/recovery/snapshot_manifest.hpp", "include/recovery/write_ahead_log.hpp"],
  [("create_snapshot_dir / publish", "recovery_manager.hpp"), ("manifest save/load", "snapshot_manifest.hpp")])

p("P03", "Disk collection: flushes are atomic and durable across any crash",
  "After a crash at any point while a disk collection is created, flushed or imported into, reopening it either succeeds and shows exactly the "
  "rows of a prefix of the flushes containing every flush that had returned, each flush entirely or not at all, or (only while the initial creation had not returned) fails cleanly. "
  "Searching, adding and flushing then continue to work on the recovered collection, whatever leftovers the crash produced.",
  ["crash_points", "histories"], "every file-system operation boundary, torn last write and lost un-synced-write subset (bounded) of every create/add/flush history in the bound, for flat and graph segments",
  "Tests simulate a few leftovers by hand (a stale temp directory, a missing manifest); no test crashes at each file-system operation or drops un-synced writes.",
  ["include/index/disk/disk_collection.hpp", "include/index/disk/disk_flat_builder.hpp", "include/index/disk/vamana_segment_builder.hpp", "include/utils/platform_fs.hpp"],
  [("flush / ctor / open", "disk_collection.hpp"), ("segment publish", "disk_flat_builder.hpp, vamana_segment_builder.hpp")], None, "DiskCollection::flush, DiskCollection::open")

p("P04", "Disk collection: an I/O fault never loses rows or publishes a partial flush",
  "When any single file-system call fails during create, flush, open or search of a disk collection, the operation either succeeds with its full effect or reports an error, "
  "after which the rows pending before the call are still pending, every previously flushed row is still found, and repeating the operation without the fault succeeds with its full effect. "
  "No failed flush ever becomes partly visible, either in the same process or after reopening.",
  ["fault_sequences", "histories"], "every system call issued by every operation of the bounded histories, failing once with each applicable error (or as a short write)",
  "Tests inject no system-call failures beyond a read-only directory.",
  ["include/index/disk/disk_collection.hpp", "include/index/disk/disk_flat_builder.hpp", "include/index/disk/vamana_segment_builder.hpp", "include/utils/platform_fs.hpp"],
  [("flush rollback of the unpublished segment, pending retained", "disk_collection.hpp"), ("sync_file_or_throw/atomic_replace", "platform_fs.hpp")])

p("P05", "Disk collection: every operation sequence behaves like an exact in-memory table",
  "For every sequence of adds, flushes, searches and reopens, a flat disk collection answers each search with exactly the k nearest flushed rows under its metric, ordered by distance and then by id, "
  "independently of how the rows were split into flushes; rows added but not flushed are not returned. Invalid requests (wrong dimension, duplicate or reserved ids, exceeding the pending limit) are rejected and leave the collection unchanged.",
  ["histories", "inputs"], "every operation sequence up to the stated depth over a small alphabet of rows/ids (with ties) and all three metrics",
  "Tests use fixed scenarios with one or two segments; ties across segments and long mixed sequences are not enumerated.",
  ["include/index/disk/disk_collection.hpp", "include/index/disk/disk_flat_searcher.hpp", "include/index/disk/types.hpp"],
  [("add_batch / flush / search / merge of per-segment hits", "disk_collection.hpp"), ("DiskFlatSearcher::search", "disk_flat_searcher.hpp")])

p("P06", "Batch search equals one-by-one search under every thread schedule",
  "A multi-threaded batch search over a disk collection returns, for every query, exactly what a single search for that query returns (padded in the documented way when fewer rows exist), for every number of threads and every interleaving of its workers. "
  "If any query fails, the batch reports an error and never returns partially filled results.",
  ["schedules", "inputs"], "all interleavings of the worker threads (bounded preemptions) for 1..3 threads x small query batches, with and without a failing query",
  "Tests run each batch once under whatever schedule the machine produces.",
  ["include/index/disk/disk_collection.hpp"], [("batch_search workers: shared query counter, abort flag, first-error capture", "disk_collection.hpp")])

p("P07", "A disk collection has at most one owner at a time",
  "For every interleaving of creators and openers of the same path (in one or several processes), at most one of them holds the collection at any moment, an attempt made while another holds it fails with an error without damaging the collection, and after the owner closes it (or dies) the next attempt succeeds. "
  "Of several concurrent creators exactly one succeeds, and its collection is intact; an opener that arrives while a collection is still being created fails cleanly. A creator that dies before its collection is complete leaves at most a directory that has to be removed by hand: no later attempt takes it for a collection.",
  ["schedules", "fault_sequences"], "all interleavings, at file-system-call granularity, of 2-3 actors creating/opening/closing the same path, including an actor dying at any call",
  "test_disk_collection_lock.cpp runs a few two-actor orders.",
  ["include/index/disk/disk_collection.hpp"], [("acquire_collection_lock_for_create / for_open", "disk_collection.hpp")])

p("P08", "Collection and segment manifests round-trip and reject every malformed variant",
  "Every manifest that can be saved loads back equal, and every text obtained from a valid manifest by dropping, duplicating or altering a field, truncating it, or adding foreign bytes is either rejected with an error or loads to exactly what the text says. "
  "A collection manifest that contradicts itself or its segments (repeated segments, other dimension or metric) is refused. A manifest never makes the system read outside the collection's own directory.",
  ["inputs"], "every single-edit mutation (byte deletion/replacement/insertion from a critical alphabet, line drop/dup/swap, truncation at each byte) of representative manifests, plus path-shaped segment names",
  "segment_manifest_test.cpp checks a few dozen chosen malformed files.",
  ["include/index/disk/segment_manifest.hpp", "include/index/disk/segment_factory.hpp"], [("CollectionManifest::load/save, SegmentManifest::load/save", "segment_manifest.hpp")])

p("P09", "Damaged segment files are refused or harmless, never crash or yield bogus rows",
  "Opening and searching a flat or graph (Vamana) segment whose files were truncated or altered at any single position either reports an error or returns a well-formed answer: no more than k distinct hits, ordered, each naming a row of the segment. "
  "It never reads outside the mapped files and never loops forever.",
  ["inputs", "fault_sequences"], "every truncation length and every single-byte corruption (three values) of every structural byte of small flat and graph segments",
  "test_vamana_reader.cpp covers a list of specific corruptions.",
  ["include/index/graph/vamana/vamana_reader.hpp", "include/index/disk/disk_flat_searcher.hpp", "include/index/disk/vamana_segment_searcher.hpp", "include/storage/mmap_file.hpp"],
  [("VamanaReader structural validation", "vamana_reader.hpp"), ("DiskFlatSearcher::open size checks", "disk_flat_searcher.hpp")])

p("P10", "Scalar store: any operation sequence behaves like a map with unique external ids",
  "For every sequence of inserts, batch inserts, updates, removals and reopens, the scalar store returns for each record exactly the last value written, never two live records with the same external id, and a record count, external-id lookups, scans and field-value/range lookups that agree with the live records. "
  "A rejected operation changes nothing.",
  ["histories", "crash_points"], "every operation sequence up to the stated depth over a small alphabet of ids, external ids and metadata (including values that contain separators), with reopen and process-kill between operations",
  "rocksdb_storage_test.cpp exercises single operations and a few pairs; value aliasing and kill-before-close are not covered.",
  ["include/storage/rocksdb_storage.hpp", "include/utils/index_encoding.hpp", "include/utils/scalar_data.hpp"],
  [("insert/batch_insert/update/remove: one write batch for data and indexes", "rocksdb_storage.hpp"), ("field index keys", "index_encoding.hpp")])

p("P11", "Metadata filters select the same records with and without an index",
  "For every filter expression and every set of records, the filter executor accepts exactly the records whose metadata satisfies the expression, whether it answers from a field index, from a per-id check, from a batch or from a full scan, and its reported match count equals the number of accepted records.",
  ["inputs", "configurations"], "every filter up to depth 2 over all operators and a boundary value alphabet (all types, negatives, extremes, prefixes, separators) x small record sets x {indexed, unindexed}",
  "metadata_filter_test.cpp checks chosen filters on chosen records.",
  ["include/utils/metadata_filter.hpp", "include/utils/metadata_filter_matcher.hpp", "include/utils/index_encoding.hpp"],
  [("MetadataFilterExecutor fast path / blocked bitset", "metadata_filter_matcher.hpp"), ("MetadataFilter::evaluate", "metadata_filter.hpp")])

p("P12", "Record payloads round-trip, and partial decoding agrees with full decoding",
  "Every record encodes to bytes that decode to an equal record, decoding only selected metadata fields gives exactly those fields of the full record, and damaged or truncated bytes are rejected or decoded without reading past their end. "
  "The sortable encodings of integers and reals preserve equality and order and decode to the original value.",
  ["inputs"], "all records over a bounded alphabet of strings/values/field counts; every truncation and single-byte change of their encodings; all pairs from a boundary set of numbers",
  "Tests round-trip a few records.",
  ["include/utils/scalar_data.hpp", "include/utils/index_encoding.hpp", "include/utils/binary_io.hpp"],
  [("serialize/deserialize/deserialize_selected_metadata", "scalar_data.hpp"), ("encode_int64/encode_double", "index_encoding.hpp")])

p("P13", "Vector storage: any operation sequence behaves like an id-to-vector map",
  "For every sequence of inserts, removals, updates, and save/load cycles, each live id returns exactly the vector last stored for it, removed ids are reported invalid, ids are never handed out twice while live, and inserting into a full store is refused without disturbing existing vectors. "
  "A saved and reloaded store is indistinguishable from the original, a truncated file is refused, and a save whose writing fails reports it.",
  ["histories"], "every operation sequence up to the stated depth over small capacities, for raw, 4-bit and 8-bit vector spaces",
  "Tests run one linear scenario per space.",
  ["include/storage/sequential_storage.hpp", "include/space/raw_space.hpp", "include/space/sq4_space.hpp", "include/space/sq8_space.hpp"],
  [("SequentialStorage insert/remove/update/reserve/save/load", "sequential_storage.hpp"), ("RawSpace", "raw_space.hpp")])

p("P14", "Search candidate pools keep exactly the best candidates",
  "For every sequence of insertions and expansions, a bounded candidate pool holds exactly the closest distinct candidates offered so far (up to its capacity), in distance order, hands out unexpanded candidates nearest first and each at most once, and never loses one that is still among the best. The visited sets used beside the pools answer exactly the membership of the marks made since they were last cleared.",
  ["histories"], "every insertion/pop sequence up to the stated length over a small set of ids and distances (with ties), for every capacity up to the bound",
  "Tests use a few fixed sequences.",
  ["include/utils/query_utils.hpp", "include/utils/rabitq_utils/search_utils/buffer.hpp", "include/index/graph/laser/utils/buffer.hpp", "include/index/neighbor.hpp"],
  [("LinearPool", "query_utils.hpp"), ("SearchBuffer", "search_utils/buffer.hpp")])

p("P15", "In-memory index: inserts, removals and searches behave like a live-id table",
  "For every sequence of fits, inserts, removals, saves and reloads on an in-memory graph index, a search returns only distinct, currently live ids in order of distance, and, when the search width covers the whole index, exactly the k nearest live vectors; "
  "a removed vector is never returned again and an inserted one is findable immediately.",
  ["histories", "inputs"], "every operation sequence up to the stated depth on small indices with search width at least the index size",
  "update_test.cpp inserts half of one data set and checks recall.",
  ["include/executor/jobs/graph_update_job.hpp", "include/executor/jobs/graph_search_job.hpp", "include/index/graph/graph.hpp", "include/index/graph/qg/qg_builder.hpp", "include/space/rabitq_space.hpp", "python/include/index.hpp"],
  [("GraphUpdateJob::insert/remove/update", "graph_update_job.hpp"), ("GraphSearchJob::search", "graph_search_job.hpp")])

p("P16", "Filtered search returns only matching records and misses none it must return",
  "For every data set, filter and k, a filtered vector search returns only live records that satisfy the filter, without duplicates and in distance order, and returns min(k, number of matching records) of them whenever the search width covers the index, the nearest ones first.",
  ["inputs", "configurations"], "every small record set x filter x k x search width in the bound, over all execution strategies (empty, indexed, pre-filter, iterative, fallback)",
  "Hybrid tests check recall on one data set that is not available offline; strategies are not enumerated.",
  ["include/executor/jobs/graph_hybrid_search_job.hpp", "include/utils/metadata_filter_matcher.hpp", "include/utils/query_utils.hpp"],
  [("hybrid search planner and strategies", "graph_hybrid_search_job.hpp")])

p("P17", "Collection API: every operation sequence behaves like a dictionary of documents",
  "For every sequence of insert, upsert, get, delete, delete-by-filter, query and filtered query on a collection, the collection contains exactly the items a plain dictionary keyed by external id would, and every get, count-like answer and query result agrees with it in id, document, metadata and distance. "
  "A record whose insertion is refused leaves no trace (records before it in the same batch stay, batches being applied record by record); any other operation that raises an error leaves the contents unchanged.",
  ["histories", "inputs"], "every operation sequence up to the stated depth over 3 external ids and small vectors, including re-inserting deleted ids and duplicate ids",
  "The Python client tests cannot run in the baseline (the extension is not built) and each checks one scenario.",
  ["python/src/alayalite/collection.py", "python/src/alayalite/index.py", "python/include/index.hpp", "include/executor/jobs/graph_update_job.hpp"],
  [("Collection.insert/upsert/delete/query", "collection.py"), ("PyIndex", "index.hpp")])

p("P18", "Collections: acknowledged changes survive saving, crashing and reloading",
  "A collection stored on disk and reloaded, after a clean save or after the process died at any point, contains every change that was acknowledged before and at most the single change that was in progress, with consistent vectors, documents and metadata, and remains usable. "
  "Reloading twice gives the same contents.",
  ["crash_points", "histories"], "every operation sequence up to the stated depth with the process killed at every file-mutating system call of the main thread, then reloaded",
  "No existing test kills the process.",
  ["python/include/index.hpp", "python/src/alayalite/client.py", "python/src/alayalite/collection.py", "include/recovery/recovery_manager.hpp", "include/recovery/write_ahead_log.hpp", "include/storage/rocksdb_storage.hpp"],
  [("PyIndex insert/upsert/remove logging, load/replay", "index.hpp"), ("Client.save_collection/get_collection", "client.py")])

p("P19", "Client namespace: names map to one object and deletions are complete",
  "For every sequence of create, get, get-or-create, save, delete, reset and reopen on a client, a name refers to at most one collection or index, listing shows exactly the names that exist, a deleted name does not come back after reopening, and no operation touches files of other names or outside the client's directory. "
  "A new collection on a name whose former data is still on disk never mixes with it.",
  ["histories", "inputs"], "every operation sequence up to the stated depth over a few names (including path-like and clashing names), with reopen",
  "Tests check each call once.",
  ["python/src/alayalite/client.py", "python/src/alayalite/schema.py", "python/src/alayalite/index.py", "python/src/alayalite/collection.py"],
  [("Client", "client.py")])

p("P20", "Updatable disk index: every operation sequence behaves like a live-label table",
  "For every sequence of inserts, removals, batch inserts, flushes and reloads on an updatable disk index, a search returns only distinct live labels in distance order with their correct distances, never a removed label, and, when the search width covers the index and the node records have room for all links, every live label that fits in k; re-inserting a removed label works and inserting a live one is refused. "
  "After a flush and reload the index answers identically, and the live count is exact.",
  ["histories", "inputs", "configurations"], "every operation sequence up to the stated depth on tiny indices (capacity slack 1-3, cache of 1 to all pages, with and without compressed codes)",
  "test_diskann_update_e2e.cpp is not built in the baseline and samples random scenarios.",
  ["include/index/graph/diskann/diskann_index.hpp", "include/index/graph/diskann/disk_page_io.hpp", "include/index/graph/diskann/slot_allocator.hpp", "include/index/graph/diskann/tombstone_bitmap.hpp", "include/index/graph/diskann/beam_search.hpp"],
  [("insert/remove/batch_insert/flush/load/search", "diskann_index.hpp")])

p("P21", "Disk-index page cache and node writes stay coherent in every order and schedule",
  "For every sequence and every interleaving of node writes, node reads, flushes and evictions, a read returns exactly the most recent completed write of that node (or one in progress at the time), never stale or torn content, and writes to nodes that share a page never overwrite each other; after a flush the file contains exactly the latest contents.",
  ["schedules", "histories"], "all operation sequences up to the stated depth and all thread interleavings (bounded preemptions) of 2-3 threads over 1-2 shared pages and caches of 0, 1 or more pages",
  "test_diskann_disk_page_io.cpp is not built in the baseline and stress-tests one schedule per run.",
  ["include/index/graph/diskann/disk_page_io.hpp", "include/index/graph/diskann/disk_page_cache.hpp"],
  [("read-modify-write per page, version check on cache fill, dirty write-back", "disk_page_io.hpp"), ("LRU", "disk_page_cache.hpp")])

p("P22", "Slot allocation never hands out a live slot and survives save and reload",
  "For every sequence and interleaving of allocations, publications, releases and save/load cycles, a slot is never handed out while another holder has it, allocation fails only when no free slot remains, released slots become available again, and a slot is visible to searches exactly from its publication to its release. "
  "Truncated or unrecognisable saved state is rejected.",
  ["histories", "schedules", "inputs"], "every operation sequence up to the stated depth from several starting sizes; truncations and header damage of the saved file",
  "test_diskann_tombstone_slot.cpp checks a few sequences.",
  ["include/index/graph/diskann/slot_allocator.hpp"], [("SlotAllocator", "slot_allocator.hpp")])

p("P23", "Deletion marks are never lost or invented under concurrent readers and growth",
  "For every sequence and every interleaving of marking, unmarking, growing and querying deletion marks, each query returns the value set by the latest completed change (or one in progress), no mark on one position affects another, counts and snapshots match, growth preserves all marks, and a saved bitmap reloads equal or is rejected when damaged.",
  ["schedules", "histories", "inputs"], "all interleavings (bounded preemptions) of 2-3 threads over small position sets around word boundaries; all sequential sequences up to the stated depth",
  "test_diskann_tombstone_slot.cpp runs sequential cases and one stress run.",
  ["include/index/graph/diskann/tombstone_bitmap.hpp"], [("TombstoneBitmap set/clear/test/grow/snapshot/serialize", "tombstone_bitmap.hpp")])

p("P24", "Pinned-node cache never serves outdated neighbours or vectors",
  "For every sequence of pinning, overriding, dropping, saving and loading cached nodes, a lookup returns exactly the latest contents given for that node or reports it absent, dropping removes exactly the intended nodes, and a reloaded cache equals the saved one while damaged cache files are rejected.",
  ["histories", "inputs"], "every operation sequence up to the stated depth over 3 nodes; every truncation of the saved file",
  "test_diskann_node_cache.cpp covers single operations.",
  ["include/index/graph/diskann/node_cache.hpp"], [("NodeCache", "node_cache.hpp")])

p("P25", "Searches concurrent with updates on a disk index see only valid results",
  "For every interleaving of searches with inserts and removals on an updatable disk index, each search terminates and returns distinct labels, each of which was live at some moment during the search and carries the distance of its own vector; when everything has finished, the index equals some sequential execution of the updates.",
  ["schedules"], "all interleavings (bounded preemptions) of one or two updates with one search on tiny indices",
  "Stress tests sample schedules and are not built in the baseline.",
  ["include/index/graph/diskann/diskann_index.hpp", "include/index/graph/diskann/disk_update_context.hpp", "include/index/graph/diskann/beam_search.hpp"],
  [("publish order label/tombstone/node record", "diskann_index.hpp"), ("per-node update locks", "disk_update_context.hpp")])

p("P26", "Waiting queues hand every permit to exactly one waiter, with no lost wake-up",
  "For every interleaving of acquisitions and releases on the coroutine admission gate, no more holders than permits exist at once, every waiter is eventually resumed exactly once provided holders release, and the gate ends with all permits available; no interleaving deadlocks.",
  ["schedules"], "all interleavings (bounded preemptions) of 2-4 coroutines on 1-2 pool threads with 1-2 permits",
  "Only exercised indirectly by stress tests that are not built in the baseline.",
  ["include/utils/coro_gate.hpp"], [("AsyncGate acquire/release hand-off", "coro_gate.hpp")])

p("P27", "Every scheduled task runs to completion exactly once and shutdown waits for all",
  "For every interleaving of submitters and workers, each task given to the task scheduler or the thread pool runs to completion exactly once, its result or exception reaches its submitter, waiting returns only when all requested tasks have finished, and shutdown neither drops queued tasks nor hangs.",
  ["schedules"], "all interleavings (bounded preemptions) of 1-2 submitters, 1-3 tasks (with suspensions) and 1-2 workers",
  "Executor tests run each configuration once.",
  ["include/executor/scheduler.hpp", "include/executor/worker.hpp", "include/executor/task_queue.hpp", "include/utils/thread_pool.hpp"],
  [("Worker::run termination on finish/total counters", "worker.hpp"), ("ThreadPool queue and completion counting", "thread_pool.hpp")])

p("P28", "Locks provide mutual exclusion and progress under every schedule",
  "For every interleaving of threads using the spin lock, the shared/exclusive lock and the pooled scratch objects built on them, exclusive holders exclude everyone else, shared holders coexist, protected data never shows a torn update, released locks become available, and no pooled object is held by two users at once.",
  ["schedules"], "all interleavings (bounded preemptions) of 2-3 threads performing lock/try-lock/shared/degrade/upgrade/acquire/release sequences",
  "Locks have no dedicated tests.",
  ["include/utils/locks.hpp", "include/index/graph/hnsw/visited_list_pool.hpp", "include/utils/rabitq_utils/search_utils/visited_pool.hpp", "include/index/graph/laser/utils/concurrent_queue.hpp"],
  [("SpinLock/SharedLock", "locks.hpp"), ("visited pools, blocking queue", "visited_list_pool.hpp, visited_pool.hpp, concurrent_queue.hpp")])

p("P29", "Asynchronous disk reads complete exactly once with the right bytes or an error",
  "For every completion order, short read, transient or permanent error and submission failure of the asynchronous read layer, each request completes exactly once, a successful one delivers exactly the requested bytes, a failed one is reported as failed to its own caller, and nothing is lost, duplicated or left waiting.",
  ["fault_sequences", "schedules"], "every completion order x result (full, short, error, delayed) of batches up to 3 requests against a stand-in kernel ring, and all interleavings of concurrent waves",
  "Tests only see what the real kernel happens to return.",
  ["include/storage/io/uring_reactor.hpp", "include/storage/io/io_uring_engine.hpp", "include/storage/io/io_engine.hpp", "include/index/graph/laser/utils/threadpool_file_reader.hpp"],
  [("UringReactor read/read_batch", "uring_reactor.hpp"), ("IOUringEngine", "io_uring_engine.hpp"), ("ThreadPoolFileReader", "threadpool_file_reader.hpp")])

p("P30", "Graph building produces well-formed graphs that survive storage",
  "For every small data set, parameter setting and interleaving of the builder's threads, the disk-graph builder produces a graph in which each node has at least one and at most R distinct neighbours, none of them itself or out of range, and whose entry point is a row nearest to the centroid; where no row has more than R candidates (n <= R+1) every row is reachable and a full-width search finds exactly the nearest rows. "
  "Writing and reading the graph back preserves it exactly, assigning rows to overlapping shards puts each row into its k nearest shards exactly once, and merging shard graphs gives each row exactly the neighbours its shards gave it (at most R of them). Damaged, truncated or partly written files are reported, not used.",
  ["inputs", "schedules", "configurations", "fault_sequences"], "every data set of up to the stated size over a small coordinate lattice (with duplicates) x R, L, alpha; every small shard set; every truncation/damage/failing call; every interleaving of 2-3 builder threads up to a preemption bound",
  "Tests check a few random data sets and fixtures, under whatever schedule the machine produces.",
  ["include/index/graph/vamana/vamana_builder.hpp", "include/index/graph/vamana/robust_prune.hpp", "include/index/graph/vamana/shard_merger.hpp", "include/index/graph/vamana/shard_assigner.hpp", "include/index/graph/vamana/vamana_writer.hpp", "include/index/graph/vamana/vamana_reader.hpp", "include/index/graph/vamana/vamana_greedy_search.hpp"],
  [("build / prune / merge / write / read", "vamana/*.hpp")])

p("P31", "All distance kernels agree with the mathematical definition in every dimension",
  "For every dimension in the supported range and every available processor-specific variant, each distance kernel (full precision and quantized) returns the mathematically defined value up to rounding, including the remainder lanes, and never reads beyond its operands.",
  ["inputs", "configurations"], "every dimension 1..N x every pair of basis/lattice vectors (which determine a bilinear form) x every CPU dispatch level, with operands placed against unreadable memory",
  "Tests compare random vectors in a few dimensions.",
  ["include/simd/distance_l2.hpp", "include/simd/distance_ip.hpp", "include/simd/cpu_features.hpp"],
  [("kernel dispatch tables", "simd/*.hpp"), ("tail handling", "simd/distance_l2.ipp, distance_ip.ipp")])

p("P32", "Product-quantized distances match their codebook and survive storage",
  "For every trained codebook, encoding assigns each sub-vector its nearest centre, the table-based distance equals the distance to the decoded vector up to rounding, re-encoding one slot does not affect others, and saved tables and codes reload identically while truncated or inconsistent files are rejected and a save whose writing fails reports it.",
  ["inputs", "histories"], "every vector over a small lattice for small codebooks; every update sequence up to the stated depth; every truncation of the saved files",
  "test_diskann_pq.cpp uses random data.",
  ["include/index/graph/diskann/pq_table.hpp"], [("PQTable train/encode/adc/save/load", "pq_table.hpp")])

p("P33", "Disk-index files are rejected when inconsistent, and pages map nodes one-to-one",
  "For every layout geometry, each node occupies its own bytes within the file, reading back a written record returns it exactly, and an index whose header, layout or side files are truncated or altered in any structural field is rejected with an error instead of serving wrong rows.",
  ["inputs", "configurations"], "every (dimension, degree, page size) in the bound; every truncation and structural-byte change of a small index's files",
  "test_diskann_layout.cpp checks a few geometries.",
  ["include/index/graph/diskann/disk_layout.hpp", "include/index/graph/diskann/diskann_index.hpp"], [("DiskLayout geometry and header validation", "disk_layout.hpp")])

p("P34", "A LASER fit in a used or interrupted directory gives the index asked for",
  "laser.Index.fit into a directory that earlier fits have used (with another seed, degree, projected dimension, number of rows, or with or without entry points), or in which a fit was killed at any moment, hands back an index that answers exactly as one built from the same inputs in an empty directory, and so does loading it later; skip_existing only ever reuses artifacts that are complete and of the same seed, rows and rotation.",
  ["histories", "crash points"], "every sequence of up to 3 fits over the configurations in the bound, every kill point of a first or second fit",
  "test_fit_skip_existing.py checks a few pairs of fits and no interruption; the wrong answers need a history, not an input.",
  ["python/src/alayalite/laser/__init__.py", "python/src/alayalite/laser/_idempotence.py", "python/src/alayalite/laser/_pca.py", "python/src/alayalite/laser/_medoid.py"], [("Index.fit", "laser/__init__.py")])

p("P35", "REST service: every request sequence behaves like a dictionary of collections",
  "For every sequence of requests to the standalone service (create, list, set_metric, insert, upsert, query, delete_by_id, delete_by_filter, save, delete, reset) and restarts, each request does what it says or is refused with the documented 4xx status (409 duplicate name, 404 missing collection, 422 malformed body) and changes nothing beyond the records of a batch before the refused one; query answers are those of a dictionary of documents, what was acknowledged is back after a restart, reported counts are true, and no request ends in an unhandled error.",
  ["histories", "inputs"], "every sequence of 2 (thorough 3) of 25 requests from 7 starting states",
  "app/tests run a handful of fixed request scripts and need fastapi; a wrong answer depends on the requests before it.",
  ["app/routers/client.py", "app/models/collection.py", "python/src/alayalite/client.py", "python/src/alayalite/collection.py"], [("REST handlers", "app/routers/client.py")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
