SEQ = 'model checking: stateless depth-first enumeration of all bounded operation sequences on the real code, compared step by step with a reference model'
CRASH = 'model checking: exhaustive enumeration of crash points, torn writes and lost un-synced writes (recorded by a libc interposer) on the real code, over all bounded histories'
FAULT = 'model checking: exhaustive single-fault injection at every intercepted system call of all bounded histories on the real code'
SCHED = 'model checking: controlled scheduler running the real code under every thread interleaving up to a preemption bound, with happens-before race detection'
CLAIMS = {
 'P01': ('fault_enumeration', CRASH + '; plus every single-byte corruption of a log and every single failing call', 'histories of up to 3 log actions, up to 2 (thorough 3) crash/restart cycles, every byte cut of small frames'),
 'P02': ('fault_enumeration', CRASH + '; plus every damage of pointer and manifest and every single failing call', 'histories of up to 4 operations/snapshots, restore interrupted at every point'),
 'P03': ('fault_enumeration', CRASH, 'up to 3 (thorough 5) flushes/reopens, and crash-recover-flush-crash; flat and Vamana segments; the laser import path is not exercised'),
 'P04': ('fault_enumeration', FAULT, 'one failing call (flush: also every pair) in create/flush/open/search, followed by retry or reopen'),
 'P05': ('model_checking', SEQ, 'up to 6 (thorough 7) operations; L2/IP/COS flat and L2 Vamana collections, all splits of up to 9 rows'),
 'P06': ('model_checking', SCHED + '; every position of a failing query and of a failing thread creation', 'up to 4 threads, 5 queries, 1-2 preemptions (thorough one more); flat, multi-segment and Vamana collections'),
'P07': ('model_checking', 'model checking: systematic enumeration, on the real code run as real processes, of all interleavings at file-system-call granularity and of the death of an actor at every call', '2 (thorough 3) processes creating/opening/closing/using one path, up to 2 switches; kill at every call'),
 'P08': ('model_checking', 'model checking: exhaustive enumeration of bounded manifest texts and of every single-edit damage on the real code, against a reference parser', 'every value of every field from a catalogue, every drop/duplication/swap of lines, every byte replaced/inserted/deleted, every truncation; collection manifests against real segments'),
 'P09': ('model_checking', 'model checking: exhaustive enumeration of every truncation and every single-position damage of segment files on the real code, with guard pages and a bound on the work', 'every byte of small flat and graph segments with several values, every truncation and extension; laser segments are not covered'),
 'P30': ('model_checking', 'model checking: exhaustive enumeration of small data sets, shard sets, damages and failing calls on the real code, and of all interleavings of the parallel builder up to a preemption bound', 'up to 5 (thorough 6) points over 6 positions x R, L, alpha; up to 3 shards; 2-3 builder threads with 2 (thorough 3) preemptions'),
 'P10': ('model_checking', SEQ, 'up to 3 operations (quick and thorough; thorough with 3 ids) out of 35-60, incl. process death and legacy keys'),
 'P11': ('model_checking', 'model checking: exhaustive enumeration of all filter expressions of a bounded grammar on the real code, compared with a reference evaluator', 'all single conditions over 4 fields, 9 operators, 18 values; all trees of depth 2 with up to 2 operands over 10 conditions'),
 'P12': ('model_checking', 'model checking: exhaustive enumeration of bounded records, of every truncation and every single-byte and single-word damage, on the real code', 'records of up to 3 (thorough 4) fields; all 256 values of every byte of 5 records'),
 'P13': ('model_checking', SEQ, 'up to 5 (thorough 7) operations on raw, SQ8, SQ4 and scalar-carrying spaces and on the storage itself; every truncation and every failing call of a save, for spaces and graphs'),
 'P14': ('model_checking', SEQ, 'up to 9 (thorough 11) offers/expansions over 4 distances incl. ties, capacities 1-4; all arrival orders of 7 (8) distances; visited sets up to 3 (4) marks at border positions, tag wrap-around'),
 'P31': ('exploration', 'model checking: exhaustive enumeration of all dimensions, lanes, codes and basis vectors within bounds on the real kernels (every instruction-set variant the CPU has), with guard pages', 'all dimensions up to 1030 (thorough 2100), all unit vectors, all code pairs, all lanes'),
 'P32': ('exploration', 'model checking: exhaustive enumeration of lattice vectors, batch sizes, slot-edit sequences, training sizes, file lengths and failing calls on the real code, against a reference evaluator', '17 shapes x 4 codebooks; edit sequences of 4 (thorough 5); sizes around 256 and the encoding block'),
 'P21': ('model_checking', SEQ + '; every single failing or partial read and write; controlled scheduler over every thread interleaving up to a preemption bound, page transfers in two halves', 'sequences of up to 5 operations over caches of 0-3 pages and 4 layouts; 16 concurrent scenarios of 2-3 threads, 2-4 preemptions'),
 'P22': ('model_checking', SEQ, 'up to 5 (thorough 6) operations incl. save/load from 4 starting sizes; every truncation of a saved file and every single-bit change of its magic numbers'),
 'P23': ('model_checking', SCHED + '; plus all bounded operation sequences', 'up to 3 threads, 2-5 preemptions; sequences of 4 (thorough 5) operations over 6 positions around word and chunk boundaries'),
 'P20': ('model_checking', SEQ + '; every single failing or half-done system call', 'up to 4 (thorough 5) operations on 6 configurations (cache sizes, large rows, compressed codes, libaio and io_uring) plus cache-bypassing and safety-net ones; emptied-and-refilled sparse indices; one object loading several directories'),
 'P25': ('model_checking', SCHED, '13 scenarios of 2-3 threads (search, pipelined and batch search against insert, remove, batch insert, batch remove, flush; row cache on and off), 1-2 preemptions'),
 'P24': ('model_checking', SCHED + '; plus all bounded operation sequences and every damage of the saved files', 'up to 3 threads, 2 preemptions; sequences of 3 (thorough 4) operations; every truncation and structural word of the files'),
 'P33': ('fault_enumeration', 'model checking: exhaustive enumeration of layout geometries and of every truncation, extension, removal and structural-word damage of the files of a disk index, on the real code', '64 geometries; 644 damaged index directories, each compared with the undamaged answers'),
 'P34': ('fault_enumeration', 'model checking: exhaustive enumeration of sequences of fits and of every point at which a fit can be killed, on the real build code (Python extension and package built from the tree), compared with an index built in an empty directory', '10 configurations; all pairs (thorough: triples) of fits, all triples of 5; every file-system change of a first or second fit as kill point, half-written too'),
 'P35': ('model_checking', SEQ + ' (the request handlers of the service, on the Python extension built from the tree)', '7 starting states, all sequences of 2 (thorough 3) out of 25 requests incl. restarts, over 2 collections and 4 ids; L2, cosine, IP'),
 'P26': ('model_checking', SCHED, 'up to 3 coroutines, 2 permits, 3 pool threads, 2-3 preemptions (thorough one more); all acquire/release orders up to 12 (14) operations'),
 'P27': ('model_checking', SCHED, 'up to 2 workers and 6 tasks, 1-3 preemptions (thorough one more)'),
 'P28': ('model_checking', SCHED, 'up to 3 threads, 2-4 preemptions (thorough up to two more)'),
 'P15': ('model_checking', SEQ, 'up to 4 (thorough 5) operations from fitted sets of 0-6 vectors on HNSW/NSG/fusion graphs with raw, SQ8 and SQ4 vectors, L2/IP/COS, full stores, reloads; RaBitQ graphs of 1-90 (thorough 500) rows in 64-200 dimensions, every width up to 33 and above the row count; AddressSanitizer'),
 'P16': ('model_checking', 'model checking: exhaustive enumeration of record sets, later changes, filters, k, search widths, execution hints and index settings on the real collection (Python extension built from the tree), compared with a reference evaluator', '16 filters x 4 hints x 9 changes (thorough: pairs of changes, up to 60 records) x 4 index settings, up to 24 records, and 1,100 in a line; raw and SQ8 vectors; L2/IP/cosine'),
 'P17': ('model_checking', SEQ + ' (through the Python extension built from the tree)', 'up to 3 operations out of about 35 over 3 ids, with duplicates inside a batch, full and indexed collections; IP, cosine and SQ8 variants'),
 'P18': ('fault_enumeration', 'model checking: exhaustive enumeration of process deaths at every file-system call of bounded histories run as real processes, each followed by reloads and further use', 'histories of up to 2 changes after creation (3 without kills), 5 kinds of collection, killed at every call of the creating/changing/saving process; process death, not power loss; calls of the main thread'),
 'P19': ('model_checking', SEQ + ' (through the Python extension built from the tree), with snapshots of the surrounding directory tree', 'up to 4 operations on one name, 3 after a first insert, 2 on two names; 24 hostile names; foreign directories'),
 'P29': ('model_checking', 'model checking: stateless enumeration of all completion orders, partial and failing submissions, short and failed reads against stand-ins for the kernel rings, and of all thread interleavings up to a preemption bound, on the real code', 'up to 4 operations, 3 reads, 2 faults; waves and pool readers of up to 3 threads with 1-2 preemptions'),
}
NOT_APPLICABLE = {}
HOOKS = {'guard': 'none', 'enable': 'no hooks: /repo is used unmodified apart from fix: commits; the interposers live in /verif/lib', 'source_commits': []}
NOTES = 'run.py builds each harness from /repo (VP_REPO) with /verif/shim standing in for the libcoro headers that are not installed here.'
