#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator so that the text stays readable).
import json,os
H="containers/cliffMap/hashMap.hpp"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
p("C01","Map operations have sequential map semantics",
 "Executed by one thread, every operation of the lock-free map (put, put-if-absent, get, contains, both removes, replace, update with a caller-supplied function) returns exactly what a mathematical finite map would return and changes exactly the binding that map would change, for every usable key and value. In particular the boolean operations report whether the operation took effect, and a caller-supplied update function is applied to the current value.",
 ["inputs","histories"],"all usable 64-bit keys and values, all short operation histories, including colliding home slots and keys that were deleted before",
 "Tests use small dense keys and never check the returned values; the quantifier is over all keys, values and op sequences.",
 [H],[("putIfMatch/getImpl probe and match rules",H),("public wrappers put/putIfAbsent/remove/replace/update/get",H)])
p("C02","Size equals the number of bindings",
 "Whenever no operation is running, the reported size equals the number of keys that a lookup would find, and isEmpty agrees with it, after every history of operations by one thread (including histories that replaced, re-inserted or deleted keys, that went through a growth of the table or that reopened an existing table file) and after operations of several threads that did not meet a growth of the table.",
 ["inputs","histories"],"all short single-threaded histories over arbitrary keys and values, with and without a growth of the table in between, and all reopened file images",
 "Tests print the size at the end of a run at most; no test compares it with the content.",
 [H],[("CHM::size accounting in putIfMatch",H),("size inference in mmapTable",H)])
p("C03","Growing the table preserves its content",
 "When inserts force the table into a larger one, every binding present before is found afterwards with the same value, deleted keys stay deleted, and the operation that triggered or met the growth (put, conditional put, remove, replace or update function) has the effect and result it would have had without growth.",
 ["inputs","histories"],"all contents of a small table at the moment of growth (keys, values, tombstones), all operations that trigger or run during the growth, including several growths in a row",
 "Tests grow tables only with dense integer keys and check nothing about individual bindings afterwards.",
 [H],[("resize/copySlot/copySlotAndCheck/helpCopyImpl/copyCheckAndPromote",H)])
p("C04","Concurrent operations are linearizable",
 "Operations that run concurrently on the map, as long as no growth of the table is involved, return results and leave contents that some sequential order of the same operations, respecting their real-time order, would produce. No insert is lost, no key is ever bound twice and no operation fails or returns an internal marker because of timing.",
 ["schedules","inputs"],"all interleavings (within the stated preemption bound) of 2 to 3 threads, all keys and values, all previous slot states",
 "Stress tests sample few interleavings and do not check results against any sequential order.",
 [H,"include/persistence.hpp"],[("CASkey/CASvalue through pcas",H),("dirty-bit protocol pcas/pcas_read/persist","include/persistence.hpp")])
p("C05","Operations concurrent with growth are linearizable",
 "Operations that overlap with a growth of the table (started by themselves or by another thread) still return results and leave contents explained by a sequential order that respects real time: nothing is lost, resurrected or duplicated while the content moves to the larger table.",
 ["schedules","inputs"],"all interleavings (within the stated preemption bound) of 2 threads of which at least one meets a growing table",
 "The window is a few instructions in a migration; stress tests neither hit it reliably nor check results.",
 [H],[("MigrationFlag marking, TOMBPRIME, copySlot ordering",H),("CASNewTable",H)])
p("C06","Concurrent increments are never lost",
 "When threads increment the counter bound to a key concurrently, the final value is the initial value (0 if the key was absent) plus the number of increments, and every increment saw a distinct previous value, whether or not the table grows meanwhile.",
 ["schedules","inputs"],"all interleavings (within the preemption bound) of 2 to 3 incrementing threads, all initial values and keys, with and without growth",
 "Tests count operations, not values; a lost update leaves no trace in them.",
 [H,"containers/ucfMap.hpp"],[("Table::increment conditional CAS",H)])
p("C07","No result depends on data a crash can still lose",
 "If an operation returned a value, or reported a key absent because it had been removed, then after a crash at any later moment and recovery the map still contains that binding (or removal) unless a later operation changed it: an effect that any operation has observed survives.",
 ["crash_points","schedules","inputs"],"all crash points after the observation, all subsets of unflushed cache lines written back, all keys and values",
 "No test crashes the map; the durable content after a crash depends on which cache lines were written back.",
 [H,"include/persistence.hpp"],[("pcas_read persists before use","include/persistence.hpp"),("PERSIST of a new table",H)])
p("C08","A crash never corrupts the stored bindings",
 "After a crash at any point of any operation and a restart that recovers from the table files, every key is bound to the value of its last persisted update or one of the updates after it, never to a torn, foreign or marked value, keys that were never inserted stay absent, and the recovered map accepts further operations correctly.",
 ["crash_points","inputs","histories"],"all crash points of short histories, all cache-line write-back subsets, all keys and values",
 "Recovery code is never executed by the tests.",
 [H],[("constructor with reconstruct=true, mmapTable",H)])
p("C09","Recovery completes an interrupted migration",
 "If the crash interrupts the move into a larger table, the recovered map presents one consistent map that contains every binding persisted in the old or new table exactly once with the newest value, and every operation on it terminates.",
 ["crash_points","inputs"],"all crash points during the growth of a small table, all contents and cache-line write-back subsets",
 "Recovery code is never executed by the tests, and the state at the crash is a combination of several files.",
 [H],[("recovery linking tables, helpCopyImpl on recovered tables",H)])
p("C10","Table files are initialised, exclusive and tidy",
 "A table file is durably in its initial state before any operation can use it as part of the map, a growing table never reuses a file that belongs to another live table, also after a restart, and only files that hold no binding any more are deleted.",
 ["crash_points","configurations","histories"],"all directory contents left by earlier runs (any file numbers), all crash points of table creation",
 "Tests delete all files before each run.",
 [H],[("mmapTable, getOrderedFileName, numFromName, fileNameCounter",H)])
p("C11","Operations finish in isolation",
 "From every reachable state, an operation whose thread runs alone from then on returns after a bounded number of steps, even if other threads are suspended forever inside their own operations.",
 ["schedules","inputs"],"all suspension points of one other thread inside any operation, all keys and values; table growth included where it holds",
 "A test cannot suspend a thread forever at every point.",
 [H],[("CAS retry loops, helping",H)])
p("C12","Word marking is lossless and reserved words are recognised",
 "Setting and clearing a mark on a word changes only that mark, testing a mark sees exactly that mark, distinct marks do not interfere, the reserved marker words are pairwise distinct under any mark, and exactly the reserved words are reported as reserved.",
 ["inputs"],"all 64-bit words and all flag combinations","Exhaustive over 2^64 words; tests use it only implicitly.",
 ["include/marking.hpp",H],[("setMark/clearMark/isMarked","include/marking.hpp"),("isKeyReserved/isValueReserved, sentinels",H)])
p("C13","Persistent compare-and-swap behaves as a compare-and-swap",
 "A persistent compare-and-swap succeeds exactly when the stored value, disregarding the not-yet-persisted mark, equals the expected value at its moment of effect; on failure it reports the differing value it met; a persistent read returns the stored value without that mark; and neither ever changes the logical value of the word otherwise, under any interleaving.",
 ["schedules","inputs"],"all words, all interleavings of 2 to 3 concurrent reads and swaps of one word (within the preemption bound)",
 "A failing CAS that races with a flush needs an exact interleaving.",
 ["include/persistence.hpp"],[("pcas, pcas_read, persist","include/persistence.hpp")])
p("C14","Range persist covers every byte",
 "Persisting a memory range makes every byte of the range durable, for every address alignment and length, before the call returns, and touches no cache line outside of the range's lines.",
 ["inputs"],"all start offsets within a cache line and all lengths up to the bound","No test can observe which lines were flushed.",
 ["include/persistence.hpp"],[("PERSIST, PERSIST_FLUSH_ONLY, PERSIST_BARRIER_ONLY","include/persistence.hpp")])
p("C15","All container adapters honour the common container contract",
 "The lock-free map adapter and the locked standard-map adapter give the same answers through the common container interface: insert reports whether the key was new, erase whether it was present, contains and get find exactly what was inserted, count is the number of keys, and increment adds one.",
 ["inputs","histories"],"all short histories over all element values that fit the container",
 "Tests ignore the results of the container calls.",
 ["containers/ucfMap.hpp","containers/stlMap.hpp","containers/container.hpp"],[("ucf::container_type","containers/ucfMap.hpp"),("stl::container_type","containers/stlMap.hpp")])
p("C16","The locked standard-map adapter is thread-safe",
 "Concurrent calls on the locked standard-map adapter are free of data races and linearizable: every call, reading ones included, takes effect atomically.",
 ["schedules","inputs"],"all interleavings (within the preemption bound) of 2 threads calling any two operations",
 "A data race on a tree rarely shows in a stress test.",
 ["containers/stlMap.hpp"],[("global_lock","containers/stlMap.hpp")])
p("C17","Streaming hash equals one-shot hash",
 "Feeding an input to a streaming hasher (32 and 64 bits, and the 64- and 128-bit variants of XXH3) in any split into consecutive pieces gives the same digest as hashing the whole input at once; asking for the digest does not disturb the stream, a reset hasher behaves as a new one, and a copied hasher continues on its own, for every input, seed and split.",
 ["inputs"],"all byte contents and seeds for all lengths and splits up to the bound, 32- and 64-bit classic and the newer 64- and 128-bit variants as stated by the bounds",
 "Byte contents, lengths and splits multiply beyond what tests can enumerate; the repository has no hash test.",
 ["hashing/xxhash.hpp"],[("hash_state_t / hash3_state_t update, digest","hashing/xxhash.hpp")])
p("C18","Hash values follow the published algorithm",
 "The 32- and 64-bit hash of an input equals the published xxHash specification's value for every content and seed, and the 64- and 128-bit XXH3 hash equals the value of the XXH3 algorithm of the xxHash 0.7 series (the one this header states to implement), whichever vector unit it is compiled for, with the default secret, any seed, or any secret the caller gives. The value is independent of the memory alignment of the input and of the form it is passed in, and the canonical (big-endian) form converts back to the same value.",
 ["inputs","configurations"],"all byte contents and seeds for all lengths and alignments up to the bound; scalar and SSE2 code (AVX2 in the thorough tier)",
 "The repository has no hash test at all.",
 ["hashing/xxhash.hpp"],[("xxhash<32>/xxhash<64>, xxhash3, endian_align, canonical_t","hashing/xxhash.hpp")])
p("C19","Work is divided completely among threads",
 "For every number of operations and threads, the per-thread shares computed by the test driver add up to the requested total and differ by at most one.",
 ["inputs","configurations"],"all operation counts and all thread counts up to the bound","Tests run a few fixed thread counts.",
 ["tests/test.hpp"],[("opsPerThread","tests/test.hpp")])
p("C20","Command-line options are taken as given",
 "Every documented option sets exactly its own parameter to the given value, for every order and combination of options, options not given keep their documented defaults, and malformed numbers or missing arguments are rejected with an error instead of being used.",
 ["inputs","configurations"],"all sequences of up to 3 options with symbolic short arguments","Tests use one fixed option order.",
 ["runTest.hpp"],[("option parsing","runTest.hpp")])
p("C21","Level-hashing map has sequential set semantics",
 "Executed by one thread, insert, erase, update and search on the level-hashing map behave as a finite map, also across expansions of the table.",
 ["inputs","histories"],"all short histories over arbitrary keys including colliding ones","Tests ignore results.",
 ["include/libpmemobj++/experimental/clevel_hash.hpp","containers/levelMap.hpp"],[("insert/erase/update/search/expand","include/libpmemobj++/experimental/clevel_hash.hpp")])
p("C22","Level-hashing map uses per-thread state in bounds",
 "Through the container interface, any number of threads (as configured) can insert, erase and search concurrently without accessing another thread's private bookkeeping or memory outside of it.",
 ["configurations","schedules"],"all thread counts and thread numbers up to the bound","An out-of-bounds access in a large pool does not crash.",
 ["containers/levelMap.hpp","include/libpmemobj++/experimental/clevel_hash.hpp"],[("set_thread_num, thread ids passed by insert/erase","containers/levelMap.hpp")])
p("C23","Transactional concurrent map adapter is a correct map",
 "The persistent concurrent-hash-map adapter gives the common container contract under concurrent use and keeps completed operations across a crash.",
 ["inputs","schedules","crash_points"],"all short histories and crash points","Tests ignore results and never crash.",
 ["containers/pmemMap.hpp","include/libpmemobj++/container/concurrent_hash_map.hpp"],[("container_type","containers/pmemMap.hpp")])
p("C24","Multi-word compare-and-swap is atomic",
 "A multi-word compare-and-swap changes either all of its words or none, succeeds exactly when all words had their expected values at one moment, and readers never see a partial result or a descriptor, under any interleaving.",
 ["schedules","inputs"],"all interleavings of 2 threads over overlapping word sets","No test covers it.",
 ["include/KCAS/pmwcas.hpp"],[("PMwCAS, PMwCASRead, RDCSS helpers","include/KCAS/pmwcas.hpp")])
p("C25","Multi-word compare-and-swap survives crashes",
 "After a crash at any point of a multi-word compare-and-swap and recovery, all of its words hold their old values or all hold their new values, and no descriptor remains.",
 ["crash_points","schedules"],"all crash points and write-back subsets","No test covers it.",
 ["include/KCAS/pmwcas.hpp"],[("recovery of descriptors","include/KCAS/pmwcas.hpp")])
p("C26","128-bit hashes are ordered as numbers",
 "The six comparison operators on 128-bit hash values agree with comparing the values as 128-bit numbers; in particular they are a total order consistent with equality.",
 ["inputs"],"all pairs of values","No test compares 128-bit hashes.",
 ["hashing/xxhash.hpp"],[("uint128_t operators","hashing/xxhash.hpp")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
