# The runs that decide each property: harness, bounds and what they mean.
PUT, PUTABSENT, GET, CONTAINS, REMOVE, REMOVEV, REPLACE, INC, ADD = [1 << i for i in range(9)]
def R(name, src, what, D={}, opts=[], flags=[], covers=['end'], tier='quick', procs=2, time=240, **k):
    return dict(name=name, src=src, what=what, D=D, opts=opts, flags=flags, covers=covers, tier=tier, procs=procs, time=time, **k)
BASE = ['LLVM IR of clang 18 -O1 has the semantics of the built program (the test build uses g++)', 'the engine\'s encoding of LLVM IR and its stand-ins for the C library and the file system (engine/env.cpp)',
    'assertions of the code under test are active, as in the default build']
SC = ['interleavings are sequentially consistent (all shared accesses of the code are seq_cst atomics; data races are a separate property)']
INOUT = 'longer histories, larger tables, more threads; hash functions other than the collision-controlling one (home slot = key bits) except where stated; running out of disk or memory'
CHECKS = {}
CHECKS['C01'] = dict(assumptions=BASE, outside=INOUT, runs=[
    R('ops3', 'seq', '3 operations (all but the custom update function) on any keys of 2 adjacent home slots, any values, table of 8', dict(ops=3, homes=2, mask=255)),
    R('ops3-update', 'seq', '3 operations of all 9 kinds, values below 2^35 so that sums stay usable', dict(ops=3, homes=2, small=1), procs=2),
    R('ops4', 'seq', '4 operations on any keys of one home slot, any values', dict(ops=4, homes=1, mask=255), procs=4),
    R('ops4-update', 'seq', '4 operations of all kinds on any keys of one home slot, small values', dict(ops=4, homes=1, small=1), procs=2),
    R('stdhash', 'seq', '3 operations with the default hash', dict(ops=3, homes=1, mask=255), flags=['-DSTDHASH']),
    R('ops5', 'seq', '5 operations of all kinds on any keys of one home slot', dict(ops=5, homes=1, small=1), tier='thorough', procs=8, time=3600),
    R('ops4-homes', 'seq', '4 operations on keys of 2 home slots', dict(ops=4, homes=2, mask=255), tier='thorough', procs=8, time=3600)])
CHECKS['C02'] = dict(assumptions=BASE + SC, outside=INOUT + '; operations that race with a growth (the statement leaves them out)', runs=[
    R('race', 'conc', 'size() after 2 concurrent operations of any kind on 2 keys of one home slot, each unbound, bound or removed before; every interleaving', dict(keys=2, size=1), opts=['--preempt=99'], procs=4),
    R('race3', 'conc', 'size() after 3 concurrent operations of any kind on one key, up to 2 preemptions', dict(keys=1, threads=3, size=1), opts=['--preempt=2', '--tabbits=27'], procs=4, time=150),
    R('size3', 'seq', 'size() and isEmpty() after each of 3 operations of all kinds', dict(ops=3, homes=2, size=1, res=0, small=1)),
    R('size4', 'seq', 'size() and isEmpty() after each of 4 operations on keys of one home slot', dict(ops=4, homes=1, size=1, res=0, small=1), procs=4)] + [
    R('grow-pat%d' % p, 'grow', 'size() after growth forced by any operation; 8 bindings, some removed or bound again; key pattern %d' % p, dict(pat=p, mask=511, small=1, ops=1 + p % 2, size=1, res=0, dels=2), covers=['end', 'grown'], procs=2) for p in range(4)] + [
    R('twice-pat%d' % p, 'grow', 'size() after two growths; key pattern %d with fixed keys' % p, dict(pat=p, mask=511, small=1, ops=1, size=1, res=0, dels=2, extra=8, conc=1), covers=['end', 'grown twice'], procs=2) for p in (0, 2)])
CHECKS['C03'] = dict(assumptions=BASE, outside=INOUT, runs=[
    R('pat%d' % p, 'grow', 'table of 8 filled by 8 puts of any keys (pattern %d: %s), 2 of them removed or bound again, then %d operations of all kinds' % (p, ['one home slot', 'distinct slots', 'two clusters', 'spread over the larger table'][p], 1 + p % 2), dict(pat=p, mask=511, small=1, ops=1 + p % 2, dels=2), covers=['end', 'grown'], procs=2) for p in range(4)] + [
    R('twice-pat%d' % p, 'grow', '8 more puts, so that the table grows twice (pattern %d, fixed keys in the filling), then operations on any key' % p, dict(pat=p, mask=511, small=1, ops=1 + p % 2, dels=2, extra=8, conc=1), covers=['end', 'grown', 'grown twice'], procs=2) for p in range(4)] + [
    R('pat%d-ops2' % p, 'grow', 'pattern %d, 2 operations of all kinds' % p, dict(pat=p, mask=511, small=1, ops=2, dels=2), covers=['end', 'grown'], tier='thorough', procs=8, time=600) for p in (0, 2)] + [
    R('twice-pat%d-ops2' % p, 'grow', 'two growths, pattern %d, 2 operations of all kinds' % p, dict(pat=p, mask=511, small=1, ops=2, dels=2, extra=8, conc=1), covers=['end', 'grown', 'grown twice'], tier='thorough', procs=8, time=600) for p in (0, 2)])
CHECKS['C04'] = dict(assumptions=BASE + SC, outside=INOUT, runs=[
    R('2x1', 'conc', '2 threads, one operation of any kind each, on 2 keys of the same home slot, each unbound, bound or removed before; every interleaving', dict(keys=2), opts=['--preempt=99'], procs=4),
    R('2x1-wide', 'conc', 'the same over 3 keys in adjacent home slots', dict(keys=3), opts=['--preempt=99'], procs=4, time=200),
    R('2x2', 'conc', '2 threads, 2 operations each (put, putIfAbsent, get, remove), one key, up to 2 preemptions', dict(keys=1, ops=2, mask=PUT | PUTABSENT | GET | REMOVE), opts=['--preempt=2', '--tabbits=27'], procs=4, time=150),
    R('3x1', 'conc', '3 threads, one operation each, one key, up to 2 preemptions', dict(keys=1, threads=3), opts=['--preempt=2', '--tabbits=27'], procs=4, time=150),
    R('3x1-keys', 'conc', '3 threads, one operation each, 2 keys, up to 2 preemptions', dict(keys=2, threads=3), opts=['--preempt=2', '--tabbits=29'], tier='thorough', procs=8, time=1200),
    R('2x2-all', 'conc', '2 threads, 2 operations each of all kinds, one key, up to 2 preemptions', dict(keys=1, ops=2), opts=['--preempt=2', '--tabbits=29'], tier='thorough', procs=8, time=1800)])
NEST = ['--solo=20000', '--tabbits=28']; GT = ['end', 'grown twice', 'grown three times']
CHECKS['C05'] = dict(assumptions=BASE + SC, outside=INOUT + '; more preemptions than stated per run', runs=[
    R('any-any', 'congrow', 'full table of 8; 2 threads, one operation of any kind each on a bound, a removed or an unknown key; up to 2 preemptions', opts=['--preempt=2', '--tabbits=28'], covers=['end', 'grown', 'two tables allocated'], procs=8, time=150),
    R('put-any', 'congrow', 'a put of a new key that grows the table against any operation; up to 3 preemptions', dict(first=PUT, firstkeys=4), opts=['--preempt=3', '--tabbits=28'], covers=['end', 'grown'], procs=8, time=150),
    R('3x1', 'congrow', '3 threads: a put that grows the table and two operations (put, get, remove) on the bound or the new key; up to 2 preemptions', dict(threads=3, first=PUT, firstkeys=4, mask=PUT | GET | REMOVE, keymask=5), opts=['--preempt=2', '--tabbits=28'], covers=['end', 'grown'], procs=8, time=150),
    R('nested', 'nested', 'an operation of any kind, stalled anywhere in the growth it started, while another thread performs an operation on the same key and drives the table through two further growths; one preemption', dict(aput=1, home=0), opts=['--preempt=1'] + NEST, covers=GT, procs=8, time=150),
    R('nested2', 'nested', 'the same with 2 preemptions for increments and gets against put, put-if-absent, remove and increment', dict(aput=1, home=0, mask=GET | INC, bmask=PUT | PUTABSENT | REMOVE | INC), opts=['--preempt=2'] + NEST, covers=GT, procs=8, time=150),
    R('nested-late', 'nested', 'the operation itself meets the second growth', dict(grown=1, extra=14, aput=1, home=0), opts=['--preempt=1'] + NEST, covers=GT, procs=8, time=150),
    R('3x1-all', 'congrow', '3 threads, put, put-if-absent, get, contains, remove', dict(threads=3, first=PUT, firstkeys=4, mask=27 | 8), opts=['--preempt=2', '--tabbits=29'], covers=['end', 'grown'], tier='thorough', procs=8, time=1200),
    R('2x2', 'congrow', '2 threads, 2 operations each', dict(ops=2, first=PUT, firstkeys=4, mask=27), opts=['--preempt=2', '--tabbits=29'], covers=['end', 'grown'], tier='thorough', procs=8, time=1200),
    R('any-any-p3', 'congrow', 'any operation against any operation, up to 3 preemptions', opts=['--preempt=3', '--tabbits=29'], covers=['end', 'grown'], tier='thorough', procs=8, time=1200),
    R('nested-bops2', 'nested', 'a further operation after the second growth', dict(aput=1, home=0, bops=2), opts=['--preempt=1'] + NEST, covers=GT, tier='thorough', procs=8, time=1200)])
CHECKS['C06'] = dict(assumptions=BASE + SC, outside=INOUT, runs=[
    R('2x2', 'conc', '2 threads, 2 increments each on one key (unbound, bound or removed before), every interleaving', dict(keys=1, ops=2, mask=INC), opts=['--preempt=99'], procs=2),
    R('3x1', 'conc', '3 threads, one increment each, every interleaving up to 3 preemptions', dict(keys=1, threads=3, mask=INC), opts=['--preempt=3'], procs=2),
    R('grow', 'congrow', 'increments of any of the keys by 2 threads while either makes the full table grow; up to 2 preemptions', dict(first=INC, mask=INC, keymask=7, firstkeys=7), opts=['--preempt=2'], covers=['end', 'grown'], procs=4)])
CHECKS['C11'] = dict(assumptions=BASE + SC, outside=INOUT, runs=[
    R('2x1', 'conc', 'from every state of 2 concurrent operations of any kind (2 keys), each thread alone finishes', dict(keys=2), opts=['--preempt=99', '--progress=1'], procs=4),
    R('grow', 'congrow', 'from every state (up to 2 preemptions) of a put that grows the table against any operation, each thread alone finishes', dict(first=PUT, firstkeys=4), opts=['--preempt=2', '--progress=1', '--tabbits=27'], covers=['end', 'grown'], procs=4, time=200),
    R('any-any', 'congrow', 'the same for any two operations that meet a growth', opts=['--preempt=2', '--progress=1', '--tabbits=28'], covers=['end', 'grown'], procs=8, time=150),
    R('nested', 'nested', 'the same while the table is driven through two further growths (put, get, remove, increment)', dict(aput=1, home=0, mask=GET | REMOVE, bmask=PUT | PUTABSENT | REMOVE | INC), opts=['--preempt=1', '--progress=1'] + NEST, covers=GT, procs=8, time=150)])
CHECKS['C12'] = dict(assumptions=BASE, outside='none: all words, all marks', runs=[R('words', 'mark', 'every 64-bit word, every mark', procs=4)])
CHECKS['C13'] = dict(assumptions=BASE + SC, outside='more threads or calls; other word types', runs=[
    R('2x1', 'pcas', '2 threads, one call each, any word (marked or not), any expected and new values, every interleaving', dict(threads=2, ops=1), opts=['--preempt=99']),
    R('3x1', 'pcas', '3 threads, one call each, every interleaving', dict(threads=3, ops=1), opts=['--preempt=99'], procs=4),
    R('2x2', 'pcas', '2 threads, 2 calls each, every interleaving', dict(threads=2, ops=2), opts=['--preempt=99'], procs=8)])
CHECKS['C14'] = dict(assumptions=BASE + ['a cache line of 64 bytes becomes durable when flushed and fenced'], outside='ranges over more than 6 lines', runs=[
    R('ranges', 'persist', 'every offset in two lines, every length within 6 lines, both ways of persisting a range', opts=['--crashes=0'], procs=4)])
ELEMS = 'elements below 2^60, so that shifted values stay apart from the reserved words'
CHECKS['C15'] = dict(assumptions=BASE + [ELEMS, 'libstdc++\'s out-of-line red-black tree functions are replaced by an unbalanced tree (harness/rbtree.h)'], outside=INOUT + '; get of an absent key, the value returned by increment and whether a second insert of a key replaces its value (the adapters differ there and the interface does not say)', runs=[
    R('ucf', 'adapter', '3 calls of all kinds on the lock-free adapter', dict(ops=3), flags=['-DUCF']),
    R('stl', 'adapter', '3 calls of all kinds on the standard-map adapter', dict(ops=3), flags=['-DSTL'], procs=4),
    R('ucf4', 'adapter', '4 calls of all kinds on the lock-free adapter', dict(ops=4), flags=['-DUCF'], procs=4),
    R('ucf-grow', 'adapter', '8 inserts of fixed elements that fill the table of 8, then 3 calls with any elements', dict(ops=3, fill=8), flags=['-DUCF'], procs=4),
    R('ucf5', 'adapter', '5 calls on the lock-free adapter', dict(ops=5), flags=['-DUCF'], tier='thorough', procs=8, time=600),
    R('stl4', 'adapter', '4 calls on the standard-map adapter', dict(ops=4), flags=['-DSTL'], tier='thorough', procs=8, time=600)])
CHECKS['C16'] = dict(assumptions=BASE + SC + [ELEMS, 'libstdc++\'s out-of-line red-black tree functions are replaced by an unbalanced tree (harness/rbtree.h)'], outside='more threads or calls', runs=[
    R('2x1', 'adaptconc', '2 threads, one call of any kind each on 2 elements (absent, inserted, incremented before), every interleaving, with race detection', dict(keys=2, mask=63), opts=['--preempt=99', '--race=1'], flags=['-DSTL'], procs=4),
    R('3x1', 'adaptconc', '3 threads, one call of any kind each on one element, every interleaving, with race detection', dict(keys=1, threads=3, mask=63), opts=['--preempt=99', '--race=1'], flags=['-DSTL'], procs=4),
    R('2x2', 'adaptconc', '2 threads, 2 calls each on one element, every interleaving, with race detection', dict(keys=1, ops=2, mask=63), opts=['--preempt=99', '--race=1'], flags=['-DSTL'], procs=8)])
CHECKS['C04']['runs'].insert(0, R('adapter', 'adaptconc', '2 threads, one call of any kind each through the container adapter, on 2 elements; every interleaving', dict(keys=2), opts=['--preempt=99'], flags=['-DUCF'], procs=2))
CHECKS['C06']['runs'].insert(0, R('adapter', 'adaptconc', '2 threads, 2 increments each through the container adapter; every interleaving', dict(keys=1, ops=2, mask=16), opts=['--preempt=99'], flags=['-DUCF'], procs=2))
CR = ['a crash loses any suffix of the stores to a cache line that was not flushed and fenced since, line by line independently; a flush takes effect only with the following fence', 'creating, resizing, renaming and removing a file is atomic and durable at once',
    'puts are not required to be durable when they return: the code persists an update before anyone sees or replaces it (buffered durability)']
CO = INOUT + '; two processes on one directory; a directory that holds files of an earlier run which was not recovered; more crashes than stated'
G = ['--solo=20000', '--tabbits=28']; CV = ['end', 'recovered', 'crash inside an operation']; CG = CV + ['crash with two tables']; GR = dict(keys=3, fill=8, first=PUT, firstkeys=4)
CHECKS['C07'] = dict(assumptions=BASE + SC + CR, outside=CO, runs=[
    R('aba', 'pcascrash', 'a read that is stalled while the word is replaced and written back, then read', dict(ops1=3, aba=1), opts=['--preempt=99'], covers=['recovered'], procs=1),
    R('word-2', 'pcascrash', '2 threads, one and two compare-and-swaps or reads of one word, crash anywhere, every interleaving; no value is written twice', dict(ops1=2), opts=['--preempt=99'], covers=['end', 'recovered'], procs=1),
    R('word-3', 'pcascrash', '3 threads, one compare-and-swap or read of one word each, crash anywhere, every interleaving', dict(threads=3), opts=['--preempt=99'], covers=['end', 'recovered'], procs=3),
    R('map-2x1', 'crash', '2 threads, one operation of any kind each on 2 keys, each unbound, bound or removed before; crash anywhere; up to 2 preemptions', dict(threads=2, script=0), opts=['--preempt=2'] + G, covers=CV, procs=4),
    R('map-2x2', 'crash', '2 threads, 2 operations each (put, putIfAbsent, get, remove) on one key; crash anywhere; one preemption; no value is written twice', dict(threads=2, ops=2, keys=1, first=23, mask=23, script=0, distinct=1), opts=['--preempt=1'] + G, covers=CV, procs=4),
    R('grow', 'crash', 'a put that grows the table against put, putIfAbsent or get of the bound or the new key; crash anywhere; one preemption', dict(threads=2, mask=7, keymask=5, script=0, **GR), opts=['--preempt=1'] + G, covers=CG, procs=8),
    R('map-2x2-all', 'crash', '2 threads, 2 operations each, up to 2 preemptions', dict(threads=2, ops=2, keys=1, first=119, mask=119, script=0, distinct=1), opts=['--preempt=2'] + G, covers=CV, procs=8, time=100, tier='thorough'),
    R('grow-all', 'crash', 'any operation against any operation on a full table; crash anywhere; one preemption', dict(threads=2, keys=3, fill=8, script=0), opts=['--preempt=1'] + G, covers=CG, procs=8, time=100, tier='thorough')])
CHECKS['C08'] = dict(assumptions=BASE + SC + CR, outside=CO, runs=[
    R('ops1', 'crash', 'one operation of any kind on 2 keys of one home slot, whose last stores may not be durable yet; crash anywhere; every kind of operation after recovery', dict(dirty=1), opts=G, covers=CV, procs=2),
    R('ops2', 'crash', '2 operations of any kind on 2 keys of one home slot, crash anywhere; every kind of operation after recovery', dict(ops=2), opts=G, covers=CV, procs=8),
    R('2x1', 'crash', '2 threads, one operation of any kind each on one key, crash anywhere, every interleaving; every kind of operation after recovery', dict(threads=2, keys=1), opts=['--preempt=99'] + G, covers=CV, procs=4),
    R('twice', 'crash', 'one operation on one key, crash, recovery that is itself cut short by a crash anywhere (or one more operation, then a crash)', dict(keys=1, again=511, crashes=2), opts=['--crashes=2'] + G, covers=CV + ['second crash after operations'], procs=4),
    R('ops3', 'crash', '3 operations of any kind on one key, crash anywhere', dict(ops=3, keys=1), opts=G, covers=CV, procs=8, time=100, tier='thorough')])
CHECKS['C09'] = dict(assumptions=BASE + SC + CR, outside=CO, runs=[
    R('grow', 'crash', 'any operation on any of the keys of a full table of 8 (6 bound, 2 removed or more); crash anywhere; every kind of operation after recovery', dict(keys=3, fill=8, live=6), opts=G, covers=CG, procs=8),
    R('grow-dirty', 'crash', 'a put that grows a table whose last stores may not be durable yet; crash anywhere', dict(dirty=1, live=3, **GR), opts=G, covers=CG, procs=2),
    R('ops2', 'crash', 'a put that grows the table, then any operation; crash anywhere', dict(ops=2, **GR), opts=G, covers=CG, procs=4),
    R('2x1', 'crash', 'a put that grows the table against put, get or remove of the bound or the new key by another thread; crash anywhere; one preemption', dict(threads=2, mask=PUT | GET | REMOVE, keymask=5, script=0, **GR), opts=['--preempt=1'] + G, covers=CG, procs=8),
    R('twice', 'crash', 'a put that grows the table, a crash anywhere, a second crash anywhere in the recovery or in the operations after it', dict(crashes=3, **GR), opts=['--crashes=2'] + G, covers=CG, procs=8),
    R('again', 'crash', 'a put that grows the table, crash, recovery, one more put or remove, crash', dict(again=PUT | REMOVE, script=0, **GR), opts=['--crashes=2'] + G, covers=CG + ['second crash after operations'], procs=8, tier='thorough', time=100),
    R('2x1-all', 'crash', 'any operation against any operation on a full table; one preemption', dict(threads=2, keys=3, fill=8), opts=['--preempt=1'] + G, covers=CG, procs=8, time=100, tier='thorough')])
CHECKS['C10'] = dict(assumptions=BASE + SC + CR, outside=CO, runs=[
    R('race', 'crash', '2 threads that both want to grow the table; crash anywhere; up to 2 preemptions; afterwards and after recovery only live tables have files', dict(threads=2, mask=PUT, keymask=4, script=0, tidy=1, **GR), opts=['--preempt=2'] + G, covers=CG, procs=8),
    R('restart', 'crash', 'growth, crash anywhere, recovery, 8 further inserts that grow the recovered table', dict(script=2, tidy=1, **GR), opts=G, covers=CG + ['grown after recovery'], procs=4),
    R('restart-9', 'crash', 'the same with table files numbered 9 and 10', dict(script=2, tidy=1, base=9, **GR), opts=G, covers=CG + ['grown after recovery'], procs=2),
    R('order', 'crash', 'table files numbered 9 and 10, listed in the opposite order', dict(tidy=1, base=9, reverse=1, live=6, **GR), opts=G, covers=CG, procs=2),
    R('twice', 'crash', 'growth, crash anywhere, recovery that is cut short by a crash anywhere, recovery', dict(crashes=3, tidy=1, script=0, **GR), opts=['--crashes=2'] + G, covers=CG, procs=4)])
HS = ['the digests are compared as functions of the input bytes: products are normalised or treated as an uninterpreted function where that already settles the query, and decided as bit-vector products otherwise']
CHECKS['C17'] = dict(assumptions=BASE + HS, outside='inputs longer than 2112 bytes; more pieces; custom secrets', runs=[
    R('%s-%s' % (n, c), 'hash', '%s-bit %s: %s' % (n[1:] if len(n) > 2 else n, 'XXH3' if len(n) > 2 else 'XXH', w), d, flags=['-DSTREAM=' + n], covers=['end'])
    for n in ('32', '64', '364', '3128') for c, w, d in (
        ('any', 'every split into 2 pieces of up to 72 bytes each, any content and seed, fresh and reset hashers', dict(pieces=2, max=72)),
        ('three', 'every split into 3 pieces of up to 20 bytes each', dict(pieces=3, max=20)),
        ('long', 'two pieces of 0 to 1060 bytes (15 lengths around the block sizes), any content and seed', dict(set=15)),
        ('long3', 'three such pieces', dict(set=15, pieces=3)),
        ('noseed', 'the same without a seed', dict(set=15, zeroseed=1)),
        ('copy', 'the second piece is fed to a copy of the hasher, while the original goes on with other input', dict(set=15, copy=1)))] + [
    R('%s-deep' % n, 'hash', 'every split into 2 pieces of up to 300 bytes each', dict(pieces=2, max=300), flags=['-DSTREAM=' + n], tier='thorough', procs=8, time=600) for n in ('32', '64', '364', '3128')])
CHECKS['C18'] = dict(assumptions=BASE + HS, outside='inputs longer than stated; big-endian machines; the vector units of machines other than x86-64 (scalar, SSE2 and, in the thorough tier, AVX2 code is encoded)', runs=[
    R('spec32', 'hash', '32-bit hash of up to 100 bytes at every alignment, any content and seed, as pointer, string, vector, array, iterators and list', dict(max=100, align=1, forms=1), flags=['-DSPEC=32'], procs=4),
    R('spec64', 'hash', 'the same for the 64-bit hash, up to 140 bytes', dict(max=140, align=1, forms=1), flags=['-DSPEC=64'], procs=4),
    R('xxh3', 'hash', 'XXH3, 23 lengths up to 1030 bytes at every alignment, any content and seed; canonical form of any 128-bit value', flags=['-DXXH3ALIGN'], procs=4)] + [
    R('spec3-%s-%s' % (v, n), 'hash', 'XXH3 (%s code), 64 and 128 bits, against the algorithm of xxHash 0.7: %s; any content' % (v, w), d, flags=['-DSPEC3', '-DXXH_VECTOR=%d' % k] + (['-mavx2'] if k == 2 else []), opts=['--strong=1'], procs=4, tier='thorough' if k == 2 else 'quick')
    for k, v in enumerate(('scalar', 'sse2', 'avx2')) for n, w, d in (
        ('short', 'every length up to 240, no seed and any seed', dict(lengths=241)),
        ('long', 'every 11th length from 300 to 2048, no seed and any seed', dict(**{'from': 300, 'step': 11, 'lengths': 159 if k < 2 else 40})),
        ('align', '8 lengths up to 560 at every alignment', dict(lengths=8, step=80, align=1)),
        ('own', '30 lengths up to 1300 with any secret of 136 to 192 bytes given by the caller', dict(**{'from': 100, 'step': 40, 'lengths': 30, 'own': 1})))])
CHECKS['C26'] = dict(assumptions=BASE, outside='none: all pairs of 128-bit values', runs=[R('order', 'hash', 'every pair of 128-bit values, all six comparisons', flags=['-DORDER'])])
NOT_APPLICABLE = {c: 'not built yet' for c in ['C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25']}
