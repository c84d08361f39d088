"""Which harness decides which property, under which builds."""
import os

ASAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=3000:hard_rss_limit_mb=3500:strict_string_checks=1:detect_stack_use_after_return=1:malloc_fill_byte=190:max_malloc_fill_size=268435456',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99',
}
PERTURB = {'MALLOC_PERTURB_': '165'}   # replaced per shard

BUILDS = {
    'plain': dict(what='g++ -O2 -DNDEBUG, malloc perturbed, automatic variables pattern-initialised',
                  cxx=['g++'], flags=['-O2', '-DNDEBUG', '-ftrivial-auto-var-init=pattern'], env=PERTURB, as_gb=6),
    'vast': dict(what='g++ -O2 -DNDEBUG, address space for arrays of more than 2^32 cells', cxx=['g++'], flags=['-O2', '-DNDEBUG', '-ftrivial-auto-var-init=pattern'], as_gb=64),
    'asan': dict(what='clang++ -O1 AddressSanitizer + UndefinedBehaviorSanitizer (no recovery), the library\'s own assertions and libstdc++ assertions on',
                 cxx=['clang++'], flags=['-O1', '-gline-tables-only', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=object-size,vptr', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'],
                 env=ASAN_ENV, sanitized=True, cpu=60),
}

PATTERN = ['-DNDEBUG', '-ftrivial-auto-var-init=pattern']
# name: (flags, needed processor features)
ISA = {
    'x_O0': (['-O0'], []),
    'x_O3': (['-O3'], []),
    'x_popcnt': (['-O1', '-mpopcnt'], ['popcnt']),
    'x_lzcnt': (['-O2', '-mlzcnt', '-mpopcnt'], ['abm', 'popcnt']),
    'x_bmi': (['-O2', '-mbmi'], ['bmi1']),
    'x_bmi2': (['-O2', '-mbmi', '-mbmi2', '-mpopcnt'], ['bmi1', 'bmi2', 'popcnt']),
    'x_bmi2only': (['-O1', '-mbmi2'], ['bmi2']),
    'x_sse42': (['-O2', '-msse4.2'], ['sse4_2']),
    'x_avx2': (['-O2', '-mavx2'], ['avx2']),
    'x_native_O3': (['-O3', '-march=native'], []),
    'x_native': (['-O2', '-march=native'], []),
}
for k, (f, c) in ISA.items():
    BUILDS[k] = dict(what='g++ ' + ' '.join(f) + ' -DNDEBUG', cxx=['g++'], flags=f + PATTERN, env=PERTURB, as_gb=6, cpu_flags=c)
BUILDS['memcheck'] = dict(what='g++ -O1 under valgrind memcheck', cxx=['g++'], flags=['-O1', '-g1', '-DMEMCHECK'], cpu=600,
                         wrap=['valgrind', '-q', '--error-exitcode=98', '--exit-on-first-error=yes', '--leak-check=no', '--max-stackframe=8000000'])
BUILDS['tsan'] = dict(what='clang++ -O1 ThreadSanitizer', cxx=['clang++'], flags=['-O1', '-gline-tables-only', '-fsanitize=thread'], sanitized=True, cpu=120,
                      env={'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:report_signal_unsafe=0'})
BUILDS['x_clang'] = dict(what='clang++ -O2 -march=native -DNDEBUG', cxx=['clang++'], flags=['-O2', '-march=native'] + PATTERN, env=PERTURB, as_gb=6)
BUILDS['asan_avx2'] = dict(BUILDS['asan'], what=BUILDS['asan']['what'] + ', -mavx2', flags=BUILDS['asan']['flags'] + ['-mavx2'], cpu_flags=['avx2'])


def U(src, build, scale=1.0, **kw):
    d = dict(src=src, build=build, scale=scale)
    d.update(kw)
    return d


def parts(n, src, plain=1.0, asan=0.25, pflags=(), **kw):
    return [u for k in range(1, n + 1) for u in (U(src, 'plain', plain, part=k, flags=list(pflags), **kw), U(src, 'asan', asan, part=k, **kw))]


def std(src, plain=1.0, asan=0.25, **kw):
    return [U(src, 'plain', plain, **kw), U(src, 'asan', asan, **kw)]


CHECKS = {}


def check(prop, units, rule, **kw):
    CHECKS[prop] = dict(units=units, rule=rule, **kw)


check('C01', std('bitvector.cpp', 8, 1.5),
      'seeded random histories of constructor / write / growth / shrink / fill / iterator operations on the real bit vector, each mirrored on std::vector<bool> and compared after every step; '
      'non-trivial: a history of at least 8 operations on a vector that reached more than one word',
      must_observe=['bv.aligned_data', 'bv.reserves', 'bv.ops', 'bv.full_compares', 'bv.iter_ops', 'bv.fills', 'bv.resizes'])

check('C02', [U('sbv.cpp', 'plain', 4, part=1), U('sbv.cpp', 'asan', 0.5, part=1)],
      'bit sequences of 12 shapes (constant, sparse, dense, runs, mixed blocks, ones at block ends) and boundary lengths, built by move, copy, literal, stream or from a shrunk vector; '
      'every rank of every vector compared with a running count; non-trivial: longer than one word',
      must_observe=['sbv.ranks', 'sbv.rank_vectors'])
check('C03', [U('sbv.cpp', 'plain', 6, part=2), U('sbv.cpp', 'asan', 0.5, part=2)],
      'bit sequences as for rank; every select of every vector compared with the list of set positions; non-trivial: more than one set bit',
      must_observe=['sbv.selects', 'sbv.select_vectors', 'sbv.select_vectors_over_512_ones'])
check('C04', std('fitvector.cpp', 12, 2),
      'seeded histories over all widths 0..64 mirrored on std::vector<uint64_t>, full comparison after every step, plus list construction and single writes between extreme neighbours; '
      'non-trivial: more than one element or more than five operations',
      must_observe=['fv.reserves', 'fv.ops', 'fv.full_compares', 'fv.iter_ops', 'fv.lists', 'fv.neighbour_writes'])
check('C05', std('dac.cpp', 8, 1),
      'integer lists of 9 bit-length shapes x 5 construction routes (span given, automatic layers 1..8, default), built for vectors of 64-bit and 32-bit values and compared element by element; '
      'non-trivial: more than one element',
      must_observe=['dac.elements', 'dac.vectors', 'dac.explicit', 'dac.auto_layers_8'])
check('C06', std('multibit.cpp', 8, 1),
      'symbol lists of 7 shapes over 1..3 bits, written in any order, rebuilt after further writes and growth, up to more than 2^32 symbols; every access and rank compared with a count; non-trivial: longer than one word',
      must_observe=['mbv.ranks', 'mbv.rebuilds', 'mbv.vectors'])
check('C07', std('multiple.cpp', 8, 1),
      'seeded histories of growth and typed writes on vectors of mixed element sizes mirrored field by field; single fields around 2^31 and 2^32 bytes; non-trivial: more than one record',
      must_observe=['mv.reserves', 'mv.ops', 'mv.full_compares', 'mv.restricted'])
check('C08', std('wavelet.cpp', 8, 1),
      'texts over alphabets of 1..256 symbols with gaps and runs; every access and every rank of several symbols compared with a scan; non-trivial: more than one symbol and element',
      must_observe=['wt.accesses', 'wt.symbol_ranks'])
check('C09', std('heap.cpp', 8, 1),
      'seeded push/pop/top histories over several element types and comparators, mirrored on a multiset; non-trivial: at least three pushes',
      must_observe=['heap.pushes', 'heap.pops', 'heap.rebuilds', 'heap.drains', 'heap.deep_checks'])
check('C10', std('sort.cpp', 8, 1),
      'ranges of many orders and duplicate structures in exact-size storage, several element types and comparators; sorted permutation compared with the reference and the surrounding elements watched; non-trivial: more than two elements',
      must_observe=['sort.sorts'])
check('C11', parts(4, 'initarray.cpp', 4, 0.5, pflags=['-fno-lifetime-dse']) + [U('initarray.cpp', 'vast', 4, part=5, flags=['-fno-lifetime-dse'])],
      'seeded set/read/init/fill/reference/iterator histories on in-place arrays of 30+ size and element-type combinations constructed over hostile memory (noise, constants, planted chain pointers) with values that look like chain pointers, '
      'on the folklore array, and on an array of 5 billion cells in untouched memory; mirrored on a filled array and compared in full; non-trivial: more than three writes on more than two cells, or re-initialised',
      must_observe=['ia.ops', 'ia.inits', 'ia.sets', 'ia.iter_walks', 'iaf.ops', 'iaf.inits'])
check('C12', std('hash.cpp', 8, 1),
      'every width 0..64 x 7 hash functions (xorshift and multiply rounds 0..2, the composed one): edge keys, seeded random keys, and all keys of widths 0..17; hash and inverse composed both ways; non-trivial: all',
      must_observe=['hash.pairs', 'hash.exhausted_functions'])
check('C13', parts(2, 'cht.cpp', 8, 1.2),
      'seeded set/get/erase/reserve/copy histories mirrored on a map, with 12 combinations of value width, load factor and bijection (some chosen so that keys share a bucket or wrap around the table end), key widths 0..60; '
      'touched and random keys looked up after every step, all keys regularly; non-trivial: table resized or more than three erasures',
      must_observe=['cht.sets', 'cht.erases', 'cht.lookups', 'cht.resizes', 'cht.reinsertions', 'cht.reserves', 'cht.full_compares'])
check('C14', std('cdrw.cpp', 20, 3),
      'seeded histories of writes of changing bit lengths and of growth and shrinkage mirrored on a plain vector and compared in full; non-trivial: more than one element',
      must_observe=['cdrw.ops', 'cdrw.writes', 'cdrw.full_compares'])
check('C15', std('oracle.cpp', 5, 0.8),
      'texts of 12 shapes over 1..256 byte values and all short texts over three bytes; every state x every byte of the automaton compared with the published on-line construction, factors / walks / mutated queries compared for acceptance; non-trivial: at least one external transition',
      must_observe=['fo.steps', 'fo.factors', 'fo.queries', 'fo.accepted_non_factors', 'fo.external_transitions'])
check('C16', std('matching.cpp', 8, 1.5),
      'texts assembled from pieces of the pattern, periodic texts and patterns, arbitrary bytes, all short texts and patterns over two bytes, texts of more than 2^32 bytes; all seven matchers (one-shot and reused objects) compared with a scan over exact-size buffers; non-trivial: pattern of two or more bytes in a longer text',
      must_observe=['pm.searches', 'pm.occurrences', 'pm.absent', 'pm.pattern_longer', 'pm.texts_with_overlaps', 'pm.object_searches'])
check('C17', std('suffixarray.cpp', 6, 1),
      'strings of 13 shapes over 1..256 byte values up to 80000 bytes, and all strings over 2..4 bytes up to length 6..11; order verified in linear time from the inverse permutation, LCP by Kasai; non-trivial: longer than two bytes',
      must_observe=['sa.texts', 'sa.entries', 'sa.texts_with_repeats', 'sa.exhausted_strings'])
check('C18', std('trie.cpp', 8, 1.5),
      'seeded insertion histories with keys derived from one another, items and index types of several kinds, mirrored on a map; depth-first and breadth-first walks rebuilt from the edges; non-trivial: more than one key',
      must_observe=['trie.edge_walks', 'trie.inserts', 'trie.lookups', 'trie.walks', 'trie.visits'])
check('C19', [U('samc.cpp', 'plain', 12, part=1), U('samc.cpp', 'asan', 2, part=1)],
      'sorted key lists (empty, duplicates, prefixes, equal lengths, edits of one another, 1..254 byte values) x placement strategy x code type; each key, all one-byte strings, prefixes, extensions, one-byte edits, tail swaps, NUL and 0xff queries compared with the set, and all 128 small key sets; non-trivial: more than one key',
      must_observe=['samc.queries', 'samc.absent_queries', 'samc.sets', 'samc.sets_with_duplicates', 'samc.sets_with_empty_key'])
check('C20', [U('samc.cpp', 'plain', 12, part=2), U('samc.cpp', 'asan', 2, part=2)],
      'distinct sorted key lists as for the key set; ids collected from lookups must be exactly 0..n-1 and map back, be reproduced by a second construction and by a written and restored dictionary; non-trivial: more than one key',
      must_observe=['samc.queries', 'samc.absent_queries', 'dict.sets', 'dict.ids'])
check('C21', parts(3, 'serial.cpp', 10, 1.5),
      'objects of all 14 serialisable classes, reached by construction, growth, shrinkage and change, written, read into a fresh and into a used object, all answers and re-written bytes compared, the restored object changed further, chains of different structures in one stream; non-trivial: more than 100 bytes written',
      must_observe=['io.roundtrips', 'io.answers', 'io.chains', 'io.changed_after_reading', 'io.rebuilt'])
check('C22', [U('bitutil.cpp', b, s) for b, s in (('plain', 2), ('asan', .3), ('x_popcnt', 1), ('x_lzcnt', 1), ('x_bmi2', 1), ('x_native', 1), ('x_O3', 1))],
      'all 16-bit words in every lane, all words with one or two bits set or cleared or one run of ones, every symbol over every background in every group, every mask, dense 32-bit ranges and seeded words of 12 shapes, each in seven builds; non-trivial: all',
      must_observe=['bu.words', 'bu.selects', 'bu.extracts', 'bu.lane_words', 'bu.symbol_words', 'bu.masks', 'bu.dense32_words'])
check('C23', [U('bitutil256.cpp', b, s) for b, s in (('plain', 4), ('asan', 1), ('x_avx2', 4), ('x_native', 4), ('asan_avx2', 1))],
      'seeded 256-bit values of 8 shapes and every single bit set or cleared, all 256 permutation masks, in aligned exact-size storage between watched words, in portable and vector builds; non-trivial: all',
      must_observe=['b256.values', 'b256.maps', 'b256.maps_in_place'])
check('C29', std('calc.cpp', 8, 1),
      'values around every power of two and seeded values x every unit 1..64; unit lists covering 64 bits; lists of 9 bit-length shapes of 64-, 32- and 8-bit values and large geometric lists with 1..8 and 64 layers allowed; non-trivial: more than one value',
      must_observe=['ca.values', 'ca.as_lists', 'ca.lists', 'ca.splits', 'ca.cheapest_splits', 'ca.splits_of_several_layers', 'ca.splits_at_the_maximum'])
X_ALL = ['plain', 'x_O0', 'x_O3', 'x_popcnt', 'x_lzcnt', 'x_bmi', 'x_bmi2', 'x_bmi2only', 'x_sse42', 'x_avx2', 'x_native', 'x_native_O3', 'x_clang']
X_QUICK = {1: ['plain', 'x_O0', 'x_popcnt', 'x_bmi2only', 'x_native'], 2: ['plain', 'x_O0', 'x_popcnt', 'x_native'], 3: ['plain', 'x_O0', 'x_native'], 4: ['plain', 'x_native']}
check('C24', [U('cross.cpp', b, 4, part=k, **({} if b in X_QUICK[k] else {'tier': 'thorough'})) for k in (1, 2, 3, 4) for b in X_ALL],
      'the same seeded objects of every structure, changed and written, and the same bit operations, in each build; every recorded digest of answers and of serialised bytes compared between the baseline build and each other one; non-trivial: all',
      cross='plain', must_observe=['cross.results_compared', 'x.objects', 'x.answers', 'x.bytes', 'x.words', 'x.hashes'])

check('C25', [U(*u[:1], 'asan', u[1], **({'part': u[2]} if len(u) > 2 else {})) for u in (
          ('bitvector.cpp', 1), ('sbv.cpp', .4, 1), ('sbv.cpp', .4, 2), ('fitvector.cpp', 1.5), ('dac.cpp', .8), ('multibit.cpp', .8), ('multiple.cpp', .8), ('wavelet.cpp', .8),
          ('heap.cpp', .8), ('sort.cpp', .8), ('initarray.cpp', .4, 1), ('initarray.cpp', .4, 2), ('initarray.cpp', .4, 3), ('initarray.cpp', .4, 4), ('cht.cpp', .8, 1), ('cht.cpp', .8, 2), ('cdrw.cpp', 2),
          ('oracle.cpp', .6), ('matching.cpp', 1), ('suffixarray.cpp', .8), ('trie.cpp', 1), ('samc.cpp', 1.5, 1), ('samc.cpp', 1.5, 2),
          ('bitutil.cpp', .2), ('bitutil256.cpp', .6), ('calc.cpp', .8, 1))] +
      [U('uses.cpp', 'plain', 10, part=k) for k in (1, 2, 3, 4)] + [U('uses.cpp', 'memcheck', .1, part=k, shards=4) for k in (1, 2, 3, 4)],
      'every workload of the behavioural checks, with their histories, boundary sizes, exact-size buffers and hostile memory, executed under AddressSanitizer, UndefinedBehaviorSanitizer, the library\'s and libstdc++\'s assertions; '
      'whole lives of every structure (build, query, change, copy, assign, move, swap, write, read, destroy) with every allocation counted, and again under memcheck with every answer and written byte decided upon; non-trivial: as in those checks',
      only=('crash:', 'ub:', 'assert:', 'exception:', 'memcheck:', 'leak'),
      must_observe=['use.balanced_lives', 'use.memchecked_lives', 'use.allocations', 'bv.ops', 'sbv.ranks', 'sbv.selects', 'fv.ops', 'dac.elements', 'mbv.ranks', 'mv.ops', 'wt.accesses', 'heap.pops', 'sort.sorts',
                    'ia.ops', 'iaf.ops', 'cht.lookups', 'cdrw.ops', 'fo.steps', 'pm.searches', 'sa.texts', 'trie.inserts', 'samc.queries', 'dict.ids', 'bu.words', 'b256.values', 'ca.lists'])

check('C26', [U('threads.cpp', b, sc, part=k, flags=['-pthread'], shards=4) for k in (1, 2, 3, 4) for b, sc in (('plain', 6), ('tsan', 2))],
      'two to six threads query, copy and write one object of each structure at once, or build, change and query their own objects side by side, with seeded pauses; ThreadSanitizer watches every access and each answer is compared with that of a thread alone; '
      'non-trivial: all, distinct by structure, object and the order in which the threads passed their checkpoints',
      must_observe=['th.threads', 'th.shared_objects', 'th.answers', 'th.separate_lives'])

STEPS_WRAP = '-Wl,' + ','.join('--wrap=' + f for f in ('memset', 'memcpy', 'memmove', 'memcmp', 'bcmp', 'memchr', 'strlen'))
BUILDS['steps'] = dict(what='clang++ -O1 -DNDEBUG with every basic-block edge counted (-fsanitize-coverage=trace-pc-guard), memory functions wrapped and counted by words',
                       cxx=['clang++'], flags=['-O1', '-DNDEBUG', '-fsanitize-coverage=trace-pc-guard'], ld=[STEPS_WRAP], cpu=60, as_gb=6)
HEADERS = ['BijectiveHash', 'BitReference', 'BitVector', 'BitsReference', 'CDRWArray', 'CHT', 'DacVector', 'FitVector', 'Heap', 'InitializableArray', 'MultiBitVector', 'MultipleVector',
           'SuccinctBitVector', 'WaveletTree', 'basic', 'bit_util', 'bit_util256', 'calc', 'log', 'sort',
           'string_util/FactorOracle', 'string_util/PatternMatching', 'string_util/Samc', 'string_util/SuffixArray', 'string_util/graph_util']
UMBRELLA = ['FitVector', 'BitVector', 'MultiBitVector', 'WaveletTree', 'DacVector', 'Heap', 'sort', 'string_util/SuffixArray', 'string_util/FactorOracle', 'string_util/PatternMatching',
            'string_util/graph_util', 'string_util/Samc', 'InitializableArray', 'bit_util', 'bit_util256']
PLAIN_UNITS = [['g++', '-O0'], ['g++', '-O1', '-DNDEBUG'], ['g++', '-O2'], ['clang++', '-O1', '-DNDEBUG'], ['clang++', '-O0'], ['g++', '-O1', '-D_GLIBCXX_ASSERTIONS']]
ASAN_UNITS = [['clang++', '-O1', '-gline-tables-only', '-fsanitize=address,undefined', '-fno-sanitize=object-size,vptr', '-fno-sanitize-recover=all'] + x for x in ([], ['-DNDEBUG'])]
check('C27', [U('units.cpp', 'plain', 1, headers=HEADERS, umbrella=[x.split('/')[-1] for x in UMBRELLA], unit_flags=PLAIN_UNITS, singles=True, orders=4),
              U('units.cpp', 'asan', .3, headers=HEADERS, umbrella=[x.split('/')[-1] for x in UMBRELLA], unit_flags=ASAN_UNITS, singles=False, orders=2)],
      'programs of some forty translation units: each header alone, all headers in seeded orders, random selections, the umbrella header; compiled with different optimisation levels, assertions on and off and (plain build) by two compilers; linked into one executable, '
      'and loaded as shared objects that keep their own copies of the code; objects built in one unit are asked, changed, copied, assigned, written, read and destroyed in others and every answer compared; a unit that cannot be compiled or linked with the others is a violation; '
      'non-trivial: a kind offered by at least two units; distinct by kind, object and units',
      must_observe=['tu.linked_cases', 'tu.loaded_cases', 'tu.objects_exchanged', 'tu.changed_across_units', 'tu.read_across_units'])
check('C28', std('space.cpp', 2, .5),
      'objects of every structure that reports or serialises its size, over sizes 0..400000, all widths, densities and bit-length shapes, reached by construction or through larger sizes; reported and written bytes compared with the documented bound from below and above; non-trivial: more than a block of data',
      must_observe=['space.objects', 'space.bytes', 'space.layered'])
check('C30', [U('steps.cpp', 'steps', 1)],
      'every operation at two sizes a factor 60 to 300 apart (constant time), or over whole adversarial inputs of two sizes (linear and n log n time), counted in executed basic-block edges and words moved by memory functions; non-trivial: all',
      must_observe=['st.kinds_compared', 'st.runs_compared', 'st.steps'])
check('C31', parts(5, 'values.cpp', 2, .4),
      'every structure in states reached by construction and changes: copied (constructed, assigned over another object, to itself, from a copy of a copy), moved, moved back into moved-from objects, swapped, and random walks of these over three objects; all answers and bytes compared after each step, twins changed alike and apart, sources destroyed and their memory reused; non-trivial: more than 20 answers',
      must_observe=['vs.copies', 'vs.moves', 'vs.swaps', 'vs.changed_twins', 'vs.herd_steps'])

COUNTED = '-Wl,' + ','.join('--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'free', 'aligned_alloc', 'posix_memalign', 'memalign'))
BUILDS['plain_counted'] = dict(BUILDS['plain'], what=BUILDS['plain']['what'] + ', every allocation counted and refused at will', ld=[COUNTED])
BUILDS['asan_counted'] = dict(BUILDS['asan'], what=BUILDS['asan']['what'] + ', every allocation counted and refused at will', ld=[COUNTED])
check('C32', [U('memory.cpp', b, sc, part=k) for k in (1, 2, 3, 4, 5) for b, sc in (('plain_counted', 2), ('asan_counted', .4))],
      'whole lives of every structure (built, changed, copied, moved, swapped, written, read, destroyed) between two counts of the blocks and bytes held; rounds of queries and of repeated assignment; thousands of changes of bounded content; '
      'and construction, copying, assignment, change and reading with a chosen allocation (or all from it on) refused; non-trivial: every life; for refusals, at least one refused allocation met by std::bad_alloc',
      must_observe=['me.lives', 'me.allocations', 'me.rounds', 'me.churned', 'me.copies_weighed', 'me.built_weighed', 'me.faults', 'me.refusals'])

FROZEN = ['-std=c++17', '-w', '-Dsim_ds=frozen_ds', '-Dzoo=frozen_zoo', '-I', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness', 'frozen'), '-I', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness')]
check('C33', [U('format.cpp', 'plain', 4, extra=[('frozen.cpp', ['-O2', '-DNDEBUG'] + FROZEN)]), U('format.cpp', 'asan', .5, extra=[('frozen.cpp', ['-O1', '-DNDEBUG', '-fsanitize=address'] + FROZEN)])],
      'objects of every serialisable structure built alike by the current library and by the pinned version kept under harness/frozen, written by one and read by the other into fresh and used objects, asked, changed alike and asked again; files of several objects written and read by both in turns; non-trivial: more than 60 bytes',
      must_observe=['fo.old_streams', 'fo.new_streams', 'fo.files', 'fo.changed', 'fo.large', 'fo.bytes'])

BUILDS['stack'] = dict(what='g++ -O2 -DNDEBUG, every operation on a painted stack of its own', cxx=['g++'], flags=['-O2', '-DNDEBUG'], ld=['-Wl,-z,now'], env=PERTURB, as_gb=6, cpu=60)
BUILDS['stack_O0'] = dict(BUILDS['stack'], what='g++ -O0 -DNDEBUG, every operation on a painted stack of its own', flags=['-O0', '-DNDEBUG'])
check('C34', [U('stack.cpp', 'stack', 1), U('stack.cpp', 'stack_O0', .5)],
      'whole lives of every structure and every search, sort and construction at small sizes and at sizes 50 to 2000 times larger (deep keys, long patterns, hostile orders and texts), each operation on a painted stack of its own; '
      'the deepest use at large sizes compared with the deepest at small ones; non-trivial: all',
      must_observe=['sk.lives', 'sk.kinds', 'sk.kinds_compared'])
