"""Build configurations and per-property plans."""
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-O1']
CONFIGS = {
    # the tested configuration
    'prod':  {'cc': 'gcc', 'flags': ['-O3', '-fomit-frame-pointer', '-DUSE_DEBUG']},
    # release: no debug assertions
    'rel':   {'cc': 'gcc', 'flags': ['-O2'], 'offset': 10_000_000},
    'o0':    {'cc': 'gcc', 'flags': ['-O0', '-DUSE_DEBUG'], 'offset': 20_000_000},
    'asan':  {'cc': 'gcc', 'flags': SAN + ['-DUSE_DEBUG'], 'offset': 30_000_000},
    'ubsan': {'cc': 'gcc', 'flags': ['-fsanitize=undefined', '-fno-sanitize-recover=all', '-O1', '-DUSE_DEBUG'], 'offset': 60_000_000},
    'asan2': {'cc': 'gcc', 'flags': [f if f != '-O1' else '-O3' for f in SAN], 'offset': 40_000_000},
    'tsan':  {'cc': 'gcc', 'flags': ['-fsanitize=thread', '-O1', '-fno-omit-frame-pointer', '-DUSE_DEBUG'], 'alloc': '', 'offset': 50_000_000},
    # uninitialised values and what the compiler's instrumentation cannot see (swar.c reads words)
    'vg':    {'cc': 'gcc', 'flags': ['-O1', '-fno-omit-frame-pointer', '-DUSE_DEBUG'], 'alloc': '', 'offset': 70_000_000,
              'wrap': ['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--leak-check=no', '--undef-value-errors=yes', '--child-silent-after-fork=no', '--fair-sched=yes', '--suppressions={H}/vg.supp']},
}
PROPS = {}

PROPS['C15'] = dict(
    src=['c15_num.c'], level='exploration',
    plan={'quick': {'prod': 300000, 'asan': 100000, 'o0': 120000, 'rel': 80000},
          'thorough': {'prod': 600000, 'asan': 200000, 'o0': 300000, 'asan2': 100000, 'rel': 200000}},
    observe={'itoa': 1000, 'itoa8': 1000, 'utoap': 1000, 'atou': 1000, 'atoi': 1000, 'htou': 1000, 'atod': 1000, 'atou8': 300, 'htou8': 300},
    rule='Each case makes about 60 conversions with boundary-rich values (powers of ten and two +-2, extremes, random widths, leading zeros, signs, '
         'case mixes), random alignment and adversarial bytes around the text; distinct = different (function, length, value) observed.',
    assumptions=['Text operands have at least 8 readable bytes from any position the parsers read (they read words by design).',
                 'Decimal fractions have at most 18 integer and 19 fractional digits; the tolerance is 4 half-ulps of the value strtod gives.'])
PROPS['C16'] = dict(
    src=['c16_bytes.c'], lib=['raii.c', 'except.c', 'future.c', 'arena.c'], level='exploration',
    plan={'quick': {'prod': 400000, 'ubsan': 120000, 'o0': 160000, 'rel': 80000},
          'thorough': {'prod': 800000, 'ubsan': 200000, 'o0': 300000, 'rel': 200000}},
    observe={'strlen': 1000, 'strcmp': 1000, 'search': 1000, 'word': 1000, 'is_str_in': 1000, 'printable_search': 500},
    rule='Each case makes 40 searches, comparisons and word operations on strings placed against an inaccessible page (length, comparison) or '
         'surrounded by matching bytes (search), all alignments; distinct = different (function, length, answer, alignment) observed.',
    assumptions=['Search functions may read up to 8 bytes around the range (word reads by design); those bytes hold matches so that any influence shows.',
                 'The printable variants are given bytes below 0x80 only, as documented.'])
PROPS['C17'] = dict(
    src=['c17_str.c'], level='exploration',
    plan={'quick': {'prod': 480000, 'asan': 128000, 'rel': 128000},
          'thorough': {'prod': 2000000, 'asan': 500000, 'rel': 400000, 'asan2': 200000}},
    observe={'split': 1000, 'concat': 1000, 'replace': 1000, 'memdup': 1000, 'strpos': 1000, 'scopes_ended': 1000},
    rule='Each case performs up to 12 string operations on generated texts (small alphabets so that delimiters and needles overlap, empty pieces, '
         'long texts, null and empty delimiters) bound to no scope, a smart pointer or the default scope, then ends the scope and counts live blocks; '
         'distinct = different (operation, operands) observed.',
    assumptions=['The text given to split is not empty (null is returned for it).', 'Replacement without an occurrence returns null (as implemented).'])
PROPS['C18'] = dict(
    src=['c18_b64.c'], level='exploration',
    plan={'quick': {'prod': 720000, 'asan': 192000, 'rel': 192000},
          'thorough': {'prod': 2000000, 'asan': 500000, 'rel': 400000, 'asan2': 200000}},
    observe={'encode': 1000, 'decode': 1000, 'decode_with_junk': 500, 'refused': 1000, 'is_base64': 1000, 'scopes_ended': 1000},
    rule='Each case performs up to 16 encodings, decodings (with and without foreign characters between), refusals and validity tests on generated bytes, '
         'in a smart pointer or the default scope; distinct = different (operation, operand) observed.',
    assumptions=['Encoding takes a terminated string, so its bytes are non-zero; decoding is exercised with all byte values.'])

PROG_RULE = ('Each case is a random program of nested guards, try blocks (18 shapes), calls, deferrals, requests of memory, cancellations, firings, protected '
             'pointers, throws, panics%s, evaluated first by a reference model; the run by the library must produce exactly the model\'s event trace, every '
             'live block is checked for contents and liveness at each statement, every release against the allocator\'s ledger, and no block may remain. '
             'Distinct = different event traces observed.')
PROG_ASSUME = ['break and _return leave a guard directly, not through a try block inside it; return inside a try block is not used.',
               'unprotected() is applied in reverse order of protected(); two adjacent protected variables never hold the same value.',
               'A smart pointer is not deleted by its own deferred function.']
def prog(i, observe, extra='', **kw):
    PROPS['C%02d' % i] = dict(src=['prog_main.c', 'prog.c'], defs=['-DPROP=%d' % i], level='exploration',
        plan={'quick': {'prod': 300000, 'asan': 80000, 'rel': 120000, 'o0': 60000}, 'thorough': {'prod': 4000000, 'asan': 800000, 'rel': 1500000, 'o0': 500000, 'asan2': 400000}},
        observe=observe, rule=PROG_RULE % extra, assumptions=PROG_ASSUME, **kw)
prog(1, {'exits': 500, 'exits_in_threads': 100, 'deferred-run': 10000, 'guard-end': 3000, 'scope-deleted': 500, 'cleaned': 500, 'throw': 500})
prog(2, {'alloc': 10000, 'release': 3000, 'freed': 3000, 'scope-deleted': 500, 'throw': 500})
prog(3, {'exceptions_recovered': 1000, 'guard-end': 3000, 'throw': 3000, 'recover-test': 3000})
prog(4, {'predefined': 3000, 'handler': 3000, 'finally': 3000, 'throw': 3000, 'rethrown': 300})
prog(5, {'unprotected_again': 10000, 'released_alone': 10000, 'release-protected': 3000, 'unprotect': 1000, 'protect': 3000, 'throw': 1000})
prog(6, {'signals': 3000, 'handler': 2000, 'defaults_restored': 300, 'own_registered': 3000}, extra=', real and raised signals')
prog(24, {'setup-hook': 10000, 'unwind-hook': 3000, 'deferred-run': 3000, 'handler': 3000, 'only_setup': 500, 'only_unwind': 500, 'nothing_to_unwind': 500}, extra=', with the callbacks of the program installed')
prog(8, {'cancel': 3000, 'fire': 3000, 'deferred-run': 10000})

PROPS['C19'] = dict(
    src=['c19_atomic.c'], level='exploration', nondet=True, procs=3, shards=24, min_shard=4,
    plan={'quick': {'prod': 18000, 'o0': 3000, 'ubsan': 3000, 'tsan': 3000},
          'thorough': {'prod': 200000, 'rel': 60000, 'o0': 40000, 'ubsan': 40000, 'tsan': 40000}},
    observe={'operations_alone': 50000, 'float_operations': 1000, 'histories': 5000, 'counter_rounds': 3000, 'exchange_rounds': 3000, 'cas_rounds': 3000,
             'bit_rounds': 3000, 'neighbour_rounds': 3000, 'publications': 1000, 'store_buffer_rounds': 3000},
    rule='About 1000 forms (typed, signed, explicit orders, generic over every atomic type, pointers, floats). Alone: each form on an object at any natural '
         'alignment between random bytes against the definition of the operation: result, value left, expected value, every neighbouring byte. Concurrent (2-4 '
         'threads, thousands of rounds): random operation histories that some interleaving must explain, counters, exchanges and compare-exchanges whose values '
         'appear exactly once, own bits, adjacent objects, store-buffering and publication (plain data judged by ThreadSanitizer); distinct = different operands or result vectors.',
    assumptions=['The build under test is gcc 4.7 or later on a 64-bit machine: the inline-assembly and MSVC branches are not compiled.',
                 'x86-64 memory ordering; weaker orders are judged by ThreadSanitizer only.'])

PROPS['C20'] = dict(
    src=['c20_lock.c'], level='exploration', nondet=True, procs=3, shards=24, min_shard=4,
    plan={'quick': {'prod': 4500, 'o0': 1500, 'tsan': 3000},
          'thorough': {'prod': 80000, 'rel': 40000, 'o0': 40000, 'tsan': 60000}},
    observe={'lock_acquisitions': 100000, 'flag_rounds': 2000, 'hand_overs': 2000, 'waits_ended': 1000},
    rule='2-6 threads contend for 1-4 spin locks (macros, functions and test-and-set loops) around plain data whose updates are counted and checked for tearing, '
         'win flags (one winner per clear), hand data over through flags both ways, and wait for a released lock; the plain data is also judged by ThreadSanitizer, '
         'bytes beside each lock are checked; distinct = different (form, threads, locks).',
    assumptions=['A lock or flag is initialised by clearing it or to zero.', 'Explicit relaxed loads of a flag promise nothing about earlier writes.'])

PROPS['C10'] = dict(
    src=['c10_args.c'], level='exploration',
    plan={'quick': {'prod': 120000, 'asan': 36000, 'rel': 36000, 'o0': 18000},
          'thorough': {'prod': 3000000, 'asan': 800000, 'rel': 800000, 'o0': 200000, 'asan2': 300000}},
    observe={'containers': 20000, 'empty_containers': 500, 'item_s': 5000, 'item_f': 5000, 'item_c': 3000, 'item_word': 20000, 'freed_by_scope': 5000, 'freed_explicitly': 2000, 'freed_by_panic': 300},
    rule='Each case keeps up to 8 containers of 1-40 items of every letter (texts of 0 to 21000 characters, extreme numbers, null and function pointers) alive '
         'at once, bound to smart pointers, the default scope, a guard or nothing, reads items in any order through the three accessors, frees some by hand, '
         'lets guards end normally or by a panic and ends the scopes in any order; every container is followed in the allocator ledger; distinct = different formats.',
    assumptions=['x86-64 argument passing (formats are generated at run time).', 'Each letter is read through the member its documentation names; indices are in range.',
                 'A container read through a releasing accessor is not freed by hand.'])

PROPS['C14'] = dict(
    src=['c14_arena.c'], level='exploration', nondet=True, procs=4,
    plan={'quick': {'prod': 9000, 'asan': 2100, 'o0': 1200, 'rel': 1800, 'tsan': 900},
          'thorough': {'prod': 1500000, 'asan': 300000, 'o0': 100000, 'rel': 300000, 'asan2': 150000, 'tsan': 60000}},
    observe={'blocks': 100000, 'grown': 20000, 'fits': 50000, 'zeroed': 20000, 'clears': 10000, 'capacity_used': 3000, 'frees': 10000, 'scopes': 3000,
             'scope_deferred': 1000, 'threaded_cases': 500},
    rule='Up to four arenas and arena scopes per thread (thresholds 0-16, 1-4 threads sharing the cache of chunks): random requests (1 byte to 1 MB, exactly at, '
         'below and above the reported capacity), zeroed requests, clears, frees and reopenings. Every block must lie in live memory of the ledger, overlap no other '
         'live block and keep a pattern until its arena is cleared or freed; what is reported as capacity is handed out without asking for memory; at the end the cache '
         'is drained and no block may remain; distinct = different (size, fit, growth) observed.',
    assumptions=['Sizes are positive and within long.', 'An arena is used by one thread at a time.', 'Arena scopes are ended with free_arena, as documented.'])

PROPS['C21'] = dict(
    src=['c21_tls.c', 'c21_b.c'], level='exploration', nondet=True, procs=4, std={'c21_b.c': 'gnu90'},
    plan={'quick': {'prod': 15000, 'o0': 7500, 'asan': 5000, 'tsan': 5000},
          'thorough': {'prod': 300000, 'rel': 100000, 'o0': 100000, 'asan': 60000, 'tsan': 60000}},
    observe={'created': 10000, 'read': 50000, 'written': 10000, 'deleted': 5000, 'created_again': 2000, 'updated': 5000, 'reported_empty': 5000, 'reported_in_use': 5000,
             'plain_read': 50000, 'plain_written': 20000, 'plain_deleted': 5000, 'fresh_threads': 2000, 'instance_pairs': 5000, 'threads': 10000},
    rule='Eleven variables of every macro form (pointer and plain, static and shared between a C90 and a C11 translation unit, same-named statics in both, initial '
         'values other than zero, the library\'s own) used at random by the main thread and 1-5 others in up to three generations: emptiness, first use, contents, '
         'replacement and deletion must follow one model per thread, instances of live threads must differ, unsynchronised sharing is judged by ThreadSanitizer; '
         'distinct = different final states of a thread.',
    assumptions=['Native thread-local storage (the emulation for compilers without it is not built here).', 'What a variable holds when created again after deletion is not specified.'])

FUT = dict(src=['c11_future.c'], level='exploration', nondet=True, procs=4, shards=24, min_shard=4)
PROPS['C11'] = dict(FUT, defs=['-DPROP=11'],
    plan={'quick': {'prod': 10000, 'asan': 2400, 'o0': 2400, 'tsan': 1200},
          'thorough': {'prod': 200000, 'rel': 60000, 'o0': 40000, 'asan': 40000, 'asan2': 20000, 'tsan': 30000}},
    observe={'calls': 5000, 'gets': 5000, 'values': 3000, 'raised_in_caller': 1000, 'recovered_by_caller': 300, 'objects': 1000, 'seen_done': 1000, 'seen_not_done': 1000,
             'create_failed': 50, 'bad_gets': 50, 'callers_on_threads': 300},
    rule='Rounds of 1-8 calls from the main thread or from 1-3 caller threads at once; 13 behaviours of the function (values, null, objects, dropped and repeated objects, '
         'exceptions, panics, exceptions caught or recovered inside, own futures, own deferrals and memory) with null, pointer or container argument; some functions '
         'are gated or wait for another one in a random order, noise is injected at thread starts, yields and ends. Counters kept by the functions and the allocator '
         'ledger decide when a future reports done and after its value was got (plain, in try, in a guard with recovery); distinct = different (behaviour, argument) sequences.',
    assumptions=['Every future is got exactly once, before the scope of its caller ends.', 'A container of arguments belongs to one call.', 'thrd_create is glibc\'s or the stand-in over pthreads.'])
PROPS['C12'] = dict(FUT, defs=['-DPROP=12'],
    plan={'quick': {'prod': 7500, 'asan': 1800, 'o0': 1800, 'tsan': 900},
          'thorough': {'prod': 200000, 'rel': 60000, 'o0': 40000, 'asan': 40000, 'asan2': 20000, 'tsan': 30000}},
    observe={'spawned': 5000, 'results': 5000, 'sync_raised': 500, 'objects': 1000, 'continuations': 5000, 'refused_spawns': 500, 'early_refused': 500, 'seen_unfinished': 500,
             'seen_finished': 300, 'second_syncs': 500, 'create_failed': 20, 'scopes': 2000, 'outer_scopes': 300},
    rule='Thread scopes with up to 40 workers spawned in up to three parts with synchronisation between (the behaviours of C11), from 1-3 caller threads at once; '
         'asking before synchronisation, spawning without a scope, finished and unfinished reports, results after the first and a repeated synchronisation, '
         'the raised exception of the first failing worker, private copies, continuation order and running result, destruction against the ledger; distinct = '
         'different sequences of (behaviour, argument).',
    assumptions=['A thread scope is synchronised before it is destroyed and used by the thread that made it.', 'Of several thread scopes of one thread the newest gets the workers; it is destroyed first.'])

PROPS['C13'] = dict(src=['c13_threads.c', 'prog.c'], level='exploration', nondet=True, procs=3, shards=24, min_shard=4,
    plan={'quick': {'prod': 30000, 'asan': 8000, 'o0': 4000, 'tsan': 6000},
          'thorough': {'prod': 400000, 'rel': 100000, 'o0': 60000, 'asan': 60000, 'asan2': 30000, 'tsan': 60000}},
    observe={'concurrent_runs': 2000, 'switches_between_events': 20000, 'plain_threads': 1000, 'worker_threads': 500, 'deferred-run': 10000, 'handler': 2000, 'alloc': 3000,
             'futures': 500, 'thread_scopes': 300, 'arenas': 300, 'codes': 1000, 'conversions': 1000, 'searches': 1000, 'texts': 1000, 'thread_locals': 1000},
    rule='2-5 threads (plain ones or workers of the library) each run up to three random programs of their own (the programs of C01-C06, signals included, plus futures, '
         'thread scopes, arenas, texts, containers, codes, conversions, searches and thread-locals) at the same time with noise injected between events; every thread\'s trace must be the one the model gives for its '
         'program alone, no block may remain, and every access is judged by ThreadSanitizer; distinct = different traces and numbers of switches between threads.',
    assumptions=PROG_ASSUME + ['The first use of the library (installing the signal handlers) happens before threads start.', 'A thread not made by the library ends its default scope with raii_destroy.'])
PROPS['C07'] = dict(src=['c07_uncaught.c', 'prog.c'], level='exploration',
    plan={'quick': {'prod': 48000, 'asan': 16000, 'rel': 20000, 'o0': 8000},
          'thorough': {'prod': 600000, 'asan': 150000, 'rel': 200000, 'o0': 60000}},
    observe={'uncaught': 8000, 'reports_with_place': 3000, 'termination_hooks': 3000, 'interrupt_hooks': 100, 'in_threads': 1000, 'with_callbacks': 1000, 'with_signals': 2000, 'without_signals': 1000, 'events': 100000},
    rule='Each case is a process of its own running a random program (as for C01-C06) whose last exception, panic or signal nothing handles, thrown at a random depth on the main '
         'thread or another one, with pending deferred functions, protected pointers, guards and finally clauses; every event must be the model\'s, all of them before the report, '
         'the report (name or message, standard error) before the hooks, each installed hook exactly once, no block of the thread left, a failure status. Distinct = different '
         '(number of events, hooks, exception).',
    assumptions=PROG_ASSUME + ['Deferred functions that run while the process ends let no exception escape.', 'Protected pointers of the outermost level and deferred functions may be interleaved in any way.',
                 'A SIGINT handled earlier leaves open whether a later uncaught exception calls the interrupt hook.'])

PROPS['C09'] = dict(src=['c09_alloc.c', 'prog.c'], level='exploration', nondet=True,
    plan={'quick': {'prod': 100000, 'asan': 24000, 'o0': 16000}, 'thorough': {'prod': 2000000, 'rel': 200000, 'o0': 100000, 'asan': 150000, 'asan2': 60000}},
    observe={'no-memory': 8000, 'panics': 20000, 'failed_requests': 20000, 'completed': 100000, 'deferred_ran': 20000, 'workers': 2000, 'exceptions_recovered': 500},
    rule='Two kinds of cases: random programs as for C01-C05 with requests that fail among their statements (the model raises a panic there); and sequences of up to 80 '
         'calls of scopes, guards, arenas, containers, texts, futures and thread scopes in each of which the k-th request, or all from it on, fails. Each call must complete with '
         'the right result or raise a panic with a message; after each one every earlier block is live with its contents and every deferred function pending; they end '
         'once, newest first, with their scope, and no block may remain. Distinct = different traces.',
    assumptions=['An argument container whose first reading fails still belongs to the reader.', 'A request of the system for a thread is not an allocation of the library.'])

PROPS['C23'] = dict(src=['c23_ds.c'], level='exploration', defs=['-idirafter', '{REPO}/include/compat'],
    plan={'quick': {'prod': 300000, 'o0': 75000, 'asan': 75000}, 'thorough': {'prod': 5000000, 'rel': 1000000, 'o0': 500000, 'asan': 1000000, 'asan2': 200000}},
    observe={'SLIST': 50000, 'LIST': 50000, 'SIMPLEQ': 50000, 'XSIMPLEQ': 50000, 'TAILQ': 50000, 'splay': 500000, 'red-black': 500000, 'red-black, reversed': 500000, 'largest_tree': 1000, 'augmentations': 1000000, 'paths_halved': 1000},
    rule='Random sequences of up to 84 operations on three heads of each list and queue kind with up to 48 members (two fields, static and run-time initialisation, with and '
         'without QUEUE_MACRO_DEBUG), and of up to 8000 on splay and red-black trees (two orders) of up to 2600 keys inserted and removed in rising, falling and random order; after '
         'each operation every enumeration, first, last, previous, next, find, minimum and maximum is compared with a plain model, and links, colours, black heights, heights '
         'and an augmentation are checked; chains of up to 320 keys are splayed; removed members are freed at once; distinct = different (operation, place) sequences.',
    assumptions=['The RBT_* declarations have no implementation in the repository and are not covered.', 'Removal from a splay or red-black tree is of a member, or for splay trees of an absent key.'])

PROPS['C22'] = dict(src=['c22_mixed.c', 'prog.c'], level='exploration', nondet=True,
    plan={'quick': {'asan': 16000, 'ubsan': 8000, 'asan2': 8000, 'vg': 1600}, 'thorough': {'asan': 600000, 'ubsan': 200000, 'asan2': 300000, 'vg': 30000}},
    observe={'events': 100000, 'deferred-run': 10000, 'throw': 1000, 'futures': 3000, 'thread_scopes': 3000, 'arenas': 3000, 'texts': 3000, 'codes': 3000, 'containers': 3000,
             'conversions': 3000, 'searches': 3000, 'thread_locals': 3000, 'atomics': 3000, 'predicates': 3000, 'exceptions': 3000, 'scopes': 3000, 'guards': 3000, 'blocks': 3000,
             'try_requests': 3000, 'protections': 3000, 'deep_calls': 3000, 'other_threads': 3000, 'signals': 300, 'no-memory': 300},
    rule='Each case is a random program as for C01-C08 whose foreign statements use the rest of the interface (18 groups: futures, thread scopes, arenas, texts, base64, containers, '
         'conversions, searches, thread-locals, atomics, predicates, nested exceptions and panics, smart pointers and arena scopes, guards, functions with guards, try requests, '
         'protected pointers, deep unwinding, nested into one another, failing requests and signals), with up to three other threads doing the same; judged by AddressSanitizer, '
         'UndefinedBehaviorSanitizer and valgrind memcheck (uninitialised values, swar.c), besides the contents of all memory handed out. Distinct = different traces and uses.',
    assumptions=['Text given to the number parsers has 8 readable bytes behind it, byte searches 8 around.', 'A pointer given to get_arg or raii_value points to at least 256 readable bytes.',
                 'Only the scopes that may be null by documentation are.', 'swar.c is judged by valgrind and UndefinedBehaviorSanitizer only: it reads aligned words beyond the end of a text by design.'])
