#!/usr/bin/env python3
"""Writes known_findings.json: repaired defects by commit (looked up by subject in /repo) and recorded ones."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [  # property, start of the commit's subject, what failed
 ('C16', 'fix: byte search in short ranges', 'memrchr-like and memchr-like search gave wrong positions in ranges shorter than a word, at block edges and for absent bytes'),
 ('C16', 'fix: simd_strcmp took', 'simd_strcmp gave equal for a string and its own prefix and read past the end'),
 ('C15', 'fix: simd_itoa cut', 'simd_itoa dropped the upper half of values past 32 bits and read past its digit table'),
 ('C15', 'fix: simd_atod was off', 'simd_atod was off by a power of ten, lost the sign of -0.x and read past its scale table'),
 ('C15', 'fix: shifts by the word width', 'undefined shifts by 64 and negation of INT64_MIN'),
 ('C08', 'fix: an index of a deferred function', 'raii_deferred_cancel/raii_deferred_fire with any index wrote to or called through unrelated memory'),
 ('C01', 'fix: a deferred function that defers or throws', 'a deferred function that defers was lost (or the moved array read), one that throws was run again'),
 ('C01', 'fix: a scope ended once', 'functions deferred on an ended and reused scope never ran; its memory leaked'),
 ('C04', 'fix: a try block read fields', 'stack garbage in a try context made a caught exception end the default scope'),
 ('C05', 'fix: a null protected pointer', 'a null protected pointer stopped the release of the others'),
 ('C02', 'fix: scope memory was put on the protected stack', 'an exception released the scope memory of a scope that goes on, through its first words'),
 ('C09', 'fix: what could not be deferred', 'a failed growth of the deferred list leaked the block and dropped the function'),
 ('C10', 'fix: pointer and long string arguments', "a 'p' argument or a string longer than 272 bytes crashed"),
 ('C09', 'fix: half of an argument container', 'raii_args_for and unique_init_arena leaked their first half when the second could not be allocated'),
 ('C13', 'fix: the default scope was used before', 'raii_defer/raii_recover/raii_decode64/raii_caught on a new thread went through a null pointer'),
 ('C17', 'fix: an empty delimiter or needle', 'str_split_ex and str_replace_ex looped forever'),
 ('C03', 'fix: a guard took over exceptions', 'an exception caught inside a guard, or raised by another thread, ended the guard; a throwing deferred function ended the process'),
 ('C13', 'fix: what a thread raised was recorded', 'unsynchronised process-wide flags written by every thread that throws'),
 ('C04', 'fix: an exception thrown inside catch_if', 'a throw in a catch_if clause (or a nested guard panicking there) ran the same clause again'),
 ('C11', 'fix: a future was read after', 'thrd_get and the worker used the promise and future after they were freed'),
 ('C11', "fix: a future's thread wrote into the scope", "a worker's panic or error was written into the caller's scope while the caller used it"),
 ('C12', 'fix: a thread scope and a guard took', 'a guard inside a thread scope (or the reverse) took the other for its own scope'),
 ('C12', 'fix: synchronising a thread scope', "thrd_sync released everything on the caller's default scope"),
 ('C09', 'fix: a future that could not be started', 'a future whose thread or memory could not be had leaked or crashed'),
 ('C09', 'fix: an arena request whose size', 'an arena request of a size beyond what a long holds, or with count times size wrapping around, gave memory that was not there (or ended in an assertion)'),
 ('C14', 'fix: cleared and freed arenas', 'chunks of a cleared or freed arena stayed in use, were handed out twice or were never given back'),
 ('C19', 'fix: generic atomic operations', 'generic atomic forms used 64-bit operations on objects of every width, changing neighbours; fetch_or and weak_explicit took wrong operands'),
 ('C19', 'fix: adding to an atomic float', 'c89atomic_fetch_add/sub on float and double added the integer representations: 1.0f + 1.0f gave 1.7e38'),
 ('C19', 'fix: clearing an atomic float', 'c89atomic_clear_f32/f64 cast a void expression'),
 ('C21', 'fix: a deleted thread-local variable', 'a plain thread-local variable with another initial value than zero was reported in use after its deletion'),
 ('C21', 'fix: plain thread-local variables read', 'a plain thread-local variable (thrd_local_plain, thrd_static_plain) read as an address before its first store'),
 ('C04', 'fix: caught() in a deferred function', 'catch_if in a deferred function run while an uncaught exception ends the thread tested the uncaught exception instead of the caught one'),
 ('C09', 'fix: a worker that got no memory for its guard', 'a worker thread whose first request for memory failed ended the whole process instead of delivering a panic through its future'),
]
KNOWN = [{'property': 'C22', 'key': 'memcheck:Invalid-read-of-size-N@documented-small-argument',
  'what': 'get_arg(&object) (README: thrd_async(is_prime, &prime)) of an object smaller than values_type (256 bytes) reads beyond it: get_arg/raii_value copy the whole union (src/raii.c, raii_value)'}]
def main():
    log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
    fixed = []
    for p, s, w in FIXED:
        c = [l.split(' ', 1)[0] for l in log if l.split(' ', 1)[1].startswith(s)]
        if len(c) != 1: sys.exit('no single commit for: ' + s)
        fixed.append('fixed: property=%s %s %s' % (p, c[0], w))
    for l in log:
        h, s = l.split(' ', 1)
        if s.startswith('fix:') and not any(s.startswith(x[1]) for x in FIXED): sys.exit('commit not listed: ' + l)
    json.dump({'known': KNOWN, 'fixed': fixed}, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
    print(len(KNOWN), 'known,', len(fixed), 'fixed')
main()
