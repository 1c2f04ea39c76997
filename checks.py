"""Registry of checks: harness, shards (entry point + parameters) per tier, bounds."""
CHECKS = {}
def sh(entry, *params, **kw):
    d = {'entry': entry, 'params': list(params)}; d.update(kw); return d

INT_T = ['int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64']
DIG = [3, 3, 5, 5, 10, 10, 19, 20]
def c01(tier):
    for t in range(8):
        top = DIG[t] + (2 if tier == 'quick' else 5)
        for n in range(0, top + 1):
            if tier == 'quick' and t >= 4 and 5 < n < DIG[t] - 1: continue
            yield sh('c01_int', t, n, weight=n, opts=['--no-merge'])
        for z in (9, 20, 40) if tier == 'quick' else (9, 20, 40, 130, 260): yield sh('c01_long', t, z, 3, weight=4, opts=['--no-merge'])
    for t in (8, 9, 10): yield sh('c01_int', t, 3, opts=['--no-merge']); yield sh('c01_long', t, 17, 3 if t == 8 else 4, opts=['--no-merge'])
CHECKS['C01'] = dict(harness='C01.cc', shards=c01, reach=['accepted', 'rejected'],
    bounds='all strings over all 256 byte values, for 8/16/32/64-bit signed and unsigned targets, lengths 0..digits+2 (quick; a gap in the middle lengths) / 0..digits+5 (thorough); an arbitrary byte, 9 to 40 (260) zeros and three arbitrary bytes; char, long long and unsigned long long with 3 bytes',
    outside='longer strings')

CHECKS['C04'] = dict(harness='C04.cc', reach=['hit', 'join', 'rx', 'long'],
    shards=lambda t: [sh('c04_split', n, k, weight=n) for n in range(0, 7 if t == 'quick' else 10) for k in range(0, 4 if t == 'quick' else 5)] + [sh('c04_split', n, 1, weight=9) for n in (8,)] +
        [sh('c04_long', n, w, weight=9) for n, w in ((40, 2), (70, 1)) + (() if t == 'quick' else ((140, 3), (300, 2)))] + [sh('c04_regex', r, n, weight=3 * n) for r in range(4) for n in range(0, 5 if t == 'quick' else 7)] +
        [sh('c04_join', c, k, b) for c in range(0, 4 if t == 'quick' else 6) for k in range(0, 4) for b in (0, 9)],
    bounds='texts up to 6 (thorough 9) arbitrary bytes with delimiters of 0..3 (0..4) arbitrary bytes, 8 bytes with a one-byte delimiter; joins of up to 3 (5) parts of up to 2 or 18 bytes with glue up to 3 bytes; texts of 40 and 70 (300) bytes with one or two (three) arbitrary bytes and five delimiters; four regular expressions on texts up to 4 (6) bytes', outside='longer texts; other regular expressions, in particular ones that match the empty string')
CHECKS['C05'] = dict(harness='C05.cc', reach=['several', 'none', 'set'],
    shards=lambda t: [sh('c05_set', n, k, weight=n) for n in range(0, 6 if t == 'quick' else 9) for k in range(0, 4)] + [sh('c05_default', n, weight=n) for n in range(0, 7 if t == 'quick' else 10)] +
        [sh('c05_long', n, w, k, weight=5) for n, w in ((40, 2), (70, 1)) + (() if t == 'quick' else ((140, 3), (300, 2))) for k in (0, 4, 20)] + [sh('c05_long', n, n, 20) for n in (1, 2)] + [sh('c05_emplace', n, weight=n) for n in range(0, 5)],
    bounds='texts up to 5 (thorough 8) arbitrary bytes, 0..3 arbitrary delimiter bytes; default whitespace up to 6 (9) bytes; texts of 40 and 70 (300) bytes with one or two (three) arbitrary bytes, with sets of 4 to 20 delimiters', outside='longer texts')
CHECKS['C06'] = dict(harness='C06.cc', reach=['left', 'right', 'all'],
    shards=lambda t: [sh('c06_set', n, k, weight=n) for n in range(0, 7 if t == 'quick' else 10) for k in range(0, 4)] + [sh('c06_default', n, weight=n) for n in list(range(0, 8 if t == 'quick' else 12)) + [18]] +
        [sh('c06_long', n, w, k, weight=5) for n, w in ((40, 2), (70, 1)) + (() if t == 'quick' else ((140, 3), (300, 2))) for k in (0, 4, 20)] + [sh('c06_long', n, n, 20) for n in (1, 2)] + [sh('c06_runs', n) for n in (17, 40, 80) + (() if t == 'quick' else (150, 300))],
    bounds='texts up to 6 (thorough 9) arbitrary bytes, 0..3 arbitrary trim bytes; default whitespace up to 7 (11) and 18 bytes; texts of 40 and 70 (300) bytes with one or two (three) arbitrary bytes and runs of up to 80 (300) trim characters, sets of 4 to 20 characters', outside='longer texts')
CHECKS['C07'] = dict(harness='C07.cc', reach=['match', 'null', 'long'],
    shards=lambda t: [sh('c07_replace', h, n, m, 0, weight=h) for h in range(0, 6 if t == 'quick' else 9) for n in range(0, 4) for m in range(0, 4)] + [sh('c07_replace', 8, 1, 3, 2, weight=9), sh('c07_replace', 9, 2, 5, 2, weight=9), sh('c07_replace', 17, 3, 0, 1), sh('c07_replace', 20, 2, 3, 1)] + [sh('c07_null', h) for h in (0, 1, 17)] + [sh('c07_long', n, w, m, weight=5) for n, w in ((40, 2), (70, 1)) + (() if t == 'quick' else ((140, 3), (300, 2))) for m in (0, 1, 5)],
    bounds='texts up to 5 (thorough 8) arbitrary bytes, needles and replacements up to 3 bytes; 8/9-byte texts over two letters that grow past the small-string buffer; texts of 40 and 70 (300) bytes with one or two (three) arbitrary bytes, six needles and replacements of 0, 1 and 5 arbitrary bytes', outside='longer texts')
CHECKS['C08'] = dict(harness='C08.cc', reach=['char', 'str'],
    shards=lambda t: [sh('c08_char')] + [sh('c08_str', n) for n in list(range(0, 9)) + [15, 16, 17] + ([31, 32, 40, 64] if t != 'quick' else [32])] + [sh('c08_long', n) for n in (70, 130, 300)],
    bounds='every character; strings of 0..8, 15..17 and 32 arbitrary bytes (thorough: up to 64); 70 to 300 bytes with two arbitrary ones', outside='longer strings')
CHECKS['C09'] = dict(harness='C09.cc', reach=['equal', 'different', 'char', 'long'],
    shards=lambda t: [sh('c09_str', h, n, weight=h + n) for h in range(0, 6 if t == 'quick' else 8) for n in range(0, 5 if t == 'quick' else 7)] + [sh('c09_char', h) for h in range(0, 8)] + [sh('c09_long', h, n, weight=5) for h in (20, 40, 70) for n in (1, 9, 17, h) if n <= h] + [sh('c09_long', 17, 18), sh('c09_long', 33, 65)],
    bounds='texts up to 5 (thorough 7) and parts up to 4 (6) arbitrary bytes; single characters against texts up to 7 bytes; texts of 17 to 70 bytes and parts of 1 to 70 bytes with one arbitrary byte each', outside='longer texts')
def c10(t):
    q = t == 'quick'
    for n in range(0, 5 if q else 8):
        for k in range(0, 4 if q else 5):
            for op in range(6): yield sh('c10_find', n, k, op, weight=n + k)
            yield sh('c10_cmp', n, k, weight=n + k); yield sh('c10_cmpz', n, k, weight=n + k)
            if n <= 4 and k <= 3:
                for f in range(3): yield sh('c10_cmpsub', n, k, f, weight=n + k + 1)
            yield sh('c10_str', n, k); yield from [sh('c10_wide', n, k, c) for c in ((n + k) % 3,)] if q else [sh('c10_wide', n, k, c) for c in range(3)]
            if k <= 2: yield from [sh('c10_chr', n, k, o, weight=n + k) for o in range(4) if k or o % 2 == 0 or n < 3]
        for m in range(0, n + 2): yield sh('c10_copy', n, m)
        yield sh('c10_sub', n)
        yield sh('c10_stream', n, weight=4)
    for n, k in ((20, 1), (40, 3), (70, 17)) if q else ((20, 1), (40, 3), (70, 17), (140, 40), (300, 9)): yield sh('c10_long', n, k, weight=9)
CHECKS['C10'] = dict(harness='C10.cc', reach=['none', 'found', 'throw', 'equal', 'unequal', 'sub', 'cmpsub', 'copy', 'wide', 'long', 'stream'], shards=c10,
    bounds='views up to 4 (thorough 7) and needles up to 3 (4) arbitrary bytes; every 64-bit position and count; texts of 20 to 70 (300) bytes and needles of 1 to 17 (40) bytes with one arbitrary byte each; stream output with widths up to 20 beyond the length', outside='longer texts')
def c11(t):
    q = t == 'quick'
    for ty in range(6):
        for reg in range(3):
            for neg in (0, 1):
                if neg and (reg or ty % 2): continue
                yield sh('c11_num', ty, reg, 12 if q else 20, neg, weight=5)
    yield sh('c11_flt')
    for a in (0, 1, 3): 
        for b in (0, 1, 5):
            for c in (0, 2): yield sh('c11_cat', a, b, c)
    yield sh('c11_cat', 16, 9, 8); yield sh('c11_cat', 17, 1, 0)
    for n in range(0, 5): 
        for k in list(range(0, 7)) + [17]: yield sh('c11_repeat', n, k)
    yield sh('c11_repeat', 16, 3); yield sh('c11_repeat', 33, 2)
    for n in range(0, 8 if q else 12): yield sh('c11_safe', n, n + 3, weight=n)
    yield sh('c11_safe', 17, 17, weight=9); yield sh('c11_safe', 3, 30)
    for ty in range(9):
        for k in range(0, 3):
            for n in range(0, 4): yield sh('c11_hex', ty, k, n)
CHECKS['C11'] = dict(harness='C11.cc', reach=['num', 'flt', 'cat', 'repeat', 'safe', 'hex'], shards=c11,
    bounds='cat: texts up to 17 arbitrary bytes in up to six arguments; integers within 2^12 (thorough 2^20) of zero and of both ends of each type; repeat up to 17 copies of up to 4 bytes; safe_string buffers up to 7 (11) bytes and 17 bytes; hex_string of every value of every integer type, sequences of up to 3 elements, separators up to 2 bytes', outside='floating-point arguments of cat except fixed values; longer texts')
SV_OPS = ['PUSH','PUSHR','EMPB','EMP','INS','INSR','INSN','INSRANGE','INSLIST','ERASE','ERASER','POP','CLEAR','RESIZE','RESIZEV','RESERVE','SHRINK','ASSIGNN','ASSIGNR','ASSIGNL','COPYC','MOVEC','COPYA','MOVEA','SWAP','SELFPUSH','SELFINS','SELFINSN','SELFRESIZE','SELFEMP','SELFASG','CTORN','CTORNV','CTORR','CTORL','AT','EQ','LISTA']
SV_TWO = {'COPYA', 'MOVEA', 'SWAP', 'EQ'}
SV_COPY = set(SV_OPS) - {'PUSHR','EMPB','EMP','INSR','ERASE','ERASER','POP','CLEAR','RESIZE','RESERVE','SHRINK','MOVEC','MOVEA','SWAP','CTORN','AT'}
def sv_shards(entry, types, extra, ops=None, w=1, big=0):
    for ty in types:
        for o, name in enumerate(SV_OPS):
            if ops and name not in ops: continue
            if ty in (3, 6) and name in SV_COPY: continue
            yield sh(entry, ty, o, extra, big, weight=w + (3 if name.startswith(('INS', 'SELFINS', 'ERASER', 'SWAP')) else 0))
def c13(t):
    q = t == 'quick'
    yield from sv_shards('c13_one', [0, 2, 3, 7] if q else [0, 1, 2, 3, 7, 9], 3 if q else 5)
    for ty, ex, b in ((10, 0, 5), (10, 17, 7), (11, 9, 4)): yield from sv_shards('c13_one', [ty], ex, big=b, w=2)
    if not q: yield from sv_shards('c13_two', [0, 2], 2, w=5)
CHECKS['C13'] = dict(harness='C13.cc', shards=c13, reach=['done'],
    bounds='every state (inline capacity 1..3, heap capacity up to +3, thorough +5, every size) with arbitrary values; every operation at every position, counts up to 4; inline capacity 16 with heap capacity 33 and inline capacity 7 with 16, nearly full, with counts up to 28 at the ends and the middle; thorough: every sequence of two operations', outside='longer sequences beyond the states they reach; larger vectors')
def c14(t):
    q = t == 'quick'
    yield from sv_shards('c14_one', [4, 5, 6] if q else [4, 5, 6, 8], 2 if q else 4)
    yield from sv_shards('c14_one', [12], 1 if q else 4)
    yield from sv_shards('c13_two', [2], 1, w=5, ops=None if not q else {'SWAP', 'MOVEA', 'COPYA', 'SHRINK', 'INSN', 'ERASER', 'RESIZE'})
CHECKS['C14'] = dict(harness='C13.cc', shards=c14, reach=['done', 'boom'],
    bounds='every state (inline capacity 2, heap capacity up to +2, thorough +4) and operation, with an exception at any element construction, copy, assignment or (may-throw types) move; sequences of two operations without failure', outside='two failures in one history')
CHECKS['C15'] = dict(harness='C15.cc', reach=['full', 'partly'],
    shards=lambda t: [sh('c15_hist', k, c, l, weight=c + 4 * l) for k in range(4) for c in range(0 if k > 1 else 1, 5 if t == 'quick' else 6) for l in ((1, 2) if t == 'quick' and c <= 3 else (1,) if t == 'quick' else (1, 2, 3) if c <= 3 else (1, 2))],
    bounds='capacities 0..4 (thorough 5), every rotation and fill state, then every sequence of one or two (thorough: three) operations with arbitrary values', outside='larger capacities; element types other than int; stream output')
CHECKS['C17'] = dict(harness='C17.cc', reach=['bits', 'misc'], shards=lambda t: [sh('c17_bits', k) for k in range(12)] + [sh('c17_misc')],
    bounds='every value and every bit index of all integer types', outside='bit indices outside the type (excluded by the precondition)')
def c18(t):
    q = t == 'quick'
    for k in range(13):
        small = k in (0, 1)
        yield sh('c18_gcd', k, 0 if k == 1 else 127 if k in (0, 11) else 1000 if q else 4000, (16 if k else 10) if q and small else 127 if small else 12 if q else 20, weight=5)
    for k in range(4): yield sh('c18_wide', k)
    for ty in range(8):
        for k, j in ((1, 1), (1, 3), (2, 3), (5, 3), (4, 7)): yield sh('c18_big', ty, k, j, 32 if ty == 5 and k * j < 6 else (8, 8, 16 if k == 1 or not q else 8, 16, 5, 5, 5, 5)[ty] + (0 if q or ty < 4 else 3), weight=4)
CHECKS['C18'] = dict(harness='C18.cc', reach=['gcd', 'zero', 'wide'], shards=c18,
    bounds='every 8-bit argument against every number up to 16 (thorough 127); magnitudes up to 1000 (thorough 4000) against every number up to 12 (thorough 20) for all integer widths and mixed widths of the same signedness; equal numbers, zero and one against every 32/64-bit value; a = k g, b = j g for five coprime pairs k, j: every g of 8 bits, of 16 bits unsigned and (some pairs) 32 bits unsigned, otherwise the 32 (thorough 256) greatest g for which the result is representable', outside='other pairs of two large numbers; arguments or results that are not representable (documented as undefined)')
def c19(t):
    q = t == 'quick'; nm = ['--no-merge', '--no-ite']
    for k in range(9): yield sh('c19_int', k)
    for k in range(7): yield sh('c19_clamp', k)
    for ty, l in ((0, 127), (1, 255), (2, 300), (3, 300), (4, 300), (5, 300), (6, 300)):
        for k in range(8):
            if not q or (ty < 2 and k < 4) or (ty in (3, 4) and k in (1, 2)): yield sh('c19_ord', ty, k, l, weight=4, opts=nm)
    for ty in (0, 1):
        for k in range(8):
            if not q or (k in (1, 2, 3) if ty == 0 else k == 2): yield sh('c19_ordf', ty, k, weight=5, opts=nm)
    for k in (0, 1): yield sh('c19_absf', k, weight=6)
    for u in (0, 1, 2, 3, 5, 1000):
        for kd in (0, 1, 2): yield from [sh('c19_ulp', u, ty, kd, weight=6) for ty in (0, 1) if kd or not u or (ty == 0 and u < 1000)]
CHECKS['C19'] = dict(harness='C19.cc', reach=['near', 'far', 'clamp', 'nan', 'fin', 'inf', 'eq'], shards=c19,
    bounds='within_abs, abs and clamp: every value of every integer type and every bit pattern of float and double; within_orders: every 8-bit value and integer magnitudes up to 300, every float and double, for a fixed list of orders (quick: a part of it); within_ulp: every pair of floats, ulp 0..3 and 5; every pair of doubles of opposite signs or with a special value, also ulp 1000', outside='other orders and ulp counts; doubles of the same sign in within_ulp; long double; the exact threshold of within_ulp between ulp and 4*ulp+2 steps')
CHECKS['C16'] = dict(harness='C16.cc', reach=['elem', 'sub', 'cmp', 'static', 'from'],
    shards=lambda t: [sh('c16_dyn', ty, n, weight=n) for ty in (0, 1, 2) for n in range(0, 5 if t == 'quick' else 9)] + [sh('c16_static'), sh('c16_from')],
    bounds='arrays of 0..4 (thorough 8) arbitrary elements of three types with dynamic extent, every 64-bit offset, count and index within the precondition; static extent 4 and 0 with a list of static offsets and counts; arrays, std::array and std::vector as sources', outside='other static extents; out-of-range arguments (excluded by precondition)')
CHECKS['C20'] = dict(harness='C20.cc', reach=['ext', 'nan', 'empty', 'median', 'sums', 'outliers', 'unique'],
    shards=lambda t: [sh('c20_ext', ty, n, weight=n) for ty in range(6) for n in range(0, (4 if ty in (3, 4) else 5) + (t != 'quick'))] + [sh('c20_med', ty, n, weight=n) for ty in range(5) for n in range(0, 5 if t == 'quick' else 6)] +
        [sh('c20_sums', ty, n, weight=2 * n) for ty in range(5) for n in range(0, 5 if t == 'quick' else 8)] + [sh('c20_out', n, weight=3 * n) for n in range(0, 4)],
    bounds='extremes: up to 4 (thorough 5) arbitrary values of six types incl. NaN and infinities; median: up to 4 (5) values of five types; mean, rms, standard deviation, accumulate: up to 4 (7) arbitrary values of five types, summed in order; outliers: up to 3 values of magnitude 16', outside='larger data sets; other result types; summation in another order')
CHECKS['C21'] = dict(harness='C21.cc', reach=['hist', 'thrown', 'scope', 'kind'],
    shards=lambda t: [sh('c21_hist', n, weight=n) for n in range(1, 5 if t == 'quick' else 6)] + [sh('c21_scope'), sh('c21_kind')],
    bounds='every sequence of up to 4 (thorough 5) creations, moves, move assignments, destructions and exceptions over two finalizer objects and three actions with arbitrary effects; six ways of leaving nested scopes; seven kinds of callables', outside='actions that throw (the destructor is noexcept)')
CHECKS['C22'] = dict(harness='C22.cc', reach=['hist', 'threw', 'rel', 'ref'],
    shards=lambda t: [sh(e, n, f, weight=n * 2) for e in ['c22_int', 'c22_tr', 'c22_thr', 'c22_mo'] for n in ([1, 2] + ([3] if t == 'quick' else [3, 4])) for f in ([0, 1] if e in ('c22_thr', 'c22_mo') else [0])] + [sh('c22_ref', n, weight=n) for n in range(1, 4 if t == 'quick' else 5)] + [sh(e, f) for e in ['c22_rel_int', 'c22_rel_u8'] for f in (0, 1)],
    bounds='every sequence of up to 3 (thorough 4) of 17 operations over two optionals of int, a tracked, a throwing and a move-only type with arbitrary values, with an exception from any element operation of the last step; up to 3 (thorough 4) of 13 operations on optional references; all relational operators for all 32-bit and 8-bit values', outside='longer histories; constexpr evaluation; emplace from a reference to the own value (as in the standard)')
CHECKS['C23'] = dict(harness='C23.cc', reach=['hist', 'threw', 'void', 'misc'],
    shards=lambda t: [sh(e, n, 0, weight=n * 2) for e in ['c23_tt', 'c23_tf', 'c23_ft', 'c23_ff', 'c23_mo'] for n in ([1, 2] if t == 'quick' else [1, 2, 3])] + [sh(e, n, 1, weight=n * 2) for e in ['c23_thrT', 'c23_thrC', 'c23_thrM'] for n in ([1, 2] if t == 'quick' else [1, 2, 3])] + [sh(e, n, weight=n) for e in ['c23_vt', 'c23_vf'] for n in ([1, 2, 3] if t == 'quick' else [1, 2, 3, 4])] + [sh('c23_misc')] + [sh('c23_noexcept', o) for o in range(4)],
    bounds='every sequence of up to 2 (thorough 3) of 22 operations over two expected objects starting from each kind, with trivial, tracked, move-only and throwing value and error types and arbitrary values; an exception from any element operation of the last step; expected<void> up to 3 (4) of 14 operations; comparisons and conversions for all values', outside='longer histories; constexpr evaluation; value and error types that both throw on move (excluded by the interface); emplace of non-movable types that throw')
CHECKS['C24'] = dict(harness='C24.cc', reach=['hist', 'threw', 'valueless', 'rel', 'big', 'strong'],
    shards=lambda t: [sh(e, n, f, weight=n * 2) for e in ['c24_triv', 'c24_mix', 'c24_thr', 'c24_mo'] for n in ([1, 2] if t == 'quick' else [1, 2, 3]) for f in ([0, 1] + ([2] if n == 2 else []) if e in ('c24_thr', 'c24_mo') else [0])] + [sh('c24_rel'), sh('c24_big')],
    bounds='every sequence of up to 2 (thorough 3) of 14 operations over two variants with every choice of alternative (trivial, tracked, move-only and throwing types) and arbitrary values, with exceptions from any element operation of the last one or two steps; relational operators and visiting of two variants for all values including valueless ones; a variant of 40 alternatives', outside='longer histories; constexpr evaluation; more than two variants visited at once')
def c25(t):
    q = t == 'quick'
    for m in range(12): yield from [sh('c25_succ', m, k, n, weight=10) for n in [8 if m == 11 else 1] for k in range(n)]; yield sh('c25_arith', m, weight=2)
    for m in (1, 11) if q else range(12): yield sh('c25_ymadd', m, 12000 if q else 786420, weight=20)
    for era in (-82, -81, -5, -1, 0, 3, 4, 5, 40, 81) if q else range(-82, 82): yield sh('c25_from', era, weight=6); yield sh('c25_wd', era, weight=4)
    yield sh('c25_weekdays', 1000 if q else 1000000, weight=30)
    for e in ('anchor', 'ok', 'years', 'order', 'hours'): yield sh('c25_' + e)
    for k in range(7): yield sh('c25_rounding', k, 14 if q else 18, weight=15)
    for k in range(4): yield sh('c25_tod', k, (17 if k < 2 else 28) if q else (22 if k < 2 else 31), weight=20)
CHECKS['C25'] = dict(harness='C25.cc', reach=['succ', 'weekday', 'from', 'wd', 'ok', 'ymadd', 'arith', 'years', 'weekdays', 'order', 'rounding', 'tod', 'hours'], shards=c25,
    bounds='date to day count: every day of the years -32767..32767; day count to date, and weekday views: every day of ten (thorough: all 164) 400-year cycles, including the first and last; month arithmetic: every year, every month difference of +-12000 for two months (thorough +-786420, all months), all operators for +-30 months; year arithmetic and comparisons: all values; rounding: 14-bit (thorough 18-bit) magnitudes in seven unit pairs; time of day: 17 to 31-bit magnitudes in four units', outside='formatting and parsing of dates; time zones; floating-point durations; larger counts in the roundings')
def c02(t):
    q = t == 'quick'; st = ['--solver-timeout', '150000']
    for ty in range(3):
        for n in range(0, 6 if q else 8): yield sh('c02_any', ty, n, weight=n * n)
        for n in (4, 6, 8, 9) if q else range(3, 12): yield sh('c02_word', ty, n)
        for n in (19, 20, 21, 40) if q else range(16, 45):
            for pt in (0, 1, 18, 19, 20, n, n + 1) if q else range(0, n + 2): yield sh('c02_long', ty, n, min(pt, n + 1))
        for n in (2, 3, 11, 13) if q else range(0, 15): yield sh('c02_exp', ty, n, weight=30)
        yield sh('c02_value', ty, weight=5)
        top = (2, 5, 51)[ty]
        for e in range(top): yield sh('c02_scale', ty, e, 0); yield sh('c02_scale', ty, e, 1)
        for n, pt, e in [(2, 9, 0), (2, 1, 3), (2, 0, -3)] if q else [(n, pt, e) for n in (2, 3, 4) for pt in (0, 1, 9) for e in (0, 4, -4)]:
            if not q or ty == 0 or e == -3: yield sh('c02_sym', ty, n, pt, e, weight=50 * n, opts=st)
    for n in range(0, 7): yield sh('c02_bool', n)
CHECKS['C02'] = dict(harness='C02.cc', reach=['accepted', 'rejected', 'nan', 'inf', 'value', 'sym', 'bool'], shards=c02,
    bounds='acceptance: every text of up to 5 (thorough 7) bytes, texts of up to 9 (11) bytes beginning like a word, numbers of up to 40 digits with an arbitrary byte anywhere, six mantissas with arbitrary or near-limit exponents; values: every 2-digit (thorough 4-digit) mantissa decided bit-precisely with exponents around 0; three digits in six layouts (also beyond 20 digits), and five mantissas with every exponent up to beyond the range of the type, explored case by case against the correctly rounded value, 4 ulp', outside='longer texts in full generality; the exact rounding (a few ulp are allowed, for long double 20, near its lower limit 32, because only 19 digits are evaluated); exponents beyond int')
def c03_shards(t):
    q = t == 'quick'
    return [sh('c03_escape', n, weight=n * n) for n in range(0, 6 if q else 7)] + [sh('c03_unescape', n, weight=n * n) for n in range(0, 8 if q else 10)] + [sh('c03_round', n, weight=n * n * n) for n in range(0, 5 if q else 6)] + [sh('c03_long', n, w, k, weight=9) for n, w in ((40, 2), (130, 1)) + (() if q else ((270, 2), (40, 4))) for k in (0, 1)]

CHECKS['C03'] = dict(harness='C03.cc', reach=['escape', 'unescape', 'round', 'long'], shards=c03_shards,
    bounds='every byte string: escape up to 5 (6) bytes, unescape up to 7 (9) bytes, unescape(escape(s)) up to 4 (5) bytes; texts of 40 and 130 (270) bytes with one or two (four) arbitrary bytes at the ends, in the middle or at power-of-two borders; the std::regex compiler and executor of the installed libstdc++ headers are encoded, in the classic locale',
    outside='longer strings; locales other than "C"; the compiled half of libstdc++ (locale tables) is modelled in rt/rt_locale.cc')
def c12_shards(t):
    q = t == 'quick'
    r = [sh('c12_forms', ty, n, weight=n) for ty in range(6) for n in ((0, 1, 2, 15, 16, 17, 33) if q else (0, 1, 2, 3, 7, 14, 15, 16, 17, 18, 31, 32, 33, 34, 49))]
    r += [sh('c12_all', ty, n, weight=n * 3) for ty in range(3) for n in range(0, 7 if q else 11)] + [sh('c12_all', ty, n, weight=n * 5) for ty in range(3, 8) for n in range(1, 3 if q else 4)]
    return r + [sh('c12_limit', ty, n, weight=30) for ty in range(2) for n in (15999, 16000, 16001, 16016)]

CHECKS['C12'] = dict(harness='C12.cc', reach=['dump', 'one', 'limit'], shards=c12_shards, 
    bounds='ranges of 0, 1, 2, 15, 16, 17 and 33 elements of six integer types, the position of one or two arbitrary elements, the prompt and the form (pointers, vector, list, stream, temporary, copied and moved stream objects) explored exhaustively; all elements arbitrary for up to 6 bytes or 2 wider elements (thorough: 10 / 3); 15999..16016 elements with arbitrary values around the limit',
    outside='more arbitrary elements at once; streams whose format flags were changed before; prompts longer than 7 characters; the classic locale is modelled in rt/rt_locale.cc')
def c26_shards(t):
    q = t == 'quick'
    T = ['--no-atomic-points', '--preempt', '3'] + ([] if q else ['--preempt', '4', '--spurious', '2'])
    r = [sh('c26_seq', n, weight=n) for n in range(0, 4 if q else 5)] + [sh('c26_wait', n, k, weight=9, opts=T) for n, k in ((1, 0), (1, 1), (1, 2), (2, 0), (2, 1)) + (() if q else ((1, 3), (2, 2), (3, 0)))]
    r += [sh(e, weight=9, opts=T) for e in ('c26_timed', 'c26_mixed', 'c26_two')]
    if not q: r += [sh('c26_two', weight=9, samples=0), sh('c26_wait', 1, 1, weight=9, samples=0), sh('c26_wait', 2, 0, weight=9, samples=0)]
    return r

CHECKS['C26'] = dict(harness='C26.cc', reach=['seq', 'wait', 'timed', 'two', 'mixed'], shards=c26_shards, threads=True, engine_replay=True,
    bounds='every interleaving with at most 3 (4) preemptive switches and 1 (2) spurious wake-ups of up to 2 (3) waiting threads against up to 3 operations by one or two other threads; arbitrary timeouts from -1 s to 1 h, deadlines that never come, arbitrary progress of the clock (any forward step that stays below 2^62 ns); sequences of up to 3 (4) operations by one thread; the thread choice at every lock, wait, notification, join and sleep is a symbolic variable',
    outside='more threads or switches; weak memory effects beyond data races (races are reported by vector clocks); destroying a trigger while others wait for it; timeouts that overflow the clock')
def c30_shards(t):
    T = ['--no-atomic-points'] + ([] if t == 'quick' else ['--preempt', '3', '--spurious', '2'])
    return [sh('c30_sleep', u) for u in range(8)] + [sh('c30_trigger', u) for u in range(4)] + [sh('c30_atonce'), sh('c30_tic')] + [sh('c30_cut', u, opts=T, weight=3) for u in range(4)] + [sh('c30_woken', opts=T)] + [sh('c30_toc', u) for u in range(9)]

CHECKS['C30'] = dict(harness='C30.cc', reach=['sleep', 'trigger', 'atonce', 'cut', 'woken', 'toc', 'tic'], shards=c30_shards, threads=True, engine_replay=True,
    bounds='sleep without and with a trigger: every count up to 10^12 ns, 10^9 us, 10^6 ms, 10^5 s, 10^3 min, 3 h in either sign and nine floating-point amounts, arbitrary progress of the clock (any forward step that stays below 2^62 ns) and spurious wake-ups; a trigger set before, during (every interleaving with up to 2 (3) preemptive switches) or never; elapsed time: every difference up to 2^50 ns in six integer units, nine differences in three floating-point units',
    outside='durations that overflow the clock or are below its resolution (floating-point fractions of a nanosecond); real time: the clock is a model that only moves forward')
def thr(p, spur=1): return ['--no-atomic-points', '--preempt', str(p)] + ([] if spur == 1 else ['--spurious', str(spur)])
def c27_shards(t):
    q = t == 'quick'; P, L = thr(2 if q else 3), thr(1 if q else 2)
    r = [sh('c27_run', 1, n, 0, k, opts=P) for n in range(1, 4 if q else 5) for k in (range(8) if n > 1 else range(4))]
    r += [sh('c27_run', 2, 2, s, k, opts=P, weight=9) for s, k in ((0, 0), (1, 6), (0, 3), (1, 1))] + [sh('c27_run', 2, 3, 1, 5, opts=P, weight=20), sh('c27_run', 3, 2, 1, 2, opts=L, weight=20)]
    r += [sh('c27_delay', 1, 1, 0, c, opts=P) for c in (1, 2)] + [sh('c27_delay', 1, 2, 0, c, opts=L, weight=9) for c in range(1, 9)] + [sh('c27_delay', 2, 1, s, c, opts=P, weight=9) for s in (0, 1) for c in (1, 2)] + [sh('c27_delay', 2, 2, 1, c, opts=thr(0 if q else 1), weight=30) for c in (1, 3, 8)]
    r += [sh('c27_two', 1, 0, opts=P), sh('c27_two', 2, 1, opts=L, weight=20)] + [sh('c27_full', c, opts=P) for c in (1, 2) + (() if q else (3, 4))]
    r += [sh('c27_capacity', 1, 1, 3, 0, opts=P), sh('c27_capacity', 1, 2, 4, 0, opts=P), sh('c27_capacity', 2, 1, 3, 1, opts=P, weight=9)]
    r += [sh('c27_nested', 1, 0, l, opts=P) for l in (0, 1)] + [sh('c27_nested', 2, s, l, opts=P, weight=9) for s, l in ((0, 0), (1, 1))] + [sh('c27_progress', 2, s, l, opts=P, weight=20) for s, l in ((0, 0), (1, 1), (1, 2))]
    r += [sh('c27_queue', n, l, c, opts=L if q else P, weight=3) for n, l, c in [(3, 0, c) for c in range(2, 16, 2)] + [(3, l, c) for l in (2, 4, 8, 6, 10, 12) for c in (0, 2)] + [(4, 0, 2), (4, 0, 4), (4, 10, 8)] + ([] if q else [(4, l, c) for l in (4, 6, 20) for c in (2, 6, 8)])]
    r += [sh(e, opts=P) for e in ('c27_void', 'c27_args', 'c27_capture')]
    if not q: r += [sh('c27_run', 1, 1, 0, k, opts=['--preempt', '2'], samples=0, weight=30) for k in (0, 2)] + [sh('c27_two', 1, 0, opts=['--preempt', '1'], samples=0, weight=30)]
    return r

CHECKS['C27'] = dict(harness='C27.cc', reach=['run', 'delay', 'two', 'capacity', 'full', 'queue', 'nested', 'progress', 'void', 'args', 'capture'], shards=c27_shards, threads=True, engine_replay=True,
    bounds='every interleaving with at most 2 (3) preemptive switches (1 (2) for two delayed tasks, three workers or two submitting threads with two workers) and 1 spurious wake-up of up to 3 workers and up to 3 (4) tasks in all documented forms of submission; arbitrary delays of 0 to 1 h and start times in the past; arbitrary progress of the clock; capacities 1 and 2 (4); a queue of 3 or 4 tasks with two start times behind a busy worker, of which any are cancelled; tasks that submit, wait for other tasks or hold objects using the pool',
    outside='more workers, tasks or switches; weak memory effects beyond data races (races are reported by vector clocks); delays that overflow the clock; signal masks')
def c28_shards(t):
    q = t == 'quick'; P, L = thr(3 if q else 5), thr(2 if q else 3)
    r = [sh('c28_single', 1, 2, c, 0, opts=P) for c in range(16)] + [sh('c28_single', 1, 3, c, 0, opts=P) for c in range(64)] + [sh('c28_single', 1, 2, c, 1, opts=L) for c in range(16)] + [sh('c28_single', 2, 1, c, 0, opts=L, weight=9) for c in range(4)] + [sh('c28_single', 2, 2, c, 0, opts=L, weight=9) for c in (0, 2, 8, 10)]
    if not q: r += [sh('c28_single', 1, 4, c, 0, opts=P) for c in range(256)] + [sh('c28_single', 1, 3, c, 1, opts=L) for c in range(64)]
    r += [sh('c28_pool', 1, n, l, opts=P, weight=5 * n) for n in (1, 2) + (() if q else (3,)) for l in (0, 1)] + [sh('c28_pool', 2, 2, 0, opts=L, weight=20)]
    r += [sh('c28_many', n, opts=L) for n in (1, 2) + (() if q else (3,))] + [sh('c28_watch', 1, n, l, opts=P, weight=9) for n in (1, 2) + (() if q else (3,)) for l in (0, 1)] + [sh('c28_watch', 2, 1, 0, opts=L, weight=9), sh('c28_inside', 1, opts=P), sh('c28_inside', 2, opts=L, weight=9), sh('c28_empty', opts=P)]
    if not q: r += [sh('c28_single', 1, 2, c, 0, opts=['--preempt', '2'], samples=0, weight=9) for c in range(16)]
    return r

CHECKS['C28'] = dict(harness='C28.cc', reach=['single', 'pool', 'many', 'watch', 'inside', 'empty'], shards=c28_shards, threads=True, engine_replay=True,
    bounds='every sequence of up to 3 (4) operations (state, completeness, cancellation, result) on the handle of a task, cancellation through the pool with up to 2 (3) tasks, a second observing thread, tasks inspecting and cancelling themselves: every interleaving with 1 worker with at most 3 (5) preemptive switches, with 2 workers at most 2 (3), and 1 spurious wake-up; arbitrary values, start delays of 0 to 1 h and progress of the clock',
    outside='more workers, tasks or switches; one handle used by several threads at once; weak memory effects beyond data races')
def c29_shards(t):
    q = t == 'quick'; P, L = thr(4 if q else 6), thr(2 if q else 3)
    r = [sh('c29_plain', 1, n, m, opts=P) for n in range(0, 3 if q else 4) for m in range(4)] + [sh('c29_plain', 2, n, m, opts=L, weight=9) for n in (0, 1, 2) for m in range(4)]
    r += [sh('c29_idle', 1, opts=P), sh('c29_idle', 2, opts=L, weight=20)] + [sh('c29_query', 1, k, opts=P) for k in range(3)] + [sh('c29_query', 2, k, opts=L, weight=9) for k in range(3)]
    r += [sh('c29_owner', 1, k, opts=P) for k in (0, 1)] + [sh('c29_owner', 2, k, opts=L, weight=9) for k in (0, 1)] + [sh('c29_give', 1, opts=P), sh('c29_give', 2, opts=L, weight=9), sh('c29_handle', 1, opts=P), sh('c29_handle', 2, opts=L, weight=9)]
    r += [sh('c29_two', 1, k, opts=P, weight=3) for k in range(3)] + [sh('c29_two', 2, k, opts=thr(1 if q else 2), weight=9) for k in range(3)] + [sh('c29_fail', 1, opts=P), sh('c29_fail', 2, opts=L, weight=3)]
    r += [sh('c29_owner', 1, 0, opts=['--preempt', '2'], samples=0, weight=9), sh('c29_plain', 1, 1, 0, opts=['--preempt', '2'], samples=0, weight=9)]
    if not q: r += [sh('c29_give', 1, opts=['--preempt', '2'], samples=0, weight=9), sh('c29_handle', 1, opts=['--preempt', '2'], samples=0, weight=9), sh('c29_fail', 3, opts=thr(1), weight=9)]
    return r

CHECKS['C29'] = dict(harness='C29.cc', reach=['plain', 'idle', 'query', 'owner', 'give', 'handle', 'two', 'fail'], shards=c29_shards, threads=True, engine_replay=True,
    bounds='destruction at every moment of an interleaving with at most 4 (6) preemptive switches for 1 worker, 2 (3) for 2 workers, and 1 spurious wake-up, with up to 2 (3) tasks that are pending, delayed (0 to 1 h, or for ever), running, finished or throwing; tasks that query, extend or own the pool; handles used after and during destruction; two owners in two threads; failure to start any of the workers; the heap must be as before at the end (the pool is freed and the workers joined)',
    outside='more workers, tasks or switches; weak memory effects beyond data races; the end of the process while a detached destruction is still going on')
def c31_shards(t):
    q = t == 'quick'; ops = [o for o in SV_OPS if o not in ('AT', 'EQ')]
    r = list(sv_shards('c31_vec', [0] if q else [0, 1], 2 if q else 4, ops=ops))
    r += [sh('c31_slide', c, o, weight=c) for c in range(0, 4 if q else 6) for o in range(5)]
    r += [sh('c31_text', f) for f in range(19)] + [sh('c31_median')] + [sh('c31_types', k) for k in range(5)]
    return r
CHECKS['C31'] = dict(harness='C31.cc', reach=['vec', 'vecfail', 'slide', 'slidefail', 'text', 'textfail', 'stat', 'statfail', 'types', 'typefail'], shards=c31_shards,
    bounds='one failing allocation (the n-th for every n < 256), or all from there on, per operation: small vectors with inline capacity 2 (thorough also 1), heap capacity up to +2 (+4), every size and operation; sliding buffers with capacity up to 3 (5), every rotation and fill state, resized to up to 5, copied and assigned; 19 text functions with fixed texts longer than the inline string storage; median; optional, expected and variant of strings',
    outside='small vectors of elements with noexcept copying (their copy operations are noexcept by design); hexdump and other stream output (streams swallow the exception); failures while an exception is being created; functions declared noexcept')
def c32_shards(t):
    q = t == 'quick'; P, L = thr(3 if q else 5), thr(2 if q else 3)
    r = [sh('c32_make', 1, 0, 0, s, opts=P) for s in (0, 1)] + [sh('c32_make', 2, 0, 0, s, opts=L, weight=5) for s in (0, 1)]
    r += [sh('c32_add', 1, k, b, s, opts=P, weight=3 + 3 * b) for k in range(3) for b in (0, 1) for s in (0, 1)] + [sh('c32_add', 2, 1, 1, s, opts=L, weight=9) for s in (0, 1)]
    r += [sh('c32_run', n, 1, c, s, opts=P, weight=3) for n in (1, 2, 3) for c in (0,) for s in (0, 1)] + [sh('c32_run', 2, 2, 0, s, opts=L, weight=9) for s in (0, 1)]
    r += [sh('c32_task', 0, 0, 0, s, opts=P) for s in (0, 1)] + [sh('c32_names', k, 0, 0, s, opts=P) for k in (0, 1) for s in (0, 1)] + [sh('c32_trigger', opts=P)]
    return r
CHECKS['C32'] = dict(harness='C32.cc', reach=['make', 'makefail', 'add', 'addfail', 'run', 'task', 'taskfail', 'names', 'namesfail', 'trigger'], shards=c32_shards, threads=True, engine_replay=True,
    bounds='one failing allocation (the n-th for every n < 256), or all from there on: creation of pools with 1 or 2 workers, submission in three forms with and without a running task, execution of up to 3 tasks, name queries, a task running out of memory itself; every interleaving with at most 3 (5) preemptive switches for 1 worker, 2 (3) for 2 workers, and 1 spurious wake-up',
    outside='more workers, tasks or switches; cancelling and destroying pending tasks without memory (std::packaged_task itself terminates when it cannot store the broken promise)')
NOT_APPLICABLE = {}
