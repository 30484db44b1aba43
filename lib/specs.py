"""The explorations that decide each property.  Docstring: technique | note (for MANIFEST.json)."""
from vlib import *
M_KEY, M_SIGN, M_RT, M_SIZE, M_NODES, M_RNG, M_CHAL, M_PURE = (1 << i for i in range(8))
IMPLS = ('ref', 'avx2', 'neon')
LEN_SET = {1: '1i', 3: '3s', 5: '5s'}      # representative sets per category

def small(impl, ps, T, W, flavour='o2', **kw):
    """small code, small number of rounds, this set's category and number of key pairs"""
    n, k = SMALL[SETS[ps][0]]
    return Config(impl, ps, flavour, N=n, K=k, T=T, W=W, **kw)
def fewrounds(impl, ps, T=3, W=1, flavour='rel', **kw):
    """full code, few rounds"""
    return Config(impl, ps, flavour, T=T, W=W, **kw)
def manyrounds(impl, ps, flavour='o2', **kw):
    """small code, full number of rounds"""
    n, k = SMALL[SETS[ps][0]]
    return Config(impl, ps, flavour, N=n, K=k, **kw)
def impls(c):
    return IMPLS

def reals(c, args):
    for impl, sets in (('ref', ('1b', '1i')), ('avx2', ('1s', '3b', '5s'))):
        for ps in SETS if c.thorough else sets:
            c.job('h_scheme.cpp', Config(impl, ps, 'rel'), ['real'] + args + [2 if c.thorough else 1], cpu=300, bounds='unmodified parameters and hash')
def families(c, impl, mon, name='families'):
    for ps in ('1b', '3s', '5s'):
        st = 1 if c.thorough else {'1b': 1, '3s': 2, '5s': 5}[ps]*(2 if impl == 'ref' else 1)
        c.job('h_scheme.cpp', fewrounds(impl, ps), [name, mon, st], bounds=f'structured codes, secrets and ephemerals at full N, K (every {st}th)', shards=3)

def stride(c, ps):
    return 1 if c.thorough else {1: 3, 3: 12, 5: 33}[SETS[ps][0]]

def P01(c):
    """explicit enumeration of challenge outcomes, message lengths and random streams on the compiled implementation under a programmed random oracle
    | all challenge vectors for small numbers of rounds; at the real number of rounds every attainable published-seed count (thorough; strided with both ends in quick) and structured extremes; full-size structured codes; the hash is replaced by an independent Keccak whose outputs can be programmed"""
    c.assumptions += ['small builds override N, K, T, W, NUM_KEYPAIRS on the command line and keep the alignment classes of the real sets', 'NEON intrinsics are emulated']
    for impl in ('ref', 'avx2'):
        c.job('h_scheme.cpp', small(impl, '1b', 5, 2), ['huge', M_RT], cpu=200, bounds='messages longer than 2^31 and 2^32 bytes')
    reals(c, [M_RT])
    for impl in IMPLS:
        families(c, impl, M_RT)
        for ps in SETS:
            c.job('h_scheme.cpp', small(impl, ps, 7, 3), ['challenges', M_RT], bounds='every challenge vector, T=7 W=3, both placement orders', shards=4 if ps == '1s' else 1)
            if impl != 'neon' or c.thorough:
                c.job('h_scheme.cpp', manyrounds(impl, ps), ['counts', M_RT, stride(c, ps)], bounds='published-seed counts at the real T, W', shards=4 if SETS[ps][0] > 1 else 2)
        for ps in ('1b', '3s', '5s'):
            c.job('h_scheme.cpp', small(impl, ps, 5, 2), ['lengths', M_RT], bounds='every message length below 300 and around powers of two')
        for T, W in ((5, 2), (6, 1), (9, 3), (12, 2)) + (((9, 4), (10, 5), (13, 3), (17, 3), (33, 2)) if c.thorough else ()):
            c.job('h_scheme.cpp', small(impl, '1b', T, W), ['challenges', M_RT], bounds=f'every challenge vector, T={T} W={W}', shards=2)

def P05(c):
    """explicit enumeration of structured random streams driven through key generation on the compiled implementation, each compared with an executable model of the specification
    | structured codes and secrets (all pivot positions by rotation, prefixes, sparse, equal columns, rejection patterns) at full N and K, plus small codes; model and code read the same programmed random oracle"""
    for impl in IMPLS:
        for ps in SETS:
            k = SETS[ps][0]
            if c.thorough or impl != 'neon' or ps in ('1b', '3b', '5b'):
                c.job('h_scheme.cpp', small(impl, ps, 5, 2), ['keys', M_KEY | M_RNG | M_SIZE | M_PURE], bounds='small codes', shards=1)
            if c.thorough or ps in ('1s', '3b', '5b'):
                c.job('h_scheme.cpp', fewrounds(impl, ps), ['keys', M_KEY | M_RNG | M_SIZE | M_PURE], bounds='full N, K', shards=4 if k < 5 else 6)

def P06(c):
    """explicit enumeration of challenge outcomes, streams and messages driven through signing on the compiled implementation, each compared byte for byte with an executable model of the specification
    | all challenge vectors for small T; seed counts and structured challenges at the real T; structured codes at full size; unmodified parameters with the repository's own hash"""
    M = M_SIGN | M_PURE | M_SIZE
    for impl in ('ref', 'avx2'):
        for ps in ('1b', '3s', '5s') if c.thorough else ('1b',):
            c.job('h_scheme.cpp', small(impl, ps, 5, 2), ['huge', M_SIGN], cpu=300, bounds='a message longer than 2^32 bytes')
    reals(c, [M | M_KEY])
    for impl in IMPLS:
        families(c, impl, M)
        for ps in SETS:
            c.job('h_scheme.cpp', small(impl, ps, 7, 3), ['challenges', M], bounds='every challenge vector, T=7 W=3', shards=4 if ps == '1s' else 1)
            if (impl != 'neon' and SETS[ps][0] < 5) or c.thorough:
                c.job('h_scheme.cpp', manyrounds(impl, ps), ['bigT', M], bounds='structured challenges at the real T, W', shards=3)
        for ps in ('1b', '3s', '5s'):
            c.job('h_scheme.cpp', small(impl, ps, 5, 2), ['lengths', M], bounds='every message length below 300 and around powers of two')
        for T, W in ((5, 2), (6, 1), (9, 3)) + (((9, 4), (12, 3), (17, 2), (33, 2)) if c.thorough else ()):
            c.job('h_scheme.cpp', small(impl, '1b', T, W), ['challenges', M], bounds=f'every challenge vector, T={T} W={W}')

def P09(c):
    """explicit enumeration of every attainable number of published seeds (exact dynamic programming over the tree, one concrete challenge per number driven through the implementation)
    | sizes: all attainable numbers are enumerated for all 7 sets; signing and opening are run on every one in the thorough tier and on a stride including both ends in quick"""
    M = M_RT | M_SIZE
    for impl in IMPLS:
        for ps in SETS:
            if impl != 'neon' or c.thorough:
                c.job('h_scheme.cpp', manyrounds(impl, ps), ['counts', M, stride(c, ps)], bounds='published-seed counts at the real T, W', shards=4 if SETS[ps][0] > 1 else 2)
            c.job('h_scheme.cpp', small(impl, ps, 7, 3), ['challenges', M | M_NODES], bounds='every challenge vector, T=7 W=3', shards=4 if ps == '1s' else 1)


# ---------------------------------------------------------------- opening
def every(n):
    return {'H_EVERY': str(n)}
OPEN = 'h_open.cpp'
KJ = {'H_JUDGE': 'key'}
def AJ(n):
    return {'H_JUDGE': 'action', **every(n)}

def P02(c):
    """explicit enumeration of alterations and programmed-oracle forgeries driven through opening on the compiled implementation, verdict compared with an executable model of the specified verifier
    | every bit of honest signed messages of small builds and of short-round full-size builds (strided in quick, all byte values in thorough), every exchange/cut/extension, every challenge with forged responses; the model re-derives the verdict from the decoded meaning"""
    for impl in ('ref', 'avx2'):
        c.job('h_scheme.cpp', small(impl, '1b', 5, 2), ['huge', M_RT], cpu=200, bounds='messages longer than 2^31 and 2^32 bytes')
    c.assumptions += ['rejection is checked against the executable model; digest collisions are outside the explored space']
    for impl in IMPLS:
        for ps in SETS:
            cat = SETS[ps][0]
            c.job(OPEN, small(impl, ps, 7, 3), ['tamper', 3 if cat == 1 else 1, 1] + (['all'] if c.thorough else []), bounds='every bit of every part, exchanges, cuts, extensions; T=7 W=3', shards=2 if cat == 1 else 3,
                  env=every(3 if cat == 5 and impl == 'neon' and not c.thorough else 1))
            c.job(OPEN, small(impl, ps, 7, 3), ['forge', 2 if c.thorough or ps == '1b' else 1], env=every(1 if c.thorough or ps != '1s' else 7), bounds='a programmed signature for every challenge, and one with a wrong digest')
        for ps in ('1b', '1s', '3s', '5s'):
            c.job(OPEN, small(impl, ps, 5, 5), ['tamper', 2 if ps != '5s' or c.thorough else 1, 1], env=every(1 if c.thorough or ps != '5s' else 3), bounds='every round hidden: salt and message enter only through the hash; T=W=5')
        c.job(OPEN, small(impl, '5s', 5, 2), ['longmsg'], bounds='long messages, bits at block and power-of-two boundaries', shards=2)
        c.job(OPEN, small(impl, '1b', 5, 2), ['longmsg'], bounds='long messages, bits at block and power-of-two boundaries')
        c.job(OPEN, fewrounds(impl, '1b'), ['tamper', 1, 1], env=every({'ref': 31, 'avx2': 7, 'neon': 67}[impl] if not c.thorough else 1), bounds='full N, K; strided', shards=3)
        if impl != 'ref' or c.thorough:
            for ps in ('3s', '5b'):
                c.job(OPEN, fewrounds(impl, ps), ['tamper', 1, 1], env=every({'3s': 83, '5b': 199}[ps]*(4 if impl == 'neon' else 1) if not c.thorough else 5), bounds='full N, K; strided', shards=3)
    for ps in ('1b', '1s', '3b', '5s'):
        c.job(OPEN, manyrounds('avx2', ps), ['tamper', 1, 1], env=every({'1b': 199, '1s': 199, '3b': 4001, '5s': 6007}[ps] if not c.thorough else 61), bounds='full T, W; strided', shards=3)

def P03(c):
    """explicit enumeration of byte strings of every length given as signed messages, executed under address and undefined-behaviour sanitizers in exact-size heap blocks with a CPU limit per execution
    | every length up to the maximum plus margin for small builds, structured and pseudo-random fillings, every count byte, every cut; strided lengths at unmodified parameters; acceptance of short or ill-fitting input excluded"""
    for impl in IMPLS:
        for ps in SETS:
            c.job(OPEN, small(impl, ps, 7, 3, 'asan'), ['bytes'], env={'H_EXACT': '1', 'H_JUDGE': 'mem'}, bounds='every length, T=7 W=3', shards=2)
            big = SETS[ps][0] == 5
            if impl != 'neon' or c.thorough:
                c.job(OPEN, Config(impl, ps, 'asan'), ['sizes', 61 if c.thorough else 977 if not big else 3001], env={'H_EXACT': '1', 'H_JUDGE': 'mem', **every(1 if not (big and impl == 'ref') or c.thorough else 3)}, cpu=400, bounds='lengths and count bytes at unmodified parameters', shards=3)
        for T, W in ((1, 1), (2, 1), (2, 2), (5, 5), (8, 3), (9, 1)):
            c.job(OPEN, small(impl, '1b', T, W, 'asan'), ['bytes'], env={'H_EXACT': '1', 'H_JUDGE': 'mem', **every(1 if c.thorough else 3)}, bounds=f'every length, T={T} W={W}')
        c.job(OPEN, small(impl, '1s', 7, 3, 'asan'), ['tamper', 1, 1], env={'H_EXACT': '1', 'H_JUDGE': 'mem'}, bounds='every bit of an honest signed message', shards=2)

def P04(c):
    """explicit enumeration of malformed public keys (every bit, every flag weight, every out-of-field entry) driven through opening with honest, adapted and forged signatures, under sanitizers, verdict compared with an executable model
    | small builds exhaustively, full-size builds strided; the forger programs the random oracle so that only the key check can reject"""
    for impl in IMPLS:
        for ps in SETS:
            cat = SETS[ps][0]
            n = 1 if c.thorough else {'1b': 1, '1i': 7, '1s': 13}.get(ps, {3: 11, 5: 37}.get(cat))*(2 if impl == 'neon' else 1)
            c.job(OPEN, small(impl, ps, 7, 3, 'asan'), ['keys', 7 if cat > 1 else 3], env={'H_EXACT': '1', **KJ, **every(n)}, bounds='malformed keys, T=7 W=3, sanitizers', shards=2)
            if ps in ('1b', '1s', '3s', '5b') and impl != 'neon':
                c.job(OPEN, small(impl, ps, 7, 3, 'zero' if ps != '3s' else 'pat'), ['keys', 7], env={**KJ, **every(3*n if not c.thorough else 1)}, bounds='malformed keys, stack pre-filled')
        if impl != 'neon' or c.thorough:
            c.job(OPEN, fewrounds(impl, '1b'), ['keys', 500], env={**KJ, **every({'ref': 5, 'avx2': 1, 'neon': 7}[impl])}, bounds='full N, K; strided', shards=3)
    for ps in ('3b', '5s'):
        c.job(OPEN, fewrounds('avx2', ps), ['keys', 2000], env={**KJ, **every(1 if c.thorough else 11 if ps == '3b' else 43)}, bounds='full N, K; strided', shards=3)

def P17(c):
    """explicit enumeration of ill-formed responses (every position, every out-of-range value, every repeated pair) inside signatures made by an adaptive forger that programs the random oracle, plus every value through the validity predicate
    | small builds exhaustively; full-size builds strided; predicate exhaustive over positions and values at full size"""
    for impl in IMPLS:
        for ps in SETS:
            cat = SETS[ps][0]
            c.job(OPEN, small(impl, ps, 7, 3), ['badaction', 1 if c.thorough or cat == 1 else 7], env=AJ(1 if c.thorough or cat < 5 else 3), bounds='every ill-formed response, T=7 W=3', shards=2)
            c.job('h_unit.cpp', Config(impl, ps, 'o2'), ['valid', 1 if c.thorough else 3], groups=('VALID',), bounds='validity predicate at full N, K')
        c.job(OPEN, fewrounds(impl, '1b'), ['badaction', 17], env=AJ({'ref': 29, 'avx2': 7, 'neon': 61}[impl] if not c.thorough else 1), bounds='full N, K; strided', shards=3)
        if impl != 'ref' or c.thorough:
            for ps in ('3b', '5s'):
                c.job(OPEN, fewrounds(impl, ps), ['badaction', 37], env=AJ({'3b': 101, '5s': 401}[ps]*(3 if impl == 'neon' else 1) if not c.thorough else 3), bounds='full N, K; strided', shards=3)
    c.job(OPEN, small('avx2', '1s', 198, 17), ['badaction', 7], env=AJ(7), bounds='each of the 17 responses of a full-length signature', shards=2)


# ---------------------------------------------------------------- building blocks
UNIT = 'h_unit.cpp'
CATREP = {1: '1b', 3: '3s', 5: '5b'}
def U(c, cfg, args, groups, bounds, **kw):
    c.job(UNIT, cfg, args, groups=groups, bounds=bounds, **kw)
def t_or(c, t, q):
    return t if c.thorough else q

def P08(c):
    """explicit enumeration of hidden-round sets driven through seed-tree generation, publication and reconstruction on the compiled implementation, compared node by node with an executable model of the tree
    | every hidden set of the prescribed weight for all tree sizes T<=13 (thorough T<=20), structured sets and every attainable seed count at the real T, W; whole signatures for every challenge of small builds are rebuilt from their published seeds only"""
    for impl in IMPLS:
        for ps in ('1b', '3s', '5b'):
            for T in range(1, t_or(c, 17, 12)) if ps == '1b' else (5, 8, 9, 11, 12):
                for W in sorted({1, 2, 3, T//2, T - 1, T} & set(range(1, T + 1))) if ps == '1b' else sorted({1, T//2, T}):
                    if impl == 'neon' and not c.thorough and (T + W) % 3:
                        continue
                    U(c, small(impl, ps, T, W, 'o2'), ['tree_small'], ('TREE',), f'every hidden set, T={T} W={W}')
        if c.thorough:
            for T in (17, 18, 19, 20):
                for W in (1, 4, T//2, T - 2):
                    U(c, small(impl, '1b', T, W, 'o2'), ['tree_small'], ('TREE',), f'every hidden set, T={T} W={W}', shards=2)
        for ps in SETS:
            if impl == 'neon' and not c.thorough:
                continue
            cat = SETS[ps][0]
            U(c, Config(impl, ps, 'o2'), ['tree_full', t_or(c, 3, {1: 5, 3: 23, 5: 41}[cat])], ('TREE',), 'structured hidden sets and every attainable seed count at the real T, W', shards=1 if cat == 1 else 3, env=every(t_or(c, 1, 1 if cat < 5 else 2)))
            U(c, Config(impl, ps, 'o2'), ['tree_gen'], ('TREE',), 'every bit of root seed and salt')
        for ps in ('1b', '3s', '5s'):
            for T, W in ((7, 3), (8, 3), (5, 2)):
                c.job('h_scheme.cpp', small(impl, ps, T, W), ['challenges', M_NODES | M_SIGN], bounds=f'every challenge vector, T={T} W={W}, through signing')
        c.job(OPEN, small(impl, '1s', 7, 3), ['forge', 1], env=every(t_or(c, 1, 7)), bounds='rebuild through opening')
    for ps in ('1i', '1s', '3b'):
        c.job('h_scheme.cpp', manyrounds('ref', ps), ['counts', M_NODES, 5*stride(c, ps)], bounds='published seeds at the real T, W through signing', shards=2)
        c.job('h_scheme.cpp', manyrounds('avx2', ps), ['counts', M_NODES, 7*stride(c, ps)], bounds='published seeds at the real T, W through signing', shards=2)

def P10(c):
    """explicit enumeration of random-stream prefixes (every 16-bit draw, every position and index redrawn, rejection runs) driven through challenge expansion on the compiled implementation; exact counting over all draws for uniformity
    | every draw value at the start and with W-1 rounds placed; with W=1 the number of draws reaching each (round, index) is counted exactly; rejection runs up to 70000 draws"""
    for impl in IMPLS:
        for ps in SETS:
            if impl == 'neon' and ps not in ('1s', '3b', '5s') and not c.thorough:
                continue
            U(c, Config(impl, ps, 'o2'), ['chal', t_or(c, 1, 17)], ('CHAL',), 'every first draw, every redraw, rejection runs, placement orders')
            U(c, Config(impl, ps, 'o2', W=1), ['chal_uniform'], ('CHAL',), 'exact count over all draws of one placement')
        for T, W, ps in ((7, 3, '1s'), (7, 3, '3b'), (7, 3, '5s'), (5, 5, '1i'), (8, 4, '1b'), (9, 2, '1b'), (1, 1, '1b'), (2, 1, '1b'), (16, 2, '3s')):
            c.job('h_scheme.cpp', small(impl, ps, T, W), ['challenges', M_CHAL | M_RT], bounds=f'every challenge vector through signing and opening, T={T} W={W}', shards=2)
            U(c, Config(impl, ps, 'o2', T=T, W=W), ['chal', t_or(c, 1, 5)], ('CHAL',), f'draws for T={T} W={W}')

def P11(c):
    """explicit enumeration of operand pairs over the whole field, in every vector lane, through the scalar functions and through the matrix operations that use the vector steps
    | reduction on every value up to 126*126+126, all 126 inverses, all 127*127 products; every (pivot, value), (factor, value) and (sum) pair in row reduction and every (coefficient, value) pair in column scaling, at the real width and at lane-filling widths"""
    for impl in IMPLS:
        for ps in ('1b', '3s', '5b'):
            U(c, Config(impl, ps, 'o2'), ['scalar'], ('FIELD',), 'all operand pairs')
            n, k = {'1b': (252, 2), '3s': (400, 8), '5b': (548, 2)}[ps]
            if not (impl == 'neon' and ps == '3s') or c.thorough:
                U(c, Config(impl, ps, 'o2', N=n, K=k), ['lanes_rref'], ('RREF',), 'all pairs in every lane of pivot scaling and elimination', shards=2, env=every(1 if c.thorough or ps == '1b' else 3))
            U(c, Config(impl, ps, 'o2'), ['lanes_mul'], ('RREF',), 'all pairs in every lane of column scaling')
            U(c, Config(impl, ps, 'o2'), ['lanes_norm'], ('CANON',), 'all pairs in column normalisation')
            c.job('h_scheme.cpp', small(impl, ps, 5, 2), ['challenges', M_SIGN | M_RT], bounds='through signing and opening')
        c.job('h_scheme.cpp', small(impl, '1b', 5, 2), ['keys', M_KEY], bounds='through key generation')

def P12(c):
    """explicit enumeration of matrices (all small ones over chosen values, structured ones at full size: every pivot placement, every row exchange, every rank) through row reduction on the compiled implementation, compared with an independent elimination
    | all 2x4 over {0,1,2,126}, all 3x5 and 3x6 over {0,1}; full size strided in quick"""
    for impl in IMPLS:
        U(c, Config(impl, '1b', 'o2', N=4, K=2), ['rref_tiny', 0, 1, 2, 126], ('RREF',), 'every 2x4 matrix over four values')
        U(c, Config(impl, '1b', 'o2', N=5, K=3), ['rref_tiny', 0, 1], ('RREF',), 'every 3x5 matrix over two values')
        U(c, Config(impl, '1b', 'o2', N=3, K=2), ['rref_tiny', 0, 1, 2, 3, 63, 126], ('RREF',), 'every 2x3 matrix over six values')
        U(c, Config(impl, '1b', 'o2', N=6, K=3), ['rref_tiny', 0, 1], ('RREF',), 'every 3x6 matrix over two values', shards=2)
        if c.thorough:
            U(c, Config(impl, '1b', 'o2', N=5, K=2), ['rref_tiny', 0, 1, 2, 126], ('RREF',), 'every 2x5 matrix over four values', shards=2)
            U(c, Config(impl, '1b', 'o2', N=4, K=3), ['rref_tiny', 0, 1, 126], ('RREF',), 'every 3x4 matrix over three values', shards=2)
            U(c, Config(impl, '1b', 'o2', N=5, K=4), ['rref_tiny', 0, 1], ('RREF',), 'every 4x5 matrix over two values', shards=4)
        for ps in ('1b', '3s', '5b'):
            n, k = SMALL[SETS[ps][0]]
            U(c, Config(impl, ps, 'o2', N=n, K=k), ['rref_full', 1], ('RREF',), 'structured matrices, few rows', shards=2)
            st = t_or(c, 3, {'1b': 7, '3s': 13, '5b': 23}[ps])
            U(c, Config(impl, ps, 'rel'), ['rref_full', st], ('RREF',), 'structured matrices at full size', shards=4, env=every(t_or(c, 1, {'1b': 1, '3s': 3, '5b': 7}[ps] if impl == 'ref' else 1 if ps != '5b' else 2)))
            if impl == 'avx2' or ps == '1b':
                c.job('h_scheme.cpp', fewrounds(impl, ps), ['keys', M_KEY], bounds='through key generation at full size', shards=2, env=every(t_or(c, 1, {'1b': 3, '3s': 7, '5b': 15}[ps])))

def P13(c):
    """explicit enumeration of codes and monomials through both parties' commitment computation on the compiled implementation, compared with an executable model of the canonical form and with each other
    | every 2x2, 3x3 and 4x4 non-pivot part over chosen values; full-size structured columns (ties, zero columns, first difference in every row, all orders); whole signatures for structured codes"""
    for impl in IMPLS:
        for n, k, v in ((4, 2, (0, 1, 2, 3, 63, 125, 126)), (8, 4, (0, 1)), (6, 3, (0, 1, 2)), (6, 3, (0, 5, 126))):
            U(c, Config(impl, '1b', 'o2', N=n, K=k), ['canon_tiny', *v], ('CANON',), f'every {k}x{n-k} non-pivot part over {v}')
        if c.thorough:
            U(c, Config(impl, '1b', 'o2', N=6, K=3), ['canon_tiny', 0, 1, 2, 126], ('CANON',), 'every 3x3 part over four values', shards=4)
            U(c, Config(impl, '1b', 'o2', N=10, K=5), ['canon_tiny', 0, 1], ('CANON',), 'every 5x5 part over two values', shards=8, env=every(16))
        for ps in ('1b', '3s', '5b'):
            U(c, Config(impl, ps, 'o2'), ['canon_full', t_or(c, 1, {'1b': 2, '3s': 5, '5b': 9}[ps])], ('CANON',), 'structured columns at full size', shards=2)
            st = {'1b': 7, '3s': 29, '5b': 61}[ps] if impl != 'ref' else {'1b': 19, '3s': 151, '5b': 401}[ps]
            U(c, Config(impl, ps, 'rel'), ['prepare', t_or(c, 3, 9)], ('CANON', 'APPLY', 'RREF'), 'both parties at full size', shards=3, env=every(t_or(c, max(1, st//10), st)))
            n, k = SMALL[SETS[ps][0]]
            U(c, Config(impl, ps, 'o2', N=n, K=k), ['prepare', 3], ('CANON', 'APPLY', 'RREF'), 'both parties, small codes', shards=2)
        families(c, impl, M_RT | M_SIGN)

def P14(c):
    """explicit enumeration of pivot patterns, single entries and bits through both codecs on the compiled implementation, compared with an independent codec, between guard bytes at every alignment
    | every pivot set of small codes; full size: runs, gaps, alternations of pivots, every 7-bit value in every cyclic position, every single index and coefficient bit"""
    for impl in IMPLS:
        for ps in ('1b', '3s', '5b'):
            U(c, Config(impl, ps, 'o2'), ['codec_act'], ('ACTCODEC',), 'every bit of a packed response, every index value')
            U(c, Config(impl, ps, 'o2'), ['codec_rref', t_or(c, 2, {'1b': 4, '3s': 7, '5b': 11}[ps])], ('CODEC',), 'pivot patterns and entries at full size', shards=2)
            n, k = SMALL[SETS[ps][0]]
            U(c, Config(impl, ps, 'o2', N=n, K=k), ['codec_rref', 1], ('CODEC',), 'pivot patterns and entries, few rows', env=every(t_or(c, 1, 3)))
            U(c, Config(impl, ps, 'asan'), ['codec_rref', t_or(c, 5, 37)], ('CODEC',), 'under address sanitizer', env=every(t_or(c, 1, 3)))
            U(c, Config(impl, ps, 'asan'), ['codec_act'], ('ACTCODEC',), 'under address sanitizer', env=every(t_or(c, 1, 7)))
        U(c, Config(impl, '1b', 'o2', N=12, K=6), ['codec_tiny'], ('CODEC',), 'every pivot set of a 6 of 12 code')
        U(c, Config(impl, '3b', 'o2', N=16, K=8), ['codec_tiny'], ('CODEC',), 'every pivot set of an 8 of 16 code')
        U(c, Config(impl, '1b', 'o2', N=20, K=10), ['codec_tiny'], ('CODEC',), 'pivot sets of a 10 of 20 code', env=every(t_or(c, 1, 11)), shards=t_or(c, 4, 1))
        for ps in SETS:
            c.job('h_scheme.cpp', small(impl, ps, 5, 2), ['keys', M_KEY | M_SIZE], bounds='packed keys through key generation', env=every(2))
            c.job('h_scheme.cpp', small(impl, ps, 5, 2), ['challenges', M_SIGN | M_RT], bounds='packed responses through signing and opening')

def P15(c):
    """explicit enumeration of random-stream prefixes (every raw value in every field, every rejection pattern, every swap) driven through the samplers on the compiled implementation; exact counting of all outcomes for small sizes
    | the three monomial samplers and the code sampler at full size; every shuffle outcome counted for N=4..7; dependence on every bit of seed, salt and round"""
    for impl in IMPLS:
        for ps in ('1b', '3s', '5b'):
            U(c, Config(impl, ps, 'o2'), ['sampler', t_or(c, 1, 5)], ('SAMPLE',), 'raw values, rejection patterns, swaps, all seed, salt and round bits')
            U(c, Config(impl, ps, 'o2'), ['code_sampler'], ('GEN',), 'raw values and rejections in the code stream', env=every(t_or(c, 1, 2)))
            c.job('h_scheme.cpp', small(impl, ps, 5, 2), ['keys', M_KEY], bounds='through key generation', env=every(2))
            c.job('h_scheme.cpp', small(impl, ps, 6, 2), ['challenges', M_SIGN], bounds='through signing')
        for n in (2, 3, 4, 5, 6) + t_or(c, (7, 8), (7,)):
            U(c, Config(impl, '1b', 'o2', N=n, K=n//2), ['shuffle_tiny'], ('SAMPLE',), f'every shuffle outcome counted, N={n}')

def P16(c):
    """explicit enumeration of monomial matrices (all small ones over chosen values, all pairs and triples) through multiplication, inversion, composition and application on the compiled implementation, compared with full-matrix arithmetic
    | all of N=3 over {1,2,126} with all pairs and a fifth of triples, all of N=4 over {1,126}; structured permutations and every coefficient pair at full size"""
    for impl in IMPLS:
        for n, k, v in ((3, 1, (1, 2, 126)), (3, 2, (1, 126)), (4, 2, (1, 126)), (4, 2, (1, 5)), (2, 1, (1, 2, 3, 63, 64, 125, 126))):
            U(c, Config(impl, '1b', 'o2', N=n, K=k), ['alg_tiny', *v], ('MONO', 'ACT', 'RREF'), f'all monomial {n}x{n} matrices over {v}')
        if c.thorough:
            U(c, Config(impl, '1b', 'o2', N=4, K=2), ['alg_tiny', 1, 2, 126], ('MONO', 'ACT', 'RREF'), 'all monomial 4x4 matrices over three values', shards=8)
            U(c, Config(impl, '1b', 'o2', N=5, K=2), ['alg_tiny', 1, 126], ('MONO', 'ACT', 'RREF'), 'all monomial 5x5 matrices over two values', shards=8)
        for ps in ('1b', '3s', '5b'):
            U(c, Config(impl, ps, 'o2'), ['alg_full', t_or(c, 1, 5)], ('MONO', 'ACT', 'RREF'), 'structured permutations, every coefficient pair at full size', shards=2)
            c.job('h_scheme.cpp', small(impl, ps, 6, 3), ['challenges', M_SIGN | M_RT], bounds='through signing and opening')

# ---------------------------------------------------------------- hash
def P18(c):
    """explicit enumeration of input lengths, call patterns and instance interleavings of the repository's hash functions, compared with an independent Keccak that is itself compared with Python's hashlib
    | every transition (block position, length) of absorb and squeeze up to two blocks; every sequence of up to 4 (thorough 5) calls over border sizes; every interleaving of two instances up to 6 (thorough 7) operations including copies; single calls above 2^31 and 2^32 bytes; every pair of alignments"""
    import hashlib
    SH = 'h_sha.cpp'; cfgs = [Config('ref', '1b', 'rel'), Config('avx2', '1b', 'rel'), Config('ref', '1b', 'asan'), Config('avx2', '1b', 'asan'), Config('ref', '1b', 'dbg')]
    if c.thorough:
        cfgs += [Config('neon', '1b', 'rel'), Config('avx2', '1b', 'dbg')]
    for cfg in cfgs:
        fast = cfg.flavour == 'rel'; ev = every(1 if fast or c.thorough else 3)
        c.job(SH, cfg, ['oneshot'], env=ev, bounds='every length below 4 blocks + 9, every single bit, every output length below 3 blocks')
        c.job(SH, cfg, ['splits', 1 if fast or c.thorough else 5], env=ev, bounds='every (block position, length) transition', shards=2)
        c.job(SH, cfg, ['seqs', t_or(c, 5, 4)], env=ev, bounds='every call sequence over border sizes', shards=t_or(c, 4, 1))
        c.job(SH, cfg, ['inter', t_or(c, 7, 6)], env=ev, bounds='every interleaving of two instances with copies', shards=t_or(c, 4, 2))
        c.job(SH, cfg, ['blocks'], env=ev, bounds='block-wise interface, clones'); c.job(SH, cfg, ['align'], env=ev, bounds='every pair of alignments')
    for impl in ('ref', 'avx2'):
        for ps in ('1b', '3b', '5b'):
            c.job(SH, Config(impl, ps, 'rel'), ['stream'], bounds='seeding and dividing the system stream')
        c.job(SH, Config(impl, '1b', 'rel'), ['huge'], env=every(t_or(c, 1, 4)), cpu=900, shards=t_or(c, 7, 2), bounds='single calls above 2^31 and 2^32 bytes')
        c.job('h_scheme.cpp', Config(impl, '1b', 'rel'), ['real', M_RT | M_SIGN, 1], cpu=300, bounds='whole scheme on the repository\'s hash')
    exe = c.pool.link(SH, cfgs[0]).result(); rc, so, se = run([exe, 'dump'], timeout=60); n = 0
    F = {0: lambda m: hashlib.shake_128(m).hexdigest(400), 1: lambda m: hashlib.shake_256(m).hexdigest(400), 2: lambda m: hashlib.sha3_256(m).hexdigest(), 3: lambda m: hashlib.sha3_384(m).hexdigest(), 4: lambda m: hashlib.sha3_512(m).hexdigest()}
    for a, ln, h in re.findall(r'ORACLE (\d+) (\d+) (\S+)', so):
        m = bytes((i*7 + 1) & 255 for i in range(int(ln))); n += 1
        if F[int(a)](m) != h:
            c.harness_errors.append(f'the independent Keccak disagrees with hashlib for function {a}, {ln} bytes')
    if n != 65:
        c.harness_errors.append('oracle validation did not run')
    c.extra['oracle_values_compared_with_hashlib'] = n

# ---------------------------------------------------------------- histories
HIST = 'h_hist.cpp'
REAL = {'H_REAL': '1'}
def P19(c):
    """explicit enumeration of all sequences of operations (17 kinds: key generation, signing and opening with several keys, messages and rejected inputs, with and without reseeding) up to a depth on the compiled implementation, each result compared with an executable model that has no history
    | depth 3 for category-1 and 2 elsewhere in quick (4 and 3 in thorough); all ordered pairs repeated; keys, messages, signatures differing in one bit used in turn; every argument at every alignment; every filling of outputs and stack; builds whose locals start as pattern and as zero"""
    d = t_or(c, 4, 3)
    for impl in IMPLS:
        for ps in ('1b', '3s', '5b'):
            cat = SETS[ps][0]
            if impl == 'neon' and cat == 5 and not c.thorough:
                continue
            for fl in ('o2', 'pat', 'zero') if impl != 'neon' else ('o2',):
                c.job(HIST, small(impl, ps, 7, 3, fl), ['hist', 2 if not c.thorough else 3], bounds='every sequence of operations, T=7 W=3', env=REAL if fl == 'zero' else {})
            if cat == 1 or c.thorough:
                c.job(HIST, small(impl, ps, 5, 2), ['hist', d], bounds='every sequence of operations, T=5 W=2', shards=t_or(c, 8, 2))
            c.job(HIST, small(impl, ps, 5, 2, 'rel'), ['long', t_or(c, 600, 280 if cat == 1 else 64)], bounds='every ordered pair of operations repeated', shards=t_or(c, 4, 1 if cat < 5 else 2))
            if impl != 'neon' or cat == 1 or c.thorough:
                c.job(HIST, small(impl, ps, 5, 2), ['near', t_or(c, 1, {1: 1, 3: 13, 5: 53}[cat])], bounds='arguments that differ in one bit, used in turn', shards=t_or(c, 4, 1))
            c.job(HIST, small(impl, ps, 7, 3, 'rel'), ['place', 1], bounds='every alignment of every argument, every filling', env=every(1 if c.thorough or cat == 1 else 3 if cat == 3 else 7))
    for impl in ('ref', 'avx2'):
        for ps in ('1s', '3b', '5s') if c.thorough else ('1s', '3b'):
            c.job(HIST, fewrounds(impl, ps, flavour='pat' if ps == '1s' else 'rel'), ['hist', 2], bounds='every sequence of operations at full N, K', env=every(t_or(c, 1, {'1s': 1, '3b': 3}[ps]*(2 if impl == 'ref' else 1))), shards=2)
        for ps in SETS if c.thorough else ('1b', '1s') if impl == 'avx2' else ():
            c.job(HIST, Config(impl, ps, 'rel'), ['hist', t_or(c, 2, 1)], bounds='operations at unmodified parameters', cpu=600, shards=t_or(c, 8, 1), env=every(1))

def P24(c):
    """explicit enumeration of every bit of the random bytes an operation draws (flipped one at a time in a programmed stream) and of all sequences of drawing operations, output and stream position compared with an executable model
    | three base streams (pseudo-random, all zero, all one), key generation and signing, alone and after another drawing; sequences up to depth 3; full size strided"""
    for impl in IMPLS:
        for ps in SETS:
            cat = SETS[ps][0]
            st = t_or(c, 1, {1: 1, 3: 5, 5: 17}[cat])
            if impl == 'neon' and ps not in ('1b', '3s', '5b') and not c.thorough:
                continue
            c.job(HIST, small(impl, ps, 5, 2), ['draws', st], bounds='every drawn bit' if st == 1 else f'every {st}th drawn bit')
            c.job(HIST, small(impl, ps, 5, 2), ['hist', 2], bounds='every sequence of operations', env=every(t_or(c, 1, {1: 1, 3: 2, 5: 5}[cat])))
        for ps in ('1b', '3s', '5b'):
            if impl != 'neon' or c.thorough:
                c.job(HIST, fewrounds(impl, ps), ['draws', {'1b': 47, '3s': 197, '5b': 389}[ps] if not c.thorough else 8], bounds='drawn bits at full N, K', shards=2)
            c.job('h_scheme.cpp', small(impl, ps, 6, 2), ['challenges', M_RNG | M_SIGN], bounds='exact amount drawn for every challenge')
        c.job(HIST, small(impl, '1b', 5, 2), ['hist', t_or(c, 4, 3)], bounds='every sequence of operations', env=every(t_or(c, 1, 3)), shards=t_or(c, 8, 1))

# ---------------------------------------------------------------- memory safety of honest operations
XE = {'H_EXACT': '1'}
def P25(c):
    """explicit enumeration of challenge outcomes, published-seed counts, message lengths, alignments, structured keys and histories driven through honest operations of sanitizer builds whose buffers end exactly at the advertised size, and of debug and release builds with guard bytes
    | every challenge of small builds, fewest and most published seeds at the real T and W, every alignment modulo 32; detection is by address and undefined-behaviour sanitizers and guard bytes"""
    M = M_RT | M_SIZE | M_PURE
    def x(n): return {**XE, **every(n)}
    for impl in IMPLS:
        for ps in SETS:
            cat = SETS[ps][0]; q = {1: 1, 3: 1, 5: 1}[cat]*(3 if impl == 'neon' else 1)
            c.job('h_scheme.cpp', small(impl, ps, 7, 3, 'asan'), ['challenges', M], env=x(t_or(c, 1, q*(29 if ps == '1s' else 3 if ps == '1i' else 1))), bounds='every challenge vector, T=7 W=3, sanitizers', shards=t_or(c, 4, 1))
            if c.thorough or (impl, ps) in (('ref', '1b'), ('ref', '1i'), ('ref', '1s'), ('avx2', '1b'), ('avx2', '1i'), ('avx2', '1s'), ('ref', '3s'), ('avx2', '3b'), ('ref', '5s'), ('avx2', '5b')):
                c.job('h_scheme.cpp', manyrounds(impl, ps, 'asan'), ['counts', M, t_or(c, 3, {1: 29, 3: 79, 5: 307}[cat])], env=XE, bounds='published-seed counts at the real T, W, sanitizers', shards=3, cpu=300)
        for ps in ('1b', '3s', '5b'):
            cat = SETS[ps][0]
            if impl != 'neon' or c.thorough:
                c.job('h_hist.cpp', small(impl, ps, 7, 3, 'asan'), ['place', 1], env=x(t_or(c, 1, {1: 3, 3: 13, 5: 29}[cat])), bounds='every alignment of every argument, sanitizers')
                c.job('h_hist.cpp', small(impl, ps, 5, 2, 'asan'), ['hist', 2], env=x(t_or(c, 1, {1: 1, 3: 3, 5: 7}[cat])), bounds='every sequence of operations, sanitizers')
                c.job('h_scheme.cpp', small(impl, ps, 5, 2, 'asan'), ['lengths', M], env=x(1 if cat < 5 or c.thorough else 3), bounds='every message length below 300 and around powers of two, sanitizers')
                c.job('h_scheme.cpp', fewrounds(impl, ps, flavour='asan'), ['families', M, 1], env=x(t_or(c, 5, {1: 17, 3: 71, 5: 149}[cat]*(2 if impl == 'ref' else 1))), bounds='structured codes, secrets and ephemerals at full N, K, sanitizers', shards=2, cpu=300)
                c.job('h_scheme.cpp', fewrounds(impl, ps, flavour='asan'), ['keys', M_SIZE], env=x(t_or(c, 3, {1: 7, 3: 31, 5: 61}[cat]*(2 if impl == 'ref' else 1))), bounds='structured random streams in key generation at full N, K, sanitizers', shards=1, cpu=300)
            c.job('h_scheme.cpp', small(impl, ps, 9, 3, 'dbg'), ['challenges', M], env=every(1 if c.thorough else {1: 1, 3: 5, 5: 3}[cat]), bounds='every challenge vector, T=9 W=3, debug build, guard bytes')
            c.job('h_scheme.cpp', small(impl, ps, 9, 3, 'rel'), ['challenges', M], bounds='every challenge vector, T=9 W=3, release build, guard bytes')
        for T, W in ((1, 1), (2, 1), (2, 2), (3, 3), (4, 1), (5, 5), (8, 3), (15, 1), (16, 2), (17, 2)):
            c.job('h_scheme.cpp', small(impl, '1b', T, W, 'asan'), ['challenges', M], env=XE, bounds=f'every challenge vector, T={T} W={W}, sanitizers')
    for impl in ('ref', 'avx2'):
        for ps in SETS if c.thorough else ('1b', '1s') if impl == 'avx2' else ('1s',):
            c.job('h_scheme.cpp', Config(impl, ps, 'asan'), ['real', M, t_or(c, 2, 1)], env=XE, cpu=600, bounds='unmodified parameters and hash, sanitizers')

# ---------------------------------------------------------------- concurrency
CONC = 'h_conc.cpp'
CWRAP = ['-Wl,--wrap=memcpy,--wrap=memset,--wrap=memmove,--wrap=memcmp', '-pthread']
def P20(c):
    """dynamic partial-order reduction on the compiled implementation: every load and store of an opening is recorded by compiler instrumentation; pairs of openings without conflicting accesses are independent under every interleaving; for conflicting pairs, and at every hash call, schedules with up to two preemptions are enumerated under a baton-passing scheduler
    | 100 ordered pairs of 10 kinds of openings (valid, altered, ill-formed, malformed key, empty message), and every opening of the challenge, structured-code, message-length, forgery, tampering and malformed-key explorations against copies of itself, the 10 kinds and earlier openings with shared writes; small builds, full-size builds and unmodified parameters; schedules at hash calls are enumerated also for three threads in the thorough tier"""
    c.assumptions += ['accesses inside assembly and the C library other than memcpy, memmove, memset, memcmp are not seen by the recording (the enumeration at hash calls covers them)']
    for impl in IMPLS:
        for ps in SETS:
            c.job(CONC, small(impl, ps, 7, 3, 'inst'), ['access', t_or(c, 4000, 400), t_or(c, 120, 16)], ldextra=CWRAP, env=every(1) if ps != '1s' else REAL, bounds='conflicts between recorded accesses; schedules at conflicting accesses')
        for ps in ('1b', '3s', '5b'):
            c.job(CONC, fewrounds(impl, ps, flavour='inst'), ['access', 200, 10], ldextra=CWRAP, env=REAL, bounds='full N, K')
        if impl != 'neon':
            for ps in SETS if c.thorough else ('1i',) if impl == 'avx2' else ():
                c.job(CONC, Config(impl, ps, 'inst'), ['access', 100, 6], ldextra=CWRAP, env=REAL, bounds='unmodified parameters and hash')
        for ps in ('1b', '1s', '3s', '5b') if impl != 'neon' or c.thorough else ('1s',):
            cat = SETS[ps][0]; wide = lambda cfg, what, step, n, **kw: c.job(CONC, cfg, ['wide', what, step], ldextra=CWRAP, env=every(t_or(c, 1, n)), bounds=f'openings of the {what} exploration: shared writes, schedules at conflicts', **kw)
            wide(small(impl, ps, 7, 3, 'inst'), 'challenges', 1, {1: 1 if ps == '1b' else 11, 3: 1, 5: 1}[cat], shards=t_or(c, 4, 1))
            if ps != '1b':
                wide(small(impl, ps, 5, 2, 'inst'), 'tamper', 1, {1: 7, 3: 61, 5: 151}[cat], shards=t_or(c, 4, 1))
                wide(small(impl, ps, 5, 2, 'inst'), 'badaction', 7, {1: 7, 3: 61, 5: 151}[cat])
                wide(small(impl, ps, 5, 2, 'inst'), 'keys', 7, {1: 11, 3: 61, 5: 151}[cat])
                wide(small(impl, ps, 5, 2, 'inst'), 'forge', 1, 1)
                wide(small(impl, ps, 5, 2, 'inst'), 'lengths', 1, {1: 1, 3: 5, 5: 7}[cat])
                wide(fewrounds(impl, ps, flavour='inst'), 'families', 1, {1: 11, 3: 37, 5: 97}[cat]*(3 if impl == 'ref' else 1), shards=t_or(c, 4, 1))
        for ps in ('1b', '3s', '5b') if impl != 'neon' or c.thorough else ('1b',):
            cat = SETS[ps][0]
            c.job(CONC, small(impl, ps, 5, 2, 'o2'), ['hash', t_or(c, 4000, {1: 200, 3: 60, 5: 40}[cat]), t_or(c, 40, 6), t_or(c, 1, 0)], ldextra=CWRAP, env=every(t_or(c, 1, {1: 1, 3: 5, 5: 11}[cat])), bounds='schedules with up to two preemptions at hash calls', shards=t_or(c, 8, 2))

# ---------------------------------------------------------------- interchangeability
def P07(c):
    """explicit enumeration of streams, challenges, structured keys, alterations and histories, each executed by all implementations linked side by side in one program, every output compared byte by byte at every call
    | reference, AVX2 and (emulated) NEON; keys and signatures of one are opened by all; small builds, short-round full-size builds and unmodified parameters with each implementation's own hash"""
    c.assumptions += ['NEON intrinsics are emulated; if the NEON code does not compile under the emulation it is left out and noted']
    def x(h, mk, args, e=1, wrap=True, shards=1, bounds='', cpu=120, impls=IMPLS):
        cf = [mk(i) for i in impls]; env = {'H_CROSS': '1', **every(e)}
        if not wrap:
            env.update(REAL)
        c.exe_job(c.pool.cross(h, cf, wrap), args, 'all ' + cf[0].name()[4:] + ' ' + ' '.join(map(str, args)) + ('' if wrap else ' own hash'), env=env, shards=shards, cpu=cpu, bounds=bounds, cfgs=cf)
    S, HI = 'h_scheme.cpp', 'h_hist.cpp'
    for ps in SETS:
        cat = SETS[ps][0]; q = lambda a, b, d: 1 if c.thorough else {1: a, 3: b, 5: d}[cat]
        x(S, lambda i: small(i, ps, 7, 3), ['challenges', M_RT], t_or(c, 1, 5 if ps == '1s' else 1), shards=2 if ps == '1s' else 1, bounds='every challenge vector, T=7 W=3')
        x(S, lambda i: small(i, ps, 5, 2), ['keys', 0], q(1, 1, 1), bounds='structured streams through key generation, small codes', shards=2)
        x(S, lambda i: fewrounds(i, ps), ['keys', 0], q(1, 2, 3), bounds='structured streams through key generation at full N, K', shards=t_or(c, 4, 2))
        x(S, lambda i: fewrounds(i, ps), ['families', M_RT, q(7, 11, 19)], bounds='structured codes, secrets and ephemerals at full N, K', shards=t_or(c, 8, 2))
        x(S, lambda i: manyrounds(i, ps), ['counts', M_RT, (1 if cat == 1 else 5) if c.thorough else {1: 7, 3: 37, 5: 101}[cat]], bounds='published-seed counts at the real T, W', shards=t_or(c, 8, 2))
        x(S, lambda i: manyrounds(i, ps), ['bigT', M_RT], q(1, 5, 11), bounds='structured challenges at the real T, W', shards=2)
        x(OPEN, lambda i: small(i, ps, 7, 3), ['tamper', 1, 1], q(1, 2, 5), bounds='every bit, exchange, cut and extension', shards=2)
        x(OPEN, lambda i: small(i, ps, 7, 3), ['badaction', q(3, 7, 7)], q(1, 5, 7), bounds='ill-formed responses', shards=1)
        x(OPEN, lambda i: small(i, ps, 7, 3), ['keys', 7], q(5, 23, 61), bounds='malformed keys', shards=t_or(c, 8, 1))
        x(OPEN, lambda i: small(i, ps, 7, 3), ['bytes'], q(1, 1, 1), bounds='byte strings of every length', shards=2)
        if cat == 1 or c.thorough:
            x(OPEN, lambda i: fewrounds(i, ps), ['tamper', 1, 1], t_or(c, 3, 47), bounds='alterations at full N, K', shards=2)
    for ps in ('1b', '3s', '5b'):
        x(S, lambda i: small(i, ps, 5, 2), ['lengths', M_RT], bounds='every message length below 300 and around powers of two')
        x(HI, lambda i: small(i, ps, 7, 3), ['hist', 2], bounds='every sequence of two operations')
        x(HI, lambda i: small(i, ps, 7, 3), ['hist', t_or(c, 3, 1)], wrap=False, bounds='sequences of operations on each implementation\'s own hash', shards=t_or(c, 8, 1))
        x(OPEN, lambda i: small(i, ps, 5, 2), ['longmsg'], bounds='long messages')
    x(HI, lambda i: small(i, '1b', 5, 2), ['hist', 3], t_or(c, 1, 3), bounds='every sequence of three operations', shards=2)
    for T, W in ((1, 1), (2, 1), (2, 2), (5, 5), (8, 3), (9, 4), (16, 2), (17, 2)):
        x(S, lambda i: small(i, '1b', T, W), ['challenges', M_RT], bounds=f'every challenge vector, T={T} W={W}')
    for ps in SETS if c.thorough else ('1b', '1i', '1s', '3b'):
        x(S, lambda i: Config(i, ps, 'rel'), ['real', M_RT, t_or(c, 3, 1)], wrap=False, cpu=600, bounds='unmodified parameters, each implementation\'s own hash')

# ---------------------------------------------------------------- known-answer generator
def nist_dirs():
    """name, directory of the sources, directory of the header, implementation it is built with"""
    return [('reference', REFDIR + '/lib/nist', REFDIR + '/lib/nist', 'ref'), ('optimized', OPTDIR + '/common/lib/nist', OPTDIR + '/common/lib/nist', 'avx2'),
            ('utilities', REPO + '/Utilities/KAT_Generation/lib', REPO + '/Utilities/KAT_Generation/include', 'ref')]
def P21(c):
    """explicit enumeration of counter values at every carry position, request lengths and request sequences driven through the compiled random source, every byte compared with an independent AES-256 CTR-DRBG
    | all carries (the seed is chosen so that the counter takes any wanted value), all lengths below 100 (thorough 150), all sequences of 4 (thorough 5) requests over border sizes, all divisions of expander requests up to 70 (96) bytes, all maxima up to 40; single requests up to 1 MiB"""
    for name, src, inc, impl in nist_dirs():
        for fl, fx in (('plain', ['-O2']), ('asan', ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'])):
            cc = ['-std=gnu11', '-w', '-I' + inc] + fx; h = tree_hash(src, inc); ld = ['-lcrypto'] + fx[2:]; hx = ['-DHARNESS_ASAN'] if fl == 'asan' else []
            lib = c.pool.compile(src + '/KAT_NIST_rng.c', cc, h); glue = c.pool.compile(HARN + '/glue_kat.c', cc, h + harness_hash())
            env = c.pool.harness_obj('env.cpp', fl, []); ld += ['-Wl,--unresolved-symbols=ignore-all']
            exe = c.pool.program(f'h_kat-{name}-{fl}', [lib, glue, env, c.pool.harness_obj('h_kat.cpp', fl, hx)], ld)
            st = c.pool.program(f'h_katst-{name}-{fl}', [lib, glue, c.pool.compile(HARN + '/glue_katstate.c', cc, h + harness_hash()), env, c.pool.harness_obj('h_kat.cpp', fl, hx + ['-DWITH_STATE'])], ld, optional_objs=True)
            e = XE if fl == 'asan' else {}
            for cmd, x, b in (('drbg', exe, 'counter carries, lengths, sequences, entropy and personalization bits'), ('xof', exe, 'divisions, limits, sequences on two instances'), ('ctr', st, 'block counter carries')):
                c.exe_job(x, [cmd], f'{name} {fl} {cmd}', env={**e, **every(1 if fl == 'plain' or c.thorough else 3)}, bounds=b, cpu=120, shards=t_or(c, 4, 1))

def P22(c):
    """explicit enumeration of request files driven through the generator's own main on the compiled code, every record recomputed from its recorded seed through the library; every short text and marker, every field length and byte value driven through its file reader and writer
    | the generated 100-record files of all three copies for all parameter sets on small codes (and at unmodified parameters for one set, thorough all); request files of our own with every message length below 150 (400) and sequences of records; all texts up to 7 (9) characters over three alphabets with all markers up to 4 (5)"""
    WR = ['-Wl,--wrap=fopen', '-lcrypto']
    for name, src, inc, impl in nist_dirs():
        def prog(cfg, san=False):
            cc = [x for h in ('evp', 'err', 'conf') for x in ('-include', f'openssl/{h}.h')] + cfg.cflags() + ['-I' + inc]; h = tree_hash(src, inc) + impl_hash(cfg.impl)
            objs = c.pool.lib(cfg) + [c.pool.glue(cfg), c.pool.compile(src + '/KAT_NIST_rng.c', cc, h), c.pool.compile(src + '/PQCgenKAT_sign.c', cc + ['-Dmain=kat_main'], h),
                    c.pool.harness_obj('env.cpp', cfg.flavour), c.pool.harness_obj('h_katfile.cpp', cfg.flavour)]
            return c.pool.program(f'h_katfile-{name}-{cfg.name()}', objs, WRAPFLAGS + WR + LINKFLAVOUR.get(cfg.flavour, []))
        def px(cfg, args, jn, **kw):
            c.exe_job(prog(cfg), args, jn, cfgs=(cfg,), **kw)
        im = (impl,) if name != 'utilities' else ('ref', 'avx2')
        for i in im:
            for ps in SETS:
                if name == 'utilities' and not c.thorough and ps not in ('1b', '3s', '5b'):
                    continue
                px(small(i, ps, 5, 2), ['file'], f'{name} {i} {ps} small file', env=REAL if ps in ('1b', '3b') else {}, cpu=120, bounds='generated files, 100 records')
            for ps in ('1b', '3s', '5b') if name != 'utilities' or c.thorough else ('1s',):
                px(small(i, ps, 5, 2), ['requests'], f'{name} {i} {ps} requests', env=every(t_or(c, 1, {1: 1, 3: 5, 5: 9}[SETS[ps][0]])), cpu=120, bounds='request files of every message length below 150, sequences', shards=t_or(c, 4, 1))
            for ps in SETS if c.thorough else ('1i',) if name == 'optimized' else ('1s',) if name == 'reference' else ():
                px(Config(i, ps, 'rel'), ['file'] if c.thorough else ['few'], f'{name} {i} {ps} unmodified', env=REAL, cpu=1200, bounds='unmodified parameters')
        for fl in ('o2', 'asan'):
            x = prog(small(im[0], '1b', 5, 2, fl)); e = XE if fl == 'asan' else {}
            c.exe_job(x, ['hex'], f'{name} {fl} hex', env={**e, **every(t_or(c, 1, 1 if fl == 'o2' else 3))}, cpu=120, bounds='field lengths, byte values, preceding texts, sequences')
            c.exe_job(x, ['find'], f'{name} {fl} find', env={**e, **every(t_or(c, 1, 1 if fl == 'o2' else 5))}, cpu=120, bounds='every short text and marker', shards=t_or(c, 8, 1))
        px(small(im[0], '1s', 5, 2, 'asan'), ['requests'], f'{name} asan requests', env={**XE, **every(t_or(c, 1, 5))}, cpu=120, bounds='request files, sanitizers')

# ---------------------------------------------------------------- benchmark statistics
def P26(c):
    """explicit enumeration of all sample sequences up to a length over representative values driven through the compiled statistics functions, compared with exact integer sums
    | all sequences up to 5 (thorough 7) samples over nine values from -5 to 2^40, all two-valued sequences up to 13 (16), all pairs of sequences up to 3 (4) samples, structured sequences up to 300000 (4000000) samples; tolerance is the rounding bound of the recurrence in long double"""
    for name, d in (('Benchmarking', REPO + '/Utilities/Benchmarking/include'), ('MemoryBenchmarking', REPO + '/Utilities/MemoryBenchmarking/include')):
        for fl, fx in (('O3', ['-O3']), ('O0', ['-O0', '-fsanitize=undefined', '-fno-sanitize-recover=all'])):
            lib = c.pool.compile(HARN + '/glue_stat.c', ['-std=gnu11', '-w', '-I' + d] + fx, tree_hash(d) + harness_hash())
            exe = c.pool.program(f'h_stat-{name}-{fl}', [lib, c.pool.harness_obj('env.cpp', 'o2'), c.pool.harness_obj('h_stat.cpp', 'o2', ['-std=gnu++17'])], ['-lm', '-lquadmath', '-Wl,--unresolved-symbols=ignore-all'] + fx[1:])
            for cmd, b in (('seqs', 'all short sequences'), ('pairs', 't statistics of all pairs of short sequences, long sequences'), ('long', 'structured long sequences'), ('print', 'printed values')):
                c.exe_job(exe, [cmd], f'{name} {fl} {cmd}', bounds=b, cpu=300, shards=t_or(c, 4, 1))

# ---------------------------------------------------------------- parameter script
def P23(c):
    """explicit enumeration of all numbers of rounds and hidden rounds, the script executed on each and compared with the exact worst case over all challenges (dynamic programming over the tree, itself compared with all subsets for small trees and with the number of seeds the compiled signer publishes)
    | all 1 <= hidden <= rounds <= 128 (thorough 300) at three security levels, all multiples of 8 as level for small trees, the real numbers of rounds with all hidden counts up to 64; the compiled constant of each parameter set"""
    import contextlib, io, itertools
    from math import log2, ceil
    path = REPO + '/Utilities/Parameter_Generation_Scripts/seed_tree_param_computer.py'
    code = compile(open(path).read(), path, 'exec'); ran = [0]; bad = []
    def script(t, w, lam):
        old = sys.argv; sys.argv = [path, str(t), str(w), str(lam)]; out = io.StringIO(); ran[0] += 1
        try:
            with contextlib.redirect_stdout(out):
                exec(code, {'__name__': '__main__', '__file__': path})
        except SystemExit as e:
            if e.code not in (None, 0):
                return None, f'exit code {e.code}'
        except Exception as e:
            return None, repr(e)
        finally:
            sys.argv = old
        m = re.findall(r'\d+', out.getvalue())
        return (int(m[-1]), '') if m else (None, out.getvalue())
    NEG = -10**9
    def conv(a, b, lim):
        r = [NEG]*(min(len(a) + len(b) - 1, lim + 1))
        for i, x in enumerate(a[:lim + 1]):
            if x > NEG:
                for j, y in enumerate(b[:lim + 1 - i]):
                    if x + y > r[i + j]:
                        r[i + j] = x + y
        r[0] = 1                       # nothing hidden below this node: the node itself is published
        return r
    perfect = {}
    def full(h, lim):
        if (h, lim) not in perfect:
            perfect[h, lim] = [1, 0] if h == 0 else conv(full(h - 1, lim), full(h - 1, lim), lim)
        return perfect[h, lim]
    def part(h, cap, lim):
        if cap == 0:
            return [1]
        if cap == 1 << h:
            return full(h, lim)
        s = 1 << (h - 1)
        return conv(part(h - 1, min(cap, s), lim), part(h - 1, max(0, cap - s), lim), lim)
    def exact(t, lim):
        return part((t - 1).bit_length(), t, lim)
    def brute(t):
        h = (t - 1).bit_length(); best = [NEG]*(t + 1)
        for m in range(1 << t):
            lv = [bool(m >> i & 1) for i in range(1 << h)]; n = 0       # hidden?
            while len(lv) > 1:
                nx = [lv[i] or lv[i + 1] for i in range(0, len(lv), 2)]
                n += sum(lv[i] != lv[i ^ 1] for i in range(0, len(lv), 2)); lv = nx
            if not lv[0]:
                n = 1
            w = bin(m).count('1'); best[w] = max(best[w], n)
        return best
    for t in range(1, t_or(c, 18, 14)):
        if brute(t)[1:] != exact(t, t)[1:]:
            c.harness_errors.append(f'worst-case model wrong for {t} rounds')
        c.traces += 1 << t
    def judge(t, w, worst, lam):
        v, err = script(t, w, lam); c.states += 1; c.transitions += 1
        if v is None:
            bad.append((t, w, lam, f'no size printed: {err}')); return
        if 8*v < worst*lam:
            bad.append((t, w, lam, f'prints {v}, a challenge publishes {worst} seeds of {lam//8} bytes'))
        if w <= t//2:
            f = (2**ceil(log2(w)) + w*(ceil(log2(t)) - ceil(log2(w)) - 1))*lam
            if v != -(-f//8):
                bad.append((t, w, lam, f'prints {v}, the documented bound is {-(-f//8)}'))
    for t in range(1, t_or(c, 301, 129)):
        ex = exact(t, t)
        for w in range(1, t + 1):
            for lam in (128, 192, 256) if t > 12 else [*range(8, 520, 8), 1, 7, 9, 100, 129, 250]:
                judge(t, w, ex[w], lam)
    for t in (198, 244, 247, 255, 256, 257, 511, 512, 513, 759, 895, 907, 1023, 1024, 1025, 1352, 2048, 4000):
        ex = exact(t, 64)
        for w in range(1, 65):
            for lam in (128, 192, 256):
                judge(t, w, ex[w], lam)
    c.samples.append(f'rounds 247, hidden 30, level 128: script {script(247, 30, 128)[0]}, worst case {exact(247, 30)[30]} seeds')
    for impl in ('ref', 'avx2'):
        for ps, (cat, opt) in SETS.items():
            p = FULL[ps]; cfg = Config(impl, ps); src = os.path.join(BUILD, 'tmax.c')
            txt = '#include <stdio.h>\n#include "parameters.h"\nint main(void){printf("%d %d %d %d\\n",(int)(T),(int)(W),(int)(SEED_LENGTH_BYTES),(int)(SEED_TREE_MAX_PUBLISHED_BYTES));return 0;}\n'
            if not os.path.exists(src) or open(src).read() != txt:
                open(src, 'w').write(txt)
            exe = c.pool.program(f'tmax-{impl}-{ps}', [c.pool.compile(src, ['-std=gnu11', '-w'] + cfg.defs() + ['-I' + impl_dir(impl) + '/include'], impl_hash(impl))])
            rc, so, se = run([exe.result()], timeout=60); t, w, s, mx = map(int, so.split())
            rc, so, se = run([sys.executable, path, str(t), str(w), str(8*s)], timeout=60); m = re.findall(r'\d+', so); c.states += 1; c.transitions += 2
            if rc or not m or int(m[-1]) != mx:
                bad.append((t, w, 8*s, f'{impl} {ps} compiles {mx}, the script prints {so.strip()[-60:]}'))
            if exact(t, w)[w]*s > mx:
                bad.append((t, w, 8*s, f'{impl} {ps} compiles {mx}, a challenge publishes {exact(t, w)[w]} seeds'))
    for b in bad[:10]:
        c.violation(f'rounds {b[0]}, hidden {b[1]}, level {b[2]}: {b[3]}', dict(command=f'python3 {path} {b[0]} {b[1]} {b[2]}', expected=b[3]))
    c.extra['script_runs'] = ran[0]
    # binding of the tree model to the implementation: the signer publishes as many seeds as the model says, at both ends
    for ps in SETS:
        for impl in ('ref', 'avx2'):
            if c.thorough or SETS[ps][0] == 1 or impl == 'avx2':
                c.job('h_scheme.cpp', manyrounds(impl, ps), ['counts', M_SIZE, 100000], bounds='fewest and most published seeds at the real T, W')

# ---------------------------------------------------------------- memory report
def P27(c):
    """explicit enumeration of heap-profile documents (all tree shapes, all detail forms, all snapshot sequences) and of all single-line and truncation damages of them, driven through the parser and the report script themselves, compared with the generating data and an independent line-based reader
    | all sequences of up to 3 (thorough 4) snapshots over 19 kinds, all trees of up to 4 (5) nodes, all detail forms on trees up to 3 nodes; every line removed, repeated, exchanged, renamed, made non-numeric, every truncation at every character"""
    c.assumptions += ['function names as in C programs (no blank followed by a parenthesis inside a name); at most one peak snapshot, as the profiler writes']
    exe = HARN + '/w_massif.py'
    for cmd, sh, b in (('trees', 2, 'all trees and detail forms'), ('snapshots', 4, 'all snapshot sequences'), ('header', 1, 'header fields, comments, numbers'), ('damage', 8, 'every damage of every base document'), ('report', 4, 'the whole script on sets of profile files')):
        c.exe_job(exe, [cmd, REPO + '/Utilities/MemoryBenchmarking/bench.py'], cmd, shards=sh*t_or(c, 2, 1), bounds=b, cpu=300)

# ---------------------------------------------------------------- assembly Keccak
def P31(c):
    """explicit enumeration of states (every single bit, every number of rounds), byte ranges (every offset and length), block sizes and operation sequences driven through the assembled code, compared with a direct implementation of the definition that is itself compared with the one bound to Python's hashlib
    | all 3200 single-bit states and their complements through 24, 12 and 1..24 rounds; all 20301 (offset, length) ranges through the byte interface between inaccessible pages; block sizes 1..25 lanes; all sequences of 5 (thorough 6) of 8 operations"""
    srcs = sorted(glob.glob(REPO + '/Optimized_Implementation/*/lib/*.[sS]'))
    if not srcs:
        c.notes.append('no assembly sources in the tree: nothing to check'); return
    h = hashlib.sha256()
    for s in srcs:
        h.update(open(s, 'rb').read())
    for s in srcs:
        exe = c.pool.program('h_asm', [c.pool.compile(s, [], h.hexdigest()), c.pool.harness_obj('env.cpp', 'o2'), c.pool.harness_obj('h_asm.cpp', 'o2')], ['-Wl,--unresolved-symbols=ignore-all', '-no-pie'])
        for cmd, b in (('perms', 'single-bit states, every number of rounds, alignments'), ('bytes', 'every byte range'), ('absorb', 'every block size'), ('seqs', 'operation sequences'), ('oracle', 'the two independent permutations')):
            c.exe_job(exe, [cmd], f'{os.path.basename(s)} {cmd}', bounds=b, shards=t_or(c, 8, 2))

# ---------------------------------------------------------------- diagnostic output
def P30(c):
    """explicit enumeration of matrices and monomials (all tiny ones over chosen values, every entry and every value at full size) and names driven through the printing functions on the compiled implementation, the text read back and compared with the object
    | all 2x4 and 1x2 matrices over {0,1,126}, all 2x5 over {0,99}, all compact 2x4 ones with every column set, all monomials of 2, 4 and 5 columns over {1,5,126}; every entry position and value at full size of all parameter sets; names with conversion characters; the object and the standard output stay untouched"""
    for impl in IMPLS:
        for n, k in ((4, 2), (2, 1), (5, 2)):
            c.job('h_print.cpp', Config(impl, '1b', 'asan' if n == 4 else 'o2', N=n, K=k), ['tiny'], ('PRINT',), bounds=f'all objects with N={n}, K={k}', shards=t_or(c, 2, 1))
        for ps in ('1b', '3s', '5b') if not c.thorough else SETS:
            c.job('h_print.cpp', Config(impl, ps, 'o2'), ['full'], ('PRINT',), bounds='every entry position, every value, structured monomials')
