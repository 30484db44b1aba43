#!/usr/bin/env python3
"""P27: bench.py's parser and report over enumerated heap profiles."""
import ast, contextlib, io, itertools, os, shutil, subprocess, sys, tempfile, time
t0 = time.time(); cmd, SRC = sys.argv[1], sys.argv[2]
shard, nsh = map(int, os.environ.get('H_SHARD', '0/1').split('/')); only = int(os.environ.get('H_ONLY', '-1')); deep = os.environ.get('H_TIER') == 'thorough'
cur = os.environ.get('H_CUR'); S = dict(total=0, states=0, transitions=0, traces=0, viols=0)
def scn(text):
    i = S['total']; S['total'] += 1
    if (i != only) if only >= 0 else i % nsh != shard:
        return False
    S['states'] += 1; S['cur'] = f'#{i} {text}'; S['id'] = i
    if i % 997 == 0:
        print('SAMPLE', S['cur'])
    return True
def viol(t):
    S['viols'] += 1
    if S['viols'] <= 5:
        print(f'VIOL scenario={S["id"]} {t} [scenario {S["cur"]}]'.replace('\n', '\\n'))
# a scratch directory in which the script's own build step does nothing
base = tempfile.mkdtemp(prefix=os.path.basename(cur or 'massif') + '.', dir=os.path.dirname(cur) if cur else None)
def scratch(name):
    d = os.path.join(base, name); os.makedirs(d + '/build'); open(d + '/bench.sh', 'w').write('#!/bin/sh\nexit 0\n'); os.chmod(d + '/bench.sh', 0o755); return d
def load():
    os.chdir(scratch('parser')); g = {'__name__': 'bench', '__file__': SRC}
    with contextlib.redirect_stdout(io.StringIO()):
        exec(compile(open(SRC).read(), SRC, 'exec'), g)
    return g
class Named(io.StringIO):
    name = 'profile'
# ---- independent reader: returns the data or None for a malformed document
class Bad(Exception):
    pass
HEX = set('0123456789abcdefABCDEFx')
def details(t):
    a, sep, rest = t.partition(': ')
    if not sep or not a or set(a) - HEX or not rest:
        return None
    fn, f, ln = rest, None, None
    if rest.endswith(')'):
        p = rest.rfind(' (')
        if p > 0:
            body = rest[p + 2:-1]
            if body.startswith('in ') and len(body) > 3:
                body = body[3:]
            name, colon, no = body.partition(':')
            if name and (not no or no.isdigit()) and ':' not in no:
                fn, f, ln = rest[:p], name, int(no) if no else None
    return dict(address=a, function=fn, file=f, line=ln)
def read(doc):
    lines = doc.split('\n')
    if lines[-1] == '':
        lines.pop()
    pos = 0
    def field(eof=False):
        nonlocal pos
        while pos < len(lines) and (not lines[pos].strip() or lines[pos].lstrip().startswith('#')):
            pos += 1
        if pos >= len(lines):
            if eof:
                return None
            raise Bad
        pos += 1; return lines[pos - 1]
    def named(pre):
        l = field()
        if not l.startswith(pre):
            raise Bad
        return l[len(pre):]
    def number(name, l=None):
        v = named(name + '=') if l is None else l
        if not v.isdigit() or not v.isascii():
            raise Bad
        return int(v)
    def tree():
        nonlocal pos
        if pos >= len(lines):
            raise Bad
        l = lines[pos].lstrip(); pos += 1
        if not l.startswith('n'):
            raise Bad
        n, sep, rest = l[1:].partition(': ')
        if not sep or not n.isdigit():
            raise Bad
        b, sep, d = rest.partition(' ')
        if not sep or not b.isdigit():
            raise Bad
        return dict(nbytes=int(b), details=details(d), children=[tree() for _ in range(int(n))])
    try:
        m = dict(desc=named('desc: '), cmd=named('cmd: '), time_unit=named('time_unit: '))
        if m['time_unit'] not in ('ms', 'B', 'i'):
            raise Bad
        m['snapshots'], m['detailed_snapshot_indices'] = [], []
        while True:
            l = field(True)
            if l is None:
                return m
            if not l.startswith('snapshot='):
                raise Bad
            s = dict(id=number('', l[9:]), time=number('time'), mem_heap=number('mem_heap_B'), mem_heap_extra=number('mem_heap_extra_B'), mem_stack=number('mem_stacks_B'), heap_tree=None)
            k = named('heap_tree=')
            if k not in ('empty', 'detailed', 'peak'):
                raise Bad
            if k != 'empty':
                m['detailed_snapshot_indices'].append(len(m['snapshots']))
                if k == 'peak':
                    m['peak_snapshot_index'] = len(m['snapshots'])
                s['heap_tree'] = tree()
            m['snapshots'].append(s)
    except Bad:
        return None
# ---- writer
DET = ['0x4C2BBAF: main (less_sign.c:12)', '0x10A3: LESS_sign (in /home/a/build/bin/LESS_memory_1_BALANCED_sign)', '0x4E5: ???', '0xabcdef: fn', 'in 3 places, all below massif\'s threshold (1.00%)', 'in 1 place, below massif\'s threshold (0.10%)',
       '(heap allocation functions) malloc/new/new[], --alloc-fns, etc.', '0x58: (below main) (libc-start.c:308)', '0x401000: f (a.c:99999)', '0x7f00AB: g (in  /home/a b/c-1.so)', '']
def tree_lines(t, depth=0):
    r = [' '*depth + f'n{len(t["children"])}: {t["nbytes"]} {t["text"]}']
    for ch in t['children']:
        r += tree_lines(ch, depth + 1)
    return r
def bare(t):
    return dict(nbytes=t['nbytes'], details=details(t['text']), children=[bare(x) for x in t['children']])
def shapes(n):
    if n == 1:
        return [()]
    out = []
    def forests(k):
        if k == 0:
            yield ()
        for a in range(1, k + 1):
            for f in shapes(a):
                for rest in forests(k - a):
                    yield (f,) + rest
    return list(forests(n - 1))
def mk(shape, kinds, it=None):
    it = it if it is not None else itertools.count()
    i = next(it); return dict(nbytes=1000*i + i, text=DET[kinds[i % len(kinds)]], children=[mk(s, kinds, it) for s in shape])
def snap(i, kind, tree=None, nums=(0, 0, 0, 0)):
    return dict(id=i, kind=kind, tree=tree, nums=nums)
def lines_of(hdr, snaps, dash='#-----------'):
    l = [f'desc: {hdr[0]}', f'cmd: {hdr[1]}', f'time_unit: {hdr[2]}']
    for s in snaps:
        l += [dash, f'snapshot={s["id"]}', dash, f'time={s["nums"][0]}', f'mem_heap_B={s["nums"][1]}', f'mem_heap_extra_B={s["nums"][2]}', f'mem_stacks_B={s["nums"][3]}', f'heap_tree={s["kind"]}']
        if s['tree']:
            l += tree_lines(s['tree'])
    return l
def data_of(hdr, snaps):
    m = dict(desc=hdr[0], cmd=hdr[1], time_unit=hdr[2], snapshots=[], detailed_snapshot_indices=[])
    for i, s in enumerate(snaps):
        n = s['nums']; m['snapshots'].append(dict(id=s['id'], time=n[0], mem_heap=n[1], mem_heap_extra=n[2], mem_stack=n[3], heap_tree=bare(s['tree']) if s['tree'] else None))
        if s['kind'] != 'empty':
            m['detailed_snapshot_indices'].append(i)
        if s['kind'] == 'peak':
            m['peak_snapshot_index'] = i
    return m
HDR = ('--detailed-freq=1 --stacks=yes', './build/bin/LESS_memory_1_BALANCED_sign', 'i')
fileno = itertools.count()
def run_parser(doc):
    S['transitions'] += 1
    try:
        if next(fileno) % 16 == 0:
            p = os.path.join(base, 'doc'); open(p, 'w').write(doc); return 'ok', G['parse_file'](p)
        return 'ok', G['parse'](Named(doc))
    except G['ParseError'] as e:
        try:
            str(e)
        except Exception as x:
            return 'exc', f'ParseError that cannot be printed: {x!r}'
        return 'error', None
    except Exception as e:
        return 'exc', repr(e)
def good(hdr, snaps, **kw):
    want = data_of(hdr, snaps); doc = '\n'.join(lines_of(hdr, snaps, **kw)) + '\n'
    if read(doc) != want:
        print('harness: reader', doc, read(doc), want, file=sys.stderr); sys.exit(9)
    k, v = run_parser(doc)
    if k != 'ok':
        viol(f'well-formed profile refused ({v})')
    elif v != want:
        viol(f'parsed as {str(v)[:300]}, contains {str(want)[:300]}')
    else:
        S['traces'] += 1
def judge(doc, what):
    want = read(doc); k, v = run_parser(doc)
    if k == 'exc':
        viol(f'{what}: {v} instead of a parse error')
    elif want is None and k == 'ok':
        viol(f'{what}: malformed profile accepted as {str(v)[-300:]}')
    elif want is not None and k == 'error':
        viol(f'{what}: the remaining profile is well-formed but refused')
    elif want is not None and v != want:
        viol(f'{what}: parsed as {str(v)[:300]}, contains {str(want)[:300]}')
    else:
        S['traces'] += 1
NUM = (0, 1, 9, 10, 99, 2**31, 2**32 + 1, 2**63, 10**20)
try:
    if cmd != 'report':
        G = load()
    if cmd == 'trees':
        for n in range(1, 6 if not deep else 7):
            for sh in shapes(n):
                for r in range(len(DET)):
                    if scn(f'tree {sh} details from {r}'):
                        good(HDR, [snap(0, 'empty'), snap(1, 'detailed', mk(sh, [(r + i) % len(DET) for i in range(len(DET))])), snap(2, 'peak', mk(sh, [r]))])
        for n in range(1, 4):
            for sh in shapes(n):
                for ks in itertools.product(range(len(DET)), repeat=n):
                    if scn(f'tree {sh} details {ks}'):
                        good(HDR, [snap(0, 'detailed', mk(sh, ks)), snap(1, 'empty')])
        for d in (10, 50, 200):
            if scn(f'chain of {d} nodes'):
                sh = ()
                for _ in range(d - 1):
                    sh = (sh,)
                good(HDR, [snap(0, 'peak', mk(sh, [0, 1]))])
        for d in (5, 9, 10, 11, 99, 100, 101, 500):
            if scn(f'{d} children'):
                good(HDR, [snap(0, 'detailed', mk(tuple(() for _ in range(d)), [0, 4])), snap(1, 'detailed', mk((), [1]))])
    elif cmd == 'snapshots':
        sh = [s for n in range(1, 5) for s in shapes(n)]; kinds = [('empty', None)] + [('detailed', s) for s in sh] + [('peak', s) for s in sh]
        for n in range(0, 4 if not deep else 5):
            for q in itertools.product(range(len(kinds)), repeat=n):
                if sum(kinds[k][0] == 'peak' for k in q) > 1 or (n == 4 and sum(q) % 3):
                    continue
                if scn(f'snapshots {q}'):
                    good(HDR, [snap(i, kinds[k][0], mk(kinds[k][1], [i, k % len(DET)]) if kinds[k][1] is not None else None, (i, 10*k, i + k, 5*i)) for i, k in enumerate(q)])
        for n in (10, 100, 1000):
            for pk in (None, 0, n//2, n - 1):
                if scn(f'{n} snapshots, peak {pk}'):
                    good(HDR, [snap(i, 'peak' if i == pk else 'detailed' if i % 7 == 0 else 'empty', mk((), [0]) if i == pk or i % 7 == 0 else None, (i, i*i, 3, n - i)) for i in range(n)])
    elif cmd == 'header':
        D = ['(none)', '', 'x', '--stacks=yes # not a comment', 'a: b: c', 'cmd: x', 'trailing  ', ' leading', 'snapshot=3']
        for a in D:
            for b in D:
                for u in ('i', 'ms', 'B'):
                    for s in (0, 1):
                        if scn(f'header {a!r} {b!r} {u}'):
                            good((a, b, u), [snap(0, 'detailed', mk(((),), [0, 1]))]*s)
        for i in range(4):
            for v in NUM:
                for w in NUM:
                    if scn(f'number {v} in field {i}, {w} elsewhere'):
                        good(HDR, [snap(v, 'empty', None, tuple(v if k == i else w for k in range(4))), snap(w, 'peak', mk((), [2]), (w, v, w, v))])
        for dash in ('#', '# snapshot=1', '  #x', '', '   ', '\t', '#-----------\n#-----------', '\n\n'):
            if scn(f'separator {dash!r}'):
                good(HDR, [snap(0, 'empty'), snap(1, 'detailed', mk(((), ()), [0])), snap(2, 'empty')], dash=dash)
        for doc, what in (('', 'empty file'), ('\n', 'blank file'), ('#\n', 'comment only')):
            if scn(what):
                judge(doc, what)
        for last in ('', '\n', '\n\n', '\n#', '\n   \n'):
            if scn(f'end {last!r}'):
                judge('\n'.join(lines_of(HDR, [snap(0, 'empty'), snap(1, 'peak', mk((), [0]))])) + last, 'end of file')
    elif cmd == 'damage':
        bases = []
        for n in range(1, 4 if not deep else 5):
            for sh in shapes(n):
                for r in (0, 3, 4, 7):
                    bases.append([snap(0, 'detailed', mk(sh, [r, (r + 1) % len(DET)]), (1, 2, 3, 4))]); bases.append([snap(0, 'empty'), snap(1, 'peak', mk(sh, [r]), (10, 20, 30, 40)), snap(2, 'empty', None, (12, 13, 14, 15))])
        bases += [[], [snap(0, 'empty')], [snap(0, 'empty'), snap(1, 'empty', None, (5, 6, 7, 8))]]
        for bi, b in enumerate(bases):
            L = lines_of(HDR, b); doc = lambda l: '\n'.join(l) + ('\n' if l else '')
            for i in range(len(L)):
                if scn(f'base {bi} line {i} removed'):
                    judge(doc(L[:i] + L[i + 1:]), f'line {L[i]!r} removed')
                for ins in ('-', 'x', '=', ';', '//', 'time=1', 'desc: x', 'snapshot=7', 'n0: 1 x', '!#', '0'):
                    if scn(f'base {bi} {ins!r} inserted before line {i}'):
                        judge(doc(L[:i] + [ins] + L[i:]), f'line {ins!r} inserted before {L[i]!r}')
                if scn(f'base {bi} line {i} repeated'):
                    judge(doc(L[:i + 1] + L[i:]), f'line {L[i]!r} repeated')
                for j in range(i + 1, len(L)) if len(L) < 16 or deep else range(i + 1, min(len(L), i + 4)):
                    if scn(f'base {bi} lines {i} and {j} exchanged'):
                        M = list(L); M[i], M[j] = M[j], M[i]; judge(doc(M), f'lines {L[i]!r} and {L[j]!r} exchanged')
                if scn(f'base {bi} cut after line {i}'):
                    judge(doc(L[:i]), f'cut before line {L[i]!r}')
                for k, (old, new) in enumerate((('=', '=x'), ('=', ' = '), ('=', ''), (': ', ':'), ('n', 'm'), ('=', '=-'), ('=', '= '), ('s', 'S'), ('_', ''), ('empty', 'none'), ('detailed', 'Detailed'), ('peak', 'peaks'), ('time_unit: i', 'time_unit: s'), ('time_unit: i', 'time_unit: in'), ('=', '=0x'), ('=', '=1.'))):
                    if old in L[i] and scn(f'base {bi} line {i} damage {k}'):
                        if L[i].lstrip().startswith(('#', 'desc', 'cmd')) and k in (0, 1, 2, 5, 6, 8, 14, 15):
                            continue
                        judge(doc(L[:i] + [L[i].replace(old, new, 1)] + L[i + 1:]), f'line {L[i]!r} with {old!r} replaced by {new!r}')
                if L[i][-1:].isdigit() and '=' in L[i] and not L[i].startswith(('desc', 'cmd')):
                    for tail in ('x', ' 5', '.5', 'e3', '_', '='):
                        if scn(f'base {bi} line {i} followed by {tail!r}'):
                            judge(doc(L[:i] + [L[i] + tail] + L[i + 1:]), f'line {L[i]!r} followed by {tail!r}')
                if L[i].startswith('heap_tree'):
                    for tail in ('d', ' x', '=', ',peak'):
                        if scn(f'base {bi} line {i} followed by {tail!r}'):
                            judge(doc(L[:i] + [L[i] + tail] + L[i + 1:]), f'line {L[i]!r} followed by {tail!r}')
                if L[i].lstrip().startswith('n') and ': ' in L[i]:
                    t = L[i].lstrip(); sp = L[i][:len(L[i]) - len(t)]; n, rest = t[1:].split(': ', 1)
                    for new in (str(int(n) + 1), str(int(n) - 1), str(int(n) + 100), '', 'x', n + 'x'):
                        if scn(f'base {bi} line {i} with {new!r} children'):
                            judge(doc(L[:i] + [f'{sp}n{new}: {rest}'] + L[i + 1:]), f'{n} children announced as {new!r}')
                    by, d = rest.split(' ', 1)
                    for new in ('', 'x', by + 'x', '-' + by, by + ':'):
                        if scn(f'base {bi} line {i} with {new!r} bytes'):
                            judge(doc(L[:i] + [f'{sp}n{n}: {new} {d}'] + L[i + 1:]), f'{by} bytes written as {new!r}')
            text = doc(L)
            for p in range(len(text)):
                if scn(f'base {bi} cut at character {p}'):
                    judge(text[:p], f'cut at character {p}')
    elif cmd == 'report':
        KINDS = {1: ('INTERMEDIATE', 'SHORT_SIG', 'BALANCED'), 3: ('SHORT_SIG', 'BALANCED'), 5: ('SHORT_SIG', 'BALANCED')}; METHODS = ('keygen', 'sign', 'verify')
        names = [(c, k, m) for c in KINDS for k in KINDS[c] for m in METHODS]
        def prof(stacks):
            return '\n'.join(lines_of(HDR, [snap(i, 'empty', None, (i, 7*i, 1, s)) for i, s in enumerate(stacks)])) + '\n'
        def report(files, what):
            d = scratch(f'r{S["id"]}'); want = {}
            for f, st in files.items():
                p = os.path.join(d, 'build', f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(prof(st) if isinstance(st, (list, tuple)) else st)
                if f.endswith('.massif'):
                    b = os.path.basename(f)[:-7].split('_'); want[int(b[2]), '_'.join(b[3:-1]), b[-1]] = max(st, default=0)
            r = subprocess.run([sys.executable, '-W', 'ignore', '-B', SRC], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60); S['transitions'] += 1; out = None
            for l in r.stdout.decode().splitlines():
                if l.startswith('{'):
                    out = ast.literal_eval(l)
            if r.returncode or out is None:
                viol(f'{what}: the script fails: {r.stderr.decode()[-300:]}')
            else:
                for c in out:
                    for k in out[c]:
                        for m in out[c][k]:
                            if out[c][k][m] != want.get((c, k, m), 0):
                                viol(f'{what}: reported stack of {c} {k} {m} is {out[c][k][m]}, the profile has {want.get((c, k, m), 0)}'); break
                if any(c not in out or k not in out[c] or m not in out[c][k] for c, k, m in want):
                    viol(f'{what}: a profile is missing in the report')
                S['traces'] += 1
            shutil.rmtree(d)
        fn = lambda c, k, m: f'LESS_memory_{c}_{k}_{m}.massif'
        for c, k, m in names:
            if scn(f'one profile {c} {k} {m}'):
                report({fn(c, k, m): (1, 500, 3)}, 'one profile')
        PAT = [(), (0,), (5,), (1, 2, 3), (3, 2, 1), (1, 9, 4), (10**12, 1), (0, 0), (9, 10), (100, 99, 9), tuple(range(50)), (7, 7, 7)]
        for i, p in enumerate(PAT):
            if scn(f'stack sizes {p[:6]}'):
                report({fn(*names[i]): p, fn(*names[-1 - i]): (4,)}, 'stack sizes')
        for r in range(4):
            if scn(f'all profiles, rotation {r}'):
                report({('sub/' if r & 1 and j % 3 == 0 else '') + fn(*n): (j, 1000 + (j*7 + r) % 23, 5) for j, n in enumerate(names)}, 'all profiles')
        for i in range(len(names) - 1):
            if scn(f'pair {names[i]} {names[i+1]}'):
                report({fn(*names[i]): (20 + i,), fn(*names[i + 1]): (5, 900 + i), 'other.txt': 'x', 'LESS_memory_1_BALANCED_sign': 'binary'}, 'pair')
    else:
        sys.exit(2)
finally:
    os.chdir('/'); shutil.rmtree(base, ignore_errors=True)
print(f'STAT scenarios_total={S["total"]} states={S["states"]} transitions={S["transitions"]} traces={S["traces"]} violations={S["viols"]} ms={int(1000*(time.time() - t0))}')
print('DONE')
