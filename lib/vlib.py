"""Build and run machinery shared by all checks.

Everything is compiled from /repo's current working tree; the build directory is
keyed by the contents of the sources and the flags, so that a changed tree is
never answered from an older build."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARN = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, 'build')
NCPU = os.cpu_count() or 4
REFDIR = os.path.join(REPO, 'Reference_Implementation')
OPTDIR = os.path.join(REPO, 'Optimized_Implementation')
SETS = {'1b': (1, 'BALANCED'), '1i': (1, 'INTERMEDIATE'), '1s': (1, 'SHORT_SIG'), '3b': (3, 'BALANCED'), '3s': (3, 'SHORT_SIG'),
        '5b': (5, 'BALANCED'), '5s': (5, 'SHORT_SIG')}
FULL = {'1b': dict(N=252, K=126, NK=2, T=247, W=30), '1i': dict(N=252, K=126, NK=4, T=244, W=20), '1s': dict(N=252, K=126, NK=8, T=198, W=17),
        '3b': dict(N=400, K=200, NK=2, T=759, W=33), '3s': dict(N=400, K=200, NK=3, T=895, W=26),
        '5b': dict(N=548, K=274, NK=2, T=1352, W=40), '5s': dict(N=548, K=274, NK=3, T=907, W=37)}
SEEDLEN = {1: 16, 3: 24, 5: 32}
# small codes that keep the alignment and bit-width classes of each category
SMALL = {1: (132, 6), 3: (264, 8), 5: (516, 10)}
WRAPS = ['shake128_inc_init', 'shake128_inc_absorb', 'shake128_inc_finalize', 'shake128_inc_squeeze',
         'shake256_inc_init', 'shake256_inc_absorb', 'shake256_inc_finalize', 'shake256_inc_squeeze'] + \
        [f'sha3_{b}_inc_{o}' for b in (256, 384, 512) for o in ('init', 'absorb', 'finalize')]
WRAPFLAGS = ['-Wl,' + ','.join('--wrap=' + w for w in WRAPS)]
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
FLAVOURS = {
    'rel':  ['-O3', '-DNDEBUG', '-march=native', '-mavx2', '-mavx', '-ftree-vectorize', '-funroll-loops', '-fomit-frame-pointer', '-fno-stack-protector'],
    'o2':   ['-O2', '-DNDEBUG', '-march=native', '-mavx2', '-mavx'],
    'asan': ['-O1', '-g', '-DDEBUG', '-mavx2', '-mavx'] + SAN,
    'dbg':  ['-O0', '-g', '-DDEBUG', '-mavx2', '-mavx'],
    'pat':  ['-O2', '-DNDEBUG', '-march=native', '-mavx2', '-mavx', '-ftrivial-auto-var-init=pattern'],
    'zero': ['-O2', '-DNDEBUG', '-march=native', '-mavx2', '-mavx', '-ftrivial-auto-var-init=zero'],
    'tsan': ['-O1', '-g', '-DNDEBUG', '-mavx2', '-mavx', '-fsanitize=thread'],
    'inst': ['-O1', '-g', '-DNDEBUG', '-mavx2', '-mavx', '-fsanitize=thread', '-fno-builtin'],
    'pic':  ['-O2', '-DNDEBUG', '-march=native', '-mavx2', '-mavx', '-fPIC'],
}
LINKFLAVOUR = {'asan': ['-fsanitize=address,undefined'], 'tsan': ['-fsanitize=thread']}
slots = threading.Semaphore(NCPU)
_lock = threading.Lock()

class BuildError(Exception):
    pass

def roundup(x, m):
    return (x + m - 1)//m*m

def bits(n):
    return max(1, int(n).bit_length())

def max_published(T, W):
    """largest number of maximal open nodes over all hidden sets of size W (exact DP)."""
    from functools import lru_cache
    NEG = -10**9
    @lru_cache(None)
    def best(h, cap, w):           # w>=1 hidden among the first cap leaves of a height-h subtree
        if w > cap or w < 1:
            return NEG
        if h == 0:
            return 0
        s = 1 << (h - 1); cl = min(cap, s); cr = cap - cl; r = NEG
        for a in range(max(0, w - cr), min(w, cl) + 1):
            b = w - a
            r = max(r, (best(h - 1, cl, a) if a else 1) + (best(h - 1, cr, b) if b else 1))
        return r
    return best(bits(T), T, W)

def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d, followlinks=True)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.c', '.h', '.s', '.cpp', '.hpp', '.inc', '.txt')):
                    p = os.path.join(root, f); h.update(p.encode()); h.update(open(p, 'rb').read() if os.path.exists(p) else b'-')
    return h.hexdigest()[:16]

_hashes = {}
def impl_hash(impl):
    with _lock:
        if impl not in _hashes:
            _hashes[impl] = tree_hash(impl_dir(impl), OPTDIR + '/common') if impl != 'ref' else tree_hash(REFDIR)
        return _hashes[impl]

def harness_hash():
    with _lock:
        if 'harness' not in _hashes:
            _hashes['harness'] = tree_hash(HARN)
        return _hashes['harness']

def impl_dir(impl):
    return {'ref': REFDIR, 'avx2': OPTDIR + '/avx2', 'neon': OPTDIR + '/neon'}[impl]

def run(cmd, timeout=None, env=None, cwd=None):
    with slots:
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
            return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
        except subprocess.TimeoutExpired as e:
            return -999, (e.stdout or b'').decode('utf8', 'replace'), 'wall-clock limit'

class Config:
    """One build of the scheme: implementation, parameter set, optional parameter override, flavour."""
    def __init__(self, impl, pset, flavour='rel', **over):
        self.impl, self.pset, self.flavour, self.over = impl, pset, flavour, over
        self.cat, self.opt = SETS[pset]
        self.p = dict(FULL[pset]); self.p.update(over)
        self.p['maxpub'] = None
        self.seed = SEEDLEN[self.cat]
    def name(self):
        o = ''.join(f'-{k}{v}' for k, v in sorted(self.over.items()))
        return f'{self.impl}-{self.pset}{o}-{self.flavour}'
    def defs(self):
        return [f'-DCATEGORY_{self.cat}=1', f'-D{self.opt}=1']
    def shim(self):
        if not self.over:
            return []
        d = dict(self.over); lines = ['#pragma once', '#include "parameters.h"']
        def put(n, v):
            lines.append(f'#undef {n}\n#define {n} ({v})')
        if 'N' in d or 'K' in d:
            n, k = self.p['N'], self.p['K']
            put('N', n); put('K', k)
            if self.impl != 'ref':
                put('N_pad', roundup(n, 32)); put('K_pad', roundup(k, 32)); put('N_K_pad', roundup(n - k, 32))
        if 'T' in d or 'W' in d:
            put('T', self.p['T']); put('W', self.p['W'])
            put('SEED_TREE_MAX_PUBLISHED_BYTES', max_published(self.p['T'], self.p['W'])*self.seed)
        if 'NK' in d:
            put('NUM_KEYPAIRS', self.p['NK'])
        txt = '\n'.join(lines) + '\n'
        p = os.path.join(BUILD, 'shim-' + hashlib.sha256(txt.encode()).hexdigest()[:16] + '.h')
        if not os.path.exists(p):
            tmp = p + f'.{os.getpid()}.{threading.get_ident()}'; open(tmp, 'w').write(txt); os.rename(tmp, p)
        return ['-include', p]
    def cflags(self):
        fl = [f for f in FLAVOURS[self.flavour]]
        d = impl_dir(self.impl)
        inc = ['-I' + d + '/include']
        if self.impl == 'neon':
            fl = [f for f in fl if f not in ('-mavx2', '-mavx')] + ['-flax-vector-conversions', '-w']
            inc = ['-I' + HARN + '/neon', '-D__ARM_NEON=1'] + inc
        return ['-std=gnu11', '-w'] + fl + self.defs() + inc + self.shim()
    def srcs(self):
        return sorted(glob.glob(impl_dir(self.impl) + '/lib/*.c'))

class Pool:
    """compile and link with memoisation, in parallel"""
    def __init__(self):
        self.ex = cf.ThreadPoolExecutor(64); self.lex = cf.ThreadPoolExecutor(600); self.memo = {}; self.l = threading.Lock()
        os.makedirs(BUILD, exist_ok=True)
    def once(self, key, fn, link=False):
        with self.l:
            if key not in self.memo:
                self.memo[key] = (self.lex if link else self.ex).submit(fn)
            return self.memo[key]
    def compile(self, src, flags, keyhash, cc='gcc'):
        k = hashlib.sha256((src + '\0' + '\0'.join(flags) + '\0' + keyhash + cc).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, os.path.basename(src).rsplit('.', 1)[0] + '-' + k + '.o')
        def go():
            if not os.path.exists(out):
                tmp = out + f'.{os.getpid()}.tmp'
                rc, so, se = run([cc] + flags + ['-c', src, '-o', tmp], timeout=600)
                if rc:
                    raise BuildError(f'{cc} {src}: {se[:3000]}')
                os.rename(tmp, out)
            return out
        return self.once(out, go)
    def lib(self, cfg, extra=()):
        fl = cfg.cflags() + list(extra)
        return [self.compile(s, fl, impl_hash(cfg.impl)) for s in cfg.srcs()]
    def harness_obj(self, name, flavour, extra=()):
        fl = ['-std=c++17', '-O2', '-g0', '-w', '-I' + HARN] + list(extra)
        if flavour == 'asan':
            fl += ['-DHARNESS_ASAN']
        return self.compile(os.path.join(HARN, name), fl, harness_hash(), cc='g++')
    def glue(self, cfg, group=None):
        fl = cfg.cflags() + ['-I' + HARN]
        if group is None:
            return self.compile(HARN + '/glue_api.c', fl, impl_hash(cfg.impl) + harness_hash())
        return self.compile(HARN + '/glue_unit.c', fl + ['-DGLUE_' + group], impl_hash(cfg.impl) + harness_hash())
    def link(self, harness, cfg, groups=(), wrap=True, hextra=(), ldextra=(), libextra=()):
        """future of the executable path; BuildError if the library does not build, UnitMissing if only a glue group fails"""
        key = ('link', harness, cfg.name(), tuple(groups), wrap, tuple(hextra), tuple(libextra))
        def go():
            objs = [f.result() for f in self.lib(cfg, libextra)]
            objs.append(self.harness_obj('env.cpp', cfg.flavour).result())
            objs.append(self.harness_obj(harness, cfg.flavour, hextra).result())
            objs.append(self.glue(cfg).result())
            for g in groups:
                try:
                    objs.append(self.glue(cfg, g).result())
                except BuildError as e:
                    raise UnitMissing(f'{g}: {e}')
            h = hashlib.sha256('\0'.join(objs + list(ldextra)).encode()).hexdigest()[:20]
            out = os.path.join(BUILD, harness.split('.')[0] + '-' + cfg.name() + '-' + h)
            if not os.path.exists(out):
                tmp = out + f'.{os.getpid()}.tmp'
                rc, so, se = run(['g++'] + objs + ['-o', tmp] + (WRAPFLAGS if wrap else []) + LINKFLAVOUR.get(cfg.flavour, []) + list(ldextra), timeout=600)
                if rc:
                    if groups:
                        raise UnitMissing(f'link: {se[:1500]}')
                    raise BuildError(f'link {harness} {cfg.name()}: {se[:3000]}')
                os.rename(tmp, out)
            return out
        return self.once(key, go, True)

def _cross(self, harness, cfgs, wrap=True):
    """one program with several implementations side by side: each is linked into one relocatable object whose
    only global symbols are its renamed g_* entry points; x_dispatch.cpp calls all of them"""
    key = ('cross', harness, tuple(c.name() for c in cfgs), wrap)
    def go():
        objs, have = [], []
        for c in cfgs:
            try:
                parts = [f.result() for f in self.lib(c)] + [self.glue(c).result()]
            except BuildError:
                if c.impl != 'neon':
                    raise
                continue
            out = os.path.join(BUILD, f'comb-{c.name()}-' + hashlib.sha256('\0'.join(parts + [str(wrap)]).encode()).hexdigest()[:20] + '.o')
            if not os.path.exists(out):
                tmp = out + f'.{os.getpid()}.{threading.get_ident()}'
                for cmd in (['ld', '-r', '-o', tmp] + (['--wrap=' + w for w in WRAPS] if wrap else []) + parts,
                            ['objcopy', '--wildcard', '--keep-global-symbol=g_*', tmp], ['objcopy', '--prefix-symbols=X_', tmp]):
                    if cmd[1] == '--prefix-symbols=X_':
                        rc, so, se = run(['nm', '-g', '--defined-only', tmp]); names = [l.split()[-1] for l in so.splitlines()]
                        cmd = ['objcopy'] + [f'--redefine-sym={n}={c.impl}_{n}' for n in names] + [tmp]
                    rc, so, se = run(cmd, timeout=300)
                    if rc:
                        raise BuildError(f'{cmd[0]}: {se[:1000]}')
                os.rename(tmp, out)
            objs.append(out); have.append(c.impl)
        ex = (['-DREAL_STUBS'] if wrap else []) + ([] if 'neon' in have else ['-DNO_NEON'])
        objs += [self.harness_obj('x_dispatch.cpp', cfgs[0].flavour, ex).result(), self.harness_obj('env.cpp', cfgs[0].flavour).result(), self.harness_obj(harness, cfgs[0].flavour).result()]
        out = os.path.join(BUILD, 'cross-' + harness.split('.')[0] + '-' + hashlib.sha256('\0'.join(objs).encode()).hexdigest()[:20])
        if not os.path.exists(out):
            tmp = out + f'.{os.getpid()}.tmp'
            extra = [] if wrap else ['-Wl,--unresolved-symbols=ignore-all']
            rc, so, se = run(['g++'] + objs + ['-o', tmp] + extra, timeout=300)
            if rc:
                raise BuildError(f'link cross: {se[:2000]}')
            os.rename(tmp, out)
        return out
    return self.once(key, go, True)
Pool.cross = _cross

def _program(self, name, objs, ldextra=(), optional_objs=False):
    """future of an executable linked from object futures"""
    def go():
        try:
            os_ = [o.result() for o in objs]
        except BuildError as e:
            if optional_objs:
                raise UnitMissing(str(e))
            raise
        out = os.path.join(BUILD, name + '-' + hashlib.sha256('\0'.join(os_ + list(ldextra)).encode()).hexdigest()[:20])
        if not os.path.exists(out):
            tmp = out + f'.{os.getpid()}.tmp'
            rc, so, se = run(['g++'] + os_ + ['-o', tmp] + list(ldextra), timeout=300)
            if rc:
                raise (UnitMissing if optional_objs else BuildError)(f'link {name}: {se[:2000]}')
            os.rename(tmp, out)
        return out
    return self.once(('program', name, tuple(id(o) for o in objs), tuple(ldextra)), go, True)
Pool.program = _program

class UnitMissing(Exception):
    pass

class Job:
    """one exploration: an executable with arguments, split into shards"""
    def __init__(self, name, exe, args, shards=1, env=None, cpu=60, bounds='', optional=False, cfgs=(), harness=None, groups=()):
        self.cfgs, self.harness, self.groups = tuple(cfgs), harness, tuple(groups)
        self.name, self.exe, self.args, self.shards, self.env, self.cpu, self.bounds, self.optional = name, exe, [str(a) for a in args], shards, env or {}, cpu, bounds, optional

class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.pool = Pool(); self.jobs = []; self.notes = []; self.assumptions = []; self.extra = {}
        self.found = []                       # (text, replay dict)
        self.states = self.transitions = self.traces = 0; self.samples = []; self.perjob = []; self.harness_errors = []
        self.deadline = self.t0 + float(os.environ.get('VERIF_DEADLINE', '840' if tier == 'quick' else '14000'))
        self.thorough = tier == 'thorough'
        shutil.rmtree(os.path.join(VERIF, 'replays', prop), ignore_errors=True)
    # ---- declaration
    def job(self, harness, cfg, args, groups=(), name=None, shards=1, env=None, cpu=60, wrap=True, hextra=(), ldextra=(), libextra=(), bounds='', optional=None):
        exe = self.pool.link(harness, cfg, groups, wrap, hextra, ldextra, libextra)
        self.jobs.append(Job(name or f'{cfg.name()} ' + ' '.join(map(str, args)), exe, args, shards, env, cpu, bounds, cfg.impl == 'neon' if optional is None else optional, (cfg,), harness, groups))
    def exe_job(self, fut, args, name, **kw):
        self.jobs.append(Job(name, fut, args, **kw))
    # ---- execution
    def _run_once(self, exe, args, env, cpu, shard, only=None, wallx=1.0):
        cur = os.path.join(BUILD, f'cur-{os.getpid()}-{threading.get_ident()}')
        e = dict(os.environ); e.update(env); e['H_SHARD'] = shard; e['H_TIER'] = self.tier; e['H_CPU'] = str(int(cpu)); e['H_CUR'] = cur
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0'; e['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=78'
        e['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=1'
        e['LC_ALL'] = 'C'
        if only is not None:
            e['H_ONLY'] = str(only)
        left = max(5.0, self.deadline - time.time())
        rc, so, se = run([exe] + args, timeout=left, env=e)
        scn = ''
        try:
            scn = open(cur, 'rb').read().split(b'\0')[0].decode('utf8', 'replace'); os.unlink(cur)
        except OSError:
            pass
        return rc, so, se, scn
    @staticmethod
    def parse(so):
        viols = re.findall(r'^VIOL scenario=(\d+) (.*)$', so, re.M); st = {}
        m = re.search(r'^STAT (.*)$', so, re.M)
        if m:
            for kv in m.group(1).split():
                k, v = kv.split('='); st[k] = int(v)
        return viols, st, re.findall(r'^SAMPLE (.*)$', so, re.M), bool(re.search(r'^DONE$', so, re.M))
    def _shard(self, j, exe, i):
        sh = f'{i}/{j.shards}'
        rc, so, se, scn = self._run_once(exe, j.args, j.env, j.cpu, sh)
        viols, st, smp, done = self.parse(so)
        res = dict(job=j.name, stat=st, samples=smp, viols=[], error=None)
        if rc == -999:
            res['error'] = f'{j.name}: ran out of wall-clock time at {scn}'; return res
        if rc == 9 or rc == 2:
            res['error'] = f'{j.name}: harness error rc={rc}: {se[-500:]}'; return res
        cand = []
        for sid, txt in viols:
            cand.append((int(sid), txt))
        if not done and rc not in (0,) and not (rc == 3 and viols):
            m = re.search(r'(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|WARNING: ThreadSanitizer[^\n]*)', se)
            what = m.group(1) if m else (f'killed by signal {-rc} ({signal.Signals(-rc).name})' if rc < 0 else f'exit code {rc}')
            loc = re.search(r'#\d+ 0x\S+ in (\S+) (/repo\S+)', se)
            sid = re.match(r'#(\d+)', scn)
            cand.append((int(sid.group(1)) if sid else -1, f'{what}{" at " + loc.group(1) + " " + loc.group(2) if loc else ""} [scenario {scn}]'))
        elif not done and not viols:
            res['error'] = f'{j.name}: no result (rc {rc}): {se[-500:]}'; return res
        seen = set()
        for sid, txt in cand[:3]:
            if sid in seen:
                continue
            seen.add(sid)
            # replay before report: the scenario alone, else the whole shard
            slow = 'exceeded its CPU limit' in txt
            ok = False; how = ''
            if sid >= 0:
                rc2, so2, se2, _ = self._run_once(exe, j.args, j.env, j.cpu*(4 if slow else 1), sh, only=sid)
                v2, _, _, done2 = self.parse(so2)
                if v2 or (not done2 and rc2 != -999 and rc2 not in (2, 9)):
                    ok = True; how = 'scenario alone'
            if not ok and not slow:
                rc2, so2, se2, _ = self._run_once(exe, j.args, j.env, j.cpu, sh)
                v2, _, _, done2 = self.parse(so2)
                if v2 or (not done2 and rc2 != -999 and rc2 not in (2, 9)):
                    ok = True; how = 'whole shard (depends on the preceding scenarios)'
            if ok:
                res['viols'].append(dict(job=j.name, exe=exe, args=j.args, env=j.env, shard=sh, scenario=sid, cpu=j.cpu, text=txt, reproduced=how,
                                         stderr=se[-3000:] if not done else ''))
            elif not slow:
                res['error'] = f'{j.name}: violation did not replay: {txt}'
        return res
    def run_jobs(self):
        futs = []
        for j in self.jobs:
            futs.append((j, j.exe))
        ex = cf.ThreadPoolExecutor(NCPU*2); sub = []
        def start(j, f):
            try:
                exe = f.result() if hasattr(f, 'result') else f
            except UnitMissing as e:
                with _lock:
                    self.notes.append(f'{j.name}: building block not reachable under its name, decided through the public API only ({str(e)[:200]})')
                return []
            except BuildError as e:
                small = any(g.over for g in j.cfgs) and self._builds([Config(g.impl, g.pset, g.flavour) for g in j.cfgs]) and not self._builds(j.cfgs)
                with _lock:
                    if small:
                        self.notes.append(f'{j.name}: skipped, this reduced instance does not compile although the unmodified parameters do ({str(e)[:300]})')
                    elif j.optional:
                        self.notes.append(f'{j.name}: skipped, does not compile under the NEON emulation ({str(e)[:300]})')
                    else:
                        self.harness_errors.append(f'build: {str(e)[:2000]}')
                return []
            return [ex.submit(self._shard, j, exe, i) for i in range(j.shards)]
        starters = cf.ThreadPoolExecutor(max(1, len(futs)))
        for fs in starters.map(lambda a: start(*a), futs):
            sub += fs
        agg = {}; new = []
        for f in sub:
            r = f.result(); a = agg.setdefault(r['job'], {})
            for k, v in r['stat'].items():
                if k in ('states', 'transitions', 'traces', 'violations', 'failed', 'ms'):
                    a[k] = a.get(k, 0) + v
                else:
                    a[k] = max(a.get(k, 0), v)
            self.samples += r['samples'][:1]
            if r['error']:
                self.harness_errors.append(r['error'])
            for v in r['viols']:
                new.append((f"{v['job']}: {v['text']}", v))
        self.found += self.applicable(new, agg) if new and not self.found else new
        for j in self.jobs:
            a = agg.get(j.name)
            if a:
                self.states += a.get('states', 0); self.transitions += a.get('transitions', 0); self.traces += a.get('traces', 0)
                self.perjob.append(dict(job=j.name, bounds=j.bounds, **a))
        self.jobs = []
    # ---- are the reduced instances meaningful for this tree?
    def _builds(self, cfgs):
        try:
            for g in cfgs:
                for o in self.pool.lib(g):
                    o.result()
            return True
        except BuildError:
            return False
    def _baseline(self, cfg, args):
        """(scenarios, failed) of honest operations compared with the model on this instance"""
        exe = self.pool.link('h_scheme.cpp', cfg).result()
        rc, so, se, scn = self._run_once(exe, args, {}, 120, '0/1'); v, st, _, done = self.parse(so)
        if done and 'states' in st:
            return st['states'], st.get('failed', 0)
        n = bad = 0
        for i in range(12):
            rc, so, se, scn = self._run_once(exe, args, {}, 120, '0/1', only=i); v, st, _, done = self.parse(so); n += 1; bad += bool(v) or not done
        return n, bad
    def applicable(self, new, agg):
        """The properties are about the shipped parameter sets.  Reduced instances stand for them only as long as the code
        is written in terms of the parameters.  When an instance fails practically everywhere, even for honest operations,
        while the unmodified parameters behave as specified, the instance says nothing about the tree: drop it."""
        byname = {j.name: j for j in self.jobs}; jobs = []
        for t, v in new:
            j = byname.get(v['job'])
            if j is None or not j.cfgs or not any(g.over for g in j.cfgs):
                return new                                    # seen on unmodified parameters
            if j not in jobs:
                jobs.append(j)
        def unsupported(g):
            if not g.over:
                return False
            try:
                n, bad = self._baseline(Config(g.impl, g.pset, 'o2', **g.over), ['challenges', '7'])
                if n == 0 or bad < 0.9*n:
                    return False
                few = Config(g.impl, g.pset, 'o2', T=3, W=1)
                full = [(few, ['families', '7', {1: '7', 3: '29', 5: '61'}[SETS[g.pset][0]]]), (few, ['challenges', '7'])] if g.p['N'] != FULL[g.pset]['N'] else []
                if not full or SETS[g.pset][0] == 1:
                    full.append((Config(g.impl, g.pset, 'o2'), ['real', '7', '1']))
                for cfg, args in full:
                    with _lock:
                        f = fm.setdefault((cfg.name(), args[0]), cf.Future()); mine = not hasattr(f, 'owner'); f.owner = 1
                    if mine:
                        try:
                            f.set_result(self._baseline(cfg, args))
                        except Exception as e:
                            f.set_exception(e)
                    n, bad = f.result()
                    if n == 0 or bad:
                        return False
                return True
            except (BuildError, UnitMissing):
                return False
        memo, fm = {}, {}
        cfgs = {(g.impl, g.pset, tuple(sorted(g.over.items()))): g for j in jobs for g in j.cfgs if g.p['N'] >= 100}
        with cf.ThreadPoolExecutor(NCPU) as ex:
            memo.update(zip(cfgs, ex.map(unsupported, cfgs.values())))
        def judge(j):
            if min(g.p['N'] for g in j.cfgs) < 100:
                a = agg.get(j.name, {}); cat = [k for k in self.jobs if k.harness == j.harness and set(k.groups) & set(j.groups) and not ({'N', 'K'} & set(k.cfgs[0].over)) and k.cfgs[0].impl == j.cfgs[0].impl]
                return bool(cat) and a.get('states', 0) > 3 and a.get('failed', 0) >= 0.9*a['states'] and not any(agg.get(k.name, {}).get('violations', 0) for k in cat)
            return any(memo[g.impl, g.pset, tuple(sorted(g.over.items()))] for g in j.cfgs)
        if all(judge(j) for j in jobs):
            for j in jobs:
                self.notes.append(f'{j.name}: this reduced instance fails everywhere although the unmodified parameters behave as specified; not meaningful for this tree, dropped')
            return []
        return new
    def violation(self, text, replay):
        self.found.append((text, replay))
    # ---- verdict
    def finish(self, level='model_checking'):
        if self.jobs:
            self.run_jobs()
        known = []
        kf = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(kf):
            for l in open(kf):
                m = re.match(r'known: property=(\S+) match=(.*?) :: (.*)$', l.strip())
                if m and m.group(1) == self.prop:
                    known.append((m.group(2), m.group(3)))
        news, hit = [], {}
        for text, rep in self.found:
            k = next((d for p, d in known if p in text), None)
            if k:
                hit[k] = text
            else:
                news.append((text, rep))
        for p, d in known:
            print(f'KNOWN-FINDING: property={self.prop} {d}')
        rc = 0
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        if news:
            os.makedirs(os.path.join(VERIF, 'replays', self.prop), exist_ok=True)
            for i, (text, rep) in enumerate(news[:10]):
                path = os.path.join(VERIF, 'replays', self.prop, f'{i}.json')
                json.dump(dict(property=self.prop, what=text, replay=rep, how=f'python3 /verif/check.py replay {path}'), open(path, 'w'), indent=1)
                print(f'VIOLATION property={self.prop} replay={path}')
                print(f'  {text[:1500]}')
            rc = 1
        elif self.harness_errors:
            rc = 2
        for e in self.harness_errors[:5]:
            print('ERROR ' + e, file=sys.stderr)
        for n in self.notes[:20]:
            print('NOTE ' + n)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces, samples=self.samples[:12] or ['none'],
                   explorations=self.perjob, notes=self.notes, **self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(news))
        tmp = os.path.join(VERIF, 'evidence', self.prop + '.json.tmp')
        json.dump(ev, open(tmp, 'w'), indent=1); os.rename(tmp, tmp[:-4])
        print(f'{self.prop} {self.tier}: {self.states} states, {self.transitions} transitions, {self.traces} traces validated, {len(news)} violations, {len(self.harness_errors)} errors, {ev["wall_s"]} s')
        return rc
