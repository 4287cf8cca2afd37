"""Runner: compiles the real sources of /repo to LLVM IR, executes the harness symbolically (lsym), lets the
solver decide every assertion on every path, and replays counterexamples on a sanitizer build of the same sources."""
import concurrent.futures as cf
import glob, hashlib, json, multiprocessing as mp, os, re, resource, shutil, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VREPO', '/repo')
MODEL = os.path.join(VERIF, 'model')
HARN = os.path.join(VERIF, 'h')
NCPU = min(8, os.cpu_count() or 4)
sys.path.insert(0, os.path.join(VERIF, 'lsym'))

BASE_DEFS = ['-DRESDET_EXPORT', '-DUSE_BUILTIN_SIGNBIT', '-DVERSION_SUFFIX="+v"', '-DHAVE_LIBJPEG=2', '-DHAVE_LIBPNG=1', '-DHAVE_MAGICKWAND=6', '-DHAVE_FFMPEG=1']
INC = ['-I' + REPO + '/include', '-I' + REPO + '/lib', '-I' + MODEL, '-I' + HARN]
MAGICK = ['-I/usr/include/x86_64-linux-gnu/ImageMagick-6', '-I/usr/include/ImageMagick-6', '-DMAGICKCORE_HDRI_ENABLE=0', '-DMAGICKCORE_QUANTUM_DEPTH=16']
PER_FILE = {'lib/image/magickwand.c': MAGICK, 'lib/image/libpng.c': ['-I/usr/include/libpng16'], 'lib/image/ffmpeg.c': ['-I/usr/include/x86_64-linux-gnu']}
WRAP = ['malloc', 'calloc', 'realloc', 'reallocarray', 'free', 'strdup', 'strndup', 'fopen', 'fopen64', 'fclose']
UB = '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,bounds,vla-bound'


HURRY = None
DEADLINE = None      # absolute time by which every job stops


class Inconclusive(Exception):
    pass


def rel(pats, exclude=()):
    out = []
    for p in pats:
        for f in sorted(glob.glob(os.path.join(REPO, p))):
            r = os.path.relpath(f, REPO)
            if r not in exclude and r not in out:
                out.append(r)
    return out


EXT_READERS = {'libjpeg': 'lib/image/libjpeg.c', 'libpng': 'lib/image/libpng.c', 'magickwand': 'lib/image/magickwand.c', 'ffmpeg': 'lib/image/ffmpeg.c'}


def core_sources():
    return rel(['lib/*.c'])


def fftw_sources():
    return core_sources() + rel(['lib/transform/fftw.c'])


def kiss_sources():
    return core_sources() + rel(['lib/transform/kiss*.c', 'lib/kissfft/kiss_fft.c', 'lib/kissfft/kiss_fftr.c', 'lib/kissfft/kiss_fftnd.c', 'lib/kissfft/kiss_fftndr.c'])


def rel_new_lib():
    """library files other than the known top-level ones (a helper file split out of them)"""
    return rel(['lib/*.c'], ['lib/%s.c' % x for x in ('analysis', 'image', 'image_readers', 'methods', 'resdetect', 'util')])


def reader_sources(keep=()):
    """every reader source except the external-library ones not in keep (a split-out helper file is picked up too)"""
    skip = [v for k, v in EXT_READERS.items() if k not in keep]
    return rel(['lib/image/*.c'], skip)


class Job:
    def __init__(self, name, harness, sources, defs=None, cdefs=(), models=('fftw.c',), timeout=300, bounds='', tier='quick', ub=True,
                 max_paths=400000, max_steps=30000000, per_file=None, native_libs=(), native_timeout=20, entry='main', covers=None, weight=1,
                 uninit=True, srcflags=None, affine=False, max_viol=3, known=(), optional=False, shared=False):
        self.__dict__.update(locals())
        del self.__dict__['self']
        self.defs = dict(defs or {})
        self.cdefs = list(cdefs)
        self.per_file = dict(per_file or {})

    def defflags(self):
        return ['-D%s=%s' % kv for kv in sorted(self.defs.items())]


def run(cmd, timeout=None, env=None, cwd=None, stdin=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return -999, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')
    return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')


class Build:
    """one scratch directory per run; objects are shared between jobs with the same flags"""

    def __init__(self, prop):
        base = os.path.join(VERIF, '.build')
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + '-', dir=base)
        self.cache = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def flags(self, job, src):
        """(list of flags, is repo source)"""
        f = BASE_DEFS + job.cdefs + INC
        if src.startswith(REPO + '/'):
            r = os.path.relpath(src, REPO)
            f = f + PER_FILE.get(r, []) + list(job.per_file.get(r, []))
            if 'kiss' in r:
                f.append('-I' + REPO + '/lib/kissfft')
            return f, True
        return f + job.defflags() + list(job.per_file.get(os.path.basename(src), [])), False

    def sources(self, job, native):
        out = [os.path.join(REPO, s) for s in job.sources]
        out += [os.path.join(MODEL, m) for m in job.models]
        out.append(os.path.join(MODEL, 'native.c' if native else 'libc.c'))
        out.append(os.path.join(HARN, job.harness))
        if job.shared and native:
            out.append(os.path.join(HARN, 'protect.c'))
        return out

    def command(self, job, src, native):
        fl, repo = self.flags(job, src)
        ext = '.o' if native else '.ll'
        h = hashlib.sha1(repr((src, fl, native, job.ub, job.shared)).encode()).hexdigest()[:16]
        out = os.path.join(self.dir, os.path.basename(src) + '-' + h + ext)
        if native:
            cmd = ['clang', '-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-fno-sanitize=function,alignment',
                   '-ftrivial-auto-var-init=pattern', '-w', '-std=gnu99', '-c', src, '-o', out] + fl
            if job.shared:
                cmd = [x for x in cmd if 'sanitize' not in x] + (['-include', os.path.join(HARN, 'shared.h')] if repo else [])
        else:
            cmd = ['clang', '-O1', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-builtin', '-fno-pic', '-fno-pie', '-D__NO_CTYPE', '-D_FORTIFY_SOURCE=0',
                   '-ffp-contract=off', '-S', '-emit-llvm', '-std=gnu99', '-w', src, '-o', out] + fl
            if repo and job.ub and 'kissfft/' not in src:
                cmd += [UB, '-fsanitize-trap=all']
        return out, cmd

    def compile_all(self, jobs, native=False):
        todo = {}
        for j in jobs:
            for s in self.sources(j, native):
                out, cmd = self.command(j, s, native)
                if not os.path.exists(out):
                    todo[out] = cmd
        errs = {}

        def one(it):
            out, cmd = it
            tmp = out + '.tmp'
            c = [tmp if x == out else x for x in cmd]
            rc, o, e = run(c, timeout=300)
            if rc != 0:
                errs[out] = (o + e)[-2000:]
            else:
                os.rename(tmp, out)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, todo.items()))
        return errs

    def ir(self, job):
        return [self.command(job, s, False)[0] for s in self.sources(job, False)]

    def native(self, job):
        exe = os.path.join(self.dir, re.sub(r'\W', '_', job.name) + '.exe')
        if os.path.exists(exe):
            return exe
        errs = self.compile_all([job], True)
        objs = [self.command(job, s, True)[0] for s in self.sources(job, True)]
        for o in objs:
            if o in errs:
                raise Inconclusive('native build: ' + errs[o])
        cmd = ['clang'] + ([] if job.shared else ['-fsanitize=address,undefined']) + ['-no-pie', '-Wl,--unresolved-symbols=ignore-all', '-o', exe] + objs + \
              ['-Wl,--wrap=' + w for w in WRAP] + list(job.native_libs) + ['-lm']
        rc, o, e = run(cmd, timeout=300)
        if rc != 0:
            raise Inconclusive('cannot link %s: %s' % (job.name, (o + e)[-1500:]))
        return exe


def replay(exe, vals, scratch, timeout=20):
    """run the native build on the counterexample -> (description or None, last output)"""
    vf = os.path.join(scratch, 'vals-%d-%s.txt' % (os.getpid(), hashlib.sha1(repr(vals).encode()).hexdigest()[:10]))
    with open(vf, 'w') as f:
        for k, v in vals:
            f.write('%s %d\n' % (k, v))
    last = ''
    for fillv in ('0xA5', '0xFF', '0x00', '0x7F', '0x3F'):
        env = dict(os.environ, VREPLAY=vf, VFILL=fillv,
                   ASAN_OPTIONS='exitcode=43:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=1:max_allocation_size_mb=4096',
                   UBSAN_OPTIONS='exitcode=44:print_stacktrace=1')
        rc, o, e = run([exe], timeout=timeout, env=env)
        if rc == 42:
            return re.search(r'ASSERTION VIOLATED: .*', e).group(0), ''
        if rc in (43, 44) or 'runtime error:' in e or 'AddressSanitizer' in e:
            m = re.search(r'(ERROR: AddressSanitizer.*|.*runtime error:.*)', e)
            return (m.group(0) if m else 'sanitizer report'), ''
        if rc == -999:
            return 'does not terminate (native run killed after %ds)' % timeout, ''
        if rc < 0:
            return 'killed by signal %d' % -rc, ''
        last = 'rc=%d %s' % (rc, e[-300:])
    return None, last


def expected_witnesses(src):
    t = open(src).read()
    return set(re.findall(r'(?:VWITNESS|VCOVER)\((?:.*?,\s*)?"([^"]*)"\)', t))


def new_result(job):
    return {'job': job.name, 'bounds': job.bounds, 'status': 'ok', 'obligations': 0, 'discharged': 0, 'solver_s': 0.0, 'queries': 0, 'paths': 0, 'witnesses': 0,
            'violations': [], 'unconfirmed': [], 'notes': [], 'functions': [], 'assertions': [], 'known': []}


def symex(job, files, repo_files):
    """symbolic execution proper (in a worker process) -> result dict"""
    import terms, ir, engine, solver, compile as C
    r = new_result(job)
    terms.reset()
    mods = [ir.Module(f) for f in files]
    timeout = min(job.timeout, DEADLINE-time.time()) if DEADLINE else job.timeout
    if timeout < 3:
        r['status'] = 'undecided'
        r['notes'].append('no time left')
        r['raw'], r['missing'] = [], []
        return r
    eng = engine.Engine(mods, max_paths=job.max_paths, max_steps=job.max_steps, timeout=timeout, uninit_symbolic=job.uninit)
    if job.shared:
        # the library's own static variables, those of one thread excepted, must not be written by any call
        # nor may those of C library functions that are not safe to call from several threads
        for m, fn in zip(mods, files):
            for name, g in m.globals.items():
                if fn in repo_files or name.lstrip('@').startswith(('strtok.', 'setlocale.')):
                    if g[1] is not None and name not in m.tls:
                        eng.base.mem[eng.msym[(m, name)] >> engine.SHIFT].const = True
    if job.affine:
        import affine
        affine.enable(eng)
    eng.hurry, eng.patient = None if job.shared else HURRY, bool(job.known)
    eng.max_viol = job.max_viol + len(job.known)
    try:
        eng.run(job.entry)
        eng.cut()
    except engine.Limit as e:
        eng.cut()
        r['status'] = 'undecided'
        r['notes'].append('limit: %s' % e)
    except solver.Unknown as e:
        r['status'] = 'undecided'
        r['notes'].append('solver gave up: %s' % e)
    s = eng.solver
    r['queries'], r['solver_s'], r['paths'] = s.queries, s.time, eng.paths
    r['sat'], r['unsat'] = s.sat, s.unsat
    r['steps'] = eng.steps
    defined = {f[1:] for m, fn in zip(mods, files) if fn in repo_files for f in m.funcs}
    r['functions'] = sorted(eng.called & defined)
    r['assertions'] = sorted(a for a in eng.asserts if not a.startswith(('read within', 'write within')))
    r['obligations'] = sum(eng.asserts.values())
    r['discharged'] = r['obligations'] - len(eng.violations)
    r['raw'] = [(v.kind, v.msg, v.where, v.values) for v in eng.violations]
    want = expected_witnesses(os.path.join(HARN, job.harness)) if job.covers is None else set(job.covers)
    r['witnesses'] = len(eng.witnesses)
    r['missing'] = sorted(want - eng.witnesses)
    return r


def _worker(args):
    job, files, repo_files = args
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    t0 = time.time()
    try:
        r = symex(job, files, repo_files)
    except Exception as e:
        r = new_result(job)
        r['status'] = 'inconclusive'
        r['notes'].append('engine failure: %s' % traceback.format_exc()[-700:])
        r['raw'], r['missing'] = [], []
    r['wall_s'] = round(time.time() - t0, 2)
    return r


def settle(build, job, r):
    """replay what the solver found; decide the job's status"""
    raw = r.pop('raw', [])
    missing = r.pop('missing', [])
    if job.shared:      # whether the calls are right is the subject of other properties
        raw = [v for v in raw if v[1].startswith('write to read-only')]
        missing = []
    raw.sort(key=lambda v: v[0] != 'assert')
    for kind, msg, where, values in raw[:6]:
        try:
            exe = build.native(job)
        except Inconclusive as e:
            r['status'] = 'inconclusive'
            r['notes'].append(str(e))
            return
        desc, last = replay(exe, values, build.dir, job.native_timeout)
        if desc:
            k = [x for x in job.known if x['match'] in desc or x['match'] in msg]
            if k:
                r['known'].append(k[0]['text'])
            else:
                r['violations'].append({'kind': kind, 'description': msg, 'where': where, 'native': desc, 'values': values})
        else:
            r['unconfirmed'].append({'kind': kind, 'description': msg, 'where': where, 'native': last, 'values': values[:40]})
    if r['violations']:
        r['status'] = 'violation'
    elif r['unconfirmed']:
        bad = [u for u in r['unconfirmed'] if u['kind'] in ('assert', 'steps', 'engine')]
        if bad:
            r['status'] = 'inconclusive'
            r['notes'].append('counterexample does not reproduce: %s at %s (%s)' % (bad[0]['description'], bad[0]['where'], bad[0]['native']))
        else:
            r['notes'].append('unconfirmed: %s' % '; '.join('%s at %s' % (u['description'], u['where']) for u in r['unconfirmed']))
    elif missing and r['status'] == 'ok':
        r['status'] = 'inconclusive'
        r['notes'].append('vacuous: never reached: ' + ', '.join(missing))


class PyJob:
    """a job decided by another symbolic engine of this framework: fn(build) -> result dict"""

    def __init__(self, name, fn, bounds='', weight=1, tier='quick'):
        self.name, self.fn, self.bounds, self.weight, self.tier = name, fn, bounds, weight, tier
        self.known, self.shared = (), False


def _pyworker(a):
    job, build = a
    t0 = time.time()
    try:
        r = job.fn(build)
    except Exception:
        r = new_result(job)
        r['status'] = 'inconclusive'
        r['notes'].append('engine failure: %s' % traceback.format_exc()[-700:])
    r['wall_s'] = round(time.time() - t0, 2)
    return r


_fork_jobs = []


def _forked(i):
    kind, payload = _fork_jobs[i]
    return i, (_worker(payload) if kind == 'sym' else _pyworker(payload))


def run_jobs(build, jobs, verbose=False):
    sym = [j for j in jobs if isinstance(j, Job)]
    errs = build.compile_all(sym)
    results = []
    global _fork_jobs
    _fork_jobs = []
    idx = []
    for j in sorted(jobs, key=lambda j: -j.weight):
        if isinstance(j, Job):
            files = build.ir(j)
            bad = [f for f in files if f in errs]
            if bad:
                r = new_result(j)
                # a harness that reaches below the public interface may stop fitting; the sources themselves must compile
                opt = j.optional and all('/h/' in ' '.join(build.command(j, s, False)[1]) for s in build.sources(j, False) if build.command(j, s, False)[0] in errs)
                r['status'] = 'undecided' if opt else 'inconclusive'
                r['notes'].append('does not compile: ' + errs[bad[0]])
                r['wall_s'] = 0
                results.append(r)
                continue
            rf = {build.command(j, s, False)[0] for s in build.sources(j, False) if s.startswith(REPO + '/')}
            _fork_jobs.append(('sym', (j, files, rf)))
        else:
            _fork_jobs.append(('py', (j, build)))
        idx.append(j)
    if _fork_jobs:
        ctx = mp.get_context('fork')
        global HURRY
        HURRY = ctx.Value('d', 0.0, lock=False)
        got = []

        def show(r):
            if verbose:
                print('%-40s %-12s %6.1fs solver %5.1fs paths %-6d steps %-9d obl %-6d %s' % (r['job'], r['status'], r['wall_s'], r['solver_s'], r['paths'], r.get('steps', 0), r['obligations'],
                      '; '.join(str(n)[-600:] for n in r['notes'])), flush=True)
        with ctx.Pool(min(NCPU, len(_fork_jobs)), maxtasksperchild=1) as pool:
            for i, r in pool.imap_unordered(_forked, range(len(_fork_jobs)), chunksize=1):
                if r.get('raw'):        # replay once the pool is gone (its forks would inherit our pipes)
                    got.append((idx[i], r))
                else:
                    settle(build, idx[i], r)
                    show(r)
                results.append(r)
        for j, r in got:
            settle(build, j, r)
            show(r)
    results.sort(key=lambda r: r['job'])
    return results


def load_known():
    try:
        return json.load(open(os.path.join(VERIF, 'known_findings.json')))
    except FileNotFoundError:
        return {'known': [], 'fixed': []}


def run_check(prop, title, tier, jobs, assumptions, explanation, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    jobs = [j for j in jobs if tier == 'thorough' or j.tier == 'quick']
    build = Build(prop)
    global DEADLINE
    DEADLINE = t0 + (600 if tier == 'quick' else 6*3600)
    try:
        results = run_jobs(build, jobs, verbose)
    finally:
        build.close()
    rc = 0
    vdir = os.path.join(VERIF, 'replays', prop)
    shutil.rmtree(vdir, ignore_errors=True)
    nviol = 0
    for r in results:
        for v in r['violations']:
            os.makedirs(vdir, exist_ok=True)
            path = os.path.join(vdir, re.sub(r'\W+', '_', r['job']) + '-%d.json' % nviol)
            with open(path, 'w') as f:
                json.dump(dict(v, property=prop, job=r['job'], how='python3 /verif/check.py --replay ' + path), f, indent=1)
            print('violated: %s: %s at %s (%s)' % (r['job'], v['description'], v.get('where', ''), v['native']))
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
            nviol += 1
    for r in results:
        for u in r['unconfirmed']:
            print('not reproduced: %s: %s at %s' % (r['job'], u['description'], u['where']))
    seen = set()
    for r in results:
        for k in r['known']:
            if k not in seen:
                seen.add(k)
                print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if nviol:
        rc = 1
    und = [r for r in results if r['status'] == 'undecided']
    for r in und:
        print('undecided: %s: %s' % (r['job'], '; '.join(str(n)[-400:] for n in r['notes'])))
    if not nviol and (any(r['status'] == 'inconclusive' for r in results) or len(und)*2 > len(results) or not results):
        rc = 2
        for r in results:
            if r['status'] == 'inconclusive':
                print('inconclusive: %s: %s' % (r['job'], '; '.join(str(n)[-1200:] for n in r['notes'])))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': explanation,
            'title': title,
            'obligations': sum(r['obligations'] for r in results),
            'discharged': sum(r['discharged'] for r in results),
            'jobs': len(results),
            'jobs_decided': sum(r['status'] not in ('inconclusive', 'undecided') for r in results),
            'jobs_undecided': [r['job'] for r in und],
            'paths': sum(r['paths'] for r in results),
            'solver_queries': sum(r['queries'] for r in results),
            'reachability_witnesses_reached': sum(r['witnesses'] for r in results),
            'solver_time_s': round(sum(r['solver_s'] for r in results), 2),
            'functions_encoded': sorted({f for r in results for f in r.get('functions', [])}),
            'assertions': sorted({a for r in results for a in r.get('assertions', [])}),
            'samples': [{'job': r['job'], 'bounds': r['bounds'], 'status': r['status'], 'obligations': r['obligations'], 'discharged': r['discharged'], 'paths': r['paths'],
                         'queries': r['queries'], 'solver_s': round(r['solver_s'], 2), 'wall_s': r['wall_s'], 'notes': [str(n)[:300] for n in r['notes']]}
                        for r in results],
        },
        'assumptions': assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': nviol,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d jobs, %d/%d obligations discharged, %d paths, %d queries, solver %.1fs, wall %.1fs -> %s' % (
        prop, tier, len(results), ev['coverage']['discharged'], ev['coverage']['obligations'], ev['coverage']['paths'], ev['coverage']['solver_queries'],
        ev['coverage']['solver_time_s'], ev['wall_s'], {0: 'held', 1: 'VIOLATED', 2: 'INCONCLUSIVE'}[rc]))
    return rc
