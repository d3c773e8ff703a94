"""Harness: a Jython worker that runs the real code, and a Hypothesis driver that decides one property.

A check module defines   PROPERTY = 'Cxx'   and   PARTS = [Part(...), ...].
Each part draws cases from a Hypothesis strategy (plain literals only, so that a case can be written down and replayed)
and judges each with a function fn(ctx, case) that raises Violation, or calls ctx.trivial() / ctx.label().
"""
import ast, hashlib, json, os, queue, subprocess, sys, tempfile, threading, time, traceback

import hypothesis
from hypothesis import HealthCheck, Phase, settings, strategies as st
import warnings
warnings.filterwarnings("ignore", category=hypothesis.errors.HypothesisWarning)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
JY = '/opt/jy/jy'


class Violation(Exception):
    """The property does not hold on this case. key identifies a (possibly known) finding."""
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class HarnessError(Exception):
    """Something about the check itself went wrong: never a verdict."""


class Raised(object):
    """An exception raised by the code under test."""
    def __init__(self, cls, text, tb):
        self.cls, self.text, self.tb = cls, text, tb

    def __repr__(self):
        return 'Raised(%s: %s)' % (self.cls, self.text[:300])


class Obj(object):
    def __init__(self, cls, text):
        self.cls, self.text = cls, text

    def __repr__(self):
        return 'Obj(%s)' % self.text

    def __eq__(self, o):
        return isinstance(o, Obj) and (o.cls, o.text) == (self.cls, self.text)


class Hang(Exception):
    pass


class U(str):
    """A str to be sent as a unicode object instead of a byte string."""


def enc(x):
    if isinstance(x, U):
        return {'$u': str(x)}
    if isinstance(x, float):
        return {'$f': repr(x)}
    if isinstance(x, tuple):
        return {'$t': [enc(i) for i in x]}
    if isinstance(x, list):
        return [enc(i) for i in x]
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    return x


def dec(x):
    if isinstance(x, list):
        return [dec(i) for i in x]
    if isinstance(x, dict):
        if len(x) == 1:
            if '$t' in x:
                return tuple(dec(i) for i in x['$t'])
            if '$f' in x:
                return float(x['$f'])
            if '$o' in x:
                return Obj(*x['$o'])
        return {k: dec(v) for k, v in x.items()}
    return x


class Worker(object):
    """A long-lived Jython process importing the code from REPO's working tree."""
    def __init__(self, stubs=False, timeout=60.0):
        self.stubs = stubs
        self.timeout = timeout
        self.p = None
        self.calls = 0

    def start(self):
        env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'CLASSPATH', 'JYTHONPATH')}
        path = [os.path.join(VERIF, 'lib', 'jy')]
        if self.stubs:
            path.append(os.path.join(VERIF, 'lib', 'stubs'))
        path += ['/opt/bgsite', REPO]
        env['JYTHONPATH'] = ':'.join(path)
        env['VF_REPO'] = REPO
        # stale compiled classes beside the sources would hide a change of the sources
        for d, _, fs in os.walk(os.path.join(REPO, 'bglib')):
            for f in fs:
                if f.endswith('$py.class'):
                    try:
                        os.unlink(os.path.join(d, f))
                    except OSError:
                        pass
        self.p = subprocess.Popen([JY, '-B', os.path.join(VERIF, 'lib', 'jy', 'worker.py')],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=None if os.environ.get('VF_WORKER_STDERR') else subprocess.DEVNULL,
                                  env=env, cwd='/', start_new_session=True)
        self.q = queue.Queue()

        def pump(out, q):
            for line in iter(out.readline, b''):
                q.put(line)
            q.put(None)
        threading.Thread(target=pump, args=(self.p.stdout, self.q), daemon=True).start()

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, 9)
            except OSError:
                pass
            self.p.wait()
            for s in (self.p.stdin, self.p.stdout):
                try:
                    s.close()
                except OSError:
                    pass
            self.p = None

    def call(self, mod, fn, *args):
        """Result of the call, or a Raised. Raises Hang if no answer came."""
        first = self.p is None
        if first:
            self.start()
        self.calls += 1
        msg = json.dumps({'m': mod, 'f': fn, 'a': [enc(a) for a in args]}) + '\n'
        try:
            self.p.stdin.write(msg.encode('ascii'))
            self.p.stdin.flush()
            line = self.q.get(timeout=self.timeout + (120 if first else 0))
        except queue.Empty:
            self.stop()
            raise Hang('no answer within %d s' % self.timeout)
        except OSError as e:
            line = None
        if line is None:
            rc = self.p.poll()
            self.stop()
            raise HarnessError('worker died (rc=%r) on %s.%s' % (rc, mod, fn))
        r = json.loads(line)
        if 'h' in r:
            raise HarnessError('worker could not run %s.%s:\n%s' % (mod, fn, r['h']))
        if 'x' in r:
            return Raised(*r['x'])
        return dec(r['r'])


class Part(object):
    def __init__(self, name, strategy, fn, quick, thorough, examples=(), rule='', weight=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough
        self.examples, self.rule = list(examples), rule


class Ctx(object):
    def __init__(self, worker, known):
        self.worker = worker
        self.known_keys = known
        self.is_trivial = False
        self.labels = {}
        self.known_hits = {}

    def call(self, mod, fn, *args):
        try:
            return self.worker.call(mod, fn, *args)
        except Hang:
            try:  # once more in a fresh process before believing it
                return self.worker.call(mod, fn, *args)
            except Hang as e:
                raise Violation('%s.%s%r does not terminate (%s, twice)' % (mod, fn, args, e))

    def ok(self, mod, fn, *args):
        """Call that must not raise."""
        r = self.call(mod, fn, *args)
        if isinstance(r, Raised):
            raise Violation('unexpected %s: %s\n%s' % (r.cls, r.text[:300], r.tb[-1500:]))
        return r

    def trivial(self):
        self.is_trivial = True

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def fail(self, msg, key=None):
        """Report: raises unless the finding is a known one (then notes it and carries on)."""
        if key is not None and key in self.known_keys:
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            return
        raise Violation(msg, key)

    def check(self, cond, msg, key=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, key)

    def eq(self, got, want, what, key=None):
        if got != want:
            self.fail('%s: got %r, expected %r' % (what, got, want), key)


class Stats(object):
    def __init__(self):
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.labels = {}
        self.per_part = {}
        self.known_hits = {}


def load_known(prop):
    fn = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            d = json.loads(line)
            if d['property'] == prop:
                out.append(d)
    return out


def short(case, n=700):
    s = repr(case)
    return s if len(s) <= n else s[:n] + '...'


def digest(fn, ctx, case):
    """Runs a check; an answer of a shape the oracle cannot even take apart is a violation, not a breakdown
    of the check (on the tree where the property holds every answer has its shape)."""
    try:
        return fn(ctx, case)
    except (TypeError, ValueError, LookupError, AttributeError) as e:
        raise Violation('the answer of the library could not be interpreted: %r\n%s' % (e, traceback.format_exc()[-1500:]))


def run_part(prop, part, n, seed, worker, known, stats, log):
    keys = set(k['key'] for k in known)
    state = dict(fail=None, failing=set(), t_fail=None, n=0)
    shrink_budget = float(os.environ.get('VF_SHRINK_S', '60'))

    def one(case):
        r = repr(case)
        if state['t_fail'] is not None and time.time() - state['t_fail'] > shrink_budget and r not in state['failing']:
            return
        ctx = Ctx(worker, keys)
        stats.evals += 1
        state['n'] += 1
        try:
            digest(part.fn, ctx, case)
        except Violation as v:
            if state['t_fail'] is None:
                state['t_fail'] = time.time()
            state['failing'].add(r)
            state['fail'] = (case, str(v), v.key)
            raise
        finally:
            for k, v in ctx.known_hits.items():
                stats.known_hits[k] = stats.known_hits.get(k, 0) + v
        for l, c in ctx.labels.items():
            l = part.name + ':' + l
            stats.labels[l] = stats.labels.get(l, 0) + c
        if not ctx.is_trivial:
            h = hashlib.blake2b((part.name + r).encode(), digest_size=8).digest()
            if h not in stats.distinct:
                stats.distinct.add(h)
                k = stats.per_part.setdefault(part.name, 0)
                stats.per_part[part.name] += 1
                if k in (0, 7, 40):
                    stats.samples.append({'part': part.name, 'case': short(case)})

    for case in part.examples:
        try:
            one(case)
        except Violation as v:
            return case, str(v)
    if part.strategy is None or n <= 0:
        return None

    test = hypothesis.given(part.strategy)(one)
    test = settings(max_examples=n, deadline=None, database=None, derandomize=False,
                    report_multiple_bugs=False, print_blob=False,
                    suppress_health_check=list(HealthCheck),
                    phases=[Phase.generate] + [Phase.shrink] * ('VF_NOSHRINK' not in os.environ))(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except Violation as v:
        case, msg, key = state['fail']
        return case, msg
    except HarnessError:
        raise
    except (hypothesis.errors.Flaky, hypothesis.errors.FlakyFailure) as e:
        if state['fail'] is None:
            raise HarnessError('flaky without a violation: %r' % e)
        case, msg, key = state['fail']
        return case, msg + '\n(the outcome depends on the calls made before this one in the same process)'
    return None


def write_replay(prop, part, case, msg, seed, tier):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    name = '%s-%s-%s.json' % (prop, part, hashlib.blake2b(repr(case).encode(), digest_size=4).hexdigest())
    fn = os.path.join(d, name)
    with open(fn, 'w') as f:
        json.dump(dict(property=prop, part=part, case=repr(case), message=msg, seed=seed, tier=tier,
                       how='python3-vt /verif/checks/run.py %s --replay %s' % (prop, fn)), f, indent=1)
        f.write('\n')
    return fn


def _shard(args):
    """Runs parts of one check with one seed; returns plain data."""
    modname, prop, tier, seed, scale, only = args
    import importlib
    mod = importlib.import_module(modname)
    known = load_known(prop)
    stats = Stats()
    worker = Worker(stubs=getattr(mod, 'STUBS', False), timeout=getattr(mod, 'CALL_TIMEOUT', 60.0))
    found = None
    err = None
    try:
        for i, part in enumerate(mod.PARTS):
            if only and part.name not in only:
                continue
            n = part.quick if tier == 'quick' else part.thorough
            n = int(n * scale)
            r = run_part(prop, part, n, seed * 1009 + i * 31 + 7, worker, known, stats, None)
            if r is not None:
                found = (part.name, r[0], r[1])
                break
    except HarnessError as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    finally:
        worker.stop()
    return dict(found=found, err=err, evals=stats.evals, distinct=stats.distinct, samples=stats.samples,
                labels=stats.labels, per_part=stats.per_part, known_hits=stats.known_hits)


def main(modname):
    import importlib
    t0 = time.time()
    args = sys.argv[2:]
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in args:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = int(hashlib.blake2b(os.environ['VERIF_SEED'].encode(), digest_size=4).hexdigest(), 16)
    only = [a.split('=', 1)[1] for a in args if a.startswith('--part=')]
    scale = float(([a.split('=', 1)[1] for a in args if a.startswith('--scale=')] or ['1'])[0])
    known = load_known(prop)
    keys = set(k['key'] for k in known)

    if '--replay' in args:
        d = json.load(open(args[args.index('--replay') + 1]))
        part = [p for p in mod.PARTS if p.name == d['part']][0]
        worker = Worker(stubs=getattr(mod, 'STUBS', False))
        try:
            digest(part.fn, Ctx(worker, keys), ast.literal_eval(d['case']))
        except Violation as v:
            print('replay still violates:\n%s' % v)
            return 1
        finally:
            worker.stop()
        print('replay: the property holds on this case')
        return 0

    # known findings: each listed one is shown again by replaying its case
    if known:
        worker = Worker(stubs=getattr(mod, 'STUBS', False), timeout=getattr(mod, 'CALL_TIMEOUT', 60.0))
        try:
            for k in known:
                part = [p for p in mod.PARTS if p.name == k['part']][0]
                ctx = Ctx(worker, set([k['key']]))
                try:
                    part.fn(ctx, ast.literal_eval(k['case']))
                except Violation:
                    pass
                if k['key'] in ctx.known_hits:
                    print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
                else:
                    print('note: known finding %s no longer shows on its case' % k['key'])
        finally:
            worker.stop()

    if tier == 'thorough':
        nsh = int(os.environ.get('VF_SHARDS', '6'))
    else:
        nsh = int(os.environ.get('VF_SHARDS', str(getattr(mod, 'QUICK_SHARDS', 2))))
    jobs = [(modname, prop, tier, seed * 100 + s, scale / nsh if tier == 'quick' else scale, only) for s in range(nsh)]
    if nsh == 1:
        res = [_shard(jobs[0])]
    else:
        import multiprocessing as mp
        ctx = mp.get_context('spawn')
        with ctx.Pool(nsh) as pool:
            res = pool.map(_shard, jobs, chunksize=1)

    distinct = set()
    labels, per_part = {}, {}
    for r in res:
        distinct |= r['distinct']
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r['per_part'].items():
            per_part[k] = per_part.get(k, 0) + v
    found = [r['found'] for r in res if r['found']]
    errs = [r['err'] for r in res if r['err']]
    known_hits = {}
    for r in res:
        for k, v in r['known_hits'].items():
            known_hits[k] = known_hits.get(k, 0) + v
    samples = []
    for r in res:
        for s in r['samples']:
            if sum(1 for x in samples if x['part'] == s['part']) < 3:
                samples.append(s)
    rule = '; '.join('%s: %s' % (p.name, p.rule) for p in mod.PARTS if not only or p.name in only)
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=sum(r['evals'] for r in res), distinct_nontrivial=len(distinct), rule=rule,
                            samples=samples, distinct_per_part=per_part, classes=dict(sorted(labels.items())),
                            known_finding_hits=known_hits, shards=nsh),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(time.time() - t0, 2), violations=len(found))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    if found:
        for part, case, msg in found[:1]:
            fn = write_replay(prop, part, case, msg, seed, tier)
            print('part %s, case %s' % (part, short(case, 2000)))
            print(msg)
            print('VIOLATION property=%s replay=%s' % (prop, fn))
        return 1
    if errs:
        print('check error:\n' + errs[0], file=sys.stderr)
        return 2
    print('%s %s: held on %d cases (%d distinct non-trivial), %.1f s' %
          (prop, tier, ev['coverage']['evaluations'], len(distinct), time.time() - t0))
    return 0
