"""The runner: generated cases against an oracle, shrinking, replay, evidence.

A *check* (one per property) is a list of sub-checks.  A sub-check couples a
generator of JSON-serialisable case descriptions ("specs") with a function
that builds the case from the spec, runs the code in /repo and raises when the
oracle disagrees.  A spec is all that is needed to run a case again, so a
shrunk failing spec is the replay file.
"""
import contextlib
import functools
import hashlib
import importlib
import io
import json
import multiprocessing
import multiprocessing.connection
import os
import sys
import tempfile
import time
import traceback
import warnings

from . import boot

ROOT = boot.ROOT


class Fail(AssertionError):
    """The oracle disagrees with the code under test"""


def fail(*parts):
    raise Fail(' '.join(str(p) for p in parts))


class Ev:
    """What one evaluation tells about itself"""

    def __init__(self):
        self.tags = []
        self.nontrivial = False
        self.known = None

    def tag(self, *tags):
        self.tags.extend(str(t) for t in tags)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


class KnownFinding(Exception):
    """Raised by a check at a failure which known_findings.json lists"""

    def __init__(self, key):
        super().__init__(key)
        self.key = key


class Sub:
    """One generated sub-check.

    strategy: function returning a Hypothesis strategy of specs, or None
    cases:    function returning an iterable of specs (complete enumeration)
    check:    function(spec, ev)
    quick, thorough: number of generated cases per tier
    """

    def __init__(self, name, check, strategy=None, cases=None, quick=500,
                 thorough=None, note='', shards=4):
        self.name = name
        self.check = check
        self.strategy = strategy
        self.cases = cases
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.note = note
        self.shards = shards


def canon(spec):
    return json.dumps(spec, sort_keys=True, ensure_ascii=True)


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.tags = {}
        self.samples = []
        self.known = {}

    def add(self, spec, ev):
        self.evaluations += 1
        for t in set(ev.tags):
            self.tags[t] = self.tags.get(t, 0) + 1
        if ev.known:
            self.known[ev.known] = self.known.get(ev.known, 0) + 1
        if ev.nontrivial:
            h = hashlib.blake2b(canon(spec).encode(), digest_size=8).digest()
            if h not in self.distinct:
                self.distinct.add(h)
                n = len(self.distinct)
                if n in (2, 17, 101, 401) and len(canon(spec)) < 3000:
                    self.samples.append(spec)


@contextlib.contextmanager
def quiet():
    """Cases print nothing and warn about nothing"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()):
            yield


_current = [None, 0]     # file which tells the case a worker is at
LIMIT = 120             # seconds after which a single case counts as endless


def evaluate(sub, spec, stats=None):
    """Run one case in a clean global state; raises when it fails"""
    from . import lib
    if _current[0] is not None:
        text = canon(spec).encode()
        os.pwrite(_current[0], text + b' ' * max(0, _current[1] - len(text)), 0)
        _current[1] = len(text)
    ev = Ev()
    with quiet(), lib.clean_state():
        try:
            sub.check(spec, ev)
        except KnownFinding as e:
            if not listed(e.key):
                raise Fail('not listed in known_findings.json: ' + e.key)
            ev.known = e.key
    if stats is not None:
        stats.add(spec, ev)
    return ev


def run_sub(prop, modname, index, seed, count):
    """Runs in a worker process.  Returns a JSON-able result."""
    t0 = time.time()
    mod = importlib.import_module('pbt.' + modname)
    sub = mod.SUBS[index]
    stats = Stats()
    res = {'sub': sub.name, 'failure': None, 'error': None}
    last = {}

    def body(spec):
        try:
            evaluate(sub, spec, stats)
        except Exception:
            last['spec'] = spec
            last['trace'] = traceback.format_exc()
            raise

    try:
        if sub.cases is not None:
            # every count-th case, from the seed-th on
            for i, spec in enumerate(sub.cases()):
                if i % count == int(seed):
                    body(spec)
        else:
            import hypothesis
            from hypothesis import HealthCheck, Phase, settings
            import hypothesis.internal.conjecture.engine as engine
            engine.MAX_SHRINKING_SECONDS = 40
            number = int(hashlib.sha256(
                ('%s/%s/%s' % (prop, sub.name, seed)).encode()
            ).hexdigest()[:12], 16)
            test = hypothesis.given(sub.strategy())(body)
            test = settings(
                max_examples=count, database=None, deadline=None,
                derandomize=False, report_multiple_bugs=False,
                print_blob=False,
                phases=[Phase.explicit, Phase.generate, Phase.target, Phase.shrink],
                suppress_health_check=[HealthCheck.too_slow,
                                       HealthCheck.large_base_example,
                                       HealthCheck.data_too_large],
            )(test)
            test = hypothesis.seed(number)(test)
            with quiet():
                test()
    except BaseException:
        if last:
            res['failure'] = {'spec': last['spec'], 'trace': last['trace']}
        else:
            res['error'] = traceback.format_exc()
    res.update(
        evaluations=stats.evaluations,
        distinct=[d.hex() for d in stats.distinct],
        tags=stats.tags, samples=stats.samples[:3], known=stats.known,
        wall=round(time.time() - t0, 2),
    )
    return res


def _worker(job, conn, path):
    _current[0] = os.open(path, os.O_WRONLY | os.O_CREAT)
    conn.send(run_sub(*job))
    conn.close()


def run_jobs(jobs, procs):
    """Run the jobs in processes of their own.

    A process which dies (a crash of the interpreter, no memory) or does not
    get anywhere counts as a failure of the case it was at.
    """
    ctx = multiprocessing.get_context('fork')
    todo, running, results = list(jobs), {}, []
    with tempfile.TemporaryDirectory(prefix='verif-') as d:
        try:
            while todo or running:
                while todo and len(running) < procs:
                    job = todo.pop(0)
                    path = os.path.join(d, str(len(todo)))
                    ours, theirs = ctx.Pipe(False)
                    p = ctx.Process(target=_worker, args=(job, theirs, path))
                    p.start()
                    theirs.close()
                    running[ours] = (p, job, path)
                for c in multiprocessing.connection.wait(list(running), 5):
                    p, job, path = running.pop(c)
                    try:
                        results.append(c.recv())
                    except EOFError:
                        p.join()
                        results.append(lost(job, path, 'the process ended with %s' % p.exitcode))
                    p.join()
                    c.close()
                for c, (p, job, path) in list(running.items()):
                    if os.path.exists(path) and time.time() - os.path.getmtime(path) > LIMIT:
                        p.kill()
                        p.join()
                        c.close()
                        del running[c]
                        results.append(lost(job, path, 'no answer within %d s' % LIMIT))
        finally:
            for p, job, path in running.values():
                p.kill()
    return results


def lost(job, path, why):
    mod = importlib.import_module('pbt.' + job[1])
    res = {'sub': mod.SUBS[job[2]].name, 'failure': None, 'error': None, 'evaluations': 0,
           'distinct': [], 'tags': {}, 'samples': [], 'known': {}, 'wall': 0}
    try:
        with open(path) as f:
            res['failure'] = {'spec': json.load(f), 'trace': why}
    except Exception:
        res['error'] = why
    return res


def load_known(prop=None):
    path = os.path.join(ROOT, 'known_findings.json')
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if prop in (None, k['property'])]


@functools.lru_cache(None)
def listed(key):
    return key in [k['key'] for k in load_known()]


def write_replay(prop, sub, failure):
    d = os.path.join(ROOT, 'replay')
    os.makedirs(d, exist_ok=True)
    spec = failure['spec']
    h = hashlib.blake2b(canon([sub, spec]).encode(), digest_size=5).hexdigest()
    path = os.path.join(d, '%s-%s-%s.json' % (prop, sub.replace(' ', '_'), h))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'sub': sub, 'spec': spec,
                   'trace': failure['trace'].splitlines()[-12:]}, f, indent=1)
        f.write('\n')
    return path


def run(prop, tier, seed):
    t0 = time.time()
    modname = prop.lower()
    mod = importlib.import_module('pbt.' + modname)
    known = load_known(prop)
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    jobs = []
    for i, sub in enumerate(mod.SUBS):
        if sub.cases is not None:
            jobs.extend((prop, modname, i, str(k), sub.shards) for k in range(sub.shards))
            continue
        count = sub.quick if tier == 'quick' else sub.thorough
        count = max(1, int(count * scale))
        shard = 300 if tier == 'quick' else 2500    # split over the processes
        n = max(1, -(-count // shard))
        for s in range(n):
            tag = str(seed) if s == 0 else '%s.%d' % (seed, s)
            jobs.append((prop, modname, i, tag, -(-count // n)))
    jobs.sort(key=lambda j: -j[4])
    results = run_jobs(jobs, int(os.environ.get('VERIF_PROCS', '8')))

    order = {s.name: i for i, s in enumerate(mod.SUBS)}
    results.sort(key=lambda r: order[r['sub']])
    failures, errors = {}, []
    subs = {}
    distinct = 0
    samples = []
    seen_known = {}
    for r in results:
        s = subs.setdefault(r['sub'], {
            'evaluations': 0, 'distinct': set(), 'tags': {}, 'wall_s': 0})
        s['evaluations'] += r['evaluations']
        s['distinct'].update(r['distinct'])
        s['wall_s'] = round(s['wall_s'] + r['wall'], 2)
        for t, n in r['tags'].items():
            s['tags'][t] = s['tags'].get(t, 0) + n
        for k, n in r['known'].items():
            seen_known[k] = seen_known.get(k, 0) + n
        for x in r['samples'][-1:]:
            x = {'sub': r['sub'], 'spec': x}
            if x not in samples and [y['sub'] for y in samples].count(r['sub']) < 3:
                samples.append(x)
        if r['failure']:
            f = failures.get(r['sub'])
            if f is None or len(canon(r['failure']['spec'])) < len(canon(f['spec'])):
                failures[r['sub']] = r['failure']
        if r['error']:
            errors.append((r['sub'], r['error']))
    for s in subs.values():
        distinct += len(s['distinct'])
        s['distinct_nontrivial'] = len(s.pop('distinct'))
        s['tags'] = dict(sorted(s['tags'].items(), key=lambda kv: -kv[1])[:60])
    evaluations = sum(s['evaluations'] for s in subs.values())
    evidence = {
        'property': prop, 'tier': tier, 'seed': int(seed), 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations, 'distinct_nontrivial': distinct,
            'rule': ' '.join(mod.RULE.split()), 'samples': samples,
            'per_subcheck': subs,
            'known_findings_met': seen_known,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(failures),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write('\n')

    print('%s %s seed=%s: %d cases, %d distinct non-trivial, %.1f s' % (
        prop, tier, seed, evaluations, distinct, time.time() - t0))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for name, f in sorted(failures.items()):
        path = write_replay(prop, name, f)
        print('--- %s/%s\n%s\nspec: %s' % (
            prop, name, f['trace'][-2500:], canon(f['spec'])[:2000]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if failures:
        return 1
    if errors:
        for name, e in errors:
            print('ERROR in %s/%s\n%s' % (prop, name, e), file=sys.stderr)
        return 2
    return 0


def replay(path):
    with open(path) as f:
        data = json.load(f)
    prop = data['property']
    mod = importlib.import_module('pbt.' + prop.lower())
    sub = [s for s in mod.SUBS if s.name == data['sub']][0]
    try:
        ev = evaluate(sub, data['spec'])
    except Exception:
        traceback.print_exc()
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if ev.known:
        print('KNOWN-FINDING: property=%s %s' % (prop, ev.known))
    print('%s: the property holds for this case' % prop)
    return 0
