"""The runner: drives the sub-checks of one property over generated cases.

A sub-check is a pair (Hypothesis strategy, check function).  The strategy
makes plain data (dicts, lists, ints, strings, bytes), never objects of the
library, so that a failing case can be written to a replay file and run again
without Hypothesis.  The check function gets that data and an `Info` object,
raises on any disagreement with its oracle, and reports labels and whether the
case was non-trivial.
"""
import collections
import concurrent.futures
import hashlib
import json
import multiprocessing
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CASE_CPU_LIMIT = 60      # seconds of CPU one case may use before it is a hang
QUICK = 3                # multiplies the cases of the quick tier
GUIDED = 120             # seconds of coverage-guided search per sub-check
SHRINK_LIMIT = 25        # seconds spent on shrinking a failure


class Violation(AssertionError):
    """The library disagrees with the oracle."""

    def __init__(self, msg, key=''):
        AssertionError.__init__(self, msg)
        self.key = key


class Hang(BaseException):
    """One case used more CPU time than any case needs."""


def short(x, n=400):
    if isinstance(x, (bytes, bytearray)):
        x = 'hex:' + bytes(x).hex()
    elif not isinstance(x, str):
        x = repr(x)
    return x if len(x) <= n else '%s...(%d)' % (x[:n], len(x))


def eq(got, want, what, key=''):
    """Equality of plain values; library byte objects are turned to bytes."""
    g = raw(got)
    w = raw(want)
    if isinstance(g, (bytes, bytearray)) and isinstance(w, (bytes, bytearray)):
        ok = bytes(g) == bytes(w)
    else:
        ok = g == w
    if not ok:
        raise Violation('%s: got %s, expected %s'
                        % (what, short(g), short(w)), key or what)


def ok(cond, what, key=''):
    if not cond:
        raise Violation(what, key or what)


def raw(x):
    if hasattr(x, 'to_bytes') and hasattr(x, 'hex') \
            and not isinstance(x, (bytes, bytearray, int)):
        return x.to_bytes()
    return x


def refuses(f, what, key=''):
    """f must raise an ordinary exception."""
    try:
        r = f()
    except Exception:
        return
    raise Violation('%s: expected a refusal, got %s' % (what, short(raw(r))),
                    key or what)


# ---------------------------------------------------------------- JSON cases

def enc(x):
    if isinstance(x, (bytes, bytearray)):
        return {'$b': bytes(x).hex()}
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    if x is None or isinstance(x, (bool, int, str)):
        return x
    raise TypeError('not plain data: %r' % (x,))


def dec(x):
    if isinstance(x, dict):
        if set(x) == {'$b'}:
            return bytes.fromhex(x['$b'])
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x


def dumps(case):
    return json.dumps(enc(case), sort_keys=True, separators=(',', ':'))


# ---------------------------------------------------------------- registry

class Sub(object):
    def __init__(self, prop, name, strategy, check, quick, thorough, rule,
                 guided):
        self.prop = prop
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.guided = guided and strategy is not None


SUBS = collections.OrderedDict()     # prop -> {name: Sub}
ENUM = collections.OrderedDict()     # (prop, name) -> list of fixed cases


def sub(prop, name, strategy, quick, thorough=None, rule='', enum=None,
        guided=True):
    """`quick` and `thorough` are numbers of generated cases; `enum`, a
    function, gives cases that are run every time as well; `guided` tells if
    the thorough tier adds a coverage-guided search."""
    def deco(f):
        SUBS.setdefault(prop, collections.OrderedDict())[name] = Sub(
            prop, name, strategy, f, quick * QUICK, thorough or quick * 25,
            rule, guided)
        if enum is not None:
            ENUM[(prop, name)] = enum
        return f
    return deco


class Info(object):
    """What one case tells about itself."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False

    def label(self, *names):
        self.labels.extend(names)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


def _on_alarm(signum, frame):
    raise Hang('a case used more than %d s of CPU' % CASE_CPU_LIMIT)


def run_case(s, case):
    """Runs one case. Returns (info, None) or (info, failure dict)."""
    info = Info()
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        s.check(case, info)
        return info, None
    except Hang as e:
        return info, {'kind': 'hang', 'msg': str(e), 'key': 'hang', 'tb': ''}
    except Violation as e:
        return info, {'kind': 'violation', 'msg': str(e), 'key': e.key,
                      'tb': traceback.format_exc()}
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        where = ['%s:%s' % (os.path.basename(f.filename), f.name)
                 for f in frames if f.filename.startswith(REPO)]
        return info, {'kind': 'exception',
                      'msg': '%s: %s (%s)' % (type(e).__name__, e,
                                              where[-1] if where else 'check'),
                      'key': 'exception %s in %s' % (
                          type(e).__name__, where[-1] if where else 'check'),
                      'tb': traceback.format_exc()}
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


class _Fail(Exception):
    pass


def _shard(args):
    """Worker: runs `count` generated cases of one sub-check."""
    prop, name, seed, count, deadline, known = args
    import hypothesis
    from hypothesis import HealthCheck, Phase
    s = SUBS[prop][name]
    out = {'name': name, 'evaluations': 0, 'nontrivial': set(),
           'labels': collections.Counter(), 'samples': [], 'fail': None,
           'known': collections.Counter(), 'error': None, 'skipped': 0}
    state = {'best': None, 'first': None, 'rank': -1}

    def body(case):
        now = time.monotonic()
        if state['first'] is not None:
            if now - state['first'] > SHRINK_LIMIT:
                return
        elif now > deadline:
            out['skipped'] += 1
            return
        info, fail = run_case(s, case)
        text = dumps(case)
        if fail is not None and fail['key'] in known:
            out['known'][fail['key']] += 1
            fail = None
        if state['first'] is None:
            out['evaluations'] += 1
            for l in info.labels:
                out['labels'][l] += 1
            if info.nontrivial:
                d = hashlib.blake2b(text.encode(), digest_size=10).digest()
                if d not in out['nontrivial']:
                    out['nontrivial'].add(d)
                    # keep the first, and the first richer ones
                    if len(info.labels) > state['rank'] \
                            and len(out['samples']) < 3:
                        state['rank'] = len(info.labels)
                        out['samples'].append(
                            {'check': name, 'labels': info.labels,
                             'case': short(text, 700)})
        if fail is not None:
            if state['first'] is None:
                state['first'] = now
            if state['best'] is None or len(text) < len(state['best'][0]):
                state['best'] = (text, fail)
            raise _Fail(fail['key'])

    test = hypothesis.given(s.strategy)(body)
    test = hypothesis.settings(
        max_examples=count, database=None, deadline=None,
        derandomize=False, print_blob=False, report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck))(test)
    test = hypothesis.seed(seed)(test)
    try:
        with open(os.devnull, 'w') as dn:
            so, se = sys.stdout, sys.stderr
            sys.stdout = sys.stderr = dn
            try:
                test()
            finally:
                sys.stdout, sys.stderr = so, se
    except BaseException:
        if state['best'] is None:
            out['error'] = traceback.format_exc()
    if state['best'] is not None:
        text, fail = state['best']
        out['fail'] = dict(fail, case=text)
    return out


def tail(f):
    f.seek(max(0, f.tell() - 2000))
    return f.read().decode(errors='replace')


def _guided(args):
    """A coverage-guided search, in a process of its own (vf/guided.py)."""
    prop, name, seed, seconds = args
    out = {'name': name, 'evaluations': 0, 'nontrivial': set(),
           'labels': collections.Counter(), 'samples': [], 'fail': None,
           'known': collections.Counter(), 'error': None, 'skipped': 0}
    folder = tempfile.mkdtemp()
    path = os.path.join(folder, 'out')
    err = tempfile.TemporaryFile()
    try:
        p = subprocess.run(
            [sys.executable, '-B', os.path.join(VERIF, 'vf', 'guided.py'),
             prop, name, str(seconds), str(seed), path],
            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
            stderr=err,
            timeout=seconds + 10 * CASE_CPU_LIMIT)
        if not os.path.exists(path):
            out['note'] = 'guided search of %s/%s: no answer (%d) %s' % (
                prop, name, p.returncode, tail(err)[-300:])
            return out
        with open(path) as f:
            r = json.load(f)
    except subprocess.TimeoutExpired:
        out['note'] = 'guided search of %s/%s: too long' % (prop, name)
        return out
    finally:
        shutil.rmtree(folder, ignore_errors=True)
        err.close()
    out['evaluations'] = r['evaluations']
    out['guided'] = {'executions': r['evaluations'], 'seconds': seconds}
    out['nontrivial'] = {bytes.fromhex(d) for d in r['nontrivial']}
    out['labels'].update(r['labels'])
    out['known'].update(r['known'])
    out['samples'] = r['samples']
    out['fail'] = r['fail']
    return out


def _enum_shard(args):
    prop, name, cases, known = args
    s = SUBS[prop][name]
    out = {'name': name, 'evaluations': 0, 'nontrivial': set(),
           'labels': collections.Counter(), 'samples': [], 'fail': None,
           'known': collections.Counter(), 'error': None, 'skipped': 0}
    for case in cases:
        info, fail = run_case(s, case)
        out['evaluations'] += 1
        text = dumps(case)
        for l in info.labels:
            out['labels'][l] += 1
        if info.nontrivial:
            out['nontrivial'].add(
                hashlib.blake2b(text.encode(), digest_size=10).digest())
        if fail is not None:
            if fail['key'] in known:
                out['known'][fail['key']] += 1
                continue
            out['fail'] = dict(fail, case=text)
            break
    return out


# ---------------------------------------------------------------- findings

def known_findings(prop):
    """keys of recorded, unrepaired findings: {key: text}"""
    path = os.path.join(VERIF, 'known_findings.txt')
    found = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property=%s ' % prop):
                    rest = line.split('key=', 1)[1]
                    key, _, text = rest.partition(' :: ')
                    found[key.strip()] = text.strip()
    return found


# ---------------------------------------------------------------- main

def write_replay(prop, name, fail):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b((name + fail['case']).encode(),
                        digest_size=6).hexdigest()
    path = os.path.join(d, '%s-%s-%s.json' % (prop, name, h))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'check': name, 'kind': fail['kind'],
                   'key': fail['key'], 'message': fail['msg'],
                   'case': json.loads(fail['case']),
                   'traceback': fail['tb'],
                   'replay': 'python3-vt /verif/check.py %s --replay %s'
                             % (prop, path)}, f, indent=1)
        f.write('\n')
    return path


def replay(path):
    with open(path) as f:
        r = json.load(f)
    s = SUBS[r['property']][r['check']]
    return run_case(s, dec(r['case']))


def regressions(prop):
    d = os.path.join(VERIF, 'regress', prop)
    if not os.path.isdir(d):
        return []
    return [os.path.join(d, n) for n in sorted(os.listdir(d))
            if n.endswith('.json')]


def run_property(prop, tier, seed, evidence_path, only=None, scale=1.0):
    t0 = time.monotonic()
    known = known_findings(prop)
    subs = SUBS[prop]
    jobs = []
    limit = 240 if tier == 'quick' else 3000
    limit = float(os.environ.get('VERIF_TIME_LIMIT', limit))
    deadline = t0 + limit
    workers = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4))
    results = []
    fail = None

    n_regress = 0
    for path in regressions(prop):
        with open(path) as f:
            r = json.load(f)
        if only and r['check'] not in only:
            continue
        if r['check'] not in subs:
            raise SystemExit('unknown check in ' + path)
        n_regress += 1
        jobs.append((_enum_shard, (prop, r['check'], [dec(r['case'])],
                                   set(known))))
    for name, s in subs.items():
        if only and name not in only:
            continue
        if (prop, name) in ENUM:
            cases = list(ENUM[(prop, name)](tier))
            for i in range(0, len(cases), 200):
                jobs.append((_enum_shard, (prop, name, cases[i:i + 200],
                                           set(known))))
        if s.strategy is None:
            continue
        total = max(1, int((s.quick if tier == 'quick'
                             else s.thorough) * scale))
        shards = max(1, min(8 if tier == 'quick' else 24, total // 20))
        for k in range(shards):
            n = total // shards + (1 if k < total % shards else 0)
            h = hashlib.blake2b(
                ('%d/%s/%s/%d' % (seed, prop, name, k)).encode(),
                digest_size=8).digest()
            jobs.append((_shard, (prop, name, int.from_bytes(h, 'big'), n,
                                  deadline, set(known))))

    ctx = multiprocessing.get_context('fork')
    with concurrent.futures.ProcessPoolExecutor(
            max_workers=workers, mp_context=ctx) as ex:
        futs = [ex.submit(f, a) for f, a in jobs]
        for fu in futs:
            results.append(fu.result())

    if tier == 'thorough':
        seconds = max(1, int(GUIDED * scale))
        todo = []
        for name, s in subs.items():
            if s.guided and (not only or name in only):
                for k in range(2):
                    h = hashlib.blake2b(('%d/guided/%s/%s/%d' % (
                        seed, prop, name, k)).encode(), digest_size=4)
                    todo.append((prop, name,
                                 int.from_bytes(h.digest(), 'big'), seconds))
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            results.extend(ex.map(_guided, todo))

    errors = [r['error'] for r in results if r['error']]
    fails = [(r['name'], r['fail']) for r in results if r['fail']]
    evaluations = sum(r['evaluations'] for r in results)
    nontrivial = set()
    labels = collections.Counter()
    per = collections.OrderedDict()
    samples = []
    seen_known = collections.Counter()
    for r in results:
        nontrivial |= {(r['name'], d) for d in r['nontrivial']}
        for k, v in r['labels'].items():
            labels[r['name'] + '/' + k] += v
        seen_known.update(r['known'])
        p = per.setdefault(r['name'], {'evaluations': 0, 'skipped': 0})
        p['evaluations'] += r['evaluations']
        p['skipped'] += r['skipped']
        if 'guided' in r:
            p['coverage_guided'] = p.get('coverage_guided', 0) \
                + r['guided']['executions']
        if r['samples'] and sum(x['check'] == r['name']
                                for x in samples) < 2:
            samples.append(r['samples'][-1])
    for name in per:
        per[name]['distinct_nontrivial'] = sum(
            1 for n, _ in nontrivial if n == name)
    rules = '; '.join('%s: %s' % (n, s.rule) for n, s in subs.items()
                      if s.rule)
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(nontrivial),
            'rule': 'Hypothesis-generated cases per sub-check, plus fixed '
                    'boundary cases and regression cases, in the thorough '
                    'tier also coverage-guided ones; a case counts as '
                    'distinct by its canonical JSON and as non-trivial if: '
                    + rules,
            'samples': samples,
            'per_check': per,
            'regression_cases': n_regress,
            'labels': dict(sorted(labels.items())),
            'notes': [r['note'] for r in results if r.get('note')],
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': len(fails),
    }
    os.makedirs(os.path.dirname(evidence_path), exist_ok=True)
    with open(evidence_path, 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')

    for key in known:
        print('KNOWN-FINDING: property=%s %s (seen %d times in this run)'
              % (prop, known[key], seen_known[key]))
    code = 0
    if fails:
        # one line per sub-check that failed, the smallest case of each
        best = {}
        for name, fl in fails:
            if name not in best or len(fl['case']) < len(best[name]['case']):
                best[name] = fl
        for name, fl in best.items():
            path = write_replay(prop, name, fl)
            print('%s/%s: %s' % (prop, name, short(fl['msg'], 600)))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        code = 1
    elif errors:
        print(errors[0])
        code = 2
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s, %s'
          % (prop, tier, seed, evaluations, len(nontrivial),
             evidence['wall_s'],
             {0: 'held', 1: 'VIOLATED', 2: 'ERROR'}[code]))
    for note in evidence['coverage']['notes']:
        print('  ' + note)
    for name, p in per.items():
        if p['skipped']:
            print('  %s: %d cases skipped at the time limit'
                  % (name, p['skipped']))
    return code


ASSUMPTIONS = [
    'hashlib (SHA-256, RIPEMD-160, BLAKE2) of the interpreter is correct',
    'the reference models in vf/ref state the published formats correctly',
]
