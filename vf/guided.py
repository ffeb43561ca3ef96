"""Coverage-guided cases for one sub-check (the thorough tier).

  guided.py PROP CHECK SECONDS SEED OUT

libFuzzer (through atheris) mutates the choices from which Hypothesis draws a
case and keeps those that reach new branches of the library, which is
instrumented as it is imported.  The oracle is the check function of the
sub-check, as everywhere else.  A failing case is then shrunk by Hypothesis.
OUT gets the counts and, if there is one, the failure."""
import collections
import hashlib
import json
import os
import signal
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def main():
    prop, name, seconds, seed, out_path = sys.argv[1:6]
    seconds = int(seconds)
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    import atheris
    with atheris.instrument_imports(include=['riemann'],
                                    enable_loader_override=False):
        import importlib
        import pkgutil
        import riemann
        for m in pkgutil.walk_packages(riemann.__path__, 'riemann.'):
            if '.tests' not in m.name and '.examples' not in m.name:
                importlib.import_module(m.name)
    import hypothesis
    from hypothesis import HealthCheck, Phase
    from hypothesis.database import InMemoryExampleDatabase
    from vf import core
    importlib.import_module('vf.props.' + prop.lower())
    s = core.SUBS[prop][name]
    known = set(core.known_findings(prop))
    out = {'evaluations': 0, 'fail': None, 'samples': [], 'known': {},
           'labels': collections.Counter()}
    nontrivial = set()
    best = []

    def body(case):
        info, fail = core.run_case(s, case)
        # the alarm belongs to one case
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        text = core.dumps(case)
        if fail is not None and fail['key'] in known:
            out['known'][fail['key']] = out['known'].get(fail['key'], 0) + 1
            fail = None
        if not best:
            out['evaluations'] += 1
            for l in info.labels:
                out['labels'][l] += 1
            if info.nontrivial:
                nontrivial.add(hashlib.blake2b(text.encode(),
                                               digest_size=10).digest())
                if len(nontrivial) in (10, 1000):
                    out['samples'].append({
                        'check': name, 'labels': info.labels,
                        'case': core.short(text, 700)})
        if fail is not None:
            best.append((len(text), text, fail))
            raise core._Fail(fail['key'])

    test = hypothesis.given(s.strategy)(body)
    test = hypothesis.settings(
        database=InMemoryExampleDatabase(), deadline=None, print_blob=False,
        report_multiple_bugs=False, phases=[Phase.reuse, Phase.shrink],
        suppress_health_check=list(HealthCheck))(test)
    one = test.hypothesis.fuzz_one_input
    end = time.monotonic() + seconds

    def finish():
        if best:
            size, text, fail = min(best, key=lambda b: b[0])
            out['fail'] = dict(fail, case=text)
        out['nontrivial'] = sorted(d.hex() for d in nontrivial)
        with open(out_path + '.tmp', 'w') as f:
            json.dump(out, f)
        os.replace(out_path + '.tmp', out_path)
        os._exit(0)

    def shrink():
        def late(signum, frame):
            finish()
        signal.signal(signal.SIGALRM, late)
        signal.alarm(core.SHRINK_LIMIT)
        try:
            test()
        except BaseException:
            pass
        finish()

    def target(data):
        try:
            one(data)
        except core._Fail:
            shrink()
        if time.monotonic() > end:
            finish()

    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    atheris.Setup([sys.argv[0], '-seed=%d' % (int(seed) % 2 ** 31 or 1),
                   '-max_len=20000', '-len_control=0', '-timeout=3600',
                   '-rss_limit_mb=3000',
                   '-artifact_prefix=%s.' % out_path], target)
    atheris.Fuzz()


if __name__ == '__main__':
    main()
