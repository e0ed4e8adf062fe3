"""Explorer core: counters, case runner, evidence, replay files.

A check is a module mc/props/cXX.py with
    BOUNDS  : text describing the bounded space
    cases(tier)          -> iterable of JSON-able case descriptions (the enumeration, simplest first)
    run_case(case, ck)   -> executes the real code for this case and compares with the oracle

The runner enumerates *every* case (there is no sampling and no time-out based cut-off), spreads them over
forked worker processes and merges the counters. Every exception that escapes run_case is a violation
(the code under test failed where the property says it works, or returned something of unusable form).
"""
import gc
import hashlib
import json
import os
import pickle
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('MC_EVIDENCE') or os.path.join(VERIF, 'evidence')
CASE_TIMEOUT = 240


def common(mod):
    if not hasattr(mod, 'cross'):
        return ''
    import inspect
    text = '; every single one and (by forecast type and tier) every pair or triple of %d constructor options, settings and memory layouts that do not concern the metric' % len(mod.cross.OPTIONS)
    return text + ('; data in units of 2^-40 to 2^40' if 'unit_cases' in inspect.getsource(mod) else '')


class Violation(Exception):
    pass


class CaseTimeout(Exception):
    pass


def key_of(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=10).digest()


class Checker:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.families = {}
        self.samples = []
        self.violations = []
        self.prefix = None
        self.notes = {}

    # --- counters -----------------------------------------------------------------
    def state(self, *key):
        """A distinct state (input, configuration, schedule prefix, ...) visited."""
        self.states.add(key_of((self.prefix, key)))

    def bulk_states(self, name, n):
        """n further distinct states that were enumerated as the elements of one array call"""
        self.notes[name] = self.notes.get(name, 0) + int(n)

    def step(self, n=1):
        """Operations of the real code executed (transitions)."""
        self.transitions += n

    def outcome(self, obj):
        self.outcomes.add(key_of(obj))

    def trace(self, family, sample=None):
        """One complete execution of the real code compared with the oracle."""
        self.traces += 1
        n = self.families.get(family, 0)
        self.families[family] = n + 1
        if n < 1 and sample is not None and len(self.samples) < 12:
            self.samples.append({'family': family, 'case': _short(sample)})

    # --- verdicts -----------------------------------------------------------------
    def fail(self, what, **detail):
        raise Violation(what + (' | ' + ', '.join('%s=%s' % (k, _short(v)) for k, v in detail.items()) if detail else ''))

    def check(self, cond, what, **detail):
        if not cond:
            self.fail(what, **detail)

    def equal(self, got, want, what, rtol=1e-9, atol=1e-11, **detail):
        msg = diff(got, want, rtol, atol)
        if msg:
            self.fail(what + ': ' + msg, **detail)


def _short(x, n=600):
    try:
        import numpy as np
        if isinstance(x, np.ndarray):
            x = x.tolist()
    except Exception:
        pass
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


def diff(got, want, rtol=1e-9, atol=1e-11):
    """None if equal (nan == nan, shapes must agree), a message otherwise."""
    import numpy as np
    if isinstance(want, (tuple, list)) and not np.isscalar(want):
        if not isinstance(got, (tuple, list, np.ndarray)) or len(got) != len(want):
            return 'structure differs: got %s, expected %s' % (_short(got), _short(want))
        for i, (g, w) in enumerate(zip(got, want)):
            m = diff(g, w, rtol, atol)
            if m:
                return '[%d] %s' % (i, m)
        return None
    if want is None:
        return None if got is None else 'got %s, expected None' % _short(got)
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        return 'shape %s, expected %s' % (g.shape, w.shape)
    if g.dtype == object or g.dtype.kind in 'USO':
        return None if np.array_equal(g, w) else 'got %s, expected %s' % (_short(g), _short(w))
    try:
        ok = np.allclose(g.astype(float), w.astype(float), rtol=rtol, atol=atol, equal_nan=True)
    except (TypeError, ValueError):
        ok = False
    return None if ok else 'got %s, expected %s' % (_short(g), _short(w))


def _alarm(signum, frame):
    raise CaseTimeout('no result within the time allowed for one case')


INFRA = (MemoryError, KeyboardInterrupt, BrokenPipeError)


def run_one(mod, case, ck):
    """Returns None or a violation dict."""
    ck.prefix = key_of(case)
    ck.states.add(ck.prefix)
    from . import env
    env.reset()
    signal.signal(signal.SIGALRM, _alarm)
    # repeated: an exception raised inside a destructor or a fork handler is swallowed by the interpreter
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT * (1 if ck.quick else 20), 3)
    try:
        mod.run_case(case, ck)
        return None
    except INFRA:
        raise
    except OSError as e:
        if e.errno in (28, 24, 11, 12):
            raise
        return dict(case=case, what='%s: %s' % (type(e).__name__, e), trace=traceback.format_exc())
    except Violation as e:
        return dict(case=case, what=str(e), trace=None)
    except BaseException as e:
        if isinstance(e, SystemExit):
            raise
        return dict(case=case, what='%s: %s' % (type(e).__name__, e), trace=traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        env.reset()


def _worker(mod, cases, ck, idx, nw, out_fd, stop_path):
    """Processes cases idx, idx+nw, ... and reports a pickled summary."""
    res = {'error': None}
    known = known_findings(ck.prop)
    try:
        for n, case in enumerate(cases):
            if n % nw != idx:
                continue
            if os.path.exists(stop_path):
                break
            v = run_one(mod, case, ck)
            if v:
                ck.violations.append(v)
                if not is_known(v, known):
                    open(stop_path, 'w').close()      # the other workers stop after their current case
                    break
    except BaseException:
        res['error'] = traceback.format_exc()
    res.update(states=ck.states, transitions=ck.transitions, traces=ck.traces, outcomes=ck.outcomes,
               families=ck.families, samples=ck.samples, violations=ck.violations, notes=ck.notes)
    data = pickle.dumps(res)
    with os.fdopen(out_fd, 'wb') as f:
        f.write(data)


def explore(mod, ck, workers):
    from . import env
    cases = list(mod.cases(ck.tier))
    keys = {json.dumps(c, sort_keys=True) for c in cases}
    if len(keys) != len(cases):
        raise RuntimeError('duplicate cases in the enumeration')
    if hasattr(mod, 'prepare'):
        mod.prepare(ck)
    nw = max(1, min(workers, len(cases)))
    stop_path = os.path.join(env.scratch_root(), 'stop')
    gc.collect()
    gc.freeze()
    procs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for i in range(nw):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                env.child_init()
                _worker(mod, cases, ck, i, nw, w, stop_path)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        procs.append((pid, r))
    errors = []
    for pid, r in procs:
        chunks = []
        while True:
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
        os.close(r)
        _, status = os.waitpid(pid, 0)
        try:
            res = pickle.loads(b''.join(chunks))
        except Exception:
            errors.append('worker %d ended with status %d without a report' % (pid, status))
            continue
        if res['error']:
            errors.append(res['error'])
        ck.states |= res['states']
        ck.transitions += res['transitions']
        ck.traces += res['traces']
        ck.outcomes |= res['outcomes']
        for k, n in res['families'].items():
            ck.families[k] = ck.families.get(k, 0) + n
        for k, n in res['notes'].items():
            ck.notes[k] = ck.notes.get(k, 0) + n if isinstance(n, (int, float)) else n
        ck.samples += [s for s in res['samples'] if s['family'] not in {t['family'] for t in ck.samples}]
        ck.violations += res['violations']
    return cases, errors


def known_findings(prop):
    path = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                out.append(line[len('known: property=%s ' % prop):])
    return out


def is_known(v, known):
    """a listed finding names the text that identifies the failing case (up to ' :: ')"""
    text = json.dumps(v['case'], sort_keys=True) + ' ' + v['what']
    return any(k.split(' :: ')[0] in text for k in known)


def write_evidence(ck, mod, wall, cases, exhaustive):
    os.makedirs(EVIDENCE, exist_ok=True)
    cov = dict(states=len(ck.states), transitions=ck.transitions, traces_validated_against_impl=ck.traces,
               samples=ck.samples[:12], exhaustive=exhaustive, cases=len(cases),
               distinct_outcomes=len(ck.outcomes), executions_per_family=ck.families,
               bounds=(mod.BOUNDS[ck.tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS) + common(mod))
    cov.update(ck.notes)
    ev = dict(property=ck.prop, tier=ck.tier, seed=ck.seed, level='model_checking', coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=len(ck.violations))
    tmp = os.path.join(EVIDENCE, '.%s.tmp' % ck.prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVIDENCE, '%s.json' % ck.prop))


def main(argv):
    import argparse
    import importlib
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=int(os.environ.get('MC_WORKERS', '8')))
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from . import env
    env.setup(a.prop)
    try:
        mod = importlib.import_module('mc.props.' + a.prop.lower())
        ck = Checker(a.prop, a.tier, seed)
        if a.replay:
            with open(a.replay) as f:
                case = json.load(f)['case']
            if hasattr(mod, 'prepare'):
                mod.prepare(ck)
            v = run_one(mod, case, ck)
            if v:
                print(v['what'])
                print(v['trace'] or '')
                print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
                return 1
            print('replay: property holds on this case')
            return 0
        cases, errors = explore(mod, ck, a.workers)
        wall = time.time() - t0
        write_evidence(ck, mod, wall, cases, exhaustive=not ck.violations and not errors)
        print('%s %s: cases=%d states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs' % (
            a.prop, a.tier, len(cases), len(ck.states), ck.transitions, ck.traces, len(ck.outcomes), wall))
        for k in sorted(ck.families):
            print('   %-40s %d' % (k, ck.families[k]))
        known = known_findings(a.prop)
        rest = [v for v in ck.violations if not is_known(v, known)]
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (a.prop, k))
        if rest:
            rest.sort(key=lambda v: len(json.dumps(v['case'])))
            v = rest[0]
            path = os.path.join(EVIDENCE, '%s.replay.json' % a.prop)
            with open(path, 'w') as f:
                json.dump(dict(property=a.prop, tier=a.tier, case=v['case'], what=v['what'], trace=v['trace'],
                               replay_cmd='bash run.sh %s --replay %s' % (a.prop, path)), f, indent=1, default=str)
            print('case: ' + _short(json.dumps(v['case'])))
            print('what: ' + v['what'])
            if v['trace']:
                print(v['trace'])
            print('VIOLATION property=%s replay=%s' % (a.prop, path))
            return 1
        if errors:
            print('HARNESS ERROR')
            for e in errors:
                print(e)
            return 2
        return 0
    finally:
        env.cleanup()


if __name__ == '__main__':
    from mc.core import main as _main   # one module instance only
    sys.exit(_main(sys.argv[1:]))
