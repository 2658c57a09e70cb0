"""Sub-check registry, Hypothesis engine, failure recording and shrinking."""
import hashlib
import json
import os
import resource
import signal
import time
import traceback


class Violation(Exception):
    """The property does not hold on this case."""


class Reject(Exception):
    """The case is outside the property's domain (counted apart, never a verdict)."""


class HarnessError(BaseException):
    """The check itself is wrong: an error exit, never a verdict on the code."""


class StopRun(BaseException):
    pass


class Sub:
    """One generated-input search: `strategy()` draws JSON-able cases, `check(case)` decides one.

    check returns a truthy value when the case was non-trivial (by `rule`), raises Violation (or any exception: the code
    under test is only used where it must succeed) when the property is broken.
    """

    def __init__(self, name, strategy, check, quick, thorough, rule='', shards=1, exhaustive=False, budget=(110, 900)):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.rule, self.shards = quick, thorough, rule, shards
        self.budget = budget


def jdump(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True, separators=(',', ':'))


def case_hash(case):
    return hashlib.sha1(jdump(case).encode()).hexdigest()[:16]


class Hang(Exception):
    pass


def _on_alarm(signum, frame):
    raise Hang('no answer after 60 s of CPU time: the operation does not terminate')


CASE_CPU_S = 60


def run_case(sub, case):
    """Run one case; raise Violation on failure, Reject when outside the domain; return non-triviality."""
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        return sub.check(case)
    except (Violation, Reject):
        raise
    except Exception as e:
        tb = traceback.format_exception(type(e), e, e.__traceback__)
        raise Violation('unexpected %s: %s\n%s' % (type(e).__name__, e, ''.join(tb[-8:]))) from e
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def limit_memory(gb=6):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    except (ValueError, OSError):
        pass


def derive_seed(*parts):
    return int(hashlib.sha256(':'.join(map(str, parts)).encode()).hexdigest()[:12], 16)


def _trunc(x, n=1500):
    s = jdump(x)
    return x if len(s) <= n else s[:n] + '...'


def search(prop, sub, seed, n, budget_s, shrink_s=40):
    """Generated-input search. Returns a result dict."""
    import hypothesis as hy
    from hypothesis import HealthCheck, Phase

    st = {'evaluations': 0, 'rejected': 0, 'nontrivial': set(), 'samples': [], 'best': None, 'msg': None,
          'first_fail': None, 'fails': 0, 'stopped': None}
    t0 = time.time()

    def body(case):
        now = time.time()
        if st['first_fail'] is not None:
            if now - st['first_fail'] > shrink_s:
                raise StopRun
        elif now - t0 > budget_s:
            st['stopped'] = 'time budget'
            raise StopRun
        st['evaluations'] += 1
        try:
            r = run_case(sub, case)
        except Reject:
            st['rejected'] += 1
            hy.reject()
        except Violation as v:
            st['fails'] += 1
            if st['first_fail'] is None:
                st['first_fail'] = time.time()
            size = len(jdump(case))
            if st['best'] is None or size <= st['best'][0]:
                st['best'] = (size, json.loads(jdump(case)))
                st['msg'] = str(v)
            raise
        if r and st['first_fail'] is None:
            h = case_hash(case)
            if h not in st['nontrivial']:
                st['nontrivial'].add(h)
                k = len(st['nontrivial'])
                if k in (1, 10, 100):
                    st['samples'].append(_trunc(case))

    settings = hy.settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                           report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                           phases=[Phase.generate, Phase.shrink])
    test = hy.seed(seed)(settings(hy.given(sub.strategy())(body)))
    error = None
    try:
        test()
    except StopRun:
        pass
    except Violation:
        pass
    except BaseException as e:  # Flaky, Unsatisfiable, strategy errors, ...
        if st['best'] is None:
            error = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    return {
        'sub': sub.name, 'seed': seed, 'asked': n, 'evaluations': st['evaluations'], 'rejected': st['rejected'],
        'nontrivial': sorted(st['nontrivial']), 'samples': st['samples'],
        'failure': None if st['best'] is None else {'case': st['best'][1], 'message': st['msg']},
        'error': error, 'stopped': st['stopped'], 'wall_s': round(time.time() - t0, 2),
    }


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1, sort_keys=True, ensure_ascii=True)
        f.write('\n')
    os.replace(tmp, path)
