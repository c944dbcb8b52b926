"""Bounded search for failing inputs on the real code (run by /opt/venv/bin/python on a scratch build of the current tree).

harness.py PID --root DIR --seconds N --seed S --out FILE       random cases until the time is used up, or a failure
harness.py PID --root DIR --replay FILE                          runs the case recorded in a replay file again"""
import argparse
import importlib
import json
import logging
import os
import random
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--root', required=True)
    ap.add_argument('--seconds', type=float, default=20)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--max', type=int, default=10 ** 9)
    a = ap.parse_args()
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    sys.path.insert(0, a.root)
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(3000)
    m = importlib.import_module('p_' + a.pid.lower())
    import sudachipy
    assert os.path.abspath(sudachipy.__file__).startswith(os.path.abspath(a.root)), sudachipy.__file__
    h = m.Harness()
    if a.replay:
        case = json.load(open(a.replay))['case']
        r = run(h, case)
        print('REPLAY %s: %s' % (a.pid, r or 'holds'))
        sys.exit(1 if r else 0)
    rng = random.Random(a.seed)
    t0 = time.time()
    n, distinct, samples, fail = 0, set(), [], None
    fixed = list(getattr(h, 'fixed', []))
    tracedir = None
    while n < len(fixed) or (time.time() - t0 < a.seconds and n < a.max):
        case = fixed[n] if n < len(fixed) else h.gen(rng, n)
        n += 1
        r = run(h, case)
        k = h.key(case) if hasattr(h, 'key') else json.dumps(case, sort_keys=True, ensure_ascii=True)
        if k is not None:
            if k not in distinct and len(samples) < 2:
                samples.append(case)
            if len(distinct) < 500000:
                distinct.add(hash(k))
        if r:
            case, r = shrink(h, case, r, time.time() + 10)
            fail = {'case': case, 'message': r}
            break
    res = {'evaluations': n, 'distinct_nontrivial': len(distinct), 'rule': h.rule, 'samples': samples, 'failure': fail, 'wall_s': time.time() - t0}
    if hasattr(h, 'close'):
        h.close()
    s = json.dumps(res, ensure_ascii=True)
    if a.out:
        with open(a.out, 'w') as f:
            f.write(s)
    else:
        print(s)


def run(h, case):
    """None or a description of what fails; an exception out of the code under test is a failure unless the harness expects it"""
    limit = getattr(h, 'limit', 20)
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    try:
        return h.run(case)
    except Hang:
        return 'does not come to an end within %d s' % limit
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return 'unexpected %s: %s at %s' % (type(e).__name__, e, ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:])))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class Hang(BaseException):
    pass


def alarm(*_):
    raise Hang()


def shrink(h, case, msg, deadline):
    if not hasattr(h, 'shrinks'):
        return case, msg
    again = True
    while again and time.time() < deadline:
        again = False
        for c in h.shrinks(case):
            if time.time() > deadline:
                break
            r = run(h, c)
            if r:
                case, msg, again = c, r, True
                break
    return case, msg


if __name__ == '__main__':
    main()
