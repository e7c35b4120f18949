#!/usr/bin/env python3-vt
"""C43: the plotting scripts draw what the trace and log files contain (hypothesis)."""
import argparse
import code
import contextlib
import hashlib
import io
import json
import math
import multiprocessing
import os
import runpy
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, 'stub'))
import builtins  # noqa: E402

import hypothesis  # noqa: E402
import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from matplotlib import pyplot as plt  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
DIR = os.environ.get('PBT_SCRATCH', '/tmp')
DDP = ['iter', 'cost', 'lambda', 'dlambda', 'alpha', 'k_rel_norm', 'cost_update_actual', 'cost_update_expected', 'cost_update_ratio',
       'duration_derivative', 'duration_backward', 'duration_forward']
FMPC = ['iter', 'kkt_error', 'duration_coeff', 'duration_backward', 'duration_forward', 'duration_update']
ASSERTIONS = [0]
hypothesis.configuration.set_hypothesis_home_dir(os.path.join(DIR, 'hypothesis'))


class Violation(Exception):
    pass


def check(cond, msg):
    ASSERTIONS[0] += 1
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def text(v):
    """A number as a C++ stream with six digits prints it."""
    return '%.6g' % v


def same(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))


# --- files of the CGMRES solver are looked for in /tmp: give the ones of this case instead
_open, _genfromtxt, _loadtxt = builtins.open, np.genfromtxt, np.loadtxt


def redirect(f):
    return os.path.join(DIR, '%d_%s' % (os.getpid(), f[5:])) if isinstance(f, str) and os.path.normpath(f).startswith('/tmp/cgmres_') else f


def run_script(path, argv, interact=None):
    old = sys.argv, code.interact
    sys.argv = [path] + argv
    if interact:
        code.interact = interact
    builtins.open = lambda f, *a, **k: _open(redirect(f), *a, **k)
    np.genfromtxt = lambda f, *a, **k: _genfromtxt(redirect(f), *a, **k)
    np.loadtxt = lambda f, *a, **k: _loadtxt(redirect(f), *a, **k)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(path, run_name='__main__')
    except Violation:
        raise
    except (Exception, SystemExit) as e:
        tb = [l for l in traceback.format_exc().splitlines() if path in l]
        raise Violation('%s ends with %s: %s %s' % (os.path.basename(path), type(e).__name__, e, ' '.join(tb[-1:])))
    finally:
        sys.argv, code.interact = old
        builtins.open, np.genfromtxt, np.loadtxt = _open, _genfromtxt, _loadtxt
    return out.getvalue()


def trace_case(case):
    """plotDDPTraceData.py: every requested column over the iteration or the index."""
    names, rows = case['names'], case['rows']
    f = os.path.join(DIR, '%d_trace.txt' % os.getpid())
    with open(f, 'w') as o:
        o.write(' '.join(names) + '\n')
        for r in rows:
            o.write(' '.join(text(v) for v in r) + '\n')
    col = dict((n, [float(text(r[i])) for r in rows]) for i, n in enumerate(names))
    calls = []

    def interact(*a, **k):
        local = k.get('local') or (a[2] if len(a) > 2 else None)
        plot = local['plot']
        for keys, over_iter in case['calls']:
            plt.reset()
            arg = keys[0] if len(keys) == 1 and case['bare'] else list(keys)
            if over_iter:
                plot(arg)
            else:
                plot(arg, x_axis_iter=False)
            calls.append((list(keys), over_iter, list(plt.CURVES)))

    plt.reset()
    run_script(os.path.join(REPO, 'nmpc_ddp/scripts/plotDDPTraceData.py'), [f], interact)
    os.unlink(f)
    check(len(calls) == len(case['calls']), 'the script does not start the interactive console')
    for keys, over_iter, curves in calls:
        if any(k not in names for k in keys):
            check(not curves, 'something is drawn although a key is unknown: %s' % keys)
            continue
        check(len(curves) == len(keys), lambda: '%d curves for the keys %s' % (len(curves), keys))
        for key, (ax, x, y, kw) in zip(keys, curves):
            check(kw.get('label') == key, lambda: 'label %r for %s' % (kw.get('label'), key))
            check(same(y, col[key]), lambda: '%s is drawn as %s but the file has %s' % (key, y, col[key]))
            if over_iter:
                check(x is not None and same(x, col['iter']), lambda: 'abscissa of %s is %s' % (key, x))
            else:
                check(x is None or same(x, np.arange(len(rows))), lambda: 'abscissa of %s is %s' % (key, x))
    return len(rows) > 1


def cgmres_case(case):
    """plotCgmresData.py: every state, input and the residual norm over time."""
    data = dict(x=case['x'], u=case['u'], err=case['err'])
    for n, rows in data.items():
        with open(redirect('/tmp/cgmres_%s.dat' % n), 'w') as o:
            for r in rows:
                o.write(', '.join(text(v) for v in r) + '\n')
    plt.reset()
    run_script(os.path.join(REPO, 'nmpc_cgmres/scripts/plotCgmresData.py'), [])
    for n in data:
        os.unlink(redirect('/tmp/cgmres_%s.dat' % n))
    want = []
    for n, rows in data.items():
        a = np.array([[float(text(v)) for v in r] for r in rows])
        for i in range(1, a.shape[1]):
            want.append(('%s[%d]' % (n, i), a[:, 0], a[:, i]))
    check(len(plt.CURVES) == len(want), lambda: '%d curves for %d logged quantities' % (len(plt.CURVES), len(want)))
    places = [getattr(ax, 'at', None) for ax, _, _, _ in plt.CURVES]
    check(len(set(id(ax) for ax, _, _, _ in plt.CURVES)) == len(want) and len(set(p for p in places if p)) == len([p for p in places if p]),
          lambda: 'quantities share a diagram: %s' % places)
    for label, t, v in want:
        got = [(x, y) for ax, x, y, _ in plt.CURVES if ax.labels.get('ylabel') == label]
        check(len(got) == 1, lambda: '%d diagrams labelled %s' % (len(got), label))
        check(got[0][0] is not None and same(got[0][0], t), lambda: 'abscissa of %s is %s, time is %s' % (label, got[0][0], t))
        check(same(got[0][1], v), lambda: '%s is drawn as %s but the file has %s' % (label, got[0][1], v))
    check(plt.SHOWN[0] > 0, 'nothing is shown')
    return len(case['x']) > 1


CASES = dict(trace=trace_case, cgmres=cgmres_case)
num = st.one_of(st.integers(-3, 3).map(float), st.floats(-1e3, 1e3), st.floats(allow_nan=False, allow_infinity=False, width=64),
                st.sampled_from([0.0, math.inf, -math.inf, math.nan, 1e-300, 1e300]))
finite = st.one_of(st.integers(-3, 3).map(float), st.floats(-1e3, 1e3))


@st.composite
def trace(draw):
    names = draw(st.sampled_from([DDP, DDP, FMPC]))
    first = 0 if names is DDP else 1
    n = draw(st.integers(1, 8))
    rows = [[float(first + i)] + [draw(num) for _ in names[1:]] for i in range(n)]
    keys = st.lists(st.sampled_from(names + ['Cost', 'no_such_key'] if draw(st.booleans()) else names), min_size=1, max_size=4)
    calls = draw(st.lists(st.tuples(keys, st.booleans()), min_size=1, max_size=3))
    return dict(kind='trace', names=list(names), rows=rows, calls=[list(c) for c in calls], bare=draw(st.booleans()))


@st.composite
def cgmres(draw):
    nx, nu, n = draw(st.integers(1, 5)), draw(st.integers(1, 5)), draw(st.integers(1, 8))
    dt = draw(st.floats(1e-3, 1.0))

    def rows(m):
        return [[i * dt] + [draw(finite) for _ in range(m)] for i in range(n)]
    return dict(kind='cgmres', x=rows(nx), u=rows(nu), err=rows(1))


def search(args):
    """One worker: (worker, seed, number of cases) -> result."""
    seed, cases = args
    seen, samples, labels, bad, n = set(), [], {}, None, [0]
    for kind, strat, part in (('trace', trace(), 0.6), ('cgmres', cgmres(), 0.4)):
        last = [None]

        def body(case):
            n[0] += 1
            try:
                nt = CASES[kind](case)
            except Violation as e:
                last[0] = (case, str(e))
                raise
            labels[kind] = labels.get(kind, 0) + 1
            if nt:
                seen.add(hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest())
                if len(samples) < 2 and n[0] % 97 == 5:
                    samples.append(json.dumps(case)[:1500])
        test = hypothesis.given(strat)(body)
        test = hypothesis.settings(max_examples=max(10, int(cases * part)), database=None, deadline=None, print_blob=False,
                                   report_multiple_bugs=False, suppress_health_check=list(hypothesis.HealthCheck))(test)
        test = hypothesis.seed(seed)(test)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                test()
        except Violation:
            bad = last[0]
            break
    return dict(n=n[0], seen=seen, samples=samples, labels=labels, bad=bad, assertions=ASSERTIONS[0])


def main():
    ap = argparse.ArgumentParser()
    for a in ('--seed', '--cases', '--jobs'):
        ap.add_argument(a, type=int, default=1)
    for a in ('--out', '--replay-out', '--replay'):
        ap.add_argument(a)
    o = ap.parse_known_args()[0]
    if o.replay:
        case = json.loads([l for l in open(o.replay) if not l.startswith('#')][0])
        try:
            CASES[case['kind']](case)
        except Violation as e:
            print('FAIL', e)
            return 1
        print('PASS')
        return 0
    with multiprocessing.get_context('spawn').Pool(o.jobs) as pool:
        rs = pool.map(search, [(o.seed * 1000 + i, o.cases // o.jobs) for i in range(o.jobs)], 1)
    bad = [r['bad'] for r in rs if r['bad']]
    msg = ''
    if bad:
        case, msg = min(bad, key=lambda b: len(json.dumps(b[0])))
        msg = case['kind'] + ': ' + msg
        with open(o.replay_out, 'w') as f:
            f.write('# C43 %s\n%s\n' % (msg.replace('\n', ' '), json.dumps(case)))
    seen, labels = set(), {}
    for r in rs:
        seen |= r['seen']
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
    json.dump(dict(verdict='fail' if bad else 'ok', message=msg, evaluations=sum(r['n'] for r in rs), distinct_nontrivial=len(seen),
                   samples=sum((r['samples'] for r in rs), [])[:4], assertions=sum(r['assertions'] for r in rs), discarded=0, discard_reasons={},
                   per_subproperty=labels, labels=labels, workers_stopped_by_time=0), open(o.out, 'w'))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
