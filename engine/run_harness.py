"""Symbolically execute one harness and decide its verification conditions.

usage: run_harness.py DEPS_DIR HARNESS OUT.json [--timeout N] [--keep FILE]
"""
import glob
import json
import os
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import expr as X
import llir
import solve
import symex


def work(deps, name, out, timeout, keep, result):
    t0 = time.time()
    m = llir.Module()
    for f in sorted(glob.glob(os.path.join(deps, '*.ll'))):
        m.load(f)

    def feasible(q):
        r, _ = solve.check([q], timeout=min(60, timeout))
        return r == 'sat'

    e = symex.Engine(m, feasible=feasible)
    e.run(name)
    t1 = time.time()
    result['symex_s'] = round(t1 - t0, 3)
    result['instructions'] = e.instrs
    result['merges'] = e.merges
    result['variables'] = len(e.vars)
    result['assumes'] = e.assumes
    result['terms'] = len(X._nodes)
    result['functions'] = sorted(
        m.funcs[f].pretty for f in e.functions if not f.startswith('@h_'))
    # distinct verification conditions that are not already false after simplification
    vcs = [(i, g, k) for i, g, k in e.checks]
    result['obligations'] = len(vcs)
    result['trivial'] = sum(1 for _, g, _ in vcs if g is X.FALSE)
    live = [(i, g, k) for i, g, k in vcs if g is not X.FALSE]
    q = X.FALSE
    # balanced disjunction
    gs = list(dict.fromkeys(g for _, g, _ in live))
    while len(gs) > 1:
        gs = [X.or_(gs[i], gs[i + 1]) if i + 1 < len(gs) else gs[i] for i in range(0, len(gs), 2)]
    if gs:
        q = gs[0]

    # the range-based simplifications are themselves decided by the solver
    lem = [X._mk('not', 1, (t,)) if v else t for t, v in list(X.LEMMAS.items())]
    result['range_lemmas'] = len(lem)
    if lem:
        r, _ = solve.check_any(lem, timeout)
        if r != 'unsat':
            raise solve.SolverError('range lemma refuted')

    def complete(model):
        """variables the query does not mention"""
        for n in e.vars:
            if n not in model:
                model[n] = X.RANGES.get(n, (0,))[0]
        return model

    def inputs(model):
        """tag -> value for the native replay"""
        flat = [(t, c, v) for t, ds in e.draws.items() for c, v in ds]
        vals = X.evaluate([x for _, c, v in flat for x in (c, v)], model)
        out = {}
        for i, (t, c, v) in enumerate(flat):
            if vals[2 * i] and t not in out:
                out[t] = vals[2 * i + 1]
        return out

    def samples(model):
        roots = []
        for i, g, v in e.observes:
            roots += [g, v]
        vals = X.evaluate(roots, model) if roots else []
        return [[e.observes[k][0], vals[2 * k + 1]] for k in range(len(e.observes)) if vals[2 * k]]

    verdict, model = solve.check([q], timeout=timeout, keep=keep)
    result['main_verdict'] = verdict
    if verdict == 'sat':
        complete(model)
        vals = X.evaluate([g for _, g, _ in live], model)
        failing = [(i, k) for (i, g, k), v in zip(live, vals) if v]
        result['violation'] = {
            'model': inputs(model),
            'failing': [str(i) for i, k in failing],
            'observes': samples(model),
        }
    # reachability witnesses
    covers = {}
    for i, g in e.covers:
        covers[i] = X.or_(covers[i], g) if i in covers else g
    result['covers'] = []
    if verdict == 'unsat':
        for i, g in sorted(covers.items()):
            try:
                r, mdl = solve.check([g], timeout=timeout)
            except solve.SolverError as ex:
                if 'no verdict' not in str(ex):
                    raise
                r, mdl = 'unknown', None
            if r == 'sat':
                complete(mdl)
            result['covers'].append({'id': i, 'verdict': r, 'model': inputs(mdl) if r == 'sat' else None,
                                     'observes': samples(mdl) if r == 'sat' else None})
    result['solver'] = solve.STATS
    result['solve_s'] = round(time.time() - t1, 3)
    result['ok'] = True


def main():
    deps, name, out = sys.argv[1:4]
    timeout = 600
    keep = None
    a = sys.argv[4:]
    while a:
        if a[0] == '--timeout':
            timeout = float(a[1])
        elif a[0] == '--keep':
            keep = a[1]
        a = a[2:]
    result = {'harness': name, 'ok': False}

    def go():
        try:
            work(deps, name, out, timeout, keep, result)
        except llir.Unsupported as ex:
            result['error'] = 'unsupported: %s' % ex
        except symex.BoundExceeded as ex:
            result['error'] = 'bound: %s' % ex
        except solve.SolverError as ex:
            result['error'] = 'solver: %s' % ex
        except BaseException as ex:  # noqa
            import traceback
            result['error'] = 'internal: %s' % traceback.format_exc()[-3000:]

    sys.setrecursionlimit(1000000)
    threading.stack_size(1024 * 1024 * 1024)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    with open(out, 'w') as f:
        json.dump(result, f)


main()
