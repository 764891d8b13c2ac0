"""SMT solver back end (z3 / cvc5 as subprocesses, SMT-LIB2 text)."""
import os
import re
import shutil
import subprocess
import tempfile
import time

import expr as X

Z3 = shutil.which('z3-new') or shutil.which('z3')
CVC5 = shutil.which('cvc5')

STATS = {'queries': 0, 'time': 0.0, 'sat': 0, 'unsat': 0, 'by_solver': {}}


class SolverError(Exception):
    pass


def script(assertions, want_model=True):
    lines, ref, vs = X.to_smt(assertions)
    out = ['(set-option :produce-models true)', '(set-logic QF_BV)']
    out += lines
    for v in vs:
        if v.a[0] in X.RANGES:
            lo, hi = X.RANGES[v.a[0]]
            n = X.sname(v.a[0])
            out.append('(assert (and (bvule (_ bv%d %d) %s) (bvule %s (_ bv%d %d))))' % (lo, v.w, n, n, hi, v.w))
    for a in assertions:
        out.append('(assert %s)' % ref[a.id])
    out.append('(check-sat)')
    if want_model and vs:
        out.append('(get-value (%s))' % ' '.join(X.sname(v.a[0]) for v in vs))
    return '\n'.join(out) + '\n', vs


def parse_model(text):
    m = {}
    for name, v in re.findall(r'\(\|?v:([^| )]+)\|?\s+(#x[0-9a-fA-F]+|#b[01]+|true|false|\(_ bv\d+ \d+\))\)', text):
        if v.startswith('#x'):
            m[name] = int(v[2:], 16)
        elif v.startswith('#b'):
            m[name] = int(v[2:], 2)
        elif v in ('true', 'false'):
            m[name] = int(v == 'true')
        else:
            m[name] = int(v.split()[1][2:])
    return m


def _cmd(solver, path, timeout):
    if solver == 'z3':
        return [Z3, '-smt2', '-T:%d' % max(1, int(timeout)), path]
    if solver == 'z3-sat':
        return [Z3, '-smt2', '-T:%d' % max(1, int(timeout)), 'tactic.default_tactic=(then simplify propagate-values solve-eqs simplify bit-blast aig sat)', path]
    if solver == 'cvc5':
        return [CVC5, '--tlimit=%d' % int(timeout * 1000), '--bitblast=eager', '--bv-solver=bitblast', path]
    if solver == 'cvc5-int':
        return [CVC5, '--tlimit=%d' % int(timeout * 1000), '--solve-bv-as-int=sum', path]
    raise SolverError(solver)


def check(assertions, timeout=600, solvers=('z3', 'cvc5'), keep=None):
    """-> ('unsat', None) | ('sat', model). Portfolio of solver processes; first answer wins."""
    fs = [a for a in assertions if a is not X.TRUE]
    if any(a is X.FALSE for a in fs):
        return 'unsat', None
    if not fs:
        return 'sat', {}
    txt, vs = script(fs)
    d = tempfile.mkdtemp(prefix='irsym')
    path = os.path.join(d, 'q.smt2')
    with open(path, 'w') as f:
        f.write(txt)
    if keep:
        with open(keep, 'w') as f:
            f.write(txt)
    t0 = time.time()
    procs = []
    try:
        for s in solvers:
            o = open(os.path.join(d, s + '.out'), 'w+')
            procs.append((s, subprocess.Popen(_cmd(s, path, timeout), stdout=o, stderr=subprocess.STDOUT), o))
        live = list(procs)
        errs = []
        while live:
            for it in list(live):
                s, p, o = it
                if p.poll() is None:
                    continue
                live.remove(it)
                o.seek(0)
                text = o.read()
                first = text.lstrip().split('\n', 1)[0].strip() if text.strip() else ''
                if first == 'unsat' or first == 'sat':
                    if '(error' in text and not (first == 'unsat'):
                        errs.append((s, text[:300]))
                        continue
                    if first == 'unsat' and '(error' in text.split('unsat', 1)[0]:
                        errs.append((s, text[:300]))
                        continue
                    dt = time.time() - t0
                    STATS['queries'] += 1
                    STATS['time'] += dt
                    STATS[first] += 1
                    STATS['by_solver'][s] = STATS['by_solver'].get(s, 0) + 1
                    if first == 'unsat':
                        return 'unsat', None
                    m = parse_model(text)
                    for v in vs:
                        m.setdefault(v.a[0], 0)
                    # independent evaluation of the model
                    inr = all(X.RANGES[n][0] <= x <= X.RANGES[n][1] for n, x in m.items() if n in X.RANGES)
                    if not inr or not all(X.evaluate(fs, m)):
                        raise SolverError('model of %s does not satisfy the query' % s)
                    return 'sat', m
                errs.append((s, text[:300]))
            time.sleep(0.005)
        raise SolverError('no verdict within %ds: %r' % (timeout, errs))
    finally:
        for s, p, o in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
            o.close()
        shutil.rmtree(d, ignore_errors=True)


def check_any(props, timeout=600):
    """Is any of the (simplification-free) Boolean terms satisfiable?"""
    lines, ref, vs = X.to_smt(props)
    out = ['(set-logic QF_BV)'] + lines
    for v in vs:
        if v.a[0] in X.RANGES:
            lo, hi = X.RANGES[v.a[0]]
            n = X.sname(v.a[0])
            out.append('(assert (and (bvule (_ bv%d %d) %s) (bvule %s (_ bv%d %d))))' % (lo, v.w, n, n, hi, v.w))
    out.append('(assert (or false %s))' % ' '.join(ref[a.id] for a in props))
    out.append('(check-sat)')
    t0 = time.time()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('\n'.join(out) + '\n')
    try:
        r = subprocess.run(_cmd('z3', f.name, timeout), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        os.unlink(f.name)
    v = r.stdout.strip()
    if v not in ('sat', 'unsat'):
        raise SolverError('no verdict on lemmas: ' + v[:200])
    STATS['queries'] += 1
    STATS['time'] += time.time() - t0
    STATS[v] += 1
    return v, None
