#!/usr/bin/env python3
"""Decide one property of /repo by solver-based symbolic execution of the real code.

    check.py C01 [--tier quick|thorough] [--only HARNESS-SUBSTRING]

Builds the harness crate (path dependency on /repo's working tree), lowers it and
the crate to LLVM IR, executes every harness symbolically and lets an SMT solver
decide all assertions.  Exit 0: held within the bounds.  Exit 1 + VIOLATION line:
a counterexample that was replayed on the real code.  Anything else is an error.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'
BASE_ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
BASE_ENV.pop('RUSTFLAGS', None)
BASE_ENV.pop('CARGO_ENCODED_RUSTFLAGS', None)


def sh(cmd, env=None, timeout=600, cwd=None):
    return subprocess.run(cmd, cwd=cwd or os.path.join(HERE, 'harness'), env=env or BASE_ENV, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def die(msg):
    print('ERROR: ' + msg)
    sys.exit(2)


# Equivalent ways to lower the same source.  The first one is used; a harness that cannot be
# decided on its IR is tried again on the others (same source, same semantics).
LOWERING = [
    ('ir', '-C llvm-args=-enable-dfa-jump-thread=false'),
    ('ir2', '-C llvm-args=-enable-dfa-jump-thread=false -C llvm-args=-jump-threading-threshold=0'),
    ('ir3', ''),
]


def build_ir(pid, tier, bdir, how=LOWERING[0]):
    name, flags = how
    feats = 'ir,' + pid.lower() + (',thorough' if tier == 'thorough' else '')
    env = dict(BASE_ENV, CARGO_TARGET_DIR=bdir + '/' + name,
               RUSTFLAGS='--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp ' + flags)
    r = sh(['cargo', 'build', '--release', '--offline', '--lib', '--features', feats], env)
    return r, bdir + '/' + name + '/release/deps'


def build_replay(pid, tier, bdir, profile):
    feats = pid.lower() + (',thorough' if tier == 'thorough' else '')
    env = dict(BASE_ENV, CARGO_TARGET_DIR=bdir + '/native')
    r = sh(['cargo', 'build', '--offline', '--profile', profile, '--bin', 'replay', '--features', feats], env)
    d = 'debug' if profile == 'dev' else profile
    return r, bdir + '/native/%s/replay' % d


def replay(exe, name, model):
    args = [exe, name] + ['%s=%d' % kv for kv in sorted(model.items(), key=lambda x: int(x[0][1:]))]
    r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    out = {'checks': [], 'observes': [], 'panicked': False, 'finished': False, 'assume_failed': False, 'covered': [],
           'stderr': r.stderr[-800:], 'cmd': args}
    for l in r.stdout.split('\n'):
        w = l.split()
        if not w:
            continue
        if w[0] == 'CHECK-FAILED':
            out['checks'].append(w[1])
        elif w[0] == 'OBSERVE':
            out['observes'].append([int(w[1]), int(w[2])])
        elif w[0] == 'COVERED':
            out['covered'].append(int(w[1]))
        elif w[0] == 'PANICKED':
            out['panicked'] = True
        elif w[0] == 'FINISHED':
            out['finished'] = True
        elif w[0] == 'ASSUME-FAILED':
            out['assume_failed'] = True
    return out


def same_obs(a, b):
    d1, d2 = {}, {}
    for i, v in a:
        d1.setdefault(i, []).append(v)
    for i, v in b:
        d2.setdefault(i, []).append(v)
    return d1 == d2


def main():
    t0 = time.time()
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    i = 1
    while i < len(a):
        if a[i] == '--tier':
            tier = a[i + 1]
        elif a[i] == '--only':
            only = a[i + 1]
        i += 2
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    bdir = os.path.join(HERE, 'build', pid)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    meta = json.load(open(os.path.join(HERE, 'props', pid + '.json')))

    with cf.ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(build_ir, pid, tier, bdir)
        f2 = ex.submit(build_replay, pid, tier, bdir, 'dev')
        r, deps = f1.result()
        r2, exe = f2.result()
    if r.returncode:
        die('IR build failed\n' + r.stdout[-3000:])
    if r2.returncode:
        die('replay build failed\n' + r2.stdout[-3000:])
    tb = time.time()
    names = []
    for f in sorted(os.listdir(deps)):
        if f.startswith('harness-') and f.endswith('.ll'):
            names += re.findall(r'^define .*@(h_%s_\w+)\(' % pid.lower(), open(os.path.join(deps, f)).read(), re.M)
    if only:
        names = [n for n in names if only in n]
    if not names:
        die('no harnesses')
    timeout = float(os.environ.get("CAP", 450)) if tier == 'quick' else 6000
    deadline = t0 + (840 if tier == 'quick' else 6 * 3600)
    weights = meta.get('weights', {})
    names.sort(key=lambda n: -weights.get(n, 0))

    def one(n, deps=deps):
        out = os.path.join(bdir, n + '.json')
        if os.path.exists(out):
            os.unlink(out)
        limit = max(20, min(timeout, deadline - time.time()))
        cmd = [sys.executable, os.path.join(HERE, 'engine', 'run_harness.py'), deps, n, out, '--timeout', str(limit)]
        if only:
            cmd += ['--keep', os.path.join(bdir, n + '.smt2')]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True,
                             env=dict(os.environ, TMPDIR=bdir))
        try:
            o, _ = p.communicate(timeout=limit + 5)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return {'harness': n, 'ok': False, 'error': 'undecided: no verdict within %.0f s' % limit}
        if not os.path.exists(out):
            return {'harness': n, 'ok': False, 'error': 'crashed: ' + o[-2000:]}
        return json.load(open(out))

    errors = []
    violation = None
    with cf.ThreadPoolExecutor(6) as ex:
        results = list(ex.map(one, names))
        for how in LOWERING[1:]:
            again = [i for i, r in enumerate(results) if not r['ok']]
            found = any('violation' in r for r in results)
            if not again or found or time.time() > deadline - 60:
                break
            print('retrying %d harness(es) on another lowering: %s' % (len(again), results[again[0]].get('error', '')[:200]))
            r, deps2 = build_ir(pid, tier, bdir, how)
            if r.returncode:
                continue
            for i, res in zip(again, ex.map(lambda i: one(names[i], deps2), again)):
                if res['ok']:
                    results[i] = res
    undecided = [r for r in results if not r['ok']]
    for res in results:
        if only:
            show = {k: v for k, v in res.items() if k not in ('functions', 'covers')}
            print(json.dumps(show, indent=1)[:3000])

    validated = 0
    samples = []
    for res in results:
        if not res['ok']:
            continue
        n = res['harness']
        if 'violation' in res:
            v = res['violation']
            rp = replay(exe, n, v['model'])
            # (an assumption further down the run is no objection: what failed, failed before it)
            reproduced = rp['checks'] or rp['panicked']
            if not reproduced:
                # last resort: the profile without overflow checks
                r3, exe3 = build_replay(pid, tier, bdir, 'plainrelease')
                if r3.returncode == 0:
                    rp3 = replay(exe3, n, v['model'])
                    reproduced = rp3['checks'] or rp3['panicked']
                    if reproduced:
                        rp = rp3
            if not reproduced:
                errors.append('%s: counterexample for %s does not reproduce natively: %s' % (n, v['failing'][:5], rp['cmd']))
                continue
            if violation is None:
                path = os.path.join(HERE, 'evidence', 'replay-%s.json' % pid)
                json.dump({'property': pid, 'harness': n, 'assignment': v['model'], 'solver_failing': v['failing'],
                           'native_failed_checks': rp['checks'], 'native_panicked': rp['panicked'],
                           'native_stderr': rp['stderr'],
                           'how': 'cd /verif/harness && cargo run --offline --bin replay --features %s -- %s' % (
                               pid.lower(), ' '.join(rp['cmd'][1:]))}, open(path, 'w'), indent=1)
                violation = (n, v, rp, path)
            continue
        for c in res['covers']:
            if c['verdict'] == 'unknown':
                continue
            if c['verdict'] != 'sat':
                errors.append('%s: reachability witness %s is unsatisfiable (vacuous harness?)' % (n, c['id']))
                continue
            rp = replay(exe, n, c['model'])
            if rp['assume_failed'] and c['id'] in rp['covered'] and not rp['checks']:
                validated += 1  # reached, then left the assumed inputs
                continue
            if rp['assume_failed'] or rp['panicked'] or rp['checks'] or not rp['finished'] or c['id'] not in rp['covered']:
                errors.append('%s: witness %s diverges natively: %s' % (n, c['id'], rp))
                continue
            if not same_obs(c['observes'], rp['observes']):
                errors.append('%s: witness %s: observed values differ: engine %r native %r' % (n, c['id'], c['observes'][:8], rp['observes'][:8]))
                continue
            validated += 1
            if len(samples) < 3:
                samples.append({'harness': n, 'witness': c['id'], 'assignment': dict(list(c['model'].items())[:12]),
                                'observed': c['observes'][:6]})

    good = [r for r in results if r['ok']]
    funcs = sorted({f for r in good for f in r['functions']})
    cov = {
        'explanation': meta['explanation'],
        'bounds': meta['bounds'],
        'outside': meta.get('outside', ''),
        'harnesses': [{'name': r['harness'], 'verdict': r.get('main_verdict', 'error'), 'symbolic_variables': r.get('variables'),
                       'instructions_encoded': r.get('instructions'), 'merges': r.get('merges'), 'terms': r.get('terms'),
                       'obligations': r.get('obligations'), 'queries': (r.get('solver') or {}).get('queries'),
                       'solver_s': round((r.get('solver') or {}).get('time', 0), 3), 'symex_s': r.get('symex_s')} for r in results],
        'functions_encoded': [re.sub(r'\s+', ' ', f)[:200] for f in funcs][:120],
        'obligations': sum(r['obligations'] for r in good),
        'discharged': sum(r['obligations'] for r in good if r.get('main_verdict') == 'unsat'),
        'queries': sum(r['solver']['queries'] for r in good),
        'solver_seconds': round(sum(r['solver']['time'] for r in good), 3),
        'traces_validated_against_impl': validated,
        'samples': samples,
        'exhaustive': False,
        'undecided': ['%s: %s' % (r['harness'], r.get('error', '')[:300]) for r in undecided],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': meta.get('assumptions', []) + [
              'rustc/LLVM -O3 lowering of the crate is faithful to the source; the IR (overflow checks on) is what is encoded',
              'the IR executor in /verif/engine is correct (its satisfying assignments are replayed on the native build on every run)',
              'z3 / cvc5 verdicts are correct'],
          'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation else 0}
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    if not only:
        shutil.rmtree(bdir, ignore_errors=True)
    print('%s tier=%s harnesses=%d obligations=%d discharged=%d queries=%d solver=%.1fs witnesses=%d build=%.1fs wall=%.1fs' % (
        pid, tier, len(results), cov['obligations'], cov['discharged'], cov['queries'], cov['solver_seconds'], validated,
        tb - t0, time.time() - t0))
    if violation:
        n, v, rp, path = violation
        for e in errors:
            print('note: ' + e)
        print('counterexample in %s: failing %s (native: checks %s%s)' % (
            n, v['failing'][:6], rp['checks'][:6], ', panicked' if rp['panicked'] else ''))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.exit(1)
    for r in undecided:
        print('UNDECIDED: %s: %s' % (r['harness'], r.get('error', '')[:1500]))
    if 2 * len(undecided) > len(results):
        errors.append('most harnesses are undecided')
    if errors:
        for e in errors:
            print('ERROR: ' + e[:3000])
        sys.exit(2)
    sys.exit(0)


main()
