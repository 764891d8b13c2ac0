#!/usr/bin/env python3
"""Checks that the tools the checks need are there (everything is built per run)."""
import shutil, subprocess, sys
ok = True
for t in ('cargo', 'rustc', 'cvc5', 'z3-new'):
    if not shutil.which(t):
        print('missing', t)
        ok = False
for f in ('engine/expr.py', 'engine/llir.py', 'engine/symex.py', 'engine/solve.py', 'engine/run_harness.py', 'check.py'):
    ok &= subprocess.run([sys.executable, '-m', 'py_compile', f]).returncode == 0
sys.exit(0 if ok else 1)
