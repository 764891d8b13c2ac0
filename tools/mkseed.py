#!/usr/bin/env python3
"""Author and confirm a planted bug.

    mkseed.py ID PROPERTY 'needs' 'what it breaks' < edit

Reads from stdin:   python source operating on `edit(path, old, new)`; after a line `%%%`,
the body of the demonstration's main.rs.  Works in a scratch copy of /repo, confirms that
the change builds, passes the stable tests, and that the demonstration fails with it and
passes without it; then writes /verif/seeded/ID."""
import json, os, shutil, subprocess, sys, tempfile
sid, prop, needs, breaks = sys.argv[1:5]
src = sys.stdin.read()
ed, demo = src.split('\n%%%\n')
S = tempfile.mkdtemp(prefix='seed')
W = S + '/repo'
subprocess.check_call(['git', 'clone', '-q', '/repo', W])
def edit(path, old, new, count=1):
    p = os.path.join(W, path)
    s = open(p).read()
    assert s.count(old) >= 1, ('not found', path, old)
    assert s.count(old) == count or count == 0, ('ambiguous', s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
exec(ed)
D = '/verif/seeded/' + sid
shutil.rmtree(D, ignore_errors=True)
os.makedirs(D)
open(D + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', W, 'diff'], text=True))
open(D + '/main.rs', 'w').write(demo)
open(D + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: behaves; nonzero: broken.  Run with cwd = the repository.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
infrared = { path = "$repo" }
embedded-hal = { version = "0.2.4", features = ["unproven"] }
fugit = "0.3.5"
[workspace]
EOF
cd "$tmp" || exit 3
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true
cargo build --offline -q 2> "$tmp/log" || { cat "$tmp/log"; exit 4; }
timeout 120 "$tmp/target/debug/demo"
''')
os.chmod(D + '/demo.sh', 0o755)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(D + '/meta.json', 'w'), indent=1)
try:
    clean = subprocess.run([D + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    bad = subprocess.run([D + '/demo.sh'], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    # tests, in the scratch copy
    t = subprocess.run(['cargo', 'test', '--offline', '-q', '--workspace'], cwd=W, env=dict(os.environ, CARGO_TARGET_DIR=S + '/t', CARGO_NET_OFFLINE='true'),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(sid, 'clean', clean.returncode, 'bad', bad.returncode, 'tests', t.returncode)
    if clean.returncode or not bad.returncode or t.returncode:
        print(clean.stdout[-1500:], '\n---bad\n', bad.stdout[-1500:], '\n---tests\n', t.stdout[-2500:])
        sys.exit(1)
finally:
    shutil.rmtree(S, ignore_errors=True)
