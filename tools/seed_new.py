#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from a description file, and confirms it in a scratch copy of /repo.

    seed_new.py FILE.py [--no-tests]

FILE.py defines: ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (text of main.rs),
and perhaps MACHINE (target to interpret the demonstration for).
A change is kept only if it builds, passes the stable tests, and the demonstration passes without
and fails with it.
"""
import json, os, shutil, subprocess, sys

LAB = '/tmp/lab/repo'
OUT = '/verif/seeded'
DEMO_SH = '''#!/bin/bash
# Builds main.rs against the crates in the current directory, in a scratch directory, and runs it.
. /opt/vp/env.sh
repo=$(pwd)
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 99
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
bsn1 = { path = "$repo/bsn1" }
bsn1_serde = { path = "$repo/bsn1_serde" }
anyhow = "1"
[profile.dev]
debug = false
opt-level = 0
[workspace]
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
export CARGO_TARGET_DIR="$work/target" RUST_BACKTRACE=0
cargo build --offline --quiet --manifest-path "$work/Cargo.toml" || exit 98
timeout 120 "$work/target/debug/demo"
'''

# for a machine of another kind: MACHINE in the description
RUN = '''cargo build --offline --quiet --manifest-path "$work/Cargo.toml" || exit 98
timeout 120 "$work/target/debug/demo"
'''
INTERPRET = '''# runs for %s, in an interpreter
export XDG_CACHE_HOME="$work/cache" MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-permissive-provenance"
cargo +nightly miri setup --target %s > /dev/null 2>&1 || exit 98
timeout 200 cargo +nightly miri run -q --offline --target %s --manifest-path "$work/Cargo.toml"
'''

def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    # the build and test scripts name /repo: run them with the copy in its place
    if not os.path.isdir(LAB):
        sh('cp -a /repo %s' % LAB)
    sh('git checkout -q -f HEAD && git clean -fdq && git fetch -q /repo main && git reset -q --hard FETCH_HEAD', LAB)
    d = os.path.join(OUT, spec['ID'])
    os.makedirs(d, exist_ok=True)
    demo = DEMO_SH
    if spec.get('MACHINE'):
        assert RUN in demo
        demo = demo.replace(RUN, INTERPRET % ((spec['MACHINE'],) * 3))
    open(d + '/demo.sh', 'w').write(demo)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/main.rs', 'w').write(spec['DEMO'].lstrip())
    rc, out = sh('bash %s/demo.sh' % d, LAB)
    if rc != 0:
        print(out[-3000:]); print('DEMO FAILS ON THE UNCHANGED TREE', rc); return 1
    for f, old, new in spec['EDITS']:
        p = os.path.join(LAB, f)
        t = open(p).read()
        if t.count(old) != 1:
            print('EDIT DOES NOT APPLY', f, t.count(old), old); return 1
        open(p, 'w').write(t.replace(old, new))
    rc, diff = sh('git diff', LAB)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']},
              open(d + '/meta.json', 'w'), indent=1)
    rc, out = sh('bash %s/demo.sh' % d, LAB)
    if rc == 0 or rc == 98:
        print(out[-3000:]); print('DEMO DOES NOT FAIL WITH THE CHANGE', rc); bad(d); return 1
    print('demo:', rc, out.strip()[-300:])
    if '--no-tests' not in sys.argv:
        script = open('/opt/vp/test.sh').read().replace('/repo', LAB)
        open('/tmp/lab/test.sh', 'w').write(script)
        rc, out = sh('bash /tmp/lab/test.sh /tmp/lab/out.json', LAB)
        base = json.load(open('/opt/vp/BASELINE.json'))
        res = json.load(open('/tmp/lab/out.json'))
        stable = set(base.get('stable') or base.get('passed') or base['stable_pass'])
        passed = set(res['passed'])
        lost = sorted(stable - passed)
        if lost:
            print('TESTS FAIL:', len(lost), lost[:5]); bad(d); return 1
        print('tests pass:', len(passed))
    print('KEPT', spec['ID'])
    return 0

def bad(d):
    shutil.rmtree(d)

sys.exit(main())
