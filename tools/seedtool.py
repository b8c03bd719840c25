"""seedtool.py make FILE...   generate /verif/seeded/<id> from seed descriptions (python files defining SEEDS)
   seedtool.py verify [ID...] [--nocheck]  apply each in /repo, build, test, demo, run its check, undo"""
import json, os, subprocess, sys, difflib, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
DEMO = r'''#!/bin/bash
# exit 0 when the property holds in the crate in the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
colorspace = { path = "$repo" }
%(deps)s
[workspace]
T
cd "$d" || exit 3
unset CARGO_BUILD_TARGET
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true%(flags)s
cargo build --offline -q 2>"$d/log" || { cat "$d/log"; exit 3; }
exec_=$(find "$d/target" -maxdepth 3 -name demo -type f | head -1)
"$exec_"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def make(fn):
    ns = {}
    exec(open(fn).read(), ns)
    for s in ns['SEEDS']:
        d = '%s/seeded/%s' % (ROOT, s['id'])
        os.makedirs(d, exist_ok=True)
        patch = ''
        files = {}
        for f, old, new in s['edits']:
            t = files.get(f) or open('%s/%s' % (REPO, f)).read()
            assert t.count(old) == 1, (s['id'], t.count(old), old)
            files[f] = t.replace(old, new)
        for f, t in files.items():
            a = open('%s/%s' % (REPO, f)).read()
            patch += ''.join(difflib.unified_diff(a.splitlines(True), t.splitlines(True), 'a/' + f, 'b/' + f))
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/main.rs', 'w').write(s['main'].strip() + '\n')
        flags = ''
        if s.get('avx'):
            flags = " RUSTFLAGS='-C target-feature=+avx,+avx2,+fma'"
        open(d + '/demo.sh', 'w').write(DEMO % {'flags': flags, 'deps': s.get('deps', '')})
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print('made', s['id'])


def verify(ids, check=True):
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i in ids or sorted(os.listdir(ROOT + '/seeded')):
        d = '%s/seeded/%s' % (ROOT, i)
        prop = json.load(open(d + '/meta.json'))['property']
        assert sh('git -C %s status --porcelain' % REPO).stdout == '', 'dirty'
        r0 = sh('bash %s/demo.sh' % d, cwd=REPO)
        out = ['clean demo %d' % r0.returncode + ('' if r0.returncode == 0 else r0.stdout[-300:] + r0.stderr[-300:])]
        try:
            a = sh('git -C %s apply %s/patch.diff' % (REPO, d))
            out.append('apply %d' % a.returncode + a.stderr[-200:])
            b = sh('bash /opt/vp/build.sh')
            out.append('build %d' % b.returncode)
            sh('bash /opt/vp/test.sh /tmp/seed_t.json')
            miss = stable - set(json.load(open('/tmp/seed_t.json'))['passed'])
            out.append('tests ok' if not miss else 'TESTS FAIL %s' % sorted(miss)[:2])
            r1 = sh('bash %s/demo.sh' % d, cwd=REPO)
            out.append('patched demo %d' % r1.returncode)
            if r1.returncode == 3:
                out.append(r1.stdout[-300:])
            if check:
                t = time.time()
                c = sh('python3-vt lib/check.py %s quick' % prop, cwd=ROOT)
                l = [x for x in c.stdout.splitlines() if x.startswith(('VIOLATION', 'case:', 'assertion:', 'UNDEC'))]
                out.append('%s %s exit %d (%.0f s) %s' % ('CAUGHT' if c.returncode == 1 else '*** MISSED', prop, c.returncode, time.time() - t, l[:2]))
        finally:
            sh('git -C %s checkout -- .' % REPO)
        print(i, '|', ' | '.join(out), flush=True)
    sh('bash /opt/vp/build.sh')


if sys.argv[1] == 'make':
    for f in sys.argv[2:]:
        make(f)
else:
    verify([a for a in sys.argv[2:] if not a.startswith('-')], '--nocheck' not in sys.argv)
