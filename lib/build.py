"""Builds the executor and, from /repo's current working tree, the harness library and its LLVM IR."""
import glob, os, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(ROOT, 'build')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true')
for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'CARGO_TARGET_DIR'):
    ENV.pop(k, None)


class BuildError(Exception):
    pass


def sh(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True)
    if p.returncode:
        raise BuildError('%s failed:\n%s' % (' '.join(cmd), p.stderr[-4000:]))
    return p.stdout


def llvm_dis():
    sysroot = sh(['rustc', '--print', 'sysroot'], ROOT, ENV).strip()
    return glob.glob(sysroot + '/lib/rustlib/*/bin/llvm-dis')[0]


def irsym():
    sh(['cargo', 'build', '--release', '--offline', '-q'], ROOT + '/irsym', dict(ENV, CARGO_TARGET_DIR=B + '/irsym'))
    return B + '/irsym/release/irsym'


def runner():
    os.makedirs(B, exist_ok=True)
    out = B + '/runner'
    sh(['gcc', '-O1', '-o', out + '.tmp%d' % os.getpid(), ROOT + '/native/runner.c', '-ldl'], ROOT, ENV)
    os.replace(out + '.tmp%d' % os.getpid(), out)
    return out


def harness(kind):
    env = dict(ENV, CARGO_TARGET_DIR='%s/h_%s' % (B, kind))
    cmd = ['cargo', 'rustc', '--release', '--offline', '-q']
    deps = '%s/h_%s/release' % (B, kind)
    if kind == 'avx':
        env['RUSTFLAGS'] = '-C target-feature=+avx,+avx2,+fma'
        cmd += ['--target', 'x86_64-unknown-linux-gnu']
        deps = '%s/h_avx/x86_64-unknown-linux-gnu/release' % B
    cmd += ['--', '-C', 'save-temps', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp']
    pat = deps + '/deps/*.rcgu.bc'

    def bcs():
        return [f for f in glob.glob(pat) if not f.endswith('.no-opt.bc') and '.lto.' not in f]
    for f in bcs():
        os.remove(f)
    # cargo must relink even when its fingerprint says fresh: the bitcode above was removed
    lib = ROOT + '/harness/src/lib.rs'
    for f in glob.glob(deps + '/.fingerprint/vharness-*') + glob.glob(deps + '/deps/libvharness*'):
        shutil.rmtree(f, ignore_errors=True) if os.path.isdir(f) else os.remove(f)
    # same for the crate under test: never trust timestamps of a working tree
    for f in glob.glob(deps + '/.fingerprint/colorspace-*'):
        shutil.rmtree(f, ignore_errors=True)
    sh(cmd, ROOT + '/harness', env)
    fs = bcs()
    if len(fs) != 1:
        raise BuildError('expected one bitcode file, got %r' % fs)
    ll = '%s/%s.ll' % (B, kind)
    sh([llvm_dis(), fs[0], '-o', ll], ROOT, ENV)
    return {'ll': ll, 'so': deps + '/libvharness.so'}


def build(kinds):
    cfg = {'irsym': irsym(), 'runner': runner()}
    for k in kinds:
        cfg[k] = harness(k)
    return cfg


if __name__ == '__main__':
    t = time.time()
    print(build(sys.argv[1:] or ['base', 'avx']), time.time() - t)
