"""Concrete execution of the harness entry points compiled from /repo (used to replay solver
models, to validate the encoding, and to confirm violations)."""
import struct, subprocess, math
from symexec import const, FL, const_float
from terms import meval, Undefined

SZ = {'f32': 4, 'f64': 8, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8}


def pack(slots, env):
    b = b''
    for ty, v in slots:
        bits = env[v.imm] if hasattr(v, 'op') else v
        b += int(bits).to_bytes(SZ[ty], 'little')
    return b


class Native:
    def __init__(self, runner, lib, inits=()):
        self.cmd = [runner, lib] + list(inits)
        self.p = None
        self.runs = 0

    def run(self, fn, inp, nout):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.p.stdin.write('%s %d %s\n' % (fn, nout, inp.hex()))
        self.p.stdin.flush()
        r = self.p.stdout.readline().split()
        self.runs += 1
        if not r:
            raise RuntimeError('runner died')
        if r[0] == 'ok':
            return 'ok', bytes.fromhex(r[1]) if len(r) > 1 else b''
        if r[0] == 'missing':
            raise RuntimeError('no entry point ' + fn)
        return ' '.join(r), None

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()


class Rd:
    """cursor over the observable output of one execution"""

    def __init__(self):
        self.off = 0
        self.known = {}

    def take(self, ty, n):
        r = self._get(ty, self.off, n)
        self.off += SZ[ty] * n
        return r

    def one(self, ty):
        return self.take(ty, 1)[0]

    def k(self, ty='i64'):
        """an output that must be the same on the whole path (a length, a tag)"""
        t = self.one(ty)
        if t.op != 'const':
            v = self.known.get(t)
            if v is None:
                raise NeedConst(t)
            return v
        return t.imm

    def skip(self, ty, n):
        self.off += SZ[ty] * n


class BadOut(Exception):
    pass


class NeedConst(Exception):
    """an output that selects the property's case has to be resolved on this path first"""

    def __init__(self, t):
        self.t = t


class NatRd(Rd):
    def __init__(self, data):
        super().__init__()
        self.data = data

    def _get(self, ty, off, n):
        s = SZ[ty]
        if off + n * s > len(self.data):
            raise BadOut('output longer than expected')
        return [const(ty, int.from_bytes(self.data[off + i * s:off + (i + 1) * s], 'little')) for i in range(n)]


class SymRd(Rd):
    def __init__(self, ex, sid):
        super().__init__()
        self.ex, self.sid = ex, sid
        self.log = []

    def _get(self, ty, off, n):
        r = self.ex.outs(self.sid, ty, off, n)
        if any(t is None for t in r):
            raise BadOut('output byte never written')
        self.log.append((off, r))
        return r
