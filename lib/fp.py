"""Bit-precise back end: machine terms become QF_FPBV terms (IEEE-754 floats, bit-vectors), so NaN,
infinities, signed zeros and every rounding are exact.  Specification reals (sort R) are carried in
binary128-like floats; a specification used here must be exact in that format (see DESIGN.md)."""
import time, subprocess, tempfile, os
from fractions import Fraction
import z3
from symexec import FL, const_float, f32bits, f64bits
from terms import topo

F32, F64, FQ = z3.Float32(), z3.Float64(), z3.FPSort(15, 160)
FS = {'f32': F32, 'f64': F64, 'R': FQ}
RNE, RTZ, RNA, RTP, RTN = z3.RNE(), z3.RTZ(), z3.RNA(), z3.RTP(), z3.RTN()
COMM = {'fadd', 'fmul', 'feq', 'fsame', 'eq', 'and', 'or', 'add', 'mul', 'xor'}


class FpCtx:
    def __init__(self, stats=None):
        self.m = {}
        self.side = []
        self.vars = {}
        self.ufs = {}
        self.stats = stats if stats is not None else {}

    def width(self, s):
        return 32 if s == 'f32' else 64 if s == 'f64' else int(s[1:])

    def tr(self, root):
        for t in topo([root]):
            if t.id not in self.m:
                a = t.args
                if t.op in COMM:
                    a = sorted(a, key=lambda x: x.id)
                self.m[t.id] = self.step(t, [self.m[x.id] for x in a])
        return self.m[root.id]

    def sort(self, s):
        if s in FS:
            return FS[s]
        return z3.BoolSort() if s == 'i1' else z3.BitVecSort(int(s[1:]))

    def uf(self, name, sort, args):
        k = (name, sort, len(args))
        if k not in self.ufs:
            self.ufs[k] = z3.Function('%s_%s' % (name, sort), *([a.sort() for a in args] + [self.sort(sort)]))
        return self.ufs[k](*args)

    def step(self, t, a):
        op, so = t.op, t.sort
        if op == 'var':
            v = z3.Const(t.imm, self.sort(so))
            self.vars[t.imm] = (so, v)
            return v
        if op == 'const':
            if so == 'i1':
                return z3.BoolVal(bool(t.imm))
            if so in FL:
                return z3.fpBVToFP(z3.BitVecVal(t.imm, self.width(so)), FS[so])
            return z3.BitVecVal(t.imm, int(so[1:]))
        if op == 'rconst':
            return z3.FPVal(str(t.imm), FQ) if t.imm.denominator & (t.imm.denominator - 1) == 0 else z3.fpRealToFP(RNE, z3.RealVal(t.imm), FQ)
        if op == 'real':
            if t.args[0].sort in FL:
                return z3.fpFPToFP(RNE, a[0], FQ)
            return z3.fpUnsignedToFP(RNE, a[0], FQ)
        if so in FS:
            S = FS[so]
            if op == 'fadd':
                return z3.fpAdd(RNE, a[0], a[1])
            if op == 'fsub':
                return z3.fpSub(RNE, a[0], a[1])
            if op == 'fmul':
                return z3.fpMul(RNE, a[0], a[1])
            if op == 'fdiv':
                return z3.fpDiv(RNE, a[0], a[1])
            if op == 'fneg':
                return z3.fpNeg(a[0])
            if op == 'fabs':
                return z3.fpAbs(a[0])
            if op == 'sqrt':
                return z3.fpSqrt(RNE, a[0])
            if op == 'fma':
                return z3.fpFMA(RNE, a[0], a[1], a[2])
            if op == 'fmin':
                return z3.If(z3.fpIsNaN(a[0]), a[1], z3.If(z3.fpIsNaN(a[1]), a[0], z3.If(z3.fpLT(a[1], a[0]), a[1], a[0])))
            if op == 'fmax':
                return z3.If(z3.fpIsNaN(a[0]), a[1], z3.If(z3.fpIsNaN(a[1]), a[0], z3.If(z3.fpLT(a[0], a[1]), a[1], a[0])))
            rm = {'round': RNA, 'roundeven': RNE, 'floor': RTN, 'ceil': RTP, 'trunc': RTZ}.get(op)
            if rm is not None:
                return z3.fpRoundToIntegral(rm, a[0])
            if op == 'ite':
                return z3.If(a[0], a[1], a[2])
            if op in ('fpext', 'fptrunc'):
                return z3.fpFPToFP(RNE, a[0], S)
            if op == 'uitofp':
                return z3.fpUnsignedToFP(RNE, self.bv(t.args[0], a[0]), S)
            if op == 'sitofp':
                return z3.fpSignedToFP(RNE, self.bv(t.args[0], a[0]), S)
            if op == 'bitcast':
                return z3.fpBVToFP(a[0], S)
            if op == 'copysign':
                neg = z3.fpIsNegative(a[1])
                return z3.If(neg, z3.fpNeg(z3.fpAbs(a[0])), z3.fpAbs(a[0]))
            return self.uf(op + ('' if t.imm is None else str(t.imm)), so, a)
        if op == 'flt':
            return z3.fpLT(a[0], a[1])
        if op == 'fle':
            return z3.fpLEQ(a[0], a[1])
        if op == 'feq':
            return z3.fpEQ(a[0], a[1])
        if op == 'ford':
            return z3.And(z3.Not(z3.fpIsNaN(a[0])), z3.Not(z3.fpIsNaN(a[1])))
        if op == 'finite':
            return z3.And(z3.Not(z3.fpIsNaN(a[0])), z3.Not(z3.fpIsInf(a[0])))
        if op == 'fsame':
            return a[0] == a[1]
        if op == 'eq':
            return a[0] == a[1]
        if so == 'i1':
            if op == 'not':
                return z3.Not(a[0])
            if op == 'and':
                return z3.And(a[0], a[1])
            if op == 'or':
                return z3.Or(a[0], a[1])
            if op == 'xor':
                return z3.Xor(a[0], a[1])
            if op == 'extract':
                return z3.Extract(t.imm, t.imm, a[0]) == z3.BitVecVal(1, 1)
            if op == 'ite':
                return z3.If(a[0], a[1], a[2])
        cm = {'bvult': z3.ULT, 'bvule': z3.ULE, 'bvugt': z3.UGT, 'bvuge': z3.UGE}.get(op)
        if cm:
            return cm(a[0], a[1])
        if op in ('bvslt', 'bvsle', 'bvsgt', 'bvsge'):
            x, y = a
            return {'bvslt': x < y, 'bvsle': x <= y, 'bvsgt': x > y, 'bvsge': x >= y}[op]
        w = int(so[1:])
        if op in ('fptoui', 'fptosi', 'fptoui_sat', 'fptosi_sat'):
            sg = 'si' in op
            x = a[0]
            S = x.sort()
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            cv = z3.fpToSBV(RTZ, x, z3.BitVecSort(w)) if sg else z3.fpToUBV(RTZ, x, z3.BitVecSort(w))
            # hi+1 and lo-1 are representable bounds for truncation
            big = z3.FPVal(float(hi + 1), S)
            low = z3.FPVal(float(lo), S)
            r = z3.If(z3.fpGEQ(x, big), z3.BitVecVal(hi, w), z3.If(z3.fpLEQ(x, low), z3.BitVecVal(lo, w), cv))
            return z3.If(z3.fpIsNaN(x), z3.BitVecVal(0, w), r)
        if op == 'ite':
            return z3.If(a[0], a[1], a[2])
        if op == 'zext':
            return z3.ZeroExt(w - self.width(t.args[0].sort), self.bv(t.args[0], a[0])) if w > self.width(t.args[0].sort) else a[0]
        if op == 'sext':
            return z3.SignExt(w - self.width(t.args[0].sort), self.bv(t.args[0], a[0]))
        if op == 'extract':
            x = a[0]
            if t.args[0].sort in FL:
                x = z3.fpToIEEEBV(x)
            return z3.Extract(t.imm + w - 1, t.imm, x)
        if op == 'concat':
            xs = [self.bv(tt, x) for tt, x in zip(t.args, a)]
            return z3.Concat(*reversed(xs)) if len(xs) > 1 else xs[0]
        if op == 'bitcast':
            return z3.fpToIEEEBV(a[0]) if t.args[0].sort in FL else a[0]
        f = {'add': lambda: a[0] + a[1], 'sub': lambda: a[0] - a[1], 'mul': lambda: a[0] * a[1],
             'udiv': lambda: z3.UDiv(a[0], a[1]), 'urem': lambda: z3.URem(a[0], a[1]),
             'shl': lambda: a[0] << a[1], 'lshr': lambda: z3.LShR(a[0], a[1]), 'ashr': lambda: a[0] >> a[1],
             'and': lambda: a[0] & a[1], 'or': lambda: a[0] | a[1], 'xor': lambda: a[0] ^ a[1]}.get(op)
        if f is None:
            raise NotImplementedError('fp ' + op + ' ' + so)
        return f()

    def bv(self, t, x):
        if t.sort == 'i1':
            return z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return x

    def check(self, fs, timeout):
        t0 = time.time()
        s = z3.Then('simplify', 'propagate-values', 'fpa2bv', 'simplify', 'propagate-values', 'solve-eqs', 'simplify', 'bit-blast', 'sat').solver() if not self.ufs else z3.Solver()
        s.set('timeout', timeout)
        s.add(fs)
        s.add(self.side)
        r = s.check()
        self.stats['queries'] = self.stats.get('queries', 0) + 1
        self.stats['solver_s'] = self.stats.get('solver_s', 0.0) + time.time() - t0
        env = None
        if r == z3.sat:
            m = s.model()
            env = {}
            for n, (so, v) in self.vars.items():
                if so in FL:
                    x = m.eval(v, model_completion=True)
                    if z3.is_true(z3.simplify(z3.fpIsNaN(x))):
                        env[n] = f32bits(float('nan')) if so == 'f32' else f64bits(float('nan'))
                    else:
                        env[n] = z3.simplify(z3.fpToIEEEBV(x)).as_long()
                else:
                    env[n] = m.eval(v, model_completion=True).as_long()
        return r, env
