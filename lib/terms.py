"""Builders for specification terms (sort 'R': exact real arithmetic; 'i1': booleans), exact
evaluation of terms (mpmath), and bit-precise evaluation (used to validate the encoding)."""
import ctypes, math
from fractions import Fraction
import numpy as np
import mpmath as mp
from symexec import Term, var, const, f64bits, f32bits, bits_f64, bits_f32, const_float, FL

mp.mp.prec = 400
R = 'R'


def rc(x):
    """real constant (exact)"""
    if isinstance(x, Term):
        return x if x.sort == R else real(x)
    return Term('rconst', R, Fraction(x))


def real(t):
    """the exact real value of a machine float or unsigned integer"""
    if t.sort == R:
        return t
    if t.op == 'const':
        if t.sort in FL:
            v = const_float(t.sort, t.imm)
            if math.isfinite(v):
                return rc(Fraction(v))
        else:
            return rc(Fraction(t.imm))
    return Term('real', R, None, (t,))


def isc(t):
    return t.op == 'rconst'


def add(*xs):
    xs = [rc(x) for x in xs]
    r = xs[0]
    for x in xs[1:]:
        if isc(r) and isc(x):
            r = rc(r.imm + x.imm)
        else:
            r = Term('fadd', R, None, (r, x))
    return r


def sub(a, b):
    a, b = rc(a), rc(b)
    if isc(a) and isc(b):
        return rc(a.imm - b.imm)
    return Term('fsub', R, None, (a, b))


def mul(*xs):
    xs = [rc(x) for x in xs]
    r = xs[0]
    for x in xs[1:]:
        if isc(r) and isc(x):
            r = rc(r.imm * x.imm)
        else:
            r = Term('fmul', R, None, (r, x))
    return r


def div(a, b):
    a, b = rc(a), rc(b)
    if isc(a) and isc(b) and b.imm != 0:
        return rc(a.imm / b.imm)
    return Term('fdiv', R, None, (a, b))


def neg(a):
    return sub(0, a)


def dot(u, v):
    return add(*[mul(a, b) for a, b in zip(u, v)])


def fn(name, *args):
    return Term(name, R, None, tuple(rc(a) for a in args))


def powr(a, c):
    return Term('pow', R, None, (rc(a), rc(c)))


def powi(a, n):
    return Term('powi', R, n, (rc(a),))


def sqrt(a):
    return Term('sqrt', R, None, (rc(a),))


def absr(a):
    a = rc(a)
    return Term('fabs', R, None, (a,))


def ite(c, a, b):
    if c is TRUE:
        return rc(a)
    if c is FALSE:
        return rc(b)
    return Term('ite', R, None, (c, rc(a), rc(b)))


def iteb(c, a, b):
    return And(Or(Not(c), a), Or(c, b))


TRUE = const('i1', 1)
FALSE = const('i1', 0)


def Not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return Term('not', 'i1', None, (a,))


def And(*xs):
    r = TRUE
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        r = x if r is TRUE else Term('and', 'i1', None, (r, x))
    return r


def Or(*xs):
    return Not(And(*[Not(x) for x in xs]))


def Implies(a, b):
    return Or(Not(a), b)


def lt(a, b):
    a, b = rc(a), rc(b)
    if isc(a) and isc(b):
        return TRUE if a.imm < b.imm else FALSE
    return Term('flt', 'i1', None, (a, b))


def le(a, b):
    a, b = rc(a), rc(b)
    if isc(a) and isc(b):
        return TRUE if a.imm <= b.imm else FALSE
    return Term('fle', 'i1', None, (a, b))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def between(lo, x, hi):
    return And(le(lo, x), le(x, hi))


def near(a, b, tol):
    """|a-b| <= tol"""
    a, b = rc(a), rc(b)
    d = sub(a, b)
    return And(le(d, tol), le(neg(tol), d))


def eqi(a, k):
    """machine integer a equals k (int or Term of the same sort)"""
    if not isinstance(k, Term):
        k = const(a.sort, k)
    if a.op == 'const' and k.op == 'const':
        return TRUE if a.imm == k.imm else FALSE
    if a is k:
        return TRUE
    return Term('eq', 'i1', None, (a, k))


def same(a, b):
    """bit-for-bit the same float, where every NaN counts as the same"""
    return Term('fsame', 'i1', None, (a, b))


def flt(a, b):
    return Term('flt', 'i1', None, (a, b))


def fle(a, b):
    return Term('fle', 'i1', None, (a, b))


def feq(a, b):
    return Term('feq', 'i1', None, (a, b))


def isnan(a):
    return Not(Term('ford', 'i1', None, (a, a)))


def finite(a):
    return Term('finite', 'i1', None, (a,))


def topo(roots):
    seen = set()
    out = []
    st = [(r, False) for r in roots]
    while st:
        t, done = st.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        st.append((t, True))
        for a in t.args:
            if a.id not in seen:
                st.append((a, False))
    return out


def variables(roots):
    return [t for t in topo(roots) if t.op == 'var']


# ---------------------------------------------------------------- exact evaluation
class Undefined(Exception):
    pass


def _mpval(t, bits):
    v = const_float(t, bits)
    if not math.isfinite(v):
        raise Undefined('non-finite')
    return mp.mpf(v)


def meval(root, env):
    """Evaluate a spec term exactly (400 bits) with machine variables bound in env (name -> bits).
    Undefined when a real() is applied to a NaN or infinity; booleans over it are then decided by
    the caller."""
    memo = {}

    def ev(t):
        st = [t]
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            todo = [a for a in x.args if a.id not in memo]
            if x.op in ('and', 'ite') and x.args[0].id in memo:
                c = memo[x.args[0].id]
                if x.op == 'and' and c is False:
                    memo[x.id] = False
                    st.pop()
                    continue
                if x.op == 'ite':
                    sel = x.args[1] if c else x.args[2]
                    if sel.id in memo:
                        memo[x.id] = memo[sel.id]
                        st.pop()
                    else:
                        st.append(sel)
                    continue
            if x.op in ('and', 'ite') and x.args[0].id not in memo:
                st.append(x.args[0])
                continue
            if todo:
                st.extend(todo)
                continue
            memo[x.id] = _step(x, [memo[a.id] for a in x.args], env)
            st.pop()
        return memo[t.id]

    return ev(root)


def _step(x, a, env):
    op = x.op
    if op == 'rconst':
        return mp.mpf(x.imm.numerator) / mp.mpf(x.imm.denominator)
    if op == 'const':
        if x.sort == 'i1':
            return bool(x.imm)
        if x.sort in FL:
            return const_float(x.sort, x.imm)
        return x.imm
    if op == 'var':
        b = env[x.imm]
        return const_float(x.sort, b) if x.sort in FL else b
    if op == 'real':
        if x.args[0].sort in FL:
            if not math.isfinite(a[0]):
                raise Undefined('non-finite value')
        return mp.mpf(a[0])
    if x.sort == R:
        try:
            return _rop(x, a)
        except (ZeroDivisionError, ValueError) as e:
            raise Undefined(str(e))
    if x.sort == 'i1':
        if op == 'not':
            return not a[0]
        if op == 'and':
            return a[0] and a[1]
        if op == 'or':
            return a[0] or a[1]
        if op == 'flt':
            return bool(a[0] < a[1])
        if op == 'fle':
            return bool(a[0] <= a[1])
        if op == 'feq':
            return bool(a[0] == a[1])
        if op == 'ford':
            return not (a[0] != a[0] or a[1] != a[1])
        if op == 'finite':
            return math.isfinite(a[0])
        if op == 'fsame':
            return (a[0] != a[0] and a[1] != a[1]) or (a[0] == a[1] and math.copysign(1, a[0]) == math.copysign(1, a[1]))
        if op == 'eq':
            return a[0] == a[1]
        if op == 'bvult':
            return a[0] < a[1]
        if op == 'bvule':
            return a[0] <= a[1]
    # any other machine operation: exactly as the hardware does it
    with np.errstate(all='ignore'):
        m = [_np(t.sort)(v) if t.sort in FL else int(v) for t, v in zip(x.args, a)]
        r = _cstep(x, m, env)
    return float(r) if x.sort in FL else bool(r) if x.sort == 'i1' else int(r)


def _rop(x, a):
    op = x.op
    if op == 'fadd':
        return a[0] + a[1]
    if op == 'fsub':
        return a[0] - a[1]
    if op == 'fmul':
        return a[0] * a[1]
    if op == 'fdiv':
        if a[1] == 0:
            raise Undefined('division by zero')
        return a[0] / a[1]
    if op == 'pow':
        if a[0] < 0 or (a[0] == 0 and a[1] <= 0):
            raise Undefined('pow domain')
        return mp.power(a[0], a[1])
    if op == 'powi':
        return a[0] ** x.imm
    if op == 'sqrt':
        if a[0] < 0:
            raise Undefined('sqrt domain')
        return mp.sqrt(a[0])
    if op == 'fabs':
        return abs(a[0])
    if op == 'fmax':
        return max(a)
    if op == 'fmin':
        return min(a)
    if op == 'ite':
        return a[1] if a[0] else a[2]
    if op == 'exp':
        return mp.exp(a[0])
    if op == 'log10':
        if a[0] <= 0:
            raise Undefined('log domain')
        return mp.log10(a[0])
    if op == 'log':
        return mp.log(a[0])
    if op == 'sin':
        return mp.sin(a[0])
    if op == 'cos':
        return mp.cos(a[0])
    if op == 'atan2':
        return mp.atan2(a[0], a[1])
    if op == 'hypot':
        return mp.hypot(a[0], a[1])
    if op == 'floor':
        return mp.floor(a[0])
    raise NotImplementedError('rop ' + op)


# ---------------------------------------------------------------- bit-precise evaluation
_libm = ctypes.CDLL('libm.so.6')


def _lm(name, sort, n):
    f = getattr(_libm, name + ('f' if sort == 'f32' else ''))
    c = ctypes.c_float if sort == 'f32' else ctypes.c_double
    f.argtypes = [c] * n
    f.restype = c
    return f


def _np(sort):
    return np.float32 if sort == 'f32' else np.float64


def _fbits(sort, v):
    return int(np.float32(v).view(np.uint32)) if sort == 'f32' else int(np.float64(v).view(np.uint64))


def _width(s):
    return 32 if s == 'f32' else 64 if s == 'f64' else int(s[1:])


def _sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def ceval(roots, env):
    """Bit-precise evaluation of machine terms; env: var name -> bits. Returns list of bits (ints)."""
    m = {}
    with np.errstate(all='ignore'):
        for t in topo(roots):
            m[t.id] = _cstep(t, [m[a.id] for a in t.args], env)
    out = []
    for r in roots:
        v = m[r.id]
        out.append(_fbits(r.sort, v) if r.sort in FL else int(v))
    return out


def _round_frac(fr, sort):
    # correctly rounded conversion of a Fraction
    if sort == 'f64':
        return np.float64(fr.numerator / fr.denominator) if fr else np.float64(0.0)
    # double rounding safe path for f32: use integer arithmetic
    if fr == 0:
        return np.float32(0)
    s = -1 if fr < 0 else 1
    fr = abs(fr)
    e = fr.numerator.bit_length() - fr.denominator.bit_length()
    if Fraction(2) ** e > fr:
        e -= 1
    q = max(e - 23, -149)
    sc = fr / Fraction(2) ** q
    n = sc.numerator // sc.denominator
    rem = sc - n
    if rem > Fraction(1, 2) or (rem == Fraction(1, 2) and n & 1):
        n += 1
    return np.float32(s * float(n * Fraction(2) ** q))


def _cstep(t, a, env):
    op, so = t.op, t.sort
    if op == 'const':
        return _np(so)(const_float(so, t.imm)) if so in FL else t.imm
    if op == 'var':
        b = env[t.imm]
        if so == 'f32':
            return np.uint32(b).view(np.float32)
        if so == 'f64':
            return np.uint64(b).view(np.float64)
        return b
    if so in FL:
        T = _np(so)
        if op == 'fadd':
            return T(a[0] + a[1])
        if op == 'fsub':
            return T(a[0] - a[1])
        if op == 'fmul':
            return T(a[0] * a[1])
        if op == 'fdiv':
            return T(a[0] / a[1])
        if op == 'fneg':
            return T(-a[0])
        if op == 'fabs':
            return T(abs(a[0]))
        if op == 'sqrt':
            return T(np.sqrt(a[0]))
        if op == 'fma':
            if all(np.isfinite(x) for x in a):
                fr = Fraction(float(a[0])) * Fraction(float(a[1])) + Fraction(float(a[2]))
                if fr == 0:
                    return T(a[0] * a[1] + a[2])
                return _round_frac(fr, so)
            return T(a[0] * a[1] + a[2])
        if op in ('round', 'floor', 'ceil', 'trunc'):
            return T(_lm(op, so, 1)(float(a[0])))
        if op == 'roundeven':
            return T(np.rint(a[0]))
        if op == 'fmin':
            return T(np.fmin(a[0], a[1]))
        if op == 'fmax':
            return T(np.fmax(a[0], a[1]))
        if op == 'copysign':
            return T(np.copysign(a[0], a[1]))
        if op in ('pow', 'atan2', 'hypot', 'fmod'):
            return T(_lm(op, so, 2)(float(a[0]), float(a[1])))
        if op == 'cbrt' and a[0] and np.isfinite(a[0]):
            # std links compiler_builtins' correctly rounded cbrt, not glibc's
            with mp.workprec(200):
                r = mp.cbrt(abs(mp.mpf(float(a[0]))))
                return T(np.copysign(T(float(r)) if so == 'f64' else _round_frac(Fraction(int(mp.floor(r * mp.mpf(2) ** 120))) / 2 ** 120, so), a[0]))
        if op in ('log10', 'log2', 'log', 'exp', 'exp2', 'sin', 'cos', 'tan', 'cbrt', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'expm1', 'log1p'):
            return T(_lm(op, so, 1)(float(a[0])))
        if op == 'powi':
            n = t.imm
            if n >= 1 << 63:
                n -= 1 << 64
            # compiler-rt __powidf2
            recip = n < 0
            b = a[0]
            r = T(1)
            k = abs(n)
            while True:
                if k & 1:
                    r = T(r * b)
                k >>= 1
                if k == 0:
                    break
                b = T(b * b)
            return T(T(1) / r) if recip else r
        if op == 'ite':
            return a[1] if a[0] else a[2]
        if op in ('fpext', 'fptrunc'):
            return T(a[0])
        if op == 'uitofp':
            return _round_frac(Fraction(a[0]), so)
        if op == 'sitofp':
            return _round_frac(Fraction(_sgn(a[0], _width(t.args[0].sort))), so)
        if op == 'bitcast':
            return np.uint32(a[0]).view(np.float32) if so == 'f32' else np.uint64(a[0]).view(np.float64)
        raise NotImplementedError('ceval ' + op)
    w = _width(so)
    M = (1 << w) - 1
    if op in ('fptoui', 'fptosi', 'fptoui_sat', 'fptosi_sat'):
        v = float(a[0])
        if math.isnan(v):
            return 0
        lo, hi = (0, M) if 'ui' in op else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if math.isinf(v):
            n = hi if v > 0 else lo
        else:
            n = min(max(int(v), lo), hi)
        return n & M
    if op == 'flt':
        return int(a[0] < a[1])
    if op == 'fle':
        return int(a[0] <= a[1])
    if op == 'feq':
        return int(a[0] == a[1])
    if op == 'ford':
        return int(not (np.isnan(a[0]) or np.isnan(a[1])))
    if op == 'eq':
        return int(a[0] == a[1])
    if op == 'not':
        return a[0] ^ 1
    if op == 'and':
        return a[0] & a[1]
    if op == 'or':
        return a[0] | a[1]
    if op == 'xor':
        return a[0] ^ a[1]
    if op == 'ite':
        return a[1] if a[0] else a[2]
    if op in ('zext',):
        return a[0]
    if op == 'sext':
        return _sgn(a[0], _width(t.args[0].sort)) & M
    if op == 'extract':
        return (a[0] >> t.imm) & M
    if op == 'concat':
        r, sh = 0, 0
        for x, tt in zip(a, t.args):
            r |= x << sh
            sh += _width(tt.sort)
        return r
    if op == 'bitcast':
        return _fbits(t.args[0].sort, a[0]) if t.args[0].sort in FL else a[0]
    wa = _width(t.args[0].sort)
    s = lambda v: _sgn(v, wa)
    f = {
        'add': lambda: a[0] + a[1], 'sub': lambda: a[0] - a[1], 'mul': lambda: a[0] * a[1],
        'udiv': lambda: a[0] // a[1] if a[1] else 0, 'urem': lambda: a[0] % a[1] if a[1] else 0,
        'shl': lambda: a[0] << a[1] if a[1] < w else 0, 'lshr': lambda: a[0] >> a[1], 'ashr': lambda: s(a[0]) >> a[1],
        'bvult': lambda: int(a[0] < a[1]), 'bvule': lambda: int(a[0] <= a[1]), 'bvugt': lambda: int(a[0] > a[1]), 'bvuge': lambda: int(a[0] >= a[1]),
        'bvslt': lambda: int(s(a[0]) < s(a[1])), 'bvsle': lambda: int(s(a[0]) <= s(a[1])), 'bvsgt': lambda: int(s(a[0]) > s(a[1])), 'bvsge': lambda: int(s(a[0]) >= s(a[1])),
    }.get(op)
    if f is None:
        raise NotImplementedError('ceval ' + op)
    return f() & M
