import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from fractions import Fraction
from symexec import var, const, Term, f32bits, f64bits, const_float, FL
from terms import *
from engine import Case

F = Fraction
PROPS = {}


def prop(pid, builds=('base',)):
    def d(f):
        PROPS[pid] = {'cases': f, 'builds': builds}
        return f
    return d


def vs(prefix, n, sort):
    return [var('%s%d' % (prefix, i), sort) for i in range(n)]


def slots(*xs):
    """Terms -> (sort, term); ints -> u64; (sort, float) -> constant"""
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)) and not (len(x) == 2 and isinstance(x[0], str)):
            out += slots(*x)
        elif isinstance(x, Term):
            out.append((x.sort, x))
        elif isinstance(x, tuple):
            s, v = x
            out.append((s, f32bits(v) if s == 'f32' else f64bits(v) if s == 'f64' else v))
        elif isinstance(x, int):
            out.append(('i64', x))
        else:
            raise TypeError(x)
    return out


def box(terms, lo, hi):
    return {t.imm: (lo, hi) for t in terms}


def rs(ts):
    return [real(t) for t in ts]


U = {'f32': F(1, 2 ** 24), 'f64': F(1, 2 ** 53)}
SORTS = ('f32', 'f64')
BITS = {'f32': 32, 'f64': 64}


def matvec(m, v):
    return [dot(m[3 * i:3 * i + 3], v) for i in range(3)]


def matmul(a, b):
    return [add(*[mul(a[3 * i + k], b[3 * k + j]) for k in range(3)]) for i in range(3) for j in range(3)]


def det3(m):
    a, b, c, d, e, f, g, h, i = m
    return add(mul(a, sub(mul(e, i), mul(f, h))), mul(b, sub(mul(f, g), mul(d, i))), mul(c, sub(mul(d, h), mul(e, g))))


IDENT = [F(1) if i % 4 == 0 else F(0) for i in range(9)]


def goals_near(pfx, outs, specs, tol):
    return [('%s[%d]' % (pfx, i), near(real(o), s, tol)) for i, (o, s) in enumerate(zip(outs, specs))]
