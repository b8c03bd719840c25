"""Real-arithmetic back end.

Every machine float term t gets (P, E, lo, hi): P is a polynomial with exact rational coefficients
over atoms (inputs, reciprocals, roots, libm applications), lo <= P <= hi over the current box, and
|value(t) - P| <= E is a proved bound on the accumulated rounding error.  A machine comparison then
implies a comparison of the polynomials relaxed by the error bounds, so that  unsat  of
   path condition  and  assumptions  and  not(obligation)
over the reals means the obligation holds for every machine input in the box.  z3 decides the
formulas (linear over monomials first, then with the monomials' definitions)."""
import math, time
from fractions import Fraction
import mpmath as mp
import z3
from symexec import Term, FL, const_float, const
from terms import topo, R

INF = float('inf')
UNIT = {'f32': 2.0 ** -24, 'f64': 2.0 ** -53, 'R': 0.0}
TINY = {'f32': 2.0 ** -149, 'f64': 2.0 ** -1074, 'R': 0.0}
FMAX = {'f32': 3.4e38, 'f64': 1.79e308, 'R': INF}
LIBM_ULP = 8.0  # assumed accuracy of libm results, in half-ulps (see DESIGN.md)


class Split(Exception):
    def __init__(self, cond):
        self.cond = cond


def dn(x):
    return x if x == 0 or math.isinf(x) else math.nextafter(x, -INF)


def up(x):
    return x if x == 0 or math.isinf(x) else math.nextafter(x, INF)


def fdn(fr):
    """float lower bound of a Fraction"""
    try:
        f = float(fr)
    except OverflowError:
        return -INF if fr < 0 else 1.7e308
    return f if Fraction(f) <= fr else math.nextafter(f, -INF)


def fup(fr):
    try:
        f = float(fr)
    except OverflowError:
        return INF if fr > 0 else -1.7e308
    return f if Fraction(f) >= fr else math.nextafter(f, INF)


def m_(a, b):
    if a == 0 or b == 0:
        return 0.0
    return a * b


def imul(a, b):
    p = (m_(a[0], b[0]), m_(a[0], b[1]), m_(a[1], b[0]), m_(a[1], b[1]))
    return (dn(min(p)), up(max(p)))


def iadd(a, b):
    return (dn(a[0] + b[0]), up(a[1] + b[1]))


def ipow(a, n):
    if n == 1:
        return a
    if n % 2 == 0:
        m = max(abs(a[0]), abs(a[1]))
        lo = 0.0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1]))
        return (dn(dn(lo ** n)) if lo else 0.0, up(up(m ** n)))
    return (dn(dn(a[0] ** n)), up(up(a[1] ** n)))


def iroot(x, n, d):
    """real n-th root, rounded down (d<0) or up"""
    if math.isinf(x):
        return x
    r = math.copysign(abs(x) ** (1.0 / n), x)
    return r - abs(r) * 1e-14 if d < 0 else r + abs(r) * 1e-14


def imag(a):
    return max(abs(a[0]), abs(a[1]))


ONE = {(): Fraction(1)}


def pconst(c):
    return {(): Fraction(c)} if c else {}


def padd(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if s == 1 else s * c)
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    if not k:
        return {}
    return {m: c * k for m, c in a.items()}


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def cval(p):
    return p.get((), Fraction(0))


def pkey(p):
    return tuple(sorted(p.items()))


_NORM = {}


def _pull(t):
    """fabs(x)*c and fabs(x)/c with a positive constant are fabs of the product, bit for bit"""
    if t.op in ('fmul', 'fdiv') and t.sort in FL:
        a, b = t.args
        if t.op == 'fmul' and a.op == 'const':
            a, b = b, a
        if b.op == 'const' and const_float(b.sort, b.imm) > 0:
            a = _pull(a)
            if a.op == 'fabs':
                return Term('fabs', t.sort, None, (Term(t.op, t.sort, None, (a.args[0], b)),))
    return t


def norm(t):
    """comparisons with an absolute value as boolean combinations of plain comparisons"""
    if t.op not in ('flt', 'fle') or t.args[0].sort == 'i1':
        return t
    r = _NORM.get(t.id)
    if r is not None:
        return r
    a, b = _pull(t.args[0]), _pull(t.args[1])

    def ng(x):
        if x.op == 'fsub' and x.sort in FL:
            return Term('fsub', x.sort, None, x.args[::-1])
        return Term('fneg', x.sort, None, (x,))

    def k(x, y):
        return norm(Term(t.op, 'i1', None, (x, y)))
    if a.op == 'fabs':
        x = a.args[0]
        r = Term('and', 'i1', None, (k(x, b), k(ng(x), b)))
    elif b.op == 'fabs':
        x = b.args[0]
        r = Term('or', 'i1', None, (k(a, x), k(a, ng(x))))
    else:
        r = t
    _NORM[t.id] = r
    return r


PI = Fraction('3.14159265358979323846264338327950288419716939937510582097494459')


class Atom:
    __slots__ = ('id', 'kind', 'data', 'lo', 'hi', 'z', 'inv')

    def __init__(self, i, kind, data, lo, hi):
        self.id, self.kind, self.data, self.lo, self.hi = i, kind, data, lo, hi
        self.z = None
        self.inv = None


class Unknown(Exception):
    pass


class Ctx:
    MAXTERMS = 600

    def __init__(self, boxes, lits, stats=None, case=None, hints=()):
        self.boxes = boxes
        self.atoms = []
        self.byk = {}
        self.fnlist = {}
        self.loose = False   # single-precision inputs: merge applications of a function at nearly equal arguments
        self.case = dict(case or {})
        self.memo = {}
        self.bounds = {}
        self.lits = []
        self.stats = stats if stats is not None else {}
        self.freeb = {}
        self.zmono = {}
        self.labs = {}
        self.sqrtred = {}
        self.hints = hints
        self.infeasible = False
        self.cmps = []
        self.rdepth = 0
        self.tb = {}      # exact intervals of floating-point terms, from comparisons with constants
        self.affine, self.cur, self.ncur = False, None, 0
        self.opaque = False   # name every sum that is multiplied, instead of expanding products
        for t, pol in lits:
            self.assume(t, pol)

    # ---------------------------------------------------------------- atoms and polynomials
    def atom(self, kind, data, lo, hi, key=None):
        k = (kind, key if key is not None else data)
        a = self.byk.get(k)
        if a is None:
            a = Atom(len(self.atoms), kind, data, lo, hi)
            self.atoms.append(a)
            self.byk[k] = a
        elif kind != 'in':
            # the caller's enclosure may be tighter than the one first recorded
            if lo > a.lo and lo <= a.hi:
                a.lo = lo
            if hi < a.hi and hi >= a.lo:
                a.hi = hi
        return a

    def apoly(self, a):
        return {(a.id,): Fraction(1)}

    def mono_mul(self, m1, m2):
        """product of two monomials, as a polynomial (cancels x*inv(x), reduces sqrt^2)"""
        if not m1:
            return {m2: Fraction(1)}
        if not m2:
            return {m1: Fraction(1)}
        l = list(m1)
        for x in m2:
            iv = self.atoms[x].inv
            if iv is not None and iv in l:
                l.remove(iv)
            else:
                l.append(x)
        l.sort()
        if self.sqrtred:
            for j in range(len(l) - 1):
                if l[j] == l[j + 1] and l[j] in self.sqrtred:
                    q = self.sqrtred[l[j]]
                    rest = tuple(l[:j] + l[j + 2:])
                    return self.pmul(q, {rest: Fraction(1)})
        return {tuple(l): Fraction(1)}

    @property
    def haspow(self):
        return any(type(k) is tuple and k[0] == 'pow' for k in self.fnlist)

    def pmul(self, a, b):
        if is_const(a):
            return pscale(b, cval(a))
        if is_const(b):
            return pscale(a, cval(b))
        if len(a) * len(b) > self.MAXTERMS:
            if len(a) > len(b):
                a = self.atomize(a)
            else:
                b = self.atomize(b)
            return self.pmul(a, b)
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                for m, c in self.mono_mul(m1, m2).items():
                    v = r.get(m, 0) + c * c1 * c2
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
        return r

    def reduce(self, D):
        """rewrite with the relations inv(q)*q = 1 (leading monomial of q first)"""
        if len(D) > 3000:
            return D
        for _ in range(300):
            out = None
            for m in D:
                for x in set(m):
                    a = self.atoms[x]
                    if a.kind != 'inv' or len(a.data) < 2:
                        continue
                    L = max(a.data, key=lambda t: (len(t), t))
                    rest = list(m)
                    rest.remove(x)
                    try:
                        for y in L:
                            rest.remove(y)
                    except ValueError:
                        continue
                    out = (m, x, L, tuple(rest), a)
                    break
                if out:
                    break
            if not out:
                return D
            m, x, L, rest, a = out
            D = dict(D)
            c = D.pop(m)
            k = c / a.data[L]
            q = {t: -v for t, v in a.data.items() if t != L}
            R_ = padd({rest: k}, self.pmul(self.pmul(q, {(x,): Fraction(1)}), {rest: k}))
            D = padd(D, R_)
        return D

    def powred(self, D):
        """replace (x^c)^n by x where c*n is (nearly) 1; returns the polynomial and the error made"""
        err = 0.0
        for m in list(D):
            if len(m) < 2:
                continue
            for x in set(m):
                a = self.atoms[x]
                if a.kind != 'fn' or a.data[0] != 'pow':
                    continue
                n = m.count(x)
                c = a.data[1][0]
                if n < 2 or not 0 < c < 1:
                    continue
                k0 = round(1 / c)
                if k0 > n or abs(c * k0 - 1) > Fraction(1, 10 ** 5):
                    continue
                inner = a.data[2]
                il, ih = self.pint(inner)
                k = abs(float(c * k0 - 1))
                il = max(il, 0.0)
                s = max(math.exp(-1) if il < 1 else 0.0, abs(ih * math.log(ih)) if ih > 1 else 0.0)
                rest = list(m)
                for _ in range(k0):
                    rest.remove(x)
                rest = tuple(rest)
                co = D[m]
                if k:
                    err += k * s * 1.01 * imag(self.mint(rest)) * abs(float(co))
                D = dict(D)
                del D[m]
                D = padd(D, self.pmul(inner, {rest: co}))
                r, e2 = self.powred(D)
                return r, up(err + e2)
        return D, up(err) if err else 0.0

    def pval(self, i):
        """some value of an atom, consistent with the definitions of derived atoms (a screen only)"""
        v = self.vals.get(i)
        if v is None:
            a = self.atoms[i]
            h = ((i * 2654435761 + 12345) % 1000003) / 1000003.0
            try:
                if a.kind == 'inv':
                    v = 1.0 / self.peval(a.data)[0]
                elif a.kind == 'sqrt':
                    v = math.sqrt(self.peval(a.data)[0])
                elif a.kind == 'def':
                    v = self.peval(a.data)[0]
                else:
                    lo, hi = max(a.lo, -1e3), min(a.hi, 1e3)
                    v = lo + (hi - lo) * h
            except (ZeroDivisionError, ValueError):
                v = h
            self.vals[i] = v
        return v

    def peval(self, p):
        s = m = 0.0
        for mono, c in p.items():
            x = float(c)
            for y in mono:
                x *= self.pval(y)
            s += x
            m += abs(x)
        return s, m

    def maybe_zero(self, p):
        self.vals = {}
        s, m = self.peval(p)
        return abs(s) <= 1e-9 * m

    def atomize(self, p):
        """name a large polynomial by a fresh atom v with v = p (same atom for the same polynomial)"""
        c0 = cval(p)
        q = {m: c for m, c in p.items() if m != ()}
        if len(q) <= 1:
            return p
        lead = q[min(q)]
        q = pscale(q, 1 / lead)
        lo, hi = self.pint(q)
        a = self.atom('def', q, lo, hi, key=pkey(q))
        r = pscale(self.apoly(a), lead)
        return padd(r, pconst(c0)) if c0 else r

    def mint(self, m):
        r = (1.0, 1.0)
        i = 0
        while i < len(m):
            j = i
            while j < len(m) and m[j] == m[i]:
                j += 1
            a = self.atoms[m[i]]
            r = imul(r, ipow((a.lo, a.hi), j - i))
            i = j
        return r

    def pint(self, p):
        """interval of a polynomial, intersected with a recorded bound of its direction"""
        lo = hi = 0.0
        for m, c in p.items():
            ci = (fdn(c), fup(c))
            x = imul(ci, self.mint(m)) if m else ci
            lo, hi = dn(lo + x[0]), up(hi + x[1])
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
        if self.bounds and p:
            c0 = cval(p)
            q = {m: c for m, c in p.items() if m != ()}
            if q:
                lead = q[min(q)]
                b = self.bounds.get(pkey(pscale(q, 1 / lead)))
                if b is not None:
                    l2, h2 = imul((fdn(lead), fup(lead)), b)
                    l2, h2 = dn(l2 + fdn(c0)), up(h2 + fup(c0))
                    lo, hi = max(lo, l2), min(hi, h2)
        return (lo, hi)

    def record(self, p, lo, hi):
        """lo <= p <= hi is known"""
        c0 = cval(p)
        q = {m: c for m, c in p.items() if m != ()}
        if not q:
            if fup(c0) < lo or fdn(c0) > hi:
                self.infeasible = True
            return
        lead = q[min(q)]
        iv = (dn(lo - fup(c0)) if lo > -INF else -INF, up(hi - fdn(c0)) if hi < INF else INF)
        il = Fraction(1) / lead
        iv = imul((fdn(il), fup(il)), iv) if lead != 1 else iv
        if iv[0] != iv[0] or iv[1] != iv[1]:
            return
        q = pscale(q, il)
        k = pkey(q)
        if len(q) == 1 and len(next(iter(q))) == 1:
            a = self.atoms[next(iter(q))[0]]
            # keep exactly representable endpoints exact
            a.lo, a.hi = max(a.lo, iv[0]), min(a.hi, iv[1])
            if a.lo > a.hi:
                self.infeasible = True
            if a.kind == 'int':
                ap, ae = a.data
                self.record(ap, a.lo - ae, a.hi + 1 + ae)
            elif a.kind == 'def':
                self.record(a.data, a.lo, a.hi)
            elif a.kind == 'fn':
                self.back(a)
            return
        if len(q) == 1:
            mono = next(iter(q))
            n = len(mono)
            if mono[0] == mono[-1]:
                # lo <= x^n <= hi
                a = self.atoms[mono[0]]
                if n % 2 == 1 or a.lo >= 0:
                    r0 = max(iv[0], 0.0) if n % 2 == 0 else iv[0]
                    lo_, hi_ = iroot(r0, n, -1), iroot(iv[1], n, 1)
                    self.record({(a.id,): Fraction(1)}, lo_, hi_)
        b = self.bounds.get(k, (-INF, INF))
        b = (max(b[0], iv[0]), min(b[1], iv[1]))
        self.bounds[k] = b
        if 1 < len(q) <= 8:
            x = next(iter(q))[0]
            if all(m[0] == x and m[-1] == x for m in q):
                self.contract(x, q, b)
            elif all(len(m) == 1 for m in q) and self.rdepth < 3:
                self.spread(q, b)
        if b[0] > b[1]:
            self.infeasible = True

    def spread(self, q, b):
        """b bounds a linear polynomial: bounds for an atom that dominates it"""
        for m, c in q.items():
            a = self.atoms[m[0]]
            if a.kind != 'fn' or not (a.lo > -INF and a.hi < INF):
                continue
            rest = {k: v for k, v in q.items() if k != m}
            l, h = 0.0, 0.0
            for k, v in rest.items():
                y = self.atoms[k[0]]
                l, h = iadd((l, h), imul((fdn(v), fup(v)), (y.lo, y.hi)))
            w = abs(float(c)) * (a.hi - a.lo)
            if not h - l < 0.01 * w:
                continue
            v = imul((fdn(1 / c), fup(1 / c)), (dn(b[0] - h), up(b[1] - l)))
            if v[0] > a.lo + 0.01 * (a.hi - a.lo) or v[1] < a.hi - 0.01 * (a.hi - a.lo):
                self.rdepth += 1
                self.record({m: Fraction(1)}, *v)
                self.rdepth -= 1

    def contract(self, x, q, b):
        """b bounds the univariate polynomial q(x): cut away ends of x's interval where q is outside b"""
        a = self.atoms[x]
        if not (a.lo > -1e30 and a.hi < 1e30) or a.lo >= a.hi:
            return
        co = [(len(m), float(c)) for m, c in q.items()]

        def outside(l, h):
            m, r = 0.5 * (l + h), 0.5 * (h - l) * (1 + 1e-12)
            v = sl = 0.0
            d = [0.0, 0.0]
            for n, c in co:
                t = c * m ** n
                v += t
                sl += abs(t)
                e = ipow((l, h), n - 1) if n > 1 else (1.0, 1.0)
                d = iadd(d, imul((c * n, c * n), e))
            rad = max(abs(d[0]), abs(d[1])) * r * (1 + 1e-9) + 1e-13 * sl
            return v - rad > b[1] or v + rad < b[0]
        lo, hi = a.lo, a.hi
        for side in (0, 1):
            w, n = hi - lo, 0
            while n < 90 and w > 1e-13 * max(abs(lo), abs(hi)) and hi > lo:
                n += 1
                w = min(w, hi - lo)
                l, h = (lo, lo + w) if side == 0 else (hi - w, hi)
                if outside(l, h):
                    if w >= hi - lo:
                        self.infeasible = True
                        return
                    if side == 0:
                        lo = h
                    else:
                        hi = l
                else:
                    w *= 0.5
        if lo > a.lo or hi < a.hi:
            self.record({(x,): Fraction(1)}, lo, hi)

    def back(self, a):
        """a bound on f(arg) for monotone f bounds arg"""
        name, extra = a.data[0], a.data[1]
        if name == 'pow' and extra[0] > 0:
            c = float(extra[0])
            lo = max(a.lo, 0.0) ** (1 / c) * (1 - 1e-12)
            hi = max(a.hi, 0.0) ** (1 / c) * (1 + 1e-12) if a.hi < 1e100 else INF
            al, ah = self.pint(a.data[2])
            if lo > al * (1 + 1e-11) or hi < ah * (1 - 1e-11):
                self.record(a.data[2], lo, hi)
        elif name == 'expb' and extra[0] > 1 and a.lo > 0 and a.hi < 1e300:
            b = math.log(extra[0])
            lo, hi = [math.log(x) / b for x in (a.lo, a.hi)]
            lo, hi = lo - abs(lo) * 1e-12 - 1e-14, hi + abs(hi) * 1e-12 + 1e-14
            al, ah = self.pint(a.data[2])
            if lo > al + 1e-11 * abs(al) or hi < ah - 1e-11 * abs(ah):
                self.record(a.data[2], lo, hi)
        elif name in ('log10', 'log') and a.lo > -300 and a.hi < 300:
            b = 10.0 if name == 'log10' else math.e
            lo, hi = b ** a.lo * (1 - 1e-12), b ** a.hi * (1 + 1e-12)
            al, ah = self.pint(a.data[2])
            if lo > al * (1 + 1e-11) or hi < ah * (1 - 1e-11):
                self.record(a.data[2], lo, hi)

    # ---------------------------------------------------------------- representation of terms
    def rep(self, t):
        m = self.memo
        r = m.get(t.id)
        if r is not None:
            return r
        st = [t]
        while st:
            x = st[-1]
            if x.id in m:
                st.pop()
                continue
            if x.op == 'ite':
                c = self.decide(x.args[0])
                if c is None:
                    raise Split(x.args[0])
                s = x.args[1] if c else x.args[2]
                if s.id in m:
                    m[x.id] = m[s.id]
                    st.pop()
                else:
                    st.append(s)
                continue
            todo = [a for a in x.args if a.id not in m and a.sort != 'i1']
            if todo:
                st.extend(todo)
                continue
            m[x.id] = self.step(x)
            st.pop()
        return m[t.id]

    def free(self, t):
        a = self.atom('free', t.id, -INF, INF)
        return (self.apoly(a), INF, -INF, INF)

    def fin(self, P, E, lo, hi, sort):
        """add the final rounding of one operation"""
        if len(P) == 0:
            lo = hi = 0.0
        u = UNIT[sort]
        if E == INF:
            return (P, INF, lo, hi)
        if u:
            mag = max(abs(lo), abs(hi)) + E
            if not mag < FMAX[sort]:
                return (P, INF, lo, hi)
            if mag > 0:
                e = up(u * mag + TINY[sort])
                if self.affine and self.cur is not None:
                    # the rounding error as an unknown of its own, so that it can cancel
                    self.ncur += 1
                    a = self.atom('err', e, -e, e, key=(self.cur, self.ncur))
                    return (padd(P, self.apoly(a)), E, dn(lo - e), up(hi + e))
                E = up(E + e)
        return (P, E, lo, hi)

    def step(self, t):
        op, so = t.op, t.sort
        self.cur, self.ncur = t.id, 0
        f = getattr(self, 'op_' + op, None)
        if f is None:
            return self.free(t)
        try:
            return f(t)
        except Unknown:
            return self.free(t)

    def op_var(self, t):
        b = self.boxes.get(t.imm)
        if b is None:
            raise Unknown()
        if t.sort == 'f32':
            self.loose = True
        a = self.atom('in', t, float(b[0]), float(b[1]), key=t.imm)
        return (self.apoly(a), 0.0, a.lo, a.hi)

    def op_const(self, t):
        if t.sort in FL:
            v = const_float(t.sort, t.imm)
            if not math.isfinite(v):
                raise Unknown()
            return (pconst(Fraction(v)), 0.0, v, v)
        return (pconst(t.imm), 0.0, float(t.imm), float(t.imm))

    def op_rconst(self, t):
        return (pconst(t.imm), 0.0, fdn(t.imm), fup(t.imm))

    def op_real(self, t):
        return self.memo[t.args[0].id]

    def a(self, t, i):
        return self.memo[t.args[i].id]

    def tight(self, P, lo, hi):
        if len(P) <= 60:
            l, h = self.pint(P)
            return max(lo, l), min(hi, h)
        return lo, hi

    def op_fadd(self, t, s=1):
        (P, E, l, h), (Q, F, l2, h2) = self.a(t, 0), self.a(t, 1)
        if s == -1 and t.args[0] is t.args[1] and E < INF:
            return ({}, 0.0, 0.0, 0.0)
        if s == 1:
            lo, hi = iadd((l, h), (l2, h2))
        else:
            lo, hi = iadd((l, h), (-h2, -l2))
        S = padd(P, Q, s)
        if 'inv' in self.fnlist and len(S) <= 200:
            S = self.reduce(S)
            if len(S) > 1 and self.maybe_zero(S):
                try:
                    c = self.clear(S)
                except Unknown:
                    c = None
                if c is not None and not c[0]:
                    S = {}
        if len(S) < len(P) + len(Q) or self.bounds:
            lo, hi = self.tight(S, lo, hi)
        # adding an exact zero rounds nothing
        if (not P and E == 0) or (not Q and F == 0):
            return (S, E + F, lo, hi)
        # exact difference of identical exact values etc.
        if E == 0 and F == 0 and is_const(S) and t.sort != 'R':
            c = cval(S)
            if c == 0:
                return (S, 0.0, 0.0, 0.0)
        return self.fin(S, up(E + F), lo, hi, t.sort)

    def op_fsub(self, t):
        return self.op_fadd(t, -1)

    def op_fneg(self, t):
        P, E, l, h = self.a(t, 0)
        return (pscale(P, Fraction(-1)), E, -h, -l)

    def mulrep(self, A, B, sort, fin=True):
        if self.opaque:
            A, B = self.opq(A), self.opq(B)
        P, E, l, h = A
        Q, F, l2, h2 = B
        lo, hi = imul((l, h), (l2, h2))
        S = self.pmul(P, Q)
        if 'inv' in self.fnlist and len(S) <= 200:
            S = self.reduce(S)
        pe = 0.0
        if self.haspow and len(S) <= 200:
            S, pe = self.powred(S)
        if lo < -1e300 or hi > 1e300 or P is Q or (len(S) < len(P) * len(Q)):
            lo, hi = self.tight(S, lo, hi)
        if P is Q or P == Q:
            lo = max(lo, 0.0) if E == F else lo
        e = 0.0
        if E or F:
            if E == INF or F == INF:
                e = INF
            else:
                e = up(m_(max(abs(l), abs(h)), F) + m_(max(abs(l2), abs(h2)), E) + E * F)
                e = up(e * (1 + 1e-15))
        if pe:
            e = up(e + pe)
        # multiplication by an exact power of two rounds nothing (away from subnormals)
        if fin and sort != 'R':
            for p, err in ((P, E), (Q, F)):
                if is_const(p) and err == 0:
                    c = cval(p)
                    if c == 0:
                        # the other factor has to be finite
                        return ({}, INF if e == INF else 0.0, 0.0, 0.0)
                    if abs(c.numerator) == 1 and c.denominator & (c.denominator - 1) == 0 or (c.denominator == 1 and abs(c.numerator) & (abs(c.numerator) - 1) == 0):
                        return (S, e, lo, hi) if e else (S, up(TINY[sort]) if abs(c) < 1 else 0.0, lo, hi)
        return self.fin(S, e, lo, hi, sort) if fin else (S, e, lo, hi)

    def op_fmul(self, t):
        b, n = self.powchain(t)
        if n >= 3 and b.id in self.memo and b.op != 'const':
            return self.ipowrep(self.memo[b.id], n, t.sort)
        return self.mulrep(self.a(t, 0), self.a(t, 1), t.sort)

    @staticmethod
    def powchain(t):
        """x*x*...*x, however grouped or mixed with integer powers, as (x, n)"""
        todo, b, n = [(t, 1)], None, 0
        while todo:
            x, k = todo.pop()
            if x.op == 'fmul' and k * n < 32:
                todo += [(x.args[0], k), (x.args[1], k)]
                continue
            if x.op == 'powi' and 0 < x.imm < 32:
                x, k = x.args[0], k * x.imm
                if x.op in ('fmul', 'powi'):
                    return t, 1
            if b is not None and x is not b or len(todo) > 8:
                return t, 1
            b, n = x, n + k
        return b, n

    def op_fma(self, t):
        S, e, lo, hi = self.mulrep(self.a(t, 0), self.a(t, 1), t.sort, fin=False)
        Q, F, l2, h2 = self.a(t, 2)
        lo, hi = iadd((lo, hi), (l2, h2))
        return self.fin(padd(S, Q), up(e + F), lo, hi, t.sort)

    def nz(self, P, lo, hi):
        """certified m > 0 with |P| >= m, or None"""
        l, h = self.pint(P)
        lo, hi = max(lo, l), min(hi, h)
        if lo > 0:
            return lo, lo, hi
        if hi < 0:
            return -hi, lo, hi
        k = pkey(P)
        if k in self.labs:
            return self.labs[k]
        if getattr(self, '_inq', False):
            return None
        r = None
        if imag((lo, hi)) > 0:
            self._inq = True
            try:
                r = self.query_lower(P, lo, hi)
            finally:
                self._inq = False
        self.labs[k] = r
        return r

    def query_lower(self, P, lo, hi):
        """ask the solver for a lower bound of |P| under the current assumptions"""
        base = self.base_forms()
        z = self.zpoly(P)
        for nra in (False, True):
            for c in (Fraction(9, 10), Fraction(1, 2), Fraction(1, 9), Fraction(1, 64), Fraction(1, 4096), Fraction(1, 10 ** 6)):
                if nra and c.denominator not in (64, 10 ** 6):
                    continue
                tmo = 1500 if nra else 1000
                for s in (1, -1):
                    if (s > 0 and hi < c) or (s < 0 and -lo < c):
                        continue
                    if self.check(base + [s * z < z3.RealVal(c)], timeout=tmo, nra=nra) == z3.unsat:
                        return (fdn(c), fdn(c), hi) if s > 0 else (fdn(c), lo, -fdn(c))
                if imag((lo, hi)) < c:
                    continue
                if self.check(base + [z < z3.RealVal(c), z > z3.RealVal(-c)], timeout=tmo, nra=nra) == z3.unsat:
                    return (fdn(c), lo, hi)
        return None

    def invrep(self, B):
        """(P, E, lo, hi) of 1/B for exact-real division, with the error due to B's own error"""
        Q, F, l2, h2 = B
        if is_const(Q):
            c = cval(Q)
            if c == 0:
                raise Unknown()
            m = abs(float(c))
            e = 0.0
            if F:
                if F >= m:
                    raise Unknown()
                e = up(F / (m * (m - F)) * (1 + 1e-12))
            return (pconst(1 / c), e, fdn(1 / c), fup(1 / c))
        if self.opaque:
            Q, F, l2, h2 = self.opq(B)
        r = self.nz(Q, l2, h2)
        if r is None:
            raise Unknown()
        m, l2, h2 = r
        if F >= m * 0.5:
            raise Unknown()
        e = up(F / (m * (m - F)) * (1 + 1e-12)) if F else 0.0
        if l2 > 0:
            lo, hi = dn(1 / h2) if h2 < INF else 0.0, up(1 / l2)
        elif h2 < 0:
            lo, hi = dn(1 / h2), up(1 / l2) if l2 > -INF else 0.0
        else:
            lo, hi = -up(1 / m), up(1 / m)
        c0 = cval(Q)
        if len(Q) == 1:
            mono, c = next(iter(Q.items()))
            P = pconst(1 / c)
            for x in mono:
                P = self.pmul(P, self.inv_atom(x))
            return (P, e, lo, hi)
        if any(self.atoms[x].kind == 'inv' for mm in Q for x in mm) and len(Q) <= 40:
            P = self.inv_cleared(Q, m, 1 if l2 > 0 else -1 if h2 < 0 else 0)
            if P is not None:
                P, e2 = P
                if e2:
                    lo, hi = dn(lo - e2), up(hi + e2)
                return (P, up(e + e2) if e2 else e, lo, hi)
        lead = Q[min(k for k in Q if k != ())]
        Qc = pscale(Q, 1 / lead)
        # near-congruence with an existing reciprocal
        key = pkey(Qc)
        a = self.byk.get(('inv', key))
        if a is not None:
            li, hi_ = imul((lo, hi), (fdn(lead), fup(lead)))
            a.lo, a.hi = max(a.lo, li), min(a.hi, hi_)
        if a is None:
            for b in self.fnlist.get('inv', ()):
                d = self.pint(padd(b.data, Qc, -1))
                dm = imag(d)
                ml = m / abs(float(lead))
                if dm < 1e-6 * ml:
                    e2 = dm / (ml * (ml - dm)) / abs(float(lead))
                    return (pscale(self.apoly(b), 1 / lead), up(e + e2 * 1.001), dn(lo - e2), up(hi + e2))
            li, hi_ = imul((lo, hi), (fdn(lead), fup(lead)))
            a = self.atom('inv', Qc, li, hi_, key=key)
            self.fnlist.setdefault('inv', []).append(a)
        return (pscale(self.apoly(a), 1 / lead), e, lo, hi)

    def inv_cleared(self, Q, m, sq):
        """1/Q with Q = N/D over reciprocal-free polynomials: D * inv(N)"""
        try:
            c = self.clear(Q)
        except Unknown:
            return None
        if c is None:
            return None
        N, D, s, mag = c
        if not N or len(N) > 60 or len(D) > 60:
            return None
        # monomial content of N
        common = None
        for mono in N:
            cnt = {}
            for x in mono:
                cnt[x] = cnt.get(x, 0) + 1
            common = cnt if common is None else {x: min(k, cnt[x]) for x, k in common.items() if x in cnt}
        P = D
        if common:
            N2 = {}
            for mono, k in N.items():
                l = list(mono)
                for x, r in common.items():
                    for _ in range(r):
                        l.remove(x)
                N2[tuple(l)] = k
            N = N2
            for x, r in common.items():
                for _ in range(r):
                    P = self.pmul(P, self.inv_atom(x))
            # |N| >= m*mag / |content|
            w = 1.0
            for x, r in common.items():
                w *= max(abs(self.atoms[x].lo), abs(self.atoms[x].hi)) ** r
            if not w < INF:
                return None
            low = m * mag / w * (1 - 1e-9)
        else:
            low = m * mag * (1 - 1e-12)
        if is_const(N):
            return pscale(P, 1 / cval(N)), 0.0
        if len(N) == 1:
            return None
        l, h = self.pint(N)
        sn = sq * s
        for x, r in (common or {}).items():
            a = self.atoms[x]
            sn *= (1 if a.lo > 0 else -1 if a.hi < 0 else 0) ** r
        if sn > 0:
            l = max(l, low)
            self.record(N, low, INF)
        elif sn < 0:
            h = min(h, -low)
            self.record(N, -INF, -low)
        if l <= 0 <= h:
            # the sign is that of Q times that of D times that of the content; ask the solver once
            r = self.nz(N, l, h)
            if r is not None:
                l, h = r[1], r[2]
        if l <= 0 <= h:
            iv = (-up(1 / low), up(1 / low))
        else:
            if l > 0:
                l = max(l, low)
            else:
                h = min(h, -low)
            iv = (dn(1 / h), up(1 / l))
        lead = N[min(k for k in N if k != ())]
        Nc = pscale(N, 1 / lead)
        key = pkey(Nc)
        a = self.byk.get(('inv', key))
        if a is None:
            lowc = low / abs(float(lead)) * (1 - 1e-12)
            for b in self.fnlist.get('inv', ()):
                dm = imag(self.pint(padd(b.data, Nc, -1)))
                if dm < 1e-6 * lowc:
                    w = imag(self.pint(P))
                    if w < INF:
                        e2 = dm / (lowc * (lowc - dm)) / abs(float(lead)) * w * 1.001
                        return self.pmul(P, pscale(self.apoly(b), 1 / lead)), up(e2)
            li, hi_ = imul(iv, (fdn(lead), fup(lead)))
            a = self.atom('inv', Nc, li, hi_, key=key)
            self.fnlist.setdefault('inv', []).append(a)
        return self.pmul(P, pscale(self.apoly(a), 1 / lead)), 0.0

    def inv_atom(self, x):
        ax = self.atoms[x]
        if ax.lo > 0:
            lo, hi = dn(1 / ax.hi), up(1 / ax.lo)
        elif ax.hi < 0:
            lo, hi = dn(1 / ax.hi), up(1 / ax.lo)
        else:
            lo, hi = -INF, INF
        if ax.inv is not None:
            b = self.atoms[ax.inv]
            b.lo, b.hi = max(b.lo, lo), min(b.hi, hi)
            return self.apoly(b)
        a = self.atom('inv', {(x,): Fraction(1)}, lo, hi, key=('a', x))
        a.inv = x
        ax.inv = a.id
        return self.apoly(a)

    def op_fdiv(self, t):
        A, B = self.a(t, 0), self.a(t, 1)
        P, E, l, h = A
        Q, F, l2, h2 = B
        if E == INF or F == INF:
            raise Unknown()
        if not P and E == 0 and self.nz(Q, l2, h2):
            return ({}, 0.0, 0.0, 0.0)
        # constant quotient
        if not is_const(Q) and P:
            k0 = min(Q)
            if k0 in P:
                k = P[k0] / Q[k0]
                if P == pscale(Q, k) and (r := self.nz(Q, l2, h2)) and F < r[0] / 2:
                    mval = abs(float(k))
                    e = (E + mval * F) / (r[0] - F) if (E or F) else 0.0
                    if E == F and P == Q and t.args[0] is t.args[1]:
                        e = 0.0
                    S = pconst(k)
                    if e == 0 and k in (1, -1):
                        return (S, 0.0, fdn(k), fup(k))
                    return self.fin(S, up(e * 1.0001), fdn(k), fup(k), t.sort)
        try:
            iv = self.invrep(B)
        except Unknown:
            if t.sort == 'R' or not self.abs_le(t.args[0], t.args[1]):
                raise
            # |a| <= |b| was tested, and b is not zero: the quotient is within -1..1, whatever else
            q = self.atom('quo', t.id, -1.0, 1.0)
            return (self.apoly(q), 0.0, -1.0, 1.0)
        r = self.mulrep(A, iv, t.sort, fin=False)
        S, e, lo, hi = r
        # division by an exact power of two is exact
        if is_const(Q) and F == 0 and t.sort != 'R':
            c = abs(cval(Q))
            if (c.numerator & (c.numerator - 1)) == 0 and (c.denominator & (c.denominator - 1)) == 0:
                return (S, e if e else TINY[t.sort], lo, hi)
        r = self.fin(S, e, lo, hi, t.sort)
        return self.hubbed(t, r) if self.opaque else r

    def strip(self, t):
        """a float term with the selects on decided conditions resolved"""
        while t.op == 'ite':
            d = self.case.get(t.args[0].id)
            if d is None:
                d = self.case.get(norm(t.args[0]).id)
            if d is None:
                return t
            t = t.args[1] if d else t.args[2]
        if t.op == 'fabs':
            x = self.strip(t.args[0])
            while x.op in ('fabs', 'fneg'):
                x = self.strip(x.args[0])
            return Term('fabs', t.sort, None, (x,))
        return t

    def abs_le(self, a, b):
        """whether the path has established |a| <= |b| and b != 0 by comparing them"""
        a, b = [self.strip(Term('fabs', x.sort, None, (x,))) for x in (a, b)]
        up_, strict, nonzero = {}, set(), set()
        for t, pol in self.cmps:
            x, y = [self.strip(z) for z in t.args]
            if t.op == 'feq':
                if not pol:
                    for u, w in ((x, y), (y, x)):
                        if u.op == 'const' and const_float(u.sort, u.imm) == 0:
                            nonzero.add(w.id if w.op == 'fabs' else Term('fabs', w.sort, None, (w,)).id)
                continue
            lo, hi = (x, y) if pol else (y, x)
            if lo.op != 'fabs' or hi.op != 'fabs':
                continue
            up_.setdefault(lo.id, {})[hi.id] = hi
            if t.op == ('flt' if pol else 'fle'):
                strict.add(hi.id)
        if b.id not in nonzero and b.id not in strict:
            return False
        seen, todo = {a.id}, [a.id]
        while todo:
            for k, z in up_.get(todo.pop(), {}).items():
                if k == b.id:
                    return True
                if k not in seen:
                    seen.add(k)
                    try:
                        # a NaN in between would compare as anything
                        if self.rep(z)[1] < INF:
                            todo.append(k)
                    except Split:
                        pass
        return a.id == b.id

    def op_sqrt(self, t):
        A = self.a(t, 0)
        nn = t.sort == 'R' or A[1] == 0 or self.mnonneg(t.args[0])
        if self.opaque and (t.sort == 'R' or nn and A[1]):
            # the real value may be below the machine's by A[1], but never below zero (see mpsd)
            b = self.mpsd(t.args[0], True)
            if b is not None:
                A = (A[0], A[1], max(A[2], b), A[3])
        if not nn:
            l, _ = self.tight(A[0], A[2], A[3])
            if l - A[1] < 0:
                # the machine argument might be negative: NaN
                raise Unknown()
        r = self.sqrtrep(A, t.sort)
        return self.hubbed(t, r) if self.opaque else r

    def mnonneg(self, t, depth=12):
        """is the machine value of t never negative, by the form of t?"""
        op, a = t.op, t.args
        if depth == 0:
            return False
        if op == 'const':
            return t.sort in FL and const_float(t.sort, t.imm) >= 0
        if op in ('sqrt', 'fabs', 'hypot', 'exp', 'uitofp'):
            return True
        if op == 'powi':
            return t.imm % 2 == 0 or self.mnonneg(a[0], depth - 1)
        r = self.memo.get(t.id)
        if r is not None and r[1] < INF and r[2] - r[1] >= 0:
            return True
        if op == 'fmul' and a[0] is a[1]:
            return True
        if op == 'fma':
            return (a[0] is a[1] or all(self.mnonneg(x, depth - 1) for x in a[:2])) and self.mnonneg(a[2], depth - 1)
        if op in ('fpext', 'fptrunc'):
            return self.mnonneg(a[0], depth - 1)
        if op == 'ite':
            c = self.decide(a[0])
            return (c is False or self.mnonneg(a[1], depth - 1)) and (c is True or self.mnonneg(a[2], depth - 1))
        if op in ('fadd', 'fmul', 'fdiv') and all(self.mnonneg(x, depth - 1) for x in a):
            return True
        return op == 'fadd' and self.mpsd(t)

    def mpsd(self, t, low=False):
        """... + u*u + v*v + r*u*v with |r| < 1.9 (rounding is monotone, so the sum of the rounded squares
        outweighs the rounded product)"""
        parts, st = [], [t]
        while st:
            x = st.pop()
            if x.op == 'fadd':
                st.extend(x.args)
            elif x.op == 'fsub':
                st.append(x.args[0])
                parts.append(x.args[1])
            else:
                parts.append(x)
        sq = {}
        for x in parts:
            if x.op == 'fmul' and x.args[0] is x.args[1] or x.op == 'powi' and x.imm == 2:
                sq[x.args[0].id] = x
        cross = [x for x in parts if x.id not in {y.id for y in sq.values()} and not self.mnonneg(x, 4)]
        no = None if low else False
        if len(cross) != 1:
            return no
        fac, st = [], [cross[0]]
        while st:
            x = st.pop()
            if x.id in sq:
                fac.append(x)
            elif x.op == 'fneg':
                st.append(x.args[0])
            elif x.op == 'fmul':
                st.extend(x.args)
            else:
                fac.append(x)
        uv = [x for x in fac if x.id in sq]
        if len(uv) != 2 or uv[0] is uv[1]:
            return no
        w = 1.0
        for x in fac:
            if x.id not in sq:
                r = self.rep(x)
                w *= max(abs(r[2]), abs(r[3])) + r[1]
        if not low:
            return w < 1.9
        if w >= 1.9:
            return None
        # the real value is at least the sum of the other terms
        b = 0.0
        ids = {sq[x.id].id for x in uv}
        for x in parts:
            if x is not cross[0] and x.id not in ids:
                r = self.rep(x)
                b += max(r[2], 0.0) if x.id in {y.id for y in sq.values()} else r[2]
        return dn(b)

    def opq(self, A):
        """the same quantity with its polynomial reduced to one (named) monomial"""
        P, E, l, h = A
        if len(P) <= 1:
            return A
        if all(len(m) <= 1 for m in P):
            # a sum of sums is a sum: one name, however it was put together
            while True:
                D = next((m for m in P if m and self.atoms[m[0]].kind == 'def' and all(len(x) <= 1 for x in self.atoms[m[0]].data)), None)
                if D is None:
                    break
                c = P[D]
                P = padd({m: v for m, v in P.items() if m != D}, pscale(self.atoms[D[0]].data, c))
            if len(P) <= 1:
                return (P, E, l, h)
        lead = P[min(k for k in P if k != ())]
        q = pscale(P, 1 / lead)
        k = pkey(q)
        a = self.byk.get(('def', k))
        e = 0.0
        lst = self.fnlist.setdefault('def', [])
        if a is None:
            for b in lst:
                if b.data.keys() == q.keys():
                    dm = imag(self.pint(padd(b.data, q, -1)))
                    if dm <= 1e-9 * max(abs(b.lo), abs(b.hi)):
                        a, e = b, up(dm * fup(abs(lead)))
                        break
        if a is None:
            lo, hi = self.pint(q)
            l2, h2 = imul((l, h), (fdn(1 / lead), fup(1 / lead)))
            lo, hi = max(lo, dn(l2)), min(hi, up(h2))
            a = self.atom('def', q, lo, hi, key=k)
            lst.append(a)
        return (pscale(self.apoly(a), lead), up(E + e) if e else E, l, h)

    HUBS = {}

    def hubbed(self, t, r):
        """a second enclosure and error bound for t as a function of one of its subterms"""
        P, E, lo, hi = r
        fr = {x.id: x for x in t.args if x.op not in ('const', 'rconst')}
        nodes = [t]
        for _ in range(40):
            if not fr:
                break
            if len(fr) == 1:
                (c,) = fr.values()
                R_ = self.memo.get(c.id)
                if R_ is not None and R_[1] < INF and R_[3] < INF and R_[2] > -INF:
                    l, h = self.tight(R_[0], R_[2], R_[3])
                    k = (t.id, c.id, l, h, R_[1])
                    v = self.HUBS.get(k)
                    if v is None:
                        try:
                            v = self.HUBS[k] = self.hubeval(nodes, c, l, h, R_[1])
                        except (Unknown, OverflowError, ZeroDivisionError):
                            v = self.HUBS[k] = False
                    if v:
                        E, lo, hi = min(E, v[0]), max(lo, v[1]), min(hi, v[2])
            x = fr.pop(max(fr))
            if x.op not in ('fadd', 'fsub', 'fmul', 'fdiv', 'powi', 'fneg', 'sqrt', 'real'):
                break
            nodes.append(x)
            for y in x.args:
                if y.op not in ('const', 'rconst'):
                    fr[y.id] = y
        return (P, E, lo, hi)

    def hubeval(self, nodes, c, l, h, E, n=160):
        nodes = sorted(nodes, key=lambda x: x.id)
        a, b = dn(l - E), up(h + E)
        if not a < b:
            raise Unknown()
        if a > 0:
            q = (b / a) ** (1.0 / n)
            cuts = [a * q ** i for i in range(n)] + [b]
        else:
            cuts = [a + (b - a) * i / n for i in range(n)] + [b]
        el = dl = 0.0
        vlo, vhi = INF, -INF
        for x0, x1 in zip(cuts, cuts[1:]):
            if x0 > x1:
                x0, x1 = x1, x0
            m = {c.id: (x0, x1, 1.0, 1.0, 0.0)}

            def g(x):
                if x.op == 'const':
                    v = const_float(x.sort, x.imm)
                    return (v, v, 0.0, 0.0, 0.0)
                if x.op == 'rconst':
                    return (fdn(x.imm), fup(x.imm), 0.0, 0.0, 0.0)
                return m[x.id]
            for x in nodes:
                A = g(x.args[0])
                u = UNIT[x.sort]
                tiny = TINY[x.sort] if u else 0.0
                op = x.op
                if op == 'real':
                    m[x.id] = A
                    continue
                if op == 'fneg':
                    m[x.id] = (-A[1], -A[0], -A[3], -A[2], A[4])
                    continue
                if op == 'powi':
                    k = x.imm
                    if not 1 <= k <= 64:
                        raise Unknown()
                    v = ipow(A[:2], k)
                    d = imul(imul(ipow(A[:2], k - 1) if k > 1 else (1.0, 1.0), A[2:4]), (k, k))
                    mg = imag(A[:2]) + A[4]
                    e = k * mg ** (k - 1) * A[4] + 2 * k * u * mg ** k
                elif op == 'sqrt':
                    if A[0] - A[4] <= 0:
                        raise Unknown()
                    s0, s1 = dn(math.sqrt(A[0])), up(math.sqrt(A[1]))
                    v = (s0, s1)
                    d = imul(A[2:4], (0.5 / s1, 0.5 / s0))
                    e = A[4] / (s0 + math.sqrt(A[0] - A[4]))
                    e += u * (s1 + e)
                else:
                    B = g(x.args[1])
                    if op == 'fadd' or op == 'fsub':
                        if op == 'fsub':
                            B = (-B[1], -B[0], -B[3], -B[2], B[4])
                        v = (A[0] + B[0], A[1] + B[1])
                        d = (A[2] + B[2], A[3] + B[3])
                        e = A[4] + B[4]
                    elif op == 'fmul':
                        v = imul(A[:2], B[:2])
                        d = iadd(imul(A[2:4], B[:2]), imul(A[:2], B[2:4]))
                        e = imag(A[:2]) * B[4] + imag(B[:2]) * A[4] + A[4] * B[4]
                    else:
                        lo_ = B[0] if B[0] > 0 else -B[1] if B[1] < 0 else 0.0
                        if lo_ - B[4] <= 0:
                            raise Unknown()
                        iv = (1 / B[1], 1 / B[0])
                        v = imul(A[:2], iv)
                        nn = iadd(imul(A[2:4], B[:2]), imul((-A[1], -A[0]), B[2:4]))
                        d = imul(nn, imul(iv, iv))
                        e = (A[4] + imag(v) * B[4]) / (lo_ - B[4])
                        # x/(x+k), k >= 0, x >= 0: within 0..1
                        y = x.args[1]
                        if A[0] >= 0 and y.op == 'fadd' and x.args[0] in y.args:
                            z = y.args[1] if y.args[0] is x.args[0] else y.args[0]
                            if z.op in ('const', 'rconst') and g(z)[0] >= 0:
                                v = (max(v[0], 0.0), min(v[1], 1.0))
                    e += u * (imag(v) + e)
                e = e * (1 + 1e-12) + tiny
                w = 1e-14
                m[x.id] = (v[0] - abs(v[0]) * w, v[1] + abs(v[1]) * w, d[0] - abs(d[0]) * w, d[1] + abs(d[1]) * w, e)
            r = m[nodes[-1].id]
            vlo, vhi = min(vlo, r[0]), max(vhi, r[1])
            el, dl = max(el, r[4]), max(dl, imag(r[2:4]))
        return (up((el + dl * E) * (1 + 1e-12)), vlo, vhi)

    def sqrtrep(self, A, sort):
        P, E, l, h = A
        if E == INF:
            raise Unknown()
        l, h = self.tight(P, l, h)
        if l < 0:
            r = None
            if l < -1e-9 or True:
                # a sum of squares is known to the solver to be non-negative
                z = self.zpoly(P)
                if self.check(self.base_forms() + [z < 0], timeout=2000) == z3.unsat:
                    l = 0.0
                    self.record(P, 0.0, h)
            if l < 0:
                raise Unknown()
        if is_const(P):
            c = cval(P)
            if c < 0:
                raise Unknown()
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                r = Fraction(n, d)
                e = E / float(r) if r else math.sqrt(E)
                return self.fin(pconst(r), up(e * 1.001) if E else 0.0, fdn(r), fup(r), sort)
        if E >= l and E > 0:
            e = math.sqrt(E + max(0.0, 0.0)) * 1.0001 if l <= E else 0.0
            e = up(math.sqrt(E) * 1.0001)
            # a slightly negative machine argument would give NaN
            if l - E < 0 and not getattr(self, 'sqrt_nonneg', False):
                pass
        else:
            e = up(E / (math.sqrt(l) + math.sqrt(max(l - E, 0.0))) * 1.0001) if E else 0.0
        lo, hi = dn(math.sqrt(l)), up(math.sqrt(h)) if h < INF else INF
        # perfect square of a single monomial
        if len(P) == 1:
            (mono, c), = P.items()
            n, d = math.isqrt(max(c.numerator, 0)), math.isqrt(c.denominator)
            if c > 0 and n * n == c.numerator and d * d == c.denominator and len(mono) % 2 == 0 and all(mono[i] == mono[i + 1] for i in range(0, len(mono), 2)):
                half = mono[::2]
                iv = self.mint(half)
                if iv[0] >= 0 or iv[1] <= 0:
                    k = Fraction(n, d) * (1 if iv[0] >= 0 else -1)
                    return self.fin({half: k}, e, lo, hi, sort)
        a = self.byk.get(('sqrt', pkey(P)))
        if a is not None:
            a.lo, a.hi = max(a.lo, lo), min(a.hi, hi)
        if a is None:
            for b in self.fnlist.get('sqrt', ()):
                dm = imag(self.pint(padd(b.data, P, -1)))
                if dm < 1e-9 * max(l, 1e-6) and b.lo > 0:
                    e2 = dm / b.lo
                    return self.fin(self.apoly(b), up(e + e2 * 1.001), lo, hi, sort)
            a = self.atom('sqrt', P, lo, hi, key=pkey(P))
            self.fnlist.setdefault('sqrt', []).append(a)
            if len(P) <= 12 and not self.opaque:
                self.sqrtred[a.id] = P
        return self.fin(self.apoly(a), e, lo, hi, sort)

    def op_hypot(self, t):
        A, B = self.a(t, 0), self.a(t, 1)
        a2 = self.mulrep(A, A, 'R', fin=False)
        b2 = self.mulrep(B, B, 'R', fin=False)
        P = padd(a2[0], b2[0])
        lo, hi = max(0.0, a2[2]) + max(0.0, b2[2]), a2[3] + b2[3]
        # |hypot(a+e, b+f) - hypot(a,b)| <= e + f
        r = self.sqrtrep((P, 0.0, dn(max(0.0, lo)), up(hi)), 'R')
        S, e, l, h = r
        E = up(A[1] + B[1] + e)
        u = UNIT[t.sort]
        if E == INF:
            raise Unknown()
        return (S, up(E + (u * 4 * (abs(h) + E) + TINY[t.sort] if u else 0)), l, h)

    def op_powi(self, t):
        n = t.imm
        if n >= 1 << 63:
            n -= 1 << 64
        A = self.a(t, 0)
        return self.ipowrep(A, n, t.sort)

    def ipowrep(self, A, n, sort):
        if self.opaque:
            A = self.opq(A)
        P, E, l, h = A
        if E == INF:
            raise Unknown()
        if n < 0:
            iv = self.invrep(A)
            return self.fin(*self.ipowrep(iv, -n, sort), sort)
        if n == 0:
            return (dict(ONE), 0.0, 1.0, 1.0)
        if n == 1:
            return A
        lo, hi = ipow((l, h), n)
        mag = max(abs(l), abs(h)) + E
        e = n * mag ** (n - 1) * E if E else 0.0
        u = UNIT[sort]
        e = up((e + (2 * n * u * mag ** n + TINY[sort] if u else 0)) * (1 + 1e-12))
        if not mag ** n < FMAX[sort]:
            raise Unknown()
        if len(P) == 1 or (len(P) <= 4 and n <= 2):
            S = P
            for _ in range(n - 1):
                S = self.pmul(S, P)
        else:
            Q = self.atomize(P)
            S = Q
            for _ in range(n - 1):
                S = self.pmul(S, Q)
        if self.haspow:
            S, pe = self.powred(S)
            e = up(e + pe)
        return (S, e, lo, hi)

    # ---------------------------------------------------------------- libm
    def fnatom(self, name, P, E, lo_f, hi_f, lip, sort, extra=()):
        """name(P): value interval [lo_f,hi_f], Lipschitz bound lip for the argument"""
        if E == INF or lo_f != lo_f or hi_f != hi_f:
            raise Unknown()
        key = (name, extra, pkey(P))
        a = self.byk.get(('fn', key))
        e = 0.0
        if a is not None:
            a.lo, a.hi = max(a.lo, lo_f), min(a.hi, hi_f)
        if a is None:
            for b in self.fnlist.get((name, extra), ()):
                dm = imag(self.pint(padd(b.data[2], P, -1)))
                if dm <= (1e-3 if self.loose else 1e-6) and lip * dm < (4e-5 if self.loose else 1e-5) * max(1.0, abs(lo_f), abs(hi_f)):
                    a = b
                    e = lip * dm * 1.0001
                    break
        if a is None:
            a = self.atom('fn', (name, extra, P), lo_f, hi_f, key=key)
            self.fnlist.setdefault((name, extra), []).append(a)
        if E:
            e += lip * E * 1.0001
        u = UNIT[sort]
        mag = max(abs(lo_f), abs(hi_f)) + e
        if not mag < FMAX[sort]:
            raise Unknown()
        if u:
            e += LIBM_ULP * u * mag + TINY[sort]
        return (self.apoly(a), up(e), lo_f, hi_f)

    def near_atom(self, P, names):
        """if P is (nearly) a single libm atom of one of `names`: (atom, |P-atom| bound)"""
        for m, c in P.items():
            if len(m) == 1 and abs(c - 1) < Fraction(1, 10 ** 4):
                a = self.atoms[m[0]]
                if a.kind == 'fn' and a.data[0] in names:
                    d = padd(P, self.apoly(a), -1)
                    dm = imag(self.pint(d)) if d else 0.0
                    if dm <= 1e-4 * max(1.0, abs(a.hi), abs(a.lo)):
                        return a, dm
        return None

    def op_pow(self, t):
        A, B = self.a(t, 0), self.a(t, 1)
        P, E, l, h = A
        Q, F, l2, h2 = B
        so = t.sort
        u = UNIT[so]
        if E == INF or F == INF:
            raise Unknown()
        if is_const(P) and E == 0 and cval(P) > 0:
            return self.expb(cval(P), B, so)
        if is_const(Q) and F == 0:
            c = cval(Q)
            if c.denominator == 1 and 1 <= c.numerator <= 4:
                r = self.ipowrep(A, c.numerator, so)
                return (r[0], up(r[1] + u * LIBM_ULP * (max(abs(r[2]), abs(r[3])))), r[2], r[3])
            l, h = self.tight(P, l, h)
            return self.powc(P, E, l, h, c, so)
        # symbolic exponent, exact arguments
        if E == 0 and F == 0:
            l, h = self.tight(P, l, h)
            if l <= 0:
                raise Unknown()
            ex = (math.log(l), math.log(h))
            lo, hi = imul(ex, (l2, h2))
            lo, hi = math.exp(lo) * (1 - 1e-12), math.exp(hi) * (1 + 1e-12)
            key = ('pow2', pkey(P), pkey(Q))
            a = self.atom('fn', ('pow2', (), P, Q), lo, hi, key=key)
            return (self.apoly(a), LIBM_ULP * u * hi, lo, hi)
        raise Unknown()

    def powc(self, P, E, l, h, c, so):
        u = UNIT[so]
        if l - E < 0 and not (l >= 0 and (E == 0)):
            # the machine argument might be slightly negative: NaN
            if l < 0:
                raise Unknown()
            if l - E < 0 and E > 0:
                raise Unknown()
        for nm, ex in [k for k in self.fnlist if type(k) is tuple]:
            if nm == 'pow' and ex and ex[0] != c and abs(ex[0] - c) < Fraction(1, 10 ** 6) and c > 0 and ex[0] > 0:
                # treat a nearly equal exponent as the same function: |x^c - x^c'| <= |c-c'| sup x^c0 |ln x|
                c0 = min(float(c), float(ex[0]))
                hh = h + E
                sup = 1 / (math.e * c0)
                if hh > 1:
                    sup = max(sup, hh ** (max(float(c), float(ex[0]))) * math.log(hh))
                r = self.powc(P, E, l, h, ex[0], so)
                return (r[0], up(r[1] + abs(float(c - ex[0])) * sup * 1.001), r[2], r[3])
        cf = float(c)
        na = self.near_atom(P, ('pow',))
        if na is not None:
            a, dm = na
            c1 = a.data[1][0]
            E2 = E + dm
            # derivative of y^c on y-range
            L = self.powlip(max(a.lo - E2, 0.0), a.hi + E2, cf)
            e0 = L * E2 * 1.0001 if E2 else 0.0
            inner = a.data[2]
            il, ih = self.pint(inner)
            il = max(il, 0.0)
            c2 = c1 * c
            if abs(c2 - 1) < Fraction(1, 10 ** 5):
                k = abs(float(c2 - 1))
                s = max(math.exp(-1) if il < 1 else 0.0, abs(ih * math.log(ih)) if ih > 1 else 0.0)
                e0 += k * s * 1.01
                mag = max(abs(il), abs(ih)) + e0
                if u:
                    e0 += LIBM_ULP * u * mag
                return (inner, up(e0), il, ih)
            lo, hi = self.powint(il, ih, float(c2))
            r = self.fnatom('pow', inner, 0.0, lo, hi, 0.0, so, extra=(c2,))
            return (r[0], up(r[1] + e0), r[2], r[3])
        rt = self.polyroot(P, c)
        if rt is not None:
            # P = Q^n with Q >= 0 and c*n nearly 1
            Q, n = rt
            ql, qh = self.pint(Q)
            k = abs(float(c * n - 1))
            s = max(math.exp(-1) if ql < 1 else 0.0, abs(qh * math.log(qh)) if qh > 1 else 0.0)
            e0 = k * s * 1.01 * max(1, n * cf)
            if E:
                if l - E <= 0:
                    e0 += E ** cf * 1.001
                else:
                    e0 += self.powlip(l - E, h + E, cf) * E * 1.001
            e0 += LIBM_ULP * u * (abs(qh) + e0) if u else 0.0
            return (Q, up(e0), max(ql, 0.0), qh)
        lo, hi = self.powint(max(l, 0.0), h, cf)
        if E:
            if l - E > 0:
                L = self.powlip(l - E, h + E, cf)
            elif 0 < cf <= 1:
                # Hoelder: |(x+e)^c - x^c| <= e^c
                r = self.fnatom('pow', P, 0.0, lo, hi, 0.0, so, extra=(c,))
                return (r[0], up(r[1] + E ** cf * 1.001), r[2], r[3])
            else:
                L = self.powlip(0.0, h + E, cf)
        else:
            L = self.powlip(l, h, cf) if l > 0 or cf >= 1 else 0.0
        return self.fnatom('pow', P, E, lo, hi, L, so, extra=(c,))

    def polyroot(self, P, c):
        if not 0 < c < 1:
            return None
        n = round(1 / c)
        if n < 2 or n > 4 or abs(c * n - 1) > Fraction(1, 10 ** 5) or len(P) != n + 1:
            return None
        top = max(P, key=len)
        if len(top) != n or top[0] != top[-1]:
            return None
        x = top[0]
        if any(m and (m[0] != x or m[-1] != x) for m in P):
            return None

        def ir(v):
            r = round(v ** (1.0 / n))
            for z in (r - 1, r, r + 1):
                if z >= 0 and z ** n == v:
                    return z
            return None
        C = P[top]
        if C.denominator > 10 ** 15 or abs(C.numerator) > 10 ** 15:
            return None
        a, b = ir(abs(C.numerator)), ir(C.denominator)
        if a is None or b is None:
            return None
        k = Fraction(a, b)
        if C < 0:
            if n % 2 == 0:
                return None
            k = -k
        elif n % 2 == 0 and P.get(top[1:], 0) < 0 and self.pint({(x,): k, (): P.get(top[1:], Fraction(0)) / (n * k ** (n - 1))})[0] < 0:
            k = -k
        d = P.get(top[1:], Fraction(0)) / (n * k ** (n - 1))
        Q = {(x,): k}
        if d:
            Q[()] = d
        S = Q
        for _ in range(n - 1):
            S = self.pmul(S, Q)
        if S != P or self.pint(Q)[0] < 0:
            return None
        return Q, n

    def powint(self, l, h, c):
        if l == 0 and c < 0:
            raise Unknown()
        a, b = (l ** c, h ** c)
        lo, hi = min(a, b), max(a, b)
        return (lo * (1 - 1e-14), hi * (1 + 1e-14))

    def powlip(self, l, h, c):
        if l <= 0 and c < 1:
            return INF
        a = abs(c) * max(l, 0.0) ** (c - 1) if l > 0 or c >= 1 else INF
        b = abs(c) * h ** (c - 1)
        return max(a, b) * 1.0001

    def expb(self, base, B, so):
        Q, F, l2, h2 = B
        l2, h2 = self.tight(Q, l2, h2)
        lb = math.log(float(base))
        u = UNIT[so]
        name = {Fraction(10): 'log10', Fraction(2): 'log2'}.get(base)
        lo, hi = sorted((float(base) ** l2, float(base) ** h2))
        lo, hi = lo * (1 - 1e-13), hi * (1 + 1e-13)
        L = abs(lb) * hi * math.exp(abs(lb) * F) * 1.0001
        if name:
            na = self.near_atom(Q, (name,))
            if na is not None:
                a, dm = na
                inner = a.data[2]
                il, ih = self.pint(inner)
                e = L * (F + dm) * 1.0001 * 1.001
                if u:
                    e += LIBM_ULP * u * max(abs(il), abs(ih))
                return (inner, up(e), il, ih)
        return self.fnatom('expb', Q, F, lo, hi, L, so, extra=(base,))

    def op_exp(self, t):
        Q, F, l, h = self.a(t, 0)
        if F == INF:
            raise Unknown()
        l, h = self.tight(Q, l, h)
        hi = math.exp(h) * (1 + 1e-13)
        lo = math.exp(l) * (1 - 1e-13)
        na = self.near_atom(Q, ('log',))
        if na is not None:
            a, dm = na
            inner = a.data[2]
            il, ih = self.pint(inner)
            return (inner, up(hi * 1.01 * (F + dm) + LIBM_ULP * UNIT[t.sort] * max(abs(il), abs(ih))), il, ih)
        return self.fnatom('exp', Q, F, lo, hi, hi * math.exp(F) * 1.0001, t.sort)

    def op_exp2(self, t):
        return self.expb(Fraction(2), self.a(t, 0), t.sort)

    def _log(self, t, name, k, f):
        P, E, l, h = self.a(t, 0)
        if E == INF:
            raise Unknown()
        l, h = self.tight(P, l, h)
        if l - E <= 0:
            raise Unknown()
        lo, hi = f(l), f(h)
        lo, hi = lo - abs(lo) * 1e-14, hi + abs(hi) * 1e-14
        base = {'log10': Fraction(10), 'log2': Fraction(2)}.get(name)
        L = k / (l - E) * 1.0001
        if base is not None:
            na = self.near_atom(P, ('expb',))
            if na is not None and na[0].data[1] == (base,):
                a, dm = na
                inner = a.data[2]
                il, ih = self.pint(inner)
                return (inner, up(L * (E + dm) * 1.001 + LIBM_ULP * UNIT[t.sort] * max(abs(il), abs(ih))), il, ih)
        return self.fnatom(name, P, E, lo, hi, L, t.sort)

    def op_log10(self, t):
        return self._log(t, 'log10', 1 / math.log(10), math.log10)

    def op_log2(self, t):
        return self._log(t, 'log2', 1 / math.log(2), math.log2)

    def op_log(self, t):
        return self._log(t, 'log', 1.0, math.log)

    def op_cbrt(self, t):
        P, E, l, h = self.a(t, 0)
        l, h = self.tight(P, l, h)
        if l < 0:
            raise Unknown()
        return self.powc(P, E, l, h, Fraction(1, 3), t.sort)

    def op_sin(self, t):
        return self._trig(t, 'sin')

    def op_cos(self, t):
        return self._trig(t, 'cos')

    def _trig(self, t, name):
        P, E, l, h = self.a(t, 0)
        if E == INF:
            raise Unknown()
        lo, hi = -1.0, 1.0
        if not P and E == 0:
            # exact in every libm
            return ({}, 0.0, 0.0, 0.0) if name == 'sin' else (dict(ONE), 0.0, 1.0, 1.0)
        if is_const(P):
            v = float(getattr(mp, name)(mp.mpf(cval(P).numerator) / cval(P).denominator))
            lo, hi = v - 1e-15, v + 1e-15
        elif name == 'sin' and -1.57 <= l and h <= 1.57:
            lo, hi = math.sin(l) - 1e-15, math.sin(h) + 1e-15
        if name == 'sin' and 0 <= l and h < 3.14159:
            lo = max(lo, 0.0)
        return self.fnatom(name, P, E, lo, hi, 1.0, t.sort)

    def op_atan2(self, t):
        (Y, EY, yl, yh), (X, EX, xl, xh) = self.a(t, 0), self.a(t, 1)
        if EY == INF or EX == INF:
            raise Unknown()
        yl, yh = self.tight(Y, yl, yh)
        xl, xh = self.tight(X, xl, xh)
        pi = math.pi * 1.000000001
        lo, hi = -pi, pi
        if not Y and EY == 0 and (t.sort == 'R' or t.args[0].op == 'const' and t.args[0].imm == 0):
            # on the axis (+0)
            if xl - EX > 0:
                return ({}, 0.0, 0.0, 0.0)
            if xh + EX < 0:
                return (pconst(PI), up(1e-40 + LIBM_ULP * UNIT[t.sort] * pi), fdn(PI), fup(PI))
        if yl >= 0:
            lo = 0.0
        if yh <= 0:
            hi = 0.0
        if xl > 0:
            lo, hi = max(lo, -pi / 2), min(hi, pi / 2)
        if (yl > 0 or yh < 0 or xl > 0) and max(abs(yl), abs(yh), abs(xl), abs(xh)) < INF:
            # monotone in each argument away from the cut: the extremes are at the corners
            c = [math.atan2(y, x) for y in (yl, yh) for x in (xl, xh)]
            lo, hi = max(lo, min(c) - 1e-14), min(hi, max(c) + 1e-14)
        cut = not (xl - EX > 0 or yl - EY > 0 or yh + EY < 0 or (EY == 0))
        mx = xl if xl > 0 else -xh if xh < 0 else 0.0
        my = yl if yl > 0 else -yh if yh < 0 else 0.0
        r = math.hypot(mx, my)
        for hname, hp, hv in self.hints:
            pass
        if r == 0 and (EX or EY):
            # a certified lower bound on the squared radius
            q = padd(self.pmul(X, X), self.pmul(Y, Y))
            z = self.nz(q, 0.0, INF)
            if z is not None:
                r = math.sqrt(z[0])
        e = EX + EY
        if e:
            if cut or r <= e:
                raise Unknown()
            e = e / (r - e) * 1.0001
        key = ('atan2', pkey(Y), pkey(X))
        a = self.byk.get(('fn', key))
        if a is None:
            for b in self.fnlist.get('atan2', ()):
                d1, d2 = imag(self.pint(padd(b.data[2], Y, -1))), imag(self.pint(padd(b.data[3], X, -1)))
                if d1 == 0 and d2 < 1e-7 and r > 2 * d2:
                    a = b
                    e += d2 / (r - d2)
                    break
        if a is None:
            a = self.atom('fn', ('atan2', (), Y, X), lo, hi, key=key)
            self.fnlist.setdefault('atan2', []).append(a)
        u = UNIT[t.sort]
        return (self.apoly(a), up(e + LIBM_ULP * u * pi), lo, hi)

    # ---------------------------------------------------------------- conditionals and rounding
    def mk(self, op, sort, *args):
        return Term(op, sort, None, args)

    def op_fabs(self, t):
        P, E, l, h = self.a(t, 0)
        l, h = self.tight(P, l, h)
        if l >= 0:
            return (P, E, l, h)
        if h <= 0:
            return (pscale(P, Fraction(-1)), E, -h, -l)
        x = t.args[0]
        z = const(x.sort, 0) if x.sort != 'R' else Term('rconst', R, Fraction(0))
        return self.rep(Term('ite', t.sort, None, (self.mk('flt', 'i1', x, z), Term('fneg', t.sort, None, (x,)), x)))

    def op_fmax(self, t):
        x, y = t.args
        return self.rep(Term('ite', t.sort, None, (self.mk('flt', 'i1', x, y), y, x)))

    def op_fmin(self, t):
        x, y = t.args
        return self.rep(Term('ite', t.sort, None, (self.mk('flt', 'i1', y, x), y, x)))

    def op_fpext(self, t):
        return self.a(t, 0)

    def op_fptrunc(self, t):
        P, E, l, h = self.a(t, 0)
        return self.fin(P, E, l, h, t.sort)

    def _intconv(self, t, lo_t, hi_t, sat):
        """float -> int by truncation"""
        P, E, l, h = self.a(t, 0)
        if E == INF:
            raise Unknown()
        l, h = self.tight(P, l, h)
        x = t.args[0]
        if sat:
            if l - E < lo_t:
                c = Term('flt', 'i1', None, (x, const(x.sort, _fb(x.sort, float(lo_t)))))
                d = self.decide(c)
                if d is None:
                    raise Split(c)
                if d:
                    return (pconst(lo_t), 0.0, float(lo_t), float(lo_t))
                l = max(l, lo_t - E)
            if h + E > hi_t:
                c = Term('flt', 'i1', None, (const(x.sort, _fb(x.sort, float(hi_t))), x))
                d = self.decide(c)
                if d is None:
                    raise Split(c)
                if d:
                    return (pconst(hi_t), 0.0, float(hi_t), float(hi_t))
                h = min(h, hi_t + E)
        elif l - E <= lo_t - 1 or h + E >= hi_t + 1:
            raise Unknown()
        if is_const(P) and E == 0:
            n = int(cval(P))
            return (pconst(n), 0.0, float(n), float(n))
        src = x
        # a value that is already integral (round/floor/trunc) converts exactly
        if src.op in ('round', 'floor', 'ceil', 'trunc', 'roundeven', 'uitofp', 'sitofp') and E == 0:
            return (P, 0.0, l, h)
        if l - E < 0:
            raise Unknown()
        lo, hi = float(math.floor(max(l - E, lo_t))), float(math.floor(h + E))
        if lo == hi:
            return (pconst(int(lo)), 0.0, lo, lo)
        a = self.atom('int', (P, E), lo, hi, key=('trunc', x.id))
        return (self.apoly(a), 0.0, a.lo, a.hi)

    def op_fptoui(self, t):
        w = int(t.sort[1:])
        return self._intconv(t, 0, (1 << w) - 1, False)

    def op_fptosi(self, t):
        w = int(t.sort[1:])
        r = self._intconv(t, -(1 << (w - 1)), (1 << (w - 1)) - 1, False)
        if r[2] < 0:
            raise Unknown()
        return r

    def op_fptoui_sat(self, t):
        w = int(t.sort[1:])
        return self._intconv(t, 0, (1 << w) - 1, True)

    def op_fptosi_sat(self, t):
        w = int(t.sort[1:])
        r = self._intconv(t, -(1 << (w - 1)), (1 << (w - 1)) - 1, True)
        if r[2] < 0:
            raise Unknown()
        return r

    def _rnd(self, t, kind):
        P, E, l, h = self.a(t, 0)
        if E == INF:
            raise Unknown()
        l, h = self.tight(P, l, h)
        off = {'round': 0.5, 'roundeven': 0.5, 'floor': 0.0, 'ceil': 1.0, 'trunc': 0.0}[kind]
        lo, hi = math.floor(l - E) - 0.0, math.ceil(h + E) + 0.0
        if kind == 'trunc' and l - E < 0:
            raise Unknown()
        if kind in ('round', 'roundeven'):
            lo, hi = math.floor(l - E + 0.5), math.ceil(h + E - 0.5) + (1 if (h + E) % 1 == 0.5 else 0)
            if l >= 0:
                lo = max(lo, 0)
        a = self.atom('rnd', (kind, P, E), float(lo), float(hi), key=(kind, t.args[0].id))
        return (self.apoly(a), 0.0, a.lo, a.hi)

    def op_round(self, t):
        return self._rnd(t, 'round')

    def op_roundeven(self, t):
        return self._rnd(t, 'roundeven')

    def op_floor(self, t):
        return self._rnd(t, 'floor')

    def op_ceil(self, t):
        return self._rnd(t, 'ceil')

    def op_trunc(self, t):
        return self._rnd(t, 'trunc')

    def op_uitofp(self, t):
        P, E, l, h = self.a(t, 0)
        if E == INF:
            raise Unknown()
        if h <= 2 ** FL[t.sort][1]:
            return (P, E, l, h)
        return self.fin(P, E, l, h, t.sort)

    def op_sitofp(self, t):
        P, E, l, h = self.a(t, 0)
        w = int(t.args[0].sort[1:])
        if E == INF or h >= 2 ** (w - 1):
            raise Unknown()
        return self.op_uitofp(t)

    # machine integers (unsigned view; only while no operation can wrap)
    def _int(self, t, P, lo, hi):
        w = int(t.sort[1:])
        lo, hi = self.tight(P, lo, hi)
        if lo < 0 or hi >= 2 ** w:
            raise Unknown()
        return (P, 0.0, lo, hi)

    def ia(self, t, i):
        r = self.a(t, i)
        if r[1] == INF:
            raise Unknown()
        return r

    def op_add(self, t):
        A, B = self.ia(t, 0), self.ia(t, 1)
        w = int(t.sort[1:])
        # adding a "negative" constant
        if is_const(B[0]) and cval(B[0]) >= 1 << (w - 1):
            k = (1 << w) - cval(B[0])
            return self._int(t, padd(A[0], pconst(k), -1), A[2] - float(k), A[3] - float(k))
        return self._int(t, padd(A[0], B[0]), A[2] + B[2], A[3] + B[3])

    def op_sub(self, t):
        A, B = self.ia(t, 0), self.ia(t, 1)
        return self._int(t, padd(A[0], B[0], -1), A[2] - B[3], A[3] - B[2])

    def op_mul(self, t):
        A, B = self.ia(t, 0), self.ia(t, 1)
        lo, hi = imul((A[2], A[3]), (B[2], B[3]))
        return self._int(t, self.pmul(A[0], B[0]), lo, hi)

    def op_shl(self, t):
        A, B = self.ia(t, 0), self.ia(t, 1)
        if not is_const(B[0]) or cval(B[0]) >= int(t.sort[1:]):
            raise Unknown()
        k = 1 << int(cval(B[0]))
        return self._int(t, pscale(A[0], Fraction(k)), A[2] * k, A[3] * k)

    def ival(self, x):
        """the value of an integer term; asks for a case split when it can take a few values"""
        P, E, lo, hi = self.rep(x)
        if E == INF:
            raise Unknown()
        lo, hi = self.tight(P, lo, hi)
        lo, hi = math.ceil(lo - 1e-6), math.floor(hi + 1e-6)
        if lo == hi:
            return lo
        if hi - lo > 64 or lo < 0:
            raise Unknown()
        raise Split(Term('bvult', 'i1', None, (x, const(x.sort, (lo + hi + 1) // 2))))

    def bitop(self, t, f):
        v = f(*[self.ival(x) for x in t.args]) % (1 << int(t.sort[1:]))
        return (pconst(v), 0.0, float(v), float(v))

    def op_and(self, t):
        if t.sort == 'i1':
            raise Unknown()
        return self.bitop(t, lambda a, b: a & b)

    def op_or(self, t):
        if t.sort == 'i1':
            raise Unknown()
        return self.bitop(t, lambda a, b: a | b)

    def op_lshr(self, t):
        return self.bitop(t, lambda a, b: a >> b if b < 64 else 0)

    def op_zext(self, t):
        if t.args[0].sort == 'i1':
            c = self.decide(t.args[0])
            if c is None:
                raise Split(t.args[0])
            return (pconst(1 if c else 0), 0.0, float(c), float(c))
        return self.ia(t, 0)

    def op_sext(self, t):
        r = self.ia(t, 0)
        w = int(t.args[0].sort[1:])
        if r[3] >= 2 ** (w - 1):
            raise Unknown()
        return r

    def op_extract(self, t):
        if t.imm != 0 or t.args[0].sort in FL:
            raise Unknown()
        r = self.ia(t, 0)
        w = int(t.sort[1:])
        if r[3] >= 2 ** w:
            raise Unknown()
        return r

    def op_bitcast(self, t):
        x = t.args[0]
        if x.op == 'bitcast' and x.args[0].sort == t.sort:
            return self.rep(x.args[0])
        raise Unknown()

    def srep(self, t):
        """signed value of an integer term, including differences of float bit patterns"""
        w = int(t.sort[1:])
        if t.op == 'const':
            v = t.imm - (1 << w) if t.imm >> (w - 1) else t.imm
            return (pconst(v), 0.0, float(v), float(v))
        try:
            if t.op == 'sub':
                A, B = self.srep(t.args[0]), self.srep(t.args[1])
                if A[1] < INF and B[1] < INF:
                    lo, hi = self.tight(padd(A[0], B[0], -1), A[2] - B[3], A[3] - B[2])
                    e = up(A[1] + B[1])
                    if -2.0 ** (w - 1) < lo - e and hi + e < 2.0 ** (w - 1):
                        return (padd(A[0], B[0], -1), e, lo, hi)
            elif t.op == 'ite':
                d = self.decide(t.args[0])
                if d is None:
                    raise Split(t.args[0])
                return self.srep(t.args[1 if d else 2])
            elif t.op == 'bitcast' and t.args[0].sort in FL:
                r = self.fbits(t.args[0])
                if r is not None:
                    return r
        except Unknown:
            pass
        return self.rep(t)

    def fbits(self, x):
        """bit pattern of a positive float as a number: linear on each binade"""
        P, E, l, h = self.rep(x)
        if E == INF:
            return None
        l, h = self.tight(P, l, h)
        if l - 4 * E <= 0:
            return None
        e = math.frexp(l)[1] - 1
        if h >= 2.0 ** (e + 1):
            c = Term('flt', 'i1', None, (x, const(x.sort, _fb(x.sort, 2.0 ** (e + 1)))))
            d = self.decide(c)
            if d is None:
                raise Split(c)
            if not d:
                # only rounding separates it from the next binade
                e += 1
        m, bias = (52, 1023) if x.sort == 'f64' else (23, 127)
        k = Fraction(2) ** (m - e)
        Q = padd(pscale(P, k), pconst((e + bias - 1) * 2 ** m))
        lo, hi = self.pint(Q)
        # the slope doubles below the binade; stay linear a little beyond either end
        over = max(0.0, 2.0 ** e - (l - E), (h + E) - 2.0 ** (e + 1))
        err = up((E + over) * 2 * float(k) + 1)
        return (Q, err, lo, hi)

    # ---------------------------------------------------------------- booleans
    CMP = {'flt', 'fle', 'feq', 'eq', 'bvult', 'bvule', 'bvugt', 'bvuge', 'bvslt', 'bvsle', 'bvsgt', 'bvsge'}

    def diff(self, t):
        """(D, e, strict-kind) for a comparison term: t  <=>  D (op) 0 up to e"""
        a, b = t.args
        if a.sort == 'i1':
            return None
        if t.op.startswith('bvs') and a.sort != 'i1':
            A, B = self.srep(a), self.srep(b)
        else:
            A, B = self.rep(a), self.rep(b)
        if A[1] == INF or B[1] == INF:
            return None
        op = t.op
        if op in ('bvugt', 'bvuge', 'bvsgt', 'bvsge'):
            A, B = B, A
            op = {'bvugt': 'flt', 'bvuge': 'fle', 'bvsgt': 'flt', 'bvsge': 'fle'}[op]
        elif op in ('bvult', 'bvslt'):
            op = 'flt'
        elif op in ('bvule', 'bvsle'):
            op = 'fle'
        elif op == 'eq':
            op = 'feq'
        if t.op.startswith('bvs'):
            w = int(a.sort[1:])
            if any(x[3] > 2 ** (w - 1) or x[3] == 2.0 ** (w - 1) and not is_const(x[0]) for x in (A, B)):
                return None
        D = self.reduce(padd(A[0], B[0], -1))
        lo, hi = self.pint(D) if len(D) <= 2000 else (-INF, INF)
        lo, hi = max(lo, A[2] - B[3]), min(hi, A[3] - B[2])
        e = up(A[1] + B[1]) if (A[1] or B[1]) else 0.0
        return D, e, op, lo, hi

    def decide(self, c, deep=True):
        """truth value of a condition if already determined, else None"""
        if c.id not in self.case:
            c = norm(c)
        if c.id in self.case:
            return self.case[c.id]
        op = c.op
        if op == 'const':
            return bool(c.imm)
        if op in ('flt', 'fle') and c.args[0].sort in FL:
            # the complement has been decided (neither side is NaN)
            v = self.case.get(Term('fle' if op == 'flt' else 'flt', 'i1', None, c.args[::-1]).id)
            if v is not None and all(self.rep(x)[1] < INF for x in c.args):
                return not v
        if op == 'not':
            v = self.decide(c.args[0])
            return None if v is None else not v
        if op in ('and', 'or') or (op == 'xor' and c.sort == 'i1'):
            x, y = self.decide(c.args[0]), self.decide(c.args[1])
            if op == 'and':
                if x is False or y is False:
                    return False
                return True if x and y else None
            if op == 'or':
                if x or y:
                    return True
                return False if x is False and y is False else None
            return None if x is None or y is None else x != y
        if op == 'ford':
            a, b = self.rep(c.args[0]), self.rep(c.args[1])
            return True if a[1] < INF and b[1] < INF else None
        if op == 'finite':
            a = self.rep(c.args[0])
            return True if a[1] < INF else None
        if op == 'ite' and c.sort == 'i1':
            x = self.decide(c.args[0])
            if x is None:
                return None
            return self.decide(c.args[1] if x else c.args[2])
        if op == 'eq' and c.args[0].sort == 'i1':
            x, y = self.decide(c.args[0]), self.decide(c.args[1])
            return None if x is None or y is None else x == y
        if op == 'extract' and c.sort == 'i1':
            return None
        if op == 'fsame':
            return True if c.args[0] is c.args[1] else None
        if op in self.CMP:
            if op in ('flt', 'fle') and c.args[0].sort in FL:
                r = self.tdecide(c)
                if r is not None:
                    return r
            if c.args[0] is c.args[1] and self.rep(c.args[0])[1] < INF:
                return op in ('feq', 'fle', 'eq', 'bvule', 'bvuge', 'bvsle', 'bvsge')
            d = self.diff(c)
            if d is None:
                return self.cmp_inf(c)
            D, e, k, lo, hi = d
            r = self.dec_iv(k, e, lo, hi)
            if r is None and D and deep and not self.opaque and any(self.atoms[x].kind == 'inv' for m in D for x in m):
                lo, hi = self.cleared(D, lo, hi)
                r = self.dec_iv(k, e, lo, hi)
            return r
        return None

    def cmp_inf(self, c):
        """comparison of a finite value with an infinite constant"""
        if c.op not in ('flt', 'fle', 'feq'):
            return None
        for i in (0, 1):
            k, x = c.args[i], c.args[1 - i]
            if k.op == 'const' and k.sort in FL and math.isinf(const_float(k.sort, k.imm)) and self.rep(x)[1] < INF:
                if c.op == 'feq':
                    return False
                return (const_float(k.sort, k.imm) < 0) == (i == 0)
        return None

    @staticmethod
    def dec_iv(k, e, lo, hi):
        if k == 'flt':
            if hi + e < 0 or (hi == 0 and False):
                return True
            if lo - e >= 0:
                return False
        elif k == 'fle':
            if hi + e <= 0:
                return True
            if lo - e > 0:
                return False
        else:
            if lo - e > 0 or hi + e < 0:
                return False
            if lo == 0 == hi and e == 0:
                return True
        return None

    def clear(self, D):
        """multiply out reciprocals: returns (N, Q, s): D = N / Q with Q a product of the reciprocals'
        arguments of known sign s; None if a sign is unknown or it does not terminate"""
        N = dict(D)
        Q = dict(ONE)
        s = 1
        mag = 1.0
        for _ in range(12):
            cand = sorted({x for m in N for x in m if self.atoms[x].kind == 'inv'})
            if not cand:
                return N, Q, s, mag
            # innermost last: clear the youngest first
            x = cand[-1]
            a = self.atoms[x]
            deg = max(m.count(x) for m in N)
            q = a.data
            lo, hi = self.pint(q)
            ks = self.nz(q, lo, hi)
            if ks is None:
                return None
            _, lo, hi = ks
            sg = 1 if lo > 0 else -1 if hi < 0 else 0
            if sg == 0 and deg % 2:
                deg += 1
            qp = [dict(ONE)]
            for _k in range(deg):
                qp.append(self.pmul(qp[-1], q))
            R_ = {}
            for m, c in N.items():
                k = m.count(x)
                rest = tuple(y for y in m if y != x)
                for mm, cc in self.pmul(qp[deg - k], {rest: c}).items():
                    v = R_.get(mm, 0) + cc
                    if v:
                        R_[mm] = v
                    else:
                        R_.pop(mm, None)
            N = R_
            Q = self.pmul(Q, qp[deg])
            s *= sg ** deg if sg else 1
            mag *= ks[0] ** deg
            if len(N) > 5000:
                return None
        return None

    def cleared(self, D, lo, hi):
        try:
            c = self.clear(D)
        except Unknown:
            c = None
        if c is None:
            return lo, hi
        N, Q, s, mag = c
        if not N:
            return 0.0, 0.0
        if self.bounds is not None:
            l, h = self.pint(N)
            if s < 0:
                l, h = -h, -l
            # N/|Q|, |Q| >= mag
            l = dn(l / mag) if l < 0 else 0.0
            h = up(h / mag) if h > 0 else 0.0
            return max(lo, l), min(hi, h)

    def canon(self, t):
        """(term, sign) naming the same float up to its sign: negations and the order of a difference"""
        s = 1
        while True:
            if t.op == 'fneg':
                s, t = -s, t.args[0]
            elif t.op == 'ite':
                c = self.case.get(t.args[0].id)
                if c is None:
                    return t, s
                t = t.args[1] if c else t.args[2]
            elif t.op == 'fsub':
                a, b = [self.pick(x) for x in t.args]
                if a.id > b.id:
                    a, b, s = b, a, -s
                return Term('fsub', t.sort, None, (a, b)), s
            else:
                return t, s

    def pick(self, t):
        while t.op == 'ite':
            c = self.case.get(t.args[0].id)
            if c is None:
                return t
            t = t.args[1] if c else t.args[2]
        return t

    def tcmp(self, t):
        """a comparison of a term with a constant: (canonical id, constant, term is below, strict)"""
        x, y = t.args
        if (x.op == 'const') == (y.op == 'const') or x.sort not in FL:
            return None
        c, v, below = (y, x, True) if y.op == 'const' else (x, y, False)
        k = const_float(c.sort, c.imm)
        if k != k:
            return None
        v, s = self.canon(v)
        if s < 0:
            k, below = -k, not below
        return v, k, below, t.op == 'flt'

    def texact(self, t, pol):
        """record the comparison as an exact interval of the float; False if it is empty"""
        if t.op not in ('flt', 'fle'):
            return
        r = self.tcmp(t)
        if r is None:
            return
        v, k, below, strict = r
        if not pol:
            try:
                if self.rep(v)[1] == INF:
                    return      # may be NaN
            except Split:
                return
            below, strict = not below, not strict
        lo, ls, hi, hs = self.tb.get(v.id, (-INF, False, INF, False))
        if below:
            if (k, not strict) < (hi, not hs):
                hi, hs = k, strict
        elif (k, strict) > (lo, ls):
            lo, ls = k, strict
        self.tb[v.id] = (lo, ls, hi, hs)
        if lo > hi or lo == hi and (ls or hs):
            self.infeasible = True

    def tdecide(self, t):
        if not self.tb:
            return None
        r = self.tcmp(t)
        if r is None:
            return None
        v, k, below, strict = r
        b = self.tb.get(v.id)
        if b is None:
            return None
        lo, ls, hi, hs = b
        if not below:
            lo, ls, hi, hs, k = -hi, hs, -lo, ls, -k
        # v in <lo, hi>: v < k or v <= k?  (an interval of numbers excludes NaN only if recorded by a true comparison)
        if hi < k or hi == k and (hs or not strict):
            return True
        if lo > k or lo == k and (ls or strict):
            return False
        return None

    def assume(self, t, pol):
        """add a literal: refine bounds and remember it for the solver"""
        if t.op in ('flt', 'fle', 'feq'):
            self.cmps.append((t, pol))
        n = norm(t)
        if n is not t:
            self.case[t.id] = pol
            return self.assume(n, pol)
        if t.op == 'not':
            return self.assume(t.args[0], not pol)
        if t.op == 'and' and pol or t.op == 'or' and not pol:
            for a in t.args:
                self.assume(a, pol)
            return
        if t.op == 'const':
            if bool(t.imm) != pol:
                self.infeasible = True
            return
        v = self.decide(t)
        if v is not None:
            if v != pol:
                self.infeasible = True
            elif t.op in ('or', 'and'):
                pass
            self.case[t.id] = pol
            self.texact(t, pol)
            if t.op in self.CMP:
                self.bound(t, pol)
            return
        # unit propagation through or/and with one side already decided
        if t.op in ('or', 'and'):
            for i in (0, 1):
                x = self.decide(t.args[i])
                if x is not None and x == (t.op == 'and'):
                    return self.assume(t.args[1 - i], pol)
        self.case[t.id] = pol
        self.texact(t, pol)
        self.lits.append((t, pol))
        if t.op in self.CMP:
            self.bound(t, pol)
        self.memo_reset()

    def memo_reset(self):
        # representations computed before a bound was learned stay sound; recompute for precision
        self.memo = {}

    def bound(self, t, pol):
        d = self.diff(t)
        if d is None:
            return
        D, e, k, lo, hi = d
        if not D:
            return
        if len(D) > 400:
            return
        if k in ('flt', 'fle'):
            if pol:
                self.record(D, -INF, e)
            else:
                self.record(D, -e if e else 0.0, INF)
        elif pol:
            self.record(D, -e if e else 0.0, e)

    # ---------------------------------------------------------------- solver
    def zatom(self, a):
        if a.z is None:
            if a.kind in ('int', 'rnd') or (a.kind == 'in' and a.data.sort not in FL and a.data.sort != 'R'):
                i = z3.Int('a%d' % a.id)
                a.z = z3.ToReal(i)
            else:
                a.z = z3.Real('a%d' % a.id)
        return a.z

    def zm(self, m):
        if len(m) == 1:
            return self.zatom(self.atoms[m[0]])
        v = self.zmono.get(m)
        if v is None:
            v = z3.Real('m_' + '_'.join(map(str, m)))
            self.zmono[m] = v
        return v

    def zpoly(self, p):
        ts = []
        for m, c in p.items():
            k = z3.RealVal(c)
            ts.append(k if m == () else (self.zm(m) if c == 1 else k * self.zm(m)))
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def zrel(self, t, pol):
        """a formula implied by (t == pol)"""
        t = norm(t)
        op = t.op
        if op == 'not':
            return self.zrel(t.args[0], not pol)
        if op == 'const':
            return z3.BoolVal(bool(t.imm) == pol)
        v = self.case.get(t.id)
        if op in ('and', 'or'):
            fs = [self.zrel(a, pol) for a in t.args]
            return z3.And(fs) if (op == 'and') == pol else z3.Or(fs)
        if op == 'ite' and t.sort == 'i1':
            c, a, b = t.args
            return z3.Or(z3.And(self.zrel(c, True), self.zrel(a, pol)), z3.And(self.zrel(c, False), self.zrel(b, pol)))
        v = self.decide(t)
        if v is not None and t.id not in self.case:
            return z3.BoolVal(v == pol)
        if op in self.CMP and t.args[0].sort != 'i1':
            d = self.diff(t)
            if d is not None:
                D, e, k, lo, hi = d
                fe = Fraction(e) if e < INF else None
                return self.zcmp(D, k, fe, pol)
        if v is not None:
            return z3.BoolVal(v == pol)
        if op == 'fsame':
            if not pol:
                return z3.BoolVal(True)
        b = self.freeb.get(t.id)
        if b is None:
            b = z3.Bool('b%d' % t.id)
            self.freeb[t.id] = b
        return b if pol else z3.Not(b)

    def zcmp(self, D, k, e, pol):
        def rel(D, kk, off_poly):
            z = self.zpoly(padd(D, off_poly, -1))
            return z < 0 if kk == '<' else z <= 0

        pe = pconst(e)
        if k == 'feq':
            if pol:
                return z3.And(rel(D, '<=', pe), rel(pscale(D, Fraction(-1)), '<=', pe))
            if e == 0:
                return self.zpoly(D) != 0
            return z3.BoolVal(True)
        if pol:
            kk, DD = ('<' if k == 'flt' else '<='), D
        else:
            kk, DD = ('<=' if k == 'flt' else '<'), pscale(D, Fraction(-1))
        f = rel(DD, kk, pe)
        if any(self.atoms[x].kind == 'inv' for m in DD for x in m):
            c = self.clear(DD)
            if c is not None:
                N, Q, s, mag = c
                if s != 0:
                    N = pscale(N, Fraction(s))
                    Q = pscale(Q, Fraction(s))
                    f = z3.And(f, rel(N, kk, pscale(Q, e)))
        return f

    def repropagate(self):
        """second pass over the literals, now that every bound is known"""
        self.memo_reset()
        self.labs = {}
        for t, pol in self.cmps:
            self.texact(t, pol)
        for t, pol in list(self.lits):
            try:
                if t.op in self.CMP:
                    self.bound(t, pol)
                elif (t.op == 'and' and not pol) or (t.op == 'or' and pol):
                    # unit propagation: one side is settled by now
                    for i in (0, 1):
                        x = self.decide(t.args[i])
                        if x is not None and x == (t.op == 'and'):
                            self.assume(t.args[1 - i], pol)
                            break
            except Split:
                pass
        self.memo_reset()

    def zgoal(self, goal):
        """formula implied by the negation of the goal"""
        return self.zneg(goal, False)

    def zneg(self, t, pol):
        # like zrel, but leaves the arithmetic to the solver (no interval shortcut)
        t = norm(t)
        if t.op == 'fle' and self.nonneg_op(t):
            return z3.BoolVal(pol)
        op = t.op
        if op == 'not':
            return self.zneg(t.args[0], not pol)
        if op in ('and', 'or') and t.sort == 'i1':
            fs = [self.zneg(a, pol) for a in t.args]
            return z3.And(fs) if (op == 'and') == pol else z3.Or(fs)
        if op in self.CMP and t.args[0].sort != 'i1' and t.id not in self.case:
            d = self.diff(t)
            if d is not None:
                D, e, k, lo, hi = d
                f = self.zcmp(D, k, Fraction(e), pol)
                if len(D) > 1 and hi < INF and lo > -INF:
                    # interval evaluation of the whole difference, as a fact for the solver
                    z = self.zpoly(D)
                    f = z3.And(f, z <= z3.RealVal(Fraction(hi)), z >= z3.RealVal(Fraction(lo)))
                return f
        return self.zrel(t, pol)

    def nonneg_op(self, t):
        """0 <= sqrt(x), |x|, hypot(x,y): exact for the machine result as well"""
        a, b = t.args
        if b.op == 'real':
            b = b.args[0]
        if b.op not in ('sqrt', 'fabs', 'hypot') or self.rep(b)[1] == INF:
            return False
        v = a.imm if a.op == 'rconst' else const_float(a.sort, a.imm) if a.op == 'const' and a.sort in FL else None
        return v is not None and v <= 0

    def add_points(self, mdl):
        """remember the arguments of libm applications in a spurious model"""
        if not hasattr(self, 'extra_points'):
            self.extra_points = {}
        new = False
        for lst in self.fnlist.values():
            for a in lst:
                if a.kind == 'fn' and a.z is not None and a.data[0] in ('pow', 'log10', 'log', 'log2', 'exp', 'expb'):
                    q = zfrac(mdl.eval(self.zx(a.data[2]), model_completion=True))
                    try:
                        q = float(q)
                    except OverflowError:
                        continue
                    pts = self.extra_points.setdefault(a.id, [])
                    if q not in pts:
                        pts.append(q)
                        new = True
        return new

    def base_forms(self):
        return [self.zrel2(t, pol) for t, pol in self.lits]

    def zrel2(self, t, pol):
        # the literal itself is in `case`; bypass the shortcut
        v = self.case.pop(t.id, None)
        try:
            if t.op in self.CMP and t.args[0].sort != 'i1':
                d = self.diff(t)
                if d is not None:
                    D, e, k, lo, hi = d
                    return self.zcmp(D, k, Fraction(e), pol)
                b = self.freeb.setdefault(t.id, z3.Bool('b%d' % t.id))
                return b if pol else z3.Not(b)
            return self.zrel(t, pol)
        finally:
            if v is not None:
                self.case[t.id] = v

    def side(self, nra):
        """bounds of atoms and monomials; with nra also definitions"""
        fs = []
        done = set()
        while True:
            new = [a for a in self.atoms if a.z is not None and a.id not in done]
            if not new:
                break
            for a in new:
                done.add(a.id)
                if a.lo > -INF:
                    fs.append(a.z >= z3.RealVal(Fraction(a.lo)))
                if a.hi < INF:
                    fs.append(a.z <= z3.RealVal(Fraction(a.hi)))
                if nra:
                    if a.kind == 'inv':
                        fs.append(a.z * self.zx(a.data) == 1)
                    elif a.kind == 'sqrt':
                        fs.append(a.z >= 0)
                        fs.append(a.z * a.z == self.zx(a.data))
                    elif a.kind == 'def':
                        fs.append(a.z == self.zx(a.data))
                if a.kind in ('int', 'rnd'):
                    fs += self.cleared_int(a)
                if a.kind == 'int':
                    P, E = a.data
                    z = self.zpoly(P)
                    fs.append(a.z <= z + z3.RealVal(Fraction(E)))
                    fs.append(a.z + 1 > z - z3.RealVal(Fraction(E)))
                elif a.kind == 'rnd':
                    kind, P, E = a.data
                    z = self.zpoly(P)
                    fe = z3.RealVal(Fraction(E))
                    if kind in ('round', 'roundeven'):
                        fs.append(a.z - z <= z3.RealVal(Fraction(1, 2)) + fe)
                        fs.append(z - a.z <= z3.RealVal(Fraction(1, 2)) + fe)
                    elif kind in ('floor', 'trunc'):
                        fs.append(a.z <= z + fe)
                        fs.append(a.z + 1 > z - fe)
                    else:
                        fs.append(a.z >= z - fe)
                        fs.append(a.z - 1 < z + fe)
                elif a.kind == 'def':
                    fs.append(a.z == self.zpoly(a.data))
        for k, b in list(self.bounds.items()):
            q = dict(k)
            if all(m in self.zmono or (len(m) == 1 and self.atoms[m[0]].z is not None) for m in q):
                z = self.zpoly(q)
                if b[0] > -INF:
                    fs.append(z >= z3.RealVal(Fraction(b[0])))
                if b[1] < INF:
                    fs.append(z <= z3.RealVal(Fraction(b[1])))
        seen = set()
        while True:
            todo = [m for m in self.zmono if m not in seen]
            if not todo:
                break
            for m in todo:
                seen.add(m)
                fs += self.mccormick(m)
        for a in self.atoms:
            if a.z is not None and a.id not in done:
                done.add(a.id)
                if a.lo > -INF:
                    fs.append(a.z >= z3.RealVal(Fraction(a.lo)))
                if a.hi < INF:
                    fs.append(a.z <= z3.RealVal(Fraction(a.hi)))
        for m, v in list(self.zmono.items()):
            lo, hi = self.mint(m)
            if lo > -INF and lo == lo:
                fs.append(v >= z3.RealVal(Fraction(lo)))
            if hi < INF and hi == hi:
                fs.append(v <= z3.RealVal(Fraction(hi)))
            if nra:
                fs.append(v == self.zprod(m))
        if nra:
            fs += self.fn_lemmas()
        return fs

    def cleared_int(self, a):
        """the facts tying an integer part to its argument, with reciprocals multiplied out"""
        kind, P, E = ('floor', *a.data) if a.kind == 'int' else a.data
        if not any(self.atoms[x].kind == 'inv' for m in P for x in m):
            return []
        try:
            c = self.clear(P)
        except Unknown:
            return []
        if c is None or c[2] == 0 or len(c[0]) > 60:
            return []
        N, Q, s, mag = c
        if s < 0:
            N, Q = pscale(N, Fraction(-1)), pscale(Q, Fraction(-1))
        d = padd(self.pmul(self.apoly(a), Q), N, -1)
        lo, hi = {'round': (Fraction(-1, 2), Fraction(1, 2)), 'roundeven': (Fraction(-1, 2), Fraction(1, 2)), 'floor': (-1, 0), 'trunc': (-1, 0), 'ceil': (0, 1)}[kind]
        e = Fraction(E)
        return [self.zpoly(padd(d, pscale(Q, Fraction(hi) + e), -1)) <= 0, self.zpoly(padd(d, pscale(Q, Fraction(lo) - e), -1)) >= 0]

    def mccormick(self, m):
        """linear facts  (x-xl)(r-rl) >= 0 ...  for a monomial m = x*r"""
        fs = []
        v = self.zmono[m]
        for x in set(m):
            a = self.atoms[x]
            xl, xh = a.lo, a.hi
            if not (xl > -INF and xh < INF):
                continue
            l = list(m)
            l.remove(x)
            rest = tuple(l)
            narrow = xh - xl <= 1e-3 * max(abs(xl), abs(xh)) or (xh - xl) < 1e-5
            if not narrow and not (len(rest) == 1 and self.atoms[rest[0]].z is not None or rest in self.zmono):
                continue
            rl, rh = self.mint(rest)
            if not (rl > -INF and rh < INF):
                continue
            if len(self.zmono) > 3000:
                continue
            r, zx = self.zm(rest), self.zatom(a)
            xl, xh, rl, rh = (z3.RealVal(Fraction(q)) for q in (xl, xh, rl, rh))
            fs += [v >= xl * r + rl * zx - xl * rl, v >= xh * r + rh * zx - xh * rh, v <= xh * r + rl * zx - xh * rl, v <= xl * r + rh * zx - xl * rh]
        return fs

    def zprod(self, m):
        r = self.zatom(self.atoms[m[0]])
        for x in m[1:]:
            r = r * self.zatom(self.atoms[x])
        return r

    def zx(self, p):
        """polynomial with explicit products"""
        ts = [z3.RealVal(c) if m == () else z3.RealVal(c) * self.zprod(m) for m, c in p.items()]
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def fn_lemmas(self):
        """monotonicity / chord facts between applications of the same monotone function"""
        fs = []
        for key, lst in self.fnlist.items():
            if key in ('inv', 'sqrt', 'atan2', 'def'):
                continue
            name, extra = key
            lst = [a for a in lst if a.z is not None][:6]
            mono = {'pow': None, 'log10': 1, 'log': 1, 'log2': 1, 'exp': 1, 'expb': None}.get(name, 0)
            if name == 'pow':
                mono = 1 if extra[0] > 0 else -1
            if name == 'expb':
                mono = 1 if extra[0] > 1 else -1
            if not mono:
                continue
            for i in range(len(lst)):
                for j in range(i):
                    a, b = lst[i], lst[j]
                    pa, pb = self.zx(a.data[2]), self.zx(b.data[2])
                    fs.append(z3.Implies(pa <= pb, a.z <= b.z if mono > 0 else a.z >= b.z))
                    fs.append(z3.Implies(pb <= pa, b.z <= a.z if mono > 0 else b.z >= a.z))
            for a in lst:
                # value enclosures at points learned from spurious models
                for q, vlo, vhi in self.points(a):
                    pa = self.zx(a.data[2])
                    zq = z3.RealVal(q)
                    if mono > 0:
                        fs.append(z3.Implies(pa <= zq, a.z <= z3.RealVal(vhi)))
                        fs.append(z3.Implies(pa >= zq, a.z >= z3.RealVal(vlo)))
                    else:
                        fs.append(z3.Implies(pa <= zq, a.z >= z3.RealVal(vlo)))
                        fs.append(z3.Implies(pa >= zq, a.z <= z3.RealVal(vhi)))
        return fs

    def points(self, a):
        lo, hi = self.pint(a.data[2])
        pts = getattr(self, 'extra_points', {}).get(a.id, [])
        res = []
        if not (lo > -INF and hi < INF):
            return res
        grid = [lo + (hi - lo) * k / 4 for k in range(5)] + [p for p in pts if lo <= p <= hi]
        for q in grid:
            v = fnval(a.data[0], a.data[1], q)
            if v is None:
                continue
            d = abs(v) * Fraction(1, 10 ** 25) + Fraction(1, 10 ** 40)
            res.append((Fraction(q), v - d, v + d))
        return res

    def check(self, fs, timeout=10000, nra=True, model=False):
        s = z3.Solver()
        s.set('timeout', timeout)
        t0 = time.time()
        s.add(fs)
        s.add(self.side(nra))
        r = s.check()
        self.stats['queries'] = self.stats.get('queries', 0) + 1
        self.stats['solver_s'] = self.stats.get('solver_s', 0.0) + time.time() - t0
        if model:
            return r, (s.model() if r == z3.sat else None)
        return r

    def model_inputs(self, mdl):
        """input name -> Fraction"""
        out = {}
        for a in self.atoms:
            if a.kind == 'in':
                if a.z is None:
                    out[a.data.imm] = Fraction(a.lo) if a.lo > -INF else Fraction(0)
                    continue
                v = mdl.eval(a.z, model_completion=True)
                out[a.data.imm] = zfrac(v)
        return out


def zfrac(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(40)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return Fraction(0)


def _fb(sort, v):
    from symexec import f32bits, f64bits
    return f32bits(v) if sort == 'f32' else f64bits(v)


def fnval(name, extra, q):
    """high-precision value of a libm function, as a Fraction (or None)"""
    with mp.workprec(200):
        x = mp.mpf(q)
        try:
            if name == 'pow':
                c = extra[0]
                v = mp.power(x, mp.mpf(c.numerator) / c.denominator) if x > 0 else (mp.mpf(0) if x == 0 and c > 0 else None)
            elif name == 'log10':
                v = mp.log10(x) if x > 0 else None
            elif name == 'log2':
                v = mp.log(x, 2) if x > 0 else None
            elif name == 'log':
                v = mp.log(x) if x > 0 else None
            elif name == 'exp':
                v = mp.exp(x)
            elif name == 'expb':
                c = extra[0]
                v = mp.power(mp.mpf(c.numerator) / c.denominator, x)
            else:
                return None
        except Exception:
            return None
        if v is None:
            return None
        m, e = mp.frexp(v)
        return Fraction(int(mp.floor(mp.ldexp(m, 180)))) * Fraction(2) ** (int(e) - 180)
