"""Sampled spectra: shapes, construction, interpolation, alignment."""
from common import *


class Spd:
    pass


def rd_vspd(rd, maxlen=5000):
    """shape, then the samples"""
    s = Spd()
    s.start, s.end = rs(rd.take('f64', 2))
    s.varying = rd.k('i64')
    s.interval = real(rd.one('f64'))
    s.n = rd.k('i64')
    if s.n > maxlen:
        s.n = maxlen
    f = rs(rd.take('f64', 2 * s.n))
    s.nm, s.v = f[0::2], f[1::2]
    return s


def k64(v):
    return ('f64', float(v))


def samples(nms, vals):
    return [x for p in zip(nms, vals) for x in p]


@prop('P19')
def p19(tier):
    cs = []
    for n in (2, 3, 4, 5):
        nm = [var('n%d' % i, 'f64') for i in range(n)]
        v = vs('v', n, 'f64')
        bx = {x.imm: (400 + 10 * i - 0.5, 400 + 10 * i + 0.5) for i, x in enumerate(nm)}

        def check(rd, nm=nm, v=v, n=n):
            s = rd_vspd(rd)
            g = [('start', near(s.start, real(nm[0]), 0)), ('end', near(s.end, real(nm[-1]), 0))]
            if s.n != n:
                return [('sample count', FALSE)]
            gaps = [sub(real(nm[i + 1]), real(nm[i])) for i in range(n - 1)]
            if s.varying:
                g.append(('reported varying although all gaps are equal', Not(And(*[near(x, gaps[0], F(1, 10 ** 13)) for x in gaps[1:]]))))
            else:
                g += [('gap %d equals the reported interval' % i, near(x, s.interval, F(1, 10 ** 9))) for i, x in enumerate(gaps)]
            g += [('sample %d' % i, And(near(s.nm[i], real(nm[i]), 0), near(s.v[i], real(v[i]), 0))) for i in range(n)]
            return g
        cs.append(Case('%d samples' % n, 'h_vspd_new', slots(n, samples(nm, v)), check, 40 + 16 * n, boxes={**bx, **box(v, -2, 2)}))
    return cs


def u8_(so):
    return BITS[so] // 8


def grid(so, k, on, slo=300, shi=500, dlo=0.5, dhi=20, tol=None):
    """slots, boxes and exact values of a shape with k whole steps; its end on the grid up to tol, or between grid points"""
    s, d, f, r = var('start' + so, so), var('step' + so, so), var('frac' + so, so), var('off' + so, so)
    bx = {s.imm: (slo, shi), d.imm: (dlo, dhi)}
    if on:
        tol = tol or (2e-5 if so == 'f32' else 1e-10)
        bx[r.imm] = (-tol, tol)
        return slots(s, d, (so, float(k)), r), bx, real(s), real(d)
    bx[f.imm] = (k + 0.01, k + 0.99)
    return slots(s, d, f, (so, 0.0)), bx, real(s), real(d)


@prop('P20')
def p20(tier):
    cs = []
    ks = (0, 1, 2, 3, 5, 9) if tier == 'quick' else range(0, 40)
    for so in SORTS:
        for k in ks:
            for on in (True, False):
                sl, bx, s, d = grid(so, k, on)
                nm = 'end on the grid' if on else 'end off the grid'

                def check(rd, so=so, s=s, d=d, k=k):
                    n = rd.k('i64')
                    if n != k + 1:
                        return [('number of wavelengths', FALSE)]
                    return goals_near('wavelength', rd.take(so, n), [add(s, mul(i, d)) for i in range(n)], F(1, 1000) if so == 'f32' else F(1, 10 ** 9))
                cs.append(Case('iterate %d steps, %s: %s' % (k, nm, so), 'h_shape_iter' if so == 'f64' else 'h_shape_iter_32', sl, check, 8 + (k + 3) * u8_(so), boxes=bx))
    for k in ks:
        for on in (True, False):
            nm = 'end on the grid' if on else 'end off the grid'
            sl, bx, s, d = grid('f64', k, on)
            v = var('v', 'f64')

            def goals(rd, k, vals, s=s, d=d):
                e = real(rd.one('f64'))
                o = rd_vspd(rd)
                if o.n != k + 1 or o.varying:
                    return [('number of samples', FALSE)]
                g = [('shape as requested', And(near(o.start, s, 0), near(o.end, e, F(1, 10 ** 9)), near(o.interval, d, 0)))]
                return g + [('sample %d' % i, And(near(o.nm[i], add(s, mul(i, d)), F(1, 10 ** 9)), near(o.v[i], real(vals[i]), 0))) for i in range(o.n)]

            def const_(rd, k=k, v=v, goals=goals):
                return goals(rd, k, [v] * (k + 1))
            cs.append(Case('constant spectrum of %d steps, %s' % (k, nm), 'h_vspd_const', sl + slots(v), const_, 48 + 16 * (k + 3), boxes={**bx, **box([v], -10, 10)},
                           panic=TRUE if k == 0 else None))
            for m in (k, k + 1, k + 2):
                vv = vs('v', m, 'f64')

                def fromv(rd, k=k, vv=vv, goals=goals):
                    return goals(rd, k, vv)
                cs.append(Case('%d values for %d steps, %s' % (m, k, nm), 'h_vspd_from_values', sl + slots(m, vv), fromv, 48 + 16 * (k + 3), boxes={**bx, **box(vv, -10, 10)},
                               panic=TRUE if m != k + 1 or m < 2 else None))
    for m in (2, 3):
        vv = vs('v', m, 'f64')
        sl, bx, s, d = grid('f64', m - 1, True)
        cs.append(Case('%d values for a varying shape' % m, 'h_vspd_from_values_varying', sl + slots(m, vv), lambda rd: [], 48 + 16 * m, boxes={**bx, **box(vv, -10, 10)}, panic=TRUE))

    def astm(rd):
        a, b = rs(rd.take('f64', 2))
        k = rd.k('i64')
        i = real(rd.one('f64'))
        return [('360..780 by 1', And(near(a, 360, 0), near(b, 780, 0), near(i, 1, 0), FALSE if k else TRUE))]
    cs.append(Case('ASTM E308 shape', 'h_shape_astm', slots(), astm, 32))
    return cs


def grid_samples(n, gap=10, w=0.5, start=400):
    nm = [var('n%d' % i, 'f64') for i in range(n)]
    v = vs('v', n, 'f64')
    bx = {x.imm: (start + gap * i - w, start + gap * i + w) for i, x in enumerate(nm)}
    return nm, v, {**bx, **box(v, -2, 2)}


@prop('P21')
def p21(tier):
    cs = []
    ns = (2, 3, 5) if tier == 'quick' else (2, 3, 4, 5, 6, 8, 10, 16)
    for n in ns:
        nm, v, bx = grid_samples(n)

        def acc(rd, n=n, nm=nm, v=v):
            a = rd.take('f64', 2)
            ln, empty = rd.one('i64'), rd.one('i64')
            b = rd.take('f64', 4)
            g = [('first and last wavelength', And(same(a[0], nm[0]), same(a[1], nm[-1]))), ('length', eqi(ln, n)), ('not empty', eqi(empty, 0)),
                 ('first and last sample', And(same(b[0], nm[0]), same(b[1], v[0]), same(b[2], nm[-1]), same(b[3], v[-1])))]
            g += [('values', And(*[same(x, y) for x, y in zip(rd.take('f64', n), v)])), ('wavelengths', And(*[same(x, y) for x, y in zip(rd.take('f64', n), nm)])),
                  ('samples', And(*[same(x, y) for x, y in zip(rd.take('f64', 2 * n), samples(nm, v))])),
                  ('samples backwards', And(*[same(x, y) for x, y in zip(rd.take('f64', 2 * n), samples(nm[::-1], v[::-1]))])),
                  ('values backwards', And(*[same(x, y) for x, y in zip(rd.take('f64', n), v[::-1])])), ('wavelengths backwards', And(*[same(x, y) for x, y in zip(rd.take('f64', n), nm[::-1])]))]
            return g
        cs.append(Case('accessors of %d samples' % n, 'h_vspd_access', slots(n, samples(nm, v)), acc, 64 + 64 * n, boxes=bx))

        def pairs(rd, n=n, nm=nm, v=v):
            o = rd_vspd(rd)
            return [('sample count', FALSE if o.n != n else TRUE)] + [('sample %d' % i, And(near(o.nm[i], real(nm[i]), 0), near(o.v[i], real(v[i]), 0))) for i in range(o.n)]
        cs.append(Case('%d pairs collected' % n, 'h_vspd_pairs', slots(n, samples(nm, v)), pairs, 40 + 16 * n, boxes=bx))
        k = var('k', 'f64')
        for sg in (1, -1):
            def scale(rd, n=n, nm=nm, v=v, k=k):
                g = []
                for j in range(4):
                    o = rd_vspd(rd)
                    if o.n != n:
                        return [('sample count', FALSE)]
                    f = mul if j % 2 == 0 else div
                    g += [('%s[%d]' % (('&v*k', '&v/k', 'v*k', 'v/k')[j], i), And(near(o.nm[i], real(nm[i]), 0), near(o.v[i], f(real(v[i]), real(k)), F(1, 10 ** 9)))) for i in range(n)]
                    g += [('%s range' % j, And(near(o.start, real(nm[0]), 0), near(o.end, real(nm[-1]), 0)))]
                return g
            cnm = [400.0 + 10 * i for i in range(n)]
            cs.append(Case('scaling %d samples by a %s number' % (n, 'positive' if sg > 0 else 'negative'), 'h_vspd_scale', slots(n, [x for p in zip([k64(c) for c in cnm], v) for x in p], k),
                           lambda rd, f=scale, cnm=cnm: f(rd, nm=[rc(F(c)) for c in cnm]), 4 * (40 + 16 * n), boxes={**box(v, -2, 2), k.imm: (0.01, 100) if sg > 0 else (-100, -0.01)}))
        for m in (n, n + 1) if n < 4 else ():
            a, b = vs('a', n, 'f64'), vs('b', m, 'f64')
            na, nb = [var('n%d' % i, 'f64') for i in range(n)], [var('m%d' % i, 'f64') for i in range(m)]
            e = var('e', 'f64')
            # symbolic wavelengths only at the last sample
            na = [const('f64', f64bits(400.0 + 10 * i)) for i in range(n - 1)] + na[-1:] if n == 2 else [const('f64', f64bits(400.0 + 10 * i)) for i in range(n)]
            nb = [const('f64', f64bits(400.0 + 10 * i)) for i in range(n - 1)] + nb[n - 1:] if n == 2 else [const('f64', f64bits(400.0 + 10 * i)) for i in range(m)]

            def eqs(rd, n=n, m=m, a=a, b=b, na=na, nb=nb, e=e):
                r1, r2 = rd.take('i8', 2)
                if n != m:
                    return [('different lengths are unequal', And(eqi(r1, 0), eqi(r2, 0)))]
                prs = list(zip(samples(na, a), samples(nb, b)))
                ok = And(*[feq(x, y) for x, y in prs])
                d = [Term('fabs', 'f64', None, (Term('fsub', 'f64', None, (x, y)),)) for x, y in prs]
                cl = And(*[Or(feq(x, y), Term('fle', 'i1', None, (z, e))) for (x, y), z in zip(prs, d)])
                one = lambda r: Not(eqi(r, 0))
                return [('equal spectra have equal samples', Implies(one(r1), ok)), ('equal samples make equal spectra', Implies(ok, one(r1))),
                        ('approximately equal exactly when every sample is', And(Implies(one(r2), cl), Implies(cl, one(r2))))]
            if True:
                tup = lambda x: x if x.op == 'var' else ('f64', const_float('f64', x.imm))
                cs.append(Case('comparing %d with %d samples' % (n, m), 'h_vspd_eq', slots(n, m, [tup(x) for x in samples(na, a)], [tup(x) for x in samples(nb, b)], e), eqs, 2, mode='fp', goal_timeout=60000, budget=200,
                               boxes={**{x.imm: (390, 410) for x in na + nb if x.op == 'var'}, **box(a + b, -2, 2), e.imm: (0, 1)}))
    return cs


@prop('P22')
def p22(tier):
    cs = []
    for n in (2, 3, 5) if tier == 'quick' else (2, 3, 4, 5, 6, 8, 12):
        nm, v, bx = grid_samples(n, w=4)
        x = var('x', 'f64')
        if n > 3:
            # symbolic wavelengths up to three samples only; then fixed irregular ones
            nm = [400 + 10 * i + F((i * i * 7) % 13, 4) for i in range(n)]
            bx = box(v, -2, 2)
            sm = samples([k64(w) for w in nm], v)
        else:
            sm = samples(nm, v)
            nm = rs(nm)

        def lin(rd, n=n, nm=nm, v=v, x=x):
            y, X, N, V = real(rd.one('f64')), real(x), nm, rs(v)
            g = [('before the first sample', Implies(le(X, N[0]), near(y, V[0], 0))), ('after the last sample', Implies(ge(X, N[-1]), near(y, V[-1], 0)))]
            for i in range(n - 1):
                gap = sub(N[i + 1], N[i])
                g.append(('between samples %d and %d' % (i, i + 1), Implies(between(N[i], X, N[i + 1]), near(mul(sub(y, V[i]), gap), mul(sub(V[i + 1], V[i]), sub(X, N[i])), F(1, 10 ** 9)))))
            return g
        cs.append(Case('linear interpolation of %d samples' % n, 'h_interp_linear', slots(n, sm, x), lin, 8, boxes={**bx, x.imm: (380, 430 + 10 * n)}))

        def ext(rd, n=n, nm=nm, v=v, x=x):
            y = real(rd.one('f64'))
            return [('before the first sample', Implies(lt(real(x), nm[0]), near(y, real(v[0]), 0))), ('after the last sample', Implies(gt(real(x), nm[-1]), near(y, real(v[-1]), 0)))]
        cs.append(Case('constant extrapolation of %d samples' % n, 'h_extrap_const', slots(n, sm, x), ext, 8, boxes={**bx, x.imm: (0, 2000)}))
    return cs


def solve(A, b):
    n = len(A)
    M = [r[:] + [x] for r, x in zip(A, b)]
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c])
        M[c], M[p] = M[p], M[c]
        M[c] = [x / M[c][c] for x in M[c]]
        for r in range(n):
            if r != c and M[r][c]:
                M[r] = [x - M[r][c] * y for x, y in zip(M[r], M[c])]
    return [r[-1] for r in M]


def sprague_basis():
    """Sprague's interpolant from its definition: the quintic that meets both samples with the fourth order
    central first and second differences there; coefficient k of t^k as weights of y[-2..3]"""
    A = [[F(1), 0, 0, 0, 0, 0], [F(1)] * 6, [0, F(1), 0, 0, 0, 0], [F(k) for k in range(6)], [0, 0, F(2), 0, 0, 0], [F(k * (k - 1)) for k in range(6)]]
    d1, d2 = [F(1, 12), F(-8, 12), F(0), F(8, 12), F(-1, 12)], [F(-1, 12), F(16, 12), F(-30, 12), F(16, 12), F(-1, 12)]
    e = lambda k: [F(int(j == k)) for j in range(6)]
    rows = [e(2), e(3), d1 + [F(0)], [F(0)] + d1, d2 + [F(0)], [F(0)] + d2]
    return [[solve(A, [F(rows[r][j]) for r in range(6)])[k] for j in range(6)] for k in range(6)]


SPB = sprague_basis()
# CIE 167: the values assumed before the first sample
SPC = [[F(x, 209) for x in (884, -1960, 3033, -2648, 1080, -180)], [F(x, 209) for x in (508, -540, 488, -367, 144, -24)]]


def sprague_weights(n, i, t):
    """weights of the n >= 6 samples in the value at position i + t"""
    def at(k):
        if k < 0:
            return [x for x in SPC[k + 2]] + [F(0)] * (n - 6)
        if k >= n:
            return ([x for x in SPC[n + 1 - k]] + [F(0)] * (n - 6))[::-1]
        return [F(int(j == k)) for j in range(n)]
    ys = [at(i + k) for k in range(-2, 4)]
    c = [sum(SPB[k][j] * t ** k for k in range(6)) for j in range(6)]
    return [sum(c[j] * ys[j][m] for j in range(6)) for m in range(n)]


@prop('P23')
def p23(tier):
    cs = []
    e9 = F(1, 10 ** 9)

    def spec(n, V, i, T):
        """the interpolated value between samples i and i+1 at the symbolic position T"""
        t = sub(T, i)
        ws = [[F(0)] * n for _ in range(6)]
        for k in range(6):
            for j in range(6):
                m = i + j - 2
                row = SPC[m + 2] + [F(0)] * (n - 6) if m < 0 else (SPC[n + 1 - m] + [F(0)] * (n - 6))[::-1] if m >= n else [F(int(q == m)) for q in range(n)]
                for q in range(n):
                    ws[k][q] += SPB[k][j] * row[q]
        r = []
        for k in range(6):
            c = add(*[mul(w, V[q]) for q, w in enumerate(ws[k]) if w]) if any(ws[k]) else F(0)
            r.append(mul(c, *([t] * k)) if k else c)
        return add(*r)
    for n in (6, 7, 9) if tier == 'quick' else (6, 7, 8, 9, 12, 20):
        V = vs('v', n, 'f64')
        x = var('x', 'f64')
        ivs = range(n - 1)
        for (s0, d) in ((400.0, 10.0), (380.0, 5.0), (360.0, 1.0))[:1 if tier == 'quick' and n > 6 else 3]:
            nm = [k64(s0 + d * k) for k in range(n)]
            for i in ivs:
                def chk(rd, n=n, V=V, i=i, x=x, s0=s0, d=d):
                    y = real(rd.one('f64'))
                    return [('value between samples', near(y, spec(n, rs(V), i, div(sub(real(x), F(s0)), F(d))), F(1, 10 ** 8)))]
                sm = [z for p in zip(nm, V) for z in p]
                cs.append(Case('%d samples from %d by %d, between samples %d and %d' % (n, s0, d, i, i + 1), 'h_interp_sprague', slots(n, sm, x), chk, 8,
                               boxes={**box(V, -2, 2), x.imm: (s0 + d * i, s0 + d * (i + 1))}))
            for i in range(n):
                def at(rd, V=V, i=i):
                    return [('meets the sample', near(real(rd.one('f64')), real(V[i]), F(1, 10 ** 8)))]
                cs.append(Case('%d samples from %d by %d, at sample %d' % (n, s0, d, i), 'h_interp_sprague', slots(n, sm, nm[i]), at, 8, boxes=box(V, -2, 2)))
    for n in (2, 3, 4, 5, 6, 8) if tier == 'quick' else range(2, 20):
        a, b, t = [var(q, 'f64') for q in 'abt']

        def line(rd, a=a, b=b, t=t):
            return [('a straight line stays straight', near(real(rd.one('f64')), add(real(a), mul(real(b), real(t))), F(1, 10 ** 6)))]
        for i in range(n - 1):
            cs.append(Case('straight line of %d samples, between %d and %d' % (n, i, i + 1), 'h_interp_sprague_line', slots(k64(400.0), k64(10.0), a, b, n, t), line, 8,
                           boxes={**box([a, b], -2, 2), t.imm: (i, i + 1)}))
    for n in (2, 3, 4, 5):
        V = vs('v', n, 'f64')
        sm = [z for p in zip([k64(400.0 + 10 * k) for k in range(n)], V) for z in p]
        for i in range(n):
            def at(rd, V=V, i=i):
                return [('meets the sample', near(real(rd.one('f64')), real(V[i]), F(1, 10 ** 8)))]
            cs.append(Case('%d samples, at sample %d' % (n, i), 'h_interp_sprague', slots(n, sm, k64(400.0 + 10 * i)), at, 8, boxes=box(V, -2, 2)))
    return cs


@prop('P31')
def p31(tier):
    cs = []
    s, e = var('s', 'f64'), var('e', 'f64')
    for n in (*range(1, 22), 33, 50, 64) if tier == 'quick' else range(1, 101):
        def ls(rd, n=n):
            m = rd.k('i64')
            if m != n:
                return [('number of values', FALSE)]
            S, E = real(s), real(e)
            return goals_near('value', rd.take('f64', n), [add(S, mul(F(i, max(n - 1, 1)), sub(E, S))) for i in range(n)], F(1, 10 ** 10))
        cs.append(Case('linspace of %d values' % n, 'h_linspace', slots(s, e, n), ls, 16 + 8 * n, boxes=box([s, e], -1000, 1000)))
    d = var('d', 'f64')
    for k in (*range(2, 31), 35, 40, 45, 50, 60, 75, 80, 100) if tier == 'quick' else range(2, 201):
        for deg in (3, 4):
            def lag(rd, k=k, deg=deg):
                m = rd.k('i64')
                if m != k - 1:
                    return [('rows', FALSE)]
                g = []
                for r in range(m):
                    if rd.k('i64') != deg:
                        return [('columns', FALSE)]
                    x = F(r + 1, k) + (1 if deg == 4 else 0)
                    w = []
                    for j in range(deg):
                        p = F(1)
                        for i in range(deg):
                            if i != j:
                                p *= (x - i) / F(j - i)
                        w.append(p)
                    g += goals_near('row %d' % r, rd.take('f64', deg), w, F(1, 10 ** 12))
                return g
            cs.append(Case('Lagrange coefficients for interval %d degree %d' % (k, deg), 'h_lagrange', slots(k64(k), deg), lag, 16 + (8 + 8 * deg) * k))
    return cs


def spr_pos(V, n, i, t):
    """Sprague's value at the symbolic position i + t"""
    ws = [[F(0)] * n for _ in range(6)]
    for k in range(6):
        for j in range(6):
            m = i + j - 2
            row = SPC[m + 2] + [F(0)] * (n - 6) if m < 0 else (SPC[n + 1 - m] + [F(0)] * (n - 6))[::-1] if m >= n else [F(int(q == m)) for q in range(n)]
            for q in range(n):
                ws[k][q] += SPB[k][j] * row[q]
    r = [add(*[mul(w, V[q]) for q, w in enumerate(ws[k]) if w]) if any(ws[k]) else F(0) for k in range(6)]
    return add(*[mul(c, *([t] * k)) if k else c for k, c in enumerate(r)])


def wsum(ws, V):
    return add(F(0), *[mul(w, V[q]) for q, w in enumerate(ws) if w])


def spd_at(V, s0, d, n, x):
    """the aligned spectrum at the fixed wavelength x"""
    p = (F(x) - s0) / d
    if p <= 0:
        return V[0]
    if p >= n - 1:
        return V[-1]
    i = min(int(p), n - 2)
    return wsum(sprague_weights(n, i, p - i), V)


def steps(a, b, d):
    return [F(a) + k * F(d) for k in range(int((F(b) - F(a)) / F(d)) + 1)]


@prop('P24')
def p24(tier):
    cs = []
    e8 = F(1, 10 ** 8)
    # source start, step, samples; target start, end, step
    cfg = [(400, 10, 7, 400, 460, 10), (400, 10, 7, 400, 460, 5), (400, 10, 7, 420, 440, 1), (400, 10, 7, 380, 480, 10), (400, 10, 7, 380, 480, 5), (400, 5, 9, 380, 460, 20),
           (403, 10, 7, 380, 480, 10), (403, 10, 7, 385, 480, 5), (403, 5, 6, 405, 425, 4), (400, 10, 7, 405, 445, 10), (400, 10, 7, 300, 380, 10), (400, 10, 7, 470, 500, 10),
           (400, 10, 7, 395.5, 463, 2.5), (380, 20, 6, 360, 500, 10), (400, 10, 7, 430, 500, 10), (400, 10, 7, 380, 430, 10),
           (400.5, 1, 11, 390, 405, 0.5), (400.5, 1, 11, 404.25, 420.75, 0.5), (402.5, 7.5, 8, 399.75, 433, 3.25), (399.25, 0.25, 9, 398, 400.5, 0.25), (412.5, 10, 7, 360, 441.5, 12)]
    if tier != 'quick':
        cfg += [(400 + o, d, n, 390, 390 + 15 * t, t) for o in (0, 2, 5, 7.5) for d in (1, 4, 5, 10) for n in (6, 8, 12) for t in (1, 2.5, 5, 10)]
    for (s0, d, n, a, b, t) in cfg:
        V = vs('v', n, 'f64')
        sm = [z for p in zip([k64(s0 + d * k) for k in range(n)], V) for z in p]
        sh = [k64(a), k64(b), 0, k64(t)]
        end = F(s0) + F(d) * (n - 1)

        def al(rd, V=V, s0=s0, d=d, n=n, a=a, b=b, t=t):
            o = rd_vspd(rd)
            xs = steps(a, b, t)
            if o.varying or o.n != len(xs):
                return [('one sample per wavelength of the shape', FALSE)]
            R = rs(V)
            return [('the requested shape', And(near(o.start, F(a), 0), near(o.end, F(b), 0), near(o.interval, F(t), 0)))] + \
                   [('sample %d' % i, And(near(o.nm[i], x, e8), near(o.v[i], spd_at(R, F(s0), F(d), n, x), e8))) for i, x in enumerate(xs)]
        nm = '%g..%g by %g to %g..%g by %g' % (s0, end, d, a, b, t)
        no = 40 + 16 * (len(steps(a, b, t)) + n + 40)
        cs.append(Case('align ' + nm, 'h_vspd_align', slots(n, sm, sh), al, no, boxes=box(V, -2, 2)))
        a2, b2 = max(F(a), F(s0)), min(F(b), end)
        if a2 < b2:
            def ip(rd, V=V, s0=s0, d=d, n=n, a2=a2, b2=b2, t=t):
                o = rd_vspd(rd)
                xs = steps(a2, b2, t)
                if o.varying or o.n != len(xs):
                    return [('one sample per wavelength in both ranges', FALSE)]
                R = rs(V)
                return [('the narrower range', And(near(o.start, a2, 0), near(o.end, b2, 0), near(o.interval, F(t), 0)))] + \
                       [('sample %d' % i, And(near(o.nm[i], x, e8), near(o.v[i], spd_at(R, F(s0), F(d), n, x), e8))) for i, x in enumerate(xs)]
            cs.append(Case('interpolate ' + nm, 'h_vspd_interpolate', slots(n, sm, sh), ip, no, boxes=box(V, -2, 2)))
    # a symbolic offset of the target grid
    for (s0, d, n, lo, hi, k, t, aln) in [(400, 10, 6, 403, 407, 3, 10, True), (400, 10, 6, 391, 399, 5, 10, True), (400, 10, 6, 420.5, 424.5, 5, 5, True), (400, 10, 6, 445.5, 449.5, 3, 5, True),
                                          (400, 10, 6, 391, 399, 3, 10, False), (400.5, 1, 11, 388.125, 388.375, 30, 0.5, False), (402.5, 5, 7, 361, 362, 6, 10, False)]:
        V = vs('v', n, 'f64')
        st = var('st', 'f64')
        sm = [z for p in zip([k64(s0 + d * k_) for k_ in range(n)], V) for z in p]

        def ag(rd, V=V, st=st, s0=s0, d=d, n=n, lo=lo, hi=hi, k=k, t=t, what=None):
            o = rd_vspd(rd)
            R, S = rs(V), real(st)
            m = k + 1
            if what == 'interpolate':
                m = sum(1 for i in range(k + 1) if hi + t * i <= s0 + d * (n - 1))
            if o.varying or o.n != m:
                return [('one sample per wavelength of the shape', FALSE)]
            g = [('start', near(o.start, S, e8))]
            for i in range(m):
                p0, p1 = F(lo + t * i - s0) / d, F(hi + t * i - s0) / d
                if p1 <= 0:
                    w = R[0]
                elif p0 >= n - 1:
                    w = R[-1]
                else:
                    j = int(p0)
                    assert p1 <= j + 1 and p0 >= j, (p0, p1)
                    w = spr_pos(R, n, j, sub(div(sub(add(S, F(t * i)), F(s0)), F(d)), j))
                g += [('wavelength %d' % i, near(o.nm[i], add(S, F(t * i)), e8)), ('sample %d' % i, near(o.v[i], w, e8))]
            return g
        nm = '%d samples from %d by %d to %d steps of %g from %g..%g' % (n, s0, d, k, t, lo, hi)
        if hi <= s0:
            c0, c1 = (F(lo) + F(t) * k - F(s0)) / F(t), (F(hi) + F(t) * k - F(s0)) / F(t)
            assert int(c0) == int(c1) and c0 > int(c0) and F(hi) + F(t) * k <= s0 + d * (n - 1)
            ip2 = int(c0) + 1

            def ib(rd, V=V, st=st, s0=s0, d=d, n=n, k=k, t=t, m=ip2):
                o = rd_vspd(rd)
                if o.varying or o.n != m:
                    return [('one sample per wavelength in both ranges', FALSE)]
                R = rs(V)
                return [('the narrower range', And(near(o.start, F(s0), 0), near(o.end, add(real(st), F(t) * k), e8), near(o.interval, F(t), 0)))] + \
                       [('sample %d' % i, And(near(o.nm[i], F(s0) + F(t) * i, e8), near(o.v[i], spd_at(R, F(s0), F(d), n, F(s0) + F(t) * i), e8))) for i in range(m)]
            cs.append(Case('interpolate ' + nm, 'h_vspd_interpolate_g', slots(n, sm, st, k64(t), k64(k), k64(0.0)), ib, 40 + 16 * (k + n + 40), boxes={**box(V, -2, 2), st.imm: (lo, hi)}))
        if not aln:
            continue
        cs.append(Case('align ' + nm, 'h_vspd_align_g', slots(n, sm, st, k64(t), k64(k), k64(0.0)), ag, 40 + 16 * (k + n + 40), boxes={**box(V, -2, 2), st.imm: (lo, hi)}))
        if lo >= s0:
            cs.append(Case('interpolate ' + nm, 'h_vspd_interpolate_g', slots(n, sm, st, k64(t), k64(k), k64(0.0)), lambda rd, f=ag: f(rd, what='interpolate'), 40 + 16 * (k + n + 40), boxes={**box(V, -2, 2), st.imm: (lo, hi)}))
    return cs


@prop('P25')
def p25(tier):
    cs = []
    e8 = F(1, 10 ** 8)
    cfg = [(400, 10, 3, 400, 420), (400, 10, 3, 370, 420), (400, 10, 3, 400, 450), (400, 10, 3, 360, 460), (400, 10, 3, 410, 410), (400, 20, 2, 300, 480), (400, 10, 4, 410, 470), (400, 10, 4, 380, 420), (401.5, 0.5, 5, 400, 405), (360, 1, 6, 350, 370)]
    if tier != 'quick':
        cfg += [(400 + o, d, n, 400 + o - l * d, 400 + o + (n - 1 + r) * d) for o in (0, 2.5) for d in (1, 2.5, 5, 20) for n in (2, 3, 6, 10) for l in (-1, 0, 1, 4) for r in (-1, 0, 1, 7)]
    for (s0, d, n, a, b) in cfg:
        V = vs('v', n, 'f64')
        sm = [z for p in zip([k64(s0 + d * k) for k in range(n)], V) for z in p]
        end = F(s0) + F(d) * (n - 1)
        lo, hi = min(F(a), F(s0)), max(F(b), end)

        def ex(rd, V=V, s0=s0, d=d, n=n, lo=lo, hi=hi):
            o = rd_vspd(rd)
            xs = steps(lo, hi, d)
            if o.varying or o.n != len(xs):
                return [('the samples cover both ranges', FALSE)]
            R = rs(V)
            return [('shape tells what the samples cover', And(near(o.start, lo, 0), near(o.end, hi, 0), near(o.interval, F(d), 0)))] + \
                   [('sample %d' % i, And(near(o.nm[i], x, e8), near(o.v[i], spd_at(R, F(s0), F(d), n, x), 0))) for i, x in enumerate(xs)]
        cs.append(Case('extrapolate %g..%g by %g to %g..%g' % (s0, end, d, a, b), 'h_vspd_extrapolate', slots(n, sm, k64(a), k64(b), 0, k64(1.0)), ex, 40 + 16 * (len(steps(lo, hi, d)) + 20), boxes=box(V, -2, 2)))
    # ranges off the grid, and irregular spectra: whatever wavelengths are added, the report is true
    og = [([400, 410, 420], 395, 420, 7), ([400, 410, 420], 400, 433, 7), ([400, 410, 420], 381, 447, 7), ([400, 420], 385, 431, 7), ([400, 403, 420], 390, 420, 10), ([400, 403, 420], 380, 450, 10), ([400, 403, 420], 400, 421, 4),
          ([400, 410, 425, 435], 380, 470, 10), ([400, 410, 425, 435], 397, 436, 3), ([400, 410, 420, 425], 400, 440, 5), ([400, 401, 402, 403.5], 396, 410, 1), ([400, 410, 430], 400, 430, 10), ([400.25, 400.5, 400.75], 399.9, 401.1, 1)]
    if tier != 'quick':
        og += [(nm, nm[0] - l, nm[-1] + r, i) for nm in ([400, 410], [400, 410, 420, 430], [400, 411, 420], [400, 410, 420, 431, 440], [400.5, 401, 401.5], [400, 402, 410]) for l in (-1, 0, 1, 5, 10, 23) for r in (-1, 0, 2, 10, 37) for i in (1, 4, 10)]
    for nm, a, b, di in og:
        n = len(nm)
        V = vs('v', n, 'f64')
        sm = [z for p in zip([k64(x) for x in nm], V) for z in p]
        gaps = {F(y) - F(x) for x, y in zip(nm, nm[1:])}
        d = min(gaps) if len(gaps) == 1 else F(di)
        lo, hi = min(F(a), F(nm[0])), max(F(b), F(nm[-1]))

        def tru(rd, V=V, nm=nm, n=n, lo=lo, hi=hi, d=d):
            o = rd_vspd(rd)
            X = [x.imm if x.op == 'rconst' else None for x in o.nm]
            if None in X or o.n < n:
                return [('keeps the samples', FALSE)]
            e = F(1, 10 ** 9)
            j = [i for i, x in enumerate(X) if x == F(nm[0])]
            if not j or X[j[0]:j[0] + n] != [F(x) for x in nm]:
                return [('keeps the samples', FALSE)]
            j = j[0]
            gs = [y - x for x, y in zip(X, X[1:])]
            out = gs[:j] + gs[j + n - 1:]
            R = rs(V)
            uni = all(abs(g - gs[0]) < F(1, 10 ** 11) for g in gs)
            g = [('added wavelengths ascend by at most the interval', TRUE if all(0 < x <= d + e for x in out) else FALSE),
                 ('the range is covered', TRUE if X[0] == lo and hi - d - e <= X[-1] <= hi + e else FALSE),
                 ('reported range is that of the samples', And(near(o.start, X[0], 0), near(o.end, X[-1], 0))),
                 ('uniform only if the samples are', TRUE if bool(o.varying) != uni else FALSE)]
            if uni and not o.varying:
                g.append(('interval', near(o.interval, gs[0], e)))
            return g + [('value %d' % i, near(o.v[i], R[min(max(i - j, 0), n - 1)], 0)) for i in range(o.n)]
        cs.append(Case('extrapolate %s to %g..%g by %g' % (','.join('%g' % x for x in nm), a, b, di), 'h_vspd_extrapolate', slots(n, sm, k64(a), k64(b), 0, k64(di)), tru, 40 + 16 * (int((hi - lo) / min(d, F(1))) + 3 * n + 20), boxes=box(V, -2, 2)))
    for n, t0, d in [(2, 400, 10), (3, 400, 10), (5, 400, 10), (4, 400.5, 0.5), (3, 399.75, 2.25)] if tier == 'quick' else [(n, *g) for n in (2, 3, 4, 5, 7, 9) for g in ((400, 10), (400.5, 0.5), (399.75, 2.25))]:
        V = vs('v', n, 'f64')
        nms = [t0 + d * k + (0.25 * d if k == 1 else 0) for k in range(n)]
        sm = [z for p in zip([k64(x) for x in nms], V) for z in p]
        for i in range(n):
            for j in range(i, n):
                a, b = var('a', 'f64'), var('b', 'f64')
                # the range starts after sample i-1 and ends before sample j+1
                bx = {a.imm: (nms[i - 1] + 0.001 if i else 100, nms[i]), b.imm: (nms[j], nms[j + 1] - 0.001 if j + 1 < n else 1000)}

                def tr(rd, V=V, i=i, j=j, nms=nms, n=n):
                    o = rd_vspd(rd)
                    if o.n != j - i + 1:
                        return [('the samples inside the range', FALSE)]
                    g = [('range', And(near(o.start, F(nms[i]), 0), near(o.end, F(nms[j]), 0)))]
                    return g + [('sample %d' % k, And(near(o.nm[k], F(nms[i + k]), 0), near(o.v[k], real(V[i + k]), 0))) for k in range(o.n)]
                cs.append(Case('trim %d samples from %g by %g to %d..%d' % (n, t0, d, i, j), 'h_vspd_trim_g', slots(n, sm, a, b), tr, 40 + 16 * n, boxes={**box(V, -2, 2), **bx}))
    return cs


# ---------------------------------------------------------------- spectrum to XYZ
ILL = ('D50', 'D55', 'D60', 'D65')
VINI = ('h_init_vspd',)
_cie = {}


def cie(k):
    """published tables: (start, step, values)"""
    if not _cie:
        import json
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data', 'cie.json')) as f:
            for n, t in json.load(f).items():
                _cie[n] = (int(t['start']), int(t['step']), [F(x) for x in t['v']])
    return _cie[k]


def rows(n, i, t):
    """sparse {sample: weight} of Sprague's value at i + t, n >= 6"""
    if t == 0:
        return {i: F(1)}
    if 2 <= i <= n - 4:
        c = [sum(SPB[k][j] * t ** k for k in range(6)) for j in range(6)]
        return {i + j - 2: c[j] for j in range(6)}
    return {q: w for q, w in enumerate(sprague_weights(n, i, t)) if w}


def at_rows(s0, d, n, x):
    p = (F(x) - F(s0)) / F(d)
    if p <= 0:
        return {0: F(1)}
    if p >= n - 1:
        return {n - 1: F(1)}
    return rows(n, int(p), p - int(p))


def table_at(tab, x):
    s0, d, v = tab
    return sum(v[q] * w for q, w in at_rows(s0, d, len(v), x).items())


_prod = {}


def products(ill, step):
    """[(wavelength, S*xbar, S*ybar, S*zbar)] on 360..780, scaled to sum of S*ybar = 100"""
    k = (ill if isinstance(ill, str) else id(ill), step)
    if k not in _prod:
        c = [cie(b) for b in ('x_bar', 'y_bar', 'z_bar')]
        tab = cie(ill) if isinstance(ill, str) else ill
        r = []
        for x in range(360, 781, step):
            s = table_at(tab, x)
            r.append((x, [s * t[2][x - 360] for t in c]))
        y = sum(p[1] for _, p in r)
        _prod[k] = (ill, [(x, [F(float(100 * q / y)) for q in p]) for x, p in r])
    return _prod[k][1]


def integ_weights(ill, step, s0, d, n):
    """weights of the n samples in X, Y and Z by interpolating and summing"""
    w = [[F(0)] * n for _ in range(3)]
    for x, p in products(ill, step):
        for q, a in at_rows(s0, d, n, x).items():
            for c in range(3):
                w[c][q] += a * p[c]
    return w


def lag(nodes, x):
    r = []
    for a in nodes:
        p = F(1)
        for b in nodes:
            if a != b:
                p *= F(x - b) / F(a - b)
        r.append(p)
    return r


def astm_weights(ill, s0, n):
    """ASTM E308 weighting factors for samples every 10 nm from s0 (on the 360+10k grid)"""
    N = 43
    w = [[F(0)] * N for _ in range(3)]
    for x, p in products(ill, 1):
        j = min((x - 360) // 10, N - 2)
        if x == 360 + 10 * j:
            ws = {j: F(1)}
        elif x == 360 + 10 * (j + 1):
            ws = {j + 1: F(1)}
        else:
            ix = (0, 1, 2) if j == 0 else (N - 3, N - 2, N - 1) if j == N - 2 else (j - 1, j, j + 1, j + 2)
            ws = dict(zip(ix, lag([360 + 10 * i for i in ix], x)))
        for q, a in ws.items():
            for c in range(3):
                w[c][q] += a * p[c]
    # samples outside 360..780 play no part; weights beyond the samples go to the end samples
    r = [[F(0)] * n for _ in range(3)]
    first, last = max(0, (360 - s0) // 10), min(n - 1, (780 - s0) // 10)
    for i in range(N):
        q = min(max((360 + 10 * i - s0) // 10, first), last)
        for c in range(3):
            r[c][q] += w[c][i]
    return r


def xyz_goals(rd, ws, vals, tol):
    return [('XYZ'[c], near(real(o), add(*[mul(F(float(w)), v) for w, v in zip(ws[c], vals) if w]), tol)) for c, o in enumerate(rd.take('f64', 3))]


def uniform(s0, d, n):
    return [F(s0) + F(d) * k for k in range(n)]


@prop('P26')
def p26(tier):
    cs = []
    tol = F(1, 10 ** 5)
    q = tier == 'quick'
    # start, interval, samples, illuminants
    cfg = [(380, 5, 81, (3,)), (400, 5, 61, (0,)), (360, 5, 85, (1,)), (380, 10, 36, (3, 0)), (360, 10, 43, (2,)), (400, 10, 31, (3,)), (380, 20, 19, (3,)), (390, 4, 80, (3,)), (365, 10, 40, (3,)), (363, 10, 30, (1,)),
           (380, 10.9375, 33, (3,)), (380.5, 5, 70, (3,)), (300, 10, 54, (3,)), (340, 5, 90, (3,)), (400, 50, 7, (2,)), (500, 2.5, 30, (3,)), (360, 1, 421, (3,)), (430, 1, 200, (0,)), (380, 10, 40, (3,)), (400, 5.5, 50, (3,))]
    if not q:
        cfg += [(s, d, n, (0, 1, 2, 3)) for s in (340, 360, 380, 385, 402.5, 410) for d, n in ((1, 301), (3, 100), (5, 70), (5, 30), (10, 36), (10, 30), (10, 12), (15, 24), (20, 18))]
    for s0, d, n, ills in cfg:
        for k in ills:
            V = vs('v', n, 'f64')
            nm = uniform(s0, d, n)
            sm = [z for p in zip([k64(float(x)) for x in nm], V) for z in p]

            def chk(rd, s0=s0, d=d, n=n, k=k, V=V):
                if d == 10 and (s0 - 360) % 10 == 0:
                    ws = astm_weights(ILL[k], s0, n)
                else:
                    ws = integ_weights(ILL[k], 5 if d == 5 else 1, s0, d, n)
                return xyz_goals(rd, ws, rs(V), tol)
            cs.append(Case('%d samples from %g by %g, %s' % (n, s0, d, ILL[k]), 'h_to_xyz', slots(k, n, sm), chk, 24, boxes=box(V, -2, 2), inits=VINI))
    # symbolic illuminant as well: X * sum(S y) = 100 sum(S R x)
    for (s0, d, n), (t0, e, m) in [((400, 50, 7), (360, 60, 8)), ((400, 10, 9), (360, 60, 8)), ((500, 5, 10), (380, 50, 7))]:
        V, L = vs('v', n, 'f64'), vs('s', m, 'f64')
        sm = [z for p in zip([k64(float(x)) for x in uniform(s0, d, n)], V) for z in p]
        im = [z for p in zip([k64(float(x)) for x in uniform(t0, e, m)], L) for z in p]

        def bil(rd, s0=s0, d=d, n=n, t0=t0, e=e, m=m, V=V, L=L):
            st = 5 if d == 5 else 1
            o = rs(rd.take('f64', 3))
            W = []
            for j in range(m):
                tab = (t0, e, [F(int(j == z)) for z in range(m)])
                pr = [(x, [table_at(tab, x) * cie(b)[2][x - 360] for b in ('x_bar', 'y_bar', 'z_bar')]) for x in range(360, 781, st)]
                _prod['unit', st] = (None, pr)
                W.append((astm_weights('unit', s0, n) if d == 10 and (s0 - 360) % 10 == 0 else integ_weights('unit', st, s0, d, n), F(float(sum(p[1] for _, p in pr)))))
            Vr, Lr = rs(V), rs(L)
            D = add(*[mul(w[1], l) for w, l in zip(W, Lr)])
            return [('XYZ'[c], near(mul(o[c], D), add(*[mul(100, F(float(W[j][0][c][i])), Lr[j], Vr[i]) for j in range(m) for i in range(n) if W[j][0][c][i]]), F(1, 1000))) for c in range(3)]
        cs.append(Case('%d samples from %g by %g, any illuminant of %d samples' % (n, s0, d, m), 'h_to_xyz_ill', slots(n, sm, m, im), bil, 24, boxes={**box(V, -1, 1), **box(L, 0.5, 1)}, inits=VINI))
    return cs


@prop('P27')
def p27(tier):
    cs = []
    tol = F(1, 10 ** 5)
    # a perfect diffuser on any grid, regular or not
    v = var('v', 'f64')
    irr = lambda s, n, g: [s + g * i + [0, 1, -0.5, 2, 0.25][i % 5] for i in range(n)]
    for nm, name in [(irr(400, 8, 20), 'irregular 400..542'), (irr(370, 30, 14), 'irregular 370..'), (irr(300, 40, 15), 'irregular 300..'), ([400.0, 500.0, 750.0], '3 irregular'), ([380, 430], '2 samples'), ([400, 500, 600], '3 samples by 100'),
                     ([360 + 10.9375 * i for i in range(30)], 'by 10.9375'), ([365 + 10 * i for i in range(20)], '10 nm off the grid'), ([380 + 5 * i for i in range(4)], '4 by 5'), ([400 + 10 * i for i in range(12)], '12 by 10'), ([440 + i for i in range(5)], '5 by 1')]:
        for k in (3, 0) if tier == 'quick' else (0, 1, 2, 3):
            sm = [z for x in nm for z in (k64(float(x)), v)]

            def chk(rd, k=k):
                w = [sum(p[c] for _, p in products(ILL[k], 1)) for c in range(3)]
                return [('XYZ'[c], near(real(o), mul(F(float(w[c])), real(v)), F(1, 10 ** 5) if c == 1 else F(1, 100))) for c, o in enumerate(rd.take('f64', 3))]
            cs.append(Case('perfect diffuser, %s, %s' % (name, ILL[k]), 'h_to_xyz', slots(k, len(nm), sm), chk, 24, boxes=box([v], 0, 1), inits=VINI))
    # 10 nm data of every start and length: the weights beyond the samples go to the first and last one
    for a in range(360, 780, 10) if tier != 'quick' else (360, 370, 390, 420, 430, 440, 460, 490, 530, 600, 650, 720, 760, 770):
        for n in (2, 3, 7, 20, 40) if tier != 'quick' else (2, 5, 16):
            if a + 10 * n > 900:
                continue
            k = (a // 10 + n) % 4
            sm = [z for i in range(n) for z in (k64(a + 10.0 * i), v)]

            def chk(rd, k=k):
                w = [sum(p[c] for _, p in products(ILL[k], 1)) for c in range(3)]
                return [('XYZ'[c], near(real(o), mul(F(float(w[c])), real(v)), F(1, 10 ** 5) if c == 1 else F(1, 100))) for c, o in enumerate(rd.take('f64', 3))]
            cs.append(Case('perfect diffuser, %d from %d by 10, %s' % (n, a, ILL[k]), 'h_to_xyz', slots(k, n, sm), chk, 24, boxes=box([v], 0, 1), inits=VINI))
    # any illuminant
    for nm, il, name in [([400 + 50 * i for i in range(7)], [360 + 60 * i for i in range(8)], 'by 50'), ([380 + 5 * i for i in range(60)], [360 + 60 * i for i in range(8)], 'by 5'), ([380 + 10 * i for i in range(36)], [360 + 60 * i for i in range(8)], 'by 10'),
                         ([360 + 10 * i for i in range(43)], [380 + 70 * i for i in range(6)], 'full range by 10')]:
        L = vs('s', len(il), 'f64')
        sm = [z for x in nm for z in (k64(float(x)), v)]
        im = [z for x, y in zip(il, L) for z in (k64(float(x)), y)]

        def chk(rd):
            return [('Y is 100 for the perfect diffuser', near(real(rd.take('f64', 3)[1]), mul(100, real(v)), F(1, 10 ** 5)))]
        cs.append(Case('perfect diffuser, %s, any illuminant' % name, 'h_to_xyz_ill', slots(len(nm), sm, len(il), im), chk, 24, boxes={**box([v], 0, 1), **box(L, 0.5, 1)}, inits=VINI))
    return cs


@prop('P28', builds=('base', 'avx'))
def p28(tier):
    cs = []
    SINI = ('h_init_spd',)
    a, b = vs('a', 40, 'f32'), vs('b', 40, 'f32')

    def xyz(rd):
        ws = astm_weights('D65', 380, 40)
        return [('XYZ'[c], near(real(o), add(*[mul(F(float(w)), real(v)) for w, v in zip(ws[c], a)]), F(1, 1000))) for c, o in enumerate(rd.take('f32', 3))]
    for fn, bd in (('h_spd_xyz', 'base'), ('h_spd_xyz_scalar', 'base'), ('h_spd_xyz', 'avx'), ('h_spd_xyz_scalar', 'avx'), ('h_spd_xyz_avx', 'avx')):
        cs.append(Case('%s in the %s build' % (fn[2:], bd), fn, slots(a), xyz, 12, boxes=box(a, -1, 1), inits=SINI, build=bd, affine=True))
    # each sample alone, over the whole range of its weight
    for i in range(0, 40, 1):
        def one(rd, i=i, tol=None):
            ws = astm_weights('D65', 380, 40)
            return [('XYZ'[c], near(real(o), mul(F(float(ws[c][i])), real(a[i])), tol)) for c, o in enumerate(rd.take('f32', 3))]
        for fn, bd in (('h_spd_xyz', 'base'), ('h_spd_xyz', 'avx')):
            cs.append(Case('sample %d alone, %s build' % (i, bd), fn, slots([a[j] if j == i else ('f32', 0.0) for j in range(40)]), lambda rd, f=one, t=F(1, 2 * 10 ** 5): f(rd, tol=t), 12, boxes=box(a, 0, 1), inits=SINI, build=bd, affine=True))

    def mulc(rd):
        return [('product %d' % i, near(real(o), mul(real(x), real(y)), F(1, 10 ** 5))) for i, (o, x, y) in enumerate(zip(rd.take('f32', 40), a, b))]
    cs.append(Case('product of two spectra', 'h_spd_mul', slots(a, b), mulc, 160, boxes=box(a + b, -4, 4)))
    v = var('v', 'f32')
    cs.append(Case('constant spectrum', 'h_spd_const', slots(v), lambda rd: [('value %d' % i, same(o, v)) for i, o in enumerate(rd.take('f32', 40))], 160, boxes=box([v], -100, 100)))

    def it(rd):
        r = []
        for k in range(2):
            r += [('value %d' % i, near(real(o), mul(real(x), real(v)), F(1, 10 ** 4))) for i, (o, x) in enumerate(zip(rd.take('f32', 40), a))]
        return r
    cs.append(Case('iterating and changing in place', 'h_spd_iter', slots(a, v), it, 320, boxes=box(a + [v], -4, 4)))
    for i in range(40):
        x, y = var('x', 'f32'), var('y', 'f32')

        def eq(rd, x=x, y=y):
            r = Not(eqi(rd.one('i8'), 0))
            return [('equal exactly when sample %d is' % i, And(Implies(r, feq(x, y)), Implies(feq(x, y), r)))]
        A = [('f32', float(j)) for j in range(40)]
        cs.append(Case('equality, sample %d' % i, 'h_spd_eq', slots(A[:i] + [x] + A[i + 1:], A[:i] + [y] + A[i + 1:]), eq, 1, mode='fp', boxes=box([x, y], -4, 4)))
    return cs


@prop('P29')
def p29(tier):
    cs = []
    cfg = [(380, 5, 81), (400, 10, 31), (360, 1, 50), (555, 1, 3), (300, 20, 30), (700, 10, 20), (402.5, 5, 20)]
    if tier != 'quick':
        cfg += [(s, d, n) for s in (300, 361, 380, 500.5, 790) for d in (1, 2, 7, 10, 25) for n in (2, 5, 24)]
    for s0, d, n in cfg:
        V = vs('v', n, 'f64')
        nm = uniform(s0, d, n)
        sm = [z for p in zip([k64(float(x)) for x in nm], V) for z in p]

        def nit(rd, V=V, nm=nm, n=n):
            return [('683 times the mean of spectrum times luminous efficiency', near(real(rd.one('f64')), add(*[mul(F(683, n) * table_at(cie('y_bar'), x), real(v)) for x, v in zip(nm, V)]), F(1, 10 ** 6)))]
        cs.append(Case('luminance of %d samples from %g by %g' % (n, s0, d), 'h_nit', slots(n, sm), nit, 8, boxes=box(V, -2, 2), inits=VINI))
    return cs


@prop('P32')
def p32(tier):
    cs = []
    c = vs('c', 3, 'f64')
    UI = ('h_init_uplift',)

    def basis():
        if 'my' not in _prod:
            import json
            with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data', 'uplift.json')) as f:
                _prod['my'] = [[F(x) for x in t] for t in json.load(f)]
        return _prod['my']

    def up(rd):
        o = rd_vspd(rd)
        B = basis()
        if o.n != 81 or o.varying:
            return [('81 samples, evenly spaced', FALSE)]
        C = rs(c)
        return [('380..780 by 5', And(near(o.start, 380, 0), near(o.end, 780, 0), near(o.interval, 5, 0)))] + \
               [('sample %d' % i, And(near(o.nm[i], 380 + 5 * i, 0), near(o.v[i], add(*[mul(B[k][i], C[k]) for k in range(3)]), F(1, 10 ** 9)))) for i in range(81)]
    def tab(rd):
        g = []
        for src in ('function', 'constants'):
            for k in range(3):
                o = rd_vspd(rd)
                if o.n != 81 or o.varying:
                    return g + [('%s: basis %d has 81 samples, evenly spaced' % (src, k), FALSE)]
                g.append(('%s: basis %d' % (src, k), And(near(o.start, 380, 0), near(o.end, 780, 0), near(o.interval, 5, 0), *[And(near(o.nm[i], 380 + 5 * i, 0), near(o.v[i], basis()[k][i], F(1, 10 ** 9))) for i in range(81)])))
        return g
    cs.append(Case('basis spectra', 'h_uplift_basis', [], tab, 6 * (40 + 16 * 90), inits=UI))
    cs.append(Case('uplifted spectrum', 'h_uplift', slots(c), up, 40 + 16 * 90, boxes=box(c, -4, 4), inits=UI))
    return cs


def cmf_slots(X, Y, Z, t0, e):
    m = len(X)
    return [z for T in (X, Y, Z) for p in zip([k64(float(x)) for x in uniform(t0, e, m)], T) for z in p]


@prop('P36')
def p36(tier):
    """observers other than the built-in one"""
    cs = []
    e8 = F(1, 10 ** 8)
    q = tier == 'quick'
    for t0, e, m, a, b, t in [(400, 10, 6, 400, 450, 5), (400, 10, 7, 380, 480, 10), (402.5, 5, 6, 400, 430, 2.5), (380, 20, 6, 390, 440, 10), (360, 5, 8, 500, 520, 5)]:
        X, Y, Z = vs('x', m, 'f64'), vs('y', m, 'f64'), vs('z', m, 'f64')

        def al(rd, t0=t0, e=e, m=m, a=a, b=b, t=t, T=(X, Y, Z)):
            s0, s1 = rs(rd.take('f64', 2))
            if rd.k('i64'):
                return [('the observer is evenly sampled', FALSE)]
            g = [("the observer's range", And(near(s0, F(t0), 0), near(s1, F(t0) + F(e) * (m - 1), 0), near(real(rd.one('f64')), F(e), 0)))]
            xs = steps(a, b, t)
            for nm, V in zip('xyz', T):
                o = rd_vspd(rd)
                if o.varying or o.n != len(xs):
                    return [('one sample per wavelength of the shape', FALSE)]
                R = rs(V)
                g.append((nm + ' has the requested shape', And(near(o.start, F(a), 0), near(o.end, F(b), 0), near(o.interval, F(t), 0))))
                g += [('%s at %g' % (nm, x), And(near(o.nm[i], x, e8), near(o.v[i], spd_at(R, F(t0), F(e), m, x), e8))) for i, x in enumerate(xs)]
            return g
        cs.append(Case('align an observer of %d samples from %g by %g to %g..%g by %g' % (m, t0, e, a, b, t), 'h_cmf_align', slots(m, cmf_slots(X, Y, Z, t0, e), k64(a), k64(b), 0, k64(t)), al,
                       3000, boxes=box(X + Y + Z, -2, 2)))
    # the three curves sampled differently, one of them already on the requested grid
    G = [((400, 10, 6), (400, 5, 9), (410, 10, 6)), ((400, 5, 9), (400, 10, 6), (390, 10, 7)), ((400, 2, 6), (400, 10, 7), (400, 10, 6)), ((400, 10, 6), (400, 10, 6), (400, 10, 8))]
    for gi, grids in enumerate(G):
        for a, b, t in ((400, 450, 10), (400, 440, 5)) if q else ((400, 450, 10), (400, 440, 5), (410, 460, 10), (390, 460, 7)):
            T3 = [vs(nm, g[2], 'f64') for nm, g in zip('xyz', grids)]

            def al3(rd, a=a, b=b, t=t, T3=T3, grids=grids):
                xs, g = steps(a, b, t), []
                for nm, V, (t0, e, m) in zip('xyz', T3, grids):
                    o = rd_vspd(rd)
                    if o.varying or o.n != len(xs):
                        return [(nm + ': one sample per wavelength of the shape', FALSE)]
                    g += [('%s at %g' % (nm, x), And(near(o.nm[i], x, e8), near(o.v[i], spd_at(rs(V), F(t0), F(e), m, x), e8))) for i, x in enumerate(xs)]
                return g
            sl = [z for V, g in zip(T3, grids) for z in [g[2]] + [y for p in zip([k64(float(x)) for x in uniform(*g)], V) for y in p]]
            cs.append(Case('align an observer sampled %s to %g..%g by %g' % (grids, a, b, t), 'h_cmf_align3', slots(sl, k64(a), k64(b), 0, k64(t)), al3, 3000, boxes=box(sum(T3, []), -2, 2)))
    # spectrum to XYZ under a built-in illuminant
    for (s0, d, n), (t0, e, m), k in [((400, 50, 7), (360, 60, 8), 3), ((400, 10, 7), (360, 60, 8), 0), ((500, 5, 8), (380, 50, 7), 2), ((420, 1, 7), (400, 50, 7), 1), ((450, 10, 6), (410, 40, 8), 3)] + ([] if q else [((380, 10, 12), (360, 60, 8), 3), ((380, 20, 10), (350, 90, 6), 1)]):
        V = vs('v', n, 'f64')
        X, Y, Z = vs('x', m, 'f64'), vs('y', m, 'f64'), vs('z', m, 'f64')
        sm = [z for p in zip([k64(float(x)) for x in uniform(s0, d, n)], V) for z in p]

        def obs(rd, s0=s0, d=d, n=n, t0=t0, e=e, m=m, k=k, V=V, T=(X, Y, Z)):
            st = 5 if d == 5 else 1
            o = rs(rd.take('f64', 3))
            W = []
            for j in range(m):
                tab = (t0, e, [F(int(j == z)) for z in range(m)])
                pr = [(x, [table_at(tab, x) * table_at(cie(ILL[k]), x)] * 3) for x in range(360, 781, st)]
                _prod['unit', st] = (None, pr)
                W.append(((astm_weights('unit', s0, n) if d == 10 and (s0 - 360) % 10 == 0 else integ_weights('unit', st, s0, d, n))[0], F(float(sum(p[1] for _, p in pr)))))
            Vr, D = rs(V), add(*[mul(w[1], c) for w, c in zip(W, rs(T[1]))])
            return [('XYZ'[c], near(mul(o[c], D), add(*[mul(100, F(float(W[j][0][i])), real(T[c][j]), Vr[i]) for j in range(m) for i in range(n) if W[j][0][i]]), F(1, 100))) for c in range(3)]
        cs.append(Case('%d samples from %g by %g, %s, any observer of %d samples from %g by %g' % (n, s0, d, ILL[k], m, t0, e), 'h_to_xyz_cmf', slots(k, n, sm, m, cmf_slots(X, Y, Z, t0, e)), obs, 24,
                       boxes={**box(V, -1, 1), **box(X + Y + Z, 0.5, 1)}, inits=VINI))
    for (s0, d, n), (t0, e, m) in [((400, 10, 6), (380, 20, 7)), ((390, 5, 9), (400, 10, 6))]:
        V = vs('v', n, 'f64')
        X, Y, Z = vs('x', m, 'f64'), vs('y', m, 'f64'), vs('z', m, 'f64')
        sm = [z for p in zip([k64(float(x)) for x in uniform(s0, d, n)], V) for z in p]

        def nit(rd, s0=s0, d=d, n=n, t0=t0, e=e, m=m, V=V, Y=Y):
            R = rs(Y)
            return [('683 times the mean', near(real(rd.one('f64')), add(*[mul(F(683, n), real(v), spd_at(R, F(t0), F(e), m, x)) for v, x in zip(V, uniform(s0, d, n))]), F(1, 10 ** 6)))]
        cs.append(Case('luminance of %d samples from %g by %g, any observer from %g by %g' % (n, s0, d, t0, e), 'h_nit_cmf', slots(n, sm, m, cmf_slots(X, Y, Z, t0, e)), nit, 8, boxes=box(V + X + Y + Z, -2, 2)))
    return cs


# ---------------------------------------------------------------- whole pipelines
@prop('P37')
def p37(tier):
    cs = []
    q = tier == 'quick'
    v = var('v', 'f64')
    irr = [380 + 15 * i + (4 if i % 3 == 1 else 0) for i in range(28)]
    grids = [([400.0 + 10 * i for i in range(31)], '10 nm'), ([380.0 + 5 * i for i in range(81)], '5 nm'), (irr, 'irregular'), ([400, 550, 700], '3 samples'), ([360 + i for i in range(421)], '1 nm'), ([385 + 10.9375 * i for i in range(30)], '10.9375 nm')]
    j = 0
    for k in range(4):
        # the white point constants are rounded and D60's differs in the fourth place
        tol = F(6, 10000) if k < 2 else F(15, 10000) if k == 2 else F(2, 10000)
        for m in range(10):
            for nm, name in ([grids[j % len(grids)]] if q else grids):
                sm = [z for x in nm for z in (k64(float(x)), v)]

                def chk(rd, tol=tol):
                    return [('channel %s' % 'RGB'[c], near(real(o), real(v), tol)) for c, o in enumerate(rd.take('f64', 3))]
                cs.append(Case('neutral, %s, %s, %s' % (name, ILL[k], PMODELS[m]), 'h_pipe_rgb', slots(k, m, len(nm), sm), chk, 24, boxes=box([v], 0, 1), inits=VINI + ('h_init_models',)))
            j += 1
    u = var('u', 'f32')
    for m in (0, 2, 3, 5, 8, 9):    # the compact spectrum is always lit by D65
        def chk32(rd):
            return [('channel %s' % 'RGB'[c], near(real(o), real(u), F(1, 2000))) for c, o in enumerate(rd.take('f32', 3))]
        cs.append(Case('neutral, compact, D65, %s' % PMODELS[m], 'h_pipe_spd', slots(m, u), chk32, 12, boxes=box([u], 0, 1), affine=True, inits=('h_init_spd', 'h_init_models')))
    return cs


PMODELS = ('sRGB', 'sRGB (derived)', 'BT.709', 'BT.2020', 'DCI-P3', 'P3 D65', 'ACES', 'ACEScg', 'Adobe RGB', 'Alexa Wide Gamut')


@prop('P38')
def p38(tier):
    c = vs('c', 3, 'f64')
    ini = VINI + ('h_init_models', 'h_init_uplift', 'h_init_smits')

    def back(rd):
        return [('%s survives' % 'RGB'[i], near(real(o), real(x), F(3, 10000))) for i, (o, x) in enumerate(zip(rd.take('f64', 3), c))]

    def phys(rd):
        return [('value %d is a reflectance' % i, between(F(-1, 10 ** 6), real(o), 1 + F(1, 10 ** 6))) for i, o in enumerate(rd.take('f64', 81))]
    cs = [Case('uplifted and back, colours in gamut', 'h_pipe_uplift', slots(c), back, 24, boxes=box(c, 0, 1), inits=ini),
          Case('uplifted colours are reflectances', 'h_uplift_values', slots(c), phys, 8 * 81, boxes=box(c, 0, 1), inits=ini)]
    f = var('f', 'f64')
    for k, (n, w) in enumerate((('white', (1, 1, 1)), ('cyan', (0, 1, 1)), ('magenta', (1, 0, 1)), ('yellow', (1, 1, 0)), ('red', (1, 0, 0)), ('green', (0, 1, 0)), ('blue', (0, 0, 1)))):
        def sm(rd, w=w):
            return [('RGB'[i], near(real(o), mul(F(107, 100) * w[i], real(f)), F(5, 100))) for i, o in enumerate(rd.take('f64', 3))]
        cs.append(Case('Smits %s has its colour' % n, 'h_pipe_smits', slots(k, f), sm, 24, boxes=box([f], 0, 1), inits=ini))
    return cs
