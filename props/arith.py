"""Component-wise arithmetic of colour triples, helpers, indexing, slice casts, comparison."""
from common import *


def T2(op, a, b):
    return Term(op, a.sort, None, (a, b))


def T1(op, a):
    return Term(op, a.sort, None, (a,))


def fconst(so, v):
    return const(so, f32bits(v) if so == 'f32' else f64bits(v))


@prop('P03')
def p03(tier):
    cs = []
    for so in SORTS:
        a, b, s = vs('a' + so, 3, so), vs('b' + so, 3, so), var('s' + so, so)
        for kind in ('rgb', 'xyz'):
            def check(rd, a=a, b=b, s=s, so=so, kind=kind):
                g = []

                def grp(nm, spec):
                    o = rd.take(so, len(spec))
                    for i in range(len(spec)):
                        g.append(('%s[%d]' % (nm, i), same(o[i], spec[i])))
                for nm, op in (('a+b', 'fadd'), ('a-b', 'fsub'), ('a*b', 'fmul'), ('a/b', 'fdiv')):
                    grp(nm, [T2(op, x, y) for x, y in zip(a, b)])
                for nm, op in (('a+s', 'fadd'), ('a-s', 'fsub'), ('a*s', 'fmul'), ('a/s', 'fdiv')):
                    grp(nm, [T2(op, x, s) for x in a])
                grp('-a', [T1('fneg', x) for x in a])
                grp('abs', [T1('fabs', x) for x in a])
                grp('a+=b', [T2('fadd', x, y) for x, y in zip(a, b)])
                grp('from_scalar', [s, s, s])
                grp('new', a)
                grp('short constructor', a)
                grp('zero', [fconst(so, 0.0)] * 3)
                grp('one', [fconst(so, 1.0)] * 3)
                grp('index assignment', [b[2], b[0], b[1]])
                grp('index', a)
                return g
            cs.append(Case('%s operators, %s' % (kind, so), 'h_%s_ops_%d' % (kind, BITS[so]), slots(a, b, s), check, 54 * BITS[so] // 8, mode='fp', goal_timeout=60000, budget=200))

        def cmp_(rd, a=a, b=b):
            e1, e2, z1, z2 = rd.take('i8', 4)
            eq = And(*[feq(x, y) for x, y in zip(a, b)])
            zr = And(*[feq(x, fconst(x.sort, 0.0)) for x in a])
            return [(n, iff(nz(e), c)) for n, e, c in (('rgb ==', e1, eq), ('xyz ==', e2, eq), ('rgb is_zero', z1, zr), ('xyz is_zero', z2, zr))]
        cs.append(Case('comparison, ' + so, 'h_cmp_%d' % BITS[so], slots(a, b), cmp_, 4, mode='fp', budget=200))

        # helpers
        lo, hi = var('lo' + so, so), var('hi' + so, so)

        def misc(rd, a=a, lo=lo, hi=hi, so=so):
            m = real(rd.one(so))
            n = rd.take(so, 3)
            c = rd.take(so, 4)
            ra = rs(a)
            g = [('hmax is an upper bound[%d]' % i, le(ra[i], m)) for i in range(3)]
            g.append(('hmax is attained', Or(*[And(le(m, x), le(x, m)) for x in ra])))
            mx = ite(lt(ra[0], ra[1]), ite(lt(ra[1], ra[2]), ra[2], ra[1]), ite(lt(ra[0], ra[2]), ra[2], ra[0]))
            g += [('normalize[%d]' % i, Implies(gt(mx, F(1, 64)), near(real(n[i]), div(ra[i], ite(gt(mx, F(1, 64)), mx, 1)), F(1, 50) if so == 'f32' else F(1, 10 ** 8)))) for i in range(3)]
            for i in range(4):
                x = ra[i % 3]
                g.append(('clamp[%d]' % i, near(real(c[i]), ite(lt(x, real(lo)), real(lo), ite(gt(x, real(hi)), real(hi), x)), 0)))
            return g
        cs.append(Case('hmax, normalize, clamp: ' + so, 'h_rgb_misc_%d' % BITS[so], slots(a, lo, hi), misc, 8 * BITS[so] // 8,
                       boxes={**box(a, -1000, 1000), **box([lo, hi], -1000, 1000)}, assume=[le(real(lo), real(hi))]))
        e = var('e' + so, so)

        def powf(rd, a=a, e=e, so=so):
            o = rd.take(so, 3)
            return goals_near('powf', o, [powr(x, real(e)) for x in rs(a)], F(1, 100))
        cs.append(Case('powf: ' + so, 'h_rgb_powf_%d' % BITS[so], slots(a, e), powf, 3 * BITS[so] // 8, boxes={**box(a, 0.001, 10), **box([e], 0.1, 3)}))

    a, s = vs('af32', 3, 'f32'), var('sf32', 'f32')

    def lhs(rd):
        g = []
        for nm, op in (('s+a', 'fadd'), ('s-a', 'fsub'), ('s*a', 'fmul'), ('s/a', 'fdiv')):
            o = rd.take('f32', 3)
            g += [('%s[%d]' % (nm, i), same(o[i], T2(op, s, a[i]))) for i in range(3)]
        rd.skip('f32', 1)
        g.append(('sqr', same(rd.one('f32'), T2('fmul', s, s))))
        g.append(('abs', same(rd.one('f32'), T1('fabs', s))))
        return g
    cs.append(Case('scalar on the left', 'h_rgb_lhs_32', slots(s, a), lhs, 15 * 4, mode='fp', goal_timeout=60000, budget=200))

    def lerp(rd):
        rd.skip('f32', 12)
        o = real(rd.one('f32'))
        t, x, y = real(s), real(a[0]), real(a[1])
        return [('lerp', near(o, add(mul(sub(1, t), x), mul(t, y)), F(1, 1000)))]
    cs.append(Case('lerp', 'h_rgb_lhs_32', slots(s, a), lerp, 15 * 4, boxes={**box(a, -1000, 1000), **box([s], 0, 1)}))
    for so in SORTS:
        a3 = vs('a' + so, 3, so)

        def lim(rd, a=a3, so=so):
            mx = {'f32': 3.4028234663852886e38, 'f64': 1.7976931348623157e308}[so]
            g = []
            for k, nm in enumerate(('RGB minimum', 'RGB maximum', 'XYZ minimum', 'XYZ maximum')):
                g += [('%s[%d]' % (nm, i), same(o, fconst(so, -mx if k % 2 == 0 else mx))) for i, o in enumerate(rd.take(so, 3))]
            return g + [('unchanged[%d]' % i, same(o, x)) for i, (o, x) in enumerate(zip(rd.take(so, 3), a))]
        cs.append(Case('least and greatest colours: ' + so, 'h_consts_%d' % BITS[so], slots(a3), lim, 15 * BITS[so] // 8, mode='fp', budget=20))
    cf, c8, c16, cd = vs('cf', 4, 'f32'), vs('c8', 3, 'i8'), vs('c16', 3, 'i16'), vs('cd', 3, 'f64')

    def ctors(rd):
        g = [('rgbf32[%d]' % i, same(o, x)) for i, (o, x) in enumerate(zip(rd.take('f32', 3), cf))]
        g += [('rgbaf32[%d]' % i, same(o, x)) for i, (o, x) in enumerate(zip(rd.take('f32', 4), cf))]
        g += [('rgbu8[%d]' % i, eqi(o, x)) for i, (o, x) in enumerate(zip(rd.take('i8', 3), c8))]
        g += [('rgbu16[%d]' % i, eqi(o, x)) for i, (o, x) in enumerate(zip(rd.take('i16', 3), c16))]
        g += [('rgbf64[%d]' % i, same(o, x)) for i, (o, x) in enumerate(zip(rd.take('f64', 3), cd))]
        return g
    cs.append(Case('short constructors', 'h_ctors', slots(cf, c8, c16, cd), ctors, 28 + 3 + 6 + 24, mode='fp', budget=100))
    for fn, so in (('h_rgb_sum_32', 'f32'), ('h_rgb_sum_64', 'f64'), ('h_xyz_sum_32', 'f32')):
        for n in ((0, 1, 4) if tier == 'quick' else (0, 1, 2, 3, 4, 8, 16)):
            v = vs('v' + so, 3 * n, so)

            def summ(rd, v=v, n=n, so=so):
                o = rd.take(so, 3)
                return goals_near('sum', o, [add(0, *[real(v[3 * i + k]) for i in range(n)]) for k in range(3)], F(1, 100))
            cs.append(Case('%s of %d' % (fn, n), fn, slots(n, v), summ, 3 * BITS[so] // 8, boxes=box(v, -1000, 1000)))
    return cs


def nz(b):
    return Not(eqi(b, 0))


def iff(a, b):
    return And(Implies(a, b), Implies(b, a))


@prop('P30')
def p30(tier):
    """indexing and slice reinterpretation"""
    cs = []
    k = var('k', 'i64')
    j = var('j', 'i64')
    for fn, so in (('h_rgb_index', 'f32'), ('h_xyz_index', 'f64'), ('h_rgb_index_64', 'f64'), ('h_xyz_index_32', 'f32')):
        a = vs('a' + so, 3, so)

        def idx(rd, a=a, so=so):
            o = rd.one(so)
            return [('element %d' % i, Implies(eqi(k, i), same(o, a[i]))) for i in range(3)]
        cs.append(Case(fn, fn, slots(a, k), idx, BITS[so] // 8, mode='fp', panic=Not(Term('bvult', 'i1', None, (k, const('i64', 3)))), budget=100))
    m = vs('mf64', 9, 'f64')

    def midx(rd):
        o = rd.one('f64')
        return [('element %d,%d' % (r, c), Implies(And(eqi(k, r), eqi(j, c)), same(o, m[3 * r + c]))) for r in range(3) for c in range(3)]
    cs.append(Case('h_mat_index', 'h_mat_index', slots(m, k, j), midx, 8, mode='fp', boxes=box([k, j], 0, 8),
                   panic=Not(And(Term('bvult', 'i1', None, (k, const('i64', 3))), Term('bvult', 'i1', None, (j, const('i64', 3))))), budget=100))
    out = lambda t, n: Not(Term('bvult', 'i1', None, (t, const('i64', n))))
    for so in SORTS:
        w = var('w' + so, so)
        for nm in ('rgb', 'xyz'):
            a = vs('a' + so, 3, so)

            def put(rd, a=a, so=so, w=w):
                return [('component %d' % i, And(Implies(eqi(k, i), same(o, w)), Implies(Not(eqi(k, i)), same(o, a[i])))) for i, o in enumerate(rd.take(so, 3))]
            cs.append(Case('writing through an index of %s: %s' % (nm, so), 'h_%s_set_%d' % (nm, BITS[so]), slots(a, k, w), put, 3 * BITS[so] // 8, mode='fp', panic=out(k, 3), budget=100))
        a = vs('m' + so, 9, so)

        def mput(rd, a=a, so=so, w=w):
            at = lambda i: And(eqi(k, i // 3), eqi(j, i % 3))
            return [('element %d' % i, And(Implies(at(i), same(o, w)), Implies(Not(at(i)), same(o, a[i])))) for i, o in enumerate(rd.take(so, 9))]
        cs.append(Case('writing through an index of a matrix: %s' % so, 'h_mat_set_%d' % BITS[so], slots(a, k, j, w), mput, 9 * BITS[so] // 8, mode='fp', boxes=box([k, j], 0, 8), panic=Or(out(k, 3), out(j, 3)), budget=100))
    for fn, so in (('h_cast_f32', 'f32'), ('h_cast_f64', 'f64'), ('h_cast_u8', 'i8')):
        for n in (range(0, 10) if tier == 'quick' else range(0, 25)):
            v = vs('v' + so, n, so)

            def cast(rd, v=v, n=n, so=so):
                ln = rd.one('i64')
                o = rd.take(so, n)
                return [('length', eqi(ln, n // 3))] + [('element %d' % i, (eqi if so == 'i8' else same)(o[i], v[i])) for i in range(n)]
            sz = 1 if so == 'i8' else BITS[so] // 8
            cs.append(Case('%s len %d' % (fn, n), fn, slots(n, v), cast, 8 + n * sz, mode='fp', panic=FALSE if n % 3 == 0 else TRUE, budget=60))
    return cs


@prop('P33')
def p33(tier):
    """approximate equality with an absolute margin"""
    cs = []
    for so in SORTS:
        a, b, e = vs('a' + so, 3, so), vs('b' + so, 3, so), var('e' + so, so)

        def close(i, a=a, b=b, e=e):
            return Or(feq(a[i], b[i]), Term('fle', 'i1', None, (T1('fabs', T2('fsub', a[i], b[i])), e)))

        def check(rd, close=close):
            o = rd.take('i8', 2)
            return [(nm + ' equal exactly when every component is within the margin', iff(nz(r), And(close(0), close(1), close(2)))) for nm, r in zip(('rgb', 'xyz'), o)]
        cs.append(Case('approx_eq ' + so, 'h_rgb_approx_%d' % BITS[so], slots(a, b, e), check, 2, mode='fp', goal_timeout=60000, budget=200,
                       boxes={**box(a + b, -1e30, 1e30), **box([e], 0, 1e30)}))
        u = var('u' + so, 'i%d' % BITS[so])

        def each(rd):
            r = rd.take('i8', 5)
            return [(nm + ' equal exactly when every component is', iff(nz(o), And(*[nz(x) for x in r[2:]]))) for nm, o in zip(('rgb', 'xyz'), r)]
        cs.append(Case('approx_eq with any margin ' + so, 'h_approx_ulps_%d' % BITS[so], slots(a, b, e, u), each, 5, mode='fp', goal_timeout=60000, budget=400))
    return cs


@prop('P34')
def p34(tier):
    """scalar helpers"""
    cs = []
    for so in SORTS:
        x, y, z = var('x' + so, so), var('y' + so, so), var('z' + so, so)

        def helpers(rd, x=x, y=y, so=so):
            o = rd.take(so, 12)
            f = lambda nm, *a: Term(nm, so, None, a)
            spec = [('sqrt', f('sqrt', x)), ('sqr', f('fmul', x, x)), ('abs', f('fabs', x)), ('sin', f('sin', x)), ('asin', f('asin', x)), ('cos', f('cos', x)), ('acos', f('acos', x)), ('tan', f('tan', x)),
                    ('atan2', f('atan2', x, y)), ('exp', f('exp', x)), ('pow', f('pow', x, y)), ('hypot', f('hypot', x, y))]
            return [(n, same(a, t)) for a, (n, t) in zip(o, spec)]
        cs.append(Case('helpers: ' + so, 'h_math_%d' % BITS[so], slots(x, y), helpers, 12 * BITS[so] // 8, mode='fp', budget=200))

        def clamp(rd, x=x, a=y, b=z, so=so):
            o = rd.one(so)
            return [('below', Implies(flt(x, a), same(o, a))), ('above', Implies(And(Not(flt(x, a)), flt(b, x)), same(o, b))), ('inside', Implies(And(Not(flt(x, a)), Not(flt(b, x))), same(o, x)))]
        cs.append(Case('clamp: ' + so, 'h_math_clamp_%d' % BITS[so], slots(x, y, z), clamp, BITS[so] // 8, mode='fp', assume=[fle(y, z)], budget=200))
        for k in (0, 1, 2, 3, 5, 7, -1, -2) if tier == 'quick' else range(-8, 13):
            def pw(rd, x=x, k=k, so=so):
                r = real(x)
                e = powi(r, abs(k))
                return [('powi', near(real(rd.one(so)), div(1, e) if k < 0 else e, F(1, 10 ** 3) if so == 'f32' else F(1, 10 ** 9)))]
            cs.append(Case('powi %d: %s' % (k, so), 'h_math_powi_%d' % BITS[so], slots(x, k % 2 ** 64), pw, BITS[so] // 8, boxes=box([x], 0.5, 2)))
            cs.append(Case('powi %d, negative: %s' % (k, so), 'h_math_powi_%d' % BITS[so], slots(x, k % 2 ** 64), pw, BITS[so] // 8, boxes=box([x], -2, -0.5)))
    return cs


@prop('P35')
def p35(tier):
    """narrowing from f64 to f32"""
    c, m, x = vs('c', 3, 'f64'), vs('m', 9, 'f64'), vs('x', 3, 'f64')

    def down(rd):
        o = rd.take('f32', 15)
        nm = ['RGB'[i] for i in range(3)] + ['matrix %d' % i for i in range(9)] + ['XYZ'[i] for i in range(3)]
        return [('%s is the nearest f32' % n, same(a, Term('fptrunc', 'f32', None, (v,)))) for n, a, v in zip(nm, o, c + m + x)]
    return [Case('narrowing', 'h_down', slots(c, m, x), down, 60, mode='fp', budget=200)]
