"""CIE L*a*b*, colour differences, daylight chromaticity."""
from common import *

EPS, KAPPA = F(216, 24389), F(24389, 27)


def fwd(t):
    return ite(lt(EPS, t), powr(t, F(1, 3)), div(add(mul(KAPPA, t), 16), 116))


def inv3(f):
    """inverse of fwd"""
    return ite(lt(F(6, 29), f), powi(f, 3), div(sub(mul(116, f), 16), KAPPA))


def lab_of(c, w):
    f = [fwd(div(x, y)) for x, y in zip(c, w)]
    return [sub(mul(116, f[1]), 16), mul(500, sub(f[0], f[1])), mul(200, sub(f[1], f[2]))]


def xyz_of(l, w):
    fy = div(add(l[0], 16), 116)
    return [mul(inv3(x), y) for x, y in zip([add(fy, div(l[1], 500)), fy, sub(fy, div(l[2], 200))], w)]


WB = ((85, 110), (95, 105), (40, 120))


@prop('P14')
def p14(tier):
    cs = []
    for so in SORTS:
        c, w = vs('c' + so, 3, so), vs('w' + so, 3, so)
        tol = F(1, 10) if so == 'f32' else F(1, 10 ** 8)
        bw = {v.imm: WB[i] for i, v in enumerate(w)}
        for nm, hi in (('0..150', 150),):
            def check(rd, c=c, w=w, so=so, tol=tol):
                return goals_near('L*a*b*', rd.take(so, 3), lab_of(rs(c), rs(w)), tol)
            cs.append(Case('XYZ to Lab %s: %s' % (nm, so), 'h_to_lab_%d' % BITS[so], slots(c, w), check, 3 * BITS[so] // 8, boxes={**bw, **box(c, 0, hi)}))
        l = vs('l' + so, 3, so)
        tol = F(1, 10) if so == 'f32' else F(1, 10 ** 8)

        def back(rd, l=l, w=w, so=so, tol=tol):
            return goals_near('XYZ', rd.take(so, 3), xyz_of(rs(l), rs(w)), tol)
        cs.append(Case('Lab to XYZ: ' + so, 'h_from_lab_%d' % BITS[so], slots(l, w), back, 3 * BITS[so] // 8, boxes={**bw, l[0].imm: (0, 110), l[1].imm: (-128, 128), l[2].imm: (-128, 128)}))
    return cs


@prop('P15')
def p15(tier):
    cs = []
    for so in SORTS:
        c, w, l = vs('c' + so, 3, so), vs('w' + so, 3, so), vs('l' + so, 3, so)
        tol = F(1, 10) if so == 'f32' else F(1, 10 ** 8)
        bw = {v.imm: WB[i] for i, v in enumerate(w)}

        def rt(rd, c=c, so=so, tol=tol):
            return goals_near('XYZ to Lab to XYZ', rd.take(so, 3), rs(c), tol)
        cs.append(Case('XYZ to Lab to XYZ: ' + so, 'h_lab_rt_%d' % BITS[so], slots(c, w), rt, 3 * BITS[so] // 8, boxes={**bw, **box(c, 0, 150)}))

        def tr(rd, l=l, so=so, tol=tol):
            return goals_near('Lab to XYZ to Lab', rd.take(so, 3), rs(l), tol)
        cs.append(Case('Lab to XYZ to Lab: ' + so, 'h_lab_tr_%d' % BITS[so], slots(l, w), tr, 3 * BITS[so] // 8, boxes={**bw, l[0].imm: (0, 110), l[1].imm: (-128, 128), l[2].imm: (-128, 128)}))

        def white(rd, so=so, tol=tol):
            return goals_near('white', rd.take(so, 3), [100, 0, 0], tol)
        cs.append(Case('reference white is (100,0,0): ' + so, 'h_to_lab_%d' % BITS[so], slots(w, w), white, 3 * BITS[so] // 8, boxes=bw))
    return cs


@prop('P16')
def p16(tier):
    cs = []
    for so in SORTS:
        a, b = vs('a' + so, 3, so), vs('b' + so, 3, so)
        bx = {v.imm: ((0, 100), (-128, 128), (-128, 128))[i] for w in (a, b) for i, v in enumerate(w)}

        for sc, tol in ((128, F(1, 2) if so == 'f32' else F(1, 10 ** 4)), (2, F(1, 100) if so == 'f32' else F(1, 10 ** 6)), (0.0625, F(1, 2000) if so == 'f32' else F(1, 10 ** 7))):
            def check(rd, a=a, b=b, so=so, tol=tol):
                d = real(rd.one(so))
                q = add(*[powi(sub(x, y), 2) for x, y in zip(rs(a), rs(b))])
                return [('non-negative', le(0, d)), ('distance', near(d, sqrt(q), tol))]
            cs.append(Case('Euclidean distance, components up to %g: %s' % (sc, so), 'h_de76_%d' % BITS[so], slots(a, b), check, BITS[so] // 8, boxes=box(a + b, -sc, sc)))

        def zero(rd, so=so):
            return [('zero for equal colours', near(real(rd.one(so)), 0, 0))]
        cs.append(Case('equal colours: ' + so, 'h_de76_%d' % BITS[so], slots(a, a), zero, BITS[so] // 8, boxes={k: v for k, v in bx.items() if k.startswith('a')}))
    return cs


@prop('P18')
def p18(tier):
    cs = []
    for so in SORTS:
        t = var('t' + so, so)
        tol = F(1, 10 ** 4) if so == 'f32' else F(1, 10 ** 11)
        T = real(t)

        def loc(c, T=T):
            x = add(div(c[0], powi(T, 3)), div(c[1], powi(T, 2)), div(c[2], T), c[3])
            return x
        lowc = (F('-4.607e9'), F('2.9678e6'), F('99.11'), F('0.244063'))
        highc = (F('-2.0064e9'), F('1.9018e6'), F('247.48'), F('0.237040'))

        def check(rd, so=so, c=None, tol=tol, T=T):
            ok = rd.k('i64')
            if not ok:
                return [('accepted', FALSE)]
            x, y, Y = rs(rd.take(so, 3))
            xd = loc(c, T)
            return [('x on the daylight locus', near(x, xd, tol)), ('y on the daylight locus', near(y, add(mul(-3, x, x), mul(F('2.87'), x), F('-0.275')), tol)), ('Y=1', near(Y, 1, 0))]
        fn, nb = 'h_cct_%d' % BITS[so], 8 + 3 * BITS[so] // 8
        import functools
        cs.append(Case('4000..7000 K: ' + so, fn, slots(t), functools.partial(check, so=so, c=lowc, tol=tol, T=T), nb, boxes=box([t], 4000, 7000)))
        cs.append(Case('7000..25000 K: ' + so, fn, slots(t), functools.partial(check, so=so, c=highc, tol=tol, T=T), nb, boxes=box([t], 7000.001 if so == 'f64' else 7000.01, 25000)))

        def rej(rd):
            return [('out-of-range temperature is an error', FALSE if rd.k('i64') else TRUE)]

        def special(rd, t=t):
            ok = rd.k('i64')
            inr = And(Term('fle', 'i1', None, (const(t.sort, fb(t.sort, 4000.0)), t)), Term('fle', 'i1', None, (t, const(t.sort, fb(t.sort, 25000.0)))))
            return [('accepts exactly 4000..25000 K', inr if ok else Not(inr))]
        cs.append(Case('every float: ' + so, fn, slots(t), special, nb, mode='fp'))
    return cs


def fb(so, v):
    return f32bits(v) if so == 'f32' else f64bits(v)
