"""Transfer curves: published formulas, inverses of each other, monotone."""
from common import *

CURVES = ('sRGB', 'BT.709', 'BT.2020', 'linear', 'Alexa LogC v3')
CUT = (F('0.0031308'), F('0.018'), F('0.018'), None, F('0.010591'))
FCUT = (F('0.040449936'), F('0.081'), F('0.081'), None, F('0.149658'))


def enc_lin(k, x):
    return (mul(F('12.92'), x), mul(F('4.5'), x), mul(F('4.5'), x), x, add(mul(F('5.367655'), x), F('0.092809')))[k]


def enc_pow(k, x):
    if k == 0:
        return sub(mul(F('1.055'), powr(x, F(5, 12))), F('0.055'))
    if k in (1, 2):
        return sub(mul(F('1.099'), powr(x, F('0.45'))), F('0.099'))
    if k == 3:
        return x
    return add(mul(F('0.247190'), fn('log10', add(mul(F('5.555556'), x), F('0.052272')))), F('0.385537'))


def dec_lin(k, x):
    return (div(x, F('12.92')), div(x, F('4.5')), div(x, F('4.5')), x, div(sub(x, F('0.092809')), F('5.367655')))[k]


def dec_pow(k, x):
    if k == 0:
        return powr(div(add(x, F('0.055')), F('1.055')), F('2.4'))
    if k in (1, 2):
        return powr(div(add(x, F('0.099')), F('1.099')), F(20, 9))
    if k == 3:
        return x
    return div(sub(powr(rc(10), div(sub(x, F('0.385537')), F('0.247190'))), F('0.052272')), F('5.555556'))


DELTA = {'f32': F(1, 10 ** 6), 'f64': F(1, 10 ** 7)}


def two_piece(o, x, cut, lin, pw, d, tol):
    """the published piecewise formula; either piece may be used within d of the junction"""
    if cut is None:
        return near(o, lin, 0)
    return Or(And(le(x, cut + d), near(o, lin, tol)), And(le(cut - d, x), near(o, pw, tol)))


def enc_goal(k, o, x, so, tol):
    return two_piece(o, x, CUT[k], enc_lin(k, x), enc_pow(k, x), DELTA[so], tol)


def dec_goal(k, o, x, so, tol):
    return two_piece(o, x, FCUT[k], dec_lin(k, x), dec_pow(k, x), DELTA[so], tol)


@prop('P09')
def p09(tier):
    cs = []
    for so in SORTS:
        b = BITS[so]
        for k, nm in enumerate(CURVES):
            x, c = var('x' + so, so), vs('c' + so, 3, so)
            for what, goal, lo, hi in (('encode', enc_goal, -1, 4 if k < 4 else 32), ('decode', dec_goal, -1 if k < 4 else F(-1, 4), 2 if k < 4 else F(5, 4))):
                tol = (F(1, 10 ** 4) if so == 'f32' else F(1, 10 ** 10)) * (1 if k < 4 or what == 'encode' else 100)

                def one(rd, so=so, goal=goal, k=k, x=x, tol=tol):
                    return [('published formula', goal(k, real(rd.one(so)), real(x), so, tol))]

                def three(rd, so=so, goal=goal, k=k, c=c, tol=tol):
                    return [('channel %d' % j, goal(k, real(o), real(y), so, tol)) for j, (o, y) in enumerate(zip(rd.take(so, 3), c))]
                cs.append(Case('%s %s, scalar: %s' % (what, nm, so), 'h_%s_t_%d' % (what[:3], b), slots(k, x), one, b // 8, boxes=box([x], float(lo), float(hi))))
                cs.append(Case('%s %s, RGB: %s' % (what, nm, so), 'h_%s_%d' % (what[:3], b), slots(k, c), three, 3 * b // 8, boxes=box(c, float(lo), float(hi))))
            # highlights and far below black; the tolerance grows with the value
            for what, goal, rng in (('encode', enc_goal, [(4, 64), (64, 1024), (-1024, -1)] if k < 4 else [(32, 256), (256, 4096), (-16, -1)]),
                                    ('decode', dec_goal, [(2, 16), (-64, -1)] if k < 4 else [(F(5, 4), F(3, 2)), (-4, F(-1, 4))])):
                for lo, hi in rng:
                    top = {'encode': abs(hi) if hi > 0 else abs(lo) * 13, 'decode': (hi ** 3 if k < 4 else 20000) if hi > 0 else abs(lo)}[what]
                    tol = (F(1, 10 ** 5) if so == 'f32' else F(1, 10 ** 11)) * F(top) * (1 if k < 4 or what == 'encode' else 10)

                    def one(rd, so=so, goal=goal, k=k, x=x, tol=tol):
                        return [('published formula', goal(k, real(rd.one(so)), real(x), so, tol))]
                    cs.append(Case('%s %s, %g to %g: %s' % (what, nm, lo, hi, so), 'h_%s_t_%d' % (what[:3], b), slots(k, x), one, b // 8, boxes=box([x], float(lo), float(hi))))
    return cs


@prop('P10')
def p10(tier):
    cs = []
    # the published constants leave a small step at the junction
    STEP_E = (F(1, 10 ** 6), F(2, 10 ** 4), F(2, 10 ** 4), None, F(1, 10 ** 4))
    STEP_D = (F(1, 10 ** 6), F(5, 10 ** 4), F(5, 10 ** 4), None, F(1, 10 ** 5))
    for so in SORTS:
        b = BITS[so]
        for k, nm in enumerate(CURVES):
            x, y = var('x' + so, so), var('y' + so, so)
            for what, fnn, cut, step, w, lo, hi in (('decode after encode', 'decenc', CUT[k], STEP_E[k], F(1, 10 ** 5), -1, 1 if k < 4 else 16),
                                                   ('encode after decode', 'encdec', FCUT[k], STEP_D[k], F(1, 1000), -1 if k < 4 else F(-1, 4), 1)):
                tol = F(1, 10 ** 4) if so == 'f32' else F(1, 10 ** 9)
                if k == 4:
                    tol = F(1, 100) if so == 'f32' else F(1, 10 ** 8)
                if step is not None:
                    step = max(step, tol)

                def rt(rd, so=so, x=x, cut=cut, step=step, w=w, tol=tol):
                    o, X = real(rd.one(so)), real(x)
                    if cut is None:
                        return [('identity', near(o, X, 0))]
                    return [('identity', Or(near(o, X, tol), And(between(cut - w, X, cut + w), near(o, X, step))))]
                cs.append(Case('%s %s: %s' % (what, nm, so), 'h_%s_%d' % (fnn, b), slots(k, x), rt, b // 8, boxes=box([x], float(lo), float(hi))))
            # highlights: the original returns up to a relative error
            for what, fnn, rng in (('decode after encode', 'decenc', ((1, 4), (4, 16), (16, 64), (64, 256)) if k < 4 else ((16, 64), (64, 256), (256, 1024))),
                                   ('encode after decode', 'encdec', ((1, 2), (2, 4), (4, 8)) if k < 4 else ((1, F(5, 4)),))):
                for lo, hi in rng:
                    tol = F(hi) * ((F(1, 10 ** 4) if so == 'f32' else F(1, 10 ** 9)) if k < 4 else (F(1, 1000) if so == 'f32' else F(1, 10 ** 8)))

                    def high(rd, so=so, x=x, tol=tol, k=k):
                        return [('identity', near(real(rd.one(so)), real(x), tol if k != 3 else 0))]
                    cs.append(Case('%s %s, %g to %g: %s' % (what, nm, lo, hi, so), 'h_%s_%d' % (fnn, b), slots(k, x), high, b // 8, boxes=box([x], float(lo), float(hi))))
            for what in ('enc', 'dec'):
                # up to the step the published constants leave at the junction
                eps = max(F(1, 10 ** 5) if so == 'f32' else F(1, 10 ** 10), {'enc': (F(1, 10 ** 6), 0, 0, 0, F(1, 10 ** 5)), 'dec': (F(1, 10 ** 7), F(1, 10 ** 4), F(1, 10 ** 4), 0, F(1, 10 ** 5))}[what][k])
                if what == 'dec' and k == 4 and so == 'f32':
                    eps = F(1, 100)

                def mono(rd, so=so, eps=eps):
                    p, q = rs(rd.take(so, 2))
                    return [('non-decreasing', le(p, add(q, eps)))]
                lo, hi = (-1, 1 if k < 4 else 16) if what == 'enc' else (-1 if k < 4 else -0.25, 1)
                cs.append(Case('%sode is non-decreasing %s: %s' % (what, nm, so), 'h_%s2_%d' % (what, b), slots(k, x, y), mono, b // 4, boxes=box([x, y], lo, hi), assume=[le(real(x), real(y))]))
                lo, hi = (1, 64) if what == 'enc' else (1, 4 if k < 4 else 1.25)
                if k == 4 and what == 'enc':
                    lo, hi = 16, 1024
                eps2 = max(eps, F(1, 10 ** 5) if so == 'f32' else F(1, 10 ** 9)) * (1 if what == 'enc' else 100)

                def mono2(rd, so=so, eps=eps2):
                    p, q = rs(rd.take(so, 2))
                    return [('non-decreasing', le(p, add(q, eps)))]
                cs.append(Case('%sode is non-decreasing %s, highlights: %s' % (what, nm, so), 'h_%s2_%d' % (what, b), slots(k, x, y), mono2, b // 4, boxes=box([x, y], lo, hi), assume=[le(real(x), real(y))]))
    return cs
