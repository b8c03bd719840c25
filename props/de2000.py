"""P17: the CIEDE2000 colour difference (Sharma, Wu, Dalal 2005)"""
import struct
from common import *
from fractions import Fraction

# hue differences (sums) this close to 180 (360) degrees may be resolved either way
SLACK = {'f64': F(1, 10 ** 6), 'f32': F(1, 100)}


def k_(so, v):
    """the constant as the type represents it"""
    return F(v) if so == 'f64' else F(struct.unpack('<f', struct.pack('<f', v))[0])


DEGC = {'f64': F(180.0 / 3.141592653589793), 'f32': k_('f32', 57.29577951308232)}
RADC = {'f64': F(3.141592653589793 / 180.0), 'f32': k_('f32', 0.017453292519943295)}


def ciede2000(so, l1, a1, b1, l2, a2, b2, up1, up2, dh, hb):
    """the published formula; up1/up2: b is negative (hue + 360), dh: correction of the hue difference,
    hb: correction of the hue sum"""
    DEG, RAD = DEGC[so], RADC[so]
    c = lambda v: k_(so, v)
    K = c(25.0 ** 7)
    c1, c2 = fn('hypot', a1, b1), fn('hypot', a2, b2)
    cb7 = powi(div(add(c1, c2), 2), 7)
    G = mul(F(1, 2), sub(1, sqrt(div(cb7, add(cb7, K)))))
    p1, p2 = mul(add(1, G), a1), mul(add(1, G), a2)
    C1, C2 = fn('hypot', p1, b1), fn('hypot', p2, b2)
    h1 = add(mul(DEG, fn('atan2', b1, p1)), 360 if up1 else 0)
    h2 = add(mul(DEG, fn('atan2', b2, p2)), 360 if up2 else 0)
    dL, dC = sub(l2, l1), sub(C2, C1)
    d = add(sub(h2, h1), dh)
    dH = mul(2, sqrt(mul(C1, C2)), fn('sin', mul(RAD, div(d, 2))))
    L, C = div(add(l1, l2), 2), div(add(C1, C2), 2)
    h = div(add(h1, h2, hb), 2)
    cosd = lambda x: fn('cos', mul(RAD, x))
    T = add(1, mul(c(-0.17), cosd(sub(h, 30))), mul(c(0.24), cosd(mul(2, h))), mul(c(0.32), cosd(add(mul(3, h), 6))), mul(c(-0.2), cosd(sub(mul(4, h), 63))))
    th = mul(30, fn('exp', neg(powi(div(sub(h, 275), 25), 2))))
    c7 = powi(C, 7)
    RC = mul(2, sqrt(div(c7, add(c7, K))))
    q = powi(sub(L, 50), 2)
    SL = add(1, div(mul(c(0.015), q), sqrt(add(20, q))))
    SC, SH = add(1, mul(c(0.045), C)), add(1, mul(c(0.015), C, T))
    RT = neg(mul(fn('sin', mul(RAD, 2, th)), RC))
    x, y, z = div(dL, SL), div(dC, SC), div(dH, SH)
    return add(powi(x, 2), powi(y, 2), powi(z, 2), mul(RT, mul(y, z))), (h1, h2)


def axis(so, r, l0):
    """the formula for a chromatic colour r and a neutral one of lightness l0: no hue difference"""
    K = k_(so, 25.0 ** 7)
    cb7 = powi(div(fn('hypot', r[1], r[2]), 2), 7)
    G = mul(F(1, 2), sub(1, sqrt(div(cb7, add(cb7, K)))))
    C = fn('hypot', mul(add(1, G), r[1]), r[2])
    q = powi(sub(div(add(r[0], l0), 2), 50), 2)
    SL = add(1, div(mul(k_(so, 0.015), q), sqrt(add(20, q))))
    SC = add(1, mul(k_(so, 0.045), div(C, 2)))
    return add(powi(div(sub(r[0], l0), SL), 2), powi(div(C, SC), 2)), C


def goal(so, A, B, s, tol):
    SL_ = SLACK[so]

    def check(rd):
        d = real(rd.one(so))
        alts = []
        for dh, hb, cond in ((0, 0, lambda d, m: le(absr(d), add(180, SL_))),
                             (-360, 360, lambda d, m: And(lt(sub(180, SL_), d), lt(m, add(360, SL_)))),
                             (-360, -360, lambda d, m: And(lt(sub(180, SL_), d), lt(sub(360, SL_), m))),
                             (360, 360, lambda d, m: And(lt(d, sub(SL_, 180)), lt(m, add(360, SL_)))),
                             (360, -360, lambda d, m: And(lt(d, sub(SL_, 180)), lt(sub(360, SL_), m)))):
            S, (h1, h2) = ciede2000(so, *A, *B, s[1] < 0, s[3] < 0, dh, hb)
            alts.append(And(cond(sub(h2, h1), add(h1, h2)), near(d, sqrt(S), tol)))
        return [('non-negative', le(0, d)), ('published formula', Or(*alts))]
    return check


def cases(so, tier):
    cs = []
    a, b = vs('p' + so, 3, so), vs('q' + so, 3, so)
    fnm, nb = 'h_de00_%d' % BITS[so], BITS[so] // 8

    def family(what, m, L1, L2, tol):
        """|a*| and |b*| in m[i] of both colours, every combination of signs"""
        for sg in range(16):
            s = [1 if sg >> k & 1 else -1 for k in range(4)]
            bx = {a[0].imm: L1, b[0].imm: L2}
            sl, ar, br = [a[0]], [real(a[0])], [real(b[0])]
            skip = False
            for i, (v, g, r) in enumerate(zip((a[1], a[2], b[1], b[2]), s, m)):
                x = v
                if r == 0:
                    skip = skip or g < 0
                    x = (so, 0.0)
                elif r[0] < 0:
                    # both signs in one case
                    skip = skip or g < 0
                    bx[v.imm] = r
                else:
                    bx[v.imm] = r if g > 0 else (-r[1], -r[0])
                if i == 2:
                    sl.append(b[0])
                sl.append(x)
                (ar if i < 2 else br).append(0 if r == 0 else real(v))
            if not skip:
                cs.append(Case('%s, hue quadrants %s: %s' % (what, ''.join('+' if x > 0 else '-' for x in s), so), fnm, slots(*sl), goal(so, ar, br, s, tol), nb, boxes=bx, opaque=True))
    n, w = (1, 128), (0.0625, 128)
    if so == 'f32':
        m = (4, 100) if tier == 'thorough' else (8, 60)
        family('first colour on the a* axis', (m, 0, m, m), (0, 45), (55, 100), F(1, 2))
        m = (8, 40)
        family('muted colours', (m, m, m, m), (0, 45), (55, 100), F(1, 10))
    else:
        family('chromatic colours', (w, w, w, w), (0, 100), (0, 100), F(1, 100))
        family('lighter and darker', (w, w, w, w), (50, 110), (0, 49), F(1, 10 ** 4))
        family('darker and lighter', (n, n, n, n), (0, 49), (50, 110), F(1, 10 ** 5))
        family('first colour near the b* axis', ((-1, 1), n, n, n), (0, 49), (50, 100), F(1, 10 ** 5))
        family('second colour near the b* axis', (n, n, (-1, 1), n), (0, 100), (0, 100), F(1, 100))
        family('first colour on the a* axis', (n, 0, n, n), (0, 100), (0, 100), F(1, 100))
        family('both colours on the a* axis', (n, 0, n, 0), (0, 100), (0, 100), F(1, 100))
        family('small differences of muted colours', ((1, 30), (1, 30), (1, 30), (1, 30)), (0, 100), (0, 100), F(1, 1000))

    def zero(rd, so=so):
        return [('zero for equal colours', near(real(rd.one(so)), 0, 0))]
    for sg in range(4):
        g = [(n if sg >> k & 1 else (-128, -1)) for k in range(2)]
        cs.append(Case('equal colours, quadrant %d: %s' % (sg, so), fnm, slots(a, a), zero, nb, boxes={a[0].imm: (0, 100), a[1].imm: g[0], a[2].imm: g[1]}, opaque=True))

    def grey(rd, so=so):
        d = real(rd.one(so))
        x, y = real(a[0]), real(b[0])
        q = powi(sub(div(add(x, y), 2), 50), 2)
        SL = add(1, div(mul(k_(so, 0.015), q), sqrt(add(20, q))))
        return [('non-negative', le(0, d)), ('lightness difference of two greys', near(d, sqrt(powi(div(sub(y, x), SL), 2)), F(1, 10 ** 5) if so == 'f64' else F(1, 10)))]
    z = (so, 0.0)
    for sg in range(8):
        sa, sb, first = [sg >> k & 1 for k in range(3)]

        def one(rd, so=so, first=first):
            d = real(rd.one(so))
            r = rs(a)
            l0 = real(b[0])
            S, C = axis(so, r, l0)
            return [('non-negative', le(0, d)), ('published formula', near(d, sqrt(S), F(1, 100) if so == 'f64' else 1))]
        bx = {a[0].imm: (0, 100), b[0].imm: (0, 100), a[1].imm: w if sa else (-128, -0.0625), a[2].imm: w if sb else (-128, -0.0625)}
        sl = slots(a, b[0], z, z) if first else slots(b[0], z, z, a)
        cs.append(Case('%s neutral, hue quadrant %s: %s' % ('second' if first else 'first', '-+'[sa] + '-+'[sb], so), fnm, sl, one, nb, boxes=bx, opaque=True))
    cs.append(Case('greys: ' + so, fnm, slots(a[0], z, z, b[0], z, z), grey, nb, boxes={a[0].imm: (0, 100), b[0].imm: (0, 100)}, opaque=True))
    return cs


@prop('P17')
def p17(tier):
    return cases('f64', tier) + cases('f32', tier)
