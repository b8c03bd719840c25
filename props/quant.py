"""Quantisation between float and integer storage, and precision conversion."""
from common import *


def fc(so, v):
    return const(so, f32bits(v) if so == 'f32' else f64bits(v))


def fle(x, v):
    return Term('fle', 'i1', None, (x, fc(x.sort, v)))


def fge(x, v):
    return Term('fle', 'i1', None, (fc(x.sort, v), x))


@prop('P01')
def p01(tier):
    cs = []
    for so in SORTS:
        for w, mx in (('8', 255), ('16', 65535)):
            xs = [var(n + so, so) for n in 'rgb']

            def special(rd, xs=xs, w=w, mx=mx, so=so):
                q = rd.take('i' + w, 3)
                g = []
                for i in range(3):
                    x, y = xs[i], q[i]
                    g.append(('NaN gives 0 [%d]' % i, Implies(isnan(x), eqi(y, 0))))
                    g.append(('x<=0 gives 0 [%d]' % i, Implies(fle(x, 0.0), eqi(y, 0))))
                    g.append(('x>=1 gives max [%d]' % i, Implies(fge(x, 1.0), eqi(y, mx))))
                return g

            def near_(rd, xs=xs, w=w, mx=mx):
                q = rd.take('i' + w, 3)
                g = []
                for i in range(3):
                    c = ite(lt(real(xs[i]), 0), 0, ite(lt(1, real(xs[i])), 1, real(xs[i])))
                    g.append(('nearest level [%d]' % i, near(mul(c, mx), real(q[i]), F(51, 100))))
                return g
            nm, fn, nb = '%s to u%s' % (so, w), 'h_q%s_%d' % (w, BITS[so]), 3 * int(w) // 8
            cs.append(Case('all floats incl. NaN and infinities: ' + nm, fn, slots(xs), special, nb, mode='fp', goal_timeout=120000, budget=300))
            cs.append(Case('nearest level: ' + nm, fn, slots(xs), near_, nb, boxes=box(xs, -1e30, 1e30)))
    return cs


@prop('P02')
def p02(tier):
    cs = []
    for so in SORTS:
        for w, mx in (('8', 255), ('16', 65535)):
            xs = [var(n + w, 'i' + w) for n in 'rgb']

            def ident(rd, xs=xs, w=w, so=so):
                rd.skip(so, 3)
                q = rd.take('i' + w, 3)
                return [('same level [%d]' % i, eqi(q[i], xs[i])) for i in range(3)]

            def unit(rd, xs=xs, w=w, so=so, mx=mx):
                f = rd.take(so, 3)
                return goals_near('x/max', f, [div(real(x), mx) for x in xs], F(1, 10 ** 6))
            fn = 'h_u%s_%d' % (w, BITS[so])
            nb = 3 * int(w) // 8 + 3 * BITS[so] // 8
            cs.append(Case('round trip u%s via %s' % (w, so), fn, slots(xs), ident, nb, boxes=box(xs, 0, mx)))
            cs.append(Case('u%s to %s is level/max' % (w, so), fn, slots(xs), unit, nb, boxes=box(xs, 0, mx)))
    return cs
