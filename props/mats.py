"""3x3 matrices, chromatic adaptation, xyY."""
import itertools
from common import *


@prop('P04')
def p04(tier):
    cs = []
    for so in SORTS:
        a, b, v, s = vs('a' + so, 9, so), vs('b' + so, 9, so), vs('v' + so, 3, so), var('s' + so, so)
        tol = F(1, 10) if so == 'f32' else F(1, 10 ** 8)

        def check(rd, a=a, b=b, v=v, s=s, so=so, tol=tol):
            A, Bm, V, S = rs(a), rs(b), rs(v), real(s)
            g = goals_near('a*b', rd.take(so, 9), matmul(A, Bm), tol)
            tr = [A[3 * j + i] for i in range(3) for j in range(3)]
            g += goals_near('transposed', rd.take(so, 9), tr, 0)
            g += goals_near('determinant', rd.take(so, 1), [det3(A)], tol * 100)
            g += goals_near('a*xyz', rd.take(so, 3), matvec(A, V), tol)
            g += goals_near('a*rgb', rd.take(so, 3), matvec(A, V), tol)
            g += goals_near('a+s', rd.take(so, 9), [add(x, S) for x in A], tol)
            g += goals_near('a-s', rd.take(so, 9), [sub(x, S) for x in A], tol)
            g += goals_near('a*s', rd.take(so, 9), [mul(x, S) for x in A], tol)
            g += goals_near('a/s', rd.take(so, 9), [div(x, S) for x in A], tol)
            g += goals_near('-a', rd.take(so, 9), [neg(x) for x in A], 0)
            g += goals_near('identity', rd.take(so, 9), IDENT, 0)
            g += goals_near('index assignment', rd.take(so, 9), tr, 0)
            g += goals_near('new', rd.take(so, 9), A, 0)
            return g
        bx = {**box(a + b + v, -100, 100), **box([s], 0.01, 100)}
        cs.append(Case('matrix operators, s>0: ' + so, 'h_mat_ops_%d' % BITS[so], slots(a, b, v, s), check, 97 * BITS[so] // 8, boxes=bx))
        bx = {**box(a + b + v, -100, 100), **box([s], -100, -0.01)}
        cs.append(Case('matrix operators, s<0: ' + so, 'h_mat_ops_%d' % BITS[so], slots(a, b, v, s), check, 97 * BITS[so] // 8, boxes=bx))
    return cs


def inv_case(fn, so, m, lim, dlo, tol, name, extra=(), boxes=None, sign=1, sample=None, budget=200, nodet=False):
    mm = rs([x if isinstance(x, Term) else const(*x) for x in m])

    def check(rd):
        flag = rd.k('i64')
        if not flag:
            return [('invertible matrix has an inverse', FALSE)]
        o = rs(rd.take(so, 9))
        return [('M*inv(M)=I [%d]' % i, near(x, IDENT[i], tol)) for i, x in enumerate(matmul(mm, o))] + \
               [('inv(M)*M=I [%d]' % i, near(x, IDENT[i], tol)) for i, x in enumerate(matmul(o, mm))]
    d = det3(mm)
    asm = ([] if nodet else [le(dlo, d) if sign > 0 else le(d, -dlo)]) + list(extra)
    sl = []
    for x in m:
        sl.append((x.sort, x) if isinstance(x, Term) else x)
    return Case(name, fn, sl, check, 8 + 9 * BITS[so] // 8, boxes=boxes or box([x for x in m if isinstance(x, Term)], -lim, lim), assume=asm, sample=sample, budget=budget)


def gj_dom(so, perm, sgn, tol):
    """a row-permuted, diagonally dominant matrix"""
    m = vs('m' + so, 9, so)
    bx = {}
    for r in range(3):
        for c in range(3):
            x = m[3 * perm[r] + c]
            bx[x.imm] = ((1, 4) if sgn[c] > 0 else (-4, -1)) if r == c else (-0.3, 0.3)
    return inv_case('h_gj_%d' % BITS[so], so, m, None, F(1, 100), tol, 'gj_inverse: %s, row order %s, signs %s' % (so, ''.join(map(str, perm)), ''.join('+' if x > 0 else '-' for x in sgn)),
                    boxes=bx, nodet=True)


def gj_late(so, tol, swap):
    """the second pivot vanishes exactly after the first elimination step"""
    a, b, c, d, e, f, g = [var(n + so, so) for n in 'abcdefg']
    k = (so, f32bits(2.0) if so == 'f32' else f64bits(2.0))
    r = [[k, b, c], [k, b, d], [e, f, g]]
    if swap:
        r = [r[2], r[0], r[1]]
    m = r[0] + r[1] + r[2]
    bx = {b.imm: (-0.5, 0.5), c.imm: (-2, -1), d.imm: (0, 1), e.imm: (-1, 1), f.imm: (2, 4), g.imm: (-2, 2)}
    return inv_case('h_gj_%d' % BITS[so], so, m, None, 0, tol, 'gj_inverse: %s, pivot vanishes during elimination%s' % (so, ' (row order 201)' if swap else ''), boxes=bx, nodet=True)


def singular(fn, so, zero, name, boxes=None):
    m = vs('m' + so, 9, so)
    sl = [(so, 0) if i in zero else (so, x) for i, x in enumerate(m)]

    def check(rd):
        return [('no inverse is reported', FALSE if rd.k('i64') else TRUE)]
    return Case(name, fn, sl, check, 8 + 9 * BITS[so] // 8, boxes=boxes or box([x for i, x in enumerate(m) if i not in zero], 0.5, 4))


@prop('P05')
def p05(tier):
    cs = []
    for so in SORTS:
        lim, dlo, tol = (2, F(1), F(1, 20)) if so == 'f32' else (4, F(1, 8), F(1, 10 ** 6))
        m = vs('m' + so, 9, so)
        for sg in (1, -1):
            cs.append(inv_case('h_inv_%d' % BITS[so], so, m, lim, dlo, tol, 'inverse: %s, det %s 0' % (so, '>' if sg > 0 else '<'), sign=sg))
        tol = F(1, 1000) if so == 'f32' else F(1, 10 ** 9)
        for n, perm in enumerate(itertools.permutations(range(3))):
            cs.append(gj_dom(so, perm, (1, -1 if n & 1 else 1, -1 if n & 2 else 1), tol))
        for sw in (0, 1):
            cs.append(gj_late(so, tol, sw))
        for nm, z in (('row 0', (0, 1, 2)), ('row 1', (3, 4, 5)), ('row 2', (6, 7, 8)), ('column 0', (0, 3, 6)), ('column 1', (1, 4, 7)), ('column 2', (2, 5, 8))):
            bx = None
            if 'row' in nm:
                # the two other rows are well conditioned in their first two columns
                rows = [r for r in range(3) if 3 * r not in z]
                bx = {m[3 * r + c].imm: (2, 4) if k == c else (-0.3, 0.3) for k, r in enumerate(rows) for c in range(3)}
            cs.append(singular('h_gj_%d' % BITS[so], so, z, 'gj_inverse: %s, zero %s' % (so, nm), bx))
            cs.append(singular('h_inv_%d' % BITS[so], so, z, 'inverse: %s, zero %s' % (so, nm)))
    return cs


CATS = {
    'brad': [F(x) for x in ('0.8951', '0.2664', '-0.1614', '-0.7502', '1.7135', '0.0367', '0.0389', '-0.0685', '1.0296')],
    'vk': [F(x) for x in ('0.40024', '0.7076', '-0.08081', '-0.2263', '1.16532', '0.0457', '0', '0', '0.91822')],
    'cat02': [F(x) for x in ('0.7328', '0.4296', '-0.1624', '-0.7036', '1.6975', '0.0061', '0.0030', '0.0136', '0.9834')],
}
NAMES = {'brad': 'Bradford', 'vk': 'von Kries', 'cat02': 'CAT02'}


def finv(m):
    a, b, c, d, e, f, g, h, i = m
    D = a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g)
    return [x / D for x in (e * i - f * h, c * h - b * i, b * f - c * e, f * g - d * i, a * i - c * g, c * d - a * f, d * h - e * g, b * g - a * h, a * e - b * d)]


def cat_spec(kind, s, d):
    """the adaptation matrix in exact arithmetic"""
    A = CATS[kind]
    Ai = finv(A)
    sa, da = matvec(A, s), matvec(A, d)
    k = [div(x, y) for x, y in zip(da, sa)]
    return [add(*[mul(Ai[3 * i + r] * A[3 * r + j], k[r]) for r in range(3)]) for i in range(3) for j in range(3)]


def xyy_to_xyz(c):
    x, y, Y = c
    k = div(mul(100, Y), y)
    return [mul(x, k), mul(100, Y), mul(sub(sub(1, x), y), k)]


@prop('P06')
def p06(tier):
    cs = []
    WB = [(70, 130), (90, 110), (40, 140)]
    CB = [(0.28, 0.36), (0.28, 0.38), (0.5, 1.5)]
    for so in SORTS:
        for kind in CATS:
            tol = F(1, 1000) if so == 'f32' else F(1, 10 ** 9)
            if kind == 'vk':
                tol = F(1, 1000)
            for form in ('xyz', 'xyy'):
                a, b = vs('s' + so, 3, so), vs('d' + so, 3, so)
                B = WB if form == 'xyz' else CB
                if form == 'xyy' and so == 'f32':
                    tol = F(1, 100)
                bx = {v.imm: B[i] for w in (a, b) for i, v in enumerate(w)}
                fn = 'h_%s%s_%d' % (kind, '' if form == 'xyz' else '_xyy', BITS[so])
                S = rs(a) if form == 'xyz' else xyy_to_xyz(rs(a))
                D = rs(b) if form == 'xyz' else xyy_to_xyz(rs(b))

                def check(rd, S=S, D=D, kind=kind, so=so, tol=tol):
                    m = rs(rd.take(so, 9))
                    g = [('M*source white = destination white [%d]' % i, near(x, D[i], tol * 1000)) for i, x in enumerate(matvec(m, S))]
                    g += goals_near('%s matrix' % NAMES[kind], m, cat_spec(kind, S, D), tol)
                    return g

                def ident(rd, so=so):
                    return goals_near('identity', rd.take(so, 9), IDENT, 0)
                nm = '%s %s %s' % (NAMES[kind], so, form)
                if form == 'xyz':
                    cs.append(Case('white to white: ' + nm, fn, slots(a, b), check, 9 * BITS[so] // 8, boxes=bx))
                else:
                    one = (so, 1.0)
                    S, D = xyy_to_xyz(rs(a[:2]) + [rc(1)]), xyy_to_xyz(rs(b[:2]) + [rc(1)])

                    def check1(rd, S=S, D=D, check=check):
                        return check(rd, S=S, D=D)
                    bx1 = {a[0].imm: CB[0], b[0].imm: CB[0]}
                    for w, lo, hi in (('larger', (0.28, 0.33), (0.3305, 0.38)), ('smaller', (0.3305, 0.38), (0.28, 0.33))):
                        cs.append(Case('white to white, Y=1, %s y: %s' % (w, nm), fn, slots(a[:2], one, b[:2], one), check1, 9 * BITS[so] // 8, boxes={**bx1, a[1].imm: lo, b[1].imm: hi}))
                    k = (so, 0.328125)
                    S2, D2 = xyy_to_xyz([real(a[0]), rc(F(21, 64)), rc(1)]), xyy_to_xyz([real(b[0]), rc(F(21, 64)), rc(1)])

                    def check2(rd, S=S2, D=D2, check=check):
                        return check(rd, S=S, D=D)
                    for w, lo, hi in (('larger', (0.28, 0.32), (0.3205, 0.36)), ('smaller', (0.3205, 0.36), (0.28, 0.32))):
                        cs.append(Case('white to white, same y, %s x: %s' % (w, nm), fn, slots(a[0], k, one, b[0], k, one), check2, 9 * BITS[so] // 8, boxes={a[0].imm: lo, b[0].imm: hi}))
                    cs.append(Case('white to white, larger Y: ' + nm, fn, slots(a, b), check, 9 * BITS[so] // 8, boxes={**bx, a[2].imm: (0.5, 1) if so == 'f64' else (0.8, 1), b[2].imm: (1.001, 2 if so == 'f64' else 1.2)}))
                cs.append(Case('equal whites: ' + nm, fn, slots(a, a), ident, 9 * BITS[so] // 8, boxes={v.imm: B[i] for i, v in enumerate(a)}))
    return cs


@prop('P13')
def p13(tier):
    cs = []
    for so in SORTS:
        tol = F(1, 10 ** 4) if so == 'f32' else F(1, 10 ** 11)
        c = vs('c' + so, 3, so)

        def fwd(rd, c=c, so=so, tol=tol):
            X, Y, Z = C = rs(c)
            s = add(X, Y, Z)
            k = rd.take(so, 3)
            g = goals_near('x,y,Y', k, [div(X, s), div(Y, s), div(Y, 100)], tol)
            g += goals_near('XYZ to xyY to XYZ', rd.take(so, 3), C, tol * 100)
            g += goals_near('x,y,Y (constructor)', rd.take(so, 3), [div(X, s), div(Y, s), div(Y, 100)], tol)
            g += goals_near('normalised to Y=1', rd.take(so, 3), [div(X, Y), 1, div(Z, Y)], tol)
            g += goals_near('normalised to Y=100', rd.take(so, 3), [mul(100, div(X, Y)), 100, mul(100, div(Z, Y))], tol * 100)
            return g
        cs.append(Case('from XYZ: ' + so, 'h_xyy_%d' % BITS[so], slots(c), fwd, 15 * BITS[so] // 8, boxes={c[0].imm: (0, 200), c[1].imm: (5, 200), c[2].imm: (0, 200)}))
        cs.append(Case('from XYZ, dark: ' + so, 'h_xyy_%d' % BITS[so], slots(c), fwd, 15 * BITS[so] // 8, boxes={c[0].imm: (0, 8), c[1].imm: (0.25, 8), c[2].imm: (0, 8)}))

        def rev(rd, c=c, so=so, tol=tol):
            x, y, Y = C = rs(c)
            X = xyy_to_xyz(C)
            g = goals_near('XYZ', rd.take(so, 3), X, tol * 1000)
            g += goals_near('xyY to XYZ to xyY', rd.take(so, 3), C, tol * 10)
            g += goals_near('XYZ (constructor)', rd.take(so, 3), X, tol * 1000)
            g += goals_near('XYZ of xy at Y=1', rd.take(so, 3), xyy_to_xyz([x, y, rc(1)]), tol * 1000)
            g += goals_near('xy constructor', rd.take(so, 3), [x, y, 1], 0)
            g += goals_near('xyY constructor', rd.take(so, 3), C, 0)
            return g
        cs.append(Case('from xyY: ' + so, 'h_yxy_%d' % BITS[so], slots(c), rev, 18 * BITS[so] // 8, boxes={c[0].imm: (0, 0.75), c[1].imm: (0.0625, 0.85), c[2].imm: (0.125, 2)}))
    return cs
