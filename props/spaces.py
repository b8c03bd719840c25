"""RGB colour spaces: construction from primaries, built-in models, conversions between spaces."""
from common import *
from curves import enc_goal, dec_goal, enc_lin, enc_pow, dec_lin, dec_pow, CUT, FCUT

SRGB_P = ((0.64, 0.33), (0.30, 0.60), (0.15, 0.06), (0.3127, 0.3290))
REC2020_P = ((0.708, 0.292), (0.17, 0.797), (0.131, 0.046), (0.3127, 0.3290))
P3_P = ((0.680, 0.320), (0.265, 0.690), (0.150, 0.060), (0.314, 0.351))


def xyz1(p):
    """XYZ direction of a chromaticity (sums to one)"""
    x, y = p
    return [x, y, sub(sub(1, x), y)]


@prop('P07')
def p07(tier):
    cs = []
    for so in SORTS:
        b = BITS[so]
        tol = F(1, 1000) if so == 'f32' else F(1, 10 ** 9)
        for fam, prim, sym, rad in (
                ('white varies', SRGB_P, (3,), 0.0125), ('red varies', SRGB_P, (0,), 0.04), ('green varies', SRGB_P, (1,), 0.04), ('blue varies', SRGB_P, (2,), 0.02),
                ('white varies', REC2020_P, (3,), 0.02), ('all vary', SRGB_P, (0, 1, 2, 3), 0.002 if so == 'f32' else 0.004), ('all vary', P3_P, (0, 1, 2, 3), 0.002 if so == 'f32' else 0.004)):
            ins, bx, sl = [], {}, []
            for i, (x, y) in enumerate(prim):
                if i in sym:
                    vx, vy = var('x%d%s' % (i, so), so), var('y%d%s' % (i, so), so)
                    bx[vx.imm], bx[vy.imm] = (x - rad, x + rad), (y - rad, y + rad)
                    ins.append((real(vx), real(vy)))
                    sl += slots(vx, vy, (so, 1.0))
                else:
                    cx, cy = (const(so, f32bits(v) if so == 'f32' else f64bits(v)) for v in (x, y))
                    ins.append((real(cx), real(cy)))
                    sl += slots((so, x), (so, y), (so, 1.0))

            def check(rd, so=so, ins=ins, tol=tol):
                A, B = rs(rd.take(so, 9)), rs(rd.take(so, 9))
                P = [xyz1(p) for p in ins]
                g = []
                yw = ins[3][1]
                for r in range(3):
                    g.append(('white maps to equal signals, row %d' % r, near(dot(A[3 * r:3 * r + 3], P[3]), yw, tol)))
                    for p in range(3):
                        if p != r:
                            g.append(('primary %d has no component %d' % (p, r), near(dot(A[3 * r:3 * r + 3], P[p]), 0, tol)))
                for r in range(3):
                    g.append(('equal signals give the white, row %d' % r, near(mul(yw, add(*B[3 * r:3 * r + 3])), P[3][r], tol)))
                    for p in range(3):
                        s = add(B[p], B[3 + p], B[6 + p])
                        g.append(('signal %d has the chromaticity of its primary, row %d' % (p, r), near(B[3 * r + p], mul(s, P[p][r]), tol)))
                for p, (x, y) in enumerate(ins):
                    o = rs(rd.take(so, 3))
                    g += [('stored chromaticity %d' % p, And(near(o[0], x, 0), near(o[1], y, 0), near(o[2], 1, 0)))]
                return g
            cs.append(Case('%s, primaries %s: %s' % (fam, 'sRGB' if prim is SRGB_P else 'BT.2020' if prim is REC2020_P else 'P3', so), 'h_cs_new_%d' % b, sl, check, 30 * b // 8, boxes=bx))
        # the luminances given with the chromaticities do not matter
        Yv = [var('Y%d%s' % (i, so), so) for i in range(4)]
        ins = [[F(const_float(so, f32bits(v) if so == 'f32' else f64bits(v))) for v in p] for p in REC2020_P]

        def lum(rd, so=so, tol=tol, ins=ins, Yv=Yv):
            A, B = rs(rd.take(so, 9)), rs(rd.take(so, 9))
            W = [v / ins[3][1] for v in (ins[3][0], ins[3][1], 1 - ins[3][0] - ins[3][1])]
            g = [('white maps to equal signals, row %d' % r, near(dot(A[3 * r:3 * r + 3], [rc(v) for v in W]), 1, tol)) for r in range(3)]
            g += [('equal signals give the white, row %d' % r, near(add(*B[3 * r:3 * r + 3]), W[r], tol)) for r in range(3)]
            for p, (x, y) in enumerate(ins):
                o = rs(rd.take(so, 3))
                g.append(('stored chromaticity %d' % p, And(near(o[0], x, 0), near(o[1], y, 0), near(o[2], real(Yv[p]), 0))))
            return g
        cs.append(Case('luminances vary: %s' % so, 'h_cs_new_%d' % b, slots([z for p, v in zip(REC2020_P, Yv) for z in ((so, p[0]), (so, p[1]), v)]), lum, 30 * b // 8, boxes=box(Yv, 0.25, 4)))
    return cs


MODELS = ('sRGB', 'sRGB (derived)', 'BT.709', 'BT.2020', 'DCI-P3', 'P3 D65', 'ACES', 'ACEScg', 'Adobe RGB', 'Alexa Wide Gamut')
CURVE = (0, 0, 1, 2, F('2.6'), F('2.6'), 3, 3, F('2.19921875'), 4)
D65, ACESW = (F('0.3127'), F('0.3290')), (F('0.32168'), F('0.33767'))
PRIM = {0: (('0.64', '0.33'), ('0.30', '0.60'), ('0.15', '0.06'), D65),
        3: (('0.708', '0.292'), ('0.17', '0.797'), ('0.131', '0.046'), D65),
        4: (('0.680', '0.320'), ('0.265', '0.690'), ('0.150', '0.060'), (F('0.314'), F('0.351'))),
        5: (('0.680', '0.320'), ('0.265', '0.690'), ('0.150', '0.060'), D65),
        6: (('0.7347', '0.2653'), ('0', '1'), ('0.0001', '-0.077'), ACESW),
        7: (('0.713', '0.293'), ('0.165', '0.830'), ('0.128', '0.044'), ACESW),
        8: (('0.64', '0.33'), ('0.21', '0.71'), ('0.15', '0.06'), D65),
        9: (('0.6840', '0.3130'), ('0.2210', '0.8480'), ('0.0861', '-0.102'), D65)}
PRIM[1] = PRIM[2] = PRIM[0]


def curve_goal(k, what, o, x, so, tol):
    c = CURVE[k]
    if isinstance(c, int):
        return (enc_goal if what == 'enc' else dec_goal)(c, o, x, so, tol)
    return near(o, powr(x, 1 / c if what == 'enc' else c), tol)


@prop('P08')
def p08(tier):
    cs = []
    INI = ('h_init_models',)
    for so in SORTS:
        b = BITS[so]
        for k, nm in enumerate(MODELS):
            if k == 1 and so == 'f32':
                continue
            c = vs('c' + so, 3, so)
            pub = {0: F(1, 1000), 8: F(1, 10 ** 4)}.get(k, F(1, 10 ** 5))
            tol = max(pub, F(1, 10 ** 4) if so == 'f32' else F(0))

            def rt(rd, so=so, c=c, tol=tol):
                rd.take(so, 3)
                return goals_near('linear RGB to XYZ to linear RGB', rd.take(so, 3), rs(c), tol)
            cs.append(Case('XYZ round trip %s: %s' % (nm, so), 'h_model_rt_%d' % b, slots(k, c), rt, 6 * b // 8, boxes=box(c, -1, 4 if pub < F(1, 1000) else 1), inits=INI))
            s = var('s' + so, so)

            def grey(rd, so=so, s=s, k=k):
                X, S = rs(rd.take(so, 3)), real(s)
                x, y = PRIM[k][3]
                w = mul(100, S)
                g = [('X of grey', near(X[0], mul(w, x / y), F(1, 20))), ('Y of grey', near(X[1], w, F(1, 20))), ('Z of grey', near(X[2], mul(w, (1 - x - y) / y), F(1, 20)))]
                o = rs(rd.take(so, 3))
                return g
            cs.append(Case('greys have the white point %s: %s' % (nm, so), 'h_model_rt_%d' % b, slots(k, s, s, s), grey, 6 * b // 8, boxes=box([s], 0, 1), inits=INI))
            for p in range(3):
                def prim(rd, so=so, k=k, p=p, s=s):
                    X = rs(rd.take(so, 3))
                    x, y = (F(v) for v in PRIM[k][p])
                    t = add(*X)
                    return [('x of primary', near(X[0], mul(x, t), F(3, 20))), ('y of primary', near(X[1], mul(y, t), F(3, 20))), ('positive', le(mul(real(s), 10), add(t, F(1, 20))))]
                z = (so, 0.0)
                cs.append(Case('primary %d %s: %s' % (p, nm, so), 'h_model_rt_%d' % b, slots(k, *[s if j == p else z for j in range(3)]), prim, 6 * b // 8, boxes=box([s], 0, 1), inits=INI))
            def chroma(rd, so=so, k=k):
                g = []
                for p, nm in enumerate(('red', 'green', 'blue', 'white')):
                    x, y, Y = rs(rd.take(so, 3))
                    g.append(('stored ' + nm, And(near(x, F(PRIM[k][p][0]), F(1, 10 ** 6)), near(y, F(PRIM[k][p][1]), F(1, 10 ** 6)), near(Y, 1, 0))))
                return g
            cs.append(Case('stored chromaticities %s: %s' % (nm, so), 'h_model_xy_%d' % b, slots(k), chroma, 12 * b // 8, inits=INI))
            for what in ('enc', 'dec'):
                gam = not isinstance(CURVE[k], int)
                lo, hi = (0, 1) if gam else (-1, 2) if k != 9 else (-0.25, 1.2)
                tol2 = F(1, 10 ** 4) if so == 'f32' else F(1, 10 ** 9)
                if k == 9 and what == 'dec':
                    tol2 *= 100

                def cur(rd, so=so, c=c, k=k, what=what, tol2=tol2):
                    return [('channel %d' % j, curve_goal(k, what, real(o), real(x), so, tol2)) for j, (o, x) in enumerate(zip(rd.take(so, 3), c))]
                cs.append(Case('%sode curve %s: %s' % (what, nm, so), 'h_model_%s_%d' % (what, b), slots(k, c), cur, 3 * b // 8, boxes=box(c, lo, hi), inits=INI))
    c = vs('c', 3, 'f32')
    for k, nm in enumerate(MODELS):
        if k == 1:
            continue

        def pair(rd, k=k):
            a, e, d, w = (rs(rd.take('f32', n)) for n in (3, 3, 3, 2))
            a2, e2, d2, w2 = (rs(rd.take('f64', n)) for n in (3, 3, 3, 2))
            f = lambda pfx, p, q, t: [('%s[%d]' % (pfx, i), near(x, y, t)) for i, (x, y) in enumerate(zip(p, q))]
            t = F(1, 100) if k == 9 else F(1, 2000)
            return f('XYZ in f32 and f64', a, a2, F(1, 1000)) + f('encode in f32 and f64', e, e2, t) + f('decode in f32 and f64', d, d2, t) + f('white in f32 and f64', w, w2, F(1, 10 ** 6))
        cs.append(Case('f32 model agrees with f64 model: ' + nm, 'h_model_pair', slots(k, c), pair, 11 * 12, boxes=box(c, 0, 1), inits=INI))
    return cs


from mats import cat_spec, xyy_to_xyz

WHITES = {'D65': (F('0.3127'), F('0.3290'), F(1)), 'D50': (F('0.34567'), F('0.35850'), F(1)), 'A': (F('0.44757'), F('0.40745'), F(1))}


def fconst(so, v):
    """slot and exact value of a constant in that precision"""
    b = f32bits(float(v)) if so == 'f32' else f64bits(float(v))
    return (so, float(v)), F(const_float(so, b))


@prop('P11')
def p11(tier):
    cs = []
    for so in SORTS:
        b = BITS[so]
        m, c = vs('m' + so, 9, so), vs('c' + so, 3, so)
        tol = F(1, 100) if so == 'f32' else F(1, 10 ** 10)
        bx = {**box(m, -4, 4), **box(c, -200, 200)}

        def x2r(rd, so=so, m=m, c=c, tol=tol):
            return goals_near('M * XYZ/100', rd.take(so, 3), [div(v, 100) for v in matvec(rs(m), rs(c))], tol)
        cs.append(Case('XYZ to RGB: ' + so, 'h_xyz_to_rgb_%d' % b, slots(m, c), x2r, 3 * b // 8, boxes=bx))

        def r2x(rd, so=so, m=m, c=c, tol=tol):
            return goals_near('100 * M * RGB', rd.take(so, 3), [mul(v, 100) for v in matvec(rs(m), rs(c))], tol * 10)
        cs.append(Case('RGB to XYZ: ' + so, 'h_rgb_to_xyz_%d' % b, slots(m, c), r2x, 3 * b // 8, boxes={**box(m, -4, 4), **box(c, -4, 4)}))
        for n in ((0, 1, 2, 3, 5) if tier == 'quick' else range(0, 10)):
            cc = vs('c' + so, 3 * n, so)

            def sl(rd, so=so, m=m, cc=cc, tol=tol, n=n):
                if rd.k('i64') != n:
                    return [('one result per input', FALSE)]
                g = []
                for i in range(n):
                    g += goals_near('element %d' % i, rd.take(so, 3), [div(v, 100) for v in matvec(rs(m), rs(cc[3 * i:3 * i + 3]))], tol)
                return g
            cs.append(Case('XYZ slice of %d to RGB: %s' % (n, so), 'h_xyz_slice_%d' % b, slots(n, m, cc), sl, 8 + 3 * n * b // 8, boxes={**box(m, -4, 4), **box(cc, -200, 200)}))
        # composed matrices
        mats = [vs(p + so, 9, so) for p in ('a', 'A', 'b', 'B', 't')]
        for w1, w2, w3 in (('D65', 'D50', 'A'), ('D50', 'A', 'D65'), ('A', 'A', 'D50')):
            sl, val = [], {}
            for w in (w1, w2, w3):
                for v in WHITES[w]:
                    s, x = fconst(so, v)
                    sl.append(s)
                    val.setdefault(w, []).append(x)
            xyz = {w: xyy_to_xyz([rc(x) for x in v[:3]]) for w, v in val.items()}
            tol2 = F(1, 100) if so == 'f32' else F(1, 10 ** 10)

            def cat(p, q, xyz=xyz):
                return IDENT if p == q else cat_spec('cat02', xyz[p], xyz[q])

            def comp(rd, so=so, w=(w1, w2, w3), mats=mats, tol2=tol2, cat=cat):
                a, ai, bb, bi, t = (rs(x) for x in mats)
                g = goals_near('XYZ to RGB matrix', rd.take(so, 9), matmul(a, cat(w[2], w[0])), tol2)
                g += goals_near('RGB to XYZ matrix', rd.take(so, 9), matmul(cat(w[0], w[2]), ai), tol2)
                g += goals_near('XYZ to RGB matrix with a given CAT', rd.take(so, 9), matmul(a, t), tol2)
                g += goals_near('RGB to RGB matrix', rd.take(so, 9), matmul(matmul(bb, cat(w[0], w[1])), ai), tol2)
                return g
            cs.append(Case('composed matrices, whites %s %s %s: %s' % (w1, w2, w3, so), 'h_xf_mats_%d' % b, slots(sl, *mats), comp, 36 * b // 8, boxes=box(sum(mats, []), -4, 4)))
        # whites that differ in one coordinate only, and by little
        GM = [[1.5, -0.25, 0.375, 0.125, 2.0, -0.5, -0.625, 0.25, 1.25], [0.75, 0.25, -0.125, 0.5, 1.125, 0.25, 0.0625, -0.375, 0.875],
              [2.25, -0.5, 0.125, -0.75, 1.5, 0.25, 0.5, -0.125, 1.0], [0.625, 0.125, 0.25, -0.25, 0.875, 0.5, 0.375, 0.25, 1.375], [0.5, 1.5, -0.75, 0.25, -1.0, 0.125, 1.25, 0.375, -0.5]]
        gm = [[rc(F(x)) for x in mm] for mm in GM]
        gsl = [(so, x) for mm in GM for x in mm]
        x1, x2, x3, y1, y2, y3 = (var(n + so, so) for n in ('x1', 'x2', 'x3', 'y1', 'y2', 'y3'))
        kx, ky = (so, 0.3125), (so, 0.328125)
        L_, M_, H_ = (0.29, 0.31), (0.3101, 0.335), (0.3351, 0.36)
        one = (so, 1.0)
        for nm, ws, bx in (('same y, x apart', ((x1, ky), (x2, ky), (x3, ky)), {x1.imm: L_, x2.imm: M_, x3.imm: H_}), ('same x, y apart', ((kx, y1), (kx, y2), (kx, y3)), {y1.imm: H_, y2.imm: L_, y3.imm: M_})):
            W = [xyy_to_xyz([real(v) if isinstance(v, Term) else rc(F(v[1])) for v in w] + [rc(1)]) for w in ws]

            def compw(rd, so=so, W=W, tol2=tol2):
                cat = lambda p, q: cat_spec('cat02', W[p], W[q])
                a, ai, bb, bi, t = gm
                g = goals_near('XYZ to RGB matrix', rd.take(so, 9), matmul(a, cat(2, 0)), tol2)
                g += goals_near('RGB to XYZ matrix', rd.take(so, 9), matmul(cat(0, 2), ai), tol2)
                rd.take(so, 9)
                g += goals_near('RGB to RGB matrix', rd.take(so, 9), matmul(matmul(bb, cat(0, 1)), ai), tol2)
                return g
            cs.append(Case('composed matrices, whites with %s: %s' % (nm, so), 'h_xf_mats_%d' % b, slots(*[z for w in ws for z in (*w, one)], *gsl), compw, 36 * b // 8, boxes=bx))
        for nf, nt in ((1, 1), (0, 2), (2, 0), (2, 3), (3, 2), (3, 3)):
            ms = [vs(p + so, 9, so) for p in ('a', 'A', 'b', 'B')]
            v = vs('v' + so, 3 * nf, so)

            def conv(rd, so=so, nf=nf, nt=nt, ms=ms, v=v):
                n = min(nf, nt)
                if rd.k('i64') != n:
                    return [('count of converted colours', FALSE)]
                a, ai, bb, bi = (rs(x) for x in ms)
                g = []
                for i in range(nt):
                    o = rd.take(so, 3)
                    if i < n:
                        x = matvec(bb, matvec(ai, [add(y, 1) for y in rs(v[3 * i:3 * i + 3])]))
                        g += goals_near('decode, matrix, encode [%d]' % i, o, [sub(y, 2) for y in x], F(1, 50) if so == 'f32' else F(1, 10 ** 9))
                    else:
                        g += goals_near('untouched [%d]' % i, o, [7777] * 3, 0)
                return g
            cs.append(Case('convert %d colours into %d slots: %s' % (nf, nt, so), 'h_rgb_slice_%d' % b, slots(nf, nt, *ms, v), conv, 8 + 3 * nt * b // 8, boxes={**box(sum(ms, []), -3, 3), **box(v, -2, 4)}))
    # between built-in spaces: neutral stays neutral (the adaptation is part of the conversion), and back again
    INI = ('h_init_models',)
    s = var('s', 'f64')
    lin = (0, 2, 3, 4, 5, 6, 7, 8, 9)
    pairs = [(a, b2) for a in lin for b2 in lin if a != b2]
    if tier == 'quick':
        pairs = [p for i, p in enumerate(pairs) if i % 4 == 1]
    for a, b2 in pairs:
        def neutral(rd, a=a, b2=b2):
            o = rs(rd.take('f64', 3))
            t = F(1, 500) if a != 9 else F(1, 100)
            return [('red equals green', near(o[0], o[1], t)), ('green equals blue', near(o[1], o[2], t))]
        cs.append(Case('neutral stays neutral, %s to %s' % (MODELS[a], MODELS[b2]), 'h_rgb2rgb_64', slots(a, b2, s, s, s), neutral, 24, boxes=box([s], 0.125 if a != 9 else 0.25, 1 if a != 9 else 0.5), inits=INI))
    return cs


def planes_case(isa, n, ny, nz, panic):
    m = vs('m', 9, 'f32')
    xs, ys, zs = vs('x', n, 'f32'), vs('y', ny, 'f32'), vs('z', nz, 'f32')

    def check(rd):
        if any(rd.k('i64') != n for _ in range(3)):
            return [('plane lengths', FALSE)]
        pl = [rs(rd.take('f32', n)) for _ in range(3)]
        g = []
        M = rs(m)
        for i in range(n):
            e = [div(v, 100) for v in matvec(M, [real(xs[i]), real(ys[i]), real(zs[i])])]
            g += [('pixel %d plane %d' % (i, p), near(pl[p][i], e[p], F(1, 1000))) for p in range(3)]
        return g
    return Case('%s planes of %d,%d,%d' % (isa, n, ny, nz), 'h_planes_' + isa, slots(n, ny, nz, m, xs, ys, zs), check, 24 + 12 * n,
                boxes={**box(m, -4, 4), **box(xs + ys + zs, 0, 120)}, build='avx', panic=TRUE if panic else None)


@prop('P12', builds=('avx',))
def p12(tier):
    cs = []
    ns = (0, 1, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 23) if tier == 'quick' else range(0, 50)
    for isa in ('avx2', 'sse2'):
        for n in ns:
            cs.append(planes_case(isa, n, n, n, False))
        for n, ny, nz in ((8, 7, 8), (8, 8, 7), (9, 8, 9), (16, 16, 3), (8, 0, 0), (5, 4, 5)):
            cs.append(planes_case(isa, n, ny, nz, True))
        for n, ny, nz in ((8, 9, 17), (3, 8, 4), (9, 9, 10)):
            cs.append(planes_case(isa, n, ny, nz, False))
    return cs


@prop('P39')
def p39(tier):
    cs = []
    # the space in between must not clip: its curve takes every number
    prs = [(0, 7), (0, 6), (1, 7), (2, 6), (2, 7), (3, 7), (3, 6), (4, 6), (5, 7), (8, 7), (8, 6), (6, 7), (7, 6), (6, 9), (7, 9), (9, 7), (9, 6)]
    if tier != 'quick':
        prs += [(4, 7), (5, 6), (1, 6), (0, 0)]
    for a, b in prs:
        for so in SORTS:
            if so == 'f32' and 1 in (a, b):
                continue
            n = BITS[so]
            c = vs('c', 3, so)
            # pure power curves have no value below black, however little below
            lo = 0.05 if a in (4, 5, 8) else 0

            def chk(rd, so=so, c=c):
                return [('channel %s returns' % 'RGB'[i], near(real(o), real(x), F(1, 400))) for i, (o, x) in enumerate(zip(rd.take(so, 3), c))]
            cs.append(Case('%s to %s and back: %s' % (MODELS[a], MODELS[b], so), 'h_rt_%d' % n, slots(a, b, c), chk, 3 * n // 8, boxes=box(c, lo, 1), inits=('h_init_models',), **({} if tier == 'quick' else {'budget': 600})))
    for a, b in ((0, 7), (0, 6), (2, 7), (3, 6)):
        u = vs('u', 3, 'i8')

        def chk8(rd, u=u):
            return [('level %s returns' % 'RGB'[i], eqi(o, x)) for i, (o, x) in enumerate(zip(rd.take('i8', 3), u))]
        cs.append(Case('8-bit %s to %s and back' % (MODELS[a], MODELS[b]), 'h_rt_u8', slots(a, b, u), chk8, 3, boxes=box(u, 0, 255), inits=('h_init_models',)))
    return cs
