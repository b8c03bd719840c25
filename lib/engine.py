"""Decides one case: explores every feasible path of an entry point symbolically, turns each
obligation on each path into solver queries, and replays counterexamples on the native build."""
import json, math, os, random, struct, sys, time, traceback
from fractions import Fraction
import numpy as np
import z3
from symexec import Exec, Term, FL, const, const_float, f32bits, f64bits, var
from terms import (meval, ceval, Undefined, And, Not, Or, TRUE, FALSE, topo, variables, le, lt, real, rc)
from real import Ctx, Split, Unknown, INF
from native import Native, SymRd, NatRd, BadOut, NeedConst, SZ, pack
from fp import FpCtx


class Case:
    def __init__(self, name, fn, slots, check, nout, boxes=None, assume=(), inits=(), build='base', mode='real',
                 panic=None, sample=None, budget=120, goal_timeout=15000, maxpaths=4000, note='', bisect=40, nra=True,
                 feas=True, split_first=(), affine=False, opaque=False):
        self.name, self.fn, self.slots, self.check, self.nout = name, fn, slots, check, nout
        self.boxes, self.assume, self.inits, self.build, self.mode = dict(boxes or {}), list(assume), tuple(inits), build, mode
        self.panic, self.sample, self.budget, self.goal_timeout = panic, sample, budget, goal_timeout
        self.maxpaths, self.note, self.bisect, self.nra, self.feas = maxpaths, note, bisect, nra, feas
        self.split_first = list(split_first)
        self.affine = affine
        self.opaque = opaque
        self.vars = []
        for ty, v in slots:
            if isinstance(v, Term) and v not in self.vars:
                self.vars.append(v)


class Violation(Exception):
    def __init__(self, env, goal, detail):
        self.env, self.goal, self.detail = env, goal, detail


class Undecided(Exception):
    pass


def nearest(sort, x):
    """bits of the float of `sort` nearest to a Fraction/float"""
    if sort == 'f32':
        try:
            return f32bits(float(x))
        except OverflowError:
            return f32bits(math.copysign(3.4e38, float(x)))
    return f64bits(float(x))


def show_env(case, env):
    r = {}
    for v in case.vars:
        b = env[v.imm]
        r[v.imm] = repr(const_float(v.sort, b)) if v.sort in FL else b
    return r


class Runner:
    def __init__(self, cfg, case, seed, stats):
        self.cfg, self.case, self.stats = cfg, case, stats
        self.rng = random.Random(hash((seed, case.name)) & 0xffffffff if False else seed * 1000003 + sum(map(ord, case.name)))
        b = cfg[case.build]
        self.ex = Exec(cfg['irsym'], b['ll'])
        for i in case.inits:
            self.ex.init(i)
        self.nat = Native(cfg['runner'], b['so'], ())
        self.t0 = time.time()
        self.deadline = self.t0 + case.budget * cfg.get('scale', 1.0)
        self.tried = set()
        self.paths = []

    def close(self):
        self.ex.close()
        self.nat.close()

    # ------------------------------------------------------------ concrete side
    def admissible(self, env):
        for a in self.case.assume:
            try:
                if not meval(a, env):
                    return False
            except Undefined:
                return False
        for v in self.case.vars:
            b = self.case.boxes.get(v.imm)
            if b is not None:
                x = const_float(v.sort, env[v.imm]) if v.sort in FL else env[v.imm]
                if not (b[0] <= x <= b[1]):
                    return False
        return True

    def concrete(self, env):
        """run natively; returns list of violated goals [(name, detail)]"""
        c = self.case
        st, data = self.nat.run(c.fn, pack(c.slots, env), c.nout)
        self.stats['native_runs'] = self.stats.get('native_runs', 0) + 1
        must = False
        if c.panic is not None:
            try:
                must = bool(meval(c.panic, env))
            except Undefined:
                must = None
        if st != 'ok':
            if st == 'signal 14':
                return [('terminates', 'no result within 30 s')]
            if c.panic is not None and (must or must is None):
                return []
            return [('no panic', 'the call ended with ' + st)]
        if must:
            return [('rejects', 'the call returned instead of panicking')]
        bad = []
        try:
            goals = c.check(NatRd(data))
        except BadOut as e:
            return [('output', str(e))]
        for name, g in goals:
            try:
                ok = meval(g, env)
                d = 'false'
            except Undefined as e:
                ok, d = False, str(e)
                if 'non-finite' not in d:
                    raise RuntimeError('specification undefined in %s/%s: %s' % (c.name, name, d))
            if not ok:
                vals = []
                for t in topo([g]):
                    if t.op == 'const' and t.sort in FL:
                        vals.append(const_float(t.sort, t.imm))
                bad.append((name, '%s; observed values in the assertion %s' % (d, vals[:8])))
        return bad

    def attempt(self, env):
        key = tuple(env[v.imm] for v in self.case.vars)
        if key in self.tried:
            return
        self.tried.add(key)
        if not self.admissible(env):
            return
        bad = self.concrete(env)
        if bad:
            raise Violation(env, bad[0][0], bad[0][1])

    def rand_env(self):
        if self.case.sample is not None:
            return self.case.sample(self.rng)
        env = {}
        mode = self.rng.random()
        for v in self.case.vars:
            lo, hi = self.case.boxes.get(v.imm, (-4.0, 4.0))
            if v.sort in FL:
                r = self.rng.random()
                if r < 0.1:
                    x = self.rng.choice([lo, hi])
                elif r < 0.2 and lo <= 0 <= hi:
                    x = 0.0
                elif r < 0.35:
                    x = self.rng.choice([lo, hi, 0.5 * (lo + hi)]) + (hi - lo) * self.rng.choice([1e-2, 1e-3, -1e-2, 1e-4])
                else:
                    x = self.rng.uniform(lo, hi)
                x = min(max(x, lo), hi)
                env[v.imm] = self.fit(v.sort, x, lo, hi)
            else:
                env[v.imm] = self.rng.randint(int(lo), int(hi)) if v.imm in self.case.boxes else self.rng.randint(0, (1 << int(v.sort[1:])) - 1)
        return env

    def odd_env(self):
        """inputs of any magnitude, special values, and inputs that (nearly) coincide"""
        env = self.rand_env()
        rng = self.rng
        fl = [v for v in self.case.vars if v.sort in FL]
        # sometimes one magnitude for all of them
        mag = rng.uniform(-60, 20) if rng.random() < 0.5 else None
        for v in fl:
            b = self.case.boxes.get(v.imm)
            r = rng.random()
            if r < 0.4:
                continue
            if b is None and r < 0.5:
                x = rng.choice([0.0, -0.0, float('inf'), float('-inf'), float('nan'), 1.0, -1.0, 5e-324 if v.sort == 'f64' else 1e-45,
                                1.7976931348623157e308 if v.sort == 'f64' else 3.4028234663852886e38, 2.0 ** 53, 0.5, 3.4028234663852886e38, 3.4028235e38 * 1.0000001 if v.sort == 'f64' else 1e38])
                env[v.imm] = nearest(v.sort, x) if x == x else (0x7fc00000 if v.sort == 'f32' else 0x7ff8 << 48)
                continue
            x = rng.choice([-1, 1]) * 2.0 ** (mag if mag is not None else rng.uniform(-60, 20) if rng.random() < 0.7 else rng.uniform(-149, 127)) * rng.uniform(0.5, 1)
            if b is not None:
                x = min(max(x, b[0]), b[1])
                env[v.imm] = self.fit(v.sort, x, *b)
            else:
                env[v.imm] = nearest(v.sort, x)
        if len(fl) > 1 and rng.random() < 0.7:
            # make most of them pairwise equal, or equal up to a few units in the last place
            for v in fl:
                if rng.random() < 0.5:
                    w = rng.choice(fl)
                    if w.sort == v.sort:
                        k = env[w.imm] + (rng.choice([-2, -1, 1, 2, 3]) if rng.random() < 0.5 else 0)
                        x = const_float(v.sort, k & ((1 << (32 if v.sort == 'f32' else 64)) - 1))
                        b = self.case.boxes.get(v.imm)
                        if b is None or b[0] <= x <= b[1]:
                            env[v.imm] = nearest(v.sort, x) if x == x else env[w.imm]
        return env

    def fit(self, sort, x, lo, hi):
        b = nearest(sort, x)
        y = const_float(sort, b)
        T = np.float32 if sort == 'f32' else np.float64
        if y > hi:
            y = float(np.nextafter(T(y), T(-np.inf)))
        if y < lo:
            y = float(np.nextafter(T(y), T(np.inf)))
        return nearest(sort, y)

    def from_model(self, ins):
        env = {}
        for v in self.case.vars:
            lo, hi = self.case.boxes.get(v.imm, (-4.0, 4.0))
            x = ins.get(v.imm)
            if x is None:
                x = Fraction(lo) if v.sort not in FL else Fraction(0.5 * (lo + hi))
            if v.sort in FL:
                env[v.imm] = self.fit(v.sort, x, lo, hi)
            else:
                env[v.imm] = int(round(x))
        return env

    def hunt(self, base_envs, n):
        """look for a concrete violation near solver models"""
        for e in base_envs:
            self.attempt(e)
        fl = [v for v in self.case.vars if v.sort in FL]
        for k in range(n):
            if time.time() > self.deadline + 30:
                break
            if base_envs and k % 2 == 0 and fl:
                e = dict(self.rng.choice(base_envs))
                for v in (fl if self.rng.random() < 0.5 else [self.rng.choice(fl)]):
                    x = const_float(v.sort, e[v.imm])
                    lo, hi = self.case.boxes.get(v.imm, (-4.0, 4.0))
                    if math.isfinite(x):
                        d = self.rng.choice([1e-7, 1e-5, 1e-3, 1e-2, 0.1]) * self.rng.uniform(-1, 1) * max(abs(x), 1e-3 * (hi - lo))
                        e[v.imm] = self.fit(v.sort, min(max(x + d, lo), hi), lo, hi)
                self.attempt(e)
            else:
                self.attempt(self.odd_env() if k % 4 == 1 and self.case.sample is None else self.rand_env())

    # ------------------------------------------------------------ symbolic side
    def mkctx(self, lits):
        c = self.case
        ctx = Ctx(c.boxes, [], self.stats)
        ctx.affine = c.affine
        ctx.opaque = c.opaque
        todo = list(lits)
        for rnd in range(4):
            later = []
            first = None
            for t, pol in todo:
                try:
                    ctx.assume(t, pol)
                except Split as s:
                    first = first or s
                    later.append((t, pol))
            if not later:
                break
            if len(later) == len(todo):
                raise first
            todo = later
        ctx.repropagate()
        return ctx

    def blits(self):
        return [(a, True) for a in self.case.assume]

    def feasible(self, lits):
        """False only if the literals are contradictory"""
        try:
            ctx = self.mkctx(lits)
        except Split:
            return True
        if ctx.infeasible:
            return False
        if not self.case.feas:
            return True
        try:
            fs = ctx.base_forms()
        except Split:
            return True
        r = ctx.check(fs, timeout=1000, nra=False)
        return r != z3.unsat

    def branch(self, lits, cond):
        """list of (polarity, literals)"""
        if self.case.mode == 'fp':
            out = []
            for pol in (True, False):
                l2 = lits + [(cond, pol)]
                if self.fpcheck(l2, None, 4000)[0] != z3.unsat:
                    out.append((pol, l2))
            return out
        try:
            ctx = self.mkctx(lits)
            if ctx.infeasible:
                return []
            d = ctx.decide(cond)
        except Split as s:
            if cond is s.cond:
                d = None
            else:
                out = []
                for pol in (True, False):
                    l2 = lits + [(s.cond, pol)]
                    if self.feasible(l2):
                        out += self.branch(l2, cond)
                return out
        if d is not None:
            return [(d, lits)]
        out = []
        for pol in (True, False):
            l2 = lits + [(cond, pol)]
            if self.feasible(l2):
                out.append((pol, l2))
        return out

    def explore(self):
        c = self.case
        ev = self.ex.start(c.fn, c.nout, c.slots)
        work = [(ev, self.blits())]
        n = 0
        while work:
            ev, lits = work.pop()
            if time.time() > self.deadline:
                raise Undecided('time limit while exploring paths')
            if ev[0] == 'branch':
                _, sid, cond = ev
                for pol, l2 in self.branch(lits, cond):
                    work.append((self.ex.fork(sid, 1 if pol else 0), l2))
                self.ex.drop(sid)
            elif ev[0] == 'conc':
                _, sid, t = ev
                for v, l2 in self.values(lits, t):
                    work.append((self.ex.conc(sid, v), l2))
                self.ex.drop(sid)
            else:
                n += 1
                if n > c.maxpaths:
                    raise Undecided('more than %d paths' % c.maxpaths)
                self.path(ev, lits)
                self.ex.drop(ev[1])
        return n

    def values(self, lits, t):
        try:
            ctx = self.mkctx(lits)
            if ctx.infeasible:
                return []
            P, E, lo, hi = ctx.rep(t)
        except Split as s:
            out = []
            for pol in (True, False):
                l2 = lits + [(s.cond, pol)]
                if self.feasible(l2):
                    out += self.values(l2, t)
            return out
        if E == INF or hi - lo > 4000 or hi - lo != hi - lo:
            raise Undecided('address or length depends on an input in an unbounded way: %r' % t)
        out = []
        for v in range(int(math.floor(lo)), int(math.ceil(hi)) + 1):
            l2 = lits + [(Term('eq', 'i1', None, (t, const(t.sort, v))), True)]
            if lo == hi or self.feasible(l2):
                out.append((v, l2))
        return out

    def path(self, ev, lits, known=None):
        c = self.case
        _, sid, status, detail = ev
        if status in ('unsupported', 'limit'):
            # make sure the path is real before giving up on it
            if self.prove(lits, FALSE, 'infeasible path', quiet=True):
                return
            raise Undecided('%s: %s' % (status, detail))
        if status != 'ok':
            goal = c.panic if (status in ('panic', 'unreachable') and c.panic is not None) else FALSE
            self.paths.append((lits, None, status))
            self.prove(lits, goal, 'no panic (%s %s)' % (status, detail[:80]), kind=status)
            return
        rd = SymRd(self.ex, sid)
        rd.known = known or {}
        try:
            goals = c.check(rd)
        except NeedConst as e:
            for v, l2 in self.values(lits, e.t):
                self.path(ev, l2, {**rd.known, e.t: v})
            return
        except BadOut as e:
            self.prove(lits, FALSE, 'output: %s' % e)
            return
        self.paths.append((lits, rd.log, 'ok'))
        if c.panic is not None:
            goals = [('rejects invalid input', Not(c.panic))] + list(goals)
        for name, g in goals:
            self.prove(lits, g, name)

    # ------------------------------------------------------------ obligations
    def prove(self, lits, goal, name, quiet=False, kind=None):
        self.stats['obligations'] = self.stats.get('obligations', 0) + 1
        if goal is TRUE:
            # literally true on this path (e.g. a concrete output compared with a constant)
            self.stats['trivial'] = self.stats.get('trivial', 0) + 1
            self.stats['discharged'] = self.stats.get('discharged', 0) + 1
            return True
        if self.case.mode == 'fp':
            return self.prove_fp(lits, goal, name, quiet)
        cands = []
        stack = [(lits, 0)]
        leaves = 0
        while stack:
            l, depth = stack.pop()
            if time.time() > self.deadline:
                return self.fail(cands, name, 'time limit', quiet, kind)
            leaves += 1
            if leaves > 4000:
                return self.fail(cands, name, 'too many case splits', quiet, kind)
            try:
                ctx = self.mkctx(l)
                if ctx.infeasible:
                    continue
                neg = ctx.zgoal(goal)
                forms = ctx.base_forms() + [neg]
            except Split as s:
                stack.append((l + [(s.cond, True)], depth))
                stack.append((l + [(s.cond, False)], depth))
                self.stats['splits'] = self.stats.get('splits', 0) + 1
                continue
            r, mdl = ctx.check(forms, timeout=4000, nra=False, model=True)
            if r == z3.unsat:
                continue
            if mdl is not None:
                cands.append(self.from_model(ctx.model_inputs(mdl)))
            done = False
            if self.case.nra:
                for it in range(3):
                    r, mdl = ctx.check(forms, timeout=self.case.goal_timeout if it == 0 else 5000, nra=True, model=True)
                    if r == z3.unsat:
                        done = True
                        break
                    if mdl is None:
                        break
                    ins = ctx.model_inputs(mdl)
                    e = self.from_model(ins)
                    cands.append(e)
                    if not quiet:
                        self.attempt(e)
                    if not ctx.add_points(mdl):
                        break
            if done:
                continue
            # refine by halving an input's range
            s = self.bisect_lit(ctx, goal) if depth < self.case.bisect else None
            if os.environ.get('VERIF_DBG') and (s is None or depth == int(os.environ['VERIF_DBG'])):
                self.dump(ctx, l, goal, name, depth)
            if s is None:
                return self.fail(cands, name, 'solver: %s' % r, quiet, kind)
            stack.append((l + [(s, True)], depth + 1))
            stack.append((l + [(s, False)], depth + 1))
            if not quiet and len(cands) % 7 == 3:
                self.hunt(cands[-4:], 12)
        self.stats['discharged'] = self.stats.get('discharged', 0) + 1
        return True

    def dump(self, ctx, lits, goal, name, depth):
        from real import norm
        print('STUCK', self.case.name, '|', name, 'depth', depth)
        for t, p in lits:
            print('  lit', p, str(t)[:160])

        def walk(g):
            g = norm(g)
            if g.op in ('and', 'or', 'not'):
                for a in g.args:
                    walk(a)
            elif g.op in ctx.CMP:
                d = ctx.diff(g)
                if d is None:
                    print('  cmp None', str(g)[:300])
                    for a in g.args:
                        for x in topo([a]):
                            if x.id in ctx.memo and ctx.memo[x.id][1] == INF:
                                print('   first INF:', x.op, str(x)[:200], [ctx.memo[y.id][1:] for y in x.args if y.id in ctx.memo])
                                break
                else:
                    D, e, k, lo, hi = d
                    print('  cmp', k, 'terms', len(D), 'e', e, 'lo', lo, 'hi', hi)
                    if len(D) < 16:
                        print('   ', {m: float(v) for m, v in D.items()})
        walk(goal)
        for a in ctx.atoms:
            print('   atom', a.id, a.kind, (a.data.imm if a.kind == 'in' else str({m: round(float(v), 4) for m, v in a.data.items()})[:200] if isinstance(a.data, dict) else str(a.data)[:200]), a.lo, a.hi)
        sys.stdout.flush()

    def bisect_lit(self, ctx, goal):
        best = None
        for a in ctx.atoms:
            if a.kind == 'in' and a.data.sort in FL:
                lo, hi = self.case.boxes[a.data.imm]
                w = (a.hi - a.lo) / max(hi - lo, 1e-30)
                if a.hi - a.lo > 1e-6 * max(abs(a.lo), abs(a.hi)) and (best is None or w > best[0]):
                    best = (w, a)
        if best is None:
            return None
        a = best[1]
        if a.lo > 0 and a.hi / a.lo > 16:
            mid = math.sqrt(a.lo * a.hi)
        else:
            mid = 0.5 * (a.lo + a.hi)
        return Term('flt', 'i1', None, (a.data, const(a.data.sort, nearest(a.data.sort, mid))))

    def fail(self, cands, name, why, quiet, kind=None):
        if quiet:
            return False
        if kind == 'memfault':
            # an out-of-bounds access need not crash: let valgrind see it
            for e in cands[:6]:
                if self.admissible(e) and self.memcheck(e):
                    raise Violation(e, name, 'invalid memory access confirmed by valgrind')
        self.hunt(cands[-40:], self.cfg.get('hunt', 400))
        raise Undecided('%s: %s' % (name, why))

    def memcheck(self, env):
        import subprocess
        b = self.cfg[self.case.build]
        cmd = ['valgrind', '-q', '--error-exitcode=99', '--trace-children=yes', self.cfg['runner'], b['so']]
        inp = '%s %d %s\n' % (self.case.fn, self.case.nout, pack(self.case.slots, env).hex())
        try:
            p = subprocess.run(cmd, input=inp, capture_output=True, text=True, timeout=120)
        except Exception:
            return False
        return 'Invalid read' in p.stderr or 'Invalid write' in p.stderr or 'exit 99' in p.stdout

    def fpcheck(self, lits, goal, timeout):
        f = FpCtx(self.stats)
        fs = []
        for t, pol in lits:
            z = f.tr(t)
            fs.append(z if pol else z3.Not(z))
        for v in self.case.vars:
            b = self.case.boxes.get(v.imm)
            z = f.tr(v)
            if b is not None:
                if v.sort in FL:
                    fs.append(z3.And(z3.fpGEQ(z, z3.FPVal(b[0], z.sort())), z3.fpLEQ(z, z3.FPVal(b[1], z.sort()))))
                else:
                    fs.append(z3.And(z3.UGE(z, int(b[0])), z3.ULE(z, int(b[1]))))
        if goal is not None:
            fs.append(z3.Not(f.tr(goal)))
        return f.check(fs, timeout)

    def prove_fp(self, lits, goal, name, quiet):
        r, env = self.fpcheck(lits, goal, max(1000, int(min(self.case.goal_timeout, (self.deadline - time.time()) * 1000))))
        if r == z3.unsat:
            self.stats['discharged'] = self.stats.get('discharged', 0) + 1
            return True
        if quiet:
            return False
        if env is not None:
            self.attempt(env)
        if env is None:
            # all inputs but one (or two) fixed make the query small; only a model counts
            for k in range(12):
                if time.time() > self.deadline + 30:
                    break
                e = self.odd_env() if k % 2 else self.rand_env()
                if not self.admissible(e):
                    continue
                free = self.rng.sample(self.case.vars, min(len(self.case.vars), 1 + k % 2))
                fix = [(Term('eq', 'i1', None, (Term('bitcast', 'i%d' % (32 if v.sort == 'f32' else 64), None, (v,)) if v.sort in FL else v,
                                                 const('i%d' % (32 if v.sort == 'f32' else 64) if v.sort in FL else v.sort, e[v.imm]))), True) for v in self.case.vars if v not in free]
                r2, env2 = self.fpcheck(lits + fix, goal, 4000)
                if env2 is not None:
                    self.attempt(env2)
        self.hunt([env] if env else [], 6 * self.cfg.get('hunt', 400))
        raise Undecided('%s: solver: %s (model did not reproduce)' % (name, r) if env else '%s: solver %s' % (name, r))

    # ------------------------------------------------------------ vacuity and encoding validation
    def validate(self, n=3):
        """concrete inputs must satisfy the assumptions, follow exactly one explored path, and give
        natively the outputs the encoding predicts, bit for bit"""
        c = self.case
        found = 0
        for k in range(400):
            env = self.rand_env()
            if not self.admissible(env):
                continue
            st, data = self.nat.run(c.fn, pack(c.slots, env), c.nout)
            hit = 0
            for lits, log, status in self.paths:
                if self.follows(lits, env):
                    hit += 1
                    if (status == 'ok') != (st == 'ok'):
                        raise Undecided('encoding disagrees with native run: %s vs %s at %s' % (status, st, show_env(c, env)))
                    if status == 'ok':
                        for off, ts in log:
                            vals = ceval(ts, env)
                            o = off
                            for t, v in zip(ts, vals):
                                s = SZ[t.sort]
                                w = int.from_bytes(data[o:o + s], 'little')
                                o += s
                                if v != w:
                                    if t.sort in FL and const_float(t.sort, v) != const_float(t.sort, v) and const_float(t.sort, w) != const_float(t.sort, w):
                                        continue
                                    raise Undecided('encoding disagrees with native run at offset %d: %r vs %r at %s' % (off, const_float(t.sort, v) if t.sort in FL else v, const_float(t.sort, w) if t.sort in FL else w, show_env(c, env)))
            if hit == 0:
                raise Undecided('a concrete input follows no explored path: %s' % show_env(c, env))
            found += 1
            if found >= n:
                break
        if found == 0:
            raise Undecided('no concrete input satisfies the assumptions (vacuous case)')
        self.stats['witnesses'] = self.stats.get('witnesses', 0) + found

    def follows(self, lits, env):
        for t, pol in lits:
            if any(x.sort == 'R' for x in topo([t])):
                try:
                    v = bool(meval(t, env))
                except Undefined:
                    return False
            else:
                v = bool(ceval([t], env)[0])
            if v != pol:
                return False
        return True


def run_case(cfg, case, seed):
    stats = {}
    res = {'case': case.name, 'fn': case.fn, 'build': case.build, 'mode': case.mode, 'status': 'ok'}
    t0 = time.time()
    r = None
    try:
        r = Runner(cfg, case, seed, stats)
        r.ex.canon = case.opaque
        res['paths'] = r.explore()
        r.validate()
    except Violation as v:
        res.update(status='violation', goal=v.goal, detail=v.detail, env={k: '%x' % b for k, b in v.env.items()}, inputs=show_env(case, v.env),
                   input_hex=pack(case.slots, v.env).hex())
    except Undecided as e:
        res.update(status='undecided', detail=str(e))
    except Exception as e:
        res.update(status='error', detail=traceback.format_exc()[-1500:])
    if r is not None:
        try:
            ic, fs = r.ex.funcs()
            res['instructions'] = ic
            res['functions'] = fs
        except Exception:
            pass
        r.close()
    res['wall'] = round(time.time() - t0, 2)
    res['stats'] = stats
    return res
