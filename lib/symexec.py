"""Driver for irsym, the symbolic executor of LLVM IR, and the term language shared by
the code (rounded machine arithmetic) and the specification (exact arithmetic)."""
import struct, subprocess, sys

FL = {'f32': (8, 24), 'f64': (11, 53)}


def f64bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def f32bits(x):
    return struct.unpack('<I', struct.pack('<f', x))[0]


def bits_f64(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]


def bits_f32(b):
    return struct.unpack('<f', struct.pack('<I', b))[0]


def const_float(sort, bits):
    return bits_f64(bits) if sort == 'f64' else bits_f32(bits)


class Term:
    __slots__ = ('op', 'sort', 'imm', 'args', 'id')
    _tab = {}
    _n = 0

    def __new__(cls, op, sort, imm=None, args=()):
        key = (op, sort, imm, tuple(a.id for a in args))
        t = cls._tab.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op, t.sort, t.imm, t.args = op, sort, imm, tuple(args)
            t.id = cls._n
            cls._n += 1
            cls._tab[key] = t
        return t

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self, 4)


def show(t, depth=6):
    if t.op == 'var':
        return t.imm
    if t.op == 'const':
        if t.sort in FL:
            return repr(const_float(t.sort, t.imm))
        return str(t.imm)
    if depth <= 0:
        return '#%d' % t.id
    s = t.op if t.imm is None else '%s[%s]' % (t.op, t.imm)
    return '(%s %s)' % (s, ' '.join(show(a, depth - 1) for a in t.args))


def var(name, sort):
    return Term('var', sort, name)


def const(sort, bits):
    return Term('const', sort, bits)


class Exec:
    def __init__(self, binary, ll):
        self.p = subprocess.Popen([binary, ll], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1)
        self.terms = []
        self.vars = {}
        self.paths_run = 0
        self.canon = False

    def cmd(self, s):
        self.p.stdin.write(s + '\n')
        self.p.stdin.flush()
        r = self.p.stdout.readline()
        if not r:
            raise RuntimeError('irsym died on: ' + s)
        r = r.strip()
        if r.startswith('err'):
            raise RuntimeError('irsym: %s (on %s)' % (r, s[:200]))
        return r

    def var(self, name, sort):
        if name in self.vars:
            return self.vars[name]
        r = self.cmd('var %s %s' % (name, sort))
        self.vars[name] = int(r.split()[1])
        return self.vars[name]

    def init(self, fn):
        return self.cmd('init ' + fn)

    def start(self, fn, outbytes, slots):
        """slots: list of (ty, value); value int bits or Term var"""
        s = []
        for ty, v in slots:
            if isinstance(v, Term):
                s.append('%s:t%d' % (ty, self.var(v.imm, v.sort)))
            else:
                s.append('%s:%x' % (ty, v))
        return self.event(self.cmd('start %s %d %s' % (fn, outbytes, ' '.join(s))))

    def event(self, r):
        w = r.split(None, 3)
        if w[0] == 'branch':
            return ('branch', int(w[1]), self.term(w[2]))
        if w[0] == 'conc':
            return ('conc', int(w[1]), self.term(w[2]))
        if w[0] == 'done':
            self.paths_run += 1
            return ('done', int(w[1]), w[2], w[3] if len(w) > 3 else '')
        raise RuntimeError('irsym: ' + r)

    def fork(self, sid, d):
        return self.event(self.cmd('fork %d %d' % (sid, d)))

    def conc(self, sid, v):
        return self.event(self.cmd('conc %d %d' % (sid, v)))

    def drop(self, sid):
        self.cmd('drop %d' % sid)

    def term(self, w):
        i = int(w.lstrip('t'))
        if i >= len(self.terms):
            self.fetch()
        return self.terms[i]

    def fetch(self):
        n = int(self.cmd('terms %d' % len(self.terms)).split()[-1])
        rl = self.p.stdout.readline
        for _ in range(n):
            w = rl().split()
            op, sort = w[0], w[1]
            if op == 'var':
                self.terms.append(Term('var', sort, w[2]))
                continue
            imm = int(w[2], 16)
            args = [self.terms[int(a)] for a in w[3:]]
            if op not in ('const', 'powi', 'extract') and imm == 0:
                imm = None
            if self.canon and op == 'fabs' and args[0].op == 'fsub' and args[0].args[0].id > args[0].args[1].id:
                # |x - y| = |y - x|, bit for bit
                args = [Term('fsub', sort, None, args[0].args[::-1])]
            self.terms.append(Term(op, sort, imm, args))

    def outs(self, sid, ty, off, count):
        r = self.cmd('outs %d %s %d %d' % (sid, ty, off, count)).split()
        res = []
        for w in r:
            if w == 'undef':
                res.append(None)
            elif w.startswith('t'):
                res.append(self.term(w))
            else:
                res.append(const(ty, int(w, 16)))
        return res

    def funcs(self):
        r = self.cmd('funcs').split()
        return int(r[0]), r[1:]

    def close(self):
        try:
            self.p.stdin.write('quit\n')
            self.p.stdin.close()
        except Exception:
            pass
        self.p.kill()
        self.p.wait()
