"""CRC-32 (P14): bit-linear normal form of the checksum routine."""
import aw
import geo
import lib
import vg
import wit
from sym import *

PRE = aw.OUT + r'''
#include "qdp.h"
#pragma clang attribute push(__attribute__((always_inline)), apply_to = function)
#include "%s/lib/qdp_crc32.cc"
#pragma clang attribute pop
''' % lib.REPO

prelude = PRE



W = 64


class NotLinear(Exception):
    pass


class Und(Exception):
    pass


class Carry(Und):
    pass


class Bits:
    """affine forms over GF(2): a form is a bit mask over numbered unknowns, bit 0 is the constant one"""

    def __init__(self, module):
        self.m = module
        self.num = {}
        self.memo, self.envs = {}, {}
        self.tables = {}
        self.reads = None            # byte offsets read, while a loop body is analysed

    def unknown(self, *key):
        return 1 << self.num.setdefault(key, len(self.num) + 1)

    def word(self, key, w):
        return [self.unknown(key, i) for i in range(w)] + [0] * (W - w)

    @staticmethod
    def const(n):
        n &= (1 << W) - 1
        return [n >> i & 1 for i in range(W)]

    @staticmethod
    def xor(a, b):
        return [x ^ y for x, y in zip(a, b)]

    def poly(self, p, env):
        """two's complement bits of an integer normal form"""
        if p.isconst():
            return self.const(int(p.const()))
        pos, neg = {}, {}
        for m, c in p.d.items():
            (pos if c > 0 else neg)[m] = c
        if neg and p.const() < 0 and not any(m for m in pos) and () in neg:
            return [x ^ 1 for x in self.poly(C(0) - p - C(1), env)]          # -1 - y is the complement of y
        if list(neg) == [()]:
            return self.add(self.const(int(neg[()])), self.poly(p - C(neg[()]), env))
        if neg:
            for m, c in neg.items():                                        # x/a - (b/a)*(x/b): the bits of x from a to b
                at = ATOMS[m[0][0]] if len(m) == 1 and m[0][1] == 1 else ('',)
                k = self.log2(at[2]) if at[0] == 'fl' else None
                if k is None:
                    continue
                for m1, s in pos.items():
                    at1 = ATOMS[m1[0][0]] if len(m1) == 1 and m1[0][1] == 1 else ('',)
                    k1 = self.log2(at1[2]) if at1[0] == 'fl' and at1[1] == at[1] else None
                    if k1 is not None and k1 < k and -c == s << (k - k1):
                        low = self.poly(at[1], env)[k1:k] + [0] * (W - k + k1)
                        return self.add(self.scale(low, s), self.poly(p - A(m[0][0]) * C(c) - A(m1[0][0]) * C(s), env))
                s = -c >> k
                rest = p - A(m[0][0]) * C(c) - at[1] * C(s)
                if -c == s << k and len(rest.d) < len(p.d):
                    low = self.poly(at[1], env)[:k] + [0] * (W - k)
                    return self.add(self.scale(low, s), self.poly(rest, env))
            if not pos:
                w = self.poly(C(0) - p, env)
                if not any(w[1:]):
                    return [w[0]] * W                                       # minus one bit: all ones or nothing
            raise Und('difference %s' % p)
        r = self.const(0)
        for m, c in pos.items():
            r = self.add(r, self.scale(self.mono(m, env), c))
        return r

    def add(self, a, b):
        if any(x and y for x, y in zip(a, b)):
            raise Carry('a sum of data words is not a bitwise sum')
        return self.xor(a, b)

    def scale(self, a, c):
        if c != int(c) or int(c) & int(c) - 1:
            raise Und('multiple')
        k = int(c).bit_length() - 1
        return ([0] * k + a)[:W]

    def log2(self, n):
        n = int(n.const()) if isinstance(n, P) and n.isconst() else n
        return n.bit_length() - 1 if isinstance(n, int) and n > 0 and not n & n - 1 else None

    def mono(self, m, env):
        if not m:
            return self.const(1)
        if len(m) != 1 or m[0][1] != 1:
            raise Und('product')
        return self.atom(m[0][0], env)

    def tree(self, t, env):
        if not isinstance(t, T):
            return self.poly(t, env)
        if t.c is None:
            return self.poly(t.v, env) if isinstance(t.v, P) else self.const(1 if t is TRUE else 0)
        hi, lo = self.tree(t.hi, env), self.tree(t.lo, env)
        if hi == lo:
            return hi
        b = self.cond(t.c, env)
        if b in (0, 1):
            return hi if b else lo
        d = self.xor(hi, lo)
        if any(x not in (0, 1) for x in d):
            raise NotLinear('choice between values that depend on the data')
        return [y ^ (b if x else 0) for x, y in zip(d, lo)]

    def cond(self, c, env):
        q = CONDS[c]
        if q[0] == 'eq':
            v = self.poly(q[1] - q[2], env)
            bits = [x for x in v if x]
            if not bits:
                return 1
            if len(bits) == 1:
                return bits[0] ^ 1
        raise Und('condition')

    def atom(self, a, env):
        if a in env:
            return env[a]
        k = (a, id(env))
        self.envs[id(env)] = env                                              # keeps the identity unique
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self.atom1(a, env)
        return r

    def atom1(self, a, env):
        at = ATOMS[a]
        if at[0] == 'b':
            op, w = at[1], at[2]
            x = self.tree(at[3], env) if isinstance(at[3], T) else self.poly(at[3], env)
            y = self.tree(at[4], env) if isinstance(at[4], T) else self.poly(at[4], env)
            x, y = x[:w], y[:w]
            if op in ('shl', 'lshr', 'ashr'):
                if any(v not in (0, 1) for v in y):
                    raise Und('shift')
                k = sum(v << i for i, v in enumerate(y))
                if k >= w:
                    raise Und('shift')
                r = [0] * k + x[:w - k] if op == 'shl' else x[k:] + [x[w - 1] if op == 'ashr' else 0] * k
            elif op == 'xor':
                r = self.xor(x, y)
            elif op in ('and', 'or'):
                r = []
                for u, v in zip(x, y):
                    if u not in (0, 1):
                        u, v = v, u
                    if u not in (0, 1) and u != v:
                        raise NotLinear('%s of two data words' % op)
                    r.append(v if u == v else (v if u else 0) if op == 'and' else 1 if u else v)
            else:
                r = x
            return r + [x[w - 1] if op == 'sext' else 0] * (W - w)
        if at[0] == 'fl':
            k = self.log2(at[2])
            if k is None:
                raise Und('division')
            x = self.poly(at[1], env)
            return x[k:] + [x[W - 1]] * k
        if at[0] == 'mod':
            k = self.log2(at[2])
            if k is None:
                raise Und('remainder')
            return self.poly(at[1], env)[:k] + [0] * (W - k)
        if at[0] == 'ld':
            return self.load(at, env)
        return self.other(a, at, env)

    def load(self, at, env):
        p, sz = at[1], int(at[2])
        gl = [m[0][0] for m, c in p.d.items() if len(m) == 1 and c == 1 and ATOMS[m[0][0]][0] == 'glob']
        if gl:
            return self.lookup(gl[0], p - A(gl[0]), sz, env)
        return self.byte(p, sz)

    def byte(self, p, sz):
        raise Und('memory')

    def lookup(self, gl, off, sz, env):
        """value of a constant table at an index that is linear in the data"""
        name = ATOMS[gl][1]
        if (gl, sz) not in self.tables:
            g = self.m.globals.get(name)
            tab = {}
            for o, t, v in g['init'] if g and g.get('const', True) else []:
                x = self.ev.val(v)
                if isinstance(x, T) and x.c is None and isinstance(x.v, P) and x.v.isconst():
                    tab[int(o)] = int(x.v.const()) & (1 << 8 * sz) - 1
            self.tables[gl, sz] = tab
        tab = self.tables[gl, sz]
        ix = self.poly(off, env)
        free = [i for i, b in enumerate(ix) if b not in (0, 1)]
        if not tab or len(free) > 12:
            raise Und('table ' + name)
        base = sum(1 << i for i, b in enumerate(ix) if b == 1)

        def entry(o):
            if o in tab:
                return tab[o]
            raise NotLinear('reads %s outside its bounds' % name)
        t0 = entry(base)
        lin = [entry(base | 1 << i) ^ t0 for i in free]
        for k in range(1 << len(free)):
            e = t0
            for j in range(len(free)):
                if k >> j & 1:
                    e ^= lin[j]
            if e != entry(base | sum(1 << i for j, i in enumerate(free) if k >> j & 1)):
                raise NotLinear('entry %d of %s is not the sum of the entries of its bits' % ((base | sum(1 << i for j, i in enumerate(free) if k >> j & 1)) // sz, name))
        r = self.const(t0)
        for j, i in enumerate(free):
            r = self.xor(r, [ix[i] if lin[j] >> b & 1 else 0 for b in range(W)])
        return r


POLY = 0xedb88320


def tab1(n):
    for _ in range(8):
        n = n >> 1 ^ (POLY if n & 1 else 0)
    return n


class Crc(Bits):
    """state words: S(off) is the register after off bytes, S(0) the complement of the seed"""

    def __init__(self, module, ev):
        Bits.__init__(self, module)
        self.ev = ev
        self.data = mk('arg', 2)
        self.g = TRUE
        self.proved = 0

    def S(self, off):
        return self.word(('S', off), 32)

    def byte(self, p, sz):
        r = []
        for j in range(sz):
            r += [self.unknown('byte', p - self.data + C(j), i) for i in range(8)]
            if self.reads is not None:
                self.reads.add(p - self.data + C(j))
        return r + [0] * (W - 8 * sz)

    def step(self, s, off):
        """the defining recurrence: one byte through the shift register"""
        ix = [a ^ self.unknown('byte', off, i) for i, a in enumerate(s[:8])]
        r = s[8:32] + [0] * 8
        for i in range(8):
            t = tab1(1 << i)
            r = [x ^ (ix[i] if t >> b & 1 else 0) for b, x in enumerate(r)]
        return r + [0] * (W - 32)

    def advance(self, v, most=24):
        """(off, j): v is the register S(off) advanced over j bytes"""
        inv = {k: key for key, k in self.num.items()}
        used = {inv[i] for x in v for i in range(1, x.bit_length()) if x >> i & 1}
        offs = {k[0][1] for k in used if isinstance(k[0], tuple) and k[0][0] == 'S'}
        if len(offs) != 1:
            raise Und('no register')
        off = offs.pop()
        s = self.S(off)
        for j in range(most):
            if s[:32] == v[:32]:
                return off, j
            s = self.step(s, off + C(j))
        return off, None

    def atom1(self, a, env):
        at = ATOMS[a]
        if at == ('arg', 1):
            return self.xor(self.S(ZERO), self.const(0xffffffff))
        if at[0] == 'rec':
            body, n, init = at[1:4]
            init = restrict(init, self.g) if isinstance(init, T) else L(init)
            n = restrict(n, self.g) if isinstance(n, T) else L(n)
            if n.c is not None:
                raise Und('number of iterations')
            v = self.tree(init, env)
            off, j = self.advance(v)
            if j is None:
                raise Wrong('the register is wrong before the loop')
            off = off + C(j)
            self_ = mk('recphi', 0, 'self').single()
            bv = bvar(90)
            saved, self.reads = self.reads, set()
            body = restrict(body, self.g) if isinstance(body, T) else L(body)
            w = self.tree(body, {self_: self.S(('x', a))})
            reads, self.reads = self.reads, saved
            s = len(reads)
            k = bv if isinstance(bv, P) else A(bv)
            st = self.S(('x', a))
            for j in range(s):
                st = self.step(st, off + k * C(s) + C(j))
            if w[:32] != st[:32]:
                raise Wrong('an iteration of the loop is not %d steps of the register over the next bytes' % s)
            self.proved += 1
            return self.S(off + n.v * C(s))
        return Bits.atom1(self, a, env)

    def other(self, a, at, env):
        raise Und('value %s' % (at[0],))


class Wrong(Exception):
    pass


def leaves(t, g=TRUE):
    """(path guard, value) split at the conditions on the length; conditions on the data stay in the value"""
    seen, todo, cs = set(), [t], set()
    while todo:
        x = todo.pop()
        if x.c is not None and x.id not in seen:
            seen.add(x.id)
            todo += [x.hi, x.lo]
            cs.add(x.c)
    for c in sorted(cs):
        if not data(CONDS[c][1:]):
            v = var(c)
            return leaves(restrict(t, v), band(g, v)) + leaves(restrict(t, bnot(v)), band(g, bnot(v)))
    return [(g, t)]


def data(x):
    if isinstance(x, P):
        return any(data(ATOMS[a]) for m in x.d for a, _ in m)
    if isinstance(x, tuple):
        return bool(x) and (x[0] in ('b', 'xor', 'ld', 'rec', 'recphi') or x == ('arg', 1) or any(data(y) for y in x[1:] if isinstance(y, (P, tuple))) or any(data(y) for y in x[:1] if isinstance(y, (P, tuple))))
    return False


def eqfacts(g):
    r = []
    while g.c is not None:
        q = CONDS[g.c]
        if g.lo is FALSE:
            if q[0] == 'eq':
                r.append(q[1] - q[2])
            g = g.hi
        elif g.hi is FALSE:
            g = g.lo
        else:
            break
    return r


INSTANCES = list(range(0, 26)) + [32, 33, 63, 64, 71, 2 ** 31 - 1, 2 ** 31 + 9, 2 ** 32, 2 ** 32 + 9]


class CRC(aw.AW):
    n = None

    def __init__(self, name, params, body):
        aw.AW.__init__(self, name, params, body, [], opts=vg.Opts(bits=True))

    def verdict(self, t, fn, ev, nconst):
        """(kind, text) problems of one value tree"""
        out = []
        B = Crc(fn.module, ev)
        n = mk('arg', 3) if nconst is None else C(nconst)
        buf = bnot(c_eq0(mk('arg', 2)))
        zero = restrict(t, c_eq0(mk('arg', 2)))
        cnt = 1
        if not (zero.c is None and zero.v == ZERO):
            out.append(('bad' if zero.c is None and isinstance(zero.v, P) and zero.v.isconst() else 'undecided', 'a null buffer does not give 0'))
        for g, v in leaves(restrict(t, buf)):
            cnt += 1
            B.g = g
            B.memo, B.envs = {}, {}
            try:
                w = B.xor(B.tree(v, {}), B.const(0xffffffff))
                if nconst is not None and all(x in (0, 1) for x in w):
                    raise Wrong('the result is a constant, whatever the checksum given' + ' (%d bytes)' % nconst)
                off, j = B.advance(w)
                if j is None:
                    raise Wrong('the result is not the complement of the register' + (' after %d bytes' % nconst if nconst is not None else ''))
                rest = n - off - C(j)
                for f in eqfacts(g):
                    for c in (1, -1):
                        if rest.d and (rest + f * C(c)).isconst() and len((rest + f * C(c)).d) < len(rest.d):
                            rest = rest + f * C(c)
                if rest.d:
                    if rest.isconst() and nconst is not None:
                        raise Wrong('%d of %d bytes enter the checksum' % (nconst - int(rest.const()), nconst))
                    raise Und('number of bytes: %s left' % rest)
            except NotLinear as e:
                out.append(('bad', str(e)))
            except Wrong as e:
                out.append(('bad', str(e)))
            except Und as e:
                out.append(('bad' if nconst in (1, 2) and isinstance(e, Carry) else 'undecided', '%s%s' % ('' if isinstance(e, Carry) else 'opaque: ', e)))
        return cnt + B.proved, out

    def analyse(self, fn):
        PTR.add(mk('arg', 0).single())
        PTR.add(mk('arg', 2).single())
        RANGE[mk('arg', 3).single()] = (0, None)
        ev = vg.Ev(fn, self.opts).run()
        o = mk('arg', 0)
        t = vg.asnum(ev.ld(o + C(aw.SLOT['v'][0]), 4, 'i32', TRUE))
        import lat
        loc = lat.lastloc2(ev)
        num, out = self.verdict(t, fn, ev, self.n)
        if out and self.n is None:
            for n in INSTANCES:
                k, o2 = self.verdict(subst_t(t, {mk('arg', 3).single(): C(n)}), fn, ev, n)
                num += k
                bad = [x for x in o2 if x[0] == 'bad']
                if bad:
                    out = bad
                    break
        return num, [(k, 'QDPUtil::crc32 (lib/qdp_crc32.cc): ' + m, loc) for k, m in out], ev


PAR = ['unsigned c', 'const unsigned char* p']


def crcs():
    ws = [CRC('crc', PAR + ['unsigned long n'], 'o.v[0] = QDPUtil::crc32(c, p, n);'),
          CRC('crcc', ['unsigned c', 'const char* p', 'unsigned long n'], 'o.v[0] = QDPUtil::crc32(c, p, n);')]
    for n in list(range(0, 18)) + [2 ** 31 + 9, 2 ** 32 + 9]:
        w = CRC('crc_%d' % n, PAR, 'o.v[0] = QDPUtil::crc32(c, p, %dul);' % n)
        w.n = n
        ws.append(w)
    return ws
