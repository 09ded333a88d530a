"""Random numbers (P18): seed arithmetic, the generator on scalars and fields, skewed multipliers, RANNYU."""
from fractions import Fraction
import aw
import geo
import lat
import lib
import spec
import vg
import wit
from algebra import ty
from sym import *
from spec import Ty, Val

DIG = 4096
BITS = 1 << 47


# ------------------------------------------------------------------ digit-level seed arithmetic
def dgt(E, p, k):
    x = mk('ld', E[p] + C(4 * k), 4)
    RANGE[x.single()] = (0, 4095 if k < 3 else 2047)
    return x


def low(x, n):
    return x - vg.fl(x, n).scale(n)


def mulspec(a, b):
    """digits of a*b modulo 2^47 (schoolbook with carries)"""
    i0 = a[0] * b[0]
    i1 = a[1] * b[0] + a[0] * b[1]
    i2 = a[2] * b[0] + a[1] * b[1] + a[0] * b[2]
    i3 = a[3] * b[0] + a[2] * b[1] + a[1] * b[2] + a[0] * b[3]
    d0 = low(i0, DIG)
    i1 = i1 + vg.fl(i0, DIG)
    d1 = low(i1, DIG)
    i2 = i2 + vg.fl(i1, DIG)
    d2 = low(i2, DIG)
    i3 = i3 + vg.fl(i2, DIG)
    return [d0, d1, d2, low(i3, 2048)]


def digits():
    ws = []
    S = ['Seed& a', 'Seed& b']
    rd = 'for(int k=0;k<4;++k) o.v[k] = c.elem().elem().elem(k).elem()'

    def D(E, p):
        return [dgt(E, p, k) for k in range(4)]

    def outs(f):
        return [('digit %d' % k, 'v%d' % k, lambda E, k=k: f(E)[k]) for k in range(4)]
    ws.append(aw.AW('seed_mul', S, 'Seed c; c = a * b; ' + rd, outs(lambda E: mulspec(D(E, 'a'), D(E, 'b')))))
    ws.append(aw.AW('seed_sq', ['Seed& a'], 'Seed c; c = a * a; ' + rd, outs(lambda E: mulspec(D(E, 'a'), D(E, 'a')))))
    ws.append(aw.AW('seed_copy', ['Seed& a'], 'Seed c; c = a; ' + rd, outs(lambda E: D(E, 'a'))))
    ws.append(aw.AW('seed_cctor', ['Seed& a'], 'Seed c(a); ' + rd, outs(lambda E: D(E, 'a'))))

    def ofint(E):
        n = E['n']
        return [low(n, DIG), low(vg.fl(n, DIG), DIG), low(vg.fl(n, DIG * DIG), DIG), ZERO]
    ws.append(aw.AW('seed_int', ['int n'], 'Seed c; c = n; ' + rd, outs(ofint), ranges={'n': (0, (1 << 31) - 1)}))
    ws.append(aw.AW('seed_intg', ['int n'], 'Integer i(n); Seed c; c = i; ' + rd, outs(ofint), ranges={'n': (0, (1 << 31) - 1)}))

    def shl(E, n):
        a = D(E, 'a')
        v = [x.scale(1 << n) for x in a]
        out, carry = [], ZERO
        for k in range(4):
            t = v[k] + carry
            m = DIG if k < 3 else 2048
            out.append(low(t, m))
            carry = vg.fl(t, DIG)
        return out
    for n in (1, 5, 12):
        ws.append(aw.AW('seed_shl%d' % n, ['Seed& a'], 'Seed c; c = a << %d; ' % n + rd, outs(lambda E, n=n: shl(E, n))))
    sq = 'for(int k=0;k<4;++k) o.v[k] = s.elem().elem().elem(k).elem(); '
    ws.append(aw.AW('seed_hex', ['Seed& a'], 'Seed s; s = 1222; s = (s << 12) | 1498; s = (s << 12) | 712; s = (s << 12) | 1645; ' + sq,
                    [('digit %d' % k, 'v%d' % k, lambda E, k=k: C((1645, 712, 1498, 1222)[k])) for k in range(4)]))

    def eq(E):
        g = TRUE
        for x, y in zip(D(E, 'a'), D(E, 'b')):
            g = band(g, c_eq0(x - y))
        return g
    ws.append(aw.AW('seed_eq', S, 'o.v[0] = toBool(a == b)', [('equality', 'v0', eq)]))
    ws.append(aw.AW('seed_ne', S, 'o.v[0] = toBool(a != b)', [('inequality', 'v0', lambda E: bnot(eq(E)))]))
    ws.append(aw.AW('seed_float', ['Seed& a'], 'Real r; r = seedToFloat(a); o.f[0] = r.elem().elem().elem().elem()',
                    [('value', 'f0', lambda E: sum((x.scale(Fraction(DIG ** k, BITS)) for k, x in enumerate(D(E, 'a'))), ZERO))]))
    for w in ws:
        w.setup = lambda E, w=w: [dgt(E, p, k) for p in w.pnames if p in 'ab' for k in range(4)]
    return ws


prelude0 = aw.OUT


# ------------------------------------------------------------------ seeds as elements of a commutative monoid
OPAQUE = '''
extern "C" __attribute__((const)) int w_ext_dig(int k, int a0, int a1, int a2, int a3, int b0, int b1, int b2, int b3);
namespace QDP {
inline PSeed<RScalar<INTEGER32> > operator*(const PSeed<RScalar<INTEGER32> >& a, const PSeed<RScalar<INTEGER32> >& b)
{
  PSeed<RScalar<INTEGER32> > d;
  for(int k=0; k < 4; ++k)
    d.elem(k).elem() = w_ext_dig(k, a.elem(0).elem(), a.elem(1).elem(), a.elem(2).elem(), a.elem(3).elem(), b.elem(0).elem(), b.elem(1).elem(), b.elem(2).elem(), b.elem(3).elem());
  return d;
}
}
#pragma clang attribute push(__attribute__((always_inline)), apply_to = function)
#include "%(R)s/lib/qdp_random.cc"
#pragma clang attribute pop
extern "C" void* w_acc_rmul(int i){ return &RNG::lattice_ran_mult->elem(i); }
extern "C" void* w_acc_rseed(){ return &RNG::ran_seed; }
extern "C" void* w_acc_rmult(){ return &RNG::ran_mult; }
extern "C" void* w_acc_rmultn(){ return &RNG::ran_mult_n; }
'''


INIT = 'namespace QDP { namespace RNG { __attribute__((noinline)) int numbits(int x); } }\n' + geo.SCALAR_INC + OPAQUE + lat.ACC + geo.ACCM1


def monomial(ds):
    """the seed a digit string stands for"""
    if all(d.isconst() for d in ds):
        v = [int(d.const()) for d in ds]
        if v == [1, 0, 0, 0]:
            return C(1)
        return mk('seedc', *ds)
    at = [ATOMS[d.single()] if d.single() is not None else None for d in ds]
    if all(t is not None and t[0] == 'dig' and t[1] == k for k, t in enumerate(at)) and all(t[2] == at[0][2] for t in at):
        return at[0][2]
    return mk('seedof', *ds)


def dig(k, m):
    if m == C(1):
        return C(1 if k == 0 else 0)
    x = ATOMS[m.single()] if m.single() is not None else None
    if x is not None and x[0] in ('seedof', 'seedc'):
        return x[1 + k]
    r = mk('dig', k, m)
    RANGE[r.single()] = (0, 4095 if k < 3 else 2047)
    return r


def hook(ev, ins, name, args, g):
    if name == 'w_ext_dig':
        a = [vg.asnum(x if isinstance(x, T) else L(x)) for x in args]
        return apply(lambda k, *d: dig(int(k.const()), monomial(d[:4]) * monomial(d[4:])), *a)
    return geo.geo_hook(ev, ins, name, args, g)

OPTS = vg.Opts(call_hook=hook, unroll=8)


def seed_at(p):
    return monomial([mk('ld', p + C(4 * k), 4) for k in range(4)])


def uniform(m):
    s = ZERO
    for k in range(4):
        s = s + dig(k, m).scale(Fraction(DIG ** k, BITS))
    return s


class RG(lat.LW):
    """random or gaussian numbers on a field"""

    def __init__(self, name, dest, body, kind, sub='Subset', args=()):
        lat.LW.__init__(self, name, dest, list(args), body, None, sub=sub)
        self.kind = kind
        self.opts = OPTS
        self.okbase = ('new', 'glob')
        self.ncall = len(dest.idx()) * dest.ncomp()

    def value(self, acc, ar, site):
        R = seed_at(acc.p('rseed'))
        An = seed_at(acc.p('rmultn'))
        M = seed_at(acc.p('rmul', site))
        d, k = {}, 0

        def pw(m, n):
            for _ in range(n):
                m = m * An
            return m
        nc = self.dest.ncomp()
        for i in self.dest.idx():
            u = [uniform(pw(R * M, k + p)) for p in range(nc)]
            if self.kind == 'gauss':
                w = [uniform(pw(R * M, self.ncall + k + p)) for p in range(nc)]
                # polar method from the first number of each pair
                rad = vg.mathfn('sqrt', [-vg.mathfn('log', [u[0]]).scale(2)])
                tp = Fraction(float(fround(6.283185307))) if self.dest.word == 'f' else Fraction(6.283185307)
                ang = w[0].scale(tp)
                u = [rad * vg.mathfn('cos', [ang])] + ([rad * vg.mathfn('sin', [ang])] if nc > 1 else [])
            k += nc
            d[i] = (u[0], u[1] if nc > 1 else None)
        return Val(self.dest, d)

    def analyse1(self, fn):
        keep = {}
        run = vg.Ev.run

        n, out, ev = lat.LW.analyse1(self, fn)
        # the seed afterwards
        acc = lat.Acc(fn.module, fn)
        S = self.S
        R, An = seed_at(acc.p('rseed')), seed_at(acc.p('rmultn'))
        m = R
        for _ in range(self.ncall * (2 if self.kind == 'gauss' else 1)):
            m = m * An
        cnt = acc.p('n', S)
        empty = c_le0(cnt)
        for k in range(4):
            q = acc.p('rseed') + C(4 * k)
            got = ev.ld(q, 4, 'i32', TRUE)
            n += 1
            for g, e, nm in ((bnot(empty), dig(k, m), 'nonempty'), (empty, mk('ld', q, 4), 'empty')):
                r = wit.compare(restrict(vg.asnum(got), g), restrict(L(e), g), lat.facts_of(g))
                if r is not None:
                    out.append((r[0], 'global seed after drawing on a %s subset, digit %d: %s' % (nm, k, r[1]), lat.lastloc2(ev)))
                    break
        return n, lat.dedup(out), ev


A0 = None


def scalars():
    ws = []

    def st(E):
        return seed_at(E('rseed')), seed_at(E('rmult'))
    rd = 'for(int k=0;k<4;++k) o.v[k] = RNG::ran_seed.elem().elem().elem(k).elem()'

    def seedouts(n):
        def m(E):
            R, a = st(E)
            for _ in range(n):
                R = R * a
            return R
        return [('global seed afterwards, digit %d' % k, 'v%d' % k, lambda E, k=k: dig(k, m(E))) for k in range(4)]

    def u(E, n):
        R, a = st(E)
        for _ in range(n):
            R = R * a
        return uniform(R)
    for nm, T_, n, get in (('r', 'Real', 1, 'o.f[0] = d.elem().elem().elem().elem(); '),
                           ('rd', 'Double', 1, 'o.d[0] = d.elem().elem().elem().elem(); '),
                           ('c', 'Complex', 2, 'o.f[0] = d.elem().elem().elem().real(); o.f[1] = d.elem().elem().elem().imag(); '),
                           ('v', 'ColorVector', 6, 'for(int i=0;i<3;++i) { o.f[2*i] = d.elem().elem().elem(i).real(); o.f[2*i+1] = d.elem().elem().elem(i).imag(); } ')):
        sl = 'd' if nm == 'rd' else 'f'
        ws.append(aw.AW('srnd_' + nm, [], '%s d; random(d); ' % T_ + get + rd,
                        [('component %d' % i, '%s%d' % (sl, i), lambda E, i=i: u(E, i + 1)) for i in range(n)] + seedouts(n)))
    ws.append(aw.AW('srnd_two', [], 'Real d, e; random(d); random(e); o.f[0] = d.elem().elem().elem().elem(); o.f[1] = e.elem().elem().elem().elem(); ' + rd,
                    [('number %d' % i, 'f%d' % i, lambda E, i=i: u(E, i + 1)) for i in range(2)] + seedouts(2)))
    ws.append(aw.AW('setsave', ['Seed& a', 'Seed& c'], 'RNG::setrn(a); RNG::savern(c); for(int k=0;k<4;++k) o.v[k] = c.elem().elem().elem(k).elem()',
                    [('saved seed digit %d' % k, 'v%d' % k, lambda E, k=k: mk('ld', E['a'] + C(4 * k), 4)) for k in range(4)]))
    ws.append(aw.AW('setset', ['Seed& a'], 'RNG::setrn(a); ' + rd, [('seed digit %d' % k, 'v%d' % k, lambda E, k=k: mk('ld', E['a'] + C(4 * k), 4)) for k in range(4)]))
    for w in ws:
        w.opts = OPTS
    return ws


LATT = mk('lattsize')


class IW(aw.AW):
    """initialisation of the multipliers; the number of bits of the volume is a given small number, so that the
    squaring loop has a known length, everything else is free"""

    def __init__(self, nb):
        self.nb = nb
        out = []

        def lexo(E):
            c = geo.coords_of(ZERO, E['j'])
            x = mk('ld', c + C(12), 4)
            on, oe = geo.m1_offsets(E.acc.m)
            for m in (2, 1, 0):
                x = x * mk('ld', mk('ld', LATT + oe, 8) + C(4 * m), 4) + mk('ld', c + C(4 * m), 4)
            return x + 1
        a = mk('seedc', C(1645), C(712), C(1498), C(1222))

        def power(x, k, n0=0):
            """digit k of a^(n0 + x mod 2^nb)"""
            def go(i, n):
                if i == nb:
                    r = C(1)
                    for _ in range(n):
                        r = r * a
                    return L(dig(k, r))
                b = low(vg.fl(x, 1 << i), 2)
                return ite(c_eq0(b), go(i + 1, n), go(i + 1, n + (1 << i)))
            return go(0, n0)
        for k in range(4):
            out.append(('multiplier a, digit %d' % k, 'v%d' % k, lambda E, k=k: dig(k, a)))
            out.append(('a^(vol+1), digit %d' % k, 'v%d' % (4 + k), lambda E, k=k: power(geo.nn(mk('layoutvol')), k, 1)))
            out.append(('skewed multiplier a^(lexicographic number + 1), digit %d' % k, 'v%d' % (8 + k), lambda E, k=k: power(lexo(E), k)))
        rd = 'for(int k=0;k<4;++k) { o.v[k] = RNG::ran_mult.elem().elem().elem(k).elem(); o.v[4+k] = RNG::ran_mult_n.elem().elem().elem(k).elem(); o.v[8+k] = RNG::lattice_ran_mult->elem(j).elem().elem(k).elem(); }'
        aw.AW.__init__(self, 'initrng%d' % nb, ['int j'], 'RNG::initRNG(); ' + rd, out, ranges={'j': (0, (1 << 27) - 1)})
        self.opts = vg.Opts(call_hook=self.hook, unroll=8, known=geo.known_all)
        self.guard = lambda E: c_lt(E['j'], geo.nn(mk('layoutvol')))

    def hook(self, ev, ins, name, args, g):
        if name == '_ZN3QDP3RNG7numbitsEi':
            return L(C(self.nb))
        if name == '_ZN3QDP6Layout8lattSizeEv':
            PTR.add(LATT.single())
            return L(LATT)
        return hook(ev, ins, name, args, g)


class NB(aw.AW):
    pass


def init():
    return [IW(n) for n in (1, 2, 3, 4)]


def bits():
    ns = sorted(set(range(1, 18)) | {1 << k for k in range(30)} | {(1 << k) - 1 for k in range(1, 30)})
    ws = []
    for i in range(0, len(ns), 16):
        v = ns[i:i + 16]
        ws.append(NB('numbits%d' % i, [], ' '.join('o.v[%d] = RNG::numbits(%d);' % (k, n) for k, n in enumerate(v)),
                     [('bits of %d' % n, 'v%d' % k, lambda E, n=n: C(n.bit_length())) for k, n in enumerate(v)]))
    for w in ws:
        w.opts = OPTS
    return ws


# ------------------------------------------------------------------ RANNYU
class RY(aw.AW):
    pass


NYU = """#pragma clang attribute push(__attribute__((always_inline)), apply_to = function)
#include "%(R)s/lib/qdp_rannyu.cc"
#pragma clang attribute pop
"""


def nyu(l):
    """48-bit linear congruential step: X -> a X + 1 modulo 2^48, most significant digit first"""
    m = (0, 1, 3513, 821)
    i3 = l[3].scale(m[3]) + 1
    i2 = l[2].scale(m[3]) + l[3].scale(m[2]) + vg.fl(i3, DIG)
    i1 = l[1].scale(m[3]) + l[2].scale(m[2]) + l[3].scale(m[1]) + vg.fl(i2, DIG)
    i0 = l[0].scale(m[3]) + l[1].scale(m[2]) + l[2].scale(m[1]) + l[3].scale(m[0]) + vg.fl(i1, DIG)
    n = [low(x, DIG) for x in (i0, i1, i2, i3)]
    return n, sum((x.scale(Fraction(1, DIG ** (k + 1))) for k, x in enumerate(n)), ZERO)


def rannyu():
    ws = []

    def sd(E, p='a'):
        r = []
        on, oe = geo.m1_offsets(E.acc.m)
        for k in range(4):
            x = mk('ld', mk('ld', E[p] + oe, 8) + C(4 * k), 4)
            RANGE[x.single()] = (0, 4095)
            r.append(x)
        return r

    def four(E, p='a'):
        on, oe = geo.m1_offsets(E.acc.m)
        return c_eq0(mk('ld', E[p] + on, 4) - 4)
    P = ['multi1d<int>& a']

    def steps(E, n):
        l = sd(E)
        for _ in range(n):
            l, r = nyu(l)
        return l, r
    rd = 'for(int k=0;k<4;++k) o.v[k] = %s[k]'
    body = 'RANNYU::RNGState_t s; s.seed = a; s.ran = 0; RANNYU::random(s); o.d[0] = s.ran; ' + rd % 's.seed'
    ws.append(RY('nyu_state', P, body, [('number', 'd0', lambda E: steps(E, 1)[1])] + [('digit %d' % k, 'v%d' % k, lambda E, k=k: steps(E, 1)[0][k]) for k in range(4)], guard=four))
    ws.append(RY('nyu_set', P, 'RANNYU::setrn(a); o.d[0] = RANNYU::random(); multi1d<int> c(RANNYU::savern()); ' + rd % 'c',
                 [('number', 'd0', lambda E: steps(E, 1)[1])] + [('digit %d' % k, 'v%d' % k, lambda E, k=k: steps(E, 1)[0][k]) for k in range(4)], guard=four))
    ws.append(RY('nyu_save', P, 'RANNYU::setrn(a); multi1d<int> c(RANNYU::savern()); o.v[4] = c.size(); ' + rd % 'c',
                 [('length', 'v4', lambda E: C(4))] + [('digit %d' % k, 'v%d' % k, lambda E, k=k: sd(E)[k]) for k in range(4)], guard=four))
    ws.append(RY('nyu_bad', P, 'RANNYU::setrn(a)', [], ret=lambda E: FALSE, guard=lambda E: bnot(four(E))))
    ws.append(RY('nyu_badstate', P, 'RANNYU::RNGState_t s; s.seed = a; s.ran = 0; RANNYU::random(s)', [], ret=lambda E: FALSE, guard=lambda E: bnot(four(E))))
    for w in ws:
        w.setup = lambda E: sd(E)
    return ws


def fround(x):
    import struct
    return struct.unpack('f', struct.pack('f', x))[0]


def fields():
    ws = []
    for w in 'fd':
        for x in ('r', 'cx', 'cm', 'cv', 'fe', 'sm', 'pr'):
            t = ty('s', 'r', w) if x == 'r' else ty('s', 'c', w) if x == 'cx' else ty(x, 'c', w)
            if x == 'pr' and w == 'd':
                continue
            ws.append(RG('rnd_%s%s' % (x, w), t, 'random(d,s)', 'uni'))
            if x == 'pr':
                continue
            ws.append(RG('rndall_%s%s' % (x, w), t, 'random(d)', 'uni', sub='whole'))
            if x in ('r', 'cv'):
                ws.append(RG('rndsub_%s%s' % (x, w), t, 'random(d[s])', 'uni'))
                ws.append(RG('gausub_%s%s' % (x, w), t, 'gaussian(d[s])', 'gauss'))
            if x in ('r', 'cx', 'cv', 'cm'):
                ws.append(RG('gau_%s%s' % (x, w), t, 'gaussian(d,s)', 'gauss'))
    return ws


def prelude(ws):
    if isinstance(ws[0], IW):
        return INIT % {'R': lib.REPO} + aw.OUT
    if isinstance(ws[0], NB):
        return OPAQUE % {'R': lib.REPO} + aw.OUT
    if isinstance(ws[0], RY):
        return NYU % {'R': lib.REPO} + geo.ACCM1 + aw.OUT
    if isinstance(ws[0], aw.AW):
        return (OPAQUE % {'R': lib.REPO} if ws[0].opts.call_hook is hook else '') + aw.OUT
    return OPAQUE % {'R': lib.REPO} + lat.prelude(ws)
