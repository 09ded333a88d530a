"""Reductions of arrays of fields, extrema, finiteness tests (part of P08)."""
import lib
import lat
import spec
import vg
from algebra import ty, Ty
from lat import *
from sym import *
import sym
from wit import W, compare
from lattice import tinner, tnorm2, treal, tadd, tsub, ident


class RM(lat.RW):
    """d = reduction of multi1d fields (kind 'm') over a subset"""

    def code(self):
        ps = ['%s& d' % self.dest.cpp()]
        for i, (k, t) in enumerate(self.args):
            ps.append('const multi1d<%s>& %s' % (t.lat() if k == 'm' else t.cpp(), 'abcefg'[i]))
        if self.sub and self.sub not in ('vol', 'whole', 'none'):
            ps.append('const %s& s' % self.sub)
        return 'extern "C" void %s(%s) { %s; }\n' % (self.name, ', '.join(ps), self.body)

    def types(self):
        return [t for k, t in self.args if k == 'm']

    def analyse(self, fn):
        if self.sub == 'none':
            return self.analyse1(fn)
        return lat.whole(self, fn)

    def expected(self, acc, ar, site, kid, cnt):
        m = vg.fresh('k')
        RANGE[m] = (0, None)
        vals, N = [], None
        for i, (k, t) in enumerate(self.args):
            if k == 'm':
                vals.append(spec.load(t, acc.p('mel_' + t.short(), ar[i + 1], A(m), site)))
            else:
                vals.append(spec.load(t, acc.p('mes_' + t.short(), ar[i + 1], A(m))))
            N = acc.p('msz_' + t.short() if k == 'm' else 'mss_' + t.short(), ar[1])
        v = self.spec(*vals)
        if v.ty != self.dest:
            v = spec.tfull(v, self.dest)
        r = {}
        for i in self.dest.idx():
            for p in range(self.dest.ncomp()):
                x = v.d[i][p]
                x = x if isinstance(x, P) else ZERO
                if self.sub != 'none':
                    x = mksum(x, kid, cnt)
                r[(i, p)] = mksum(x, m, N)
        return r


def prelude(ws):
    ts = {}
    for w in ws:
        if isinstance(w, (RM, RS)):
            for k, t in w.args:
                ts[(k, t.short())] = t
    s = 'extern "C" int w_acc_nsub(const Set& s){return s.numSubsets();}\nextern "C" int w_acc_lcol(const Set& s, int i){return s.latticeColoring()[i];}\n'
    for (k, n), t in ts.items():
        if k in 'lo':
            continue
        if k == 'm':
            s += 'extern "C" void* w_acc_mel_%s(multi1d<%s>& m, int n, int i){return (void*)&m[n].elem(i);}\nextern "C" int w_acc_msz_%s(const multi1d<%s>& m){return m.size();}\n' % (n, t.lat(), n, t.lat())
        else:
            s += 'extern "C" void* w_acc_mes_%s(multi1d<%s>& m, int n){return (void*)&m[n].elem();}\nextern "C" int w_acc_mss_%s(const multi1d<%s>& m){return m.size();}\n' % (n, t.cpp(), n, t.cpp())
    for k in ('isnan', 'isinf', 'isfinite', 'isnormal'):
        for w, c in (('f', 'float'), ('d', 'double')):
            s += 'extern "C" bool w_acc_%s_%s(%s x){return std::%s(x);}\n' % (k, w, c, k)
    return lat.prelude(ws) + s


def witnesses(words='f', shapes=('s', 'cm', 'fe', 'pr')):
    ws = []
    for w in words:
        for x in shapes + ('r',):
            t = ty('s', 'r', w) if x == 'r' else ty(x, 'c', w)
            n = t.short()
            RD, ZD = ty('s', 'r', 'd'), ty('s', 'c', 'd')
            ip = RD if x == 'r' else ZD
            re = lambda a, b: treal(tinner(a, b))
            for sub, sfx, arg in (('Subset', '', ', s'), ('whole', 'all', '')):
                ws.append(RM('mnorm2%s_%s' % (sfx, n), RD, [('m', t)], 'd = norm2(a%s)' % arg, tnorm2, sub=sub))
                ws.append(RM('mip%s_%s' % (sfx, n), ip, [('m', t), ('m', t)], 'd = innerProduct(a,b%s)' % arg, tinner, sub=sub))
                ws.append(RM('mipr%s_%s' % (sfx, n), RD, [('m', t), ('m', t)], 'd = innerProductReal(a,b%s)' % arg, re, sub=sub))
            ws.append(RM('msnorm2_%s' % n, RD, [('s', t)], 'd = norm2(a)', tnorm2, sub='none'))
            ws.append(RM('msip_%s' % n, ip, [('s', t), ('s', t)], 'd = innerProduct(a,b)', tinner, sub='none'))
            ws.append(RM('msipr_%s' % n, RD, [('s', t), ('s', t)], 'd = innerProductReal(a,b)', re, sub='none'))
    return ws


class RX(lat.RW):
    """d = globalMax / globalMin of a real lattice expression: the set of sites entering the extremum must be the whole lattice"""

    def __init__(self, name, dest, args, body, spec, kind):
        lat.RW.__init__(self, name, dest, args, body, spec, sub='vol')
        self.kind = kind

    def analyse(self, fn):
        return self.analyse1(fn)

    def analyse1(self, fn):
        acc = Acc(fn.module)
        ar = [mk('arg', i) for i in range(len(self.args) + 2)]
        for a in ar:
            PTR.add(a.single())
        hook(None, None, '_ZN3QDP6Layout3volEv', None, None)
        vol = mk('layoutvol')
        ev = vg.Ev(fn, self.opts).run()
        kid = vg.fresh('k')
        RANGE[kid] = (0, None)
        vals = [spec.load(t, acc.p('el_' + t.short(), ar[i + 1], A(kid))) for i, (k, t) in enumerate(self.args)]
        x = list(self.spec(*vals).d.values())[0][0]
        got = vg.asnum(ev.ld(ar[0], WSZ[self.dest.word], FT[self.dest.word], TRUE))
        out, nob = [], 0
        for g, n, what in ((c_lt(ONE, vol), vol, ''), (c_eq0(vol - 1), ONE, 'lattice of one site: ')):
            nob += 1
            t = prune(restrict(got, g), facts_of(g))
            if what:
                t = subst_t(t, {vol.single(): ONE})
            try:
                iv = self.cover(t, x, kid)
            except LookupError as e:
                out.append(('undecided', what + str(e), lastloc2(ev)))
                continue
            if iv != [(ZERO, n)]:
                out.append(('bad', '%sextremum taken over %s instead of all sites' % (what, ' and '.join('[%s, %s)' % (p, q) for p, q in iv)), lastloc2(ev)))
        return nob, dedup(out), ev

    def index(self, v, x, kid):
        for m in x.d:
            for a, _ in m:
                if ATOMS[a][0] == 'ld' and kid in sym._amention(a):
                    c = [cc for mm, cc in ATOMS[a][1].d.items() if mm == ((kid, 1),)]
                    for m2 in v.d:
                        for b, _ in m2:
                            if c and ATOMS[b][0] == 'ld':
                                r = vg.fl_exact(ATOMS[b][1] - subst(ATOMS[a][1], {kid: ZERO}).v, c[0])
                                if r is not None and subst(x, {kid: r}) is L(v):
                                    return r
        raise LookupError('term %s is not the operand at a site' % sh(v))

    def cover(self, t, x, kid):
        """intervals of site numbers whose values enter the extremum"""
        iv = self.parts(t, x, kid)
        done = False
        while not done:
            done = True
            for i in range(len(iv)):
                for j in range(len(iv)):
                    if i != j:
                        d = iv[i][1] - iv[j][0]
                        e = iv[i][0] - iv[j][0]
                        if d.isconst() and d.const() >= 0 and not (e.isconst() and e.const() > 0):
                            f = iv[j][1] - iv[i][1]
                            hi = iv[i][1] if f.isconst() and f.const() < 0 else iv[j][1]
                            iv = [v for k, v in enumerate(iv) if k not in (i, j)] + [(iv[i][0], hi)]
                            done = False
                            break
                if not done:
                    break
        return iv

    def parts(self, t, x, kid):
        if t.c is None:
            a = t.v.single()
            if a is not None and ATOMS[a][0] in ('redmax', 'redmin'):
                k, body, n, init = ATOMS[a]
                if k != 'red' + self.kind:
                    return [(ZERO, ZERO)]
                h = height(body) - 1
                b = bvar(h).single()
                r = subst(body, {b: A(kid)})
                s = self.index(subst(body, {b: ZERO}).v, x, kid)
                if r is not subst(x, {kid: A(kid) + s}):
                    raise LookupError('stride')
                return self.parts(init if isinstance(init, T) else L(init), x, kid) + [(s, s + n)]
            i = self.index(t.v, x, kid)
            return [(i, i + 1)]
        if t.hi.c is not None or t.lo.c is not None:
            raise LookupError('conditional value')
        q = CONDS[t.c]
        p, r = t.hi.v, t.lo.v
        if q[0] not in ('flt', 'fgt', 'fle', 'fge') or q[1] not in (p - r, r - p):
            raise LookupError('condition is not a comparison of the two values')
        less = (q[0] in ('flt', 'fle')) == (q[1] == p - r)       # takes p when p < r
        if less != (self.kind == 'min'):
            return self.parts(t.hi, x, kid)[:0] + [(ZERO, ZERO)]
        return self.parts(t.hi, x, kid) + self.parts(t.lo, x, kid)


def extrema():
    ws = []
    for w in 'fd':
        t = ty('s', 'r', w)
        for nm in ('Max', 'Min'):
            ws.append(RX('g%s_%s' % (nm, w), t, [('l', t)], 'd = global%s(a)' % nm, ident, nm.lower()))
            ws.append(RX('g%se_%s' % (nm, w), t, [('l', t), ('l', t)], 'd = global%s(a - b)' % nm, tsub, nm.lower()))
    return ws


class RN(RX):
    """bool d = isnan / isinf / isfinite / isnormal of a lattice field"""

    def code(self):
        return 'extern "C" void %s(bool& d, const %s& a) { %s; }\n' % (self.name, self.args[0][1].lat(), self.body)

    def analyse1(self, fn):
        acc = Acc(fn.module)
        ar = [mk('arg', i) for i in range(3)]
        for a in ar[:2]:
            PTR.add(a.single())
        hook(None, None, '_ZN3QDP6Layout3volEv', None, None)
        vol = mk('layoutvol')
        ev = vg.Ev(fn, self.opts).run()
        t = self.args[0][1]
        got = vg.asnum(ev.ld(ar[0], 1, 'i8', TRUE))
        every = self.kind in ('isfinite', 'isnormal')
        base = vg.asbool(acc.get('%s_%s' % (self.kind, t.word)))
        off = t.offsets()

        def site(i):
            r = TRUE if every else FALSE
            for x in t.idx():
                for p in range(t.ncomp()):
                    v = mk('ld', acc.p('el_' + t.short(), ar[1], i) + C(off[(x, p)]), WSZ[t.word])
                    q = subst_t(base, {mk('arg', 0).single(): v})
                    r = band(r, q) if every else bor(r, q)
            return r
        out, nob = [], 1
        g = c_lt(ONE, vol)
        got = prune(restrict(got, g), facts_of(g))
        res = None
        neg = bnot if every else (lambda q: q)
        for lv in (91, 92, 93, 94):
            b = bvar(lv)
            for e in (c_atom('any', neg(site(b)), vol), bor(c_atom('any', neg(site(b)), vol - 1), neg(site(vol - 1))),
                      bor(neg(site(ZERO)), c_atom('any', neg(site(b + 1)), vol - 1))):
                r = compare(got, ite(neg(e), L(ONE), TZERO), facts_of(g))
                if r is None:
                    return nob, [], ev
                res = res or r
        out.append((res[0], '%s over the lattice is not the %s over all sites and components: %s' % (self.kind, 'conjunction' if every else 'disjunction', res[1]), lastloc2(ev)))
        return nob, out, ev


def finiteness():
    ws = []
    for n in ('isnan', 'isinf', 'isfinite', 'isnormal'):
        for w in 'fd':
            for x in ('r', 's', 'cm')[:2 if n == 'isnormal' else 3]:
                t = ty('s', 'r', w) if x == 'r' else ty(x, 'c', w)
                ws.append(RN(n + '_' + t.short(), t, [('l', t)], 'd = %s(a)' % n, None, n))
    return ws


class RS(lat.RW):
    """d = sumMulti(a, set)[c]: the sum over the sites of colour c"""

    def code(self):
        ps = ['%s& d' % self.dest.cpp()] + ['const %s& %s' % ({'l': t.lat(), 'm': 'multi1d<%s>' % t.lat(), 's': 'multi1d<%s>' % t.cpp(), 'o': t.cpp()}[k], 'ab'[i]) for i, (k, t) in enumerate(self.args)]
        return 'extern "C" void %s(%s, const Set& s, int c, int n) { %s; }\n' % (self.name, ', '.join(ps), self.body)

    def types(self):
        return [t for k, t in self.args if k in 'lm']

    def analyse(self, fn):
        acc = Acc(fn.module)
        na = len(self.args)
        ar = [mk('arg', i) for i in range(na + 4)]
        for a in ar[:na + 2]:
            PTR.add(a.single())
        hook(None, None, '_ZN3QDP6Layout3volEv', None, None)
        vol = mk('layoutvol')
        c, m = ar[na + 2], ar[na + 3]
        RANGE[c.single()] = RANGE[m.single()] = (0, 1 << 20)
        ev = vg.Ev(fn, vg.Opts(call_hook=hook, scatter=True)).run()
        nc = acc.p('nsub', ar[na + 1])
        g = band(c_lt(c, nc), c_lt(ZERO, vol))
        kid = vg.fresh('k')
        RANGE[kid] = (0, None)
        vals = []
        for i, (k, t) in enumerate(self.args):
            vals.append(spec.load(t, acc.p('el_' + t.short(), ar[i + 1], A(kid)) if k == 'l' else acc.p('mel_' + t.short(), ar[i + 1], m, A(kid)) if k == 'm' else
                                  acc.p('mes_' + t.short(), ar[i + 1], m) if k == 's' else ar[i + 1]))
            if k in 'ms':
                n = acc.p(('msz_' if k == 'm' else 'mss_') + t.short(), ar[i + 1])
                g = band(g, c_lt(m, n))
        v = self.spec(*vals)
        cond = c_eq0(acc.p('lcol', ar[na + 1], A(kid)) - c)
        off, out, nob = self.dest.offsets(), [], 0
        for i in self.dest.idx():
            for p in range(self.dest.ncomp()):
                x = v.d[i][p]
                e = L(x)
                if any(k in 'lm' for k, t in self.args):
                    e = tree_to_poly(ite(cond, L(x), TZERO), frozenset([kid]))
                    e = bind(e, lambda b: L(mksum(b, kid, vol)))
                got = restrict(vg.asnum(ev.ld(ar[0] + C(off[(i, p)]), 8, 'f64', g)), g)
                nob += 1
                r = compare(got, restrict(e, g), facts_of(g))
                if r:
                    out.append((r[0], 'component spin%s colour%s %s: %s' % (list(i[0]), list(i[1]), 're' if p == 0 else 'im', r[1]), lastloc2(ev)))
        nob += 1
        for loc in ev.floatacc[:1]:
            out.append(('bad', 'the sum over sites is accumulated in single precision', loc))
        return nob, dedup(out[:4]), ev


def everything():
    return witnesses() + extrema() + finiteness() + multis()


def multis():
    ws = []
    for w in 'fd':
        for x in ('r', 's', 'cv', 'cm', 'fe'):
            t = ty('s', 'r', w) if x == 'r' else ty(x, 'c', w)
            dd = ty('s', 'r', 'd') if x == 'r' else ty(x, 'c', 'd')
            n = t.short()
            ws.append(RS('summ_' + n, dd, [('l', t)], 'd = sumMulti(a,s)[c]', ident))
            ws.append(RS('summe_' + n, dd, [('l', t), ('l', t)], 'd = sumMulti(a-b,s)[c]', tsub))
            ws.append(RS('summm_' + n, dd, [('m', t)], 'd = sumMulti(a,s)(n,c)', ident))
            ws.append(RS('summs_' + n, dd, [('s', t)], 'd = sumMulti(a,s)(n,c)', ident))
            ws.append(RS('summo_' + n, dd, [('o', t)], 'd = sumMulti(a,s)[c]', ident))
    return ws
