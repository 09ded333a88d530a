"""Fields stored on a subset only (owning OSubLattice): element j belongs to entry j of the site table."""
import lat
import spec
import vg
import wit
from algebra import ty
from lat import facts_of, compare, restrict, apply, WSZ, FT
from sym import *
from spec import Ty


class STy(Ty):
    def lat(self):
        return 'OSubLattice<%s >' % self.inner()

    def short(self):
        return Ty.short(self) + 'S'


def sty(t):
    return STy(t.spin, t.color, t.real, t.word)


class SW(lat.LW):
    """statement whose destination stores subset elements"""

    def __init__(self, name, dest, args, body, spec, inout=False, src=None):
        lat.LW.__init__(self, name, dest, args, body, spec, inout=inout, sub='sub')
        self.okbase = ('new', 'glob')
        self.src = src

    def code(self):
        ps = ['%s& d' % self.dest.lat()]
        for i, (k, t) in enumerate(self.args):
            ps.append('%s %s' % (t if k == 'x' else 'const %s&' % (t.lat() if k == 'l' else t.cpp()), 'abcefg'[i]))
        return 'extern "C" void %s(%s) { %s; }\n' % (self.name, ', '.join(ps), self.body)

    def analyse(self, fn):
        acc = lat.Acc(fn.module)
        na = len(self.args)
        ar = [mk('arg', i) for i in range(na + 1)]
        for a in ar:
            PTR.add(a.single())
        sh = self.dest.short()
        S = acc.p('sub_' + sh, ar[0])
        PTR.add(S.single())
        self.n = n = acc.p('n', S)
        RANGE[n.single()] = (0, 1 << 27)
        J = mk('site')
        RANGE[J.single()] = (0, None)
        self.tab = tab = acc.p('tab', S, J)
        RANGE[tab.single()] = (0, 1 << 27)
        eqn = TRUE
        if self.src is not None:
            S2 = ar[self.src + 1]
            if self.args[self.src][0] == 'l':
                S2 = acc.p('sub_' + self.args[self.src][1].short(), S2)
            PTR.add(S2.single())
            n2 = acc.p('n', S2)
            RANGE[n2.single()] = (0, 1 << 27)
            eqn = c_eq0(n2 - n)
            self.tab = acc.p('tab', S2, J)
            RANGE[self.tab.single()] = (0, 1 << 27)
        ev = vg.Ev(fn, self.opts)
        ev.injective = vg.baseof(ATOMS[acc.p('tab', S, ZERO).single()][1])
        ev.run()
        dist = self.distinct(acc, ar)
        own = acc.get('own_' + sh, ar[0])
        dist = band(band(dist, vg.asbool(own)), eqn)
        for i, (k, t) in enumerate(self.args):
            if k == 'l' and isinstance(t, STy):
                dist = band(dist, vg.asbool(acc.get('own_' + t.short(), ar[i + 1])))
                so = acc.p('sub_' + t.short(), ar[i + 1])
                dist = band(dist, c_eq0(acc.p('n', so) - n))
        nob, out = self.query(ev, acc, ar, J, band(dist, c_lt(J, n)))
        out += self.unchanged(ev, acc, ar, J, band(dist, c_le0(n - J)))
        db = vg.baseof(acc.p('el_' + sh, ar[0], J))
        for e in ev.log:
            if e.kind in ('store', 'copy', 'set'):
                b = vg.baseof(e.ptr)
                if b in ev.allocas or b == db or (b is not None and ATOMS[b][0] in self.okbase) or prune(band(e.guard, dist), facts_of(dist)) is FALSE:
                    continue
                out.append(('bad' if b is not None and ATOMS[b][0] in ('arg', 'ld') else 'undecided', 'store outside the destination field', e.loc))
        return nob, lat.dedup(out), ev

    def value(self, acc, ar, site):
        vals = []
        if self.inout:
            vals.append(spec.load(self.dest, acc.p('el_' + self.dest.short(), ar[0], site)))
        for i, (k, t) in enumerate(self.args):
            if k == 'l':
                vals.append(spec.load(t, acc.p('el_' + t.short(), ar[i + 1], site if isinstance(t, STy) else self.tab)))
            elif k == 's':
                vals.append(spec.load(t, ar[i + 1]))
        exp = self.spec(*vals)
        if exp.ty != self.dest:
            exp = spec.tfull(exp, self.dest)
        return exp


class SR(lat.RW):
    """global sum over a field stored on a subset"""

    def __init__(self, name, dest, args, body, spec):
        lat.RW.__init__(self, name, dest, args, body, spec, sub=None)

    def analyse(self, fn):
        acc = lat.Acc(fn.module)
        ar = [mk('arg', i) for i in range(len(self.args) + 1)]
        for a in ar:
            PTR.add(a.single())
        own = TRUE
        S = None
        for i, (k, t) in enumerate(self.args):
            if isinstance(t, STy):
                own = band(own, vg.asbool(acc.get('own_' + t.short(), ar[i + 1])))
                S = S or acc.p('sub_' + t.short(), ar[i + 1])
        PTR.add(S.single())
        n = acc.p('n', S)
        RANGE[n.single()] = (0, 1 << 27)
        ev = vg.Ev(fn, self.opts).run()
        kid = vg.fresh('k')
        RANGE[kid] = (0, None)
        tab = acc.p('tab', S, A(kid))
        RANGE[tab.single()] = (0, 1 << 27)
        vals = []
        for i, (k, t) in enumerate(self.args):
            vals.append(spec.load(t, acc.p('el_' + t.short(), ar[i + 1], A(kid) if isinstance(t, STy) else tab)))
        v = self.spec(*vals)
        if v.ty != self.dest:
            v = spec.tfull(v, self.dest)
        out, nob = [], 0
        off = self.dest.offsets()
        for i in self.dest.idx():
            for p in range(self.dest.ncomp()):
                x = v.d[i][p]
                got = ev.ld(ar[0] + C(off[(i, p)]), WSZ[self.dest.word], FT[self.dest.word], own)
                got = apply(lambda y: lat.regroup(y, n), vg.asnum(restrict(got, own)))
                nob += 1
                r = compare(got, lat.regroup(mksum(x if isinstance(x, P) else ZERO, kid, n), n), facts_of(own))
                if r is not None:
                    out.append((r[0], 'component spin%s colour%s %s: %s' % (list(i[0]), list(i[1]), 're' if p == 0 else 'im', r[1]), lat.lastloc2(ev)))
        return nob, lat.dedup(out[:4]), ev


def prelude(ws):
    ts = {t.short(): t for w in ws for t in w.types()}
    out = lat.ACC
    for t in ts.values():
        if isinstance(t, STy):
            n, c = t.short(), t.lat()
            out += 'extern "C" void* w_acc_el_%s(%s& x, int i){return (void*)(x.getF()+i);}\nextern "C" const void* w_acc_sub_%s(%s& x){return &x.subset();}\nextern "C" bool w_acc_own_%s(%s& x){return x.getOwnsMemory();}\n' % (n, c, n, c, n, c)
        else:
            out += lat.elem_acc(t)
    return out


def l(t):
    return ('l', t)


def witnesses():
    ws = []
    for w in 'fd':
        R, Z = ty('s', 'r', w), ty('s', 'c', w)
        for x in ('cv', 'cm', 'fe', 's'):
            t = ty(x, 'c', w)
            d = sty(t)
            n = t.short()
            ws.append(SW('s_asg_' + n, d, [l(t)], 'd = a', lambda v: v))
            ws.append(SW('s_expr_' + n, d, [l(t), l(t)], 'd = a + b', spec.tadd))
            ws.append(SW('s_cp_' + n, d, [l(d)], 'd = a', lambda v: v))
            ws.append(SW('s_pe_' + n, d, [l(t)], 'd += a', spec.tadd, inout=True))
            ws.append(SW('s_me_' + n, d, [l(t)], 'd -= a', spec.tsub, inout=True))
            ws.append(SW('s_pex_' + n, d, [l(t), l(R)], 'd += b*a', lambda v, a, b: spec.tadd(v, spec.tmul(b, a)), inout=True))
            ws.append(SW('s_te_' + n, d, [('s', R)], 'd *= a', spec.tmul, inout=True))
            ws.append(SW('s_tel_' + n, d, [l(R)], 'd *= a', spec.tmul, inout=True))
            ws.append(SW('s_de_' + n, d, [('s', R)], 'd /= a', spec.tdiv, inout=True))
            ws.append(SW('s_zero_' + n, d, [], 'd = zero', lambda t=t: spec.tconst(t, lambda i: ((ZERO, ZERO)))))
        for x in ('cv', 'cm', 'fe', 's'):
            t = ty(x, 'c', w)
            d = sty(t)
            n = t.short()
            if x in ('cm', 's'):
                ws.append(SW('s_set_' + n, d, [('s', Z)], 'd = a', lambda v, t=t: spec.tfull(v, t)))
            ws.append(SW('s_setr_' + n, d, [('s', t)], 'd = a', lambda v: v))
            ws.append(SW('s_sete_' + n, d, [('s', t), ('s', t)], 'd = a + b', spec.tadd))
            ws.append(SW('s_adds_' + n, d, [('s', t)], 'd += a', spec.tadd, inout=True))
            ws.append(SW('s_cc_' + n, d, [l(d)], '%s t(a); d = t' % d.lat(), lambda v: v, src=0))
            ws.append(SW('s_ga_' + n, d, [l(t), ('x', 'const Subset&')], '%s t(b, const_cast<%s&>(a)); d = t' % (d.lat(), t.lat()), lambda v: v, src=1))
            ws.append(SW('s_ss_' + n, d, [l(t), ('x', 'const Subset&')], '%s t; t.setSubset(b); t = a; d = t' % d.lat(), lambda v: v, src=1))
            ws.append(SW('s_lip_' + n, sty(ty('s', 'c', 'd')), [l(d), l(t)], 'd = localInnerProduct(a,b)', spec.tinner, src=0))
            ws.append(SW('s_lipr_' + n, sty(ty('s', 'c', 'd')), [l(t), l(d)], 'd = localInnerProduct(a,b)', spec.tinner, src=1))
            zd = ty('s', 'c', 'd')
            ws.append(SR('s_sum_' + n, ty(x, 'c', 'd'), [l(d)], 'd = sum(a)', lambda v: v))
            ws.append(SR('s_ip_' + n, zd, [l(d), l(t)], 'd = innerProduct(a,b)', spec.tinner))
            ws.append(SR('s_ipr_' + n, zd, [l(t), l(d)], 'd = innerProduct(a,b)', spec.tinner))
    return ws
