"""Geometry: layout maps, shifts, site access.  Witness functions with index arithmetic."""
import lib
import sym
import vg
from sym import *
from wit import compare, where, opaque_in

UB = {}        # atom -> largest value (polynomial); the atom is >= 0
POS = set()    # atoms that are >= 1


def digit(a, ub):
    i = a.single()
    RANGE[i] = (0, ub.const() if ub.isconst() else None)
    UB[i] = ub
    return a


def size(a):
    i = a.single()
    RANGE[i] = (1, None)
    POS.add(i)
    return a


def demod(p):
    """x - n*floor(x/n) becomes a fresh digit 0..n-1"""
    for _ in range(8):
        hit = None
        for m, c in p.d.items():
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == 'fl' and isinstance(ATOMS[m[0][0]][2], int) and isinstance(c, int):
                n = ATOMS[m[0][0]][2]
                if c % n == 0:
                    hit = (m, c, n)
                    break
        if hit is None:
            return p
        m, c, n = hit
        k = -c // n
        x = mk('digit', A(m[0][0]))
        digit(x, C(n - 1))
        # k*(x - n*fl) = k*x + c*fl
        p = p - P({m: c}) - ATOMS[m[0][0]][1].scale(k) + x.scale(k)
    return p


def nonneg(p):
    """p >= 0, eliminating digits by their largest values and sizes by 1 + s"""
    p = demod(p)
    for _ in range(24):
        neg = [m for m, c in p.d.items() if c < 0]
        if not neg:
            return all(RANGE.get(a, (None,))[0] is not None and RANGE[a][0] >= 0 for m in p.d for a, _ in m)
        sub = None
        cand = {a for m in neg for a, e in m if a in UB and e == 1}
        for a in sorted(cand, key=lambda a: (-max(len(m) for m in neg if any(x == a for x, _ in m)), a)):
            sub = (a, UB[a] - slack(a))
            break
        if sub is None:
            for m, c in p.d.items():
                for a, _ in m:
                    if a in POS:
                        sub = (a, slack(a) + 1)
        if sub is None:
            return False
        t = subst(p, {sub[0]: sub[1]})
        if t.c is not None:
            return False
        p = t.v
    return False


def slack(a):
    s = mk('slack', A(a))
    RANGE[s.single()] = (0, None)
    return s


def lt(r, d):
    """0 <= r < d for mixed-radix digit sums"""
    if not UB:
        return False
    d = C(d) if isinstance(d, int) else d
    return nonneg(r) and nonneg(d - 1 - r)


def decide(t):
    """settle comparisons of mixed-radix sums"""
    if not UB:
        return t
    memo = {}

    def go(t):
        if t.c is None:
            return t
        r = memo.get(t.id)
        if r is None:
            q = CONDS[t.c]
            r = None
            if q[0] in ('le', 'eq'):
                p = q[1] - q[2]
                if nonneg(p - 1):
                    r = go(t.lo)
                elif nonneg(-p if q[0] == 'le' else -p - 1):
                    r = go(t.hi if q[0] == 'le' else t.lo)
            if r is None:
                hi, lo = go(t.hi), go(t.lo)
                r = t if hi is t.hi and lo is t.lo else ite(var(t.c), hi, lo)
            memo[t.id] = r
        return r
    return go(t)


import wit
wit.DECIDE.append(decide)


class G:
    """a witness with its own decision procedure: ana(ev, fn) -> (obligations, findings)"""

    def __init__(self, name, code, ana, body, opts=None, args=(), pre=None):
        self.name = 'w_' + name
        self.src, self.ana, self.body, self.pre = code, ana, body, pre
        self.opts = opts or vg.Opts(unroll=8)
        self.args = args

    def code(self):
        return self.src + '\n'

    def analyse(self, fn):
        UB.clear()
        POS.clear()
        if lt not in sym.LT_FACTS:
            sym.LT_FACTS.append(lt)
        if self.pre:
            self.pre()
        ev = vg.Ev(fn, self.opts).run()
        n, out = self.ana(ev)
        seen, r = set(), []
        for x in out:
            if x[:2] not in seen:
                seen.add(x[:2])
                r.append(x)
        return n, r, ev


def eq(ev, what, got, exp, loc=''):
    r = compare(got if isinstance(got, T) else L(got), exp)
    if r is None:
        return []
    return [(r[0], '%s: %s' % (what, r[1]), loc or ev.fn.j.get('file', ''))]


def inrange(ev, what, got, top, loc):
    """0 <= got < top on every path"""
    out = []
    for g, v in vg.cases(vg.asnum(got)):
        v = demod(v)
        if not (nonneg(v) and nonneg(top - 1 - v)):
            op = opaque_in(got)
            out.append(('undecided' if op else 'bad', '%s is not shown to lie in 0 .. %s-1: %s' % (what, show(top), show(v)), loc))
            break
    return out


LAYOUTS = ('CB2', 'LEXICO', 'CB3D', 'CB32')
INC = '''#pragma clang attribute push(__attribute__((always_inline)), apply_to = function)
#include "%(R)s/lib/qdp_layout.cc"
#include "%(R)s/lib/qdp_scalar_layout.cc"
#pragma clang attribute pop
'''


def layout_prelude(kind):
    def pre(ws):
        return '#undef QDP_USE_CB2_LAYOUT\n#undef QDP_USE_LEXICO_LAYOUT\n#undef QDP_USE_CB3D_LAYOUT\n#undef QDP_USE_CB32_LAYOUT\n#define QDP_USE_%s_LAYOUT 1\n' % kind + INC % {'R': lib.REPO}
    return pre


SET = 'int nb[4]={%s}; new(&Layout::_layout.nrow) multi1d<int>(nb,4); Layout::_layout.vol=nb[0]*nb[1]*nb[2]*nb[3]; Layout::_layout.subgrid_vol=Layout::_layout.vol;'


def layouts(kind):
    """site number <-> coordinates for one of the four orderings"""
    ws = []
    a = [mk('arg', i) for i in range(12)]

    def sizes(*ix):
        for i in ix:
            size(a[i])
    loc = 'lib/qdp_scalar_layout.cc'
    if kind == 'CB2':
        pars = 'int h,int n1,int n2,int n3,int cb,int x,int y,int z,int t'
        st = SET % '2*h,n1,n2,n3'
        lin = 'cb*(h*n1*n2*n3)+x+h*(y+n1*(z+n2*t))'
        dims = [a[0].scale(2), a[1], a[2], a[3]]

        def pre():
            sizes(0, 1, 2, 3)
            digit(a[4], C(1))
            for i, j in ((5, 0), (6, 1), (7, 2), (8, 3)):
                digit(a[i], a[j] - 1)
        linp = a[4] * a[0] * a[1] * a[2] * a[3] + a[5] + a[0] * (a[6] + a[1] * (a[7] + a[2] * a[8]))
    elif kind == 'LEXICO':
        pars = 'int n0,int n1,int n2,int n3,int x,int y,int z,int t'
        st = SET % 'n0,n1,n2,n3'
        lin = 'x+n0*(y+n1*(z+n2*t))'
        dims = a[:4]

        def pre():
            sizes(0, 1, 2, 3)
            for i, j in ((4, 0), (5, 1), (6, 2), (7, 3)):
                digit(a[i], a[j] - 1)
        linp = a[4] + a[0] * (a[5] + a[1] * (a[6] + a[2] * a[7]))
    elif kind == 'CB3D':
        pars = 'int h,int n1,int n2,int n3,int cb,int x,int y,int z,int t'
        st = SET % '2*h,n1,n2,n3'
        lin = 'cb*(h*n1*n2*n3)+t+n3*(x+h*(y+n1*z))'
        dims = [a[0].scale(2), a[1], a[2], a[3]]

        def pre():
            sizes(0, 1, 2, 3)
            digit(a[4], C(1))
            for i, j in ((5, 0), (6, 1), (7, 2), (8, 3)):
                digit(a[i], a[j] - 1)
        linp = a[4] * a[0] * a[1] * a[2] * a[3] + a[8] + a[3] * (a[5] + a[0] * (a[6] + a[1] * a[7]))
    else:
        pars = 'int h,int k1,int k2,int k3,int x,int y,int z,int t'
        st = SET % '4*h,2*k1,2*k2,2*k3'
        dims = [a[0].scale(4), a[1].scale(2), a[2].scale(2), a[3].scale(2)]

        def pre():
            sizes(0, 1, 2, 3)
            for i, j in ((4, 0), (5, 1), (6, 2), (7, 3)):
                digit(a[i], a[j] - 1)
    subs = range(32) if kind == 'CB32' else [None]
    for sl in subs:
        sfx = '_%d' % sl if sl is not None else ''
        if sl is not None:
            lin = '%d*(h*k1*k2*k3)+x+h*(y+k1*(z+k2*t))' % sl
            linp = (a[0] * a[1] * a[2] * a[3]).scale(sl) + a[4] + a[0] * (a[5] + a[1] * (a[6] + a[2] * a[7]))
        ws.append(G('rt_%s%s' % (kind, sfx), 'extern "C" int w_rt_%s%s(%s){ %s return Layout::linearSiteIndex(Layout::siteCoords(Layout::nodeNumber(), %s)); }' % (kind, sfx, pars, st, lin),
                    lambda ev, linp=linp: (1, eq(ev, 'linearSiteIndex(siteCoords(i)) differs from i', ev.ret, linp, loc)),
                    'linearSiteIndex(siteCoords(node,i))', pre=pre))

        def coords(ev, k=len(pars.split(','))):
            out = []
            for m in range(4):
                v = ev.ld(mk('arg', k) + C(4 * m), 4, 'i32', TRUE)
                out += inrange(ev, 'coordinate %d' % m, v, dims[m], loc)
            return 4, out
        ws.append(G('co_%s%s' % (kind, sfx), 'extern "C" void w_co_%s%s(%s,int* o){ %s multi1d<int> c(Layout::siteCoords(Layout::nodeNumber(), %s)); for(int i=0;i<4;++i) o[i]=c[i]; }' % (kind, sfx, pars, st, lin),
                    coords, 'siteCoords(node,i)', pre=lambda pre=pre, k=len(pars.split(',')): (pre(), PTR.add(mk('arg', k).single()))))
    return ws


def lexico(kind):
    """lexicographic numbering: coordinates of a lexicographic number, its inverse, and the site number of either form"""
    ws = []
    a = [mk('arg', i) for i in range(14)]
    loc = 'lib/qdp_layout.cc'
    for nd in (4, 3, 2):
        ns = ','.join('int n%d' % i for i in range(nd))
        xs = ','.join('int x%d' % i for i in range(nd))
        dims, dg = a[:nd], a[nd:2 * nd]
        if kind == 'CB3D':
            order = [nd - 1] + list(range(nd - 1))
        else:
            order = list(range(nd))

        def pre(dims=dims, dg=dg, nd=nd):
            for i in range(nd):
                size(dims[i])
                digit(dg[i], dims[i] - 1)
            PTR.add(a[2 * nd].single())
        lin, linp = 'x%d' % order[-1], dg[order[-1]]
        for i in order[-2::-1]:
            lin = 'x%d+n%d*(%s)' % (i, i, lin)
            linp = dg[i] + dims[i] * linp
        st = 'int nb[%d]={%s}; multi1d<int> n(nb,%d); ' % (nd, ','.join('n%d' % i for i in range(nd)), nd)
        nm = '%s_%d' % (kind, nd)

        def co(ev, nd=nd, dg=dg):
            out = []
            for m in range(nd):
                out += eq(ev, 'crtesn: coordinate %d' % m, ev.ld(a[2 * nd] + C(4 * m), 4, 'i32', TRUE), dg[m], loc)
            return nd, out
        ws.append(G('crt_' + nm, 'extern "C" void w_crt_%s(%s,%s,int* o){ %s multi1d<int> c(crtesn(%s,n)); for(int i=0;i<%d;++i) o[i]=c[i]; }' % (nm, ns, xs, st, lin, nd), co, 'crtesn(i,size)', pre=pre))
        ws.append(G('loc_' + nm, 'extern "C" int w_loc_%s(%s,%s){ %s int cb[%d]={%s}; multi1d<int> c(cb,%d); return local_site(c,n); }' % (nm, ns, xs, st, nd, ','.join('x%d' % i for i in range(nd)), nd),
                    lambda ev, linp=linp: (1, eq(ev, 'local_site', ev.ret, linp, loc)), 'local_site(coord,size)', pre=pre))
    # linearSiteIndex of a lexicographic number is linearSiteIndex of its coordinates
    if kind in ('CB2', 'CB3D'):
        dims, dg = [a[0].scale(2), a[1], a[2], a[3]], a[4:8]
        pars, st = 'int h,int n1,int n2,int n3', SET % '2*h,n1,n2,n3'
    elif kind == 'CB32':
        dims, dg = [a[0].scale(4)] + [x.scale(2) for x in a[1:4]], a[4:8]
        pars, st = 'int h,int k1,int k2,int k3', SET % '4*h,2*k1,2*k2,2*k3'
    else:
        dims, dg = a[:4], a[4:8]
        pars, st = 'int n0,int n1,int n2,int n3', SET % 'n0,n1,n2,n3'

    def pre():
        for i in range(4):
            size(a[i])
            digit(dg[i], dims[i] - 1)
    lin = 'x3+nb[3]*(x0+nb[0]*(x1+nb[1]*x2))' if kind == 'CB3D' else 'x0+nb[0]*(x1+nb[1]*(x2+nb[2]*x3))'
    ws.append(G('lex_' + kind, 'extern "C" int w_lex_%s(%s,int x0,int x1,int x2,int x3){ %s int cb[4]={x0,x1,x2,x3}; multi1d<int> c(cb,4); return Layout::linearSiteIndex(%s) - Layout::linearSiteIndex(c); }' % (kind, pars, st, lin),
                lambda ev: (1, eq(ev, 'linearSiteIndex of a lexicographic number differs from that of its coordinates', ev.ret, ZERO, 'lib/qdp_scalar_layout.cc')),
                'linearSiteIndex(lexicographic number)', pre=pre))
    for f, c in (('vol', 'vol'), ('sitesOnNode', 'subgrid_vol')):
        ws.append(G('%s_%s' % (f, kind), 'extern "C" int w_%s_%s(int v){ Layout::_layout.vol=v; Layout::_layout.subgrid_vol=v; return Layout::%s(); }' % (f, kind, f),
                    lambda ev, f=f: (1, eq(ev, f, ev.ret, a[0], 'lib/qdp_scalar_layout.cc')), f + '()'))
    for f in ('nodeNumber', 'numNodes'):
        ws.append(G('%s_%s' % (f, kind), 'extern "C" int w_%s_%s(){ return Layout::%s(); }' % (f, kind, f),
                    lambda ev, f=f: (1, eq(ev, f, ev.ret, ZERO if f == 'nodeNumber' else ONE, 'lib/qdp_scalar_layout.cc')), f + '()'))
    return ws


def creation(kind):
    """Layout::create derives the volumes from the lattice size"""
    rec = {}

    def hook(ev, ins, name, args, g):
        if name.startswith('_ZN3QDP17QDP_isInitialized') or 'isInitialized' in name:
            return L(ONE)
        if 'ostream' in name or 'Stream' in name or name.startswith('_ZNSt') or 'writer' in name.lower() or 'QDPIO' in name:
            if 'v' not in rec:
                ps = [vg.Ev(ev.fn.module.funcs['w_acc_' + n]).run().ret.v for n in ('vol', 'svol')]
                rec['v'] = [ev.ld(p, 4, 'i32', g) for p in ps]
            return L(mk('res', ev.fn.name, ins['id']))
        return None
    a = [mk('arg', i) for i in range(4)]

    def ana(ev):
        exp = a[0] * a[1] * a[2] * a[3]
        if 'v' not in rec:
            return 2, [('undecided', 'no output statement found in Layout::create', '')]
        return 2, eq(ev, 'volume after Layout::create', rec['v'][0], exp, 'lib/qdp_scalar_layout.cc') + eq(ev, 'sites per node after Layout::create', rec['v'][1], exp, 'lib/qdp_scalar_layout.cc')
    return [G('create_' + kind, 'extern "C" void* w_acc_vol(){return &Layout::_layout.vol;} extern "C" void* w_acc_svol(){return &Layout::_layout.subgrid_vol;}\n'
              'extern "C" void w_create_%s(int a,int b,int c,int d){ int nb[4]={a,b,c,d}; new(&Layout::_layout.nrow) multi1d<int>(nb,4); Layout::create(); }' % kind,
              ana, 'Layout::create()', opts=vg.Opts(unroll=8, call_hook=hook), pre=lambda: rec.clear())]


# ---------------------------------------------------------------- lattice-wide functions of the site coordinates
import lat
import spec
from spec import Ty, Val

SCALAR_INC = '''#pragma clang attribute push(__attribute__((always_inline)), apply_to = function)
#include "%(R)s/lib/qdp_scalarsite_specific.cc"
#pragma clang attribute pop
'''
ACCM1 = '''extern "C" int w_acc_m1n(const multi1d<int>& a){return a.size();}
extern "C" int w_acc_m1e(const multi1d<int>& a,int i){return a[i];}
'''


def m1_offsets(module):
    """(offset of the length, offset of the data pointer) inside multi1d<int>, read off the accessors"""
    r = getattr(module, '_m1', None)
    if r is None:
        n = vg.Ev(module.funcs['w_acc_m1n']).run().ret
        e = vg.Ev(module.funcs['w_acc_m1e']).run().ret
        a = mk('arg', 0)
        PTR.add(a.single())
        on = ATOMS[n.v.single()][1] - a
        pe = ATOMS[e.v.single()][1] - mk('arg', 1).scale(4)
        oe = ATOMS[pe.single()][1] - a
        r = module._m1 = (on, oe)
    return r


def coords_of(node, lin):
    p = mk('coords', node, lin)
    PTR.add(p.single())
    return p


def geo_hook(ev, ins, name, args, g):
    """the layout maps as uninterpreted functions of their arguments (their own contract is decided separately)"""
    r = lat.hook(ev, ins, name, args, g)
    if r is not None:
        return r
    if name == '_ZN3QDP6Layout10siteCoordsEii':
        on, oe = m1_offsets(ev.fn.module)
        dst, node, lin = [x if isinstance(x, P) else x.v for x in args]
        F = coords_of(node, lin)
        for off, sz, v, ty in ((on, 4, C(4), 'i32'), (oe, 8, F, 'ptr')):
            ev.log.append(vg.Effect('store', ptr=dst + off, size=sz, val=L(v), guard=g, seq=len(ev.log), fty=ty, loc=''))
        return L(ZERO)
    if name.startswith(('_ZNK3WFncl', '_ZNK4WArrcl')):
        on, oe = m1_offsets(ev.fn.module)
        dst, this, p, sign = [x if isinstance(x, P) else x.v for x in args[:4]]
        dr = vg.asnum(args[4]) if len(args) > 4 else L(ZERO)
        F = ev.ld(p + oe, 8, 'ptr', g)
        cs = [bind(F, lambda f, m=m: ev.ld(f + C(4 * m), 4, 'i32', g)) for m in range(4)]

        def wfn(*c):
            q = mk('wfn', *c)
            PTR.add(q.single())
            return q
        F = apply(wfn, *[vg.asnum(c) for c in cs + [args[3] if isinstance(args[3], T) else L(args[3]), dr]])
        for off, sz, v, ty in ((on, 4, L(C(4)), 'i32'), (oe, 8, F, 'ptr')):
            ev.log.append(vg.Effect('store', ptr=dst + off, size=sz, val=v, guard=g, seq=len(ev.log), fty=ty, loc=''))
        return L(ZERO)
    if name == '_ZN3QDP6Layout10nodeNumberEv':
        return L(ZERO)
    if name.startswith('_ZN3QDP6Layout15linearSiteIndexERK'):
        on, oe = m1_offsets(ev.fn.module)
        p = args[0] if isinstance(args[0], P) else args[0].v
        F = ev.ld(p + oe, 8, 'ptr', g)
        cs = [bind(F, lambda f, m=m: ev.ld(f + C(4 * m), 4, 'i32', g)) for m in range(4)]
        return apply(lambda *c: site_of(*c), *[vg.asnum(c) for c in cs])
    if name == '_ZN3QDP6Layout15linearSiteIndexEi':
        return bind(args[0] if isinstance(args[0], T) else L(args[0]), lambda x: L(nn(mk('lexsite', x))))
    return None


def nn(p):
    RANGE[p.single()] = (0, 1 << 27)
    return p


def site_of(*c):
    # linearSiteIndex inverts siteCoords
    b = [x.single() for x in c]
    if all(i is not None and ATOMS[i][0] == 'ld' for i in b):
        f = ATOMS[b[0]][1]
        if f.single() is not None and ATOMS[f.single()][0] == 'coords' and all(ATOMS[b[m]][1] == f + C(4 * m) for m in range(4)):
            return ATOMS[f.single()][2]
    return nn(mk('site_of', *c))


def known_all(ev, p, sz, b):
    """the predefined subset of all sites: entry k of its site table is k, start 0, end vol-1 (decided with the subsets)"""
    if sz != 4 or b is None:
        return None
    m = ev.fn.module
    r = getattr(m, '_all', None)
    if r is None:
        acc = lat.Acc(m)
        S = mk('glob', '_ZN3QDP3allE')
        PTR.add(S.single())
        f = {n: ATOMS[acc.p(n, S).single()][1] for n in ('start', 'end', 'n')}
        tab = ATOMS[acc.p('tab', S, ZERO).single()][1]
        r = m._all = (f, tab, vg.baseof(tab))
    f, tab, tb = r
    if b == tb:
        return vg.fl_exact(p - tab, 4)
    v = nn(mk('layoutvol'))
    for n, x in (('start', ZERO), ('end', v - 1), ('n', v)):
        if p == f[n]:
            return x
    return None


GOPTS = vg.Opts(call_hook=geo_hook)
AOPTS = vg.Opts(call_hook=geo_hook, known=known_all)


# ---------------------------------------------------------------- shifts and general maps
ACCMAP = """extern "C" int w_acc_moff(const Map& m,int i){return m.Offsets()[i];}
extern "C" multi1d<int> w_ext(const multi1d<int>& c,int sign,int dir);
"""


class SH(lat.LW):
    """d[s] = expression containing maps; spec(at, off, site): at(i,x) operand i at site x, off(i,x) the map in operand i applied to site x"""

    insite = False

    def distinct(self, acc, ar):
        g = lat.LW.distinct(self, acc, ar)
        if self.insite:
            # subset tables name sites of the local volume (decided separately)
            S = self.S
            v = nn(mk('layoutvol'))
            t = acc.p('tab', S, mk('kappa'))
            for q in (acc.p('end', S), t):
                g = band(g, c_lt(q, v))
            for q in (acc.p('start', S), t):
                g = band(g, c_le0(-q))
        return g

    def value(self, acc, ar, site):
        def at(i, x):
            t = self.args[i][1]
            return spec.load(t, acc.p('el_' + t.short(), ar[i + 1], x)) if self.args[i][0] == 'l' else spec.load(t, ar[i + 1])

        def off(i, x):
            p = acc.p('moff', ar[i + 1], x)
            nn(p)
            return p
        exp = self.spec(at, off, site)
        if exp.ty != self.dest:
            exp = spec.tfull(exp, self.dest)
        return exp


M = ('x', 'Map&')


def shifts():
    """expressions with maps; the offset table of a map is an arbitrary function of the site"""
    ws = []
    from algebra import ty

    def l(t):
        return ('l', t)
    for w in 'fd':
        R, Z = ty('s', 'r', w), ty('s', 'c', w)
        for x in ('cm', 'cv', 'fe', 'hf', 'pr', 'sm'):
            t = ty(x, 'c', w)
            n = t.short()
            ws.append(SH('sh_' + n, t, [M, l(t)], 'd[s] = a(b)', lambda at, o, x: at(1, o(0, x))))
            ws.append(SH('shall_' + n, t, [M, l(t)], 'd = a(b)', lambda at, o, x: at(1, o(0, x)), sub='whole'))
            ws.append(SH('shpe_' + n, t, [M, l(t), l(t)], 'd[s] = b + a(c)', lambda at, o, x: spec.tadd(at(1, x), at(2, o(0, x)))))
            ws.append(SH('shcj_' + n, t, [M, l(t)], 'd[s] = a(conj(b))', lambda at, o, x: spec.tconj(at(1, o(0, x)))))
            ws.append(SH('shexpr_' + n, t, [M, l(t), l(R)], 'd[s] = a(c*b)', lambda at, o, x: spec.tmul(at(2, o(0, x)), at(1, o(0, x)))))
            ws.append(SH('shmix_' + n, t, [M, l(t), l(R)], 'd[s] = c*a(b)', lambda at, o, x: spec.tmul(at(2, x), at(1, o(0, x)))))
            ws.append(SH('shtwo_' + n, t, [M, M, l(t)], 'd[s] = a(b(c))', lambda at, o, x: at(2, o(1, o(0, x)))))
        ws.append(SH('shr_' + w, R, [M, l(R)], 'd[s] = a(b)', lambda at, o, x: at(1, o(0, x))))
        u, f = ty('cm', 'c', w), ty('fe', 'c', w)
        ws.append(SH('hop_' + w, f, [M, l(u), l(f)], 'd[s] = b*a(c)', lambda at, o, x: spec.tmul(at(1, x), at(2, o(0, x)))))
        ws.append(SH('hopb_' + w, f, [M, l(u), l(f)], 'd[s] = a(adj(b)*c)', lambda at, o, x: spec.tmul(spec.tadj(at(1, o(0, x))), at(2, o(0, x)))))
        ws.append(SH('plaq_' + w, u, [M, M, l(u), l(u)], 'd[s] = c*a(e)*adj(b(c))*adj(e)',
                     lambda at, o, x: spec.tmul(spec.tmul(spec.tmul(at(2, x), at(3, o(0, x))), spec.tadj(at(2, o(1, x)))), spec.tadj(at(3, x)))))
    I = Ty(spec.S, spec.S, 'r', 'i')
    ws.append(SH('shi', I, [M, l(I)], 'd[s] = a(b)', lambda at, o, x: at(1, o(0, x))))
    return ws


def map_prelude(ws):
    return lat.prelude(ws) + ACCMAP


MAPINC = """#pragma clang attribute push(__attribute__((always_inline)), apply_to = function)
#include "%(R)s/lib/qdp_scalar_specific.cc"
#include "%(R)s/lib/qdp_map.cc"
#pragma clang attribute pop
struct WFn : public MapFunc { __attribute__((noinline)) multi1d<int> operator()(const multi1d<int>& c,int sign) const { return multi1d<int>(c); } };
struct WArr : public ArrayMapFunc { __attribute__((noinline)) multi1d<int> operator()(const multi1d<int>& c,int sign,int dir) const { return multi1d<int>(c); } int numArray() const {return 4;} };
"""


def makers():
    from algebra import ty
    R = ty('s', 'r', 'f')
    ws = []

    def fn(x, sign, dr):
        q = mk('wfn', *([mk('ld', coords_of(ZERO, x) + C(4 * m), 4) for m in range(4)] + [C(sign), C(dr)]))
        PTR.add(q.single())
        return site_of(*[mk('ld', q + C(4 * m), 4) for m in range(4)])
    ws.append(SH('mk_map', R, [('l', R)], 'WFn f; Map m; m.make(f); d[s] = m(a)', lambda at, o, x: at(0, fn(x, 1, 0))))
    for d in range(4):
        ws.append(SH('mk_arr%d' % d, R, [('l', R)], 'WArr f; ArrayMap m; m.make(f); d[s] = m(a,%d)' % d, lambda at, o, x, d=d: at(0, fn(x, 1, d))))
        for sg, si in (('FORWARD', 1), ('BACKWARD', -1)):
            ws.append(SH('mk_abi%d%s' % (d, sg), R, [('l', R)], 'WArr f; ArrayBiDirectionalMap m; m.make(f); d[s] = m(a,%s,%d)' % (sg, d), lambda at, o, x, d=d, si=si: at(0, fn(x, si, d))))
    for sg, si in (('FORWARD', 1), ('BACKWARD', -1)):
        ws.append(SH('mk_bi' + sg, R, [('l', R)], 'WFn f; BiDirectionalMap m; m.make(f); d[s] = m(a,%s)' % sg, lambda at, o, x, si=si: at(0, fn(x, si, 0))))
    for w in ws:
        w.opts = vg.Opts(call_hook=geo_hook, unroll=8)
        w.insite = True
        w.also = 'MapFunccl|WArr'
    return ws


def maker_prelude(ws):
    return MAPINC % {'R': lib.REPO} + lat.prelude(ws) + ACCMAP + ACCM1


class NN(SH):
    """nearest-neighbour shifts: coordinates c0..c3 inside extents n0..n3 (free), at or away from the edge"""
    insite = True
    also = 'MapFunc'
    okbase = ('new', 'glob', 'lattsize', 'extF', 'crdF')

    def __init__(self, mu, sg, edge, sub='Subset'):
        from algebra import ty
        R = ty('s', 'r', 'f')
        SH.__init__(self, 'nn_%d%s%d' % (mu, sg, edge), R, [('l', R)], 'initDefaultMaps(); d[s] = shift(a,%s,%d)' % (sg, mu), None, sub=sub)
        del self.spec
        self.mu, self.sg, self.edge = mu, 1 if sg == 'FORWARD' else -1, edge
        self.opts = vg.Opts(call_hook=self.hook, unroll=8)

    def coords(self):
        n = [size(mk('ext', m)) for m in range(4)]
        c = []
        for m in range(4):
            x = mk('crd', m)
            if m != self.mu:
                digit(x, n[m] - 1)
            elif self.edge:
                x = n[m] - 1 if self.sg > 0 else ZERO
            else:
                digit(x, n[m] - 2)
                POS.discard(n[m].single())
                RANGE[n[m].single()] = (2, None)
                if self.sg < 0:
                    x = x + 1
            c.append(x)
        return n, c

    def hook(self, ev, ins, name, args, g):
        def put(p, sz, v, ty):
            ev.log.append(vg.Effect('store', ptr=p, size=sz, val=L(v), guard=g, seq=len(ev.log), fty=ty, loc=''))
        if name in ('_ZN3QDP6Layout10siteCoordsEii', '_ZN3QDP6Layout8lattSizeEv'):
            on, oe = m1_offsets(ev.fn.module)
            n, c = self.coords()
            if 'siteCoords' in name:
                dst, F, v = args[0] if isinstance(args[0], P) else args[0].v, mk('crdF'), c
            else:
                dst, F, v = mk('lattsize'), mk('extF'), n
            for q in (dst, F):
                if q.single() is not None:
                    PTR.add(q.single())
            put(dst + on, 4, C(4), 'i32')
            put(dst + oe, 8, F, 'ptr')
            for m in range(4):
                put(F + C(4 * m), 4, v[m], 'i32')
            return L(dst)
        return geo_hook(ev, ins, name, args, g)

    def analyse(self, fn):
        UB.clear()
        POS.clear()
        if lt not in sym.LT_FACTS:
            sym.LT_FACTS.append(lt)
        return SH.analyse(self, fn)

    def spec(self, at, off, x):
        n, c = self.coords()
        d = list(c)
        d[self.mu] = (ZERO if self.sg > 0 else n[self.mu] - 1) if self.edge else c[self.mu] + C(self.sg)
        return at(0, site_of(*d))


def neighbours():
    return [NN(mu, sg, e) for mu in range(4) for sg in ('FORWARD', 'BACKWARD') for e in (0, 1)]


def coord_functions():
    I = Ty(spec.S, spec.S, 'r', 'i')
    ws = []
    for mu in range(4):
        ws.append(SH('latcoord%d' % mu, I, [], 'd = Layout::latticeCoordinate(%d)' % mu, lambda at, o, x, mu=mu: Val(I, {((), ()): (mk('ld', coords_of(ZERO, x) + C(4 * mu), 4), None)}), sub='whole'))
        ws[-1].opts, ws[-1].insite, ws[-1].okbase = GOPTS, True, ('new', 'glob')
    return ws


def geo_prelude(ws):
    return SCALAR_INC % {'R': lib.REPO} + lat.prelude(ws) + ACCMAP + ACCM1


# ---------------------------------------------------------------- single sites and plain arrays
class ATy(Ty):
    """an array of site objects indexed by site number"""

    def lat(self):
        return 'multi1d<%s >' % Ty.cpp(self)

    def short(self):
        return Ty.short(self) + 'A'


def aty(t):
    r = ATy.__new__(ATy)
    r.__dict__.update(t.__dict__)
    for n in getattr(type(t), '__slots__', ()):
        setattr(r, n, getattr(t, n))
    return r


class PK(lat.LW):
    """access to the one site named by a coordinate vector; poke: the destination is a lattice field"""

    def __init__(self, name, dest, args, body, spec, poke=False):
        lat.LW.__init__(self, name, dest, args + [('x', 'const multi1d<int>&')], body, spec, sub=None)
        self.poke = poke
        self.opts = AOPTS

    def types(self):
        return ([self.dest] if self.poke else []) + [t for k, t in self.args if k == 'l']

    def code(self):
        ps = ['%s& d' % (self.dest.lat() if self.poke else self.dest.cpp())]
        for i, (k, t) in enumerate(self.args):
            ps.append('%s %s' % (t if k == 'x' else 'const %s&' % (t.lat() if k == 'l' else t.cpp()), 'abcefg'[i]))
        return 'extern "C" void %s(%s) { %s; }\n' % (self.name, ', '.join(ps), self.body)

    def analyse(self, fn):
        acc = lat.Acc(fn.module)
        na = len(self.args)
        ar = [mk('arg', i) for i in range(na + 1)]
        for a in ar:
            PTR.add(a.single())
        v = nn(mk('layoutvol'))
        ev = vg.Ev(fn, self.opts).run()
        c = [acc.p('m1e', ar[na], C(m)) for m in range(4)]
        site = site_of(*c)
        vals = [spec.load(t, acc.p('el_' + t.short(), ar[i + 1], site)) if k == 'l' else spec.load(t, ar[i + 1]) for i, (k, t) in enumerate(self.args) if k != 'x']
        exp = self.spec(*vals)
        base = acc.p('el_' + self.dest.short(), ar[0], site) if self.poke else ar[0]
        off, sz = self.dest.offsets(), spec.WSZ[self.dest.word]
        out, n = [], 0
        dist = band(c_lt(site, v), c_le0(-site))
        for k in ([0] if self.poke else []):
            for i, (kk, t) in enumerate(self.args):
                if kk == 'l':
                    dist = band(dist, bnot(c_eq0(acc.p('el_' + self.dest.short(), ar[0], ZERO) - acc.p('el_' + t.short(), ar[i + 1], ZERO))))
        for i in self.dest.idx():
            for p in range(self.dest.ncomp()):
                got = ev.ld(base + C(off[(i, p)]), sz, lat.FT[self.dest.word], dist)
                n += 1
                e = exp.d[i][p]
                r = compare(got, e if isinstance(e, (P, T)) else L(e), lat.facts_of(dist))
                if r and ev.unknown:
                    r = ('undecided', 'address of a store inside a loop is not resolved')
                if r:
                    out.append((r[0], 'component spin%s colour%s %s: %s' % (list(i[0]), list(i[1]), 're' if p == 0 else 'im', r[1]), where(ev, base, sz)))
        for e in ev.log:
            if e.kind in ('store', 'copy', 'set'):
                b = vg.baseof(e.ptr)
                if b in ev.allocas or (b is not None and ATOMS[b][0] in ('new', 'glob')):
                    continue
                d = e.ptr - base
                if d.isconst() and 0 <= d.const() and d.const() + (e.size or 1 << 30) <= self.dest.size():
                    continue
                op = any(ATOMS[a][0] in wit.OPAQUE for m in e.ptr.d for a, _ in m)
                out.append(('undecided' if op else 'bad', 'writes to another site or object: %s' % show(d)[:200], e.loc))
        return n, lat.dedup(out), ev


import wit


def access():
    from algebra import ty
    ws = []

    def l(t):
        return ('l', t)
    for w in 'fd':
        for x in ('s', 'cm', 'cv', 'fe', 'pr', 'sm'):
            t = ty(x, 'c', w)
            n = t.short()
            a = aty(t)
            ws.append(PK('peek_' + n, t, [l(t)], 'd = peekSite(a,b)', lambda v: v))
            ws.append(PK('peekx_' + n, t, [l(t), l(t)], 'd = peekSite(a+b,c)', spec.tadd))
            ws.append(PK('poke_' + n, t, [('s', t)], 'pokeSite(d,a,b)', lambda v: v, poke=True))
            ws.append(lat.LW('ext_' + n, a, [l(t)], 'QDP_extract(d,a,s)', lambda v: v))
            ws.append(lat.LW('ins_' + n, t, [l(a)], 'QDP_insert(d,a,s)', lambda v: v))
    for w in 'i':
        t = Ty(spec.S, spec.S, 'r', w)
        ws.append(PK('peek_i', t, [l(t)], 'd = peekSite(a,b)', lambda v: v))
        ws.append(PK('poke_i', t, [('s', t)], 'pokeSite(d,a,b)', lambda v: v, poke=True))
    R = ty('s', 'r', 'd')
    ws.append(PK('peek_r', R, [l(R)], 'd = peekSite(a,b)', lambda v: v))
    ws.append(PK('peek_nz', R, [l(ty('cm', 'c', 'd'))], 'd = peekSite(localNorm2(a),b)', spec.tnorm2))
    return ws


def access_prelude(ws):
    ts = {t.short(): t for w in ws for t in w.types()}
    out = lat.ACC + ACCM1
    for t in ts.values():
        if isinstance(t, ATy):
            out += 'extern "C" void* w_acc_el_%s(%s& x, int i){return (void*)&x[i].elem();}\n' % (t.short(), t.lat())
        else:
            out += lat.elem_acc(t)
    return out
