"""Sets and subsets (P11)."""
import lib
import lat
import spec
import vg
import wit
import geo
from algebra import ty
from sym import *

SETINC = """#pragma clang attribute push(__attribute__((always_inline)), apply_to = function)
#include "%(R)s/lib/qdp_scalarsite_specific.cc"
#include "%(R)s/lib/qdp_subset.cc"
#pragma clang attribute pop
extern "C" int w_ext_col(const multi1d<int>& c);
extern "C" int w_ext_ncol();
struct WSet : public SetFunc { int operator()(const multi1d<int>& c) const { return w_ext_col(c); } int numSubsets() const {return w_ext_ncol();} };
""" 


def col_of(*c):
    b = [x.single() for x in c]
    if all(i is not None and ATOMS[i][0] == 'ld' for i in b):
        f = ATOMS[b[0]][1]
        if f.single() is not None and ATOMS[f.single()][0] == 'coords' and all(ATOMS[b[m]][1] == f + C(4 * m) for m in range(4)):
            return mk('col', ATOMS[f.single()][2])
    return mk('colc', *c)


def hook(ev, ins, name, args, g):
    if name == 'w_ext_ncol':
        q = mk('ncol')
        RANGE[q.single()] = (0, 1 << 20)
        return L(q)
    if name == 'w_ext_col':
        on, oe = geo.m1_offsets(ev.fn.module)
        p = args[0] if isinstance(args[0], P) else args[0].v
        F = ev.ld(p + oe, 8, 'ptr', g)
        cs = [bind(F, lambda f, m=m: ev.ld(f + C(4 * m), 4, 'i32', g)) for m in range(4)]
        return apply(col_of, *[vg.asnum(c) for c in cs])
    if name.startswith('_ZN3QDP6Layout10nodeNumberERK'):
        return L(ZERO)
    return geo.geo_hook(ev, ins, name, args, g)



ACCSET = """extern "C" int w_acc_sn(const Set& s){return s.numSubsets();}
struct SetOut { int v[8]; const void* p[4]; };
"""
READ = 'o.v[0]=S.numSiteTable(); o.v[1]=S.siteTable()[j]; o.v[2]=S.hasOrderedRep(); o.v[3]=S.start(); o.v[4]=S.end(); o.v[5]=S.color();'
VOL = None


def vol():
    q = mk('layoutvol')
    RANGE[q.single()] = (0, 1 << 27)
    return q


def gap(cond, n, lv=93):
    """the entries of the table are not consecutive: some entry b differs from the first one plus b"""
    b = vg.bvar(lv)
    if cond is TRUE:
        return FALSE
    return c_atom('any', bnot(c_eq0(nthof(cond, ZERO) + b - nthof(cond, b))), n)


def body_of(cond):
    if cond is TRUE:
        return ONE
    return mk('ite', cond, ONE)


def nthof(cond, j):
    if cond is TRUE:
        return j
    q = mk('nth', body_of(cond), j)
    RANGE[q.single()] = (0, None)
    return q


def canon(t, cond, n):
    """equivalent ways of saying that the increasing entries are not consecutive"""
    if cond is TRUE:
        return t
    g = gap(cond, n)
    table = {}
    pairs = [(c_eq0(nthof(cond, n - 1) - nthof(cond, ZERO) - n + 1), bnot(g))]
    for lv in range(91, 96):
        b = vg.bvar(lv)
        pairs.append((gap(cond, n, lv), g))
        pairs.append((c_atom('any', bnot(c_eq0(nthof(cond, b + 1) - nthof(cond, b) - 1)), n - 1), g))
    for x, r in pairs:
        if x.c is not None:
            table[x.c] = r if x.hi is TRUE else bnot(r)

    def go(t):
        if t.c is None:
            return t
        return ite(table.get(t.c, var(t.c)), go(t.hi), go(t.lo))
    return go(t)


class ST(wit.W):
    """reads one subset after a set was built; cond(k): site k has the colour of the subset"""

    def __init__(self, name, params, body, cond, color, opts=None, setptr=None, colors=None, ncol=None):
        self.name = 'w_' + name
        self.distinct = name == 'setcp'
        self.params, self.body, self.cond, self.color = params, body, cond, color
        self.setptr = setptr
        self.colors = colors
        self.ncol = ncol
        self.opts = vg.Opts(call_hook=hook, unroll=8)

    also = 'WSet|^_ZNK3QDP.*Set.*Func'

    def code(self):
        return 'extern "C" void %s(SetOut& o, int c, int j, int i%s) { %s; }\n' % (self.name, self.params, self.body)

    def analyse(self, fn):
        ar = [mk('arg', i) for i in range(8)]
        for i in (0, 4, 5, 6, 7):
            PTR.add(ar[i].single())
        o, c, j, i = ar[:4]
        nc = mk('ncol')
        RANGE[nc.single()] = (1, 1 << 20)
        for q in (c, j, i):
            RANGE[q.single()] = (0, 1 << 27)
        v = vol()
        ev = vg.Ev(fn, self.opts).run()
        k = vg.bvar(0)
        cond = self.cond(k, c)
        n = v if cond is TRUE else mk('sum', body_of(cond), v)
        g = band(c_lt(ZERO, v), c_lt(i, v))
        if self.ncol:
            nc = C(self.ncol)
        if self.color is None:
            g = band(g, c_lt(c, nc))
        if self.distinct:
            g = band(g, bnot(c_eq0(ar[4] - ar[5])))
        col = c if self.color is None else C(self.color)
        loc = lat.lastloc2(ev)
        out, nob = [], 0

        def chk(what, idx, exp, g, sz=4, off=0):
            nonlocal nob
            if off == 0 and 'o.v[%d]' % idx not in self.body:
                return
            got = ev.ld(o + C(off + sz * idx), sz, 'i32' if sz == 4 else 'ptr', g)
            got = canon(restrict(vg.asnum(got), g), cond, n)
            exp = restrict(exp if isinstance(exp, T) else L(exp), g)
            nob += 1
            r = wit.compare(got, exp, lat.facts_of(g))
            if r is not None:
                out.append((r[0], '%s: %s' % (what, r[1]), loc))
        chk('number of sites', 0, n, g)
        chk('colour', 5, col, g)
        ne = band(g, c_lt(ZERO, n))
        chk('entry of the site table', 1, nthof(cond, j), band(ne, c_lt(j, n)))
        gp = gap(cond, n)
        chk('contiguous representation', 2, ite(gp, TZERO, L(ONE)), ne)
        no = band(ne, bnot(gp))
        chk('first site', 3, nthof(cond, ZERO), no)
        chk('last site', 4, nthof(cond, n - 1), no)
        if cond is not TRUE:
            chk('contiguous representation of an empty subset', 2, ZERO, band(g, c_eq0(n)))
        if self.setptr is not None:
            chk('owning set', 0, self.setptr(ar), g, 8, 32)
        if 'o.v[6]' in self.body:
            chk('number of subsets', 6, nc, g)
        if 'o.v[7]' in self.body:
            chk('colour of a site', 7, self.colors(i) if self.colors else mk('col', i), g)
        return nob, lat.dedup(out), ev


def prelude(ws):
    return SETINC % {'R': lib.REPO} + lat.ACC + geo.ACCM1 + ACCSET


def crd(k, m):
    return mk('ld', geo.coords_of(ZERO, k) + C(4 * m), 4)


def mod2(x):
    return x - mk('fl', x, 2).scale(2)


def cb32(k):
    s, h = ZERO, ZERO
    for m in range(4):
        s = s + mod2(crd(k, m)).scale(1 << m)
        h = h + mk('fl', crd(k, m), 2)
    return s + mod2(h).scale(16)


def witnesses():
    def bycol(k, c):
        return c_eq0(c - mk('col', k))

    def parity(nd, p):
        def f(k, c):
            s = ZERO
            for m in range(nd):
                s = s + crd(k, m)
            return c_eq0(mod2(s) - (c if p is None else p))
        return f
    ws = [ST('mk', ', Set& s', 'WSet f; s.make(f); const Subset& S = s[c]; ' + READ + ' o.v[6]=s.numSubsets(); o.v[7]=s.latticeColoring()[i]; o.p[0]=&S.getSet()', bycol, None, setptr=lambda a: a[4]),
          ST('ctor', '', 'WSet f; Set s(f); const Subset& S = s[c]; ' + READ + ' o.v[6]=s.numSubsets(); o.v[7]=s.latticeColoring()[i]', bycol, None),
          ST('subcp', ', Set& s, Subset& S', 'WSet f; s.make(f); S = s[c]; ' + READ + 'o.p[0]=&S.getSet()', bycol, None, setptr=lambda a: a[4]),
          ST('subcc', ', Set& s', 'WSet f; s.make(f); Subset S(s[c]); ' + READ + 'o.p[0]=&S.getSet()', bycol, None, setptr=lambda a: a[4]),
          ST('submk', ', Set& s, Subset& S', 'WSet f; s.make(f); S.make(s[c]); ' + READ + 'o.p[0]=&S.getSet()', bycol, None, setptr=lambda a: a[4]),
          ST('setcp', ', Set& s, Set& t', 'WSet f; s.make(f); t = s; const Subset& S = t[c]; ' + READ + 'o.v[6]=t.numSubsets(); o.v[7]=t.latticeColoring()[i]; o.p[0]=&S.getSet()', bycol, None, setptr=lambda a: a[5]),
          ST('even', '', 'initDefaultSets(); const Subset& S = even; ' + READ, parity(4, 0), 0),
          *[ST('rb%d_%d' % (nd, p), '', 'initDefaultSets(); const Subset& S = %s[%d]; ' % (nm, p) + READ + 'o.v[6]=%s.numSubsets(); o.v[7]=%s.latticeColoring()[i]' % (nm, nm), parity(nd, p), p, ncol=2,
               colors=lambda i, nd=nd: mod2(sum((crd(i, m) for m in range(nd)), ZERO))) for nd, nm in ((4, 'rb'), (3, 'rb3')) for p in (0, 1)],
          ST('mcb', '', 'initDefaultSets(); o.v[6]=mcb.numSubsets(); o.v[7]=mcb.latticeColoring()[i]', lambda k, c: c_eq0(cb32(k) - c), None, ncol=32, colors=cb32),
          ST('all', '', 'initDefaultSets(); const Subset& S = all; ' + READ, lambda k, c: TRUE, 0),
          ST('odd', '', 'initDefaultSets(); const Subset& S = odd; ' + READ, parity(4, 1), 1),
          ]
    return ws
