"""Lattice witnesses: assignments on a subset and reductions over a subset."""
import math
import re
from sym import *
import sym
import vg
import spec
from spec import Ty, Val, WSZ
from wit import W, compare, where, opaque_in, uninit_in
import lib
import wit

FT = {'f': 'f32', 'd': 'f64', 'i': 'i32', 'b': 'i8'}

ACC = '''
extern "C" bool w_acc_ord(const Subset& s){return s.hasOrderedRep();}
extern "C" int w_acc_start(const Subset& s){return s.start();}
extern "C" int w_acc_end(const Subset& s){return s.end();}
extern "C" int w_acc_n(const Subset& s){return s.numSiteTable();}
extern "C" int w_acc_tab(const Subset& s, int i){return s.siteTable()[i];}
'''


def elem_acc(t):
    return 'extern "C" void* w_acc_el_%s(%s& x, int i){return (void*)&x.elem(i);}\n' % (t.short(), t.lat())


VOLF = re.compile(r'^_ZN3QDP6Layout(3vol|11sitesOnNode|11subgridVol)Ev$')


def hook(ev, ins, name, args, g):
    """number of sites: on the scalar architecture the global and the local volume are one quantity"""
    if VOLF.match(name):
        v = mk('layoutvol')
        RANGE[v.single()] = (0, 1 << 27)
        return L(v)
    if name in ('w_ext_lo', 'w_ext_len'):
        return L(piece(name[6:]))
    if 'QDPDefaultAllocator8allocate' in name and ins:
        a = A(atom_id(('new', ev.fn.name + ev.chain, ins['id'], args[1]) + tuple(A(k) for k in ev.kstack)))
        PTR.add(a.single())
        return L(a)
    return None


OPTS = vg.Opts(call_hook=hook)


def piece(x):
    """first entry and length of the piece of the work one worker thread receives"""
    v = mk('p' + x)
    RANGE[v.single()] = (0, 1 << 27)
    return v


def threaded(fn):
    return any(i.get('f') == 'w_ext_lo' for b in fn.blocks.values() for i in b)


class Acc:
    """normal forms of the public accessors, as functions of object addresses"""

    def __init__(self, module, fn=None):
        self.m = module
        self.memo = {}
        self.piece = fn is not None and threaded(fn)

    def get(self, name, *args):
        k = name
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = vg.Ev(self.m.funcs['w_acc_' + name]).run().ret
        env = {}
        for i, a in enumerate(args):
            env[mk('arg', i).single()] = a
            PTR.add(mk('arg', i).single())
        return subst_t(r, env)

    def p(self, name, *args):
        if self.piece:
            lo, n = piece('lo'), piece('len')
            if name == 'n':
                return n
            if name == 'start':
                return self.q('start', *args) + lo
            if name == 'end':
                return self.q('start', *args) + lo + n - 1
            if name == 'tab':
                return self.q('tab', args[0], args[1] + lo)
        return self.q(name, *args)

    def q(self, name, *args):
        t = self.get(name, *args)
        if t.c is not None:
            raise vg.Unsupported('accessor %s is conditional' % name)
        return t.v


def pureld(ev, a):
    """every accessor value is read from the initial state"""
    return a


class LW(W):
    """d[s] op= expr over lattice objects.
    args: list of (kind, Ty) with kind 'l' lattice or 's' scalar"""

    def __init__(self, name, dest, args, body, spec, inout=False, sub='Subset', types=()):
        self.name = 'w_' + name
        self.dest, self.args, self.body, self.spec, self.inout = dest, args, body, spec, inout
        self.pre = ''
        self.sub = sub
        self.opts = OPTS

    okbase = ('new',)

    def types(self):
        return [self.dest] + [t for k, t in self.args if k == 'l']

    def code(self):
        ps = ['%s& d' % self.dest.lat()]
        for i, (k, t) in enumerate(self.args):
            ps.append('%s %s' % (t if k == 'x' else 'const %s&' % (t.lat() if k == 'l' else t.cpp()), 'abcefg'[i]))
        if self.sub and self.sub not in ('vol', 'whole'):
            ps.append('const %s& s' % self.sub)
        return 'extern "C" void %s(%s) { %s; }\n' % (self.name, ', '.join(ps), self.body)

    def analyse(self, fn):
        return whole(self, fn)

    def analyse1(self, fn):
        acc = Acc(fn.module, fn)
        na = len(self.args)
        ar = [mk('arg', i) for i in range(na + 2)]
        for a in ar:
            PTR.add(a.single())
        S = ar[na + 1]
        if not self.sub:
            S = mk('glob', '_ZN3QDP3allE')
            PTR.add(S.single())
        self.S = S
        start, end, n = acc.p('start', S), acc.p('end', S), acc.p('n', S)
        vol = self.sub == 'vol'
        if vol:
            hook(None, None, '_ZN3QDP6Layout3volEv', None, None)
            start, end, n = ZERO, mk('layoutvol') - 1, mk('layoutvol')
            if acc.piece:
                start, end, n = piece('lo'), piece('lo') + piece('len') - 1, piece('len')
            ordc = TRUE
        if not vol:
            for q in ('start', 'n', 'end'):
                RANGE[acc.q(q, S).single()] = (-1 if q == 'end' else 0, 1 << 27)
            ordc = acc.get('ord', S)
        I = mk('site')
        KAP = mk('kappa')
        RANGE[I.single()] = (0, None)
        RANGE[KAP.single()] = (0, None)
        ev = vg.Ev(fn, self.opts)
        if not vol:
            ev.injective = vg.baseof(ATOMS[acc.p('tab', S, ZERO).single()][1])
        ev.run()
        out, nob = [], 0
        dist = self.distinct(acc, ar)
        M = 1 if vol else self.stride(ev, acc, ar, S)
        for res in range(M):
            a, b = self.onesite(ev, acc, ar, S, start, end, n, ordc, vol, dist, I.scale(M) + start + res if M > 1 else I, KAP.scale(M) + res, res)
            nob += a
            out += b
        # no store outside the destination's data
        el = acc.p('el_' + self.dest.short(), ar[0], I)
        db = vg.baseof(el)
        for e in ev.log:
            if e.kind in ('store', 'copy', 'set'):
                b = vg.baseof(e.ptr)
                if b in ev.allocas or b == db or (b is not None and ATOMS[b][0] in self.okbase) or prune(band(e.guard, dist), facts_of(dist)) is FALSE:
                    continue
                out.append(('bad' if b is not None and ATOMS[b][0] in ('arg', 'ld') else 'undecided', 'store outside the destination field', e.loc))
        return nob, dedup(out), ev

    def stride(self, ev, acc, ar, S):
        """number of sites a site loop handles per turn (partially unrolled loops)"""
        E = self.dest.size()
        db = vg.baseof(acc.p('el_' + self.dest.short(), ar[0], mk('site')))
        tb = ev.injective
        M = 1
        for e in ev.log:
            if e.kind != 'store' or not e.ks or vg.baseof(e.ptr) != db:
                continue
            ks = {k for k, _ in e.ks}
            for m, c in e.ptr.d.items():
                for a, _ in m:
                    t = ATOMS[a]
                    cs = []
                    if a in ks and c % E == 0:
                        cs = [c // E]
                    elif t[0] == 'ld' and t[2] == 4 and vg.baseof(t[1]) == tb:
                        cs = [cc // 4 for mm, cc in t[1].d.items() if len(mm) == 1 and mm[0][0] in ks and cc % 4 == 0]
                    for x in cs:
                        if 1 < x <= 16:
                            M = M * x // math.gcd(M, x)
        return M if M <= 16 else 1

    def onesite(self, ev, acc, ar, S, start, end, n, ordc, vol, dist, I, KAP, res):
        out, nob = [], 0
        inr = band(c_le0(start - I), c_le0(I - end))
        tabk = acc.p('tab', S, KAP)
        RANGE[tabk.single()] = (0, None)
        kin = c_lt(KAP, n)
        for g, site, nm in ((ordc, I, 'ordered'), (bnot(ordc), tabk, 'unordered')):
            g = band(g, dist)
            if nm == 'ordered' and not vol:
                g = band(g, c_eq0(end - start + 1 - n))
            if g is FALSE:
                continue
            if nm == 'ordered':
                gi = band(g, inr)
                a, b = self.query(ev, acc, ar, site, gi)
                # outside the range nothing may change
                for lo in (c_lt(I, start), c_lt(end, I)):
                    b2 = self.unchanged(ev, acc, ar, site, band(g, lo))
                    b = b + b2
                if b and not vol:
                    # not indexed through start..end: the site table is used throughout
                    a, b3 = self.query(ev, acc, ar, tabk, band(g, kin))
                    c3 = self.tableonly(ev, acc, ar, S, n, g)
                    if any(x[0] == 'undecided' for x in c3):
                        b3 = [('undecided', x[1], x[2]) for x in b3]
                    if not (b3 + c3):
                        b = []
                    elif all(x[0] == 'undecided' for x in b) or any('not written' in x[1] for x in b):
                        b = b3 + c3
                nob += a
                out += [(x[0], 'ordered subset: ' + x[1], x[2]) for x in b]
            else:
                gi = band(g, kin)
                a, b = self.query(ev, acc, ar, site, gi)
                c3 = self.tableonly(ev, acc, ar, S, n, g)
                if any(x[0] == 'undecided' for x in c3):
                    b = [('undecided', x[1], x[2]) for x in b]
                b = b + c3
                nob += a
                out += [(x[0], 'unordered subset: ' + x[1], x[2]) for x in b]
        return nob, out

    def distinct(self, acc, ar):
        """different field objects have different storage (aliasing has witnesses of its own)"""
        ps = [acc.p('el_' + self.dest.short(), ar[0], ZERO)] + [acc.p('el_' + t.short(), ar[i + 1], ZERO) for i, (k, t) in enumerate(self.args) if k == 'l']
        g = TRUE
        for i, p in enumerate(ps):
            for q in ps[:i]:
                g = band(g, bnot(c_eq0(p - q)))
                g = band(g, bnot(c_eq0(q - p)))
        return g

    def value(self, acc, ar, site):
        vals = []
        if self.inout:
            vals.append(spec.load(self.dest, acc.p('el_' + self.dest.short(), ar[0], site)))
        for i, (k, t) in enumerate(self.args):
            if k == 'l':
                vals.append(spec.load(t, acc.p('el_' + t.short(), ar[i + 1], site)))
            elif k == 'x':
                vals.append(ar[i + 1])
            else:
                vals.append(spec.load(t, ar[i + 1]))
        for v in vals:
            if isinstance(v, Val) and v.ty.word == 'b':
                for c in v.d.values():
                    if isinstance(c[0], P) and c[0].single() is not None:
                        RANGE[c[0].single()] = (0, 1)
        exp = self.spec(*vals)
        if exp.ty != self.dest:
            exp = spec.tfull(exp, self.dest)
        return exp

    def query(self, ev, acc, ar, site, g):
        exp = self.value(acc, ar, site)
        base = acc.p('el_' + self.dest.short(), ar[0], site)
        off = self.dest.offsets()
        sz = WSZ[self.dest.word]
        out, n = [], 0
        facts = facts_of(g)
        for i in self.dest.idx():
            for p in range(self.dest.ncomp()):
                o = off[(i, p)]
                ev.unknown = []
                init = mk('ld', base + C(o), sz)
                if self.dest.word == 'b':
                    RANGE[init.single()] = (0, 1)
                got = ev.ld(base + C(o), sz, FT[self.dest.word], g)
                n += 1
                r = compare(got, exp.d[i][p] if isinstance(exp.d[i][p], (P, T)) else L(exp.d[i][p]), facts, tabeq)
                if r is not None and ev.unknown:
                    r = ('undecided', 'address of a store inside a loop is not resolved: ' + show(ev.unknown[0].ptr))
                if r is not None:
                    txt = r[1]
                    if isinstance(got, T) and got.c is None and got.v == init:
                        txt = 'site not written (%s)' % txt
                    out.append((r[0], 'component spin%s colour%s %s: %s' % (list(i[0]), list(i[1]), 're' if p == 0 else 'im', txt), lastloc(ev, vg.baseof(base))))
                    if len(out) > 3:
                        return n, out
        return n, out

    def unchanged(self, ev, acc, ar, site, g):
        base = acc.p('el_' + self.dest.short(), ar[0], site)
        off = self.dest.offsets()
        sz = WSZ[self.dest.word]
        facts = facts_of(g)
        out = []
        for i in self.dest.idx():
            for p in range(self.dest.ncomp()):
                q = base + C(off[(i, p)])
                ev.unknown = []
                got = ev.ld(q, sz, FT[self.dest.word], g)
                r = compare(got, mk('ld', q, sz), facts, tabeq)
                if r is not None and ev.unknown:
                    r = ('undecided', 'address of a store inside a loop is not resolved: ' + show(ev.unknown[0].ptr))
                if r is not None:
                    out.append((r[0], 'a site outside the subset is modified: ' + r[1], lastloc(ev, vg.baseof(base))))
                    return out
        return out

    def tableonly(self, ev, acc, ar, S, n, g):
        """every store to the destination goes to an entry 0 <= k < n of the site table"""
        out = []
        E = self.dest.size()
        db = vg.baseof(acc.p('el_' + self.dest.short(), ar[0], mk('site')))
        for e in ev.log:
            if e.kind not in ('store', 'copy', 'set') or vg.baseof(e.ptr) != db:
                continue
            gg = band(e.guard, g)
            gg = prune(gg)
            if gg is FALSE:
                continue
            if all(isempty(N, gg) for _, N in e.ks[:1]):
                pass
            ok = False
            for k, N in e.ks:
                tk = acc.p('tab', S, A(k))
                d = e.ptr - acc.p('el_' + self.dest.short(), ar[0], tk)
                if d.isconst() and 0 <= d.const() and d.const() + (e.size or 10 ** 9) <= E:
                    Nr = restrict(N, gg)
                    f = facts_of(gg)
                    if all(ok0(v, n, ff) for ff, _, v in paths(Nr, f)):
                        ok = True
                    else:
                        out.append(('undecided' if opaque_in(Nr) else 'bad', 'iterates over %s site-table entries instead of all %s' % (showt(Nr), show(n)), e.loc))
                        return out
            if not ok and self.entry(e, acc, ar, S, n, gg, E):
                ok = True
            if not ok:
                out.append(('undecided', 'store address is not an entry of the site table: %s' % show(e.ptr), e.loc))
                return out
        return out

    def entry(self, e, acc, ar, S, n, g, E):
        """store to the element named by a table entry whose index is shown to lie in 0..n-1"""
        tab0 = acc.p('tab', S, ZERO)
        tb = vg.baseof(ATOMS[tab0.single()][1])
        for m in e.ptr.d:
            for a, _ in m:
                t = ATOMS[a]
                if t[0] != 'ld' or t[2] != 4 or vg.baseof(t[1]) != tb:
                    continue
                x = vg.fl_exact(t[1] - ATOMS[tab0.single()][1], 4)
                d = e.ptr - acc.p('el_' + self.dest.short(), ar[0], A(a))
                if x is None or not d.isconst() or not (0 <= d.const() and d.const() + (e.size or 10 ** 9) <= E):
                    continue
                ok = True
                if len(e.ks) > 1:
                    return False
                if e.ks:
                    k, N = e.ks[0]
                    co, rest = vg.lincoef(x, k)
                    if co is None or co <= 0:
                        return False
                    N = restrict(N, g)
                    for ff, _, v in paths(N, facts_of(g)):
                        if ff.sign(v) == 'neg0':
                            continue
                        ok = ok and ff.sign(rest.scale(-1)) == 'neg0' and ff.sign((v - 1).scale(co) + rest + 1 - n) == 'neg0'
                else:
                    f = facts_of(g)
                    ok = f.sign(x.scale(-1)) == 'neg0' and f.sign(x + 1 - n) == 'neg0'
                if ok:
                    return True
        return False
        return out


def whole(w, fn):
    """statements on the whole lattice may run over the subset 'all' or over 0..vol-1"""
    if w.sub != 'whole':
        return w.analyse1(fn)
    best = None
    for s in (None, 'vol'):
        w.sub = s
        try:
            r = w.analyse1(fn)
        finally:
            w.sub = 'whole'
        if not r[1]:
            return r
        if s is None and all(x[0] == 'undecided' for x in r[1]) and any(e.kind in ('store', 'copy', 'set') and 'QDP3allE' in show(e.ptr) for e in r[2].log):
            return r                                         # the site table of 'all' is used, but not fully understood
        if s and all(x[0] == 'undecided' and wit.SMALLN in x[1] for x in r[1]):
            return r
        if best is None or len(r[1]) < len(best[1]):
            best = r
    return best


def tabeq(c):
    """a condition comparing an entry of a table with another index"""
    return c[0] == 'eq' and any(ATOMS[a][0] == 'ld' and ATOMS[a][2] == 4 for m in c[1].d for a, _ in m)


def ok0(v, n, facts):
    """trip count v covers exactly n entries (both may be empty)"""
    if v == n:
        return True
    return facts.sign(v - n) == 'neg0' and facts.sign(n - v) == 'neg0'


def isempty(N, g):
    return False


def facts_of(g):
    f = Facts()
    f.deep = True
    while g.c is not None:
        if g.hi is FALSE:
            f = f.add(g.c, False)
            g = g.lo
        elif g.lo is FALSE:
            f = f.add(g.c, True)
            g = g.hi
        else:
            break
    return f


def lastloc(ev, b):
    for e in reversed(ev.log):
        if e.kind in ('store', 'copy', 'set') and vg.baseof(e.ptr) == b:
            return e.loc
    return ev.fn.j.get('file', '')


def dedup(out):
    seen, r = set(), []
    for x in out:
        if x not in seen:
            seen.add(x)
            r.append(x)
    return r


# ---------------------------------------------------------------- reductions
def splitsum(a, m):
    """sum atom over n = m*n' iterations rewritten as sum over n' of the m-fold body; P or None"""
    t = ATOMS[a]
    body, n = t[1], t[2]
    q = {}
    for mm, c in n.d.items():
        x = Fraction(c) / m
        if x.denominator != 1:
            return None
        q[mm] = int(x)
    n2 = P(q)
    h = height(body) - 1
    b = bvar(h).single()
    kid = vg.fresh('k')
    acc = ZERO
    for c in range(m):
        r = subst(body, {b: A(kid).scale(m) + c})
        if r.c is not None:
            return None
        acc = acc + r.v
    return mksum(acc, kid, n2)


def regroup(p, n):
    """rewrite sums so that they run over n (number of sites) iterations where possible"""
    env = {}
    for m in p.d:
        for a, _ in m:
            t = ATOMS[a]
            if t[0] == 'sum' and t[2] != n:
                r = ratio(t[2], n)
                if r and r > 1:
                    s = splitsum(a, r)
                    if s is not None:
                        env[a] = s
                        continue
                if any(ATOMS[x][0] == 'sum' for mm in t[1].d for x, _ in mm):
                    k = vg.fresh('k')
                    RANGE[k] = (0, None)
                    b = subst(t[1], {bvar(height(t[1]) - 1).single(): A(k)})
                    if b.c is None:
                        b2 = regroup(b.v, n)
                        if b2 != b.v:
                            env[a] = mksum(b2, k, t[2])
    if not env:
        return p
    r = subst(p, env)
    return r.v if r.c is None else p


def ratio(a, b):
    if not a.d or not b.d or a.isconst() or b.isconst():
        return None
    m = min(b.d)
    if m not in a.d:
        return None
    r = Fraction(a.d[m]) / Fraction(b.d[m])
    if r.denominator != 1 or b.scale(int(r)) != a:
        return None
    return int(r)


class RW(W):
    """scalar d = reduction of lattice expression over subset s"""

    def __init__(self, name, dest, args, body, spec, sub='Subset', red='sum'):
        self.name = 'w_' + name
        self.dest, self.args, self.body, self.spec = dest, args, body, spec
        self.sub = sub
        self.opts = OPTS
        self.red = red

    def types(self):
        return [t for k, t in self.args if k == 'l']

    def code(self):
        ps = ['%s& d' % self.dest.cpp()]
        for i, (k, t) in enumerate(self.args):
            ps.append('const %s& %s' % (t.lat() if k == 'l' else t.cpp(), 'abcefg'[i]))
        if self.sub and self.sub not in ('vol', 'whole'):
            ps.append('const %s& s' % self.sub)
        return 'extern "C" void %s(%s) { %s; }\n' % (self.name, ', '.join(ps), self.body)

    def analyse(self, fn):
        return whole(self, fn)

    def analyse1(self, fn):
        acc = Acc(fn.module, fn)
        na = len(self.args)
        ar = [mk('arg', i) for i in range(na + 2)]
        for a in ar:
            PTR.add(a.single())
        S = ar[na + 1]
        if not self.sub:
            S = mk('glob', '_ZN3QDP3allE')
            PTR.add(S.single())
        start, end, n = acc.p('start', S), acc.p('end', S), acc.p('n', S)
        if self.sub == 'vol':
            hook(None, None, '_ZN3QDP6Layout3volEv', None, None)
            start, end, n = ZERO, mk('layoutvol') - 1, mk('layoutvol')
            if acc.piece:
                start, end, n = piece('lo'), piece('lo') + piece('len') - 1, piece('len')
            ordc = TRUE
        else:
            for q in ('start', 'n', 'end'):
                RANGE[acc.q(q, S).single()] = (-1 if q == 'end' else 0, 1 << 27)
            ordc = acc.get('ord', S)
        ev = vg.Ev(fn, self.opts).run()
        kid = vg.fresh('k')
        RANGE[kid] = (0, None)
        out, nob = [], 0
        off = self.dest.offsets()
        sz = WSZ[self.dest.word]
        for g, nm in ((ordc, 'ordered'), (bnot(ordc), 'unordered')):
            if g is FALSE or nm == 'unordered' and self.sub is None:      # 'all' is contiguous (P11)
                continue
            cands = [(acc.p('tab', S, A(kid)), n)]
            if nm == 'ordered' and self.sub != 'vol':
                g = band(g, c_eq0(end - start + 1 - n))
            if nm == 'ordered':
                cands.insert(0, (start + A(kid), end - start + 1))
            best = None
            if acc.piece and self.sub != 'vol':                  # or not dispatched to the workers at all
                acc.piece = False
                cands.append((acc.p('tab', S, A(kid)), acc.p('n', S)))
                if nm == 'ordered':
                    cands.append((acc.p('start', S) + A(kid), acc.p('end', S) - acc.p('start', S) + 1))
                acc.piece = True
            for site, cnt in cands:
                errs, k = [], 0
                try:
                    exp = self.expected(acc, ar, site, kid, cnt)
                except TooBig:
                    continue
                for i in self.dest.idx():
                    for p in range(self.dest.ncomp()):
                        o = off[(i, p)]
                        got = ev.ld(ar[0] + C(o), sz, FT[self.dest.word], g)
                        k += 1
                        got = restrict(got, g)
                        got = apply(lambda x: regroup(x, cnt), vg.asnum(got))
                        e = exp[(i, p)]
                        e = regroup(e, cnt)
                        r = compare(got, e, facts_of(g))
                        if r is not None:
                            errs.append((r[0], '%s subset, component spin%s colour%s %s: %s' % (nm, list(i[0]), list(i[1]), 're' if p == 0 else 'im', r[1]), lastloc2(ev)))
                if best is None or len(errs) < len(best[1]):
                    best = (k, errs)
                if not errs:
                    break
            nob += best[0]
            out += best[1][:4]
        if self.dest.word == 'd' and any(t.word == 'f' for k, t in self.args):
            nob += 1
            for loc in ev.floatacc[:1]:
                out.append(('bad', 'the sum over sites is accumulated in single precision', loc))
        return nob, dedup(out), ev

    def expected(self, acc, ar, site, kid, cnt):
        vals = []
        for i, (k, t) in enumerate(self.args):
            if k == 'l':
                vals.append(spec.load(t, acc.p('el_' + t.short(), ar[i + 1], site)))
            else:
                vals.append(spec.load(t, ar[i + 1]))
        v = self.spec(*vals)
        if v.ty != self.dest:
            v = spec.tfull(v, self.dest)
        r = {}
        for i in self.dest.idx():
            for p in range(self.dest.ncomp()):
                x = v.d[i][p]
                r[(i, p)] = mksum(x if isinstance(x, P) else ZERO, kid, cnt)
        return r


def lastloc2(ev):
    for e in reversed(ev.log):
        if e.loc and e.loc != 'loop cell':
            return e.loc
    return ev.fn.j.get('file', '')


def prelude(ws):
    ts = {}
    for w in ws:
        for t in w.types():
            ts[t.short()] = t
    return ACC + ''.join(elem_acc(t) for t in ts.values())
