"""General witness: C++ code reads results into an output record; every slot has a specified
normal form over accessor terms, under a guard."""
import geo
import lat
import sym
import vg
import wit
from sym import *

OUT = 'struct Out { double d[8]; float f[8]; int v[16]; const void* p[8]; long long q[8]; unsigned char b[64]; };\n'
SLOT = {'d': (0, 8, 'f64'), 'f': (64, 4, 'f32'), 'v': (96, 4, 'i32'), 'p': (160, 8, 'ptr'), 'q': (224, 8, 'i64'), 'b': (288, 1, 'i8')}


class Env:
    def __init__(self, w, module):
        self.acc = lat.Acc(module)
        self.a = {}
        for i, p in enumerate(w.pnames):
            self.a[p] = mk('arg', i + 1)

    def __getitem__(self, k):
        return self.a[k]

    def __call__(self, name, *args):
        return self.acc.p(name, *[self.a[x] if isinstance(x, str) else (C(x) if isinstance(x, int) else x) for x in args])


NEW = ('_Znwm', '_Znam', 'malloc', '_ZnamRKSt9nothrow_t', '_ZnwmRKSt9nothrow_t')
DEL = ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free')


def when_equal(t, p):
    """condition under which the tree has the value p"""
    if t.c is None:
        return TRUE if isinstance(t.v, P) and not (t.v - p).d else FALSE
    return ite(var(t.c), when_equal(t.hi, p), when_equal(t.lo, p))


def balance(ev, g0):
    """storage allocated inside the witness is released exactly once; nothing else is"""
    out, n = [], 0
    calls = [e for e in ev.log if e.kind == 'call']
    news = [e for e in calls if e.name in NEW]
    dels = [e for e in calls if e.name in DEL]
    for e in news:
        n += 1
        tot = FALSE
        g1 = band(g0, bnot(c_eq0(e.res)))
        want = band(e.guard, g1)
        for d in dels:
            a = d.args[0] if isinstance(d.args[0], T) else L(d.args[0])
            g = band(band(d.guard, g0), when_equal(a, e.res))
            if g is FALSE:
                continue
            both = geo.decide(restrict(band(tot, g), g0))
            if wit.compare(both, FALSE, lat.facts_of(g0)) is not None:
                out.append(('bad', 'storage allocated at %s may be released twice' % loc1(e.loc), d.loc))
            tot = bor(tot, g)
        r = wit.compare(geo.decide(restrict(tot, g1)), geo.decide(restrict(want, g1)), lat.facts_of(g1))
        if r is not None:
            out.append((r[0], 'storage allocated here is not released on every path: %s' % r[1], e.loc))
    for d in dels:
        a = d.args[0] if isinstance(d.args[0], T) else L(d.args[0])
        for g, v in vg.cases(a):
            b = vg.baseof(v) if isinstance(v, P) else None
            if b is not None and ATOMS[b][0] == 'arg':
                n += 1
                if band(band(g, d.guard), g0) is not FALSE:
                    out.append(('bad', 'releases storage it does not own', d.loc))
    return n, out


def loc1(l):
    return l.split('|')[0]


class AW(wit.W):
    def __init__(self, name, params, body, outs, guard=None, ret=None, opts=None, ranges=None, also=None, pre='', aborts=None, writes=None, setup=None, balance=False):
        """outs: (what, slot, spec(E)[, guard(E)]); ret(E): the condition under which the call returns"""
        self.name = 'w_' + name
        self.params, self.body, self.outs, self.guard, self.retc = params, body, outs, guard, ret
        self.pnames = [p.split()[-1].lstrip('*&') for p in params]
        self.opts = opts or vg.Opts(unroll=8)
        self.ranges = ranges or {}
        self.pre = pre
        self.writes = writes
        self.setup = setup
        self.balance = balance
        if also:
            self.also = also

    def code(self):
        return '%sextern "C" void %s(%s) { %s; }\n' % (self.pre, self.name, ', '.join(['Out& o'] + self.params), self.body)

    def analyse(self, fn):
        PTR.add(mk('arg', 0).single())
        for i, p in enumerate(self.params):
            if '*' in p or '&' in p:
                PTR.add(mk('arg', i + 1).single())
        E = self.E = Env(self, fn.module)
        for k, r in self.ranges.items():
            if k not in E.a:
                continue
            RANGE[E[k].single()] = r
        geo.UB.clear()
        geo.POS.clear()
        if self.setup:
            if geo.lt not in sym.LT_FACTS:
                sym.LT_FACTS.append(geo.lt)
            self.setup(E)
        ev = vg.Ev(fn, self.opts).run()
        g0 = self.guard(E) if self.guard else TRUE
        loc = lat.lastloc2(ev)
        out, nob = [], 0
        o = mk('arg', 0)
        for x in self.outs:
            what, slot, sp = x[:3]
            g = band(g0, x[3](E)) if len(x) > 3 else g0
            base, sz, ty = SLOT[slot[0]]
            got = vg.asnum(ev.ld(o + C(base + sz * int(slot[1:])), sz, ty, g))
            exp = sp(E)
            r, got, nob = None, geo.decide(restrict(got, g)), nob + 1
            for e in exp if isinstance(exp, list) else [exp]:            # a list: equivalent ways to write the specified value
                e = e if isinstance(e, T) else L(e)
                if vg.isb(e):
                    e = vg.asnum(e)
                q = wit.compare(got, restrict(e, g), lat.facts_of(g))
                r = q if r is None or q and q[0] == 'bad' and r[0] != 'bad' else r
                if q is None:
                    r = None
                    break
            if r is not None:
                out.append((r[0], '%s: %s' % (what, r[1]), loc))
        if self.retc is not None:
            nob += 1
            got = TRUE
            for gd, nm, l in ev.aborts:
                got = band(got, bnot(gd))
            got = restrict(got, g0)
            r = wit.compare(got, restrict(self.retc(E), g0), lat.facts_of(g0))
            if r is not None:
                aloc = ev.aborts[0][2] if ev.aborts else loc
                out.append((r[0], 'returns (rather than stopping the program) under the wrong condition: %s' % r[1], aloc))
        if self.balance:
            n, r = balance(ev, g0)
            nob += n
            out += r
        for gd, nm, l in ev.aborts:
            if self.retc is None:
                q = band(gd, g0)
                q = prune(q) if q is not FALSE else q
                if gd is TRUE or q is g0 and g0 is not TRUE:
                    out.append(('bad', 'always aborts (%s)' % nm, l))
        return nob, lat.dedup(out), ev
