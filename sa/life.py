"""Flop counters (P31) and start/end of the program (P32)."""
import aw
import geo
import lat
import lib
import vg
import wit
from sym import *

PRE = aw.OUT + '''
#include "qdp.h"
using namespace QDP;
'''

def prelude(ws):
    return PRE + 'extern "C" long long w_acc_flops(const FlopCounter& c) { return c.getFlops(); }\nextern "C" int w_acc_num(const Subset& s) { return s.numSiteTable(); }\n'


class FC(aw.AW):
    def __init__(self, name, body, outs):
        aw.AW.__init__(self, 'fc_' + name, ['FlopCounter& c', 'const Subset& s', 'unsigned long long k', 'unsigned long long m', 'unsigned long u'], body, outs,
                       opts=vg.Opts(call_hook=lat.hook, unroll=8, wrap32=True), ranges={'k': (0, 1 << 62), 'm': (0, 1 << 62), 'u': (0, 1 << 62)}, setup=self.begin)

    def begin(self, E):
        RANGE[mk('layoutvol').single()] = (1, 1 << 27)


def counters():
    vol = lambda E: mk('layoutvol')
    num = lambda E: E('num', 's')
    up = lambda n, f: FC(n, 'unsigned long long b0 = c.getFlops(); %s; o.q[0] = c.getFlops() - b0' % f[0], [('flops added', 'q0', f[1])])
    new = lambda n, f: FC(n, 'FlopCounter x; %s; o.q[0] = x.getFlops()' % f[0], [('flops', 'q0', f[1])])
    ws = [FC('read', 'o.q[0] = c.getFlops(); o.q[1] = c.getFlops()', [('flops', 'q0', lambda E: E('flops', 'c')), ('second reading', 'q1', lambda E: E('flops', 'c'))])]
    ws.append(up('add', ('c.addFlops(k)', lambda E: E['k'])))
    ws.append(up('add2', ('c.addFlops(k); c.addFlops(m)', lambda E: E['k'] + E['m'])))
    ws.append(up('subset', ('c.addSiteFlops(u, s)', lambda E: E['u'] * num(E))))
    ws.append(up('mixed', ('c.addSiteFlops(u, s); c.addFlops(k); c.addSiteFlops(u, s)', lambda E: E['u'] * num(E) * C(2) + E['k'])))
    ws.append(new('new', ('', lambda E: ZERO)))
    ws.append(new('site', ('x.addSiteFlops(k)', lambda E: E['k'] * vol(E))))
    ws.append(new('all3', ('x.addSiteFlops(k); x.addFlops(m); x.addSiteFlops(u, s)', lambda E: E['k'] * vol(E) + E['m'] + E['u'] * num(E))))
    ws.append(new('site2', ('x.addSiteFlops(k); x.addSiteFlops(m)', lambda E: (E['k'] + E['m']) * vol(E))))
    ws.append(new('reset', ('x.addFlops(k); x.reset(); x.addSiteFlops(m)', lambda E: E['m'] * vol(E))))
    ws.append(FC('zero', 'c.reset(); o.q[0] = c.getFlops(); c.addFlops(k); o.q[1] = c.getFlops()', [('flops', 'q0', lambda E: ZERO), ('flops after', 'q1', lambda E: E['k'])]))
    ws.append(FC('copy', 'FlopCounter x(c); x.addFlops(k); o.q[0] = x.getFlops(); o.q[1] = c.getFlops()', [('flops of the copy', 'q0', lambda E: E('flops', 'c') + E['k']), ('flops of the original', 'q1', lambda E: E('flops', 'c'))]))
    ws.append(FC('copysite', 'FlopCounter y; FlopCounter x(y); x.addSiteFlops(k); o.q[0] = x.getFlops()', [('flops of the copy', 'q0', lambda E: E['k'] * vol(E))]))
    return ws


LPRE = aw.OUT + """
#include "qdp.h"
using namespace QDP;
extern "C" char* w_arg(int);
extern "C" void w_quit(int);
%s
#pragma clang attribute push(__attribute__((always_inline)), apply_to = function)
#include "%s/lib/qdp_scalar_init.cc"
#pragma clang attribute pop
#undef exit
extern "C" int w_acc_inited(int) { return QDP_isInitialized(); }
"""


def lprelude(ws):
    return LPRE % ('', lib.REPO)


def eprelude(ws):
    return LPRE % ('#define exit w_quit', lib.REPO)


def arg(i):
    return mk('argv', C(i))


def same(i, s):
    """argument i is the text s"""
    return c_eq0(mk('strcmp', arg(i), mk('text', s)))


class LC(aw.AW):
    """The arguments of the program are free strings; each is passed to the C library at most as it is, and never the end of the list."""
    def __init__(self, name, body, outs, ret=None, argc=0, guard=None, scratch=None, status=None):
        pre = 'int n = %d; char* av[] = {%s}; char** v = av; ' % (argc, ', '.join(['w_arg(%d)' % i for i in range(argc)] + ['0'])) if argc else ''
        aw.AW.__init__(self, 'life_' + name, ['int k'], pre + body, outs, ret=ret, guard=guard, opts=vg.Opts(call_hook=self.hook, unroll=16), setup=self.begin, balance=scratch is not None)
        self.scratch, self.status = scratch, status

    def begin(self, E):
        self.null, self.exits = [], []

    def text(self, ev, a):
        p, s = vg.asnum(a), ''
        if p.c is not None or not isinstance(p.v, P):
            return None
        for k in range(32):
            c = vg.asnum(ev.ld(p.v + C(k), 1, 'i8', TRUE))
            if c.c is not None or not c.v.isconst():
                return None
            if not c.v.const():
                return s
            s += chr(int(c.v.const()) & 127)
        return None

    def hook(self, ev, ins, name, args, g):
        T_ = lambda a: a if isinstance(a, T) else L(a)
        if name == 'w_arg':
            a = mk('argv', T_(args[0]).v)
            PTR.add(a.single())
            return L(a)
        if name == 'w_quit':
            self.exits.append((g, T_(args[0]), ins.get('l', '')))
            return L(ZERO)
        if name in ('strcmp', 'sscanf', '__isoc99_sscanf', '__isoc23_sscanf', '__isoc23_strtol', 'atof', 'atoi', 'strtod', 'strtof', 'strtol', 'strncmp', 'strlen', 'strcasecmp'):
            for gd, nm, l in ev.aborts:             # stopped before
                g = band(g, bnot(gd))
            for c, x in vg.cases(T_(args[0])):
                if isinstance(x, P) and not x.d:
                    self.null.append((band(c, g), name, ins.get('l', '')))
            if name == 'strcmp':
                s = self.text(ev, args[1]) if ins else None
                if s is not None:
                    return apply(lambda x: mk('strcmp', x, mk('text', s)), T_(args[0]))
            return L(mk('scanned', C(len(ev.log))))
        if 'qdpNumThreads' in name or name == 'omp_get_max_threads':
            t = mk('threads')
            RANGE[t.single()] = (1, 1 << 20)
            return L(t)
        if 'StandardOutputStream' in name or 'StandardInputStream' in name or name.startswith(('_ZNSo', '_ZSt', '_ZN3QDP6Layout')):
            return args[0] if args else L(ZERO)
        return None

    def analyse(self, fn):
        nob, out, ev = aw.AW.analyse(self, fn)
        g0 = self.guard(self.E) if self.guard else TRUE
        run = g0
        for a in ev.aborts:
            run = band(run, bnot(a[0]))
        for c, name, loc in self.null:
            nob += 1
            c = geo.decide(band(c, g0))
            if c is not FALSE:
                out.append(('bad', 'reads past the last argument of the program (%s)' % name, loc))
        dels = [e for e in ev.log if e.kind == 'call' and e.name in aw.DEL]
        for i, d in enumerate(dels):
            for e in dels[:i]:
                nob += 1
                a, b = [x.args[0] if isinstance(x.args[0], T) else L(x.args[0]) for x in (d, e)]
                if a.c is None and b.c is None and a.v.d and not (a.v - b.v).d:
                    both = geo.decide(band(band(d.guard, e.guard), run))
                    if both is not FALSE and wit.compare(both, FALSE, lat.facts_of(run)) is not None:
                        out.append(('bad', 'the same storage is released twice', d.loc))
        if self.scratch:
            news = sorted([e for e in ev.log if e.kind == 'call' and e.name in aw.NEW], key=lambda e: e.seq)
            nob += 1
            if len(news) == len(self.scratch):
                got = [vg.asnum(e.args[0]) for e in news]
                got = [x.v if x.c is None and isinstance(x.v, P) else None for x in (geo.decide(restrict(x, run)) for x in got)]
                left = list(self.scratch)
                for x, e in zip(got, news):
                    if x is None:
                        out.append(('undecided', 'size of the scratch space not in closed form', e.loc))
                        continue
                    m = [y for y in left if not (x - y).d]
                    if m:
                        left.remove(m[0])
                    else:
                        out.append(('bad', 'scratch space of reductions for %s bytes' % x, e.loc))
            else:
                out.append(('undecided', 'scratch space allocated in %d blocks' % len(news), lat.lastloc2(ev)))
        if self.status is not None:
            nob += 1
            tot = FALSE
            for g, v, l in self.exits:
                r = wit.compare(restrict(v, g), L(self.status(self.E)), lat.facts_of(g))
                if r is not None:
                    out.append((r[0], 'exit status: ' + r[1], l))
                tot = bor(tot, g)
            if tot is not TRUE:
                out.append(('bad', 'does not end the program', lat.lastloc2(ev)))
        return nob, lat.dedup(out), ev


def parse(n):
    """condition under which the command line of n words is accepted"""
    ok = TRUE
    for i in range(1, n):
        ok = band(ok, bnot(same(i, '-h')))

    def from_(i):
        if i >= n:
            return TRUE
        return ite(same(i, '-poolsize'), from_(i + 2) if i + 1 < n else FALSE, from_(i + 1))
    return band(ok, from_(1))


def when_zero(t):
    return aw.when_equal(vg.asnum(t), ZERO)


def cycle(threads=False):
    no = 'QDP_finalize(); '
    on = lambda *x: [('initialised', 'v%d' % i, (lambda b: lambda E: C(b))(b)) for i, b in enumerate(x)]
    st = lambda n: 'o.v[%d] = QDP_isInitialized()' % n
    call = 'QDP_initialize(&n, &v); '
    g = lambda E: bnot(same(0, '-h'))
    t = mk('threads') if threads else C(1)
    one = [t * C(8), t * C(16)]
    ws = []
    ws.append(LC('fin', 'QDP_finalize(); ' + st(0), on(0), lambda E: TRUE))
    ws.append(LC('fin2', 'QDP_finalize(); QDP_finalize(); ' + st(0), on(0), lambda E: TRUE))
    for n in (1, 2, 3, 4):
        ws.append(LC('args%d' % n, no + call + st(0), [x + ((lambda n: lambda E: parse(n))(n),) for x in on(1)], (lambda n: lambda E: parse(n))(n), n, g))
    ws.append(LC('again', no + call + 'QDP_initialize(&n, &v)', [], lambda E: FALSE, 1, g))
    ws.append(LC('any', call, [], lambda E: when_zero(E.acc.get('inited')), 1, g))
    ws.append(LC('pair', no + call + 'QDP_finalize(); ' + st(0), on(0), lambda E: TRUE, 1, g, scratch=one))
    ws.append(LC('pair2', no + call + 'QDP_finalize(); ' + call + st(0) + '; QDP_finalize(); ' + st(1), on(1, 0), lambda E: TRUE, 1, g, scratch=one + one))
    ws.append(LC('paira', no + call + 'QDP_finalize(); QDP_finalize(); ' + st(0), on(0), lambda E: TRUE, 1, g, scratch=one))
    return ws


def aborting():
    return [LC('abort', 'QDP_abort(k); o.v[0] = QDP_isInitialized()', [('initialised after the end', 'v0', lambda E: ZERO)], status=lambda E: E['k'])]


def threaded():
    return [w for w in cycle(True) if 'pair' in w.name]
