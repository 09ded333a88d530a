"""Binary input/output (P13): the sequence of stream transfers of every read and write function."""
import arr
import aw
import geo
import lat
import lib
import sym
import vg
import wit
from sym import *

PRE = r'''
#pragma clang attribute push(__attribute__((always_inline)), apply_to = function)
#include "%s/lib/qdp_io.cc"
#pragma clang attribute pop
#include "qdp_disk_map_slice.h"
using namespace QDP;
extern "C" void x_wr(const char*, size_t, size_t);
extern "C" void x_rd(char*, size_t, size_t);
struct WWr final : public BinaryWriter {
  QDPUtil::n_uint32_t ck;
  void flush() {}
  void writeArrayPrimaryNode(const char* p, size_t s, size_t n) { x_wr(p, s, n); }
  void writeArray(const char* p, size_t s, size_t n) { x_wr(p, s, n); }
  QDPUtil::n_uint32_t& internalChecksum() { return ck; }
  std::ostream& getOstream() { return *(std::ostream*)0; }
};
struct WRd final : public BinaryReader {
  QDPUtil::n_uint32_t ck;
  void readArrayPrimaryNode(char* p, size_t s, size_t n) { x_rd(p, s, n); }
  void readArray(char* p, size_t s, size_t n) { x_rd(p, s, n); }
  QDPUtil::n_uint32_t& internalChecksum() { return ck; }
  std::istream& getIstream() { return *(std::istream*)0; }
};
''' % lib.REPO

def prelude(ws):
    if isinstance(ws[0], (ST, CK)):
        return STREAM + (''.join(sorted(set(D))) if isinstance(ws[0], CK) else '')
    if isinstance(ws[0], BS):
        return SWAP
    ts = {}
    for w in ws:
        for t in w.lats:
            ts[t.short()] = t
    return PRE + ACCV + lat.ACC + ''.join(lat.elem_acc(t) for t in ts.values()) + geo.ACCM1 + arr.prelude(ws)


def c_le(a, b):
    return c_le0(a - b)


ITY = {1: 'i8', 2: 'i16', 4: 'i32', 8: 'i64'}


def const(a):
    a = a if isinstance(a, T) else L(a)
    return int(a.v.const()) if a.c is None and isinstance(a.v, P) and a.v.isconst() else None


def io_hook(ev, ins, name, args, g, sizes=None):
    if name in ('x_wr', 'x_rd'):
        seq = len(ev.log)
        e = vg.Effect('call', name=name, args=args, guard=g, loc=ins.get('l', ''), seq=seq)
        e.res = (ev.chain, ins['id'])
        if name == 'x_wr':
            s, n = const(args[1]), const(args[2])
            p = args[0] if isinstance(args[0], P) else args[0].v if args[0].c is None else None
            if p is not None and s and n and n <= 64:                # the words as they are when the transfer happens
                e.args = args + [[(ev.ld(p + C(j * s), int(s), ITY[s], g), ev.ld(p + C(j * s), int(s), {4: 'f32', 8: 'f64'}.get(s, ITY[s]), g)) for j in range(int(n))]]
        ev.log.append(e)
        if name == 'x_rd':
            s, n = const(args[1]), const(args[2])
            p = args[0] if isinstance(args[0], P) else args[0].v if args[0].c is None else None
            if p is not None and s and n and n <= 64:
                for j in range(int(n)):
                    if sizes and s == 4 and n == 1:
                        RANGE[inp(e, ev.kstack, j).single()] = sizes
                    ev.log.append(vg.Effect('store', ptr=p + C(j * s), size=int(s), val=L(inp(e, ev.kstack, j)), guard=g, fty=ITY.get(int(s), 'i8'),
                                            loc=ins.get('l', ''), seq=len(ev.log)))
            else:
                ev.log.append(vg.Effect('call', name='clobber', args=args, guard=g, loc=ins.get('l', ''), seq=len(ev.log), val='clobber'))
        return L(ZERO)
    if name == '_ZN3QDP6Layout8lattSizeEv':
        return L(lsz(ev.fn.module))
    if name.startswith('_ZN3QDP10local_siteERK'):
        on, oe = geo.m1_offsets(ev.fn.module)

        def el(p, m):
            F = ev.ld((p if isinstance(p, P) else p.v) + oe, 8, 'ptr', g)
            return bind(F, lambda f: ev.ld(f + C(4 * m), 4, 'i32', g))
        r = el(args[0], 3)
        for m in (2, 1, 0):
            r = apply(lambda a, b, c: a * b + c, vg.asnum(r), vg.asnum(el(args[1], m)), vg.asnum(el(args[0], m)))
        return r
    if name == '_ZN3QDP6Layout11primaryNodeEv':
        return vg.TRUE
    return geo.geo_hook(ev, ins, name, args, g)


def inp(e, kstack, j):
    return mk('in', e.res[0], e.res[1], j, tuple(A(k) for k in kstack))


class X:
    """one expected transfer: kind 'w'/'r', element size, count, address(ks) or value(ks), loops [(key, N)], guard(ks)"""

    def __init__(self, kind, size, n, addr=None, val=None, loops=(), guard=None, ty=None):
        self.kind, self.size, self.n, self.addr, self.val = kind, size, n, addr, val
        self.loops, self.guard, self.ty = list(loops), guard, ty


class TW(aw.AW):
    """witness on the sequence of transfers; spec(E) is a generator yielding X and receiving the data read"""

    def __init__(self, name, params, body, spec, outs=(), setup=None, guard=None, pre='', opts=None, lats=(), sizes=None):
        aw.AW.__init__(self, name, params, body, list(outs), guard=guard, setup=setup, pre=pre, opts=opts or vg.Opts(call_hook=io_hook, known=geo.known_all, unroll=8))
        self.trace = spec
        self.lats = lats
        if sizes:
            self.opts.call_hook = lambda ev, ins, name, args, g: io_hook(ev, ins, name, args, g, sizes)

    def analyse(self, fn):
        nob, out, ev = aw.AW.analyse(self, fn)
        E = self.E
        E.ev = ev
        g0 = self.guard(E) if self.guard else TRUE
        evs = [e for e in ev.log if e.kind == 'call' and e.name in ('x_wr', 'x_rd') and band(e.guard, g0) is not FALSE]
        gen = self.trace(E)
        send, i, loc = None, 0, lat.lastloc2(ev)
        keys = {}
        want = []
        miss = None
        while True:
            try:
                x = gen.send(send)
            except StopIteration:
                break
            if isinstance(x, tuple):
                send = None
                for what, got, exp in x[1]:
                    nob += 1
                    r = wit.compare(geo.decide(got), exp) if miss is None else None
                    if r:
                        out.append((r[0], '%s: %s' % (what, r[1]), loc))
                continue
            want.append(x)
            if miss is not None:
                send = fresh_in(x)
                continue
            if i >= len(evs):
                miss = 'transfer %d is missing' % (i + 1)
                send = fresh_in(x)
                continue
            e = evs[i]
            i += 1
            nob += 1
            if len(e.ks) != len(x.loops) or (e.name == 'x_wr') != (x.kind == 'w') or any(keys.get(q, k) != k for (k, n), (q, _) in zip(e.ks, x.loops)):
                miss = 'transfer %d has another structure (%s in %d loops instead of %s in %d)' % (i, e.name[2:], len(e.ks), 'wr' if x.kind == 'w' else 'rd', len(x.loops))
                send = fresh_in(x)
                continue
            for (k, n), (q, _) in zip(e.ks, x.loops):
                keys[q] = k
            kk = [A(k) for k, n in e.ks]
            ga, gs = e.guard, g0
            for (k, n), (q, N) in zip(e.ks, x.loops):
                ga = band(ga, band(c_le(ZERO, A(k)), bind(n, lambda v, k=k: c_le(A(k) + 1, v))))
                N = N(*kk) if callable(N) else N
                gs = band(gs, band(c_le(ZERO, A(k)), bind(N if isinstance(N, T) else L(N), lambda v, k=k: c_le(A(k) + 1, v))))
            if x.guard:
                gs = band(gs, x.guard(*kk))
            w = 'transfer %d' % i
            r = wit.compare(geo.decide(restrict(ga, g0)), geo.decide(restrict(gs, g0)), lat.facts_of(g0))
            if r:
                out.append((r[0], '%s happens under another condition: %s' % (w, r[1]), e.loc))
            p, s, n = [a if isinstance(a, T) else L(a) for a in e.args[:3]]
            f = lat.facts_of(gs)
            over = beyond(p, s, n, gs)
            if over is not None:
                nob += 1
                if over:
                    out.append(('bad', '%s: %s' % (w, over), e.loc))
            for what, got, exp in (('size', s, x.size), ('count', n, x.n)):
                r = wit.compare(restrict(got, gs), L(exp if isinstance(exp, P) else C(exp)), f)
                if r:
                    out.append((r[0], '%s: element %s: %s' % (w, what, r[1]), e.loc))
            addr = x.addr(*kk) if x.addr else None
            r = wit.compare(geo.decide(restrict(p, gs)), addr, f) if addr is not None else None
            if x.kind == 'w' and (r or addr is None):
                nm = const(n)
                if nm is None or const(s) is None:
                    if r:
                        out.append((r[0], '%s: address %s' % (w, r[1]), e.loc))
                else:
                    sz = int(const(s))
                    for j in range(int(nm)):
                        exp = x.val(j, *kk) if x.val else mk('ld', addr + C(j * sz), sz)
                        for got in e.args[3][j] if len(e.args) > 3 else ():
                            r = wit.compare(geo.decide(restrict(vg.asnum(got), gs)), exp, f)
                            if not r:
                                break
                        if r:
                            out.append((r[0], '%s: value of word %d: %s' % (w, j, r[1]), e.loc))
            elif r:
                out.append((r[0], '%s: address %s' % (w, r[1]), e.loc))
            send = lambda j=0, e=e: inp(e, [k for k, n in e.ks], j)
        if miss is None and i < len(evs):
            miss = 'transfer %d is not expected' % (i + 1)
            loc = evs[i].loc
        if miss:
            d = instance(ev, evs, want, g0)
            if d:
                out.append(('bad', miss + '; ' + d, loc))
            else:
                kind = 'bad'
                a, b = total_a(evs), total_x(want)
                if a is None or b is None or not (a - b).d or wit.opaque_in(L(a)):
                    kind = 'undecided'
                out.append((kind, miss + ('; bytes transferred %s, specified %s' % (show(a), show(b)) if a is not None and b is not None else ''), loc))
        return nob, lat.dedup(out), ev


def beyond(p, s, n, g):
    """None where the extent of the storage is not known; otherwise '' or how the transfer leaves its storage"""
    known = False
    for gp, q in vg.cases(p):
        b = vg.baseof(q) if isinstance(q, P) else None
        ext = vg.extent(b) if b is not None else None
        if ext is None:
            continue
        gq = band(gp, g)
        room = geo.decide(restrict(apply(lambda z, x, y: z - (q - A(b)) - x * y, *[vg.asnum(x if isinstance(x, T) else L(x)) for x in (ext, s, n)]), gq))
        if room.c is not None or not isinstance(room.v, P):
            continue
        known = True
        if room.v.isconst() and room.v.const() < 0:
            return 'the transfer ends %s bytes behind its storage' % show(-room.v)
    return '' if known else None


class NoInstance(Exception):
    pass


def sub_all(t, env):
    t = t if isinstance(t, T) else L(t)
    return subst_t(t, env)


def instance(ev, evs, want, g0):
    """both traces written out element by element for small extents; the first difference, if there is one"""
    atoms = set()
    for e in evs:
        for k, N in e.ks:
            atoms |= sym._tall(N if isinstance(N, T) else L(N))
    for x in want:
        for _, N in x.loops:
            if not callable(N):
                atoms |= sym._tall(N if isinstance(N, T) else L(N))
    ks = {k for e in evs for k, n in e.ks}
    atoms = sorted(a for a in atoms if a not in ks and ATOMS[a][0] in ('layoutvol', 'nn', 'ld', 'arg', 'in'))
    for vals in ((2, 3, 5, 2, 3), (1, 2, 3, 1, 2)):
        env = {a: C(vals[i % 5]) for i, a in enumerate(atoms)}
        try:
            if restrict(sub_all(g0, env), TRUE) is FALSE:
                continue
            got, exp = [], []
            spread(evs, 0, env, got)
            spread_x(want, 0, [], env, exp)
        except NoInstance:
            continue
        for i in range(max(len(got), len(exp))):
            if i >= len(got) or i >= len(exp):
                return 'for extents %s: %d elements transferred, specified %d' % (list(vals[:len(atoms)]), len(got), len(exp))
            g, x = got[i], exp[i]
            if g[:2] != x[:2]:
                return 'for extents %s element %d: %s' % (list(vals[:len(atoms)]), i + 1, 'another kind or size of transfer')
            if x[2] is None and x[3] is None:
                continue
            same = x[2] is not None and g[2] == x[2] or any(wit.compare(v, y) is None for v in g[3] for y in (x[3] if x[3] is not None else mk('ld', x[2], x[1]),))
            if not same:
                if not isinstance(g[2], P) or x[2] is not None and wit.opaque_in(L(g[2])) or any(wit.opaque_in(v) for v in g[3]):
                    break
                return 'for extents %s element %d is another one than specified' % (list(vals[:len(atoms)]), i + 1)
    return None


def plain(t, env):
    t = sub_all(t, env)
    if t.c is not None or not isinstance(t.v, P):
        raise NoInstance
    return t.v


def num(t, env):
    v = plain(t, env)
    if not v.isconst() or v.const() > 400:
        raise NoInstance
    return int(v.const())


def spread(evs, d, env, out):
    i = 0
    while i < len(evs):
        e = evs[i]
        if len(e.ks) > d:
            k, N = e.ks[d]
            j = i
            while j < len(evs) and len(evs[j].ks) > d and evs[j].ks[d][0] == k:
                j += 1
            for m in range(num(N, env)):
                spread(evs[i:j], d + 1, env | {k: C(m)}, out)
            i = j
            continue
        i += 1
        g = sub_all(e.guard, env)
        if g is FALSE:
            continue
        if g is not TRUE:
            raise NoInstance
        p, s, n = plain(e.args[0], env), num(e.args[1], env), num(e.args[2], env)
        ws = e.args[3] if len(e.args) > 3 else []
        for j in range(n):
            out.append((e.name[2], s, p + C(j * s), [sub_all(vg.asnum(v), env) for v in ws[j]] if j < len(ws) else []))


def spread_x(xs, d, kk, env, out):
    i = 0
    while i < len(xs):
        x = xs[i]
        if len(x.loops) > d:
            key, N = x.loops[d]
            j = i
            while j < len(xs) and len(xs[j].loops) > d and xs[j].loops[d][0] == key:
                j += 1
            for m in range(num(N(*kk) if callable(N) else N, env)):
                spread_x(xs[i:j], d + 1, kk + [C(m)], env, out)
            i = j
            continue
        i += 1
        if x.guard:
            g = sub_all(x.guard(*kk), env)
            if g is FALSE:
                continue
            if g is not TRUE:
                raise NoInstance
        n = num(x.n if isinstance(x.n, P) else C(x.n), env)
        s = num(x.size if isinstance(x.size, P) else C(x.size), env)
        p = plain(x.addr(*kk), env) if x.addr else None
        for j in range(n):
            v = sub_all(x.val(j, *kk), env) if x.val else None
            out.append((x.kind, s, p + C(j * s) if p is not None else None, v))


def fresh_in(x):
    return lambda j=0: mk('in', 'missing', id(x), j)


def total_a(evs):
    t = ZERO
    for e in evs:
        s, n = [a if isinstance(a, T) else L(a) for a in e.args[1:3]]
        if s.c is not None or n.c is not None or e.guard is not TRUE:
            return None
        v = s.v * n.v
        for k, N in e.ks:
            if N.c is not None:
                return None
            v = v * N.v
        t = t + v
    return t


def total_x(xs):
    t = ZERO
    for x in xs:
        v = (x.size if isinstance(x.size, P) else C(x.size)) * (x.n if isinstance(x.n, P) else C(x.n))
        if x.guard:
            return None
        for _, N in x.loops:
            if callable(N) or isinstance(N, T):
                return None
            v = v * N
        t = t + v
    return t


# ------------------------------------------------------------------ primitives
PRIM = [('char', 1, 'i8'), ('int', 4, 'i32'), ('unsigned int', 4, 'i32'), ('short int', 2, 'i16'), ('unsigned short int', 2, 'i16'), ('long int', 8, 'i64'),
        ('unsigned long int', 8, 'i64'), ('long long int', 8, 'i64'), ('float', 4, 'f32'), ('double', 8, 'f64'), ('bool', 1, 'i8')]


def prims():
    ws = []
    for t, s, it in PRIM:
        n = t.replace(' ', '')

        def spw(E, s=s):
            yield X('w', s, 1, addr=lambda: E['x'])

        def spr(E, s=s):
            yield X('r', s, 1, addr=lambda: E['x'])
        for form, b in (('m', 'z.write(x)'), ('f', 'write(z, x)'), ('o', 'z << x')):
            ws.append(TW('wr_%s_%s' % (form, n), ['const %s& x' % t], 'WWr z; ' + b, spw))
        for form, b in (('m', 'z.read(x)'), ('f', 'read(z, x)'), ('o', 'z >> x')):
            ws.append(TW('rd_%s_%s' % (form, n), ['%s& x' % t], 'WRd z; ' + b, spr))
    for t, s in (('float', 4), ('double', 8)):
        def spw(E, s=s):
            yield X('w', s, 1, addr=lambda: E['x'])
            yield X('w', s, 1, addr=lambda: E['x'] + C(s))

        def spr(E, s=s):
            yield X('r', s, 1)
            yield X('r', s, 1)
        ws.append(TW('wr_cplx_' + t, ['const std::complex<%s>& x' % t], 'WWr z; write(z, x)', spw))
        ws.append(TW('rd_cplx_' + t, ['std::complex<%s>& x' % t], 'WRd z; read(z, x)', spr))
    return ws


def slot(E, s):
    base, sz, ty = aw.SLOT[s[0]]
    return E.ev.ld(mk('arg', 0) + C(base + sz * int(s[1:])), sz, ty, TRUE)


def ptr(E, s):
    """address left in a slot, one term"""
    t = slot(E, s)
    while t.c is not None:
        t = t.hi if t.lo.c is None and isinstance(t.lo.v, P) and not t.lo.v.d else t.lo
    return t.v


SZ = (0, 1 << 20)


def conts():
    ws = []
    for c in 'di':
        t, sz, sl = arr.ET[c]
        M = 'multi1d<%s>' % t
        N = lambda E, c=c: E('n' + c, 'a')
        pos = lambda E, N=N: c_le0(-N(E))

        def sp(E, c=c, sz=sz, N=N):
            yield X('w', 4, 1, val=lambda j: N(E))
            yield X('w', sz, 1, addr=lambda k: E('e' + c, 'a', k), loops=[('i', N(E))])
        ws.append(TW('wr_m1_' + c, ['const %s& a' % M], 'WWr z; write(z, a)', sp, guard=pos))

        def sp(E, c=c, sz=sz):
            yield X('w', sz, 1, addr=lambda k: E('e' + c, 'a', k), loops=[('i', E['n'])])
        ws.append(TW('wr_m1n_' + c, ['const %s& a' % M, 'int n'], 'WWr z; write(z, a, n)', sp))

        def sp(E, c=c, sz=sz):
            n = yield X('r', 4, 1)
            yield X('r', sz, 1, addr=lambda k: ptr(E, 'p0') + k.scale(sz), loops=[('i', n())])
            yield ('same', [('size', slot(E, 'v0'), n())])
        ws.append(TW('rd_m1_' + c, ['int m'], 'WRd z; %s a(m); read(z, a); o.v[0]=a.size(); o.p[0]=&a[0]' % M, sp, sizes=SZ))

        def sp(E, c=c, sz=sz):
            yield X('r', sz, 1, addr=lambda k: E('e' + c, 'a', k), loops=[('i', E['n'])])
        ws.append(TW('rd_m1n_' + c, ['%s& a' % M, 'int n'], 'WRd z; read(z, a, n)', sp))
    return ws


def multis():
    ws = []
    for n in (2, 3, 4, 5):
        M = 'multi%dd<double>' % n
        S = lambda E, k, n=n: E('m%d_s%d' % (n, k), 'a')
        pos = lambda E, n=n, S=S: conj(c_le0(-S(E, k)) for k in range(1, n + 1))

        def off(dims, ks, n=n):
            """element [k_n]..[k_1]; ks = (k_1, .., k_n) outermost loop first"""
            o = ks[n - 1]
            for k in range(n - 1, 0, -1):
                o = o * dims(k) + ks[k - 1]
            return o.scale(8)

        def sp(E, n=n, S=S, off=off):
            for k in range(n, 0, -1):
                yield X('w', 4, 1, val=lambda j, k=k: S(E, k))
            yield X('w', 8, 1, addr=lambda *ks: E('m%d_p' % n, 'a') + off(lambda k: S(E, k), ks), loops=[(k, S(E, k)) for k in range(1, n + 1)])
        ws.append(TW('wr_m%d' % n, ['const %s& a' % M], 'WWr z; write(z, a)', sp, guard=pos))

        def sp(E, n=n, off=off):
            d = {}
            for k in range(n, 0, -1):
                d[k] = (yield X('r', 4, 1))()
            yield X('r', 8, 1, addr=lambda *ks: ptr(E, 'p0') + off(lambda k: d[k], ks), loops=[(k, d[k]) for k in range(1, n + 1)])
            yield ('same', [('size of dimension %d' % k, slot(E, 'v%d' % k), d[k]) for k in range(1, n + 1)])
        ws.append(TW('rd_m%d' % n, [], 'WRd z; %s a; read(z, a); ' % M + '; '.join('o.v[%d]=a.size%d()' % (k, k) for k in range(1, n + 1)) + '; o.p[0]=&a(%s)' % ','.join('0' * n), sp, sizes=(0, 1 << 6)))
        if n == 2:
            def sp(E, S=S):
                yield X('r', 8, 1, addr=lambda i, j: E('m2_p', 'a') + (j * S(E, 1) + i).scale(8), loops=[('i', E['n2']), ('j', E['n1'])])
            ws.append(TW('rd_m2n', ['%s& a' % M, 'int n1', 'int n2'], 'WRd z; read(z, a, n1, n2)', sp))

    def sp(E):
        r, N = E('nd_r', 'a'), E('nd_num', 'a')
        yield X('w', 4, 1, val=lambda j: r)
        yield X('w', 4, 1, val=lambda j, k: E('nd_n', 'a', k), loops=[('i', r)])
        yield X('w', 8, 1, addr=lambda k: E('nd_p', 'a') + k.scale(8), loops=[('j', N)])
    ws.append(TW('wr_nd', ['const multiNd<double>& a'], 'WWr z; write(z, a)', sp, guard=lambda E: band(c_le0(-E('nd_r', 'a')), c_le0(-E('nd_num', 'a')))))

    def sp(E):
        r = (yield X('r', 4, 1))()
        n = yield X('r', 4, 1, loops=[('i', r)])
        yield X('r', 8, 1, addr=lambda k: ptr(E, 'p0') + k.scale(8), loops=[('j', slot(E, 'v0'))])
    ws.append(TW('rd_nd', [], 'WRd z; multiNd<double> a; read(z, a); o.v[0]=a.numElem(); o.v[1]=a.size().size(); o.p[0]=&a.getElem(0)', sp, sizes=(0, 1 << 6)))

    # containers of the standard library
    def sp(E):
        yield X('w', 4, 1, val=lambda j: E('vn', 'a'))
        yield X('w', 8, 1, addr=lambda k: E('vp', 'a') + k.scale(8), loops=[('i', E('vn', 'a'))])
    ws.append(TW('wr_vec', ['const std::vector<double>& a'], 'WWr z; write(z, a)', sp))

    def sp(E):
        n = (yield X('r', 4, 1))()
        yield X('r', 8, 1, addr=lambda k: ptr(E, 'p0') + k.scale(8), loops=[('i', n)])
    ws.append(TW('rd_vec', [], 'WRd z; std::vector<double> a; read(z, a); o.p[0]=&a[0]; o.v[0]=a.size()', sp, sizes=(0, 1 << 6)))

    def sp(E):
        yield X('w', 4, 1, addr=lambda: E['a'])
        yield X('w', 8, 1, addr=lambda: E['a'] + C(8))
    ws.append(TW('wr_pair', ['const std::pair<int,double>& a'], 'WWr z; write(z, a)', sp))

    def sp(E):
        a = (yield X('r', 4, 1))()
        b = (yield X('r', 8, 1))()
        yield ('same', [('first', slot(E, 'v0'), a), ('second', slot(E, 'd0'), b)])
    ws.append(TW('rd_pair', [], 'WRd z; std::pair<int,double> a; read(z, a); o.v[0]=a.first; o.d[0]=a.second', sp))

    def sp(E):
        yield X('w', 4, 1, val=lambda j: E('a1n', 'a'))
        yield X('w', 8, 1, addr=lambda k: E('a1p', 'a') + k.scale(8), loops=[('i', E('a1n', 'a'))])
    ws.append(TW('wr_a1o', ['const Array1dO<double>& a'], 'WWr z; write(z, a)', sp, guard=lambda E: c_le0(-E('a1n', 'a'))))

    def sp(E):
        n = (yield X('r', 4, 1))()
        yield X('r', 8, 1, addr=lambda k: ptr(E, 'p0') + k.scale(8), loops=[('i', n)])
        yield ('same', [('size', slot(E, 'v0'), n)])
    ws.append(TW('rd_a1o', [], 'WRd z; Array1dO<double> a; read(z, a); o.p[0]=&a[1]; o.v[0]=a.size()', sp, sizes=(0, 1 << 6)))
    return ws


def conj(cs):
    g = TRUE
    for c in cs:
        g = band(g, c)
    return g


ACCV = '''extern "C" size_t w_acc_strn(const std::string& a){return a.length();}
extern "C" int w_acc_strni(const std::string& a){return a.length();}
extern "C" const char* w_acc_strp(const std::string& a){return a.data();}
extern "C" int w_acc_vn(const std::vector<double>& a){return a.size();}
extern "C" const double* w_acc_vp(const std::vector<double>& a){return a.data();}
extern "C" int w_acc_a1n(const Array1dO<double>& a){return a.size();}
extern "C" const double* w_acc_a1p(const Array1dO<double>& a){return &a[1];}
extern "C" int w_acc_scol(const Subset& s){return s.color();}
extern "C" int w_acc_lcol(const Subset& s,int i){return s.getSet().latticeColoring()[i];}
extern "C" int w_acc_ls(int m){return Layout::lattSize()[m];}
'''


def lex(k):
    return geo.nn(mk('lexsite', k))


def lats():
    from spec import Ty, M, V, S
    ws = []
    WS = {'f': 4, 'd': 8, 'i': 4, 'b': 1}
    TS = [Ty(S, S, 'r', 'f'), Ty(S, S, 'r', 'd'), Ty(S, S, 'c', 'f'), Ty(S, S, 'r', 'i'), Ty(S, S, 'r', 'b'), Ty(S, M(3), 'c', 'f'), Ty(S, M(3), 'c', 'd'),
          Ty(V(4), V(3), 'c', 'f'), Ty(V(2), V(3), 'c', 'd'), Ty(M(4), M(3), 'c', 'f'), Ty(M(4), S, 'c', 'd'), Ty(S, V(3), 'c', 'f'), Ty(S, ('seed',), 'r', 'i')]
    vol = lambda: geo.nn(mk('layoutvol'))
    for t in TS:
        sh = t.short()
        el = lambda E, x, i, sh=sh: E('el_' + sh, x, i)
        wsz, cnt = WS[t.word], t.ncomp() * len(t.idx())
        for d, kind, cls, c in (('wr', 'w', 'WWr', 'const '), ('rd', 'r', 'WRd', '')):
            call = {'w': 'write', 'r': 'read'}[kind]

            def mkx(kind=kind, wsz=wsz, cnt=cnt):
                return lambda **kw: X(kind, wsz, cnt, **kw)
            x = mkx()

            def sp(E, x=x):
                yield x(addr=lambda: E['a'])
            ws.append(TW('%s_os_%s' % (d, sh), ['%s%s& a' % (c, t.cpp())], '%s z; %s(z, a)' % (cls, call), sp))

            def sp(E, x=x, el=el):
                yield x(addr=lambda k: el(E, 'a', lex(k)), loops=[('s', vol())])
            ws.append(TW('%s_ol_%s' % (d, sh), ['%s%s& a' % (c, t.lat())], '%s z; %s(z, a)' % (cls, call), sp, lats=[t]))
            if t.word == 'b':
                continue

            def sp(E, x=x, el=el):
                yield x(addr=lambda: el(E, 'a', geo.site_of(*[mk('ld', E.acc.p('m1e', E['c'], C(m)) if False else m1(E, 'c', m), 4) for m in range(4)])))
            ws.append(TW('%s_oc_%s' % (d, sh), ['%s%s& a' % (c, t.lat()), 'const multi1d<int>& c'], '%s z; %s(z, a, c)' % (cls, call), sp, lats=[t]))

            def sp(E, x=x, el=el):
                yield x(addr=lambda k: el(E, 'a', lex(k)), loops=[('s', vol())], guard=lambda k: c_eq0(E('lcol', 's', lex(k)) - E('scol', 's')))
            ws.append(TW('%s_sub_%s' % (d, sh), ['%s& a' % t.lat(), 'const Subset& s'], '%s z; %s(z, a[s])' % (cls, call), sp, lats=[t]))

            def sp(E, x=x, el=el):
                yield x(addr=lambda k: el(E, 'a', lex(E['m'] + k)), loops=[('s', E['n'] - E['m'])])
            ws.append(TW('%s_sl_%s' % (d, sh), ['%s& a' % t.lat(), 'int m', 'int n'], '%s z; LatticeTimeSliceIO::%sSlice(z, a, m, n)' % (cls, call), sp, lats=[t]))
    return ws


def lsz(module):
    p = mk('lattsize')
    PTR.add(p.single())
    on, oe = geo.m1_offsets(module)
    RANGE[mk('ld', p + on, 4).single()] = (4, 4)
    PTR.add(mk('ld', p + oe, 8).single())
    for m in range(4):
        RANGE[mk('ld', mk('ld', p + oe, 8) + C(4 * m), 4).single()] = (1, 1 << 10)
    return p


def ls(E, m):
    on, oe = geo.m1_offsets(E.acc.m)
    return mk('ld', mk('ld', lsz(E.acc.m) + oe, 8) + C(4 * m), 4)


def slices():
    from spec import Ty, M, S
    ws = []
    for t in (Ty(S, M(3), 'c', 'f'), Ty(S, S, 'c', 'd')):
        sh = t.short()
        for d, kind, cls in (('wr', 'w', 'WWr'), ('rd', 'r', 'WRd')):
            def sp(E, sh=sh, t=t, kind=kind):
                sv = ls(E, 0) * ls(E, 1) * ls(E, 2)
                vol = geo.nn(mk('layoutvol'))
                yield X(kind, {'f': 4, 'd': 8}[t.word], t.ncomp() * len(t.idx()), addr=lambda k: E('el_' + sh, 'a', lex(E['t'] * sv + k)),
                        loops=[('s', lambda k: ite(c_eq0(E['t'] + 1 - ls(E, 3)), L(vol - E['t'] * sv), L(sv)))])
            ws.append(TW('%s_ts_%s' % (d, sh), ['%s& a' % t.lat(), 'int t'], '%s z; TimeSliceIO<%s > v(a, t); %s(z, v)' % (cls, t.lat(), {'w': 'write', 'r': 'read'}[kind]), sp, lats=[t],
                         setup=lambda E: lsz(E.acc.m), guard=lambda E: band(c_le0(-E['t']), c_lt(E['t'], ls(E, 3)))))
    return ws


def m1(E, x, m):
    on, oe = geo.m1_offsets(E.acc.m)
    return mk('ld', E[x] + oe, 8) + C(4 * m)


# ------------------------------------------------------------------ byte order
SWAP = '''
#pragma clang attribute push(__attribute__((always_inline)), apply_to = function)
#include "%s/lib/qdp_byteorder.cc"
#pragma clang attribute pop
using namespace QDP;
''' % lib.REPO + aw.OUT


class BS(aw.AW):
    pass


def swaps():
    ws = []
    for s in (1, 2, 4, 8, 16):
        ws.append(BS('swap%d' % s, ['unsigned char* p', 'long n', 'long i'], 'QDPUtil::byte_swap(p, %d, n); for(int k=0;k<%d;++k) o.b[k]=p[%d*i+k]' % (s, s, s),
                     [('byte %d of element i' % k, 'b%d' % k, lambda E, s=s, k=k: mk('ld', E['p'] + E['i'].scale(s) + C(s - 1 - k), 1)) for k in range(s)],
                     guard=lambda E: c_lt(E['i'], E['n']), ranges={'i': (0, 1 << 40), 'n': (0, 1 << 40)}))
        ws.append(BS('swapo%d' % s, ['unsigned char* p', 'long n', 'long i'], 'QDPUtil::byte_swap(p, %d, n); o.b[0]=p[i]' % s,
                     [('byte outside the array', 'b0', lambda E: mk('ld', E['p'] + E['i'], 1))],
                     guard=lambda E, s=s: bor(c_le0(E['n'].scale(s) - E['i']), c_lt(E['i'], ZERO)), ranges={'i': (-(1 << 50), 1 << 50), 'n': (0, 1 << 40)}))
    return ws


# ------------------------------------------------------------------ the layer between transfers and the stream
STREAM = r'''
#pragma clang attribute push(__attribute__((always_inline)), apply_to = function)
#include "%s/lib/qdp_io.cc"
#pragma clang attribute pop
using namespace QDP;
extern "C" std::ostream& x_os();
extern "C" std::istream& x_is();
extern "C" void x_wr();
void (*x_keep)() = x_wr;
struct WWst final : public BinaryWriter {
  QDPUtil::n_uint32_t ck;
  void flush() {}
  QDPUtil::n_uint32_t& internalChecksum() { return ck; }
  std::ostream& getOstream() { return x_os(); }
};
struct WRst final : public BinaryReader {
  QDPUtil::n_uint32_t ck;
  QDPUtil::n_uint32_t& internalChecksum() { return ck; }
  std::istream& getIstream() { return x_is(); }
};
''' % lib.REPO + aw.OUT

XEV = {'_ZNSo5writeEPKcl': 'write', '_ZNSi4readEPcl': 'read', '_ZN7QDPUtil5crc32EjPKcm': 'crc', '_ZN7QDPUtil9byte_swapEPvmm': 'swap',
       '_ZNSi7getlineEPcl': 'getline', '_ZNSi7getlineEPclc': 'getline', '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE6assignEPKcm': 'assign'}
for _p in ('j', 'm'):
    XEV['_ZN7QDPUtil5crc32EjPKc' + _p] = 'crc'


def st_hook(ev, ins, name, args, g):
    if name in ('x_os', 'x_is'):
        return L(mk('stream'))
    if name == '_ZN7QDPUtil10big_endianEv':
        return FALSE
    k = XEV.get(name)
    if k:
        e = vg.Effect('call', name=k, args=args, guard=g, loc=ins.get('l', ''), seq=len(ev.log))
        e.res = mk('crc', *[a.single() if isinstance(a, P) and a.single() is not None else i for i, a in enumerate(args)]) if False else mk('crcval', ev.chain, ins['id'])
        ev.log.append(e)
        return L(e.res)
    if name == '_ZN3QDP6Layout11primaryNodeEv':
        return vg.TRUE
    return geo.geo_hook(ev, ins, name, args, g)


class ST(aw.AW):
    """witness on the calls reaching the stream: what happens to the array (p, size, n)"""

    def __init__(self, name, params, body, kind, check=True, obj='WWst', crc=True, swapped=1):
        aw.AW.__init__(self, name, params, '%s z; z.ck = c0; %s; o.v[0] = z.ck' % (obj, body), [], opts=vg.Opts(call_hook=st_hook, unroll=8))
        self.kind, self.crc, self.swapped = kind, crc, swapped

    def analyse(self, fn):
        nob, out, ev = aw.AW.analyse(self, fn)
        E = self.E
        p, s, n, c0 = E['p'], E['s'], E['n'], E['c0']
        sw, crc = FALSE, c0 if isinstance(c0, T) else L(c0)              # the condition under which the array is swapped
        tot = {}
        want = ('write' if self.kind == 'w' else 'read',) + (('crc',) if self.crc else ())
        loc = lat.lastloc2(ev)

        def xor(x, y):
            return bor(band(x, bnot(y)), band(y, bnot(x)))

        def never(cond, text, loc):
            """sizes are tried one by one where the condition depends on them: one byte, and no element, are never swapped"""
            nonlocal nob
            nob += 1
            cond = geo.decide(cond)
            if cond is FALSE:
                return
            for s1, n1 in ((4, 2), (8, 3), (2, 5), (16, 1)):
                r = wit.compare(geo.decide(subst_t(cond, {s.single(): C(s1), n.single(): C(n1)})), FALSE)
                if r:
                    out.append((r[0], text, loc))
                    return

        def eqs(e, what, got, exp):
            nonlocal nob
            nob += 1
            got = restrict(got if isinstance(got, T) else L(got), e.guard)
            r = wit.compare(got, exp)
            if r and r[0] == 'bad' and e.guard is not TRUE:              # the sizes may be known under the guard
                r = ('undecided', r[1])
                for s1, n1 in ((4, 2), (8, 3), (2, 5), (16, 1), (1, 3)):
                    at = lambda x: geo.decide(subst_t(x if isinstance(x, T) else L(x), {s.single(): C(s1), n.single(): C(n1)}))
                    g1 = at(e.guard)
                    q = g1 is not FALSE and wit.compare(restrict(at(got), g1), at(exp))
                    if q and q[0] == 'bad':
                        r = q
                        break
            if r and what.endswith('address') and (got.c is not None or not isinstance(got.v, P) or vg.baseof(got.v) != p.single()):
                foreign.append(e)                          # another buffer: its contents are not followed
                r = ('undecided', r[1])
            if r:
                out.append((r[0], '%s: %s' % (what, r[1]), e.loc))
        foreign = []
        for e in ev.log:
            if e.kind != 'call' or e.name not in ('write', 'read', 'crc', 'swap'):
                continue
            if e.ks:
                out.append(('undecided', '%s happens in a loop' % e.name, e.loc))
            g, first = e.guard, tot.get(e.name, FALSE)
            if e.name != 'swap':
                never(band(first, g), '%s happens twice' % e.name, e.loc)
                tot[e.name] = bor(first, g)
            if e.name == 'swap':
                for w, x, y in zip(('address', 'element size', 'count'), e.args, (p, s, n)):
                    eqs(e, 'byte swap: ' + w, x, y)
                if self.kind == 'r':
                    never(band(g, bnot(tot.get('read', FALSE))), 'bytes are swapped before they are read', e.loc)
                sw = xor(sw, g)
            elif e.name in ('write', 'read'):
                eqs(e, 'stream %s: address' % e.name, e.args[1], p)
                eqs(e, 'stream %s: bytes' % e.name, e.args[2], s * n)
                if self.kind == 'w':
                    never(band(g, bnot(sw) if self.swapped else sw), 'the bytes written are not in big-endian order', e.loc)
            else:
                eqs(e, 'checksum: running value', e.args[0], c0)
                eqs(e, 'checksum: address', e.args[1], p)
                eqs(e, 'checksum: bytes', e.args[2], s * n)
                wrong = (bnot(sw) if self.swapped else sw) if self.kind == 'w' else bor(sw, bnot(tot.get('read', FALSE)))
                never(band(g, wrong), 'the checksum is taken over bytes other than those on the stream', e.loc)
                crc = ite(g, L(e.res), crc)
        for k in ('write', 'read', 'crc'):
            if k in want:
                never(bnot(tot.get(k, FALSE)), 'no %s' % k, loc)
            else:
                never(tot.get(k, FALSE), '%s not expected' % k, loc)
        never(sw if self.kind == 'w' or not self.swapped else bnot(sw), 'the data are left in the wrong byte order', loc)
        if foreign:
            out = [('undecided',) + x[1:] for x in out]
        nob += 1
        r = wit.compare(vg.asnum(slot(self.E_(ev), 'v0')), crc)
        if r:
            out.append((r[0], 'running checksum afterwards: %s' % r[1], loc))
        return nob, lat.dedup(out), ev

    def E_(self, ev):
        self.E.ev = ev
        return self.E


def streams():
    ws = []
    W = ['const char* p', 'size_t s', 'size_t n', 'unsigned c0']
    R = ['char* p', 'size_t s', 'size_t n', 'unsigned c0']
    for m in ('writeArray', 'writeArrayPrimaryNode'):
        ws.append(ST('st_' + m, W, 'z.%s(p, s, n)' % m, 'w'))
    for m in ('readArray', 'readArrayPrimaryNode'):
        ws.append(ST('st_' + m, R, 'z.%s(p, s, n)' % m, 'r', obj='WRst'))
    for m in ('readArrayLittleEndian', 'readArrayPrimaryNodeLittleEndian'):
        ws.append(ST('st_' + m, R, 'z.%s(p, s, n)' % m, 'r', obj='WRst', crc=False, swapped=0))
    ws.append(GL())
    return ws


D = []


class GL(ST):
    """reading a line: what reaches the stream, the checksum and the result"""

    def __init__(self):
        aw.AW.__init__(self, 'st_getline', ['std::string& a', 'size_t m', 'unsigned c0'], 'WRst z; z.ck = c0; z.read(a, m); o.v[0] = z.ck', [], opts=vg.Opts(call_hook=st_hook, unroll=8))

    def analyse(self, fn):
        nob, out, ev = aw.AW.analyse(self, fn)
        E = self.E
        E.ev = ev
        cs = [e for e in ev.log if e.kind == 'call']
        loc = lat.lastloc2(ev)
        gl = [e for e in cs if e.name == 'getline']
        crc = [e for e in cs if e.name == 'crc']
        nob += 2
        if len(gl) != 1 or len(crc) != 2:
            out.append(('undecided' if len(crc) not in (0, 1) or len(gl) != 1 else 'bad', '%d getline calls, %d checksum updates; specified 1 and 2 (line and terminator)' % (len(gl), len(crc)), loc))
            return nob, out, ev
        buf = vg.asnum(gl[0].args[1])
        tm = vg.asnum(crc[1].args[1])
        sl = [e.res for e in cs if e.name == 'strlen' and buf.c is None and wit.compare(vg.asnum(e.args[0]), buf) is None]
        chk = [('characters requested', gl[0].args[2], E['m']), ('checksum of the line: running value', crc[0].args[0], E['c0']), ('checksum of the line: address', crc[0].args[1], buf),
               ('checksum of the terminator: running value', crc[1].args[0], crc[0].res), ('checksum of the terminator: bytes', crc[1].args[2], ONE),
               ('terminator', ev.ld(tm.v, 1, 'i8', TRUE) if tm.c is None else tm, C(10)), ('running checksum afterwards', slot(E, 'v0'), crc[1].res)]
        for w, g, x in chk:
            nob += 1
            r = wit.compare(vg.asnum(g if isinstance(g, T) else L(g)), x)
            if r:
                out.append((r[0], '%s: %s' % (w, r[1]), loc))
        n = crc[0].args[2] if isinstance(crc[0].args[2], T) else L(crc[0].args[2])
        nob += 1
        if not any(wit.compare(n, x) is None for x in sl):
            r = wit.compare(n, sl[0]) if sl else ('undecided', 'length of the line not resolved')
            for x in sl:
                d = vg.asnum(n).v - x if n.c is None and isinstance(x, P) else A(0)
                if d.isconst():
                    r = ('bad', 'computed - specified = %s' % d)
                    break
            out.append((r[0], 'checksum of the line: bytes: %s' % r[1], loc))
        return nob, lat.dedup(out), ev


class CK(aw.AW):
    pass


def cksums():
    """the running checksum is restarted by construction, opening, clearing, seeking and resetting, and reported by getChecksum"""
    ws = []
    for c in ('Buffer', 'File'):
        for k in ('Reader', 'Writer', 'ReaderWriter'):
            n = 'Binary%s%s' % (c, k)
            D.append('struct D%s : public %s { using %s::%s; D%s() {} unsigned ck() { return %s::internalChecksum(); } };\n' % (n, n, n, n, n, n))
    O = lambda: vg.Opts(call_hook=st_hook, unroll=8)
    z0 = [('checksum', 'v0', lambda E: ZERO)]
    for m in ('seek(0)', 'seekBegin(k)', 'seekRelative(k)', 'seekEnd(k)', 'rewind()', 'resetChecksum()'):
        for o in ('WWst', 'WRst'):
            ws.append(CK('ck_%s_%s' % (o, m.split('(')[0]), ['unsigned c0', 'int k'], '%s z; z.ck = c0; z.%s; o.v[0] = z.ck' % (o, m), z0, opts=O()))
    for o in ('WWst', 'WRst'):
        ws.append(CK('ck_%s_get' % o, ['unsigned c0'], '%s z; z.ck = c0; o.v[0] = z.getChecksum(); o.v[1] = z.ck' % o, [('checksum', 'v0', lambda E: E['c0']), ('kept', 'v1', lambda E: E['c0'])], opts=O()))
    for c in ('Buffer', 'File'):
        for k in ('Reader', 'Writer', 'ReaderWriter'):
            n = 'Binary%s%s' % (c, k)
            # the object lives in the storage handed in, whose contents are arbitrary
            ws.append(CK('ck_ct_' + n, ['char* m'], 'D%s* z = new((void*)m) D%s; o.v[0] = z->ck()' % (n, n), z0, opts=O()))
            arg = '(t)' if not (c == 'File' and k == 'ReaderWriter') else '(t, std::ios_base::in)'
            ws.append(CK('ck_cs_' + n, ['char* m', 'const std::string& t'], 'D%s* z = new((void*)m) D%s%s; o.v[0] = z->ck()' % (n, n, arg), z0, opts=O()))
            if c == 'Buffer':
                ws.append(CK('ck_cl_' + n, ['D%s& z' % n], 'z.clear(); o.v[0] = z.ck()', z0, opts=O()))
            else:
                ws.append(CK('ck_op_' + n, ['D%s& z' % n, 'const std::string& t'], 'z.open%s; o.v[0] = z.ck()' % arg, z0, opts=O()))
    return ws


def strings():
    ws = []
    C0 = ['const std::string& a']
    n = lambda E: E('strn', 'a')
    g = lambda E: band(c_le0(-n(E)), c_lt(n(E), C(1 << 30)))

    def sp(E):
        yield X('w', 1, n(E), addr=lambda: E('strp', 'a'))
        yield X('w', 1, 1, val=lambda j: C(10))
    for f, b in (('m', 'z.write(a)'), ('f', 'write(z, a)'), ('o', 'z << a')):
        ws.append(TW('wr_str_' + f, C0, 'WWr z; ' + b, sp, guard=g))

    def sp(E):
        yield X('w', 4, 1, val=lambda j: E('strni', 'a'))
        yield X('w', 1, n(E), addr=lambda: E('strp', 'a'))
    for f, b in (('m', 'z.writeDesc(a)'), ('f', 'writeDesc(z, a)')):
        ws.append(TW('wr_desc_' + f, C0, 'WWr z; ' + b, sp, guard=g))

    def sp(E):
        k = (yield X('r', 4, 1))()
        yield X('r', 1, k)
        calls = [e for e in E.ev.log if e.kind == 'call' and ('assign' in e.name or '_M_replace' in e.name)]
        rd = [e for e in E.ev.log if e.kind == 'call' and e.name == 'x_rd']
        if len(calls) == 1 and len(rd) == 2:
            yield ('same', [('string assigned from the buffer read', calls[0].args[-2] if isinstance(calls[0].args[-2], T) else L(calls[0].args[-2]), rd[1].args[0]),
                            ('length of the string', calls[0].args[-1] if isinstance(calls[0].args[-1], T) else L(calls[0].args[-1]), k)])
    for f, b in (('m', 'z.readDesc(a)'), ('f', 'readDesc(z, a)')):
        ws.append(TW('rd_desc_' + f, ['std::string& a'], 'WRd z; ' + b, sp, sizes=(0, 1 << 20)))
    return ws
