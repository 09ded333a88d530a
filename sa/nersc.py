"""NERSC gauge archive (P15): sites, directions and matrix elements of the binary part."""
import aw
import bio
import geo
import lat
import lib
import vg
import wit
from sym import *

PRE = r'''
#pragma clang attribute push(__attribute__((always_inline)), apply_to = function)
#include "%s/lib/qdp_scalar_specific.cc"
#pragma clang attribute pop
''' % lib.REPO


ACC = '''extern "C" const float* w_acc_uw(const multi1d<LatticeColorMatrix>& u, int d, int s, int i, int j, int c){return (c ? &u[d].elem(s).elem().elem(i,j).imag() : &u[d].elem(s).elem().elem(i,j).real());}
'''


def prelude(ws):
    return bio.prelude(ws) + PRE + ACC


def site(k):
    d = mk('crtn', k)
    PTR.add(d.single())
    return geo.site_of(*[mk('ld', d + C(4 * m), 4) for m in range(4)])


def word(E, d, s, j):
    return E('uw', 'u', C(d), s, C(j // 6), C(j // 2 % 3), C(j % 2))


def hook(ev, ins, name, args, g):
    if name.startswith('_ZN3QDP6crtesnEi'):
        on, oe = geo.m1_offsets(ev.fn.module)
        out, site = args[0] if isinstance(args[0], P) else args[0].v, args[1]
        site = site.v if isinstance(site, T) else site
        d = mk('crtn', site)
        PTR.add(d.single())
        for off, sz, v, ty in ((on, 4, C(4), 'i32'), (oe, 8, d, 'ptr')):
            ev.log.append(vg.Effect('store', ptr=out + off, size=sz, val=L(v), guard=g, fty=ty, loc=ins.get('l', ''), seq=len(ev.log)))
        return L(ZERO)
    return bio.io_hook(ev, ins, name, args, g)


def arch():
    from spec import Ty, M, S
    ws = []
    U = 'multi1d<LatticeColorMatrix>& u'
    t = Ty(S, M(3), 'c', 'f')
    for n in (12, 18):
        def sp(E, n=n):
            for d in range(4):
                yield bio.X('w', 4, n, loops=[('s', geo.nn(mk('layoutvol')))], val=lambda j, k, d=d: mk('ld', word(E, d, site(k), j), 4))
        ws.append(bio.TW('wr_arch%d' % n, ['const ' + U], 'WWr z; writeArchiv(z, u, %d)' % n, sp, lats=[t], opts=vg.Opts(call_hook=hook, known=geo.known_all, unroll=8)))
    return ws


def rd():
    from spec import Ty, M, S
    ws = []
    t = Ty(S, M(3), 'c', 'f')
    for n in (12, 18):
        for fs in (4, 8):
            ws.append(RD('rd_arch%d_%d' % (n, fs), ['multi1d<LatticeColorMatrix>& u', 'unsigned& cs'], 'WRd z; readArchiv(z, u, cs, %d, %d)' % (n, fs), n, fs, [t]))
    return ws


class RD(bio.TW):
    def __init__(self, name, params, body, n, fs, lats):
        def sp(E):
            for d in range(4):
                yield bio.X('r', fs, n, loops=[('s', geo.nn(mk('layoutvol')))])
        bio.TW.__init__(self, name, params, body, sp, lats=lats, opts=vg.Opts(call_hook=hook, known=geo.known_all, unroll=8))
        self.n, self.fs = n, fs

    def analyse(self, fn):
        nob, out, ev = bio.TW.analyse(self, fn)
        E = self.E
        loc = lat.lastloc2(ev)
        rds = [e for e in ev.log if e.kind == 'call' and e.name == 'x_rd']
        if out or len(rds) != 4 or any(len(e.ks) != 1 or e.ks[0][0] != rds[0].ks[0][0] for e in rds):
            return nob, out or [('undecided', 'structure of the reading loop', loc)], ev
        k = rds[0].ks[0][0]
        got = {}
        for e in ev.log:
            if e.kind == 'store' and len(e.ks) == 1 and e.ks[0][0] == k and isinstance(e.ptr, P) and ATOMS[vg.baseof(e.ptr)][0] not in ('alloca', 'new'):
                got.setdefault(e.ptr, []).append(e)
        other = set(got)
        vol = L(geo.nn(mk('layoutvol')))
        g0 = bnot(c_le0(geo.nn(mk('layoutvol'))))
        gk = band(g0, band(c_lt(A(k), vol.v), c_le0(-A(k))))
        tot = ZERO
        for d, r in enumerate(rds):
            x = [bio.inp(r, [k], j) for j in range(self.n)]
            for v in x:
                tot = tot + (v if self.fs == 4 else vg.subload(v, 0, 4) + vg.subload(v, 4, 4))
            if self.n == 12:
                for c in range(3):
                    a, b = (c + 1) % 3, (c + 2) % 3
                    re = im = ZERO
                    for s, p, q in ((1, a, b), (-1, b, a)):
                        ar, ai, br, bi = x[2 * p], x[2 * p + 1], x[6 + 2 * q], x[7 + 2 * q]
                        re = re + (ar * br - ai * bi) * C(s)
                        im = im - (ar * bi + ai * br) * C(s)
                    x += [re, im]
            for j in range(18):
                ptr = word(E, d, site(A(k)), j)
                es = got.get(ptr, [])
                other.discard(ptr)
                nob += 1
                what = 'direction %d, element (%d,%d) %s' % (d, j // 6, j // 2 % 3, ('real', 'imaginary')[j % 2])
                if len(es) != 1 or es[0].size != 4:
                    out.append(('bad' if not es and not any(wit.opaque_in(L(p)) for p in other) else 'undecided', '%s: stored %d times in the turn of its site' % (what, len(es)), loc))
                    continue
                r = wit.compare(restrict(vg.asnum(es[0].val), gk), x[j]) or wit.compare(restrict(es[0].guard, gk), TRUE)
                if r:
                    out.append((r[0], '%s: %s' % (what, r[1]), es[0].loc))
        if other:
            out.append(('bad' if out and not any(wit.opaque_in(L(p)) for p in other) else 'undecided', 'other words are written: %s' % list(other)[0], got[list(other)[0]][0].loc))
        nob += 1
        cs = restrict(vg.asnum(ev.ld(E['cs'], 4, 'i32', g0)), g0)
        r = wit.compare(cs, vg.mksum_t(tot, k, vol.v))
        if r:
            out.append((r[0], 'checksum: %s' % r[1], loc))
        return nob, lat.dedup(out), ev


def nothing(E):
    return
    yield


def cks():
    from spec import Ty, M, S
    t = Ty(S, M(3), 'c', 'f')
    def sp(E, n):
        k = mk('k', 'cks').single()
        vol = geo.nn(mk('layoutvol'))
        tot = ZERO
        for d in range(4):
            for j in range(n):
                tot = tot + mk('ld', word(E, d, A(k), j), 4)
        return vg.mksum_t(tot, k, vol)
    return [bio.TW('ck_arch%d' % n, ['const multi1d<LatticeColorMatrix>& u'], 'o.v[0] = computeChecksum(u, %d)' % n, nothing, lats=[t],
                   outs=[('checksum', 'v0', lambda E, n=n: sp(E, n))], guard=lambda E: bnot(c_le0(geo.nn(mk('layoutvol')))), opts=vg.Opts(call_hook=hook, known=geo.known_all, unroll=8)) for n in (12, 18)]
