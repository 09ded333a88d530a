"""Storage of lattice fields (P21): one block per field, of the right size, released exactly once; copies are deep."""
import aw
import lat
import lib
import vg
import wit
from spec import Ty, WSZ, S, M, V
from sym import *

ALLOC = 'QDPDefaultAllocator8allocate'
FREE = 'QDPDefaultAllocator4freeEPv'


def hook(ev, ins, name, args, g):
    if ALLOC in name and ins:
        a = A(atom_id(('new', ev.fn.name + ev.chain, ins['id'], args[1]) + tuple(A(k) for k in ev.kstack)))
        PTR.add(a.single())
        ev.log.append(vg.Effect('call', name='_Znam', args=[args[1]], guard=g, res=a, loc=ins.get('l', ''), seq=len(ev.log)))
        return L(a)
    if FREE in name and ins:
        ev.log.append(vg.Effect('call', name='_ZdaPv', args=[args[1]], guard=g, loc=ins.get('l', ''), seq=len(ev.log)))
        return True
    if 'StandardOutputStream' in name or name.startswith(('_ZNSo', '_ZStls')):
        return args[0] if args else L(ZERO)
    return lat.hook(ev, ins, name, args, g)


def vol():
    v = mk('layoutvol')
    RANGE[v.single()] = (1, 1 << 27)
    return v


def whole():
    s = mk('glob', '_ZN3QDP3allE')
    PTR.add(s.single())
    return s


class OW(aw.AW):
    def __init__(self, name, params, body, outs, allocs=(), guard=None, ret=None, releases=None, final=None, **kw):
        aw.AW.__init__(self, 'own_' + name, params, body, outs, guard=guard or self.inside, ret=ret, opts=vg.Opts(call_hook=hook, unroll=8, wrap32=True), ranges={'k': (0, 1 << 27)}, **kw)
        self.allocs, self.releases, self.final = allocs, releases, final
        self.balance = releases is None

    def inside(self, E):
        if 'k' not in E.a:
            return TRUE
        t = E('tab', whole(), E['k'])
        return band(c_lt(E['k'], E('n', whole())), band(c_le0(-t), c_lt(t, vol())))

    def analyse(self, fn):
        vol()
        nob, out, ev = aw.AW.analyse(self, fn)
        g0 = self.guard(self.E)
        for a in ev.aborts:             # a stopped program obtains nothing more
            g0 = band(g0, bnot(a[0]))
        news = [e for e in ev.log if e.kind == 'call' and e.name in aw.NEW and e.loc and band(e.guard, g0) is not FALSE]
        dels = [e for e in ev.log if e.kind == 'call' and e.name in aw.DEL and band(e.guard, g0) is not FALSE]
        filled = [e for e in ev.log if e.kind in ('store', 'copy', 'set') and vg.baseof(e.ptr) is not None and ATOMS[vg.baseof(e.ptr)][0] == 'new']
        out = [('undecided',) + x[1:] if 'never initialised' in x[1] and filled else x for x in out]
        nob += 1
        if len(news) != len(self.allocs):
            out.append(('bad' if not any(e.guard is not TRUE for e in news) else 'undecided', 'obtains %d blocks of storage, specified %d' % (len(news), len(self.allocs)), lat.lastloc2(ev)))
        else:
            for e, sp in zip(news, self.allocs):
                nob += 1
                want = sp(self.E)
                a = e.args[0] if isinstance(e.args[0], T) else L(e.args[0])
                r = wit.compare(restrict(a, g0), want, lat.facts_of(g0))
                if r is not None:                       # more than needed is no harm
                    d = apply(lambda x: want - x, restrict(a, g0))
                    ok = all(f.sign(v) == 'neg0' for f, l, v in paths(d, lat.facts_of(g0)))
                    if not ok:
                        out.append((r[0], 'bytes of storage obtained: ' + r[1], e.loc))
        if self.final:                                      # the storage in use at the end is large enough
            nob += 1
            base, sz, ty = aw.SLOT['p']
            for g, v in vg.cases(restrict(vg.asnum(ev.ld(mk('arg', 0) + C(base + sz * int(self.final[0][1:])), sz, ty, g0)), g0)):
                g = band(g, g0)
                e = [e for e in news if isinstance(v, P) and not (v - (e.res if isinstance(e.res, P) else e.res.v)).d]
                if g is FALSE:
                    continue
                if len(e) != 1:
                    out.append(('undecided', 'storage in use at the end not recognised', lat.lastloc2(ev)))
                    continue
                d = apply(lambda x: self.final[1](self.E) - x, restrict(e[0].args[0] if isinstance(e[0].args[0], T) else L(e[0].args[0]), g))
                r = wit.compare(d, L(ZERO), lat.facts_of(g))
                if r is not None and not all(f.sign(v) == 'neg0' for f, l, v in paths(d, lat.facts_of(g))):
                    out.append((r[0], 'the storage kept has another size than the field needs: specified - kept: ' + r[1].replace('computed - specified = ', ''), e[0].loc))
        if self.releases is None:
            mine = [e.res for e in news]
            for d in dels:
                a = d.args[0] if isinstance(d.args[0], T) else L(d.args[0])
                for g, v in vg.cases(a):
                    if band(band(g, d.guard), g0) is FALSE or any(not (v - m).d for m in mine):
                        continue
                    b = vg.baseof(v) if isinstance(v, P) else None
                    if isinstance(v, P) and not v.d:
                        continue
                    out.append(('bad' if b is not None and ATOMS[b][0] in ('arg', 'ld', 'new', 'uninit') else 'undecided', 'releases storage it does not own', d.loc))
        else:
            # storage of an operand: which blocks are released, once each, under which condition
            want = self.releases(self.E)
            nob += 1
            left = list(dels)
            for p, cond in want:
                tot = FALSE
                for d in list(left):
                    a = d.args[0] if isinstance(d.args[0], T) else L(d.args[0])
                    g = band(band(d.guard, g0), aw.when_equal(restrict(a, g0), p))
                    if g is FALSE:
                        continue
                    left.remove(d)
                    if band(tot, g) is not FALSE:
                        out.append(('bad', 'storage released twice', d.loc))
                    tot = bor(tot, g)
                if cond is None:
                    if tot is FALSE:
                        out.append(('bad', 'storage is not released', lat.lastloc2(ev)))
                    continue
                r = wit.compare(restrict(tot, g0), restrict(cond, g0), lat.facts_of(g0))
                if r is not None:
                    out.append((r[0], 'storage is not released when it should be: ' + r[1], lat.lastloc2(ev)))
            for d in left:
                a = d.args[0] if isinstance(d.args[0], T) else L(d.args[0])
                if not (a.c is None and isinstance(a.v, P) and not a.v.d):
                    out.append(('bad', 'releases storage it does not own', d.loc))
        return nob, lat.dedup(out), ev


TYPES = [Ty(S, S, 'r', 'f'), Ty(S, S, 'c', 'd'), Ty(S, M(3), 'c', 'f'), Ty(V(4), V(3), 'c', 'd'), Ty(M(4), M(3), 'c', 'f')]


def elt(t):
    return 'std::remove_reference<decltype(((%s*)0)->elem(0))>::type' % t.lat()


def word(t, where, i, last=True):
    c = {'f': 'float', 'd': 'double'}[t.word]
    return 'o.%s[%d] = *(const %s*)((const char*)&%s + %d)' % (t.word, i, c, where, t.size() - WSZ[t.word] if last else 0)


def fields():
    ws = []
    for t in TYPES:
        n, Lt, sz, w = t.short(), t.lat(), t.size(), t.word
        bytes_ = lambda E, sz=sz: vol() * sz
        FT = {'f': 4, 'd': 8}[w]

        def val(last, p='b', t=t, n=n, FT=FT):
            return lambda E: mk('ld', E('el_' + n, p, E('tab', whole(), E['k'])) + C(t.size() - FT if last else 0), FT)
        B = 'const %s& b' % Lt
        two = [('first word', w + '0', val(False)), ('last word', w + '1', val(True))]
        vv = word(t, 'a.elem(all.siteTable()[k])', 0, False) + '; ' + word(t, 'a.elem(all.siteTable()[k])', 1)
        same = ('source keeps its storage', 'q0', lambda E, n=n: ONE)
        ws += [
            OW('def_' + n, [], '%s a; o.p[0] = &a' % Lt, [], [bytes_]),
            OW('copy_' + n, [B, 'int k'], 'const void* q = b.getF(); %s a(b); %s; o.q[0] = q == b.getF()' % (Lt, vv), two + [same], [bytes_]),
            OW('init_' + n, [B, 'int k'], '%s a = b; %s' % (Lt, vv), two, [bytes_]),
            OW('expr_' + n, [B, 'int k'], '%s a(b + b); %s' % (Lt, vv), [(x[0], x[1], lambda E, f=x[2]: f(E) * 2) for x in two], [bytes_]),
            OW('assign_' + n, ['%s& a' % Lt, B, 'int k'], 'const void *p = a.getF(), *q = b.getF(); a = b; o.q[0] = q == b.getF(); o.q[1] = p == a.getF()',
               [same, ('destination keeps its storage', 'q1', lambda E: ONE)], []),
            OW('cadd_' + n, ['%s& a' % Lt, B, 'int k'], 'const void *p = a.getF(), *q = b.getF(); a += b; o.q[0] = q == b.getF(); o.q[1] = p == a.getF()',
               [same, ('destination keeps its storage', 'q1', lambda E: ONE)], []),
            OW('zero_' + n, ['int k'], '%s a = zero; %s' % (Lt, vv), [(x[0], x[1], lambda E: ZERO) for x in two], [bytes_]),
            OW('two_' + n, [B, 'int k'], '%s a(b); { %s c(a); } %s' % (Lt, Lt, vv), two, [bytes_, bytes_]),
            OW('view_' + n, ['void* x', 'int k'], '%s a((%s*)x, 1.0f); o.p[0] = a.getF(); o.p[1] = &a.elem(k)' % (Lt, elt(t)),
               [('storage', 'p0', lambda E: E['x']), ('element', 'p1', lambda E, sz=sz: E['x'] + E['k'] * sz)], []),
            OW('vcopy_' + n, ['void* x', 'int k'], '%s a((%s*)x, 1.0f); %s c(a); o.p[0] = c.getF(); o.p[1] = a.getF()' % (Lt, elt(t), Lt),
               [('storage', 'p1', lambda E: E['x'])], [bytes_], guard=lambda E: TRUE),
            OW('conv_' + n, ['const %s& b' % t.w(word='d' if t.word == 'f' else 'f').lat()], '%s a(b); o.p[0] = a.getF()' % Lt, [], [bytes_]),
            OW('scal_' + n, ['const %s& b' % t.lat().replace('OLattice', 'OScalar')], '%s a(b); o.p[0] = a.getF()' % Lt, [], [bytes_]),
            OW('ret_' + n, [B, 'int k'], 'struct F { static %s f(const %s& b) { %s r; r = b; return r; } }; %s a(F::f(b)); %s' % (Lt, Lt, Lt, Lt, vv), two, [bytes_]),
            OW('dtor_' + n, ['%s& a' % Lt], 'a.~OLattice()', [], [], releases=lambda E, n=n: [(E('fld_' + n, 'a'), None)]),
        ]
        E_ = 'OSubLattice<%s>' % elt(t)
        ns = lambda E, s='s': E('n', s)
        sb = lambda E, sz=sz: E('n', 's') * sz
        sb2 = lambda E, sz=sz: E('n', 'r') * sz
        SV = [(x[0], x[1], lambda E, x=x, t=t, n=n, FT=FT: mk('ld', E('el_' + n, 'b', E('tab', 's', E['k'])) + C(t.size() - FT if x[1][1] == '1' else 0), FT)) for x in two]
        gs = lambda E: c_lt(E['k'], E('n', 's'))
        sv = word(t, 'x.getF()[k]', 0, False) + '; ' + word(t, 'x.getF()[k]', 1)
        bb = '%s& b' % Lt
        ws += [
            OW('sdef_' + n, [], '%s x; o.v[0] = x.getOwnsMemory()' % E_, [('owner', 'v0', lambda E: ZERO)], []),
            OW('sown_' + n, ['const Subset& s', bb, 'int k'], '%s x(s, b); %s; o.v[0] = x.getOwnsMemory(); o.q[0] = &x.subset() == &s' % (E_, sv),
               SV + [('owner', 'v0', lambda E: ONE), ('subset', 'q0', lambda E: ONE)], [sb], guard=gs),
            OW('sview_' + n, ['const Subset& s', bb], '%s x(b, s); o.v[0] = x.getOwnsMemory(); o.p[0] = x.getF(); o.q[0] = &x.subset() == &s' % E_,
               [('owner', 'v0', lambda E: ZERO), ('storage', 'p0', lambda E, n=n: E('fld_' + n, 'b')), ('subset', 'q0', lambda E: ONE)], []),
            OW('svcopy_' + n, ['const Subset& s', bb], '%s x(b, s); { %s y(x); o.v[0] = y.getOwnsMemory(); o.p[0] = y.getF(); o.q[0] = &y.subset() == &s; }' % (E_, E_),
               [('owner', 'v0', lambda E: ZERO), ('storage', 'p0', lambda E, n=n: E('fld_' + n, 'b')), ('subset', 'q0', lambda E: ONE)], []),
            OW('socopy_' + n, ['const Subset& s', bb, 'int k'], '%s y(s, b); %s x(y); %s; o.v[0] = x.getOwnsMemory(); o.q[0] = &x.subset() == &s' % (E_, E_, sv),
               SV + [('owner', 'v0', lambda E: ONE), ('subset', 'q0', lambda E: ONE)], [sb, sb], guard=gs),
            OW('sset_' + n, ['const Subset& s'], '%s x; x.setSubset(s); o.v[0] = x.getOwnsMemory(); o.q[0] = &x.subset() == &s' % E_,
               [('owner', 'v0', lambda E: ONE), ('subset', 'q0', lambda E: ONE)], [sb]),
            OW('sset2_' + n, ['const Subset& s', 'const Subset& r'], '%s x; x.setSubset(s); x.setSubset(r); o.p[0] = x.getF(); o.v[0] = x.getOwnsMemory(); o.q[0] = &x.subset() == &r' % E_,
               [('owner', 'v0', lambda E: ONE), ('subset', 'q0', lambda E: ONE)], [sb, sb2], final=('p0', sb2)),
            OW('ssetv_' + n, ['const Subset& s', 'const Subset& r', bb], '%s x(b, s); x.setSubset(r)' % E_, [], [], ret=lambda E: FALSE, releases=lambda E: [], guard=lambda E, n=n: bnot(c_eq0(E('fld_' + n, 'b')))),
            OW('sassign_' + n, ['%s& a' % E_, 'const %s& b' % E_], 'const void *p = a.getF(), *q = b.getF(); a = b; o.q[0] = q == b.getF(); o.q[1] = p == a.getF()', [same, ('destination keeps its storage', 'q1', lambda E: ONE)], []),
            OW('sidx_' + n, ['const Subset& s', bb], 'const void* p = b.getF(); b[s] = b; o.q[0] = p == b.getF()', [same], []),
        ]
    return ws


def prelude(ws):
    out = aw.OUT + lat.ACC
    for t in TYPES:
        out += lat.elem_acc(t)
        out += 'extern "C" void* w_acc_fld_%s(%s& x){return (void*)x.getF();}\n' % (t.short(), t.lat())
    return out
