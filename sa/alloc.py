"""The allocator behind lattice fields (P21): aligned blocks inside the storage obtained, recorded and released."""
import aw
import lat
import lib
import vg
import wit
from sym import *

PRE = aw.OUT + r'''
#include <map>
typedef std::map<unsigned char*, unsigned char*> vmap_;
typedef std::pair<unsigned char*, unsigned char*> vpair_;
namespace std {
template<> vmap_::iterator vmap_::find(unsigned char* const&);
template<> vmap_::iterator vmap_::end() noexcept;
template<> vmap_::iterator vmap_::erase(vmap_::iterator);
template<> template<> std::pair<vmap_::iterator, bool> vmap_::insert<vpair_>(vpair_&&);
}
#include "qdp.h"
using namespace QDP;
#pragma clang attribute push(__attribute__((always_inline)), apply_to = function)
#include "%s/lib/qdp_default_allocator.cc"
#pragma clang attribute pop
extern "C" unsigned char* w_acc_second(std::_Rb_tree_node<vmap_::value_type>* x){return vmap_::iterator(x)->second;}
''' % lib.REPO


def prelude(ws):
    return PRE


class QA(aw.AW):
    def __init__(self, name, params, body, what):
        aw.AW.__init__(self, 'own_' + name, params, body, [], opts=vg.Opts(call_hook=self.hook, unroll=8, wrap32=True), ranges={'n': (0, 1 << 46)})
        self.what = what
        self.balance = False

    def hook(self, ev, ins, name, args, g):
        if '_ZNSt3mapIPhS0_' in name and ins:
            val = tuple(A(a) if isinstance(a, P) else a for a in args)
            for k, fn in enumerate(('6insert', '4find', '3end', '5erase')):
                if fn in name:
                    if fn == '6insert':
                        val = tuple(bind(args[1], lambda x: ev.ld(x + C(o), 8, 'ptr', g)) for o in (0, 8))
                    elif fn == '4find':
                        val = (bind(args[1], lambda x: ev.ld(x, 8, 'ptr', g)),)
                    r = mk('map' + fn[1:])
                    ev.log.append(vg.Effect('call', name=fn[1:], args=list(val), guard=g, res=r, loc=ins.get('l', ''), seq=len(ev.log)))
                    return [L(r), L(mk('mapinserted'))] if fn == '6insert' else L(r)
        if 'StandardOutputStream' in name or name.startswith(('_ZNSo', '_ZStls')):
            return args[0] if args else L(ZERO)
        return None

    def analyse(self, fn):
        nob, out, ev = aw.AW.analyse(self, fn)
        g0 = TRUE
        for a in ev.aborts:
            g0 = band(g0, bnot(a[0]))
        calls = {}
        for e in ev.log:
            if e.kind == 'call' and band(e.guard, g0) is not FALSE:
                calls.setdefault('new' if e.name in aw.NEW else 'delete' if e.name in aw.DEL else e.name, []).append(e)
        for cond, text, loc in self.what(self.E, calls, ev, g0):
            nob += 1
            if cond is not True:
                out.append(('undecided' if cond is None else 'bad', text, loc or lat.lastloc2(ev)))
        return nob, lat.dedup(out), ev


def only(calls, k):
    return calls[k][0] if len(calls.get(k, [])) == 1 else None


def plain(v):
    return v if isinstance(v, P) else v.v if v.c is None and isinstance(v.v, P) else None


def allocated(E, calls, ev, g0):
    """allocate(n): one block u; the result r is aligned, u <= r and r + n stays inside; (r, u) is recorded"""
    e, r = only(calls, 'new'), plain(restrict(slot(ev, 'p0', g0), g0))
    if e is None or r is None:
        yield None, 'allocation of the underlying block not recognised', None
        return
    u = plain(e.res) if not isinstance(e.res, P) else e.res
    size = restrict(e.args[0] if isinstance(e.args[0], T) else L(e.args[0]), g0)
    if u is None:
        yield None, 'underlying block not recognised', e.loc
        return
    f = lat.facts_of(g0)
    yield within(E, u, r, size, f), 'the block handed out does not lie inside the block obtained', e.loc
    yield aligned(E, u, r, 16), 'the block handed out is not aligned to QDP_ALIGNMENT_SIZE', e.loc
    i = only(calls, 'insert')
    if i is None:
        yield (False if not calls.get('insert') and not set(calls) - {'new', 'delete', 'insert', 'find', 'end', 'erase'} else None), 'the block handed out is not recorded', None
        return
    k, v = (plain(restrict(x, g0)) for x in i.args)
    if k is None or v is None:
        yield None, 'record not recognised', i.loc
        return
    yield not (k - r).d, 'recorded under an address other than the one handed out', i.loc
    yield not (v - u).d, 'the recorded block is not the one obtained', i.loc


def freed(E, calls, ev, g0):
    """free(p): the record of p is found, dropped, and the block it names is released"""
    find, end = only(calls, 'find'), calls.get('end')
    if find is None:
        yield None, 'look-up of the released address not recognised', None
        return
    k = plain(restrict(find.args[0], g0))
    yield None if k is None else not (k - E['p']).d, 'looks up an address other than the one released', find.loc
    it = find.res
    have = bnot(c_eq0(it - end[0].res)) if end else g0
    got = TRUE
    for a in ev.aborts:
        got = band(got, bnot(a[0]))
    yield wit.compare(got, have, ()) is None or None, 'an address that was never handed out does not stop the program', None
    d = only(calls, 'delete')
    if d is None:
        yield (False if not calls.get('delete') and not ev.aborts[1:] else None), 'the block is not released', None
    else:
        v = plain(restrict(d.args[0] if isinstance(d.args[0], T) else L(d.args[0]), band(g0, d.guard)))
        b = E('second', it)
        yield None if v is None else not (v - b).d, 'releases an address other than the recorded block', d.loc
        yield band(band(g0, bnot(c_eq0(b))), bnot(d.guard)) is FALSE, 'the block is not released on every path', d.loc
    x = only(calls, 'erase')
    if x is None:
        yield (False if not calls.get('erase') else None), 'the record is not dropped', None
    else:
        v = plain(restrict(x.args[1] if isinstance(x.args[1], T) else L(x.args[1]), g0))
        yield None if v is None else not (v - it).d, 'drops another record', x.loc
        yield band(g0, bnot(x.guard)) is FALSE, 'the record is not dropped on every path', x.loc


def slot(ev, s, g):
    base, sz, ty = aw.SLOT[s[0]]
    return ev.ld(mk('arg', 0) + C(base + sz * int(s[1:])), sz, ty, g)


SAMPLE = [(u, n) for u in (4096, 4104, 4112, (1 << 40) + 8) for n in (0, 1, 7, 100, 32768, (1 << 32) + 5)]


def sampled(E, u, ok, *vals):
    """False if the claim fails for some address u of the block obtained and some request n"""
    for a, n in SAMPLE:
        env = {u.single(): C(a), E['n'].single(): C(n)}
        v = [plain(subst_t(x, env)) for x in vals]
        if all(x is not None and x.isconst() for x in v) and not ok(*[x.const() for x in v]):
            return False
    return None


def within(E, u, r, size, f):
    """u <= r and r + n <= u + size"""
    p = plain(size)
    if p is not None and f.sign(u - r) == 'neg0' and f.sign(r + E['n'] - u - p) == 'neg0':
        return True
    return sampled(E, u, lambda a, b: 0 <= a <= b, L(r - u), apply(lambda x: x - E['n'], size))


def aligned(E, u, p, n):
    if all(k % n == 0 for k in p.d.values()):
        return True
    return sampled(E, u, lambda a: a % n == 0, L(p))


def allocator():
    return [QA('alloc', ['Allocator::QDPDefaultAllocator& a', 'size_t n'], 'o.p[0] = a.allocate(n, Allocator::DEFAULT)', allocated),
            QA('free', ['Allocator::QDPDefaultAllocator& a', 'void* p'], 'a.free(p)', freed)]
