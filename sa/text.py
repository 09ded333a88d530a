"""Text form of objects (P30): what reaches the stream, in order, for every stream class and type of object."""
import re
import aw
import geo
import lat
import lib
import vg
import wit
from sym import *

LIB = r'''
#pragma clang attribute push(__attribute__((always_inline)), apply_to = function)
#include "%s/lib/qdp_io.cc"
#include "%s/lib/qdp_stdio.cc"
#pragma clang attribute pop
using namespace QDP;
extern "C" std::ostream& x_os() __attribute__((const));
extern "C" std::istream& x_is() __attribute__((const));
struct TW_ final : public TextWriter { void flush() {} std::ostream& getOstream() { return x_os(); } };
struct TR_ final : public TextReader { std::istream& getIstream() { return x_is(); } };
''' % (lib.REPO, lib.REPO)
PRE = 'using namespace QDP;\n' + aw.OUT + r'''
template<class T> struct Wd_ { enum { n = 1 }; typedef T W; static T& at(T& a, int) { return a; } };
template<class T> struct Wd_< RScalar<T> > { enum { n = Wd_<T>::n }; typedef typename Wd_<T>::W W; static W& at(RScalar<T>& a, int k) { return Wd_<T>::at(a.elem(), k); } };
template<class T> struct Wd_< RComplex<T> > { enum { n = 2 * Wd_<T>::n }; typedef typename Wd_<T>::W W; static W& at(RComplex<T>& a, int k) { return k < n / 2 ? Wd_<T>::at(a.real(), k) : Wd_<T>::at(a.imag(), k - n / 2); } };
template<class T> struct Wd_< PScalar<T> > { enum { n = Wd_<T>::n }; typedef typename Wd_<T>::W W; static W& at(PScalar<T>& a, int k) { return Wd_<T>::at(a.elem(), k); } };
template<class T> struct Wd_< PSeed<T> > { enum { n = 4 * Wd_<T>::n }; typedef typename Wd_<T>::W W; static W& at(PSeed<T>& a, int k) { return Wd_<T>::at(a.elem(k / Wd_<T>::n), k %% Wd_<T>::n); } };
template<class T, int N> struct Wd_< PColorVector<T, N> > { enum { n = N * Wd_<T>::n }; typedef typename Wd_<T>::W W; static W& at(PColorVector<T, N>& a, int k) { return Wd_<T>::at(a.elem(k / Wd_<T>::n), k %% Wd_<T>::n); } };
template<class T, int N> struct Wd_< PSpinVector<T, N> > { enum { n = N * Wd_<T>::n }; typedef typename Wd_<T>::W W; static W& at(PSpinVector<T, N>& a, int k) { return Wd_<T>::at(a.elem(k / Wd_<T>::n), k %% Wd_<T>::n); } };
template<class T, int N> struct Wd_< PColorMatrix<T, N> > { enum { n = N * N * Wd_<T>::n }; typedef typename Wd_<T>::W W; static W& at(PColorMatrix<T, N>& a, int k) { int q = k / Wd_<T>::n; return Wd_<T>::at(a.elem(q %% N, q / N), k %% Wd_<T>::n); } };
template<class T, int N> struct Wd_< PSpinMatrix<T, N> > { enum { n = N * N * Wd_<T>::n }; typedef typename Wd_<T>::W W; static W& at(PSpinMatrix<T, N>& a, int k) { int q = k / Wd_<T>::n; return Wd_<T>::at(a.elem(q %% N, q / N), k %% Wd_<T>::n); } };
template<class T> struct Wd_< OScalar<T> > { enum { n = Wd_<T>::n }; typedef typename Wd_<T>::W W; static W& at(OScalar<T>& a, int k) { return Wd_<T>::at(a.elem(), k); } };
extern "C" long* w_acc_prec(std::ostream& s) { return (long*)((char*)&(std::ios_base&)s + 8); }
'''.replace('%%', '%')

TYPES = {'Real': (1, 'f'), 'RealD': (1, 'd'), 'Integer': (1, 'i'), 'Complex': (2, 'f'), 'ComplexD': (2, 'd'), 'ColorVectorF': (6, 'f'), 'ColorVectorD': (6, 'd'), 'ColorMatrixF': (18, 'f'), 'ColorMatrixD': (18, 'd'),
         'SpinVectorD': (8, 'd'), 'SpinMatrixD': (32, 'd'), 'FermionD': (24, 'd'), 'Seed': (4, 'i'), 'PropagatorD': (288, 'd')}
BAS = {'f': ('float', 4, 'float'), 'd': ('double', 8, 'double'), 'i': ('int', 4, 'i32'), 'c': ('char', 1, 'i8'), 's': ('short int', 2, 'i16'), 't': ('unsigned short int', 2, 'i16'), 'j': ('unsigned int', 4, 'i32'),
       'l': ('long int', 8, 'i64'), 'm': ('unsigned long int', 8, 'i64'), 'x': ('long long int', 8, 'i64'), 'b': ('bool', 1, 'i8')}
SAME = {'f': 'df', 'd': 'd', 'i': 'ilx', 's': 'silx', 't': 'tjmyilx', 'j': 'jmylx', 'l': 'lx', 'm': 'my', 'x': 'xl', 'b': 'b', 'c': 'c'}   # types that print the same
SPL = re.compile(r'_ZN3QDP(ls|rs)ERNS_10Text(?:Reader|Writer)E(\w|R\w|PKc)$')
OS = {'o': ('std::ostream& z = x_os()', 'stream'), 'u': ('StandardOutputStream z; z.init(&x_os())', 'stream'), 't': ('TW_ z', 'stream')}
IS = {'o': ('std::istream& z = x_is()', 'stream'), 'u': ('StandardInputStream z; z.init(&x_is())', 'stream'), 't': ('TR_ z', 'stream')}

OUTS = [(re.compile(r'_ZNSo9_M_insertI(\w)EERSoT_$'), 1), (re.compile(r'_ZNSolsE(\w)$'), 1), (re.compile(r'_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_([cha])$'), 'c'),
        (re.compile(r'_ZNSo3putEc$'), 'c'), (re.compile(r'_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc$'), 'p'), (re.compile(r'_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l$'), 'n'),
        (re.compile(r'_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_$'), 'e')]
INS = [(re.compile(r'_ZNSi10_M_extractI(\w)EERSiRT_$'), 1), (re.compile(r'_ZNSirsER(\w)$'), 1), (re.compile(r'_ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_RS3_$'), 'c'),
       (re.compile(r'_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE$'), 'S')]


def thook(ev, ins, name, args, g):
    m = SPL.match(name)
    if m:
        ev.log.append(vg.Effect('call', name='out' if m.group(1) == 'ls' else 'in', val={'PKc': 'p'}.get(m.group(2), m.group(2)[-1]), args=args, guard=g, loc=ins.get('l', ''), seq=len(ev.log)))
        return args[0]
    return hook(ev, ins, name, args, g)


def hook(ev, ins, name, args, g):
    if name in ('x_os', 'x_is'):
        return L(mk('stream'))
    if name == '_ZN3QDP6Layout11primaryNodeEv':
        return TRUE
    for pats, kind in ((OUTS, 'out'), (INS, 'in')):
        for p, k in pats:
            m = p.match(name)
            if m:
                ev.log.append(vg.Effect('call', name=kind, val=m.group(1) if k == 1 else k, args=args, guard=g, loc=ins.get('l', ''), seq=len(ev.log)))
                return args[0]
    return geo.geo_hook(ev, ins, name, args, g)


class TX(aw.AW):
    """items: (type letter, address or value(E)); text: separators required between items; prec: digits expected"""

    def __init__(self, name, params, body, kind, items, sep=False, prec=None, fixed=None, stream=None, **kw):
        aw.AW.__init__(self, 'tx_' + name, params, body, [], opts=vg.Opts(call_hook=thook if stream else hook, unroll=16), **kw)
        self.kind, self.items, self.sep, self.prec, self.fixed, self.stream = kind, items, sep, prec, fixed, stream

    def analyse(self, fn):
        nob, out, ev = aw.AW.analyse(self, fn)
        E = self.E
        E.ev = ev
        loc = lat.lastloc2(ev)
        g0 = self.guard(E) if self.guard else TRUE
        evs = [e for e in ev.log if e.kind == 'call' and e.name in ('in', 'out')]
        other = [e for e in ev.log if e.kind == 'call' and e.name not in ('in', 'out') and e.val == 'clobber' and any(x in e.name for x in ('ostream', 'istream', '_ZNSo', '_ZNSi', 'ios'))]
        sure = not other
        seqv, seps = [], []
        if self.kind == 'out' and self.items and self.items[0][0] == 'c':
            return self.character(ev, evs, g0, nob, out, loc, sure)
        for e in evs:
            nob += 1
            if e.ks or geo.decide(band(g0, bnot(e.guard))) is not FALSE:
                return nob, [('undecided', 'transfers in a loop or under a condition', e.loc)], ev
            r = wit.compare(vg.asnum(e.args[0]), E[self.stream] if self.stream else mk('stream'))
            if r:
                out.append((r[0], 'another stream than the one given: %s' % r[1], e.loc))
            if e.name != self.kind:
                out.append(('bad', 'input where output is specified' if self.kind == 'out' else 'output where input is specified', e.loc))
            if e.name == 'out' and e.val in 'pnec' and not (e.val == 'c' and self.items and self.items[0][0] == 'c') and not (self.items and self.items[0][0] == 'S'):
                seps.append((len(seqv), self.text(ev, e), e))
            else:
                seqv.append(e)
        want = self.items
        if len(seqv) != len(want):
            out.append(('bad' if sure else 'undecided', '%d components transferred, specified %d' % (len(seqv), len(want)), seqv[-1].loc if seqv else loc))
        else:
            for i, (e, (t, sp)) in enumerate(zip(seqv, want)):
                x = sp(E)
                nob += 1
                if self.kind == 'in':
                    r = wit.compare(vg.asnum(e.args[1]), x)
                    if r is None and e.val != t:
                        r = ('undecided', 'read as another type')
                elif t == 'S':
                    r = wit.compare(vg.asnum(e.args[1]), x)
                    if e.val == 'n' and r is None:
                        r = wit.compare(vg.asnum(e.args[2]), self.slen(E)) if 'string' in self.params[0] else self.strlen(ev, e, x)
                else:
                    r = wit.compare(vg.asnum(e.args[1]), x)
                    if r is None and e.val not in SAME[t]:
                        r = ('bad', 'passed to the stream as another type (%s for %s)' % (e.val, t))
                if r:
                    out.append((r[0], 'component %d: %s' % (i, r[1]), e.loc))
                if self.prec:
                    nob += 1
                    at = vg.asnum(E('prec', 'zz')) if False else self.pa(E)
                    r = wit.compare(vg.asnum(ev.ld(at, 8, 'i64', TRUE, upto=e.seq)), C(self.prec))
                    if r:
                        out.append((r[0], 'significant digits: %s' % r[1], e.loc))
            if self.kind == 'in' and want and want[0][0] == 'S':
                nob += 1
                out += self.after(ev, E, seqv[0])
            if self.prec:
                nob += 1
                at = self.pa(E)
                r = wit.compare(vg.asnum(ev.ld(at, 8, 'i64', TRUE)), mk('ld', at, 8))
                if r:
                    out.append((r[0], 'the precision of the stream is not restored: %s' % r[1], loc))
            if self.sep:
                for i in range(1, len(want)):
                    nob += 1
                    t = [s for k, s, e in seps if k == i]
                    if not any(s is not None and re.search(r'\s', s) for s in t):
                        out.append(('undecided' if None in t or not sure else 'bad', 'components %d and %d follow each other without white space' % (i - 1, i), seqv[i].loc))
            if self.fixed is not None:
                nob += 1
                got = [[s for k, s, e in seps if k == i] for i in range(len(want) + 1)]
                if any(None in g for g in got):
                    out.append(('undecided', 'text between the components not recognised', loc))
                elif [''.join(g) for g in got] != self.fixed:
                    out.append(('bad' if sure else 'undecided', 'the text around the components is %r, specified %r' % ([''.join(g) for g in got][:4], self.fixed[:4]), loc))
        return nob, lat.dedup(out), ev

    def character(self, ev, evs, g0, nob, out, loc, sure):
        """a single character reaches the stream by put or, when a width is set, by insertion"""
        miss = g0
        for e in evs:
            nob += 2
            miss = band(miss, bnot(e.guard))
            if e.name != 'out' or e.ks or e.val not in ('c', 'n'):
                return nob, [('undecided', 'transfers not recognised', e.loc)], ev
            x = vg.asnum(e.args[1])
            if e.val == 'n':
                r = wit.compare(vg.asnum(e.args[2]), ONE)
                x = vg.asnum(ev.ld(x.v, 1, 'i8', e.guard, upto=e.seq)) if x.c is None else x
            else:
                r = None
            r = r or wit.compare(x, self.E['a'])
            if r:
                out.append((r[0], 'character: %s' % r[1], e.loc))
        nob += 1
        if geo.decide(miss) is not FALSE:
            out.append(('bad' if sure and not evs else 'undecided', 'the character does not reach the stream on every path', loc))
        if any(band(a.guard, b.guard) is not FALSE for i, a in enumerate(evs) for b in evs[:i]):
            out.append(('undecided', 'the character may reach the stream twice', loc))
        return nob, lat.dedup(out), ev

    def after(self, ev, E, rd):
        """what happens to the string once it is read: nothing, or a copy of itself is assigned back"""
        a = E['a']
        on = [e for e in ev.log if e.kind == 'call' and e.seq > rd.seq and e.args and e.name != 'in' and wit.compare(vg.asnum(e.args[0]), a) is None]
        if not on:
            return []
        e = on[0]
        n = mk('ld', a + C(8), 8)
        if len(on) != 1 or e.name != REPL:
            return [('bad' if any('append' in x.name for x in on) and all(x.name.startswith('_ZNSt7__cxx1112basic_string') for x in on) else 'undecided', 'the string read is changed afterwards', e.loc)]
        res = []
        buf = vg.asnum(e.args[3])
        cp = [c for c in ev.log if c.kind == 'copy' and c.seq < e.seq and wit.compare(c.ptr if isinstance(c.ptr, T) else L(c.ptr), buf) is None]
        sl = [c for c in ev.log if c.kind == 'call' and c.name == 'strlen' and wit.compare(vg.asnum(c.args[0]), buf) is None]
        if len(cp) != 1 or len(sl) != 1 or wit.compare(vg.asnum(e.args[4]), sl[0].res if isinstance(sl[0].res, T) else L(sl[0].res)) is not None:
            return [('undecided', 'the string read is replaced by text not recognised', e.loc)]
        for what, g, x in (('start', e.args[1], ZERO), ('replaced characters', e.args[2], n), ('copied text', cp[0].val, mk('ld', a, 8)), ('copied bytes', cp[0].args[0], mk('ld', a + C(8), 4) + C(1))):
            r = wit.compare(vg.asnum(g if isinstance(g, (T, P)) else C(g)), x)
            if r and what == 'copied bytes' and wit.compare(vg.asnum(g), n + C(1)) is None:
                r = None
            if r:
                res.append((r[0], 'the string read is assigned anew: %s: %s' % (what, r[1]), e.loc))
        return res

    def pa(self, E):
        return self.items_prec(E)

    def items_prec(self, E):
        return mk('stream') + C(8) + mk('ld', mk('ld', mk('stream'), 8) - C(24), 8)

    def strlen(self, ev, e, x):
        n = vg.asnum(e.args[2])
        if any(c.kind == 'call' and c.name == 'strlen' and wit.compare(vg.asnum(c.args[0]), x) is None and wit.compare(n, c.res) is None for c in ev.log if getattr(c, 'res', None) is not None):
            return None
        return 'bad' if n.c is None and isinstance(n.v, P) and n.v.isconst() else 'undecided', 'length of the text not recognised'

    def slen(self, E):
        return E('strn', 'a')

    def text(self, ev, e):
        if e.val == 'e':
            return '\n'
        if e.val == 'c':
            v = vg.asnum(e.args[1])
            return chr(v.v.const() & 127) if v.c is None and v.v.isconst() else None
        p = vg.asnum(e.args[1])
        if p.c is not None:
            return None
        n = 64
        if e.val == 'n':
            m = vg.asnum(e.args[2])
            if m.c is not None or not m.v.isconst():
                return None
            n = int(m.v.const())
        s = ''
        for k in range(n):
            c = vg.asnum(ev.ld(p.v + C(k), 1, 'i8', TRUE))
            if c.c is not None or not c.v.isconst():
                return None
            c = int(c.v.const())
            if c == 0 and e.val == 'p':
                break
            s += chr(c & 255)
        return s


def tprelude(ws):
    s = PRE
    for t in TYPES:
        if any(w.name.endswith('_' + t) for w in ws):
            for k in range(TYPES[t][0]):
                s += 'extern "C" void* w_acc_at%d_%s(%s& a) { return &Wd_< %s >::at(a, %d); }\n' % (k, t, t, t, k)
    return s


def prelude(ws):
    return LIB + tprelude(ws) + 'extern "C" const char* w_acc_strp(const std::string& a) { return a.data(); }\nextern "C" long w_acc_strn(const std::string& a) { return a.size(); }\n'


def objects(text=False):
    ws = []
    for t, (n, w) in TYPES.items():
        sz, ty = BAS[w][1:]
        for k in 't' if text else 'ou':
            if k != 't' and ('Matrix' in t or 'Propag' in t):
                continue
            out = [(w, lambda E, i=i, t=t, sz=sz: mk('ld', plain(E('at%d_%s' % (i, t), 'a')), sz)) for i in range(n)]
            inp = [(w, lambda E, i=i, t=t: E('at%d_%s' % (i, t), 'a')) for i in range(n)]
            if text:
                ws.append(TX('out_t_' + t, ['%s& a' % t, 'TextWriter& z'], 'z << a', 'out', out, sep=True, stream='z'))
                ws.append(TX('in_t_' + t, ['%s& a' % t, 'TextReader& z'], 'z >> a', 'in', inp, stream='z'))
                continue
            ws.append(TX('out_%s_%s' % (k, t), ['%s& a' % t], '%s; z << a' % OS[k][0], 'out', out, sep=t == 'Seed', fixed=['( ', ' , ', ' )'] if t.startswith('Complex') else None))
            if t in ('Real', 'RealD', 'Integer', 'Seed'):
                ws.append(TX('in_%s_%s' % (k, t), ['%s& a' % t], '%s; z >> a' % IS[k][0], 'in', inp))
    return ws


def plain(t):
    t = vg.asnum(t)
    return t.v if isinstance(t, T) else t


def primitives():
    ws = []
    for l, (cty, sz, ty) in BAS.items():
        for k, (open_, _) in OS.items():
            if k == 'o':
                continue
            val = (lambda E: mk('ld', E['a'], 1)) if l == 'b' else (lambda E: E['a'])
            pr = {'f': 7, 'd': 15}.get(l) if k == 'u' else None
            ws.append(TX('pout_%s_%s' % (k, l), ['%s a' % (cty if l != 'b' else 'const bool*')], '%s; z << %sa' % (open_, '*' if l == 'b' else ''), 'out', [(l, val)], prec=pr))
            if k == 't':
                ws.append(TX('pwr_%s_%s' % (k, l), ['%s a' % (cty if l != 'b' else 'const bool*')], '%s; z.write(%sa)' % (open_, '*' if l == 'b' else ''), 'out', [(l, val)], prec=pr))
        for k, (open_, _) in IS.items():
            if k == 'o':
                continue
            ws.append(TX('pin_%s_%s' % (k, l), ['%s& a' % cty], '%s; z >> a' % open_, 'in', [(l, lambda E: E['a'])]))
            if k == 't':
                ws.append(TX('prd_%s_%s' % (k, l), ['%s& a' % cty], '%s; z.read(a)' % open_, 'in', [(l, lambda E: E['a'])]))
    for k in 'ut':
        ws.append(TX('pout_%s_str' % k, ['const std::string& a'], '%s; z << a' % OS[k][0], 'out', [('S', lambda E: E('strp', 'a'))]))
        ws.append(TX('pout_%s_cstr' % k, ['const char* a'], '%s; z << a' % OS[k][0], 'out', [('S', lambda E: E['a'])], guard=lambda E: bnot(c_eq0(E['a']))))
    ws.append(TX('pin_u_str', ['std::string& a'], '%s; z >> a' % IS['u'][0], 'in', [('S', lambda E: E['a'])]))
    ws.append(TX('pin_t_str', ['std::string& a'], '%s; z >> a' % IS['t'][0], 'in', [('S', lambda E: E['a'])]))
    return ws


def tobjects():
    return objects(True)


# ------------------------------------------------------------------ files and buffers
RES = ('_ZN3QDP17QDP_isInitializedEv', '_ZNKSt12__basic_fileIcE7is_openEv')
FOPEN = '_ZNSt13basic_filebufIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode'
FCLOSE = '_ZNSt13basic_filebufIcSt11char_traitsIcEE5closeEv'
REPL = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE10_M_replaceEmmPKcm'
ASSIGN = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_assignERKS4_'


def fhook(ev, ins, name, args, g):
    if name == '_ZN3QDP6Layout11primaryNodeEv':
        return TRUE
    if name in RES:
        return L(mk('ans', RES.index(name)))
    if name.startswith('_ZN3QDP14QDP_error_exitE'):
        ev.log.append(vg.Effect('call', name='stop', args=args, guard=g, loc=ins.get('l', ''), seq=len(ev.log)))
        return L(mk('none'))
    return geo.geo_hook(ev, ins, name, args, g)


class FX(aw.AW):
    """one operation on a file or buffer: the calls that reach it, (names, guard, arguments(E) or None)"""

    def __init__(self, name, params, body, want, **kw):
        aw.AW.__init__(self, 'tx_' + name, params, body, [], opts=vg.Opts(call_hook=fhook, unroll=4), **kw)
        self.want = want

    def analyse(self, fn):
        for i in (0, 1):
            RANGE[mk('ans', i).single()] = (0, 1)
        nob, out, ev = aw.AW.analyse(self, fn)
        E = self.E
        loc = lat.lastloc2(ev)
        for what, names, g, args in self.want:
            cs = [e for e in ev.log if e.kind == 'call' and e.name in names]
            some = FALSE
            for e in cs:
                some = bor(some, e.guard)
            nob += 1
            r = wit.compare(vg.asnum(geo.decide(some)), vg.asnum(g))
            if r:
                out.append(('bad' if not cs else r[0], '%s: %s' % (what, 'does not happen' if not cs else 'happens under another condition: ' + r[1]), cs[0].loc if cs else loc))
            if any(band(a.guard, b.guard) is not FALSE for i, a in enumerate(cs) for b in cs[:i]):
                out.append(('undecided', '%s: may happen twice' % what, cs[0].loc))
            if args:
                for e in cs:
                    for k, x in args(E, ev, e):
                        nob += 1
                        r = wit.compare(vg.asnum(e.args[k]), x)
                        if r:
                            out.append((r[0], '%s: argument %d: %s' % (what, k, r[1]), e.loc))
        return nob, lat.dedup(out), ev


def files(kind):
    """kind: Text or Binary"""
    isopen = band(bnot(c_eq0(mk('ans', 0))), bnot(c_eq0(mk('ans', 1))))
    b = 4 if kind == 'Binary' else 0
    ws = []

    def w(name, cls, params, body, want, **kw):
        ws.append(FX('%s_%s' % (name, cls), [cls + '& z'] + params, body, want, **kw))

    def opened(mode):
        return [('the file is opened', (FOPEN,), TRUE, lambda E, ev, e: [(1, E('strp', 's')), (2, mode(E) if callable(mode) else C(mode))])]
    for cls, mode in ((kind + 'FileReader', 8 + b), (kind + 'FileWriter', 48 + b)):
        w('open', cls, ['const std::string& s'], 'z.open(s)', opened(mode), ret=lambda E: isopen)
        w('close', cls, [], 'z.close()', [('the file is closed', (FCLOSE,), isopen, None)])
        w('isopen', cls, [], 'o.v[0] = z.is_open()', [])
        ws[-1].outs.append(('the answer', 'v0', lambda E: [vg.asnum(isopen)]))
        if 'Writer' in cls:
            w('flush', cls, [], 'z.%s::flush()' % cls, [('the file is flushed', ('_ZNSo5flushEv',), isopen, None)])
    if kind == 'Binary':
        cls = 'BinaryFileReaderWriter'
        w('open', cls, ['const std::string& s', 'int m'], 'z.open(s, (std::ios_base::openmode)m)', opened(lambda E: [mk('or', E['m'], C(4)), mk('or', C(4), E['m'])][0]), ret=lambda E: isopen)
        w('close', cls, [], 'z.close()', [('the file is closed', (FCLOSE,), isopen, None)])
        w('flush', cls, [], 'z.%s::flush()' % cls, [('the file is flushed', ('_ZNSo5flushEv',), isopen, None)])
    for cls in ('BufferReader', 'BufferWriter') + (('BufferReaderWriter',) if kind == 'Binary' else ()):
        w('set', kind + cls, ['const std::string& s'], 'z.open(s)',
          [('the text is stored', (REPL,), TRUE, lambda E, ev, e: [(1, ZERO), (3, E('strp', 's')), (4, E('strn', 's'))])])
        for f in ('str', 'strPrimaryNode'):
            w(f, kind + cls, [], 'std::string s = z.%s(); o.p[0] = s.data(); o.q[0] = s.size()' % f, [('the text is returned', (REPL, ASSIGN), TRUE, None)])
    return ws


def fprelude(ws):
    return LIB + 'using namespace QDP;\n' + aw.OUT + 'extern "C" const char* w_acc_strp(const std::string& a) { return a.data(); }\nextern "C" long w_acc_strn(const std::string& a) { return a.size(); }\n'


def tfiles():
    return files('Text')


def bfiles():
    return files('Binary')
