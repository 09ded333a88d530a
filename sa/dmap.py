"""Maps kept on disk (P22): every member function evaluated over an abstract file and an abstract index.

The stream classes and the index are replaced by models written next to the witness (a position, a length, a checksum term
and the sequence of operations; an index that holds the free entries of the past plus those inserted here), so the member
functions of the map are reduced to what they do to file and index."""
import re

import aw
import geo
import lat
import lib
import sym
import vg
import wit
from sym import *

PRE = '//nopch\n' + aw.OUT + r'''
#include <array>
#include <cstdint>
#include <string>
#include <unordered_map>
#include <vector>
typedef std::array<uint64_t, 2> vv_;
typedef std::unordered_map<std::string, vv_> vm_;
typedef std::pair<std::string, vv_> vp_;
typedef std::__detail::_Node_const_iterator<std::pair<const std::string, vv_>, false, true> vci_;
typedef std::__detail::_Node_iterator<std::pair<const std::string, vv_>, false, true> vi_;
typedef std::__detail::_Hash_node<std::pair<const std::string, vv_>, true> hn_;
#define AI __attribute__((always_inline))
namespace std {
template<> vm_::iterator vm_::find(const std::string&);
template<> vm_::const_iterator vm_::find(const std::string&) const;
template<> vm_::iterator vm_::end() noexcept;
template<> vm_::const_iterator vm_::end() const noexcept;
template<> vm_::iterator vm_::begin() noexcept;
template<> vm_::const_iterator vm_::begin() const noexcept;
template<> vm_::size_type vm_::size() const noexcept;
template<> void vm_::clear() noexcept;
template<> template<> std::pair<vm_::iterator, bool> vm_::insert<vp_>(vp_&&);
template<> vci_& vci_::operator++() noexcept;
template<> vi_& vi_::operator++() noexcept;
template<> void std::vector<int>::push_back(const int&);
}
#include <fstream>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <vector>
namespace std { struct nostream_ { operator std::istream&() const; operator std::ostream&() const; operator std::iostream&() const; }; }
#define fstream nostream_
#define ostringstream nostream_
#define istringstream nostream_
#include "qdp.h"
#undef fstream
#undef ostringstream
#undef istringstream
using namespace QDP;

/* the model: the file is a position, a length and the place from which the checksum counts; every operation is an event.
   kinds: 1 value (double), 2 unsigned, 3 described string, 4 pair of words, 9 anything else */
extern "C" void ev_push(int k);
struct File_ { long pos, len, from, opens, closes; };
struct Node_ { void* next; const char* key; size_t klen; char sso[16]; uint64_t v0, v1; };
extern File_ F_;
extern int keyin_;
extern const char* bufin_;
extern "C" {
void ev_seek(long pos); void ev_open(const char* name, long mode); void ev_close(); void ev_flush(); void ev_clear(); void ev_ins(long key, unsigned long n, long a, long b);
void ev_wd(long pos, double x); void ev_wu(long pos, unsigned x); void ev_ws(long pos, const char* s, unsigned long n); void ev_ww(long pos, long a, long b); void ev_wx(long pos, unsigned long n);
void ev_rd(long pos); void ev_ru(long pos); void ev_rs(long pos); void ev_rw(long pos); void ev_rx(long pos, unsigned long n);
double mdl_rdd(long pos); unsigned mdl_rdu(long pos); long mdl_rdw(long pos, int i); const char* mdl_rds(long pos); unsigned long mdl_rdl(long pos);
unsigned mdl_crc(long a, long b);
long mdl_has(const char* key); long mdl_back(const char* key); char* mdl_nodes(); long mdl_count(); const char* mdl_magic(); unsigned long mdl_magiclen();
const char* mdl_ser(int k); unsigned long mdl_serlen(int k); int mdl_deser(const char* s); int mdl_new(const char* name, long mode);
}
AI static inline char* at_(const char* key) { return mdl_nodes() + sizeof(Node_) * (mdl_count() - mdl_back(key)); }
AI static inline std::string mkstr_(const char* p, unsigned long n) { std::string s; ((const char**)&s)[0] = p; ((unsigned long*)&s)[1] = n; return s; }
AI static inline void setstr_(std::string& s, const char* p, unsigned long n) { ((const char**)&s)[0] = p; ((unsigned long*)&s)[1] = n; }
AI static inline void put_(long n) { F_.pos += n; if (F_.pos > F_.len) F_.len = F_.pos; }
AI static inline void seek_(long p) { F_.pos = F_.from = p; ev_seek(p); }
namespace std {
template<> AI vm_::iterator vm_::find(const std::string& k) { return vm_::iterator((hn_*)(mdl_has(k.data()) ? at_(k.data()) : mdl_nodes() + sizeof(Node_) * mdl_count())); }
template<> AI vm_::const_iterator vm_::find(const std::string& k) const { return vm_::const_iterator((hn_*)(mdl_has(k.data()) ? at_(k.data()) : mdl_nodes() + sizeof(Node_) * mdl_count())); }
template<> AI vm_::iterator vm_::end() noexcept { return vm_::iterator((hn_*)(mdl_nodes() + sizeof(Node_) * mdl_count())); }
template<> AI vm_::const_iterator vm_::end() const noexcept { return vm_::const_iterator((hn_*)(mdl_nodes() + sizeof(Node_) * mdl_count())); }
template<> AI vm_::iterator vm_::begin() noexcept { return vm_::iterator((hn_*)mdl_nodes()); }
template<> AI vm_::const_iterator vm_::begin() const noexcept { return vm_::const_iterator((hn_*)mdl_nodes()); }
template<> AI vm_::size_type vm_::size() const noexcept { return mdl_count(); }
template<> AI void vm_::clear() noexcept { ev_clear(); }
template<> template<> AI std::pair<vm_::iterator, bool> vm_::insert<vp_>(vp_&& p) {
  ev_ins((unsigned char)p.first.data()[0], p.first.size(), p.second[0], p.second[1]); return std::pair<vm_::iterator, bool>(end(), true); }
template<> AI vci_& vci_::operator++() noexcept { this->_M_cur = (hn_*)((char*)this->_M_cur + sizeof(Node_)); return *this; }
template<> AI vi_& vi_::operator++() noexcept { this->_M_cur = (hn_*)((char*)this->_M_cur + sizeof(Node_)); return *this; }
}
namespace std { template<> AI void vector<int>::push_back(const int& k) { ev_push(k); } }
namespace QDPUtil { AI bool big_endian() { return false; } }
namespace QDP {
AI BinaryReaderWriter::pos_type BinaryReaderWriter::currentPosition() { return pos_type((std::streamoff)F_.pos); }
AI void BinaryReaderWriter::seek(pos_type p) { seek_((std::streamoff)p); }
AI void BinaryReaderWriter::seekBegin(off_type p) { seek_(p); }
AI void BinaryReaderWriter::seekRelative(off_type p) { seek_(F_.pos + p); }
AI void BinaryReaderWriter::seekEnd(off_type p) { seek_(F_.len - p); }
AI void BinaryReaderWriter::rewind() { seek_(0); }
AI void BinaryReaderWriter::resetChecksum() { F_.from = F_.pos; }
AI QDPUtil::n_uint32_t BinaryReaderWriter::getChecksum() { return mdl_crc(F_.from, F_.pos); }
AI void BinaryFileReaderWriter::flush() { ev_flush(); }
AI BinaryFileReaderWriter::BinaryFileReaderWriter() { }
AI BinaryFileReaderWriter::~BinaryFileReaderWriter() { }
AI bool BinaryFileReaderWriter::is_open() { return F_.opens > F_.closes; }
AI void BinaryFileReaderWriter::open(const std::string& p, std::ios_base::openmode mode) { ev_open(p.data(), mode); F_.opens = 1; F_.closes = 0; F_.pos = F_.from = 0; if (mode & std::ios_base::trunc) F_.len = 0; }
AI void BinaryFileReaderWriter::close() { F_.closes++; ev_close(); }
AI void write(BinaryWriter&, double x) { ev_wd(F_.pos, x); put_(8); }
AI void write(BinaryWriter&, unsigned x) { ev_wu(F_.pos, x); put_(4); }
AI void writeDesc(BinaryWriter&, const std::string& s) { ev_ws(F_.pos, s.data(), s.size()); put_(4 + s.size()); }
AI void BinaryWriter::writeDesc(const std::string& s) { QDP::writeDesc(*this, s); }
AI void BinaryWriter::writeArray(const char* p, size_t nb, size_t n) { if (nb * n == 16) ev_ww(F_.pos, ((const long*)p)[0], ((const long*)p)[1]); else ev_wx(F_.pos, nb * n); put_(nb * n); }
AI void read(BinaryReader&, double& x) { ev_rd(F_.pos); x = mdl_rdd(F_.pos); F_.pos += 8; }
AI void read(BinaryReader&, unsigned& x) { ev_ru(F_.pos); x = mdl_rdu(F_.pos); F_.pos += 4; }
AI void readDesc(BinaryReader&, std::string& s) { ev_rs(F_.pos); setstr_(s, mdl_rds(F_.pos), mdl_rdl(F_.pos)); F_.pos += 4 + mdl_rdl(F_.pos); }
AI void BinaryReader::readDesc(std::string& s) { QDP::readDesc(*this, s); }
AI void BinaryReader::readArray(char* p, size_t nb, size_t n) { if (nb * n == 16) { ev_rw(F_.pos); ((long*)p)[0] = mdl_rdw(F_.pos, 0); ((long*)p)[1] = mdl_rdw(F_.pos, 1); } else ev_rx(F_.pos, nb * n); F_.pos += nb * n; }
AI BinaryBufferWriter::BinaryBufferWriter() { }
AI BinaryBufferWriter::~BinaryBufferWriter() { }
AI std::string BinaryBufferWriter::str() const { return mkstr_(mdl_ser(keyin_), mdl_serlen(keyin_)); }
AI void write(BinaryWriter&, int k) { keyin_ = k; }
AI BinaryBufferReader::BinaryBufferReader(const std::string& s) { bufin_ = s.data(); }
AI BinaryBufferReader::~BinaryBufferReader() { }
AI void read(BinaryReader&, int& k) { k = mdl_deser(bufin_); }
AI StopWatch::StopWatch() { }
AI StopWatch::~StopWatch() { }
AI void StopWatch::reset() { }
AI void StopWatch::start() { }
AI void StopWatch::stop() { }
AI double StopWatch::getTimeInSeconds() { return 1; }
namespace MapObjDiskEnv { AI std::string getFileMagic() { return mkstr_(mdl_magic(), mdl_magiclen()); } AI bool checkForNewFile(const std::string& f, std::ios_base::openmode m) { return mdl_new(f.data(), m); } }
}
#include "qdp_map_obj_disk.h"
typedef MapObjectDisk<int, double> DM;
extern "C" long w_acc_has(int k) { return mdl_has(mdl_ser(k)); }
extern "C" long w_acc_fpos(int k) { return ((Node_*)at_(mdl_ser(k)))->v0; }
extern "C" long w_acc_serb(int k) { return (unsigned char)mdl_ser(k)[0]; }
extern "C" long w_acc_rdsb(long p) { return (unsigned char)mdl_rds(p)[0]; }
extern "C" long w_acc_serlen(int k) { return mdl_serlen(k); }
extern "C" double w_acc_rdd(long p) { return mdl_rdd(p); }
extern "C" long w_acc_rdu(long p) { return mdl_rdu(p); }
extern "C" long w_acc_rdw(long p) { return mdl_rdw(p, 0); }
extern "C" long w_acc_rdl(long p) { return mdl_rdl(p); }
extern "C" const char* w_acc_rds(long p) { return mdl_rds(p); }
extern "C" long w_acc_crc(long a, long b) { return mdl_crc(a, b); }
extern "C" long w_acc_mlen() { return mdl_magiclen(); }
extern "C" const char* w_acc_magic() { return mdl_magic(); }
extern "C" const char* w_acc_sptr(const std::string& s) { return s.data(); }
extern "C" long w_acc_slen(const std::string& s) { return s.size(); }
extern "C" long w_acc_flen() { return F_.len; }
extern "C" long w_acc_fcur() { return F_.pos; }
extern "C" long w_acc_count() { return mdl_count(); }
extern "C" const char* w_acc_nkey(long i) { return ((Node_*)mdl_nodes())[i].key; }
extern "C" long w_acc_nlen(long i) { return ((Node_*)mdl_nodes())[i].klen; }
extern "C" long w_acc_nv(long i) { return ((Node_*)mdl_nodes())[i].v0; }
extern "C" long w_acc_nw(long i) { return ((Node_*)mdl_nodes())[i].v1; }
extern "C" long w_acc_deser(const char* s) { return mdl_deser(s); }
'''


def prelude(ws):
    return PRE


class Acc(lat.Acc):
    def __init__(self, module, hook):
        lat.Acc.__init__(self, module)
        self.hook = hook

    def get(self, name, *args):
        if name not in self.memo:
            self.memo[name] = vg.Ev(self.m.funcs['w_acc_' + name], vg.Opts(call_hook=self.hook)).run().ret
        return lat.Acc.get(self, name, *args)


class DW(aw.AW):
    """cases(E): [(what, condition on the arguments, expected writes or None, expected other events or None)], under the
    condition that the call reports success (slot v0 is zero) where `ok` is set"""

    def __init__(self, name, params, body, outs=(), cases=None, ok=None, lens=(), rets=None, retc=None, **kw):
        aw.AW.__init__(self, 'dm_' + name, params, body, list(outs), opts=vg.Opts(call_hook=self.hook, unroll=8, frame=(1 << 46, 1 << 47), wrap32=True), ret=retc, **kw)
        self.cases, self.ok, self.lens, self.rets = cases, ok, lens, rets
        self.setup = self.prep

    def prep(self, E):
        E.acc = Acc(E.acc.m, self.hook)
        for s in self.lens:
            RANGE[E('slen', s).single()] = (0, 1 << 30)
        RANGE[E('flen').single()] = (0, 1 << 60)

    def hook(self, ev, ins, name, args, g):
        if name.startswith('ev_'):
            ev.log.append(vg.Effect('call', name=name, args=list(args), guard=g, loc=ins.get('l', '') if ins else '', seq=len(ev.log)))
            return L(ZERO)
        if name.startswith('mdl_') and ins:
            r = apply(lambda *x: mk(name, *x), *[vg.asnum(a) for a in args]) if args else L(mk(name))
            lim = LIM.get(name)
            for l in vg.leaves(r):
                if lim:
                    RANGE[l.single()] = lim
                if ins.get('t') == 'ptr':
                    PTR.add(l.single())
                    RANGE[l.single()] = (1 << 40, 1 << 41)
            return r
        if re.match(r'_ZN3QDP1[0-9]Binary(Reader|Writer)[CD][12]Ev', name):
            return L(ZERO)
        if name in ('bcmp', 'memcmp') and ins:
            return apply(lambda *x: mk('memcmp', *x), *[vg.asnum(a) for a in args])
        if '12basic_string' in name and '9_M_assignERKS4_' in name and ins:
            vals = [bind(vg.asnum(args[1]), lambda x, o=o: ev.ld(x + C(o), 8, 'ptr' if o == 0 else 'i64', g)) for o in (0, 8)]
            for gd, p in vg.cases(vg.asnum(args[0])):
                for o, v in zip((0, 8), vals):
                    ev.log.append(vg.Effect('store', ptr=p + C(o), size=8, val=v, guard=band(g, gd), fty='ptr' if o == 0 else 'i64', loc=ins.get('l', ''), seq=len(ev.log)))
            return L(ZERO)
        if 'StandardOutputStream' in name or name.startswith(('_ZNSo', '_ZStls')):
            return args[0] if args else L(ZERO)
        return None

    def analyse(self, fn):
        nob, out, ev = aw.AW.analyse(self, fn)
        g0 = TRUE
        for a in ev.aborts:
            g0 = band(g0, bnot(a[0]))
        if self.guard:
            g0 = band(g0, self.guard(self.E))
        if self.ok:
            base, sz, ty = aw.SLOT[self.ok[0]]
            g0 = band(g0, zero(vg.asnum(ev.ld(mk('arg', 0) + C(base + sz * int(self.ok[1:])), sz, ty, g0))))
        if not any('DM&' in p for p in self.params):        # the history begins with a new map: its state is known
            given = self.guard(self.E) if self.guard else TRUE
            for c, what, where in ev.aborts:
                q = geo.decide(band(given, c))
                nob += 1
                if q is not FALSE and (what.startswith('__cxa') or not any(mentions(q, nm) for nm in ('mdl_crc', 'memcmp', 'mdl_rdl', 'rec', 'recphi'))):
                    out.append(('bad' if {ATOMS[a][0] for a in sym._tall(q)} <= {'arg', 'ld', 'mdl_has', 'mdl_count', 'mdl_new'} else 'undecided', 'the program stops (%s) although nothing is wrong with the file' % what, where))
        if self.rets:                                       # the condition under which the call returns
            got, g1 = TRUE, self.guard(self.E) if self.guard else TRUE
            for a in ev.aborts:
                if a[1].startswith('__cxa'):                # state that no sequence of calls leads to
                    g1 = band(g1, bnot(a[0]))
                else:
                    got = band(got, bnot(a[0]))
            nob += 1
            want = self.rets(self.E, ev)
            r = None
            for x in want or ():
                q = wit.compare(geo.decide(restrict(got, g1)), geo.decide(restrict(x, g1)), lat.facts_of(g1))
                r = r or q
                if q is None:
                    r = None
                    break
            if r is not None and r[0] != 'bad':
                for nm, text in (('memcmp', 'the text the file begins with is not looked at'), ('mdl_crc', 'no checksum is looked at')):
                    if not mentions(got, nm):
                        r = ('bad', text) if nm == 'mdl_crc' or any(mentions(x, nm) for x in want) else r
            if r is not None or want is None:
                r = r or ('undecided', 'reads not recognised')
                out.append((r[0], 'returns (rather than stopping the program) under the wrong condition: %s' % r[1], ev.aborts[0][2] if ev.aborts else lat.lastloc2(ev)))
        for what, cond, groups, *vals in self.cases(self.E) if self.cases else ():
            g = geo.decide(band(g0, cond))
            if g is FALSE:
                nob += 1
                out.append(('undecided', '%s: never happens' % what, lat.lastloc2(ev)))
                continue
            for slot, name, x in vals[0] if vals else ():
                base, sz, ty = aw.SLOT[slot[0]]
                nob += 1
                r = wit.compare(geo.decide(restrict(vg.asnum(ev.ld(mk('arg', 0) + C(base + sz * int(slot[1:])), sz, ty, g)), g)), restrict(x if isinstance(x, T) else L(x), g), lat.facts_of(g))
                if r is not None:
                    out.append((r[0], '%s: %s: %s' % (what, name, r[1]), lat.lastloc2(ev)))
            for pick, want in groups:
                n, r = match(ev, g, pick, want, what)
                nob += n
                out += r
        return nob, lat.dedup(out), ev


LIM = {'mdl_back': (1, 1 << 32), 'mdl_count': (0, 1 << 31), 'mdl_has': (0, 1), 'mdl_magiclen': (1, 1 << 20), 'mdl_serlen': (0, 1 << 30), 'mdl_new': (0, 1),
       'mdl_rdl': (0, 1 << 30), 'mdl_rdu': (0, (1 << 32) - 1), 'mdl_crc': (0, (1 << 32) - 1)}
WRITES = ('ev_wd', 'ev_wu', 'ev_ws', 'ev_ww', 'ev_wx')
READS = ('ev_rd', 'ev_ru', 'ev_rs', 'ev_rw', 'ev_rx')
INDEX = ('ev_ins', 'ev_clear')
FILES = ('ev_open', 'ev_close')
NAME = {'ev_wd': 'a value', 'ev_wu': 'a number', 'ev_ws': 'a string', 'ev_ww': 'a file position', 'ev_wx': 'raw bytes', 'ev_ins': 'an index entry', 'ev_clear': 'an emptied index',
        'ev_push': 'a key', 'ev_open': 'an opened file', 'ev_close': 'a closed file'}


def mentions(t, name):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, T):
            todo += [x.v] if x.c is None else [x.hi, x.lo, CONDS[x.c]]
        elif isinstance(x, P):
            todo += [a for m in x.d for a, _ in m]
        elif isinstance(x, (tuple, list)):
            todo += list(x)
        elif isinstance(x, int) and 0 <= x < len(ATOMS) and x not in seen:
            seen.add(x)
            if ATOMS[x][0] == name:
                return True
            todo += [y for y in ATOMS[x][1:] if isinstance(y, (T, P, tuple, list))]
    return False


def zero(t):
    return c_eq0(t.v) if t.c is None else ite(var(t.c), zero(t.hi), zero(t.lo))


class Ev:
    """an expected event; args(ks, got, ev) yields the expected arguments (None: not compared; a pair: under a condition); loop: the specified count"""

    def __init__(self, name, args, loop=None):
        self.name, self.args, self.loop = name, args, loop


def within(a, b):
    it = iter(b)
    return all(x in it for x in a)


def clean(ev):
    """nothing is done to the index but through the functions modelled"""
    return not any(re.search(r'(hashtable|unordered_map)\.h:[0-9]+:(operator=|swap|_M_move_assign|_M_assign|erase|extract|merge|emplace|_M_erase|_M_insert|_M_emplace)', e.loc or '') for e in ev.log)


def match(ev, g, pick, want, what):
    evs = [e for e in ev.log if e.kind == 'call' and e.name in pick and geo.decide(band(e.guard, g)) is not FALSE]
    if pick is INDEX:                                   # emptying an index that is empty, or not used again, makes no difference
        while evs and evs[0].name == 'ev_clear':
            del evs[0]
        while evs and evs[-1].name == 'ev_clear':
            del evs[-1]
    if pick is FILES:                                   # closing a closed file makes no difference
        evs = [e for i, e in enumerate(evs) if not (i and e.name == evs[i - 1].name == 'ev_close')]
    got = [(e.name, len(e.ks)) for e in evs]
    exp = [(w.name, 1 if w.loop else 0) for w in want]
    if got != exp:
        plain = not any(k for n, k in got) and not any(k for n, k in exp) and 'ev_wx' not in [n for n, k in got] and all(band(g, bnot(e.guard)) is FALSE for e in evs)
        plain = plain or ('ev_wx' not in [n for n, k in got] and (pick is not INDEX or clean(ev)) and len(got) < len(exp) and within(got, exp))
        if not plain and len(got) == len(exp):          # one access of a fixed size other than the specified one, all others as specified
            odd = [(e, w) for e, w in zip(evs, want) if e.name != w.name]
            plain = len(odd) == 1 and odd[0][0].name in ('ev_wx', 'ev_rx') and not odd[0][1].loop and not odd[0][0].ks and \
                vg.asnum(odd[0][0].args[1]).c is None and vg.asnum(odd[0][0].args[1]).v.isconst() and band(g, bnot(odd[0][0].guard)) is FALSE
        return 1, [('bad' if plain else 'undecided', '%s: leaves %s where %s is specified' % (
            what, ', '.join(NAME.get(n, n) for n, k in got) or 'nothing', ', '.join(NAME.get(n, n) for n, k in exp) or 'nothing'), evs[0].loc if evs else lat.lastloc2(ev))]
    out, n = [], 0
    for i, (e, w) in enumerate(zip(evs, want)):
        ks = [A(k) for k, _ in e.ks]
        miss = geo.decide(band(g, bnot(e.guard)))
        n += 1
        if w.loop:
            N = e.ks[0][1]
            r = counts(N, e.guard, g, ks[0], w.loop)
            if r is not None:
                out.append((r[0], '%s: the loop over %s: %s' % (what, NAME.get(e.name, e.name), r[1]), e.loc))
            ge = band(g, e.guard)
        else:
            if miss is not FALSE:
                r = wit.compare(miss, FALSE, lat.facts_of(g))
                if r is not None:
                    out.append((r[0], '%s: %s is not written on every path' % (what, NAME.get(e.name, e.name)), e.loc))
            ge = g
        args = [restrict(vg.asnum(a), ge) for a in e.args]
        for j, (a, x) in enumerate(zip(args, w.args(ks, [plainp(a) for a in args], ev))):
            if x is None:
                continue
            n += 1
            gx = ge
            if x == '?':
                out.append(('undecided', '%s: %s not recognised' % (what, NAME.get(e.name, e.name)), e.loc))
                break
            if isinstance(x, tuple):
                gx, x = band(ge, x[0]), x[1]
            x = x if isinstance(x, T) else L(x)
            r = wit.compare(geo.decide(restrict(a, gx)), restrict(x, gx), lat.facts_of(gx))
            if r is not None:
                out.append((r[0], '%s: %s, %s: %s' % (what, NAME.get(e.name, e.name), ('place' if e.name in WRITES else 'part 1', 'content', 'content', 'part 4')[j], r[1]), e.loc))
    return n, out


def plainp(t):
    return t.v if t.c is None and isinstance(t.v, P) else None


def counts(N, guard, g, k, want):
    """the iterations k < N under which the guard holds are those with k < want; counts known to be equal or one larger"""
    n = plainp(restrict(vg.asnum(N), g))
    if n is None:
        return 'undecided', 'number of iterations not recognised'
    d = n - want
    if not d.d:
        for v in (ZERO, want - 1):
            if band(g, band(subst_t(guard, {k.single(): v}), bnot(c_eq0(want)))) is FALSE:
                return 'bad', 'the %s entry is left out' % ('first' if v is ZERO else 'last')
        return None if geo.decide(band(band(g, bnot(guard)), bnot(c_eq0(want)))) is FALSE else ('undecided', 'some iterations are left out')
    if d.isconst() and d.const() == 1:
        for v in (ZERO, want - 1):
            if geo.decide(band(band(g, subst_t(guard, {k.single(): v})), bnot(c_eq0(want)))) is FALSE:
                return 'bad', 'the %s entry is left out' % ('first' if v is ZERO else 'last')
        last = subst_t(guard, {k.single(): want})
        return None if band(g, last) is FALSE and band(band(g, bnot(guard)), bnot(c_eq0(want - k))) is FALSE else ('bad', 'one iteration too many') if band(g, bnot(last)) is FALSE else ('undecided', 'iterations not recognised')
    return ('bad', 'runs a number of times other than the number of entries') if d.isconst() else ('undecided', 'number of iterations differs')


def writes(*w):
    return (WRITES, list(w))


def V(name, *args):
    return Ev(name, lambda ks, got, ev: args)


SHUT = V('ev_close')
OPENED = V('ev_open')
ONCE = (FILES, [OPENED, SHUT])


def insert_cases(E):
    found = bnot(c_eq0(E('has', 'k')))
    p, n = E('fpos', 'k'), E('flen')

    def at(q):
        return writes(V('ev_wd', q, E['x']), V('ev_wu', q + C(8), E('crc', q, q + C(8))))
    return [('new key', bnot(found), [at(n), (INDEX, [V('ev_ins', E('serb', 'k'), E('serlen', 'k'), n, ZERO)])]),
            ('known key', found, [at(p), (INDEX, [])])]


def map_at(E, n, link):
    """the index written at n, then the link to it"""
    return [V('ev_wu', n, E('count')),
            Ev('ev_ws', lambda ks, got, ev: (None, E('nkey', ks[0]), E('nlen', ks[0])), E('count')),
            Ev('ev_ww', lambda ks, got, ev: (None, E('nv', ks[0]), E('nw', ks[0])), E('count')),
            Ev('ev_wu', lambda ks, got, ev: (None, None if got[0] is None else E('crc', n, got[0]))),
            V('ev_ww', link, n, ZERO)]


def new_cases(E, rec=False, keys=False, shut=True):
    m, u = E('mlen'), E('slen', 'u')
    link = C(12) + m + u
    at = link + C(16)
    head = [V('ev_ws', ZERO, E('magic'), m), V('ev_wu', C(4) + m, C(1)), V('ev_ws', C(8) + m, E('sptr', 'u'), u), V('ev_ww', link, None, None)]
    if keys:
        return [('new file', TRUE, [(('ev_push',), [Ev('ev_push', lambda ks, got, ev: (E('deser', E('nkey', ks[0])),), E('count'))])])]
    if not rec:
        return [('new file', TRUE, [writes(*head, *map_at(E, at, link)), (INDEX, []), ONCE])]
    return [('new file with a record', c_eq0(E('has', 'k')),
             [writes(*head, V('ev_wd', at, E['x']), V('ev_wu', at + C(8), E('crc', at, at + C(8))), *map_at(E, at + C(12), link)),
              (INDEX, [V('ev_ins', E('serb', 'k'), E('serlen', 'k'), at, ZERO)])] + ([ONCE] if shut else []))]


def more_cases(E):
    """a record added to an existing file: at its end, followed by the index and the link in the header"""
    n = E('flen')
    link = C(12) + E('rdl', 0) + E('rdl', C(8) + E('rdl', 0))
    return [('existing file, new key', c_eq0(E('has', 'k')),
             [writes(V('ev_wd', n, E['x']), V('ev_wu', n + C(8), E('crc', n, n + C(8))), *map_at(E, n + C(12), link)), ONCE])]


def get_returns(E, ev):
    """stops the program exactly when a stored checksum differs from that of the record read"""
    p = E('fpos', 'k')
    rd = [e for e in ev.log if e.kind == 'call' and e.name == 'ev_ru']
    if len(rd) != 1:
        return None
    return [bor(bnot(rd[0].guard), c_eq0(E('rdu', p + C(8)) - E('crc', p, p + C(8))))]


def old_returns(E, ev):
    rd = [e for e in ev.log if e.kind == 'call' and e.name == 'ev_ru']
    md = E('rdw', C(12) + E('rdl', 0) + E('rdl', C(8) + E('rdl', 0)))
    if not rd:
        return None
    sums = zero(apply(lambda p: mk('mdl_rdu', p) - mk('mdl_crc', md, p), restrict(vg.asnum(rd[-1].args[0]), rd[-1].guard)))
    return [band(band(c_eq0(E('rdl', 0) - E('mlen')), c_eq0(x)), sums)
            for a, b in ((E('rds', 0), E('magic')), (E('magic'), E('rds', 0))) for n in (E('rdl', 0), E('mlen')) for x in (mk('memcmp', a, b, n),)]


def old_cases(E, twice=False):
    m = E('rdl', 0)
    link = C(12) + m + E('rdl', C(8) + m)
    md = E('rdw', link)

    def entry(ks, got, ev):
        """key string and position of one record: the string read in the same iteration and the words that follow it"""
        rd = [x for x in ev.log if x.kind == 'call' and x.name == 'ev_rs' and [A(k) for k, _ in x.ks] == ks]
        p = plainp(vg.asnum(rd[0].args[0])) if len(rd) == 1 else None
        if p is None:
            return '????'
        n = E('rdl', p)
        short = band(c_le0(n - C(15)), c_le0(C(2) - n))             # the text of short strings lies within the object
        return (short, E('rdsb', p)), (short, n), mk('mdl_rdw', p + C(4) + n, ZERO), mk('mdl_rdw', p + C(4) + n, C(1))
    e = Ev('ev_ins', entry, E('rdu', md))
    return [('existing file', TRUE, [writes(), (INDEX, [e, V('ev_clear'), e] if twice else [e]), (FILES, [OPENED, SHUT] * (2 if twice else 1))])]


def all_():
    R = 'std::ios_base::in|std::ios_base::out'
    new = lambda E, mode: bnot(c_eq0(mk('mdl_new', E('sptr', 'f'), C(mode))))
    T = R + '|std::ios_base::trunc'
    return [DW('insert', ['DM& m', 'int k', 'double x'], 'o.v[0] = m.DM::insert(k, x)', cases=insert_cases, ok='v0'),
            DW('get', ['const DM& m', 'int k'], 'double x = 0; std::string s; o.v[1] = m.DM::getUserdata(s); o.v[0] = m.DM::get(k, x); o.d[0] = x', rets=get_returns, ok='v1',
               cases=lambda E: [('known key', bnot(c_eq0(E('has', 'k'))), [writes(), (INDEX, [])], [('d0', 'the value', E('rdd', E('fpos', 'k'))), ('v0', 'the status', ZERO)]),
                                ('unknown key', c_eq0(E('has', 'k')), [writes(), (INDEX, [])], [('v0', 'the status', C(1))])]),
            DW('exist', ['const DM& m', 'int k'], 'o.v[0] = m.DM::exist(k); o.v[1] = m.DM::size()', cases=lambda E: [
                ('known key', bnot(c_eq0(E('has', 'k'))), [writes(), (INDEX, [])], [('v0', 'the answer', C(1)), ('v1', 'the number of elements', E('count'))]),
                ('unknown key', c_eq0(E('has', 'k')), [writes(), (INDEX, [])], [('v0', 'the answer', ZERO), ('v1', 'the number of elements', E('count'))])]),
            DW('unopened', ['int k'], 'DM m; double x; o.v[0] = m.DM::insert(k, 2.0); o.v[1] = m.DM::get(k, x); m.DM::flush(); m.DM::close()',
               cases=lambda E: [('no file', TRUE, [writes(), (INDEX, []), (('ev_open', 'ev_close'), [])], [('v0', 'the status of insert', C(1)), ('v1', 'the status of get', C(1))])]),
            DW('new', ['const std::string& f', 'const std::string& u'], 'DM m; m.insertUserdata(u); m.DM::open(f, %s); m.DM::close()' % T,
               guard=lambda E: new(E, 56), cases=new_cases, lens=('u',)),
            DW('newrec', ['const std::string& f', 'const std::string& u', 'int k', 'double x'], 'DM m; m.insertUserdata(u); m.DM::open(f, %s); m.DM::insert(k, x); m.DM::close()' % T,
               guard=lambda E: new(E, 56), cases=lambda E: new_cases(E, True), lens=('u',)),
            DW('newgone', ['const std::string& f', 'const std::string& u', 'int k', 'double x'], 'DM m; m.insertUserdata(u); m.DM::open(f, %s); m.DM::insert(k, x)' % T,
               guard=lambda E: new(E, 56), cases=lambda E: new_cases(E, True, shut=False), lens=('u',)),
            DW('newflush', ['const std::string& f', 'const std::string& u', 'int k', 'double x'], 'DM m; m.insertUserdata(u); m.DM::open(f, %s); m.DM::insert(k, x); m.DM::flush(); m.DM::close()' % T,
               guard=lambda E: new(E, 56), cases=lambda E: new_cases(E, True), lens=('u',)),
            DW('newget', ['const std::string& f', 'const std::string& u', 'int k', 'double x', 'int l'],
               'DM m; m.insertUserdata(u); m.DM::open(f, %s); m.DM::insert(k, x); double y; m.DM::get(l, y); m.DM::close()' % T,
               guard=lambda E: band(new(E, 56), bnot(c_eq0(E('has', 'l')))), cases=lambda E: new_cases(E, True), lens=('u',)),
            DW('newkeys', ['const std::string& f', 'const std::string& u', 'std::vector<int>& k'], 'DM m; m.insertUserdata(u); m.DM::open(f, %s); m.DM::keys(k); m.DM::close()' % T,
               guard=lambda E: new(E, 56), cases=lambda E: new_cases(E, keys=True), lens=('u',)),
            DW('old', ['const std::string& f'], 'DM m; m.DM::open(f, %s); m.DM::close()' % R, guard=lambda E: bnot(new(E, 24)), cases=old_cases, rets=old_returns),
            DW('readonly', ['const std::string& f'], 'DM m; m.DM::open(f, std::ios_base::in); m.DM::close()', guard=lambda E: bnot(new(E, 8)), cases=old_cases, rets=old_returns),
            DW('olduser', ['const std::string& f'], 'DM m; m.DM::open(f, %s); std::string s; o.v[0] = m.DM::getUserdata(s); o.p[0] = s.data(); o.q[0] = s.size(); m.DM::close()' % R, guard=lambda E: bnot(new(E, 24)),
               cases=lambda E: [('existing file', TRUE, [writes()], [('v0', 'the status', ZERO), ('p0', 'the user data', E('rds', C(8) + E('rdl', 0))), ('q0', 'the length of the user data', E('rdl', C(8) + E('rdl', 0)))])]),
            DW('oldrec', ['const std::string& f', 'int k', 'double x'], 'DM m; m.DM::open(f, %s); m.DM::insert(k, x); m.DM::close()' % R, guard=lambda E: bnot(new(E, 24)), cases=more_cases),
            DW('oldget', ['const std::string& f', 'int k', 'double x'], 'DM m; m.DM::open(f, %s); m.DM::insert(k, x); m.DM::flush(); m.DM::insert(k, x); m.DM::close()' % R, guard=lambda E: bnot(new(E, 24)),
               cases=lambda E: [('existing file, known key', bnot(c_eq0(E('has', 'k'))), [(('ev_wd',), 2 * [V('ev_wd', E('fpos', 'k'), E['x'])])])]),
            DW('again', ['const std::string& f'], 'DM m; m.DM::open(f, %s); m.DM::close(); m.DM::open(f, %s); m.DM::close()' % (R, R), guard=lambda E: bnot(new(E, 24)), cases=lambda E: old_cases(E, True))]
