"""Maps kept in memory (P23): every operation evaluated over an abstract hash table (same modelling as sa/dmap.py)."""
import aw
import dmap
from dmap import DW, Ev, V, INDEX
from sym import *

PRE = '//nopch\n' + aw.OUT + r'''
#include <string>
namespace std {
struct kstr_ {                        // a string known by the place and length of its text: copies share it
  const char* p_; unsigned long n_;
  kstr_() : p_(""), n_(0) { }
  kstr_(const char* p, unsigned long n) : p_(p), n_(n) { }
  kstr_(const char* p) : p_(p), n_(__builtin_strlen(p)) { }
  kstr_(const std::string& s) : p_(s.data()), n_(s.size()) { }
  operator std::string() const { return std::string(p_, n_); }
  const char* data() const { return p_; }
  const char* c_str() const { return p_; }
  unsigned long size() const { return n_; }
  unsigned long length() const { return n_; }
  bool empty() const { return n_ == 0; }
  const char& operator[](unsigned long i) const { return p_[i]; }
  const char* begin() const { return p_; }
  const char* end() const { return p_ + n_; }
  bool operator==(const kstr_& o) const { return n_ == o.n_ && __builtin_memcmp(p_, o.p_, n_) == 0; }
  bool operator!=(const kstr_& o) const { return !(*this == o); }
};
template<> struct hash<kstr_> { size_t operator()(const kstr_& s) const noexcept { return s.n_; } };
template<> struct __is_fast_hash<hash<kstr_>> : false_type { };
}
#include <unordered_map>
#include <vector>
typedef std::pair<int, double> kv_;
typedef std::unordered_map<std::kstr_, kv_> vm_;
typedef std::pair<std::kstr_, kv_> vp_;
typedef std::__detail::_Node_const_iterator<std::pair<const std::kstr_, kv_>, false, true> vci_;
typedef std::__detail::_Node_iterator<std::pair<const std::kstr_, kv_>, false, true> vi_;
typedef std::__detail::_Hash_node<std::pair<const std::kstr_, kv_>, true> hn_;
#define AI __attribute__((always_inline))
namespace std {
template<> vm_::iterator vm_::find(const std::kstr_&);
template<> vm_::const_iterator vm_::find(const std::kstr_&) const;
template<> vm_::iterator vm_::end() noexcept;
template<> vm_::const_iterator vm_::end() const noexcept;
template<> vm_::iterator vm_::begin() noexcept;
template<> vm_::const_iterator vm_::begin() const noexcept;
template<> vm_::size_type vm_::size() const noexcept;
template<> vm_::size_type vm_::count(const std::kstr_&) const;
template<> void vm_::clear() noexcept;
template<> vm_::iterator vm_::erase(vm_::const_iterator);
template<> vm_::iterator vm_::erase(vm_::iterator);
template<> vm_::size_type vm_::erase(const std::kstr_&);
template<> template<> std::pair<vm_::iterator, bool> vm_::insert<vp_>(vp_&&);
template<> vci_& vci_::operator++() noexcept;
template<> vi_& vi_::operator++() noexcept;
template<> void std::vector<int>::push_back(const int&);
template<> void std::vector<int>::resize(size_t);
template<> void std::vector<int>::clear() noexcept;
template<> void std::vector<double>::push_back(const double&);
template<> void std::vector<double>::resize(size_t);
template<> void std::vector<double>::clear() noexcept;
}
#include "qdp.h"
using namespace QDP;
extern int keyin_;
struct Node_ { void* next; const char* key; size_t klen; int k; double v; size_t hash; };
static_assert(sizeof(Node_) == sizeof(hn_), "");
extern "C" {
void ev_ins(long key, unsigned long n, int k, double v); void ev_clear(); void ev_erase(const void* at); void ev_push(int k); void ev_pushv(double v); void ev_emptied(long n); void ev_emptiedv(long n);
long mdl_has(const char* key); long mdl_back(const char* key); char* mdl_nodes(); long mdl_count();
const char* mdl_ser(int k); unsigned long mdl_serlen(int k);
}
AI static inline char* at_(const char* key) { return mdl_nodes() + sizeof(Node_) * (mdl_count() - mdl_back(key)); }
AI static inline char* end_() { return mdl_nodes() + sizeof(Node_) * mdl_count(); }
AI static inline std::string mkstr_(const char* p, unsigned long n) { std::string s; ((const char**)&s)[0] = p; ((unsigned long*)&s)[1] = n; return s; }
namespace std {
template<> AI vm_::iterator vm_::find(const std::kstr_& k) { return vm_::iterator((hn_*)(mdl_has(k.data()) ? at_(k.data()) : end_())); }
template<> AI vm_::const_iterator vm_::find(const std::kstr_& k) const { return vm_::const_iterator((hn_*)(mdl_has(k.data()) ? at_(k.data()) : end_())); }
template<> AI vm_::size_type vm_::count(const std::kstr_& k) const { return mdl_has(k.data()); }
template<> AI vm_::iterator vm_::end() noexcept { return vm_::iterator((hn_*)end_()); }
template<> AI vm_::const_iterator vm_::end() const noexcept { return vm_::const_iterator((hn_*)end_()); }
template<> AI vm_::iterator vm_::begin() noexcept { return vm_::iterator((hn_*)mdl_nodes()); }
template<> AI vm_::const_iterator vm_::begin() const noexcept { return vm_::const_iterator((hn_*)mdl_nodes()); }
template<> AI vm_::size_type vm_::size() const noexcept { return mdl_count(); }
template<> AI void vm_::clear() noexcept { ev_clear(); }
template<> AI vm_::iterator vm_::erase(vm_::const_iterator i) { ev_erase(i._M_cur); return end(); }
template<> AI vm_::iterator vm_::erase(vm_::iterator i) { ev_erase(i._M_cur); return end(); }
template<> AI vm_::size_type vm_::erase(const std::kstr_& k) { if (!mdl_has(k.data())) return 0; ev_erase(at_(k.data())); return 1; }
template<> template<> AI std::pair<vm_::iterator, bool> vm_::insert<vp_>(vp_&& p) {
  if (mdl_has(p.first.data())) return std::pair<vm_::iterator, bool>(find(p.first), false);
  ev_ins((unsigned char)p.first.data()[0], p.first.size(), p.second.first, p.second.second); return std::pair<vm_::iterator, bool>(end(), true); }
template<> AI vci_& vci_::operator++() noexcept { this->_M_cur = (hn_*)((char*)this->_M_cur + sizeof(Node_)); return *this; }
template<> AI vi_& vi_::operator++() noexcept { this->_M_cur = (hn_*)((char*)this->_M_cur + sizeof(Node_)); return *this; }
template<> AI void vector<int>::push_back(const int& k) { ev_push(k); }
template<> AI void vector<double>::push_back(const double& k) { ev_pushv(k); }
template<> AI void vector<int>::resize(size_t n) { ev_emptied(n); }
template<> AI void vector<double>::resize(size_t n) { ev_emptiedv(n); }
template<> AI void vector<int>::clear() noexcept { ev_emptied(0); }
template<> AI void vector<double>::clear() noexcept { ev_emptiedv(0); }
}
namespace QDP {
AI BinaryBufferWriter::BinaryBufferWriter() { }
AI BinaryBufferWriter::~BinaryBufferWriter() { }
AI std::string BinaryBufferWriter::str() const { return mkstr_(mdl_ser(keyin_), mdl_serlen(keyin_)); }
AI void write(BinaryWriter&, int k) { keyin_ = k; }
}
#define string kstr_
#include "qdp_map_obj_memory.h"
#undef string
#include "qdp_map_obj_null.h"
typedef MapObjectMemory<int, double> MM;
typedef MapObjectNull<int, double> MN;
extern "C" long w_acc_has(int k) { return mdl_has(mdl_ser(k)); }
extern "C" void* w_acc_at(int k) { return at_(mdl_ser(k)); }
extern "C" int w_acc_kk(int k) { return ((Node_*)at_(mdl_ser(k)))->k; }
extern "C" double w_acc_vv(int k) { return ((Node_*)at_(mdl_ser(k)))->v; }
extern "C" void* w_acc_pv(int k) { return &((Node_*)at_(mdl_ser(k)))->v; }
extern "C" long w_acc_serb(int k) { return (unsigned char)mdl_ser(k)[0]; }
extern "C" long w_acc_serlen(int k) { return mdl_serlen(k); }
extern "C" long w_acc_count() { return mdl_count(); }
extern "C" int w_acc_nk(long i) { return ((Node_*)mdl_nodes())[i].k; }
extern "C" double w_acc_nv(long i) { return ((Node_*)mdl_nodes())[i].v; }
extern "C" const char* w_acc_sptr(const std::kstr_& s) { return s.data(); }
extern "C" long w_acc_slen(const std::kstr_& s) { return s.size(); }
'''


def prelude(ws):
    return PRE


CHANGES = ('ev_ins', 'ev_erase', 'ev_clear')


class MW(DW):
    def __init__(self, name, params, body, cases, **kw):
        DW.__init__(self, name, params, body, cases=cases, **kw)
        self.name = 'w_mm_' + name

    def prep(self, E):
        E.acc = dmap.Acc(E.acc.m, self.hook)


def all_():
    known = lambda E: bnot(c_eq0(E('has', 'k')))
    new = lambda E: c_eq0(E('has', 'k'))
    none = [(CHANGES, [])]
    add = lambda E: [(CHANGES, [V('ev_ins', E('serb', 'k'), E('serlen', 'k'), E['k'], E['x'])])]
    put = lambda E: [('new key', new(E), add(E), [('v0', 'the status', ZERO)]), ('known key', known(E), none, [('v0', 'the status', ZERO), ('d0', 'the value', E['x'])])]
    after = '; o.v[1] = ((Node_*)at_(mdl_ser(k)))->k; o.d[0] = ((Node_*)at_(mdl_ser(k)))->v'
    loop = lambda ev, f, n='count': Ev(ev, lambda ks, got, e: f(ks[0]), n)
    ws = [MW('insert', ['MM& m', 'int k', 'double x'], 'o.v[0] = m.MM::insert(k, x)' + after, put),
          MW('insertp', ['MM& m', 'int k', 'double x'], 'o.v[0] = m.MM::insert(std::make_pair(k, x))' + after, put),
          MW('get', ['const MM& m', 'int k', 'double x'], 'o.v[0] = m.MM::get(k, x); o.d[0] = x',
             lambda E: [('known key', known(E), none, [('v0', 'the status', ZERO), ('d0', 'the value', E('vv', 'k'))]), ('unknown key', new(E), none, [('v0', 'the status', ONE), ('d0', 'the value of the caller', E['x'])])]),
          MW('exist', ['const MM& m', 'int k'], 'o.v[0] = m.MM::exist(k); o.v[1] = m.MM::size()',
             lambda E: [('known key', known(E), none, [('v0', 'the answer', ONE), ('v1', 'the number of elements', E('count'))]), ('unknown key', new(E), none, [('v0', 'the answer', ZERO)])]),
          MW('erase', ['MM& m', 'int k'], 'm.MM::erase(k)',
             lambda E: [('known key', known(E), [(CHANGES, [V('ev_erase', E('at', 'k'))])]), ('unknown key', new(E), none)]),
          MW('clear', ['MM& m'], 'm.MM::clear()', lambda E: [('any map', TRUE, [(CHANGES, [V('ev_clear')])])]),
          MW('flush', ['MM& m'], 'm.MM::flush()', lambda E: [('any map', TRUE, none)]),
          MW('keys', ['const MM& m', 'std::vector<int>& v'], 'm.MM::keys(v)',
             lambda E: [('any map', TRUE, none + [(('ev_emptied', 'ev_push'), [V('ev_emptied', ZERO), Ev('ev_push', lambda ks, got, e: (E('nk', ks[0]),), E('count'))])])]),
          MW('keysvals', ['const MM& m', 'std::vector<int>& v', 'std::vector<double>& x'], 'm.MM::keysAndValues(v, x)',
             lambda E: [('any map', TRUE, none + [(('ev_emptied', 'ev_push'), [V('ev_emptied', ZERO), Ev('ev_push', lambda ks, got, e: (E('nk', ks[0]),), E('count'))]),
                                                  (('ev_emptiedv', 'ev_pushv'), [V('ev_emptiedv', ZERO), Ev('ev_pushv', lambda ks, got, e: (E('nv', ks[0]),), E('count'))])])]),
          MW('index', ['const MM& m', 'int k'], 'o.d[0] = m[k]', lambda E: [('known key', known(E), none, [('d0', 'the value', E('vv', 'k'))])], retc=known),
          MW('ref', ['MM& m', 'int k'], 'o.p[0] = &m[k]', lambda E: [('known key', known(E), none, [('p0', 'the place of the value', E('pv', 'k'))])], retc=known),
          MW('iter', ['const MM& m', 'std::vector<int>& v', 'std::vector<double>& x'], 'for (MM::const_iterator i = m.MM::begin(); i != m.MM::end(); ++i) { ev_push(i->first); ev_pushv((*i).second); }',
             lambda E: [('any map', TRUE, none + [(('ev_push',), [Ev('ev_push', lambda ks, got, e: (E('nk', ks[0]),), E('count'))]), (('ev_pushv',), [Ev('ev_pushv', lambda ks, got, e: (E('nv', ks[0]),), E('count'))])])]),
          MW('user', ['MM& m', 'const std::kstr_& u'], 'o.v[0] = m.MM::insertUserdata(u); std::kstr_ s; o.v[1] = m.MM::getUserdata(s); o.p[0] = s.data(); o.q[0] = s.size()',
             lambda E: [('any map', TRUE, none, [('v0', 'the status', ZERO), ('v1', 'the status', ZERO), ('p0', 'the user data', E('sptr', 'u')), ('q0', 'the length of the user data', E('slen', 'u'))])]),
          MW('range', ['MM& m', 'const kv_* a', 'const kv_* b', 'long n'], 'o.v[0] = m.MM::insert(a, a + n)', None)]
    ws[-1:] = [MW('null', ['MN& m', 'int k', 'double x', 'std::vector<int>& v'], 'o.v[0] = m.MN::insert(k, x); o.v[1] = m.MN::get(k, x); o.d[0] = x; o.v[2] = m.MN::exist(k); o.v[3] = m.MN::size(); m.MN::keys(v); m.MN::flush()',
                  lambda E: [('any map', TRUE, [(CHANGES + ('ev_emptied', 'ev_push'), [])],
                              [('v0', 'the status of insert', ONE), ('v1', 'the status of get', ONE), ('d0', 'the value of the caller', E['x']), ('v2', 'the answer of exist', ZERO), ('v3', 'the number of elements', ZERO)])])]
    return ws
