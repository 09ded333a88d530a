"""Several disk maps opened together (P33): MapObjectDiskMultiple over an abstract disk map."""
import aw
import geo
import lat
import vg
import wit
from sym import *

PRE = '//nopch\n' + aw.OUT + r'''
#include "qdp.h"
#include <vector>
#include <string>
#include <unordered_map>
#include "qdp_map_obj_disk.h"
extern "C" {
  void db_new(const void*); void db_gone(const void*); void db_open(const void*, const void*, int); void db_close(const void*); void db_flush(const void*);
  int db_get(const void*, const void*, void*); bool db_exist(const void*, const void*); bool db_there(const void*, const void*);
  void db_debug(const void*, int); int db_getdebug(const void*); int db_user(const void*, void*); void db_keys(const void*, void*);
  void db_insert(const void*, const void*, const void*); void db_insertuser(const void*, const void*);
}
namespace QDP {
template<class K, class V> struct ModelDisk
{
  long pad[4];
  ModelDisk() {db_new(this);}
  ~ModelDisk() {db_gone(this);}
  ModelDisk(const ModelDisk&) = delete;
  void operator=(const ModelDisk&) = delete;
  void setDebug(int l) {db_debug(this, l);}
  int getDebug() const {return db_getdebug(this);}
  void open(const std::string& f, std::ios_base::openmode m = std::ios_base::in | std::ios_base::out) {db_open(this, &f, (int)m);}
  bool fileExists(const std::string& f) const {return db_there(this, &f);}
  void close() {db_close(this);}
  int get(const K& k, V& v) const {return db_get(this, &k, &v);}
  int insert(const K& k, const V& v) {db_insert(this, &k, &v); return 0;}
  int insertUserdata(const std::string& s) {db_insertuser(this, &s); return 0;}
  int getUserdata(std::string& s) const {return db_user(this, &s);}
  bool exist(const K& k) const {return db_exist(this, &k);}
  void keys(std::vector<K>& v) const {db_keys(this, &v);}
  void flush() {db_flush(this);}
};
}
#define MapObjectDisk ModelDisk
#include "qdp_map_obj_disk_multiple.h"
#undef MapObjectDisk
using namespace QDP;
struct Files_ { const std::string *b, *e, *c; };
#define FILES(f, n) const Files_ f##_ = {f, f + n, f + n}; const std::vector<std::string>& f##v = *(const std::vector<std::string>*)&f##_
typedef MapObjectDiskMultiple<int,int> Maps_;
'''


def prelude(ws):
    return PRE


STR = 32


class MW(aw.AW):
    """Histories of a fresh object. A disk map is a free table: whether it holds a key, and the value; both may differ from file to file."""
    def __init__(self, name, body, outs, n=2, check=None, params=()):
        aw.AW.__init__(self, 'md_' + name, ['const std::string* f', 'const std::string* h', 'int k', 'std::string& u', 'int l'] + list(params),
                       'FILES(f, %d); FILES(h, %d); ' % (n, n) + body, outs, opts=vg.Opts(call_hook=self.hook, unroll=8), setup=self.begin, balance=True)
        self.n, self.check = n, check

    def begin(self, E):
        self.E0, self.evs, self.files = E, [], {}

    def hook(self, ev, ins, name, args, g):
        if not name.startswith('db_'):
            if 'StandardOutputStream' in name or name.startswith(('_ZNSo', '_ZStls')):
                return args[0] if args else L(ZERO)
            return None
        T_ = lambda a: vg.asnum(a if isinstance(a, T) else L(a))
        a = [T_(x) for x in args]
        d = a[0]
        for gd, nm, l in ev.aborts:
            g = band(g, bnot(gd))
        self.evs.append((name[3:], a, g, ins.get('l', '')))
        if name == 'db_open':               # which file an object stands for
            self.files.setdefault(d, []).append((g, a[1]))
            return L(ZERO)
        if name in ('db_new', 'db_gone', 'db_close', 'db_flush', 'db_debug', 'db_insert', 'db_insertuser', 'db_keys'):
            return L(ZERO)
        if name == 'db_there':
            return apply(lambda y: mk('there', y), a[1])
        if name == 'db_getdebug':
            return self.of(d, lambda y: mk('dbg', y))
        if name == 'db_get':
            key = vg.asnum(ev.ld(a[1].v, 4, 'i32', g)) if a[1].c is None else None
            has = self.of(d, lambda y: mk('has', y, key.v))
            val = self.of(d, lambda y: mk('val', y, key.v))
            found = bind(has, lambda p: bnot(c_eq0(p)))
            old = vg.asnum(ev.ld(a[2].v, 4, 'i32', g))
            ev.log.append(vg.Effect('store', ptr=a[2].v, size=4, val=ite(found, val, old), guard=g, fty='i32', loc=ins.get('l', ''), seq=len(ev.log)))
            return ite(found, L(ZERO), L(C(-1)))
        if name == 'db_exist':
            key = vg.asnum(ev.ld(a[1].v, 4, 'i32', g))
            return bind(self.of(d, lambda y: mk('has', y, key.v)), lambda p: bnot(c_eq0(p)))
        if name == 'db_user':
            return ite(bind(self.of(d, lambda y: mk('hasuser', y)), lambda p: bnot(c_eq0(p))), L(ZERO), L(C(-1)))
        return None

    def of(self, d, f):
        """f of the file last opened through the object d"""
        if d.c is not None:
            return ite(var(d.c), self.of(d.hi, f), self.of(d.lo, f))
        o = self.files.get(d)
        if not o:
            return L(mk('unopened', d.v))
        return apply(f, o[-1][1])

    def count(self, kind, pick, what, want, out, given=TRUE):
        """the number of times (as a condition: once) an event of the kind happens with the arguments picked"""
        tot = FALSE
        loc = ''
        for nm, a, g, l in self.evs:
            if nm == kind and pick(a):
                both = geo.decide(band(tot, g))
                if both is not FALSE:
                    out.append(('bad', what + ': more than once', l))
                tot, loc = bor(tot, g), l
        r = wit.compare(geo.decide(restrict(tot, given)), restrict(want, given), [])
        if r is not None:
            out.append((r[0], what + ': ' + ('does not happen' if tot is FALSE else r[1]), loc))

    def analyse(self, fn):
        nob, out, ev = aw.AW.analyse(self, fn)
        if self.check:
            n0 = len(out)
            self.check(self, out)
            nob += 4
        out = [(x[0], x[1], x[2] or lat.lastloc2(ev)) for x in out]
        return nob, lat.dedup(out), ev


def name(w, i, p='f'):
    return w.E0[p] + C(STR * i)


def has(E, i, p='f'):
    return mk('has', E[p] + C(STR * i), key(E))


def val(E, i, p='f'):
    return mk('val', E[p] + C(STR * i), key(E))


def key(E):
    return E['k']


def yes(t):
    return bnot(c_eq0(t))


def first(E, n, f, none, p='f'):
    """the value for the first file holding the key"""
    r = none
    for i in reversed(range(n)):
        r = ite(yes(has(E, i, p)), f(i), r)
    return r


def histories():
    ws = []
    O, C_ = 'Maps_ m; m.open(fv); ', 'm.close(); '
    GET = 'int x%d = -7; o.v[%d] = m.get(k, x%d) == 0; o.v[%d] = x%d'
    get = lambda s: GET % (s, 2 * s, s, 2 * s + 1, s)

    def got(s, n, p='f'):
        return [('found', 'v%d' % (2 * s), lambda E: first(E, n, lambda i: L(C(1)), L(C(0)), p)), ('value', 'v%d' % (2 * s + 1), lambda E: first(E, n, lambda i: L(val(E, i, p)), L(C(-7)), p))]
    none = lambda s: [('found after close', 'v%d' % (2 * s), lambda E: C(0)), ('value after close', 'v%d' % (2 * s + 1), lambda E: C(-7))]
    at = lambda w, i, p='f': (lambda a: len(a) > 1 and a[1].c is None and not (a[1].v - name(w, i, p)).d)

    def opened(n, closed=0, p='f', both=False):
        def check(w, out):
            for q in ('f', 'h') if both else (p,):
                for i in range(n):
                    w.count('open', at(w, i, q), 'opening file %d' % i, TRUE, out)
            for nm, a, g, l in w.evs:
                if nm == 'open' and (a[2].c is not None or not a[2].v.isconst() or not int(a[2].v.const()) & 8 or int(a[2].v.const()) & 16):
                    out.append(('bad' if a[2].c is None and a[2].v.isconst() else 'undecided', 'files are opened for reading only', l))
            objs = [a[0] for nm, a, g, l in w.evs if nm == 'open']
            if closed:
                for d in objs:
                    w.count('gone', lambda a, d=d: a[0] is d or a[0].c is None and d.c is None and not (a[0].v - d.v).d, 'end of the map of an open file', TRUE, out, TRUE if d.c is not None else bnot(c_eq0(d.v)))
        return check
    for n in (1, 2, 3):
        ws.append(MW('get%d' % n, O + get(0), got(0, n), n, opened(n)))
        ws.append(MW('exist%d' % n, O + 'o.v[0] = m.exist(k)', [('exists', 'v0', lambda E, n=n: first(E, n, lambda i: L(C(1)), L(C(0))))], n, opened(n)))
        ws.append(MW('there%d' % n, 'Maps_ m; o.v[0] = m.fileExists(fv)', [('files exist', 'v0', lambda E, n=n: both_(E, n))], n))
    ws.append(MW('there_open', O + 'o.v[0] = m.fileExists(fv)', [('files exist', 'v0', lambda E: both_(E, 2))]))
    ws.append(MW('there_other', O + 'o.v[0] = m.fileExists(hv)', [('files exist', 'v0', lambda E: both_(E, 2, 'h'))]))
    ws.append(MW('repeat', O + get(0) + '; ' + get(1), got(0, 2) + got(1, 2)))
    ws.append(MW('close', O + C_ + get(0), none(0), 2, opened(2, 1)))
    ws.append(MW('closeexist', O + C_ + 'o.v[0] = m.exist(k)', [('exists after close', 'v0', lambda E: C(0))], 2, opened(2, 1)))
    ws.append(MW('closetwice', O + C_ + C_ + get(0), none(0), 2, opened(2, 1)))
    ws.append(MW('again', O + C_ + 'm.open(hv); ' + get(0), got(0, 2, 'h'), 2, opened(2, 1, both=True)))
    ws.append(MW('cycle', O + C_ + 'm.open(hv); ' + get(0) + '; m.close(); ' + get(1), got(0, 2, 'h') + none(1), 2, opened(2, 1, both=True)))
    ws.append(MW('reopen', O + 'm.open(hv); ' + get(0), got(0, 2, 'h'), 2, opened(2, 1, both=True)))
    ws.append(MW('gone', '{ Maps_ m; m.open(fv); }', [], 2, opened(2, 1)))
    ws.append(MW('goneclosed', '{ Maps_ m; m.open(fv); m.close(); }', [], 2, opened(2, 1)))
    ws.append(MW('unopened', 'Maps_ m; ' + get(0) + '; o.v[2] = m.exist(k); o.v[3] = m.getUserdata(u) == 0; m.flush(); m.close()', none(0) + [('exists', 'v2', lambda E: C(0)), ('user data', 'v3', lambda E: C(0))]))
    ws.append(MW('user', O + 'o.v[0] = m.getUserdata(u) == 0', [('user data', 'v0', lambda E: ite(yes(mk('hasuser', E['f'])), L(C(1)), L(C(0))))], 2,
                 lambda w, out: w.count('user', lambda a: a[1].c is None and not (a[1].v - w.E0['u']).d, 'reading of the user data', TRUE, out)))

    def flushed(w, out):
        objs = [a[0] for nm, a, g, l in w.evs if nm == 'open']
        for nm, a, g, l in w.evs:
            if nm == 'flush' and a[0].c is None and not any(d.c is not None or not (a[0].v - d.v).d for d in objs):
                out.append(('bad' if not wit.opaque_in(a[0]) else 'undecided', 'flush of something that is not one of the open files', l))
    ws.append(MW('flush', O + 'm.flush(); ' + get(0), got(0, 2), 2, flushed))

    def level(w, out):
        for d in [a[0] for nm, a, g, l in w.evs if nm == 'open']:
            w.count('debug', lambda a, d=d: not (a[0].v - d.v).d and a[1].c is None and not (a[1].v - w.E0['l']).d, 'setting the debugging level', TRUE, out)
    ws.append(MW('debug', O + 'm.setDebug(l)', [], 2, level))
    return ws


def both_(E, n, p='f'):
    r = TRUE
    for i in range(n):
        r = band(r, yes(mk('there', E[p] + C(STR * i))))
    return ite(r, L(C(1)), L(C(0)))
