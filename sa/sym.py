"""Abstract value domain of the value-flow analysis.

P      polynomial (integer/rational coefficients, negative exponents allowed for
       single atoms) over atoms: the normal form of a scalar or pointer value.
T      decision tree over canonical condition atoms, with P / bool leaves: the
       normal form of a value merged by control flow (gated phi).
Atoms and trees are hash-consed, so equality of normal forms is identity.
"""
from fractions import Fraction
from math import gcd, floor

ATOMS = []            # id -> tuple (kind, ...)
_ATOMID = {}
ADEPS = []            # id -> frozenset of k-atoms it depends on
PTR = set()           # ids of atoms known to be pointers (bases)
RANGE = {}            # id -> (lo, hi) for integer atoms (None = unbounded)
NODEPS = frozenset()


def atom_id(tup, deps=NODEPS):
    i = _ATOMID.get(tup)
    if i is None:
        i = len(ATOMS)
        _ATOMID[tup] = i
        ATOMS.append(tup)
        ADEPS.append(deps)
    return i


class P:
    __slots__ = ('d', '_k', '_dep')

    def __init__(self, d):
        self.d = d
        self._k = None
        self._dep = None

    @property
    def key(self):
        if self._k is None:
            self._k = frozenset(self.d.items())
        return self._k

    def __eq__(self, o):
        return isinstance(o, P) and self.d == o.d

    def __hash__(self):
        return hash(self.key)

    def isconst(self):
        d = self.d
        return not d or (len(d) == 1 and () in d)

    def const(self):
        return self.d.get((), 0)

    def deps(self):
        if self._dep is None:
            s = set()
            for m in self.d:
                for a, _ in m:
                    s |= ADEPS[a]
            self._dep = frozenset(s) if s else NODEPS
        return self._dep

    def __add__(self, o):
        if not isinstance(o, P):
            o = C(o)
        if not self.d:
            return o
        if not o.d:
            return self
        r = dict(self.d)
        for m, c in o.d.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return P(r)

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        if not isinstance(o, P):
            o = C(o)
        return self + (-o)

    def __rsub__(self, o):
        return C(o) - self

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return P({m: normc(c * k) for m, c in self.d.items()})

    def __mul__(self, o):
        if not isinstance(o, P):
            return self.scale(o)
        if self.isconst():
            return o.scale(self.const())
        if o.isconst():
            return self.scale(o.const())
        r = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mmul(m1, m2)
                v = r.get(m)
                if v is None:
                    r[m] = c1 * c2
                else:
                    v = v + c1 * c2
                    if v:
                        r[m] = v
                    else:
                        del r[m]
        return P(r)

    __rmul__ = __mul__

    def single(self):
        """atom id if this is exactly one atom, else None"""
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def __repr__(self):
        return show(self)


def normc(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


_mm = {}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _mm.get(k)
    if r is not None:
        return r
    i = j = 0
    out = []
    while i < len(a) and j < len(b):
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    r = tuple(out)
    if len(_mm) > 2000000:
        _mm.clear()
    _mm[k] = r
    return r


ZERO = P({})
ONE = P({(): 1})


def C(c):
    if isinstance(c, float):
        c = Fraction(c)
    c = normc(c)
    return P({(): c}) if c else ZERO


def A(i):
    return P({((i, 1),): 1})


def mk(kind, *payload, deps=None):
    """atom polynomial; payload P/T entries contribute dependencies"""
    if deps is None:
        s = set()
        for p in payload:
            if isinstance(p, (P, T)):
                s |= p.deps()
            elif isinstance(p, tuple):
                for q in p:
                    if isinstance(q, (P, T)):
                        s |= q.deps()
        deps = frozenset(s) if s else NODEPS
    return A(atom_id((kind,) + payload, deps))


def inv(p):
    """1/p"""
    if p.isconst():
        c = p.const()
        if c == 0:
            return mk('div0')
        return C(Fraction(1) / Fraction(c))
    if len(p.d) == 1:
        (m, c), = p.d.items()
        return P({tuple((a, -e) for a, e in m): normc(Fraction(1) / Fraction(c))})
    lead = p.d[min(p.d)]
    q = p.scale(Fraction(1) / Fraction(lead))
    r = mk('inv', q)
    return r.scale(Fraction(1) / Fraction(lead))


# ---------------------------------------------------------------- trees
class T:
    __slots__ = ('c', 'hi', 'lo', 'v', 'id', '_dep')

    def deps(self):
        if self._dep is None:
            if self.c is None:
                self._dep = self.v.deps() if isinstance(self.v, P) else NODEPS
            else:
                self._dep = CDEPS[self.c] | self.hi.deps() | self.lo.deps()
        return self._dep

    def isleaf(self):
        return self.c is None

    def __repr__(self):
        return showt(self)


_leafs = {}
_nodes = {}
_tcount = [0]


def L(v):
    if isinstance(v, (int, Fraction, float)) and not isinstance(v, bool):
        v = C(v)
    k = (v is True, v is False, v)
    t = _leafs.get(k)
    if t is None:
        t = T()
        t.c = None
        t.hi = t.lo = None
        t.v = v
        t._dep = None
        t.id = _tcount[0]
        _tcount[0] += 1
        _leafs[k] = t
    return t


def node(c, hi, lo):
    if hi is lo:
        return hi
    k = (c, hi.id, lo.id)
    t = _nodes.get(k)
    if t is None:
        t = T()
        t.c = c
        t.hi = hi
        t.lo = lo
        t.v = None
        t._dep = None
        t.id = _tcount[0]
        _tcount[0] += 1
        _nodes[k] = t
    return t


TRUE = L(True)
FALSE = L(False)
TZERO = L(ZERO)

CONDS = []     # id -> tuple
_CONDID = {}
CDEPS = []


def cond_id(tup, deps=NODEPS):
    i = _CONDID.get(tup)
    if i is None:
        i = len(CONDS)
        _CONDID[tup] = i
        CONDS.append(tup)
        CDEPS.append(deps)
    return i


def var(cid):
    return node(cid, TRUE, FALSE)


class TooBig(Exception):
    pass


def apply(f, *ts):
    """apply f to leaves pointwise; f returns a leaf payload"""
    for t in ts:
        if t.c is not None:
            break
    else:
        return L(f(*[t.v for t in ts]))
    memo = {}

    def go(ts):
        k = tuple(t.id for t in ts)
        r = memo.get(k)
        if r is not None:
            return r
        c = None
        for t in ts:
            if t.c is not None and (c is None or t.c < c):
                c = t.c
        if c is None:
            r = L(f(*[t.v for t in ts]))
        else:
            r = node(c, go(tuple(t.hi if t.c == c else t for t in ts)),
                     go(tuple(t.lo if t.c == c else t for t in ts)))
        memo[k] = r
        if len(memo) > 60000:
            raise TooBig('decision tree too large')
        return r
    return go(ts)


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    memo = {}

    def go(c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        k = (c.id, a.id, b.id)
        r = memo.get(k)
        if r is not None:
            return r
        v = c.c
        if a.c is not None and a.c < v:
            v = a.c
        if b.c is not None and b.c < v:
            v = b.c
        r = node(v, go(c.hi if c.c == v else c, a.hi if a.c == v else a, b.hi if b.c == v else b),
                 go(c.lo if c.c == v else c, a.lo if a.c == v else a, b.lo if b.c == v else b))
        memo[k] = r
        if len(memo) > 60000:
            raise TooBig('decision tree too large')
        return r
    return go(c, a, b)


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


def bnot(a):
    return ite(a, FALSE, TRUE)


def bind(t, f):
    """f: leaf payload -> tree"""
    if t.c is None:
        return f(t.v)
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is None:
            if t.c is None:
                r = f(t.v)
            else:
                r = ite(var(t.c), go(t.hi), go(t.lo))
            memo[t.id] = r
        return r
    return go(t)


def restrict(f, care):
    """simplify f assuming care (a boolean tree)"""
    if f.c is None or care is TRUE or care is FALSE:
        return f
    memo = {}

    def go(f, care):
        if f.c is None or care is TRUE:
            return f
        if care is FALSE:
            return f
        k = (f.id, care.id)
        r = memo.get(k)
        if r is not None:
            return r
        if care.c is not None and care.c < f.c:
            r = go(f, bor(care.hi, care.lo))
        elif care.c == f.c:
            if care.hi is FALSE:
                r = go(f.lo, care.lo)
            elif care.lo is FALSE:
                r = go(f.hi, care.hi)
            else:
                r = node(f.c, go(f.hi, care.hi), go(f.lo, care.lo))
        else:
            r = node(f.c, go(f.hi, care), go(f.lo, care))
        memo[k] = r
        return r
    return go(f, care)


# ---------------------------------------------------------------- conditions
def _lin(p):
    """split p = s*g*lin + c ; returns (lin, s*g, c) with canonical lin"""
    c = p.const()
    d = {m: v for m, v in p.d.items() if m != ()}
    g = 0
    for v in d.values():
        if isinstance(v, Fraction) and v.denominator != 1:
            g = None
            break
        g = gcd(g, int(v))
    if g is None:
        l = 1
        for v in d.values():
            l = l * Fraction(v).denominator // gcd(l, Fraction(v).denominator)
        l2 = Fraction(c).denominator
        l = l * l2 // gcd(l, l2)
        return _lin(p.scale(l))
    lead = d[min(d)]
    s = 1 if lead > 0 else -1
    lin = P({m: normc(Fraction(v, s * g)) for m, v in d.items()})
    return lin, s * g, c


def c_le0(p):
    """integer p <= 0 as tree"""
    if p.isconst():
        return TRUE if p.const() <= 0 else FALSE
    lo, hi = prange(p)
    if hi is not None and hi <= 0:
        return TRUE
    if lo is not None and lo > 0:
        return FALSE
    lin, g, c = _lin(p)
    if isinstance(c, Fraction):
        pass
    # g*lin + c <= 0
    if g > 0:
        b = floor(Fraction(-c) / g)
        return _le(lin, b)
    b = -floor(Fraction(-c) / (-g))      # (-g)*(-lin) <= -c -> -lin <= floor(-c/-g) -> lin >= b
    return bnot(_le(lin, b - 1))


def _le(lin, b):
    return var(cond_id(('le', lin, b), lin.deps()))


def c_lt(a, b):
    return c_le0(a - b + 1)


def c_eq0(p):
    if p.isconst():
        return TRUE if p.const() == 0 else FALSE
    lo, hi = prange(p)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    lin, g, c = _lin(p)
    b = Fraction(-c) / g
    if b.denominator != 1:
        return FALSE
    return var(cond_id(('eq', lin, int(b)), lin.deps()))


def _fcanon(p):
    lead = p.d[min(p.d)]
    return p.scale(Fraction(1) / abs(Fraction(lead))), (1 if lead > 0 else -1)


def c_flt(p):
    """float p < 0 (real-number reading)"""
    if p.isconst():
        return TRUE if p.const() < 0 else FALSE
    q, s = _fcanon(p)
    if s > 0:
        return var(cond_id(('flt', q), q.deps()))
    return var(cond_id(('fgt', -q), q.deps()))     # -q has positive lead; -p... p<0 <=> q'>0


def c_fle(p):
    if p.isconst():
        return TRUE if p.const() <= 0 else FALSE
    q, s = _fcanon(p)
    if s > 0:
        return bnot(var(cond_id(('fgt', q), q.deps())))
    return bnot(var(cond_id(('flt', -q), q.deps())))


def c_feq(p):
    if p.isconst():
        return TRUE if p.const() == 0 else FALSE
    q, s = _fcanon(p)
    if s < 0:
        q = -q
    return var(cond_id(('feq', q), q.deps()))


def c_atom(*tup):
    s = set()
    for p in tup:
        if isinstance(p, (P, T)):
            s |= p.deps()
    return var(cond_id(tup, frozenset(s)))


# ---------------------------------------------------------------- ranges
def arange(a):
    r = RANGE.get(a)
    if r is not None:
        return r
    t = ATOMS[a]
    if t[0] == 'fl':            # floor(p/d)
        lo, hi = prange(t[1])
        d = t[2]
        if isinstance(d, int):
            return (None if lo is None else lo // d, None if hi is None else hi // d)
        lo2, hi2 = prange(t[1])
        if lo2 is not None and lo2 >= 0:
            return (0, hi2)
        return (None, None)
    if t[0] == 'mod':
        d = t[2]
        if isinstance(d, int) and d >= 1 << 32:
            return (-(d // 2), d - 1)
        return (0, d - 1 if isinstance(d, int) else None)
    if t[0] == 'ld':
        if t[2] == 1:
            return (0, 255)
    if t[0] == 'k':
        return (0, None)
    return (None, None)


def prange(p):
    lo, hi = 0, 0
    for m, c in p.d.items():
        ml, mh = 1, 1
        for a, e in m:
            al, ah = arange(a)
            if e < 0:
                return (None, None)
            for _ in range(e):
                if al is None and ah is None:
                    ml = mh = None
                    break
                if ml is not None and ml >= 0 and al is not None and al >= 0:
                    ml = ml * al
                    mh = None if (mh is None or ah is None) else mh * ah
                elif None not in (ml, mh, al, ah):
                    xs = [ml * al, ml * ah, mh * al, mh * ah]
                    ml, mh = min(xs), max(xs)
                elif m[0] == (a, e) and e == 1 and len(m) == 1:
                    ml, mh = al, ah
                else:
                    ml = mh = None
                    break
            if ml is None and mh is None:
                break
        if c > 0:
            l, h = (None if ml is None else c * ml), (None if mh is None else c * mh)
        else:
            l, h = (None if mh is None else c * mh), (None if ml is None else c * ml)
        lo = None if (lo is None or l is None) else lo + l
        hi = None if (hi is None or h is None) else hi + h
        if lo is None and hi is None:
            return (None, None)
    return (lo, hi)


def intcoef(p):
    for c in p.d.values():
        if isinstance(c, Fraction):
            return False
    return True


def fl(p, d):
    """floor(p/d) for integer p; d positive int or P (assumed positive)"""
    if isinstance(d, P) and d.isconst():
        d = d.const()
    if isinstance(d, int):
        if d == 1:
            return p
        if p.isconst():
            return C(p.const() // d)
        if not intcoef(p):
            return mk('fl', p, d)
        q, r = {}, {}
        for m, c in p.d.items():
            # exact multiples leave the floor; others keep the remainder in (-d, d)
            x, y = divmod(c, d)
            if m != () and c < 0 and y:      # keep sign of small negative coefficients
                x, y = x + 1, y - d
            if x:
                q[m] = x
            if y:
                r[m] = y
        q, r = P(q), P(r)
        lo, hi = prange(r)
        if lo is not None and hi is not None and lo // d == hi // d:
            return q + C(lo // d)
        if r.isconst():
            return q + C(r.const() // d)
        # floor(floor(a/b)/d) = floor(a/(b d)) when r is a single fl atom with unit coefficient
        s = r.single()
        if s is not None and ATOMS[s][0] == 'fl' and isinstance(ATOMS[s][2], int):
            return q + fl(ATOMS[s][1], ATOMS[s][2] * d)
        # floor((g p + c)/(g d)) = floor((p + floor(c/g))/d)
        g = d
        for m, c in r.d.items():
            if m != ():
                g = gcd(g, c)
        if g > 1:
            return q + fl(P({m: c // g for m, c in r.d.items() if c // g}), d // g)
        # floor((g p + s)/(g d)) = floor(p/d) for 0 <= s < g
        for g in sorted({gcd(c, d) for m, c in r.d.items()}, reverse=True):
            if g > 1:
                lo, hi = prange(P({m: c for m, c in r.d.items() if c % g}))
                if lo is not None and hi is not None and lo >= 0 and hi < g:
                    return q + fl(P({m: c // g for m, c in r.d.items() if c % g == 0}), d // g)
        return q + mk('fl', r, d)
    # symbolic divisor: divide out monomials containing d when d is a single monomial
    if len(d.d) == 1:
        (dm, dc), = d.d.items()
        q, r = {}, {}
        for m, c in p.d.items():
            e = dict(m)
            ok = c % dc == 0 if isinstance(c, int) and isinstance(dc, int) else False
            for a, x in dm:
                if e.get(a, 0) < x:
                    ok = False
            if ok:
                for a, x in dm:
                    e[a] -= x
                q[tuple(sorted((a, x) for a, x in e.items() if x))] = c // dc
            else:
                r[m] = c
        q, r = P(q), P(r)
        if not r.d:
            return q
        if lt_hook(r, d):
            return q
        if lt_hook(r + d, d):
            return q - 1
        # floor(floor(a/b)/d) = floor(a/(b*d))
        s = r.single()
        if s is not None and ATOMS[s][0] == 'fl':
            b = ATOMS[s][2]
            return q + fl(ATOMS[s][1], (C(b) if isinstance(b, int) else b) * d)
        return q + mk('fl', r, d)
    if lt_hook(p, d):
        return ZERO
    return mk('fl', p, d)


# facts "0 <= x < n" supplied by a check's preconditions: set of (P x, P n)
LT_FACTS = []


def lt_hook(r, d):
    """known 0 <= r < d?"""
    for f in LT_FACTS:
        if f(r, d):
            return True
    return False


# ---------------------------------------------------------------- substitution
def subst(p, env, memo=None):
    """substitute atoms (env: atom id -> P or T) in a P; returns T"""
    if memo is None:
        memo = {}
    keys = frozenset(env)
    if not _mentions(p, keys, memo):
        return L(p)
    acc = TZERO
    for m, c in p.d.items():
        t = L(C(c))
        for a, e in m:
            v = subst_atom(a, env, memo)
            if e > 0:
                for _ in range(e):
                    t = apply(lambda x, y: x * y, t, v)
            else:
                iv = apply(inv, v)
                for _ in range(-e):
                    t = apply(lambda x, y: x * y, t, iv)
        acc = apply(lambda x, y: x + y, acc, t)
    return acc


_AM = {}


def _amention(a):
    """set of all atom ids reachable from atom a"""
    r = _AM.get(a)
    if r is None:
        s = {a}
        for q in ATOMS[a][1:]:
            _collect(q, s)
        r = _AM[a] = frozenset(s)
    return r


def _collect(q, s):
    if isinstance(q, P):
        for m in q.d:
            for b, _ in m:
                s |= _amention(b)
    elif isinstance(q, T):
        for x in tatoms(q):
            s |= _amention(x)
    elif isinstance(q, tuple):
        for x in q:
            _collect(x, s)


_TA = {}


def tatoms(t):
    """direct atoms of a tree, including those in its conditions"""
    r = _TA.get(t.id)
    if r is None:
        s = set()
        if t.c is None:
            if isinstance(t.v, P):
                for m in t.v.d:
                    for b, _ in m:
                        s.add(b)
        else:
            for q in CONDS[t.c][1:]:
                _collect(q, s)
            s |= tatoms(t.hi) | tatoms(t.lo)
        r = _TA[t.id] = frozenset(s)
    return r


def _mentions(p, keys, memo=None):
    for m in p.d:
        for a, _ in m:
            if a in keys or not keys.isdisjoint(_amention(a)):
                return True
    return False


REBUILD = {}   # kind -> function(payload list of P/T/..., deps) -> T


def subst_atom(a, env, memo):
    v = env.get(a)
    if v is not None:
        return v if isinstance(v, T) else L(v)
    r = memo.get(a)
    if r is not None:
        return r
    if frozenset(env).isdisjoint(_amention(a)):
        r = L(A(a))
    else:
        t = ATOMS[a]
        r = rebuild(t, env, memo, a)
    memo[a] = r
    return r


def rebuild(t, env, memo, a):
    kind = t[0]
    args = []

    def conv(q):
        if isinstance(q, P):
            return subst(q, env, memo)
        if isinstance(q, T):
            return ('tree', subst_t(q, env, memo))
        if isinstance(q, tuple):
            return tuple(conv(x) for x in q)
        return q
    args = [conv(q) for q in t[1:]]
    # lift trees over atom arguments
    flat = []

    def gather(q):
        if isinstance(q, T):
            flat.append(q)
        elif isinstance(q, tuple) and not (q and q[0] == 'tree'):
            for x in q:
                gather(x)
    for q in args:
        gather(q)
    isptr = a in PTR

    def build(*vals):
        it = iter(vals)

        def back(q):
            if isinstance(q, T):
                return next(it)
            if isinstance(q, tuple):
                if q and q[0] == 'tree':
                    return q[1]
                return tuple(back(x) for x in q)
            return q
        pay = [back(q) for q in args]
        f = REBUILD.get(kind)
        if f:
            return f(pay, isptr)
        r = mk(kind, *pay)
        if isptr:
            PTR.add(r.single())
        return r
    if not flat:
        return L(build())
    return apply(build, *flat)


def _rebuild_mod(pay, ptr):
    x, d = pay
    if isinstance(x, P) and x.isconst() and isinstance(d, int) and int(x.const()) == x.const():
        c = int(x.const()) % d
        return C(c - d if d >= 1 << 32 and c >= d // 2 else c)
    return mk('mod', x, d)


REBUILD['mod'] = _rebuild_mod
REBUILD['fl'] = lambda pay, ptr: fl(pay[0], pay[1])


def _rebuild_ite(pay, ptr):
    if pay[0] is TRUE or pay[0] is FALSE:
        r = pay[1] if pay[0] is TRUE else pay[2] if len(pay) > 2 else ZERO
        if isinstance(r, P):
            return r
        if r.c is None and isinstance(r.v, P):
            return r.v
    r = mk('ite', *pay)
    if ptr:
        PTR.add(r.single())
    return r


REBUILD['ite'] = _rebuild_ite
REBUILD['inv'] = lambda pay, ptr: inv(pay[0])


def subst_t(t, env, memo=None):
    if memo is None:
        memo = {}
    if frozenset(env).isdisjoint(_tall(t)):
        return t
    tm = {}

    def go(t):
        r = tm.get(t.id)
        if r is not None:
            return r
        if t.c is None:
            r = subst(t.v, env, memo) if isinstance(t.v, P) else t
        else:
            c = subst_c(t.c, env, memo)
            r = ite(c, go(t.hi), go(t.lo))
        tm[t.id] = r
        return r
    return go(t)


_TALL = {}


def _tall(t):
    r = _TALL.get(t.id)
    if r is None:
        s = set()
        for x in tatoms(t):
            s |= _amention(x)
        r = _TALL[t.id] = frozenset(s)
    return r


def c_nonzero(r):
    def go(t):
        if t.c is not None:
            return ite(var(t.c), go(t.hi), go(t.lo))
        if not isinstance(t.v, P):
            return t
        if t.v.isconst():
            return TRUE if t.v.const() != 0 else FALSE
        return c_atom('bool', t.v)
    return go(r)


def subst_c(cid, env, memo):
    tup = CONDS[cid]
    kind = tup[0]
    s = set()
    for q in tup[1:]:
        _collect(q, s)
    if frozenset(env).isdisjoint(s):
        return var(cid)
    if kind == 'le':
        return bind(subst(tup[1], env, memo), lambda p: c_le0(p - tup[2]))
    if kind == 'eq':
        return bind(subst(tup[1], env, memo), lambda p: c_eq0(p - tup[2]))
    if kind == 'flt':
        return bind(subst(tup[1], env, memo), c_flt)
    if kind == 'fgt':
        return bind(subst(tup[1], env, memo), lambda p: c_flt(-p))
    if kind == 'feq':
        return bind(subst(tup[1], env, memo), c_feq)
    if kind == 'bool' and isinstance(tup[1], P):
        r = subst(tup[1], env, memo)
        if r.c is not None or r.v.isconst() or tup[1].single() is None:
            return c_nonzero(r)
    args = []
    for q in tup[1:]:
        if isinstance(q, P):
            args.append(subst(q, env, memo))
        elif isinstance(q, T):
            args.append(subst_t(q, env, memo))
        else:
            args.append(q)
    ps = [q for q in args if isinstance(q, T)]
    if all(q.c is None for q in ps):
        return c_atom(kind, *[q.v if isinstance(q, T) else q for q in args])
    return c_atom(kind, *[q if not isinstance(q, T) or q.c is not None else q.v for q in args])


# ---------------------------------------------------------------- loop sums
def bvar(depth):
    return A(atom_id(('bv', depth)))


_CM = {}


def condmention(c):
    """every atom a condition mentions"""
    r = _CM.get(c)
    if r is None:
        r = set()
        for q in CONDS[c][1:]:
            _collect(q, r)
        _CM[c] = r
    return r


def tree_to_poly(t, kdep):
    """encode conditions that depend on k as ite-atoms, giving a P when no other condition remains;
    other conditions stay as tree structure (returns T)"""
    def go(t):
        if t.c is None:
            return t
        hi, lo = go(t.hi), go(t.lo)
        if kdep.isdisjoint(condmention(t.c)):
            return ite(var(t.c), hi, lo)
        cv = t.c

        def f(a, b):
            if a == b:
                return a
            if isinstance(a, P):
                return b + mk('ite', var(cv), a - b)
            return mk('ite', var(cv), L(a), L(b))
        return apply(f, hi, lo)
    return go(t)


def height(p):
    """1 + max bound-variable level in p"""
    h = 0
    for m in p.d:
        for a, _ in m:
            for x in _amention(a):
                if ATOMS[x][0] == 'bv':
                    h = max(h, ATOMS[x][1] + 1)
    return h


def mksum(body, kid, n, swap=True):
    """sum_{k=0}^{n-1} body(k) as P (body, n : P, kid : atom id of k)"""
    ks = frozenset([kid])
    res = ZERO
    for m, c in body.d.items():
        free, dep = [], []
        for a, e in m:
            if ks.isdisjoint(_amention(a)):
                free.append((a, e))
            else:
                dep.append((a, e))
        f = P({tuple(free): c})
        if not dep:
            res = res + f * n
            continue
        b = P({tuple(dep): 1})
        if swap:
            x = exchanged(b, dep, kid, n)
            if x is not None:
                res = res + f * x
                continue
        h = height(b)
        bb = subst(b, {kid: bvar(h)})
        if bb.c is not None:
            raise TooBig('conditional sum body')
        res = res + f * mk('sum', updown(bb.v, bvar(h), n), n)
    return res


_XID = [0]


def exchanged(b, dep, kid, n):
    """sum_k g(k) sum_j f(k,j) over independent ranges: one of the two orders, whichever it was written in"""
    ss = [(a, e) for a, e in dep if ATOMS[a][0] == 'sum']
    if len(ss) != 1 or ss[0][1] != 1:
        return None
    _, ib, im = ATOMS[ss[0][0]]
    ms, ns = set(), set()
    if not isinstance(ib, P):
        return None
    _collect(im, ms)
    _collect(n, ns)
    if kid in ms or any(ATOMS[x][0] == 'bv' for x in ms | ns):
        return None
    h = height(ib) - 1
    _XID[0] += 1
    j = atom_id(('xk', _XID[0] % 8 + 8 * h))
    f = subst(ib, {bvar(h).single(): A(j)})
    if f.c is not None:
        return None
    g = P({tuple((a, e) for a, e in dep if a != ss[0][0]): 1})
    p = mksum(b, kid, n, False)
    q = mksum(mksum(g * f.v, kid, n, False), j, im, False)
    return min(p, q, key=lambda r: sorted(tuple(m) for m in r.d))


def backward(p, k, seen):
    """occurrences of the summation index k with a negative coefficient"""
    r = 0
    for m, c in p.d.items():
        if len(m) == 1 and m[0] == (k, 1) and c < 0:
            r += 1
        for a, _ in m:
            if a != k and a not in seen and k in _amention(a):
                seen.add(a)
                for q in ATOMS[a][1:]:
                    if isinstance(q, P):
                        r += backward(q, k, seen)
                    elif isinstance(q, T):
                        r += sum(backward(v, k, seen) for _, v in tleaves(q, k, seen))
    return r


def tleaves(t, k, seen):
    if t.c is None:
        return [(None, t.v)] if isinstance(t.v, P) else []
    return [(None, q) for q in CONDS[t.c][1:] if isinstance(q, P)] + tleaves(t.hi, k, seen) + tleaves(t.lo, k, seen)


def updown(b, k, n):
    """a sum may run backwards: the orientation with fewer negative index coefficients"""
    k = k.single() if isinstance(k, P) else k
    x = backward(b, k, set())
    if not x:
        return b
    r = subst(b, {k: n - 1 - A(k)})
    if isinstance(r, T):
        if r.c is not None:
            return b
        r = r.v
    y = backward(r, k, set())
    if y < x or y == x and mk('sum', r, n).single() < mk('sum', b, n).single():
        return r
    return b


def _rebuild_sum(pay, ptr):
    return mk('sum', *pay)


REBUILD['sum'] = _rebuild_sum


# ---------------------------------------------------------------- facts and pruning
def floor_(x):
    return x.numerator // x.denominator if isinstance(x, Fraction) else x


def ceil_(x):
    return -((-x.numerator) // x.denominator) if isinstance(x, Fraction) else x


class Facts:
    """interval / disequality facts on linear forms and truth of conditions along one path"""

    def __init__(self, o=None):
        self.iv = dict(o.iv) if o else {}
        self.ne = {k: set(v) for k, v in o.ne.items()} if o else {}
        self.tv = dict(o.tv) if o else {}
        self.deep = o.deep if o else False

    def test(self, cid):
        tup = CONDS[cid]
        if cid in self.tv:
            return self.tv[cid]
        if tup[0] == 'le':
            lo, hi = self.bounds(tup[1])
            if hi is not None and hi <= tup[2]:
                return True
            if lo is not None and lo > tup[2]:
                return False
        elif tup[0] == 'eq':
            lo, hi = self.bounds(tup[1])
            if lo is not None and lo > tup[2] or hi is not None and hi < tup[2]:
                return False
            if lo is not None and lo == hi == tup[2]:
                return True
            if tup[2] in self.ne.get(tup[1], ()):
                return False
        return None

    def bounds(self, lin, depth=2):
        lo, hi = self.bounds0(lin)
        if depth and self.deep and len(self.iv) <= 14:
            ivs = list(self.iv.items()) if self.iv else []
            fls = set()
            for m in lin.d:
                for a, _ in m:
                    if ATOMS[a][0] == 'fl' and isinstance(ATOMS[a][2], int):
                        fls.add(a)
            for o in self.iv:
                for m in o.d:
                    for a, _ in m:
                        if ATOMS[a][0] == 'fl' and isinstance(ATOMS[a][2], int):
                            fls.add(a)
            for a in fls:
                t = ATOMS[a]
                q = t[1] - A(a).scale(t[2])       # 0 <= p - d*floor(p/d) <= d-1
                c = q.const()
                if isinstance(c, Fraction):
                    continue
                ivs.append((q - C(c), (-c, t[2] - 1 - c)))
            mine = frozenset(lin.d)
            for o, (a, b) in ivs:
                if o == lin:
                    if a is not None and (lo is None or a > lo):
                        lo = a
                    if b is not None and (hi is None or b < hi):
                        hi = b
                    continue
                com = mine & frozenset(o.d)
                if not com:
                    continue
                done = set()
                for m in com:
                    c1, c2 = Fraction(lin.d[m]), Fraction(o.d[m])
                    w = c1 / c2                      # lin - w*o has no m
                    if w in done:
                        continue
                    done.add(w)
                    r = lin - o.scale(w)
                    if len(r.d) >= len(lin.d) + len(o.d) - 1:
                        continue
                    x, y = a, b
                    if w < 0:
                        x, y = y, x
                    k = r.const()
                    r2 = r - C(k)
                    if not r2.d:
                        l = h = k
                    else:
                        l0, g0, c0 = _lin(r2)
                        l, h = self.bounds(l0, depth - 1)
                        if g0 < 0:
                            l, h = h, l
                        l = None if l is None else l * g0 + c0 + k
                        h = None if h is None else h * g0 + c0 + k
                    if l is not None and x is not None:
                        v = ceil_(l + w * x)
                        if lo is None or v > lo:
                            lo = v
                    if h is not None and y is not None:
                        v = floor_(h + w * y)
                        if hi is None or v < hi:
                            hi = v
            ne = self.ne.get(lin)
            if ne:
                while lo is not None and lo in ne:
                    lo += 1
                while hi is not None and hi in ne:
                    hi -= 1
        return lo, hi

    def bounds0(self, lin):
        lo, hi = prange(lin)
        a, b = self.iv.get(lin, (None, None))
        if a is not None and (lo is None or a > lo):
            lo = a
        if b is not None and (hi is None or b < hi):
            hi = b
        if lin not in self.iv and len(lin.d) > 1:
            # combine per-monomial facts
            l, h = 0, 0
            for m, c in lin.d.items():
                if m == ():
                    ml = mh = 1
                else:
                    mp = P({m: 1})
                    x, y = prange(mp)
                    s, t = self.iv.get(mp, (None, None))
                    ml = s if x is None else (x if s is None else max(s, x))
                    mh = t if y is None else (y if t is None else min(t, y))
                if c < 0:
                    ml, mh = mh, ml
                l = None if l is None or ml is None else l + c * ml
                h = None if h is None or mh is None else h + c * mh
            if l is not None and (lo is None or l > lo):
                lo = l
            if h is not None and (hi is None or h < hi):
                hi = h
        ne = self.ne.get(lin)
        if ne:
            while lo is not None and lo in ne:
                lo += 1
            while hi is not None and hi in ne:
                hi -= 1
        return lo, hi

    def add(self, cid, val):
        f = Facts(self)
        f.tv[cid] = val
        tup = CONDS[cid]
        if tup[0] == 'le':
            lo, hi = f.iv.get(tup[1], (None, None))
            if val:
                hi = tup[2] if hi is None else min(hi, tup[2])
            else:
                lo = tup[2] + 1 if lo is None else max(lo, tup[2] + 1)
            f.iv[tup[1]] = (lo, hi)
        elif tup[0] == 'eq':
            if val:
                f.iv[tup[1]] = (tup[2], tup[2])
            else:
                f.ne.setdefault(tup[1], set()).add(tup[2])
        return f

    def sign(self, p):
        """'neg0' if p<=0 certain, 'pos' if p>0 certain, else None"""
        if p.isconst():
            return 'pos' if p.const() > 0 else 'neg0'
        lin, g, c = _lin(p)
        lo, hi = self.bounds(lin)
        if g < 0:
            lo, hi = hi, lo
        l = None if lo is None else g * lo + c
        h = None if hi is None else g * hi + c
        if h is not None and h <= 0:
            return 'neg0'
        if l is not None and l > 0:
            return 'pos'
        return None


def prune(t, facts=None):
    """remove branches that contradict the conditions above them"""
    def go(t, f):
        if t.c is None:
            return t
        r = f.test(t.c)
        if r is True:
            return go(t.hi, f)
        if r is False:
            return go(t.lo, f)
        return node(t.c, go(t.hi, f.add(t.c, True)), go(t.lo, f.add(t.c, False)))
    return go(t, facts or Facts())


def paths(t, facts=None, limit=4000):
    """feasible (facts, leaf payload) pairs"""
    out = []

    def go(t, f, lits):
        if len(out) > limit:
            raise TooBig('too many cases')
        if t.c is None:
            out.append((f, lits, t.v))
            return
        r = f.test(t.c)
        if r is not False:
            go(t.hi, f.add(t.c, True) if r is None or CONDS[t.c][0] == 'eq' else f, lits + ((t.c, True),))
        if r is not True:
            go(t.lo, f.add(t.c, False) if r is None else f, lits + ((t.c, False),))
    go(t, facts or Facts(), ())
    return out


def drop_empty_sums(p, facts):
    env = {}
    for m in p.d:
        for a, _ in m:
            t = ATOMS[a]
            if t[0] == 'sum' and facts.sign(t[2]) == 'neg0':
                env[a] = ZERO
            elif t[0] == 'sum':
                b = drop_empty_sums(t[1], facts)
                if b != t[1]:
                    env[a] = mk('sum', b, t[2]) if b.d else ZERO
    if not env:
        return p
    r = subst(p, env)
    return r.v


# ---------------------------------------------------------------- printing
def show(p, depth=0):
    if depth > 5:
        return '...'
    if not p.d:
        return '0'
    out = []
    for m in sorted(p.d)[:14]:
        c = p.d[m]
        s = '*'.join((sa(a, depth) if e == 1 else '%s^%d' % (sa(a, depth), e)) for a, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = '%s*%s' % (c, s)
        out.append(s)
    if len(p.d) > 14:
        out.append('...(%d terms)' % len(p.d))
    return ' + '.join(out).replace('+ -', '- ')


def sa(a, depth=0):
    t = ATOMS[a]
    if t[0] == 'ld':
        return '[%s]%d' % (show(t[1], depth + 1), t[2])
    if t[0] in ('arg', 'bv', 'k', 'alloca', 'glob', 'in'):
        return '%s%s' % (t[0], '.'.join(str(x) for x in t[1:]))
    return '%s(%s)' % (t[0], ', '.join(sh(x, depth + 1) for x in t[1:]))


def sh(x, depth=0):
    if isinstance(x, P):
        return show(x, depth)
    if isinstance(x, T):
        return showt(x, depth)
    if isinstance(x, tuple):
        return '(' + ','.join(sh(y, depth) for y in x) + ')'
    return str(x)


def showc(c, depth=0):
    t = CONDS[c]
    if t[0] == 'le':
        return '%s<=%s' % (show(t[1], depth + 1), t[2])
    if t[0] == 'eq':
        return '%s==%s' % (show(t[1], depth + 1), t[2])
    return '%s(%s)' % (t[0], ', '.join(sh(x, depth + 1) for x in t[1:]))


def showt(t, depth=0):
    if depth > 6:
        return '...'
    if t.c is None:
        return sh(t.v, depth)
    return '{%s ? %s : %s}' % (showc(t.c, depth), showt(t.hi, depth + 1), showt(t.lo, depth + 1))
