"""Textbook tensor algebra of QDP++ site objects: the oracle of the witness checks.

A type is (spin, color, real, word):
  spin, color : ('s',) | ('v', n) | ('m', n)
  real        : 'r' | 'c'
  word        : 'f' float, 'd' double, 'i' int, 'b' bool
A value is a dict {(spin index, color index): (re, im)} with index tuples of
length 0, 1 or 2; im is None for real objects.
Memory layout: spin outermost (row major), then colour, then re/im.
"""
from sym import *

WSZ = {'f': 4, 'd': 8, 'i': 4, 'b': 1}
WC = {'f': 'float', 'd': 'double', 'i': 'int', 'b': 'bool'}
S = ('s',)


def V(n):
    return ('v', n)


def M(n):
    return ('m', n)


class Ty:
    def __init__(self, spin=S, color=S, real='c', word='f'):
        self.spin, self.color, self.real, self.word = spin, color, real, word

    def key(self):
        return (self.spin, self.color, self.real, self.word)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def inner(self):
        x = WC[self.word]
        x = ('RComplex<%s>' if self.real == 'c' else 'RScalar<%s>') % x
        k = self.color
        if k[0] == 's':
            x = 'PScalar<%s >' % x
        elif k[0] == 'v':
            x = 'PColorVector<%s,%d>' % (x, k[1])
        elif k[0] == 'm':
            x = 'PColorMatrix<%s,%d>' % (x, k[1])
        elif k[0] == 'seed':
            x = 'PSeed<%s >' % x
        k = self.spin
        if k[0] == 's':
            x = 'PScalar<%s >' % x
        elif k[0] == 'v':
            x = 'PSpinVector<%s,%d>' % (x, k[1])
        else:
            x = 'PSpinMatrix<%s,%d>' % (x, k[1])
        return x

    def cpp(self):
        return 'OScalar<%s >' % self.inner()

    def lat(self):
        return 'OLattice<%s >' % self.inner()

    def idx(self):
        return [(s, c) for s in idx(self.spin) for c in idx(self.color)]

    def ncomp(self):
        return 2 if self.real == 'c' else 1

    def size(self):
        return len(self.idx()) * self.ncomp() * WSZ[self.word]

    def offsets(self):
        """(index, part) -> byte offset"""
        r = {}
        o = 0
        for i in self.idx():
            for p in range(self.ncomp()):
                r[(i, p)] = o
                o += WSZ[self.word]
        return r

    def short(self):
        return self.spin[0] + str(self.spin[1] if len(self.spin) > 1 else '') + self.color[0] + str(self.color[1] if len(self.color) > 1 else '') + self.real + self.word

    def w(self, **kw):
        d = dict(spin=self.spin, color=self.color, real=self.real, word=self.word)
        d.update(kw)
        return Ty(**d)


def idx(k):
    if k[0] == 's':
        return [()]
    if k[0] == 'v':
        return [(i,) for i in range(k[1])]
    if k[0] == 'm':
        return [(i, j) for i in range(k[1]) for j in range(k[1])]
    if k[0] == 'seed':
        return [(i,) for i in range(4)]
    raise ValueError(k)


class Val:
    def __init__(self, ty, d):
        self.ty = ty
        self.d = d

    def c(self, i):
        re, im = self.d[i]
        return re, (ZERO if im is None else im)


def load(ty, base):
    """symbolic value of an object of type ty stored at base (P)"""
    off = ty.offsets()
    sz = WSZ[ty.word]
    d = {}
    for i in ty.idx():
        re = mk('ld', base + C(off[(i, 0)]), sz)
        if ty.word == 'b':
            RANGE[re.single()] = (0, 1)
        im = mk('ld', base + C(off[(i, 1)]), sz) if ty.real == 'c' else None
        d[i] = (re, im)
    return Val(ty, d)


# ------------------------------------------------------------------ words
def wprom(a, b):
    o = 'bifd'
    return o[max(o.index(a), o.index(b))]


def rprom(a, b):
    return 'c' if 'c' in (a, b) else 'r'


def cmul(a, b):
    (ar, ai), (br, bi) = a, b
    if ai is None and bi is None:
        return (ar * br, None)
    if ai is None:
        return (ar * br, ar * bi)
    if bi is None:
        return (ar * br, ai * br)
    return (ar * br - ai * bi, ar * bi + ai * br)


def cadd(a, b):
    (ar, ai), (br, bi) = a, b
    if ai is None and bi is None:
        return (ar + br, None)
    return (ar + br, (ZERO if ai is None else ai) + (ZERO if bi is None else bi))


def cneg(a):
    return (-a[0], None if a[1] is None else -a[1])


def csub(a, b):
    return cadd(a, cneg(b))


def cconj(a):
    return (a[0], None if a[1] is None else -a[1])


def cdiv(a, b):
    (ar, ai), (br, bi) = a, b
    if bi is None:
        q = inv(br)
        return (ar * q, None if ai is None else ai * q)
    q = inv(br * br + bi * bi)
    n = cmul(a, (br, -bi))
    return (n[0] * q, (ZERO if n[1] is None else n[1]) * q)


def ctimesi(a, s=1):
    re, im = a[0], (ZERO if a[1] is None else a[1])
    return (-im, re) if s > 0 else (im, -re)


# ------------------------------------------------------------------ shapes
def shmul(a, b):
    """shape of a product"""
    if a[0] == 's':
        return b
    if b[0] == 's':
        return a
    if a[0] == 'm' and b[0] in 'mv':
        return b
    raise ValueError('shape product')


def shterms(a, b, out):
    """list of (index in a, index in b) contributing to out"""
    if a[0] == 's':
        return [((), out)]
    if b[0] == 's':
        return [(out, ())]
    n = a[1]
    if b[0] == 'm':
        return [((out[0], k), (k, out[1])) for k in range(n)]
    return [((out[0], k), (k,)) for k in range(n)]


def tmul(x, y):
    a, b = x.ty, y.ty
    ty = Ty(shmul(a.spin, b.spin), shmul(a.color, b.color), rprom(a.real, b.real), wprom(a.word, b.word))
    d = {}
    for (s, c) in ty.idx():
        acc = None
        for (s1, s2) in shterms(a.spin, b.spin, s):
            for (c1, c2) in shterms(a.color, b.color, c):
                t = cmul(x.d[(s1, c1)], y.d[(s2, c2)])
                acc = t if acc is None else cadd(acc, t)
        d[(s, c)] = acc
    return Val(ty, d)


def tmap(f, x, ty=None):
    return Val(ty or x.ty, {i: f(v) for i, v in x.d.items()})


def tneg(x):
    return tmap(cneg, x)


def tconj(x):
    return tmap(cconj, x)


def fl_(i):
    return (i[1], i[0]) if len(i) == 2 else i


def ttranspose(x, spin=True, color=True):
    return Val(x.ty, {(s, c): x.d[(fl_(s) if spin else s, fl_(c) if color else c)] for (s, c) in x.ty.idx()})


def tadj(x):
    return tconj(ttranspose(x))


def ttrace(x, spin=True, color=True):
    ty = x.ty.w(spin=S if spin and x.ty.spin[0] == 'm' else x.ty.spin, color=S if color and x.ty.color[0] == 'm' else x.ty.color)
    d = {}
    for (s, c) in ty.idx():
        acc = None
        ss = [(k, k) for k in range(x.ty.spin[1])] if spin and x.ty.spin[0] == 'm' else [s]
        cc = [(k, k) for k in range(x.ty.color[1])] if color and x.ty.color[0] == 'm' else [c]
        for a in ss:
            for b in cc:
                t = x.d[(a, b)]
                acc = t if acc is None else cadd(acc, t)
        d[(s, c)] = acc
    return Val(ty, d)


def treal(x):
    return Val(x.ty.w(real='r'), {i: (v[0], None) for i, v in x.d.items()})


def timag(x):
    return Val(x.ty.w(real='r'), {i: (ZERO if v[1] is None else v[1], None) for i, v in x.d.items()})


def tadd(x, y, sub=False):
    a, b = x.ty, y.ty
    r, w = rprom(a.real, b.real), wprom(a.word, b.word)

    def lift(u, v):
        if u == v:
            return u
        if u[0] == 's' and v[0] == 'm':
            return v
        if v[0] == 's' and u[0] == 'm':
            return u
        raise ValueError('shape sum')
    ty = Ty(lift(a.spin, b.spin), lift(a.color, b.color), r, w)
    d = {}
    f = csub if sub else cadd

    def get(z, s, c):
        # a scalar added to a matrix means a multiple of the unit matrix
        if z.ty.spin[0] == 's' and len(s) == 2:
            if s[0] != s[1]:
                return (ZERO, None)
            s = ()
        if z.ty.color[0] == 's' and len(c) == 2:
            if c[0] != c[1]:
                return (ZERO, None)
            c = ()
        return z.d[(s, c)]
    for (s, c) in ty.idx():
        t = f(get(x, s, c), get(y, s, c))
        if r == 'c' and t[1] is None:
            t = (t[0], ZERO)
        d[(s, c)] = t
    return Val(ty, d)


def tsub(x, y):
    return tadd(x, y, True)


def tdiv(x, y):
    """y is a scalar in spin and colour"""
    ty = x.ty.w(real=rprom(x.ty.real, y.ty.real), word=wprom(x.ty.word, y.ty.word))
    return Val(ty, {i: cdiv(v, y.d[((), ())]) for i, v in x.d.items()})


def ttimesi(x, s=1):
    return tmap(lambda v: ctimesi(v, s), x)


def tnorm2(x):
    acc = ZERO
    for v in x.d.values():
        acc = acc + v[0] * v[0]
        if v[1] is not None:
            acc = acc + v[1] * v[1]
    return Val(Ty(S, S, 'r', x.ty.word), {((), ()): (acc, None)})


def tinner(x, y):
    """sum conj(x) y over all components"""
    acc = None
    for i in x.ty.idx():
        t = cmul(cconj(x.d[i]), y.d[i])
        acc = t if acc is None else cadd(acc, t)
    return Val(Ty(S, S, rprom(x.ty.real, y.ty.real), wprom(x.ty.word, y.ty.word)), {((), ()): acc})


def tfull(x, ty):
    """x stored into an object of type ty (real into complex, scalar into matrix means the unit matrix)"""
    d = {}
    for (s, c) in ty.idx():
        s1, c1, z = s, c, False
        if x.ty.spin[0] == 's' and ty.spin[0] == 'm':
            s1 = ()
            z |= s[0] != s[1]
        if x.ty.color[0] == 's' and ty.color[0] == 'm':
            c1 = ()
            z |= c[0] != c[1]
        v = (ZERO, ZERO) if z else x.d[(s1, c1)]
        if ty.real == 'c':
            v = (v[0], ZERO if v[1] is None else v[1])
        d[(s, c)] = v
    return Val(ty, d)


def tconst(ty, f):
    return Val(ty, {i: f(i) for i in ty.idx()})


# ------------------------------------------------------------------ gamma matrices (chiral basis of QDP)
def _cm(rows):
    return [[x if isinstance(x, tuple) else (x, 0) for x in r] for r in rows]


_i, _mi = (0, 1), (0, -1)
G = [
    _cm([[0, 0, 0, _i], [0, 0, _i, 0], [0, _mi, 0, 0], [_mi, 0, 0, 0]]),
    _cm([[0, 0, 0, -1], [0, 0, 1, 0], [0, 1, 0, 0], [-1, 0, 0, 0]]),
    _cm([[0, 0, _i, 0], [0, 0, 0, _mi], [_mi, 0, 0, 0], [0, _i, 0, 0]]),
    _cm([[0, 0, 1, 0], [0, 0, 0, 1], [1, 0, 0, 0], [0, 1, 0, 0]]),
]
# Dirac-Pauli basis
GDP = [
    _cm([[0, 0, 0, _mi], [0, 0, _mi, 0], [0, _i, 0, 0], [_i, 0, 0, 0]]),
    _cm([[0, 0, 0, -1], [0, 0, 1, 0], [0, 1, 0, 0], [-1, 0, 0, 0]]),
    _cm([[0, 0, _mi, 0], [0, 0, 0, _i], [_i, 0, 0, 0], [0, _mi, 0, 0]]),
    _cm([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, -1, 0], [0, 0, 0, -1]]),
]


def nmul(a, b):
    n = len(a)
    r = []
    for i in range(n):
        row = []
        for j in range(n):
            re = im = 0
            for k in range(n):
                x, y = a[i][k], b[k][j]
                re += x[0] * y[0] - x[1] * y[1]
                im += x[0] * y[1] + x[1] * y[0]
            row.append((re, im))
        r.append(row)
    return r


ID4 = _cm([[1 if i == j else 0 for j in range(4)] for i in range(4)])


def gamma(n, basis=None):
    r = ID4
    for mu in range(4):
        if n >> mu & 1:
            r = nmul(r, (basis or G)[mu])
    return r


def nval(m):
    """numeric spin matrix as a value"""
    n = len(m)
    return Val(Ty(M(n), S, 'c', 'f'), {((i, j), ()): (C(m[i][j][0]), C(m[i][j][1])) for i in range(n) for j in range(n)})


# ------------------------------------------------------------------ contraction identities
def eps3():
    for a, b, c, s in ((0, 1, 2, 1), (1, 2, 0, 1), (2, 0, 1, 1), (0, 2, 1, -1), (1, 0, 2, -1), (2, 1, 0, -1)):
        yield a, b, c, s


def clifford(basis):
    """the generators satisfy {g_mu, g_nu} = 2 delta"""
    for m in range(4):
        for n in range(4):
            a, b = nmul(basis[m], basis[n]), nmul(basis[n], basis[m])
            for i in range(4):
                for j in range(4):
                    want = 2 if m == n and i == j else 0
                    if (a[i][j][0] + b[i][j][0], a[i][j][1] + b[i][j][1]) != (want, 0):
                        return False
    return True


assert clifford(G) and clifford(GDP)
