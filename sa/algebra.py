"""Witness lists for the site algebra."""
from sym import *
import spec
import vg
from spec import *
from wit import W

F = lambda **k: Ty(word='f', **k)
SHAPES = {
    's': (S, S), 'cm': (S, M(3)), 'cv': (S, V(3)), 'sm': (M(4), S), 'sv': (V(4), S),
    'fe': (V(4), V(3)), 'pr': (M(4), M(3)), 'hf': (V(2), V(3)), 'hp': (M(2), M(3)), 'cvsm': (M(4), V(3)),
}


def ty(sh, real='c', word='f'):
    a, b = SHAPES[sh]
    return Ty(a, b, real, word)


def un(ws, tag, fn, t, sp, dest=None):
    a = spec_type(sp, t)
    ws.append(W('%s_%s' % (tag, t.short()), dest or a, [t], 'd = %s(a)' % fn, sp))


def spec_type(sp, *ts):
    """destination type by running the oracle on placeholders"""
    vals = [load(t, mk('arg', 50 + i)) if isinstance(t, Ty) else None for i, t in enumerate(ts)]
    return sp(*vals).ty


def bi(ws, tag, expr, t, u, sp, dest=None, **kw):
    a = dest or spec_type(sp, t, u)
    ws.append(W('%s_%s_%s' % (tag, t.short(), u.short()), a, [t, u], expr, sp, **kw))


def mixes(words=('f', 'd')):
    return [(w1, w2) for w1 in words for w2 in words]


# ---------------------------------------------------------------- elementwise complex / real arithmetic
def cmpl(f):
    def sp(x, y):
        r = Ty(S, S, 'r', 'b')
        a, b = x.d[((), ())][0], y.d[((), ())][0]
        return Val(r, {((), ()): (ite(f(a, b), L(ONE), TZERO), None)})
    return sp


def fun(name):

    def sp(x):
        return tmap(lambda v: (vg.mathfn(name, (v[0],)), None), x)
    return sp


def where3(c, a, b):
    t = Ty(a.ty.spin, a.ty.color, rprom(a.ty.real, b.ty.real), wprom(a.ty.word, b.ty.word))
    cond = c.d[((), ())][0]
    cond = vg.asbool(cond) if isinstance(cond, T) else bnot(c_eq0(cond))

    def sel(x, y):
        return ite(cond, L(x), L(y))
    d = {}
    for i in t.idx():
        (ar, ai), (br, bi_) = a.d[i], b.d[i]
        d[i] = (sel(ar, br), None if t.real == 'r' else sel(ZERO if ai is None else ai, ZERO if bi_ is None else bi_))
    return Val(t, d)


def scalars():
    ws = []
    for w in 'fd':
        R, Z = ty('s', 'r', w), ty('s', 'c', w)
        for t in (R, Z):
            un(ws, 'neg', '-', t, tneg)
            un(ws, 'pos', '+', t, lambda x: x)
            un(ws, 'conj', 'conj', t, tconj)
            un(ws, 'adj', 'adj', t, tadj)
            un(ws, 'transpose', 'transpose', t, lambda x: x)
            un(ws, 'trace', 'trace', t, lambda x: x)
            un(ws, 'real', 'real', t, treal)
            un(ws, 'realTrace', 'realTrace', t, treal)
            un(ws, 'localNorm2', 'localNorm2', t, tnorm2)
        un(ws, 'imag', 'imag', Z, timag)
        un(ws, 'imagTrace', 'imagTrace', Z, timag)
        un(ws, 'timesI', 'timesI', Z, lambda x: ttimesi(x))
        un(ws, 'timesMinusI', 'timesMinusI', Z, lambda x: ttimesi(x, -1))
        bi(ws, 'cmplx', 'd = cmplx(a,b)', R, R, lambda x, y: Val(Z, {((), ()): (x.d[((), ())][0], y.d[((), ())][0])}), dest=Z)
        for f in ('sqrt', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'cosh', 'sinh', 'tanh', 'exp', 'log', 'log10', 'fabs', 'ceil', 'floor'):
            un(ws, f, f, R, fun(f))

        for f in ('pow', 'atan2'):
            bi(ws, f, 'd = %s(a,b)' % f, R, R, lambda x, y, f=f: Val(R, {((), ()): (vg.mathfn(f, (x.d[((), ())][0], y.d[((), ())][0])), None)}), dest=R)
        for op, f in (('<', lambda a, b: c_flt(a - b)), ('<=', lambda a, b: c_fle(a - b)), ('>', lambda a, b: c_flt(b - a)),
                      ('>=', lambda a, b: c_fle(b - a)), ('==', lambda a, b: c_feq(a - b)), ('!=', lambda a, b: bnot(c_feq(a - b)))):
            n = {'<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '==': 'eq', '!=': 'ne'}[op]
            bi(ws, n, 'd = a %s b' % op, R, R, cmpl(f), dest=Ty(S, S, 'r', 'b'))
    for w1, w2 in mixes():
        R, Z, R2, Z2 = ty('s', 'r', w1), ty('s', 'c', w1), ty('s', 'r', w2), ty('s', 'c', w2)
        for t in (R, Z):
            for u in (R2, Z2):
                bi(ws, 'add', 'd = a + b', t, u, tadd)
                bi(ws, 'sub', 'd = a - b', t, u, tsub)
                bi(ws, 'mul', 'd = a * b', t, u, tmul)
                bi(ws, 'div', 'd = a / b', t, u, tdiv)
                if t.real != u.real:
                    continue
                bi(ws, 'adjMul', 'd = adj(a) * b', t, u, lambda x, y: tmul(tadj(x), y))
                bi(ws, 'mulAdj', 'd = a * adj(b)', t, u, lambda x, y: tmul(x, tadj(y)))
                bi(ws, 'adjMulAdj', 'd = adj(a) * adj(b)', t, u, lambda x, y: tmul(tadj(x), tadj(y)))
                bi(ws, 'localInner', 'd = localInnerProduct(a,b)', t, u, tinner)
                bi(ws, 'localInnerReal', 'd = localInnerProductReal(a,b)', t, u, lambda x, y: treal(tinner(x, y)))
                bi(ws, 'traceMul', 'd = trace(a*b)', t, u, tmul)
        # compound assignment
        for t in (R, Z):
            for u in (R2, Z2):
                if t.real == 'r' and u.real == 'c':
                    continue
                for op, f in (('+=', tadd), ('-=', tsub), ('*=', tmul), ('/=', tdiv)):
                    n = {'+=': 'add', '-=': 'sub', '*=': 'mul', '/=': 'div'}[op]
                    ws.append(W('%sassign_%s_%s' % (n, t.short(), u.short()), t, [u], 'd %s a' % op, f, inout=True))
                ws.append(W('assign_%s_%s' % (t.short(), u.short()), t, [u], 'd = a', lambda x: x))
        for t in (R, Z):
            for u in (R2, Z2):
                if w1 == w2:
                    ws.append(W('where_%s_%s' % (t.short(), u.short()), spec_type(lambda a, b: tadd(a, b), t, u), [Ty(S, S, 'r', 'b'), t, u], 'd = where(a,b,c)', where3))
    # integers
    I = ty('s', 'r', 'i')
    B = Ty(S, S, 'r', 'b')

    def iop(f):
        return lambda x, y: Val(I, {((), ()): (f(x.d[((), ())][0], y.d[((), ())][0]), None)})

    for n, op, f in (('add', '+', lambda a, b: a + b), ('sub', '-', lambda a, b: a - b), ('mul', '*', lambda a, b: a * b),
                     ('and', '&', lambda a, b: vg.intop('and', 32, a, b, {})), ('or', '|', lambda a, b: vg.intop('or', 32, a, b, {})),
                     ('xor', '^', lambda a, b: vg.intop('xor', 32, a, b, {})), ('shl', '<<', lambda a, b: mk('shl', a, b)),
                     ('div', '/', lambda a, b: vg.intop('sdiv', 32, a, b, {})), ('mod', '%', lambda a, b: vg.intop('srem', 32, a, b, {})),
                     ('shr', '>>', lambda a, b: mk('ashr', a, b))):
        bi(ws, 'i' + n, 'd = a %s b' % op, I, I, iop(f), dest=I)
    for n, op, f in (('lt', '<', lambda a, b: c_lt(a, b)), ('le', '<=', lambda a, b: c_le0(a - b)), ('gt', '>', lambda a, b: c_lt(b, a)),
                     ('ge', '>=', lambda a, b: c_le0(b - a)), ('eq', '==', lambda a, b: c_eq0(a - b)), ('ne', '!=', lambda a, b: bnot(c_eq0(a - b)))):
        bi(ws, 'i' + n, 'd = a %s b' % op, I, I, cmpl(f), dest=B)
    for n, op, f in (('and', '&&', band), ('or', '||', bor), ('beq', '==', lambda a, b: ite(a, b, bnot(b)))):
        bi(ws, 'b' + n, 'd = a %s b' % op, B, B, cmpl(lambda a, b, f=f: f(bnot(c_eq0(a)), bnot(c_eq0(b)))), dest=B)
    un(ws, 'not', '!', B, lambda x: Val(B, {((), ()): (ite(c_eq0(x.d[((), ())][0]), L(ONE), TZERO), None)}))
    for n, op, f in (('add', '+=', lambda a, b: a + b), ('sub', '-=', lambda a, b: a - b), ('mul', '*=', lambda a, b: a * b),
                     ('and', '&=', lambda a, b: vg.intop('and', 32, a, b, {})), ('or', '|=', lambda a, b: vg.intop('or', 32, a, b, {})),
                     ('xor', '^=', lambda a, b: vg.intop('xor', 32, a, b, {})), ('mod', '%=', lambda a, b: vg.intop('srem', 32, a, b, {})),
                     ('shl', '<<=', lambda a, b: mk('shl', a, b)), ('shr', '>>=', lambda a, b: mk('ashr', a, b))):
        ws.append(W('i%sassign' % n, I, [I], 'd %s a' % op, iop(f), inout=True))
    return ws


# ---------------------------------------------------------------- colour and spin matrix / vector algebra
LINEAR = ['cm', 'cv', 'sm', 'sv', 'fe', 'pr', 'hf', 'hp', 'cvsm']


def can_mul(a, b):
    for x, y in ((SHAPES[a][0], SHAPES[b][0]), (SHAPES[a][1], SHAPES[b][1])):
        if x[0] == 's' or y[0] == 's':
            continue
        if x[0] == 'm' and y[0] in 'mv' and x[1] == y[1]:
            continue
        return False
    return True


def hasmat(s):
    return SHAPES[s][0][0] == 'm' or SHAPES[s][1][0] == 'm'


def isvec(s):
    return SHAPES[s][0][0] == 'v' or SHAPES[s][1][0] == 'v'


def matrices():
    ws = []
    for w in 'fd':
        for s in LINEAR:
            t = ty(s, 'c', w)
            un(ws, 'neg', '-', t, tneg)
            un(ws, 'pos', '+', t, lambda x: x)
            un(ws, 'conj', 'conj', t, tconj)
            un(ws, 'timesI', 'timesI', t, lambda x: ttimesi(x))
            un(ws, 'timesMinusI', 'timesMinusI', t, lambda x: ttimesi(x, -1))
            un(ws, 'real', 'real', t, treal)
            un(ws, 'imag', 'imag', t, timag)
            un(ws, 'localNorm2', 'localNorm2', t, tnorm2)
            if not isvec(s):
                un(ws, 'adj', 'adj', t, tadj)
                un(ws, 'transpose', 'transpose', t, ttranspose)
                un(ws, 'trace', 'trace', t, ttrace)
                un(ws, 'realTrace', 'realTrace', t, lambda x: treal(ttrace(x)))
                un(ws, 'imagTrace', 'imagTrace', t, lambda x: timag(ttrace(x)))
                un(ws, 'traceColor', 'traceColor', t, lambda x: ttrace(x, spin=False))
                un(ws, 'traceSpin', 'traceSpin', t, lambda x: ttrace(x, color=False))
                un(ws, 'transposeColor', 'transposeColor', t, lambda x: ttranspose(x, spin=False))
                un(ws, 'transposeSpin', 'transposeSpin', t, lambda x: ttranspose(x, color=False))
    for w1, w2 in mixes():
        same = w1 == w2
        for s in LINEAR:
            t, u = ty(s, 'c', w1), ty(s, 'c', w2)
            bi(ws, 'add', 'd = a + b', t, u, tadd)
            bi(ws, 'sub', 'd = a - b', t, u, tsub)
            bi(ws, 'localInner', 'd = localInnerProduct(a,b)', t, u, tinner)
            bi(ws, 'localInnerReal', 'd = localInnerProductReal(a,b)', t, u, lambda x, y: treal(tinner(x, y)))
            ws.append(W('assign_%s_%s' % (t.short(), u.short()), t, [u], 'd = a', lambda x: x))
            ws.append(W('addassign_%s_%s' % (t.short(), u.short()), t, [u], 'd += a', tadd, inout=True))
            ws.append(W('subassign_%s_%s' % (t.short(), u.short()), t, [u], 'd -= a', tsub, inout=True))
            if same:
                ws.append(W('where_%s' % t.short(), t, [Ty(S, S, 'r', 'b'), t, u], 'd = where(a,b,c)', where3))
                ws.append(W('zero_%s' % t.short(), t, [], 'd = zero', lambda t=t: tconst(t, lambda i: (ZERO, ZERO))))
            for r in 'rc':
                k = ty('s', r, w2)
                if same or s in ('cm', 'fe'):
                    bi(ws, 'mul', 'd = a * b', t, k, tmul)
                    bi(ws, 'mul', 'd = b * a', t, k, lambda x, y: tmul(y, x)) if False else None
                    bi(ws, 'mul', 'd = a * b', k, t, tmul)
                    bi(ws, 'div', 'd = a / b', t, k, tdiv)
                    ws.append(W('mulassign_%s_%s' % (t.short(), k.short()), t, [k], 'd *= a', tmul, inout=True))
                    ws.append(W('divassign_%s_%s' % (t.short(), k.short()), t, [k], 'd /= a', tdiv, inout=True))
            if hasmat(s) and not isvec(s) and same:
                for r in 'rc':
                    k = ty('s', r, w2)
                    bi(ws, 'addunit', 'd = a + b', t, k, tadd)
                    bi(ws, 'subunit', 'd = a - b', t, k, tsub)
                    bi(ws, 'addunit', 'd = a + b', k, t, tadd)
                    bi(ws, 'subunit', 'd = a - b', k, t, tsub)
                    ws.append(W('addassign_%s_%s' % (t.short(), k.short()), t, [k], 'd += a', tadd, inout=True))
                    ws.append(W('subassign_%s_%s' % (t.short(), k.short()), t, [k], 'd -= a', tsub, inout=True))
                    ws.append(W('assign_%s_%s' % (t.short(), k.short()), t, [k], 'd = a', lambda x: x))
        for a in LINEAR:
            for b in LINEAR:
                if not can_mul(a, b) or 'cvsm' in (a, b):
                    continue
                if not same and not (a in ('cm', 'sm') and b in ('cm', 'fe', 'sv', 'sm', 'cv')):
                    continue
                t, u = ty(a, 'c', w1), ty(b, 'c', w2)
                bi(ws, 'mul', 'd = a * b', t, u, tmul)
                if not isvec(a):
                    bi(ws, 'adjMul', 'd = adj(a) * b', t, u, lambda x, y: tmul(tadj(x), y))
                    if not isvec(b):
                        bi(ws, 'mulAdj', 'd = a * adj(b)', t, u, lambda x, y: tmul(x, tadj(y)))
                        bi(ws, 'adjMulAdj', 'd = adj(a) * adj(b)', t, u, lambda x, y: tmul(tadj(x), tadj(y)))
                        if same or (a, b) == ('cm', 'cm'):
                            bi(ws, 'traceMul', 'd = trace(a*b)', t, u, lambda x, y: ttrace(tmul(x, y)))
                            bi(ws, 'realTraceMul', 'd = realTrace(a*b)', t, u, lambda x, y: treal(ttrace(tmul(x, y))))
                            bi(ws, 'imagTraceMul', 'd = imagTrace(a*b)', t, u, lambda x, y: timag(ttrace(tmul(x, y))))
                            bi(ws, 'traceColorMul', 'd = traceColor(a*b)', t, u, lambda x, y: ttrace(tmul(x, y), spin=False))
                            bi(ws, 'traceSpinMul', 'd = traceSpin(a*b)', t, u, lambda x, y: ttrace(tmul(x, y), color=False))
    # matrix compound multiply by a matrix
    for w in 'fd':
        for s in ('cm', 'sm', 'pr'):
            t = ty(s, 'c', w)
            bi(ws, 'aliasMul', 'd = a; d = d * b', t, t, tmul)
            bi(ws, 'aliasAdj', 'd = a; d = adj(d) * b', t, t, lambda x, y: tmul(tadj(x), y))
            bi(ws, 'chain', 'd = a * b * adj(a)', t, t, lambda x, y: tmul(tmul(x, y), tadj(x)))
    return ws


def louter(x, y):
    """x_i conj(y_j)"""
    def sh(k):
        return M(k[1]) if k[0] == 'v' else S
    t = Ty(sh(x.ty.spin), sh(x.ty.color), rprom(x.ty.real, y.ty.real), wprom(x.ty.word, y.ty.word))
    d = {}
    for (s, c) in t.idx():
        i = (s[:1], c[:1])
        j = (s[1:], c[1:])
        d[(s, c)] = cmul(x.d[i], cconj(y.d[j]))
    return Val(t, d)


def colorinner(x, y):
    """contraction over colour of conj(x) y, spin handled as product adj(x)*y for spin matrices"""
    if x.ty.spin[0] == 'm':
        t = Ty(x.ty.spin, S, 'c', wprom(x.ty.word, y.ty.word))
        d = {}
        for (s, c) in t.idx():
            acc = None
            for k in range(x.ty.spin[1]):
                for cc in idx(x.ty.color):
                    v = cmul(cconj(x.d[((k, s[0]), cc)]), y.d[((k, s[1]), cc)])
                    acc = v if acc is None else cadd(acc, v)
            d[(s, c)] = acc
        return Val(t, d)
    t = Ty(x.ty.spin, S, 'c', wprom(x.ty.word, y.ty.word))
    d = {}
    for (s, c) in t.idx():
        acc = None
        for cc in idx(x.ty.color):
            v = cmul(cconj(x.d[(s, cc)]), y.d[(s, cc)])
            acc = v if acc is None else cadd(acc, v)
        d[(s, c)] = acc
    return Val(t, d)


def colorContractM(x, y, z):
    acc = (ZERO, ZERO)
    for a1, b1, c1, s1 in eps3():
        for a2, b2, c2, s2 in eps3():
            v = cmul(cmul(x.d[((), (a1, a2))], y.d[((), (b1, b2))]), z.d[((), (c1, c2))])
            acc = cadd(acc, v) if s1 * s2 > 0 else csub(acc, v)
    return Val(Ty(S, S, 'c', x.ty.word), {((), ()): acc})


def colorContractV(x, y, z):
    acc = (ZERO, ZERO)
    for a, b, c, s in eps3():
        v = cmul(cmul(x.d[((), (a,))], y.d[((), (b,))]), z.d[((), (c,))])
        acc = cadd(acc, v) if s > 0 else csub(acc, v)
    return Val(Ty(S, S, 'c', x.ty.word), {((), ()): acc})


def crossV(x, y):
    t = Ty(S, V(3), 'c', x.ty.word)
    d = {((), (i,)): (ZERO, ZERO) for i in range(3)}
    for a, b, c, s in eps3():
        v = cmul(x.d[((), (b,))], y.d[((), (c,))])
        k = ((), (a,))
        d[k] = cadd(d[k], v) if s > 0 else csub(d[k], v)
    return Val(t, d)


def vecContract(x, y):
    acc = None
    for i in x.ty.idx():
        v = cmul(x.d[i], y.d[i])
        acc = v if acc is None else cadd(acc, v)
    return Val(Ty(S, S, 'c', x.ty.word), {((), ()): acc})


def qcontract(which):
    """quark contraction of two propagators over the two named spin indices; the colour
    part is dest^{k2,k1} = sum eps^{i1 j1 k1} eps^{i2 j2 k2} Q1^{i1 i2} Q2^{j1 j2}"""
    def sp(x, y):
        d = {}
        t = Ty(M(4), M(3), 'c', x.ty.word)

        def col(acc, s1, s2):
            for a1, b1, c1, g1 in eps3():
                for a2, b2, c2, g2 in eps3():
                    v = cmul(x.d[(s1, (a1, a2))], y.d[(s2, (b1, b2))])
                    k = (c2, c1)
                    acc[k] = cadd(acc[k], v) if g1 * g2 > 0 else csub(acc[k], v)
        for i in range(4):
            for j in range(4):
                acc = {(a, b): (ZERO, ZERO) for a in range(3) for b in range(3)}
                for k in range(4):
                    s1, s2 = {'13': ((k, i), (k, j)), '14': ((k, i), (j, k)), '23': ((i, k), (k, j)), '24': ((i, k), (j, k)),
                              '12': ((k, k), (i, j)), '34': ((i, j), (k, k))}[which]
                    col(acc, s1, s2)
                for c in acc:
                    d[((i, j), c)] = acc[c]
        return Val(t, d)
    return sp


def peek(kind, i, j=None):
    def sp(x):
        t = x.ty.w(spin=S) if 'Spin' in kind else x.ty.w(color=S)
        k = (i,) if j is None else (i, j)
        return Val(t, {(s, c): x.d[(k, c) if 'Spin' in kind else (s, k)] for (s, c) in t.idx()})
    return sp


def poke(kind, i, j=None):
    def sp(old, x):
        k = (i,) if j is None else (i, j)
        d = dict(old.d)
        for (s, c) in x.ty.idx():
            d[(k, c) if 'Spin' in kind else (s, k)] = x.d[(s, c)]
        return Val(old.ty, d)
    return sp


def contractions():
    ws = []
    for w in 'fd':
        for s in ('cv', 'sv', 'fe'):
            t = ty(s, 'c', w)
            bi(ws, 'outer', 'd = outerProduct(a,b)', t, t, louter)
            r = ty(s, 'r', w)
            for x, y in ((t, r), (r, t), (r, r)):
                bi(ws, 'outer', 'd = outerProduct(a,b)', x, y, louter)
        for x, y in (('c', 'c'), ('c', 'r'), ('r', 'c'), ('r', 'r')):
            bi(ws, 'outer', 'd = outerProduct(a,b)', ty('s', x, w), ty('s', y, w), louter)
            bi(ws, 'outer', 'd = outerProduct(a,b)', ty('cv', x, w), ty('cv', y, 'd' if w == 'f' else 'f'), louter)
        bi(ws, 'tSpinOuter', 'd = traceSpin(outerProduct(a,b))', ty('fe', 'c', w), ty('fe', 'c', w), lambda x, y: ttrace(louter(x, y), color=False))
        bi(ws, 'tSpinOuter', 'd = traceSpin(outerProduct(a,b))', ty('sv', 'c', w), ty('sv', 'c', w), lambda x, y: ttrace(louter(x, y), color=False))
        bi(ws, 'tOuter', 'd = trace(outerProduct(a,b))', ty('fe', 'c', w), ty('fe', 'c', w), lambda x, y: ttrace(louter(x, y)))
        for s in ('cv', 'fe', 'cvsm'):
            t = ty(s, 'c', w)
            bi(ws, 'colorInner', 'd = localColorInnerProduct(a,b)', t, t, colorinner)
        for wh in ('12', '13', '14', '23', '24', '34'):
            t = ty('pr', 'c', w)
            bi(ws, 'qc' + wh, 'd = quarkContract%s(a,b)' % wh, t, t, qcontract(wh))
        t = ty('pr', 'c', w)
        bi(ws, 'tsqc13', 'd = traceSpin(quarkContract13(a,b))', t, t, lambda x, y: ttrace(qcontract('13')(x, y), color=False))
        bi(ws, 'tqc13', 'd = trace(quarkContract13(a,b))', t, t, lambda x, y: ttrace(qcontract('13')(x, y)))
        m, v = ty('cm', 'c', w), ty('cv', 'c', w)
        ws.append(W('ccM_' + w, ty('s', 'c', w), [m, m, m], 'd = colorContract(a,b,c)', colorContractM))
        ws.append(W('ccV_' + w, ty('s', 'c', w), [v, v, v], 'd = colorContract(a,b,c)', colorContractV))
        bi(ws, 'cvc', 'd = colorVectorContract(a,b)', v, v, vecContract)
        bi(ws, 'ccross', 'd = colorCrossProduct(a,b)', v, v, crossV)
        for s, kind, rng, two in (('cm', 'Color', 3, 1), ('cv', 'Color', 3, 0), ('sm', 'Spin', 4, 1), ('sv', 'Spin', 4, 0),
                                  ('pr', 'Color', 3, 1), ('pr', 'Spin', 4, 1), ('fe', 'Color', 3, 0), ('fe', 'Spin', 4, 0)):
            t = ty(s, 'c', w)
            for i in range(rng):
                for j in (range(rng) if two else [None]):
                    a = '%d' % i + ('' if j is None else ',%d' % j)
                    n = '%s_%s_%s' % (kind, t.short(), a.replace(',', ''))
                    sp = peek(kind, i, j)
                    rt = spec_type(sp, t)
                    ws.append(W('peek' + n, rt, [t], 'd = peek%s(a,%s)' % (kind, a), sp))
                    ws.append(W('poke' + n, t, [rt], 'poke%s(d,a,%s)' % (kind, a), poke(kind, i, j), inout=True))
    return ws


# ---------------------------------------------------------------- gamma matrices and spin projection
def lmulN(m):
    return lambda x: tmul(nvw(m, x.ty.word), x)


def rmulN(m):
    return lambda x: tmul(x, nvw(m, x.ty.word))


def nvw(m, w):
    v = nval(m)
    return Val(v.ty.w(word=w), v.d)


def proj(mu, sign):
    """upper half of (1 + sign gamma_mu) psi"""
    g = G[mu]

    def sp(x):
        h = x.ty.w(spin=('v' if x.ty.spin[0] == 'v' else 'm', 2)) if x.ty.spin[0] == 'v' else None
        t = h
        d = {}
        y = tmul(nvw(g, x.ty.word), x)
        for (s, c) in t.idx():
            d[(s, c)] = cadd(x.d[(s, c)], y.d[(s, c)] if sign > 0 else cneg(y.d[(s, c)]))
        return Val(t, d)
    return sp


def recon(mu, sign):
    """full spinor of (1 + sign gamma_mu) psi from its upper half h: the lower half is
    fixed by gamma_mu chi = sign chi, chi_lower = sign * (gamma_mu)_{lower,upper} h"""
    g = G[mu]

    def sp(h):
        t = h.ty.w(spin=V(4))
        d = {}
        for (s, c) in t.idx():
            if s[0] < 2:
                d[(s, c)] = h.d[(s, c)]
            else:
                acc = (ZERO, ZERO)
                for k in range(2):
                    x, y = g[s[0]][k]
                    if (x, y) != (0, 0):
                        acc = cadd(acc, cmul((C(x * sign), C(y * sign)), h.d[((k,), c)]))
                d[(s, c)] = acc
        return Val(t, d)
    return sp


def chiral(sign):
    g5 = gamma(15)

    def sp(x):
        y = tmul(nvw(g5, x.ty.word), x)
        d = {}
        for i in x.ty.idx():
            v = cadd(x.d[i], y.d[i] if sign > 0 else cneg(y.d[i]))
            d[i] = (v[0].scale(Fraction(1, 2)), v[1].scale(Fraction(1, 2)))
        return Val(x.ty, d)
    return sp


def gammas():
    ws = []
    for w in 'fd':
        for n in range(16):
            g = gamma(n)
            for s in ('sv', 'fe', 'sm', 'pr'):
                if w == 'd' and s in ('sv', 'sm'):
                    continue
                t = ty(s, 'c', w)
                un(ws, 'gl%d' % n, 'Gamma(%d) * ' % n, t, lmulN(g))
                un(ws, 'gcl%d' % n, 'GammaConst<4,%d>() * ' % n, t, lmulN(g))
                if s in ('sm', 'pr'):
                    ws.append(W('gr%d_%s' % (n, t.short()), t, [t], 'd = a * Gamma(%d)' % n, rmulN(g)))
                    ws.append(W('gcr%d_%s' % (n, t.short()), t, [t], 'd = a * GammaConst<4,%d>()' % n, rmulN(g)))
            gd = gamma(n, GDP)
            for s in ('fe', 'pr') if w == 'f' else ('fe',):
                t = ty(s, 'c', w)
                un(ws, 'dpl%d' % n, 'GammaDP(%d) * ' % n, t, lmulN(gd))
                un(ws, 'dpcl%d' % n, 'GammaConstDP<4,%d>() * ' % n, t, lmulN(gd))
                if s in ('sm', 'pr'):
                    ws.append(W('dpr%d_%s' % (n, t.short()), t, [t], 'd = a * GammaDP(%d)' % n, rmulN(gd)))
                    ws.append(W('dpcr%d_%s' % (n, t.short()), t, [t], 'd = a * GammaConstDP<4,%d>()' % n, rmulN(gd)))
        for mu in range(4):
            for sg, nm in ((1, 'Plus'), (-1, 'Minus')):
                for s in ('fe', 'sv'):
                    t = ty(s, 'c', w)
                    un(ws, 'proj%d%s' % (mu, nm), 'spinProjectDir%d%s' % (mu, nm), t, proj(mu, sg))
                    h = t.w(spin=V(2))
                    un(ws, 'recon%d%s' % (mu, nm), 'spinReconstructDir%d%s' % (mu, nm), h, recon(mu, sg))
                    one = tmulsum(mu, sg)
                    un(ws, 'rp%d%s' % (mu, nm), 'spinReconstructDir%d%s(spinProjectDir%d%s' % (mu, nm, mu, nm), t, one)
                    ws[-1].body = 'd = spinReconstructDir%d%s(spinProjectDir%d%s(a))' % (mu, nm, mu, nm)
                cm, fe = ty('cm', 'c', w), ty('fe', 'c', w)
                bi(ws, 'mp%d%s' % (mu, nm), 'd = a*spinProjectDir%d%s(b)' % (mu, nm), cm, fe, lambda x, y, mu=mu, sg=sg: tmul(x, proj(mu, sg)(y)))
                bi(ws, 'amp%d%s' % (mu, nm), 'd = adj(a)*spinProjectDir%d%s(b)' % (mu, nm), cm, fe, lambda x, y, mu=mu, sg=sg: tmul(tadj(x), proj(mu, sg)(y)))
                hf = ty('hf', 'c', w)
                bi(ws, 'rm%d%s' % (mu, nm), 'd = spinReconstructDir%d%s(a*b)' % (mu, nm), cm, hf, lambda x, y, mu=mu, sg=sg: recon(mu, sg)(tmul(x, y)))
        for s in ('fe', 'sv', 'pr', 'sm'):
            t = ty(s, 'c', w)
            un(ws, 'chp', 'chiralProjectPlus', t, chiral(1))
            un(ws, 'chm', 'chiralProjectMinus', t, chiral(-1))
    return ws


def tmulsum(mu, sg):
    def sp(x):
        y = tmul(nvw(G[mu], x.ty.word), x)
        return tadd(x, y) if sg > 0 else tsub(x, y)
    return sp
