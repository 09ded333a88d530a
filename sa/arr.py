"""Multi-dimensional arrays (P20)."""
from aw import *
from sym import *
import geo
import vg

ET = {'d': ('double', 8, 'd'), 'i': ('int', 4, 'v')}


def acc1(c):
    t = ET[c][0]
    return ('extern "C" int w_acc_n%(c)s(const multi1d<%(t)s>& a){return a.size();}\n'
            'extern "C" const %(t)s* w_acc_e%(c)s(const multi1d<%(t)s>& a,int i){return &a[i];}\n') % {'c': c, 't': t}


def accn(n, c='d'):
    t = ET[c][0]
    s = ''
    for k in range(1, n + 1):
        s += 'extern "C" int w_acc_m%d_s%d(const multi%dd<%s>& a){return a.size%d();}\n' % (n, k, n, t, k)
    s += 'extern "C" const %s* w_acc_m%d_p(const multi%dd<%s>& a){return &a(%s);}\n' % (t, n, n, t, ','.join('0' * n))
    return s


def prelude(ws):
    return OUT + acc1('d') + acc1('i') + ''.join(accn(n) for n in (2, 3, 4, 5)) + ND


ND = '''extern "C" int w_acc_nd_r(const multiNd<double>& a){return a.size().size();}
extern "C" int w_acc_nd_n(const multiNd<double>& a,int i){return a.size(i);}
extern "C" int w_acc_nd_num(const multiNd<double>& a){return a.numElem();}
extern "C" const double* w_acc_nd_p(const multiNd<double>& a){return &a(0);}
'''


def el(c, a, i='i'):
    return lambda E: ld(E, c, a, i)


def ld(E, c, a, i):
    return mk('ld', E('e' + c, a, i), ET[c][1])


def one():
    ws = []
    for c in 'di':
        t, sz, slot = ET[c]
        M = 'multi1d<%s>' % t
        A1 = ['const %s& a' % M, 'int i']
        A2 = ['const %s& a' % M, 'const %s& b' % M, 'int i']
        AS = ['const %s& a' % M, 'const %s& s' % t, 'int i']
        ina = lambda E, c=c: band(c_le0(-E['i']), c_lt(E['i'], E('n' + c, 'a')))
        inab = lambda E, c=c, ina=ina: band(ina(E), c_eq0(E('n' + c, 'a') - E('n' + c, 'b')))
        sv = lambda E, sz=sz: mk('ld', E['s'], sz)
        s0 = slot + '0'
        s1 = slot + '1'
        N = lambda E, c=c: E('n' + c, 'a')
        R = {'i': (0, 1 << 30)}
        R2 = {'n': (0, 1 << 24), 'i': (0, 1 << 30)}
        # construction, size, copying
        ws.append(AW('ct_' + c, ['int n', 'int i'], '%s c(n); o.v[0]=c.size(); o.v[1]=c.size1()' % M, [('size', 'v0', lambda E: E['n']), ('size', 'v1', lambda E: E['n'])], ranges=R2))
        ws.append(AW('rs_' + c, ['int m', 'int n'], '%s c(m); c.resize(n); o.v[0]=c.size()' % M, [('size', 'v0', lambda E: E['n'])], ranges={'n': (0, 1 << 24), 'm': (0, 1 << 24)}))
        ws.append(AW('cc_' + c, A1, '%s c(a); o.v[0]=c.size(); o.%s[0]=c[i]; o.%s[1]=c(i)' % (M, slot, slot), [('size', 'v0' if c == 'd' else 'v0', N)] * (c == 'd') +
                     [('element', s1, el(c, 'a'))] + [('element', s0, el(c, 'a'))] * (c == 'd'), ina, ranges=R))
        ws.append(AW('ccw_' + c, A1 + ['int j'], '%s c(a); c[j]=7; o.%s[0]=a[i]; o.%s[1]=c[i]' % (M, slot, slot), [('source after writing to the copy', s0, el(c, 'a')),
                     ('copy', s1, lambda E, c=c: ite(c_eq0(E['i'] - E['j']), L(C(7)), L(ld(E, c, 'a', 'i'))))], lambda E, ina=ina: band(ina(E), c_lt(E['j'], N(E))), ranges={'i': (0, 1 << 30), 'j': (0, 1 << 30)}))
        ws.append(AW('as_' + c, A1 + ['int m'], '%s c(m); c = a; o.v[2]=c.size(); o.%s[0]=c[i]; o.%s[1]=a[i]' % (M, slot, slot),
                     [('size', 'v2', N), ('element', s0, el(c, 'a')), ('source', s1, el(c, 'a'))], ina, ranges={'i': (0, 1 << 30), 'm': (0, 1 << 24)}))
        ws.append(AW('fill_' + c, ['int n', 'const %s& s' % t, 'int i'], '%s c(n); c = s; o.%s[0]=c[i]' % (M, slot), [('element', s0, sv)], lambda E: c_lt(E['i'], E['n']), ranges=R2))
        ws.append(AW('asp_' + c, ['int n', 'const %s* p' % t, 'int i'], '%s c(n); c = p; o.%s[0]=c[i]' % (M, slot), [('element', s0, lambda E, sz=sz: mk('ld', E['p'] + E['i'].scale(sz), sz))], lambda E: c_lt(E['i'], E['n']), ranges=R2))
        ws.append(AW('slice_' + c, A1, 'o.%s[0]=a.slice()[i]' % slot, [('element', s0, el(c, 'a'))], ina, ranges=R))
        ws.append(AW('view_' + c, ['%s* p' % t, 'int n', 'int i', 'int j', '%s x' % t], '%s v(p, n); v[j] = x; o.v[2]=v.size(); o.%s[0]=v[i]; o.%s[1]=p[i]' % (M, slot, slot),
                     [('size', 'v2', lambda E: E['n']), ('element', s0, lambda E, sz=sz: ite(c_eq0(E['i'] - E['j']), L(E['x']), L(mk('ld', E['p'] + E['i'].scale(sz), sz)))),
                      ('storage', s1, lambda E, sz=sz: ite(c_eq0(E['i'] - E['j']), L(E['x']), L(mk('ld', E['p'] + E['i'].scale(sz), sz))))], ranges={'i': (0, 1 << 30), 'j': (0, 1 << 30), 'n': (0, 1 << 24)}))
        # arithmetic
        for nm, op, f in (('add', '+', lambda x, y: x + y), ('sub', '-', lambda x, y: x - y), ('mul', '*', lambda x, y: x * y), ('div', '/', None)):
            if f is None:
                if c == 'i':
                    continue
                f = lambda x, y: (x * inv(y))
            ws.append(AW('%s_%s' % (nm, c), A2, '%s c(a %s b); o.v[2]=c.size(); o.%s[0]=c[i]' % (M, op, slot), [('size', 'v2', N), ('element', s0, lambda E, f=f, c=c: f(ld(E, c, 'a', 'i'), ld(E, c, 'b', 'i')))], inab, ranges=R))
            ws.append(AW('%sas_%s' % (nm, c), AS, '%s c(a %s s); o.v[2]=c.size(); o.%s[0]=c[i]' % (M, op, slot), [('size', 'v2', N), ('element', s0, lambda E, f=f, c=c, sv=sv: f(ld(E, c, 'a', 'i'), sv(E)))], ina, ranges=R))
            ws.append(AW('%ssa_%s' % (nm, c), AS, '%s c(s %s a); o.v[2]=c.size(); o.%s[0]=c[i]' % (M, op, slot), [('size', 'v2', N), ('element', s0, lambda E, f=f, c=c, sv=sv: f(sv(E), ld(E, c, 'a', 'i')))], ina, ranges=R))
            for q, extra in (('', None),):
                ws.append(AW('%seq_%s' % (nm, c), A2, '%s c(a); c %s= b; o.v[2]=c.size(); o.%s[0]=c[i]; o.%s[1]=b[i]' % (M, op, slot, slot),
                             [('size', 'v2', N), ('element', s0, lambda E, f=f, c=c: f(ld(E, c, 'a', 'i'), ld(E, c, 'b', 'i'))), ('operand', s1, el(c, 'b'))], inab, ranges=R))
                ws.append(AW('%seqs_%s' % (nm, c), AS, '%s c(a); c %s= s; o.%s[0]=c[i]' % (M, op, slot), [('element', s0, lambda E, f=f, c=c, sv=sv: f(ld(E, c, 'a', 'i'), sv(E)))], ina, ranges=R))
            ws.append(AW('%sx_%s' % (nm, c), ['%s& a' % M, 'const %s& b' % M], 'a %s= b' % op, [], ret=lambda E, c=c: c_eq0(E('n' + c, 'a') - E('n' + c, 'b')),
                         guard=lambda E, c=c: band(c_le0(-E('n' + c, 'a')), c_le0(-E('n' + c, 'b')))))
        for nm, q, h in (('eqv', '==', lambda b: b), ('nev', '!=', bnot)):
            ws.append(AW('%s_%s' % (nm, c), A2[:2], 'o.v[0] = a %s b' % q, [('comparison', 'v0', lambda E, c=c, h=h: [vg.asnum(h(alleq(E, c, lv, e))) for lv in range(91, 95) for e in 'ab'])], lambda E, c=c: c_lt(ZERO, E('n' + c, 'a'))))
        for nm, q in (('ltv', '<'), ('gtv', '>'), ('lev', '<='), ('gev', '>=')):
            ws.append(AW('%s_%s' % (nm, c), A2[:2], 'o.v[0] = a %s b' % q, [('lexicographic comparison', 'v0', lambda E, c=c, q=q: [vg.asnum(lexico(E, c, q, lv, eq, e)) for lv in range(91, 95) for eq in 'ab' for e in ('ab' if q.endswith('=') else 'a')])],
                         lambda E, c=c: band(c_lt(ZERO, E('n' + c, 'a')), c_lt(ZERO, E('n' + c, 'b')))))
        ws.append(AW('cat_' + c, A2, '%s c(concat(a,b)); o.v[2]=c.size(); o.%s[0]=c[i]' % (M, slot),
                     [('size', 'v2', lambda E, c=c: N(E) + E('n' + c, 'b')), ('element', s0, lambda E, c=c: ite(c_lt(E['i'], N(E)), L(ld(E, c, 'a', 'i')), L(ld(E, c, 'b', E['i'] - N(E)))))],
                     lambda E, c=c: band(c_lt(E['i'], N(E) + E('n' + c, 'b')), band(c_le0(-N(E)), c_le0(-E('n' + c, 'b')))), ranges=R))
    for f in ('sqrt', 'log', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan'):
        ws.append(AW('fn_' + f, ['const multi1d<RealD>& a', 'int i'], 'multi1d<RealD> c(%s(a)); o.v[0]=c.size(); o.d[0]=toDouble(c[i])' % f, [('size', 'v0', lambda E: E('nd', 'a')), ('element', 'd0', lambda E, f=f: vg.mathfn(f, (ld(E, 'd', 'a', 'i'),)))],
                     lambda E: c_lt(E['i'], E('nd', 'a')), ranges={'i': (0, 1 << 30)}))
    return ws


def alleq(E, c, lv, e):
    b = vg.bvar(lv)
    return band(c_eq0(E('n' + c, 'a') - E('n' + c, 'b')), bnot(c_atom('any', bnot((c_feq if c == 'd' else c_eq0)(ld(E, c, 'a', b) - ld(E, c, 'b', b))), E('n' + c, e))))


def lexico(E, c, q, lv, eq, e):
    """a < b (or >) at the first index at which they differ; where one is a part of the other the shorter one comes first; or equality"""
    if q[0] == '>':
        na, nb, x, y = E('n' + c, 'b'), E('n' + c, 'a'), 'b', 'a'
    else:
        na, nb, x, y = E('n' + c, 'a'), E('n' + c, 'b'), 'a', 'b'

    def upto(n):
        k = vg.bvar(lv)
        b = bnot((c_feq if c == 'd' else c_eq0)(ld(E, c, 'a', k) - ld(E, c, 'b', k)))
        f = mk('first', b)
        return ite(c_atom('any', b, n), less_(ld(E, c, x, f), ld(E, c, y, f)), c_lt(na, nb))

    def less_(p, q):
        return c_flt(p - q) if c == 'd' else c_lt(p, q)
    n = {'a': E('n' + c, 'a'), 'b': E('n' + c, 'b')}
    r = ite(c_lt(n['a'], n['b']), upto(n['a']), ite(c_lt(n['b'], n['a']), upto(n['b']), upto(n[eq])))
    return bor(r, alleq(E, c, lv, e)) if q.endswith('=') else r


def multi(n):
    """multi2d .. multi5d of double"""
    ws = []
    M = 'multi%dd<double>' % n
    ix = ['i%d' % k for k in range(n, 0, -1)]                 # slowest first
    ip = ['int ' + x for x in ix]
    jx = ['j%d' % k for k in range(n, 0, -1)]
    sz = ['n%d' % k for k in range(n, 0, -1)]
    mz = ['m%d' % k for k in range(n, 0, -1)]
    isz, imz = ['int ' + x for x in sz], ['int ' + x for x in mz]
    R = {x: (0, 1 << 8) for x in ix + jx}
    RS = {x: (0, 1 << 6) for x in sz + mz}
    idx = lambda b: '(%s)' % ','.join(b)
    sub = lambda b: ''.join('[%s]' % x for x in b)

    def S(E, a, k):
        return E('m%d_s%d' % (n, k), a)

    def flat(E, dims, ii):
        """row-major offset; dims: size of dimension k"""
        off = ZERO
        for k, x in zip(range(n, 0, -1), ii):
            off = off * dims(k) + E[x] if k < n else E[x]
        return off

    def inside(E, dims, ii):
        g = TRUE
        for k, x in zip(range(n, 0, -1), ii):
            g = band(g, band(c_le0(-E[x]), c_lt(E[x], dims(k))))
        return g
    ina = lambda E: inside(E, lambda k: S(E, 'a', k), ix)

    def dg(dims):
        def f(E):
            for k, x in zip(range(n, 0, -1), ix):
                geo.size(dims(E, k))
                geo.digit(E[x], dims(E, k) - 1)
        return f
    dga, dgn = dg(lambda E, k: S(E, 'a', k)), dg(lambda E, k: E['n%d' % k])
    addr = lambda E, ii=ix: E('m%d_p' % n, 'a') + flat(E, lambda k: S(E, 'a', k), ii).scale(8)
    val = lambda E: mk('ld', addr(E), 8)
    new = lambda E: inside(E, lambda k: E['n%d' % k], ix)
    sizes = lambda w: '; '.join('o.v[%d]=%s.size%d()' % (k, w, k) for k in range(1, n + 1))
    szout = lambda f: [('size of dimension %d' % k, 'v%d' % k, lambda E, k=k: f(E, k)) for k in range(1, n + 1)]
    A = ['const %s& a' % M]
    ws.append(AW('m%d_ct' % n, isz, '%s c(%s); %s' % (M, ','.join(sz), sizes('c')), szout(lambda E, k: E['n%d' % k]), ranges=RS))
    ws.append(AW('m%d_rs' % n, imz + isz, '%s c(%s); c.resize(%s); %s' % (M, ','.join(mz), ','.join(sz), sizes('c')), szout(lambda E, k: E['n%d' % k]), ranges=RS))
    ws.append(AW('m%d_el' % n, A + ip, 'o.p[0]=&a%s; o.p[1]=&a%s; o.p[2]=a.slice(%s)+%s; %s& b=const_cast<%s&>(a); o.p[3]=&b%s; o.p[4]=&b%s' % (idx(ix), sub(ix), ','.join(ix[:-1]), ix[-1], M, M, idx(ix), sub(ix)),
                 [('address of element ' + q, 'p%d' % k, addr) for k, q in enumerate(['a' + idx(ix), 'a' + sub(ix), 'slice', 'a' + idx(ix) + ' (non-const)', 'a' + sub(ix) + ' (non-const)'])], ina, ranges=R))
    ws.append(AW('m%d_vs' % n, A + ip[:1], 'const auto v=a[%s]; %s' % (ix[0], '; '.join('o.v[%d]=v.size%d()' % (k, k) for k in range(1, n))), [('size of dimension %d of a slice' % k, 'v%d' % k, lambda E, k=k: S(E, 'a', k)) for k in range(1, n)], ranges=R))
    ws.append(AW('m%d_cc' % n, A + ip + ['double x'], '%s c(a); %s; o.d[0]=c%s; c%s=x; o.d[1]=a%s' % (M, sizes('c'), idx(ix), idx(ix), idx(ix)),
                 szout(lambda E, k: S(E, 'a', k)) + [('element of a copy', 'd0', val), ('element of the source after writing to the copy', 'd1', val)], ina, ranges=R, setup=dga))
    ws.append(AW('m%d_as' % n, A + imz + ip, '%s c(%s); c = a; %s; o.d[0]=c%s' % (M, ','.join(mz), sizes('c'), idx(ix)),
                 szout(lambda E, k: S(E, 'a', k)) + [('element', 'd0', val)], ina, ranges=dict(R, **RS), setup=dga))
    ws.append(AW('m%d_self' % n, ['%s& a' % M] + ip, 'a = a; o.d[0]=a%s' % idx(ix), [('element after self-assignment', 'd0', val)], ina, ranges=R, setup=dga))
    ws.append(AW('m%d_fill' % n, isz + ip + ['const double& x'], '%s c(%s); c = x; o.d[0]=c%s' % (M, ','.join(sz), idx(ix)), [('element', 'd0', lambda E: mk('ld', E['x'], 8))], new, ranges=dict(R, **RS), setup=dgn))
    ws.append(AW('m%d_view' % n, ['double* p'] + isz + ip + ['double x'], '%s v(p,%s); v%s = x; %s; o.p[0]=&v%s; o.d[0]=*(const double*)o.p[0]' % (M, ','.join(sz), idx(ix), sizes('v'), idx(ix)),
                 szout(lambda E, k: E['n%d' % k]) + [('element', 'd0', lambda E: E['x']), ('address', 'p0', lambda E: E['p'] + flat(E, lambda k: E['n%d' % k], ix).scale(8))], ranges=dict(R, **RS)))
    return ws


def ndim():
    """multiNd of double with rank 1 .. 4"""
    ws = []
    for n in (1, 2, 3, 4):
        ix = ['i%d' % k for k in range(n)]
        ip = ['int ' + x for x in ix]
        A = ['const multiNd<double>& a']
        R = {x: (0, 1 << 8) for x in ix}
        rank = lambda E, n=n: c_eq0(E('nd_r', 'a') - n)

        def ina(E, n=n, ix=ix, rank=rank):
            g = rank(E)
            for k in range(n):
                g = band(g, c_lt(E[ix[k]], E('nd_n', 'a', k)))
            return g

        def flat(E, dim, n=n, ix=ix):
            off = E[ix[0]]
            for k in range(1, n):
                off = off * dim(k) + E[ix[k]]
            return off
        addr = lambda E, flat=flat: E('nd_p', 'a') + flat(E, lambda k: E('nd_n', 'a', k)).scale(8)
        iv = 'multi1d<int> x(%d); %s' % (n, '; '.join('x[%d]=%s' % (k, x) for k, x in enumerate(ix)))
        nv = 'multi1d<int> z(%d); %s' % (n, '; '.join('z[%d]=n%d' % (k, k) for k in range(n)))
        ni = ['int n%d' % k for k in range(n)]
        RS = {'n%d' % k: (0, 1 << 6) for k in range(n)}
        ws.append(AW('nd%d_el' % n, A + ip, 'o.p[0]=&a(%s); multiNd<double>& b=const_cast<multiNd<double>&>(a); o.p[1]=&b(%s)' % (','.join(ix), ','.join(ix)),
                     [('address of a(...)', 'p0', addr), ('address of a(...) (non-const)', 'p1', addr)], ina, ranges=R))
        ws.append(AW('nd%d_ix' % n, A + ip, iv + '; o.p[0]=&a[x]; multiNd<double>& b=const_cast<multiNd<double>&>(a); o.p[1]=&b[x]',
                     [('address of a[index array]', 'p0', addr), ('address of a[index array] (non-const)', 'p1', addr)], ina, ranges=R))
        ws.append(AW('nd%d_rk' % n, A + ip, 'o.p[0]=&a(%s)' % ','.join(ix), [], ret=rank, ranges=R))
        ws.append(AW('nd%d_ct' % n, ni, nv + '; multiNd<double> c(z); o.v[0]=c.numElem(); o.v[1]=c.size().size(); ' + '; '.join('o.v[%d]=c.size(%d)' % (k + 2, k) for k in range(n)),
                     [('number of elements', 'v0', lambda E, n=n: prod(E['n%d' % k] for k in range(n))), ('rank', 'v1', lambda E, n=n: C(n))] + [('extent', 'v%d' % (k + 2), lambda E, k=k: E['n%d' % k]) for k in range(n)], ranges=RS))

        def dg(E, n=n, ix=ix):
            for k in range(n):
                geo.size(E['n%d' % k])
                geo.digit(E[ix[k]], E['n%d' % k] - 1)
        new = lambda E, n=n, ix=ix: allof(c_lt(E[ix[k]], E['n%d' % k]) for k in range(n))
        ws.append(AW('nd%d_fill' % n, ni + ip + ['const double& s'], nv + '; multiNd<double> c(z); c = s; o.d[0]=c(%s)' % ','.join(ix), [('element', 'd0', lambda E: mk('ld', E['s'], 8))], new, ranges=dict(R, **RS), setup=dg))
        ws.append(AW('nd%d_wr' % n, ni + ip + ['double s'], nv + '; ' + iv + '; multiNd<double> c(z); c(%s) = s; o.d[0]=c[x]; c[x] = 2*s; o.d[1]=c(%s)' % (','.join(ix), ','.join(ix)),
                     [('c[x] after c(...) = s', 'd0', lambda E: E['s']), ('c(...) after c[x] = 2s', 'd1', lambda E: E['s'].scale(2))], new, ranges=dict(R, **RS), setup=dg))
        ws.append(AW('nd%d_cc' % n, ni + ip + ['double s'], nv + '; multiNd<double> c(z); c(%s) = s; multiNd<double> e(c); o.v[0]=e.numElem(); o.d[0]=e(%s)' % (','.join(ix), ','.join(ix)),
                     [('element of a copy', 'd0', lambda E: E['s']), ('number of elements of a copy', 'v0', lambda E, n=n: prod(E['n%d' % k] for k in range(n)))], new, ranges=dict(R, **RS), setup=dg))
        ws.append(AW('nd%d_as' % n, ni + ip + ['double s', 'int m'], nv + '; multiNd<double> c(z); c(%s) = s; multi1d<int> y(1); y[0]=m; multiNd<double> e(y); e = c; o.v[0]=e.numElem(); o.d[0]=e(%s); e = e; o.d[1]=e(%s)' % ((','.join(ix),) * 3),
                     [('element of the destination', 'd0', lambda E: E['s']), ('element after self-assignment', 'd1', lambda E: E['s']), ('number of elements of a copy', 'v0', lambda E, n=n: prod(E['n%d' % k] for k in range(n)))], new, ranges=dict(R, m=(0, 1 << 6), **RS), setup=dg))
    ws.append(AW('nd_get', ['const multiNd<double>& a', 'int i'], 'o.p[0]=&a.getElem(i)', [('address of getElem', 'p0', lambda E: E('nd_p', 'a') + E['i'].scale(8))], lambda E: band(c_le0(-E['i']), c_lt(E['i'], E('nd_num', 'a'))),
                 ret=lambda E: TRUE))
    ws.append(AW('nd_oob', ['const multiNd<double>& a', 'int i'], 'o.p[0]=&a.getElem(i)', [], ret=lambda E: band(c_le0(-E['i']), c_lt(E['i'], E('nd_num', 'a')))))
    ws.append(AW('nd_def', [], 'multiNd<double> a; multiNd<double> b(a); o.v[0]=b.numElem(); o.v[1]=a.numElem()', [('number of elements of a copy', 'v0', lambda E: ZERO), ('number of elements', 'v1', lambda E: ZERO)]))
    return ws


def prod(xs):
    r = ONE
    for x in xs:
        r = r * x
    return r


def allof(xs):
    r = TRUE
    for x in xs:
        r = band(r, x)
    return r


def based():
    """one-based arrays: element (i,...) is element (i-1,...) of the underlying array"""
    ws = []
    zero = lambda E: ZERO
    ws.append(AW('b1_el', ['Array1dO<double>& a', 'int i'], 'o.q[0]=&a[i]-&a.ref()[i-1]; const Array1dO<double>& b=a; o.q[1]=&b[i]-&a.ref()[i-1]', [('a[i]', 'q0', zero), ('a[i] (const)', 'q1', zero)]))
    for n in (2, 3, 4, 5):
        ix = ['i%d' % k for k in range(n, 0, -1)]
        ip = ['int ' + x for x in ix]
        M = 'Array%ddO<double>' % n
        z = ','.join(x + '-1' for x in ix)
        a = ','.join(ix)
        ws.append(AW('b%d_el' % n, ['%s& a' % M] + ip, 'o.q[0]=&a(%s)-&a.ref()(%s); const %s& b=a; o.q[1]=&b(%s)-&b.ref()(%s)' % (a, z, M, a, z), [('a(...)', 'q0', zero), ('a(...) (const)', 'q1', zero)]))
        sz = ['n%d' % k for k in range(n, 0, -1)]
        RS = {x: (0, 1 << 6) for x in sz + ['n']}
        cs = '; '.join('o.v[%d]=c.size%d()' % (k, k) for k in range(1, n + 1))
        ws.append(AW('b%d_ct' % n, ['int ' + x for x in sz], '%s c(%s); %s' % (M, ','.join(sz), cs), [('size of dimension %d' % k, 'v%d' % k, lambda E, k=k: E['n%d' % k]) for k in range(1, n + 1)], ranges=RS))
        ws.append(AW('b%d_rs' % n, ['int ' + x for x in sz], '%s c; c.resize(%s); %s' % (M, ','.join(sz), cs), [('size of dimension %d' % k, 'v%d' % k, lambda E, k=k: E['n%d' % k]) for k in range(1, n + 1)], ranges=RS))
        ws.append(AW('b%d_sq' % n, ['int n'], '%s c(n); %s' % (M, cs), [('size of dimension %d' % k, 'v%d' % k, lambda E: E['n']) for k in range(1, n + 1)], ranges=RS))
    return ws


def all_():
    ws = one() + sum((multi(n) for n in (2, 3, 4, 5)), []) + ndim() + based()
    for w in ws:
        w.balance = True
    return ws

