from sym import *
import spec
from spec import *
from algebra import ty, LINEAR, SHAPES, can_mul, where3, isvec, proj, recon, louter, chiral, lmulN, lmulN as _l, nvw, cmpl
from algebra import gammas  # noqa
from spec import gamma
from lat import LW, RW, prelude


def l(t):
    return ('l', t)


def s(t):
    return ('s', t)


def ident(x):
    return x


def binop(sg):
    return tadd if sg == '+' else tsub


def basic(words='fd', shapes=('cm', 'cv', 'fe', 's', 'hf', 'sm')):
    """subset assignment through the generic evaluator and the op-assign family"""
    ws = []
    for w in words:
        R, Z = ty('s', 'r', w), ty('s', 'c', w)
        ts = [ty(x, 'c', w) for x in shapes if x in SHAPES] + [R]
        for t in ts:
            n = t.short()
            ws.append(LW('asg_' + n, t, [l(t)], 'd[s] = a', ident))
            ws.append(LW('neg_' + n, t, [l(t)], 'd[s] = -a', tneg))
            ws.append(LW('add_' + n, t, [l(t), l(t)], 'd[s] = a + b', tadd))
            ws.append(LW('sub_' + n, t, [l(t), l(t)], 'd[s] = a - b', tsub))
            ws.append(LW('pluseq_' + n, t, [l(t)], 'd[s] += a', tadd, inout=True))
            ws.append(LW('minuseq_' + n, t, [l(t)], 'd[s] -= a', tsub, inout=True))
            ws.append(LW('asgs_' + n, t, [s(t)], 'd[s] = a', ident))
            ws.append(LW('pluseqs_' + n, t, [s(t)], 'd[s] += a', tadd, inout=True))
            ws.append(LW('muleqr_' + n, t, [s(R)], 'd[s] *= a', tmul, inout=True))
            ws.append(LW('muleqlr_' + n, t, [l(R)], 'd[s] *= a', tmul, inout=True))
            ws.append(LW('diveqr_' + n, t, [s(R)], 'd[s] /= a', tdiv, inout=True))
            ws.append(LW('all_' + n, t, [l(t)], 'd = a', ident, sub='whole'))
            ws.append(LW('alls_' + n, t, [s(t)], 'd = a', ident, sub='whole'))
            ws.append(LW('allpe_' + n, t, [l(t)], 'd += a', tadd, inout=True, sub='whole'))
            ws.append(LW('allme_' + n, t, [l(t)], 'd -= a', tsub, inout=True, sub='whole'))
            ws.append(LW('alias_' + n, t, [l(t)], 'd[s] = a - d', lambda d, a: tsub(a, d), inout=True))
            ws.append(LW('alias2_' + n, t, [l(t)], 'd[s] += a + d', lambda d, a: tadd(d, tadd(a, d)), inout=True))
            ws.append(LW('zero_' + n, t, [], 'd[s] = zero', lambda t=t: tconst(t, lambda i: ((ZERO, ZERO if t.real == 'c' else None)))))
            ws.append(LW('allzero_' + n, t, [], 'd = zero', lambda t=t: tconst(t, lambda i: ((ZERO, ZERO if t.real == 'c' else None))), sub='whole'))
            if t.real == 'c':
                ws.append(LW('muleqc_' + n, t, [s(Z)], 'd[s] *= a', tmul, inout=True))
                ws.append(LW('lcmul_' + n, t, [l(Z), l(t)], 'd[s] = a * b', tmul))
                ws.append(LW('conj_' + n, t, [l(t)], 'd[s] = conj(a)', tconj))
    return ws


def kernels(w, vec='fe'):
    """a*x+b*y families on fermions (generic BLAS, complex BLAS and gamma5 kernels)"""
    ws = []
    t = ty(vec, 'c', w)
    for sc in ('r', 'c'):
        R = ty('s', sc, w)

        def term(form, v, c):
            # (source text, number of scalar args, spec)
            return {'ax': ('%s*%s' % (c, v)), 'xa': ('%s*%s' % (v, c)), 'x': v}[form]
        for form in ('ax', 'xa'):
            ws.append(LW('k_%s%s' % (sc, form), t, [s(R), l(t)], 'd[s] = ' + term(form, 'b', 'a'), tmul))
            ws.append(LW('k_n%s%s' % (sc, form), t, [s(R), l(t)], 'd[s] = -(%s)' % term(form, 'b', 'a'), lambda a, x: tneg(tmul(a, x))))
            for op in '+-':
                f = binop(op)
                ws.append(LW('k_%s%s%sy' % (sc, form, nm(op)), t, [s(R), l(t), l(t)], 'd[s] = %s %s c' % (term(form, 'b', 'a'), op),
                             lambda a, x, y, f=f: f(tmul(a, x), y)))
                ws.append(LW('k_y%s%s%s' % (nm(op), sc, form), t, [s(R), l(t), l(t)], 'd[s] = c %s %s' % (op, term(form, 'b', 'a')),
                             lambda a, x, y, f=f: f(y, tmul(a, x))))
                ws.append(LW('k_e%s%s%s' % (nm(op), sc, form), t, [s(R), l(t)], 'd[s] %s= %s' % (op, term(form, 'b', 'a')),
                             lambda d, a, x, f=f: f(d, tmul(a, x)), inout=True))
                ws.append(LW('k_al%s%s%s' % (nm(op), sc, form), t, [s(R), l(t)], 'd[s] = %s %s d' % (term(form, 'b', 'a'), op),
                             lambda d, a, x, f=f: f(tmul(a, x), d), inout=True))
                ws.append(LW('k_am%s%s%s' % (nm(op), sc, form), t, [s(R), l(t)], 'd[s] = d %s %s' % (op, term(form, 'b', 'a')),
                             lambda d, a, x, f=f: f(d, tmul(a, x)), inout=True))
                for form2 in ('ax', 'xa'):
                    ws.append(LW('k_%s%s%s%s' % (sc, form, nm(op), form2), t, [s(R), l(t), s(R), l(t)],
                                 'd[s] = %s %s %s' % (term(form, 'b', 'a'), op, term(form2, 'e', 'c')),
                                 lambda a, x, b, y, f=f: f(tmul(a, x), tmul(b, y))))
        ws.append(LW('k_%smuleq' % sc, t, [s(R)], 'd[s] *= a', tmul, inout=True))
        ws.append(LW('k_%sdiveq' % sc, t, [s(R)], 'd[s] /= a', tdiv, inout=True))
        ws.append(LW('k_%sselfmul' % sc, t, [s(R)], 'd[s] = a*d', lambda d, a: tmul(a, d), inout=True))
    for op in '+-':
        f = binop(op)
        ws.append(LW('k_add%s' % nm(op), t, [l(t), l(t)], 'd[s] = a %s b' % op, f))
        ws.append(LW('k_adde%s' % nm(op), t, [l(t)], 'd[s] %s= a' % op, f, inout=True))
        ws.append(LW('k_adds%s' % nm(op), t, [l(t)], 'd[s] = a %s d' % op, lambda d, a, f=f: f(a, d), inout=True))
    return ws


def nm(op):
    return 'p' if op == '+' else 'm'


def g5(w):
    ws = []
    t, R = ty('fe', 'c', w), ty('s', 'r', w)
    g = gamma(15)
    G5 = 'GammaConst<Ns,Ns*Ns-1>()'
    P = [('chiralProjectPlus(%s)', chiral(1), 'cp'), ('chiralProjectMinus(%s)', chiral(-1), 'cm'), (G5 + '*%s', lmulN(g), 'g5'),
         (G5 + '*timesI(%s)', lambda x: lmulN(g)(ttimesi(x)), 'ig5'), ('timesI(' + G5 + '*%s)', lambda x: ttimesi(lmulN(g)(x)), 'gi5'), ('Gamma(15)*%s', lmulN(g), 'rg5')]
    for txt, f, n in P:
        A_, B_ = txt % 'a', txt % 'b'
        ws.append(LW('g_%s' % n, t, [l(t)], 'd[s] = ' + A_, f))
        ws.append(LW('g_s%s' % n, t, [s(R), l(t)], 'd[s] = a*(%s)' % B_, lambda a, x, f=f: tmul(a, f(x))))
        ws.append(LW('g_u%s' % n, t, [s(R), l(t)], 'd[s] = (%s)*a' % B_, lambda a, x, f=f: tmul(a, f(x))))
        ws.append(LW('g_i%s' % n, t, [s(R), l(t)], 'd[s] = ' + txt % '(a*b)', lambda a, x, f=f: tmul(a, f(x))))
        for op in '+-':
            h = binop(op)
            o = nm(op)
            ws.append(LW('g_e%s%s' % (o, n), t, [l(t)], 'd[s] %s= %s' % (op, A_), lambda d, x, f=f, h=h: h(d, f(x)), inout=True))
            ws.append(LW('g_es%s%s' % (o, n), t, [s(R), l(t)], 'd[s] %s= a*(%s)' % (op, B_), lambda d, a, x, f=f, h=h: h(d, tmul(a, f(x))), inout=True))
            ws.append(LW('g_x%sp%s' % (o, n), t, [l(t), l(t)], 'd[s] = a %s %s' % (op, B_), lambda x, y, f=f, h=h: h(x, f(y))))
            ws.append(LW('g_x%sbp%s' % (o, n), t, [l(t), s(R), l(t)], 'd[s] = a %s b*(%s)' % (op, txt % 'c'), lambda x, b, y, f=f, h=h: h(x, tmul(b, f(y)))))
            ws.append(LW('g_ax%sp%s' % (o, n), t, [s(R), l(t), l(t)], 'd[s] = a*b %s %s' % (op, txt % 'c'), lambda a, x, y, f=f, h=h: h(tmul(a, x), f(y))))
            ws.append(LW('g_ax%sbp%s' % (o, n), t, [s(R), l(t), s(R), l(t)], 'd[s] = a*b %s c*(%s)' % (op, txt % 'e'),
                         lambda a, x, b, y, f=f, h=h: h(tmul(a, x), tmul(b, f(y)))))
            ws.append(LW('g_p%sax%s' % (o, n), t, [s(R), l(t), l(t)], 'd[s] = %s %s a*b' % (txt % 'c', op), lambda a, x, y, f=f, h=h: h(f(y), tmul(a, x))))
            ws.append(LW('g_al%s%s' % (o, n), t, [s(R), l(t)], 'd[s] = a*b %s %s' % (op, txt % 'd'), lambda d, a, x, f=f, h=h: h(tmul(a, x), f(d)), inout=True))
            ws.append(LW('g_bl%s%s' % (o, n), t, [s(R), l(t)], 'd[s] = a*d %s %s' % (op, B_), lambda d, a, x, f=f, h=h: h(tmul(a, d), f(x)), inout=True))
            ws.append(LW('g_q%s%s' % (o, n), t, [s(R), l(t), s(R), l(t)], 'd[s] = ' + txt % ('(a*b %s c*e)' % op),
                         lambda a, x, b, y, f=f, h=h: f(h(tmul(a, x), tmul(b, y)))))
    return ws


def linalg(w):
    ws = []
    t = ty('cm', 'c', w)
    pr = [('u*v', tmul), ('adj(u)*v', lambda x, y: tmul(tadj(x), y)), ('u*adj(v)', lambda x, y: tmul(x, tadj(y))),
          ('adj(u)*adj(v)', lambda x, y: tmul(tadj(x), tadj(y))),
          ('transpose(u)*v', lambda x, y: tmul(ttranspose(x), y)), ('u*conj(v)', lambda x, y: tmul(x, tconj(y)))]
    for vt in ('cm', 'cv', 'fe', 'hf', 'pr', 'st'):
        if vt not in SHAPES:
            continue
        v = ty(vt, 'c', w)
        for txt, f in pr:
            if 'adj(v)' in txt and isvec(vt) or 'conj(v)' in txt and vt != 'cm' or vt == 'pr' and txt != 'u*v':
                continue
            e = txt.replace('u', 'a').replace('v', 'b').replace('adj', 'adj') if False else txt
            import re
            e = re.sub(r'\bu\b', 'a', re.sub(r'\bv\b', 'b', txt))
            n = '%s_%s' % (re.sub(r'\W+', '', txt), v.short())
            ws.append(LW('m_' + n, v, [l(t), l(v)], 'd[s] = ' + e, f))
            ws.append(LW('mp_' + n, v, [l(t), l(v)], 'd[s] += ' + e, lambda d, x, y, f=f: tadd(d, f(x, y)), inout=True))
            ws.append(LW('mm_' + n, v, [l(t), l(v)], 'd[s] -= ' + e, lambda d, x, y, f=f: tsub(d, f(x, y)), inout=True))
            ws.append(LW('ms_' + n, v, [l(t)], 'd[s] = ' + re.sub(r'\bb\b', 'd', e), lambda d, x, f=f: f(x, d), inout=True))
            ws.append(LW('msp_' + n, v, [l(t)], 'd[s] += ' + re.sub(r'\bb\b', 'd', e), lambda d, x, f=f: tadd(d, f(x, d)), inout=True))
            if vt == 'cm':
                ws.append(LW('mr_' + n, v, [l(t)], 'd[s] = ' + re.sub(r'\ba\b', 'd', re.sub(r'\bb\b', 'x', e)).replace('x', 'a'), lambda d, x, f=f: f(d, x), inout=True))
                ws.append(LW('mrm_' + n, v, [l(t)], 'd[s] -= ' + re.sub(r'\ba\b', 'd', re.sub(r'\bb\b', 'x', e)).replace('x', 'a'), lambda d, x, f=f: tsub(d, f(d, x)), inout=True))
    ws.append(LW('m_sq', t, [], 'd[s] = d*d', lambda d: tmul(d, d), inout=True))
    ws.append(LW('m_adjself', t, [], 'd[s] = adj(d)', tadj, inout=True))
    ws.append(LW('m_trself', t, [], 'd[s] = transpose(d)', ttranspose, inout=True))
    ws.append(LW('m_uud', t, [l(t), l(t)], 'd[s] = a*b*adj(a)', lambda x, y: tmul(tmul(x, y), tadj(x))))
    Z, R = ty('s', 'c', w), ty('s', 'r', w)
    ws.append(LW('m_pe_s', t, [l(t), s(Z)], 'd[s] += a*b', lambda d, x, y: tadd(d, tmul(x, y)), inout=True))
    ws.append(LW('m_pe_sr', t, [l(t), s(R)], 'd[s] += b*a', lambda d, x, y: tadd(d, tmul(x, y)), inout=True))
    ws.append(LW('m_me_sr', t, [l(t), s(R)], 'd[s] -= b*a', lambda d, x, y: tsub(d, tmul(x, y)), inout=True))
    ws.append(LW('m_tr', Z, [l(t), l(t)], 'd[s] = trace(a*b)', lambda x, y: ttrace(tmul(x, y))))
    ws.append(LW('m_tra', Z, [l(t), l(t)], 'd[s] = trace(adj(a)*b)', lambda x, y: ttrace(tmul(tadj(x), y))))
    ws.append(LW('m_retr', R, [l(t), l(t)], 'd[s] = real(trace(adj(a)*b))', lambda x, y: treal(ttrace(tmul(tadj(x), y)))))
    return ws


def red(words='fd', shapes=('s', 'cm', 'cv', 'fe', 'hf', 'sm', 'pr', 'st')):
    """global reductions; the accumulator must be double precision"""
    ws = []
    for w in words:
        R, Z = ty('s', 'r', w), ty('s', 'c', w)
        for x in shapes + ('r',):
            if x != 'r' and x not in SHAPES:
                continue
            t = R if x == 'r' else ty(x, 'c', w)
            dd = ty('s', 'r', 'd') if x == 'r' else ty(x, 'c', 'd')
            n = t.short()
            RD, ZD = ty('s', 'r', 'd'), ty('s', 'c', 'd')
            ip = RD if x == 'r' else ZD
            for sub, sfx, arg in (('Subset', '', ', s'), ('whole', 'all', '')):
                ws.append(RW('sum%s_%s' % (sfx, n), dd, [l(t)], 'd = sum(a%s)' % arg, ident, sub=sub))
                ws.append(RW('sume%s_%s' % (sfx, n), dd, [l(t), l(t)], 'd = sum(a - b%s)' % arg, tsub, sub=sub))
                ws.append(RW('norm2%s_%s' % (sfx, n), RD, [l(t)], 'd = norm2(a%s)' % arg, tnorm2, sub=sub))
                ws.append(RW('norm2e%s_%s' % (sfx, n), RD, [l(t), l(t)], 'd = norm2(a + b%s)' % arg, lambda a, b: tnorm2(tadd(a, b)), sub=sub))
                ws.append(RW('ip%s_%s' % (sfx, n), ip, [l(t), l(t)], 'd = innerProduct(a,b%s)' % arg, tinner, sub=sub))
                ws.append(RW('ipr%s_%s' % (sfx, n), RD, [l(t), l(t)], 'd = innerProductReal(a,b%s)' % arg, lambda a, b: treal(tinner(a, b)), sub=sub))
                ws.append(RW('ipe%s_%s' % (sfx, n), ip, [l(t), l(t)], 'd = innerProduct(a,b+a%s)' % arg, lambda a, b: tinner(a, tadd(b, a)), sub=sub))
    return ws


def masked(shapes=('s', 'cm', 'cv', 'fe', 'hf', 'sm', 'pr', 'st')):
    """copymask, where and the comparisons that make masks"""
    ws = []
    B = Ty(S, S, 'r', 'b')
    for w in 'fd':
        for x in shapes + ('r', 'i'):
            if x not in SHAPES and x not in 'ri' or x == 'i' and w == 'd':
                continue
            t = ty('s', 'r', w) if x == 'r' else ty('s', 'r', 'i') if x == 'i' else ty(x, 'c', w)
            n = t.short()
            f = lambda d, m, a: where3(m, a, d)
            ws.append(LW('cpm_' + n, t, [l(B), l(t)], 'copymask(d[s], a, b)', f, inout=True))
            ws.append(LW('cpmall_' + n, t, [l(B), l(t)], 'copymask(d, a, b)', f, inout=True, sub='whole'))
            ws.append(LW('where_' + n, t, [l(B), l(t), l(t)], 'd[s] = where(a,b,c)', where3))
            ws.append(LW('whereall_' + n, t, [l(B), l(t), l(t)], 'd = where(a,b,c)', where3, sub='whole'))
            ws.append(LW('wherels_' + n, t, [l(B), l(t), s(t)], 'd[s] = where(a,b,c)', where3))
            ws.append(LW('wheresl_' + n, t, [l(B), s(t), l(t)], 'd[s] = where(a,b,c)', where3))
            ws.append(LW('wherebs_' + n, t, [s(B), l(t), l(t)], 'd[s] = where(a,b,c)', where3))
            if x in 'rs':
                o = ty('s', 'c' if x == 'r' else 'r', w)
                m = ty('s', 'c', w)
                ws.append(LW('wheremx_%s' % n, m, [l(B), l(t), l(o)], 'd[s] = where(a,b,c)', where3))
                ws.append(LW('wheremxs_%s' % n, m, [l(B), s(t), l(o)], 'd[s] = where(a,b,c)', where3))
            if x in 'ri':
                for op, (fi, fr) in (('<', (c_lt, lambda a, b: c_flt(a - b))), ('<=', (lambda a, b: c_le0(a - b), lambda a, b: c_fle(a - b))),
                                     ('>', (lambda a, b: c_lt(b, a), lambda a, b: c_flt(b - a))), ('>=', (lambda a, b: c_le0(b - a), lambda a, b: c_fle(b - a))),
                                     ('==', (lambda a, b: c_eq0(a - b), lambda a, b: c_feq(a - b))), ('!=', (lambda a, b: bnot(c_eq0(a - b)), lambda a, b: bnot(c_feq(a - b))))):
                    o = {'<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '==': 'eq', '!=': 'ne'}[op]
                    g = cmpl(fi if x == 'i' else fr)
                    ws.append(LW('%s_%s' % (o, n), B, [l(t), l(t)], 'd[s] = a %s b' % op, g))
                    ws.append(LW('%sl_%s' % (o, n), B, [l(t), s(t)], 'd[s] = a %s b' % op, g))
                    ws.append(LW('%sr_%s' % (o, n), B, [s(t), l(t)], 'd[s] = a %s b' % op, g))
                    g3 = lambda a, b, c, e, g=g: where3(g(a, b), c, e)
                    ws.append(LW('wc_%s_%s' % (o, n), t, [l(t), l(t), l(t), l(t)], 'd[s] = where(a %s b, c, e)' % op, g3))
    for nm, op, h in (('and', '&&', band), ('or', '||', bor)):
        g = cmpl(lambda a, b, h=h: h(bnot(c_eq0(a)), bnot(c_eq0(b))))
        ws.append(LW('b' + nm, B, [l(B), l(B)], 'd[s] = a %s b' % op, g))
        ws.append(LW('b%ss' % nm, B, [l(B), s(B)], 'd[s] = a %s b' % op, g))
    ws.append(LW('bnot', B, [l(B)], 'd[s] = !a', lambda x: Val(B, {((), ()): (ite(c_eq0(x.d[((), ())][0]), L(ONE), TZERO), None)})))
    return ws


def redf():
    return red('f')


def redd():
    return red('d')


def kf():
    return kernels('f')


def kd():
    return kernels('d')


def kcm():
    return kernels('f', 'cm') + kernels('f', 'cv')


def g5f():
    return g5('f')


def laf():
    return linalg('f')


def lad():
    return linalg('d')


SSELIB = ['sse_blas_local_sumsq_double', 'sse_blas_local_vcdot_double', 'sse_blas_local_vcdot_real_double', 'sse_blas_vaxmbyz4_double',
          'sse_blas_vaxmyz4_double', 'sse_blas_vaxpbyz4_double', 'sse_blas_vaxpy4_double', 'sse_blas_vaypx4_double', 'sse_blas_vscal4_double',
          'sse_linalg_m_eq_scal_m_double', 'sse_linalg_m_peq_m_double', 'sse_linalg_m_eq_mm_double', 'sse_linalg_m_eq_mh_double',
          'sse_linalg_m_eq_hm_double', 'sse_linalg_m_eq_hh_double', 'qdp_scalarsite_linalg_double']


def sseprelude(ws):
    """the out-of-line SSE kernels become part of the analysed unit"""
    import lib
    return ('#pragma clang attribute push(__attribute__((always_inline)), apply_to = function)\n' +
            ''.join('#define VD VD_%s\n#include "%s/lib/scalarsite_sse/%s.cc"\n#undef VD\n' % (k, lib.REPO, k) for k in SSELIB) +
            '#pragma clang attribute pop\n' + prelude(ws))
