"""Point witnesses: user-level expressions on site objects, analysed through the
whole expression-template and primitive-operation stack, compared with spec.py."""
import itertools
import os
import pickle
import resource
import signal
import sys
import time
import traceback
import lib
from sym import *
import sym
import vg
import spec
from spec import Ty, Val, load

OPAQUE = ('opq', 'rec', 'res', 'call', 'lastwrite', 'partial', 'after', 'xv', 'lane', 'first', 'recphi', 'phi', 'inf', 'undef')


def opaque_in(t, spec=None):
    s = sym._tall(t) if isinstance(t, T) else sym._tall(L(t))
    if spec is not None:                                # the index of a first hit that is part of the specification
        s = s - {a for a in (sym._tall(spec) if isinstance(spec, T) else sym._tall(L(spec))) if ATOMS[a][0] == 'first'}
    return sorted({ATOMS[a][0] for a in s if ATOMS[a][0] in OPAQUE})


def uninit_in(t):
    s = sym._tall(t) if isinstance(t, T) else sym._tall(L(t))
    return any(ATOMS[a][0] == 'uninit' for a in s)


def eqsubst(v, f):
    """use the equations known on this path to eliminate atoms"""
    known = {lin: b for lin, b in f.iv.items()}
    for lin, vals in f.ne.items():
        # a two-valued quantity that is not one value is the other
        lo, hi = f.bounds(lin)
        if lo is not None and hi is not None:
            while lo in vals and lo < hi:
                lo += 1
            while hi in vals and hi > lo:
                hi -= 1
            known[lin] = (lo, hi)
    for lin, (lo, hi) in known.items():
        if lo is None or lo != hi:
            continue
        for m, c in lin.d.items():
            if abs(c) == 1 and len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if any(a in sym._amention(b) for mm in lin.d for b, _ in mm if b != a):
                    continue
                r = (A(a) - (lin - C(lo)).scale(c))
                t = subst(v, {a: r})
                if t.c is None:
                    v = t.v
                break
    return v


DECIDE = []             # settle conditions from facts about the inputs


def tripsizes(p, out):
    """the quantities numbers of iterations are made of"""
    for m in p.d:
        for a, _ in m:
            t = ATOMS[a]
            if t[0] == 'sum':
                sizeatoms(t[2], out)
            for q in t[1:]:
                if isinstance(q, P):
                    tripsizes(q, out)
                elif isinstance(q, T):
                    for c, b in sym.tleaves(q, None, set()):
                        tripsizes(b, out)


def sizeatoms(p, out):
    for m in p.d:
        for a, _ in m:
            if ATOMS[a][0] in ('fl', 'mod', 'ite'):
                for q in ATOMS[a][1:]:
                    if isinstance(q, P):
                        sizeatoms(q, out)
                    elif isinstance(q, T):
                        out.add(None)
            elif ATOMS[a][0] != 'bv':
                out.add(a)


def written_out(p, left=20000):
    """sums over a definite number of iterations as the sum of their terms"""
    while True:
        env = {}
        for m in p.d:
            for a, _ in m:
                t = ATOMS[a]
                if t[0] == 'sum':
                    if not t[2].isconst():
                        return None
                    n = t[2].const()
                    if n != int(n):
                        return None
                    k = A(bvar_of(t[1]))
                    r = ZERO
                    left -= max(n, 0) * len(t[1].d)
                    if left < 0:
                        return None
                    for i in range(int(n)):
                        x = subst(t[1], {k.single(): C(i)})
                        if x.c is not None:
                            return None
                        r = r + x.v
                    env[a] = r
        if not env:
            return p
        r = subst(p, env)
        if r.c is not None:
            return None
        p = r.v


def bvar_of(b):
    return sym.bvar(sym.height(b) - 1).single()


SMALLN = 'they agree for every small number of iterations'
SMALL = list(range(10)) + [16, 17]


def agrees(lits, v):
    """the two sides differ by sums over unknown numbers of iterations that cancel whenever those are small"""
    if not isinstance(v, P):
        return False
    ss = set()
    tripsizes(v, ss)
    if not ss or None in ss or len(ss) > 3:
        return False
    ss = sorted(ss)
    done = 0
    for vals in itertools.product(SMALL if len(ss) == 1 else range(5 if len(ss) == 2 else 3), repeat=len(ss)):
        env = {a: C(x) for a, x in zip(ss, vals)}
        g = TRUE
        for c, b in lits:
            x = sym.subst_c(c, env, {})
            g = band(g, x if b else bnot(x))
        if prune(g) is FALSE:
            continue
        r = subst(v, env)
        if r.c is not None:
            return False
        r = written_out(r.v)
        if r is None and done > 3:
            break
        if r is None or r.d:
            return False
        done += 1
    return done > 0


def compare(got, exp, facts=None, soft=None):
    """None if the normal forms agree, else (kind, text): kind 'bad' or 'undecided'"""
    if not isinstance(got, T):
        return ('undecided', 'value not tracked')
    exp = exp if isinstance(exp, T) else L(exp)
    if got is exp:
        return None
    if vg.isb(got) != vg.isb(exp):
        if all(vg.isb(x) or vg.bit01(x) for x in (got, exp)):
            got, exp = vg.asbool(got), vg.asbool(exp)
            if got is exp:
                return None
    if vg.isb(got) != vg.isb(exp):
        got, exp = vg.asnum(got), vg.asnum(exp)
    if not vg.isb(got) and vg.bit01(got) and vg.bit01(exp):
        got, exp = vg.asbool(got), vg.asbool(exp)
        if got is exp:
            return None
    if vg.isb(got):
        d = ite(got, bnot(exp), exp)
        for f in DECIDE:
            d = f(d)
        bad = [(f, l, v) for f, l, v in paths(d, facts) if v is True]
    else:
        d = apply(lambda x, y: x - y, got, exp)
        for f in DECIDE:
            d = f(d)
        bad = []
        for f, l, v in paths(d, facts):
            v = drop_empty_sums(v, f)
            if v.d:
                v = eqsubst(v, f)
            if v.d:
                bad.append((f, l, v))
    if not bad:
        return None
    op = opaque_in(got, exp)
    if op:
        return ('undecided', 'value not in closed form (%s)' % ','.join(op))
    if isinstance(bad[0][2], P) and uninit_in(bad[0][2]):
        return ('bad', 'value depends on storage that was never initialised')
    if soft is not None:
        hard = [x for x in bad if not any(soft(CONDS[c]) for c, _ in x[1])]
        if not hard:
            return ('undecided', 'depends on whether two site-table entries coincide')
        bad = hard
    left = [x for x in bad if not agrees(x[1], x[2])]
    if not left:
        return ('undecided', 'sums not brought to one form; ' + SMALLN)
    f, l, v = left[0]
    when = ' and '.join(('' if b else 'not ') + showc(c) for c, b in l)
    return ('bad', 'computed - specified = %s%s' % (sh(v) if isinstance(v, P) else 'opposite truth value', (' when ' + when) if when else ''))


class Timeout(Exception):
    pass


LIMIT = int(os.environ.get("WIT_LIMIT", 120))


class limit:
    """bound the analysis time of one witness"""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def f(*a):
            raise Timeout('time')
        self.old = signal.signal(signal.SIGALRM, f)
        signal.alarm(self.s)

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)


class W:
    """one witness"""

    def __init__(self, name, dest, args, body, spec, site='', inout=False, pre=''):
        self.name = 'w_' + name
        self.dest, self.args, self.body, self.spec = dest, args, body, spec
        self.site = site
        self.inout = inout
        self.pre = pre

    def code(self):
        ps = ['%s& d' % self.dest.cpp()]
        for i, a in enumerate(self.args):
            ps.append('const %s& %s' % (a if isinstance(a, str) else a.cpp(), 'abcefg'[i]))
        return '%sextern "C" void %s(%s) { %s; }\n' % (self.pre, self.name, ', '.join(ps), self.body)

    def analyse(self, fn):
        ar = [mk('arg', i) for i in range(len(self.args) + 1)]
        for a in ar:
            PTR.add(a.single())
        vals = [load(t, ar[i + 1]) if isinstance(t, Ty) else ar[i + 1] for i, t in enumerate(self.args)]
        if self.inout:
            vals = [load(self.dest, ar[0])] + vals
        ev = vg.Ev(fn).run()
        exp = self.spec(*vals)
        if exp.ty != self.dest:
            exp = spec.tfull(exp, self.dest)
        off = self.dest.offsets()
        sz = spec.WSZ[self.dest.word]
        out = []
        n = 0
        for i in self.dest.idx():
            for p in range(self.dest.ncomp()):
                o = off[(i, p)]
                got = ev.ld(ar[0] + C(o), sz, {'f': 'f32', 'd': 'f64', 'i': 'i32', 'b': 'i8'}[self.dest.word], TRUE)
                if isinstance(got, T) and vg.isb(got):
                    got = vg.asnum(got)
                e = exp.d[i][p]
                n += 1
                r = compare(got, e if isinstance(e, (P, T)) else L(e))
                if r is not None:
                    out.append((r[0], 'component spin%s colour%s %s: %s' % (list(i[0]), list(i[1]), 're' if p == 0 else 'im', r[1]), where(ev, ar[0] + C(o), sz)))
        for g, nm, loc in ev.aborts:
            if g is TRUE:
                out.append(('bad', 'always aborts (%s)' % nm, loc))
        # nothing else may be written
        base = ar[0].single()
        for e in ev.log:
            if e.kind in ('store', 'copy', 'set'):
                b = vg.baseof(e.ptr)
                if b in ev.allocas:
                    continue
                if b == base:
                    dd = e.ptr - ar[0]
                    if dd.isconst() and 0 <= dd.const() and dd.const() + (e.size or 0) <= self.dest.size():
                        continue
                    out.append(('undecided' if not dd.isconst() else 'bad', 'writes outside the destination object', e.loc))
                elif b is not None and ATOMS[b][0] == 'arg':
                    out.append(('bad', 'writes to an operand', e.loc))
        return n, out, ev


def where(ev, p, sz):
    for e in reversed(ev.log):
        if e.kind in ('store', 'copy', 'set') and vg.baseof(e.ptr) == vg.baseof(p):
            d = p - e.ptr
            if d.isconst() and 0 <= d.const() < (e.size or 1 << 30):
                return e.loc
    return ''


def _one(job):
    ctx_d, irdump, pch, config, name, ws, pre = job
    t0 = time.time()
    res = []
    try:
        ws = list(ws)
        errs = []
        ll = None
        while ws:
            text = 'using namespace QDP;\n' + pre + ''.join(w.code() for w in ws)
            try:
                ll = lib.compile_ir(ctx_d, pch, config, name, text)
                break
            except lib.CompileError as e:
                bl = compile_blame(ws, e, text)
                errs += [('compile', w.name, w.body, l, '') for w, l in bl]
                gone = {w.name for w, _ in bl}
                ws = [w for w in ws if w.name not in gone]
        if not ws:
            return name, [], errs, time.time() - t0
        m = vg.Module(lib.dump_ir(irdump, ll, '|'.join(['^w_'] + sorted({w.also for w in ws if getattr(w, 'also', None)}))))
        os.unlink(ll)
        for w in ws:
            if w.name not in m.funcs:
                res.append((w.name, 0, [('broken', 'witness not in module', '')], 0))
                continue
            try:
                t1 = time.time()
                with limit(LIMIT):
                    n, out, ev = w.analyse(m.funcs[w.name])
                w.dt = time.time() - t1
                if os.environ.get('WIT_TIMES') and w.dt > 1:
                    print('TIME %.1f %s %s' % (w.dt, w.name, w.body), file=sys.stderr, flush=True)
                res.append((w.name, n, out, ev.ninst, w.body))
            except (vg.Unsupported, TooBig, RecursionError, MemoryError, Timeout, KeyError, AttributeError, IndexError, ZeroDivisionError) as e:
                if isinstance(e, MemoryError) and len(ws) > 1:
                    os._exit(1)                              # each witness again in a process of its own
                res.append((w.name, 0, [('undecided', 'analysis gave up: %s %s' % (type(e).__name__, str(e)[:200]), traceback.format_exc()[-400:])], 0, w.body))
    except lib.Broken as e:
        return name, None, [('broken', str(e), '', '', '')], time.time() - t0
    return name, res, errs, time.time() - t0


def compile_blame(ws, e, text):
    import re
    lines = text.split('\n')
    bad = {}
    last = None
    for l in e.err.splitlines():
        m = re.match(r'(.*?):(\d+):\d+: (fatal error|error|note): (.*)', l)
        if not m:
            continue
        if m.group(3) != 'note':
            last = l
        if m.group(1).endswith('.cc') and last:
            ln = int(m.group(2)) - 1
            if 0 <= ln < len(lines):
                mm = re.search(r'[\w*] ?(w_\w+)\(', lines[ln])
                if mm:
                    bad.setdefault(mm.group(1), last)
    by = {w.name: w for w in ws}
    r = [(by[k], v) for k, v in bad.items() if k in by]
    if not r:
        r = [(ws[0], '\n'.join(e.first()) or e.err[-300:])]
    return r


def run(ctx, jobs, chunk=None):
    """jobs: list of (config, [W], pre); returns list of results"""
    sys.setrecursionlimit(20000)
    ctx.need(sorted({c for c, _, _ in jobs}))
    work = []
    for config, ws, pre in jobs:
        n = chunk or min(24, max(1, len(ws) // (2 * lib.JOBS)))
        for k in range(0, len(ws), n):
            work.append((ctx.d, ctx.irdump, ctx.pch[config], config, 'u_%s_%d' % (config, len(work)), ws[k:k + n], pre(ws[k:k + n]) if callable(pre) else pre))
    return [(work[i][3],) + r for i, r in enumerate(pool(work))]


def pool(work):
    """one forked process per unit; a unit that dies leaves its witnesses undecided"""
    res = [None] * len(work)
    todo = list(range(len(work)))[::-1]
    live, dead = {}, []
    while todo or live:
        while todo and len(live) < lib.JOBS:
            i = todo.pop()
            pid = os.fork()
            if pid == 0:
                try:
                    sys.setrecursionlimit(20000)
                    resource.setrlimit(resource.RLIMIT_AS, (MEM, resource.RLIM_INFINITY))
                    r = _one(work[i])
                    with open('%s/res%d' % (work[i][0], i), 'wb') as f:
                        pickle.dump(r, f)
                    os._exit(0)
                except BaseException:
                    if os.environ.get('WIT_DEBUG'):
                        traceback.print_exc()
                    os._exit(1)
            live[pid] = i
        pid, st = os.wait()
        i = live.pop(pid, None)
        if i is None:
            continue
        p = '%s/res%d' % (work[i][0], i)
        if st == 0:
            with open(p, 'rb') as f:
                res[i] = pickle.load(f)
            os.unlink(p)
        elif len(work[i][5]) > 1:
            # find the witness that exhausts the unit
            w = work[i]
            if live or todo:
                dead.append(i)
                continue
            parts = pool([w[:4] + (w[4] + '_%d' % k, [x], w[6]) for k, x in enumerate(w[5])])
            res[i] = (w[4], sum((p[1] or [] for p in parts), []), sum((p[2] for p in parts), []), sum(p[3] for p in parts))
        else:
            res[i] = (work[i][4], [(w.name, 0, [('undecided', 'analysis exhausted its memory', '')], 0, w.body) for w in work[i][5]], [], 0)
    for i in dead:
        w = work[i]
        parts = pool([w[:4] + (w[4] + '_%d' % k, [x], w[6]) for k, x in enumerate(w[5])])
        res[i] = (w[4], sum((p[1] or [] for p in parts), []), sum((p[2] for p in parts), []), sum(p[3] for p in parts))
    return res


MEM = 3 << 30
