"""Distribution of site loops over threads (P27): the pieces handed to the workers tile the work."""
import lat
import vg
import wit
from sym import *

prelude = '''
struct ThrArg { int x; };
extern "C" void w_ext_f(int, int, int, ThrArg*);
'''

N, TT, TID = mk('work'), mk('nthreads'), mk('thread')
NMAX, TMAX = (1 << 31) - 1, 4096


def facts():
    RANGE[N.single()] = (0, NMAX)
    RANGE[TT.single()] = (1, TMAX)
    RANGE[TID.single()] = (0, TMAX - 1)


def hook(ev, ins, name, args, g):
    if name == 'omp_get_num_threads' or name == 'omp_get_max_threads':
        return L(TT)
    if name == 'omp_get_thread_num':
        return L(TID)
    if name == '__kmpc_fork_call':
        f = args[2]
        nm = ATOMS[f.v.single()][1]
        ev.par = getattr(ev, 'par', 0) + 1
        sub = ev.fn.module.funcs[nm]
        n0 = len(ev.log)
        gt, bt = mk('gtid'), mk('btid')
        for x in (gt, bt):
            PTR.add(x.single())
        e = vg.Ev(sub, ev.o, dict(enumerate([L(gt), L(bt)] + args[3:])))
        for n in ('log', 'assume', 'ptrsub', 'notes', 'escaped', 'dryctx', 'aborts', 'ucache', 'allocas', 'injective', 'floatacc', 'unknown'):
            setattr(e, n, getattr(ev, n))
        e.chain = '%s/%d' % (ev.chain, ins['id'])
        e.region(set(sub.rpo), sub.entry, g, None)
        for n in ('log', 'assume', 'aborts', 'floatacc', 'unknown'):
            setattr(ev, n, getattr(e, n))
        SHARED.append((e, [x for x in ev.log[n0:] if x.kind in ('store', 'copy', 'set')], [a.v for a in args[3:]]))
        return L(ZERO)
    return lat.hook(ev, ins, name, args, g)


SHARED = []
OPTS = vg.Opts(call_hook=hook)


class DW(wit.W):
    """dispatch_to_threads(n, a, f): what is handed to the worker function"""
    also = 'omp_outlined'

    def __init__(self, name, form):
        self.name, self.form = 'w_' + name, form
        self.body = 'dispatch_to_threads(n, a, f)'
        self.opts = OPTS

    def code(self):
        return 'extern "C" void %s(int n, ThrArg& a) { dispatch_to_threads(n, a, w_ext_f); }\n' % self.name

    def analyse(self, fn):
        facts()
        PTR.add(mk('arg', 1).single())
        SHARED.clear()
        ev = vg.Ev(fn, vg.Opts(call_hook=hook)) if False else vg.Ev(fn, OPTS, {0: L(N), 1: L(mk('arg', 1))})
        ev.run()
        calls = [e for e in ev.log if e.kind == 'call' and e.name == 'w_ext_f']
        loc = calls[0].loc if calls else lat.lastloc2(ev)
        out, nob = [], 0
        if len(calls) != 1:
            return 1, [('bad' if not calls else 'undecided', 'the worker function is called at %d places' % len(calls), loc)], ev
        c = calls[0]
        lo, hi, tid, a = [x if isinstance(x, T) else L(x) for x in c.args]
        nob += 1
        if self.form == 'omp':
            return self.omp(ev, c, lo, hi, tid, loc)
        if self.form == 'serial':
            want = [('first entry', lo, ZERO), ('end', hi, N), ('thread number', tid, ZERO)]
        else:
            p, n = lat.piece('lo'), lat.piece('len')
            want = [('first entry', lo, p), ('end', hi, p + n), ('thread number', tid, C(2))]
        for w, g, e in want:
            nob += 1
            r = wit.compare(g, L(e))
            if r is not None:
                out.append((r[0], '%s handed to the worker function: %s' % (w, r[1]), loc))
        nob += 1
        if c.guard is not TRUE and wit.compare(c.guard, bnot(c_le0(N))) is not None:
            out.append(('undecided', 'the worker function is called conditionally', loc))
        self.contents(ev, c, out, loc)
        return nob + 1, out, ev

    def contents(self, ev, c, out, loc):
        """the worker sees the caller's argument record"""
        src = mk('arg', 1)
        a = c.args[3] if isinstance(c.args[3], T) else L(c.args[3])
        got = bind(a, lambda p: ev.ld(p, 4, 'i32', c.guard, upto=c.seq))
        r = wit.compare(got, ev.ld(src, 4, 'i32', TRUE))
        if r is not None:
            out.append((r[0], 'argument record handed to the worker function: %s' % r[1], loc))

    def omp(self, ev, c, lo, hi, tid, loc):
        out, nob = [], 0
        # every thread is numbered by itself
        nob += 1
        r = wit.compare(tid, L(TID))
        if r is not None:
            out.append((r[0], 'thread number handed to the worker function: %s' % r[1], loc))
        self.contents(ev, c, out, loc)
        # nothing shared is written inside the parallel region
        for e, st, caps in SHARED:
            for s in st:
                nob += 1
                b = vg.baseof(s.ptr)
                if any(vg.baseof(p) == b for p in caps):
                    out.append(('bad', 'a variable shared by the threads is written inside the parallel region', s.loc))
        # fast path: a proof by normal forms; otherwise look for an instance where the pieces do not tile the work
        nob += 4
        if not self.proved(c.guard, lo, hi):
            q = self.instance(c.guard, lo, hi)
            out.append(('bad', q, loc) if q else ('undecided', 'pieces of the threads not shown to tile the work', loc))
        # width of the index arithmetic
        env = {N.single(): C(NMAX), TT.single(): C(TMAX), TID.single(): C(TMAX - 1)}
        for e, st, caps in SHARED or [(ev, [], [])]:
            for b in e.fn.rpo:
                for i in e.fn.blocks[b]:
                    if i['op'] in ('mul', 'add', 'shl') and i['t'] == 'i32' and i['id'] in e.env:
                        nob += 1
                        v = e.env[i['id']]
                        if isinstance(v, list):
                            continue
                        v = subst_t(vg.asnum(v), env)
                        if v.c is None and isinstance(v.v, P) and v.v.isconst() and not -(1 << 31) <= v.v.const() < 1 << 31:
                            out.append(('bad', 'index arithmetic overflows int for %d sites and %d threads' % (NMAX, TMAX), i.get('l', loc)))
        return nob, out, ev

    def proved(self, G, lo, hi):
        def at(t, p):
            return subst_t(t, {TID.single(): p})

        def same(a, b, g):
            return wit.compare(restrict(a, g), restrict(L(b) if isinstance(b, P) else b, g), lat.facts_of(g)) is None
        few = c_le0(N + 1 - TT)                  # more threads than work
        some = bnot(c_le0(N))
        inr = c_le0(TID + 1 - TT)
        g1 = band(bnot(few), inr)
        g1 = band(g1, some)
        # enough work: everybody runs
        if wit.compare(restrict(G, g1), TRUE, lat.facts_of(g1)) is not None:
            return False
        g2 = band(bnot(few), some)
        if not (same(at(lo, ZERO), ZERO, g2) and same(at(hi, TID), at(lo, TID + 1), g2) and same(at(hi, TT - 1), N, g2)):
            return False
        g3 = band(few, some)
        run = restrict(G, g3)
        if wit.compare(run, restrict(bnot(c_le0(N - TID)), g3), lat.facts_of(g3)) is None:
            last = N - 1
        elif wit.compare(run, TRUE, lat.facts_of(g3)) is None:
            last = TT - 1
        else:
            return False
        return same(at(lo, ZERO), ZERO, g3) and same(at(hi, TID), at(lo, TID + 1), g3) and same(at(hi, last), N, g3)

    def instance(self, G, lo, hi):
        for n in (1, 2, 3, 5, 7, 8, 12):
            for T_ in (1, 2, 3, 4, 7, 16):
                nxt = 0
                for t in range(T_):
                    env = {N.single(): C(n), TT.single(): C(T_), TID.single(): C(t)}
                    g = subst_t(G, env)
                    if g is FALSE:
                        continue
                    if g is not TRUE:
                        return None
                    try:
                        a, b = subst_t(lo, env), subst_t(hi, env)
                    except ZeroDivisionError:
                        return 'division by zero for %d entries and %d threads' % (n, T_) if few(lo) and few(hi) else None
                    if a.c is not None or b.c is not None or not a.v.isconst() or not b.v.isconst():
                        return None
                    a, b = int(a.v.const()), int(b.v.const())
                    if a >= b:
                        continue
                    if a != nxt:
                        return 'the pieces of %d threads do not tile %d entries: thread %d starts at %d, expected %d' % (T_, n, t, a, nxt)
                    nxt = b
                if nxt != n:
                    return 'the pieces of %d threads do not tile %d entries: they end at %d' % (T_, n, nxt)
        return None


def few(t):
    """a plain value or one two-way choice"""
    return t.c is None or t.hi.c is None and t.lo.c is None


def serial():
    return [DW('dispatch_serial', 'serial')]


def qmt():
    return [DW('dispatch_qmt', 'qmt')]


def omp():
    return [DW('dispatch_omp', 'omp')]
