"""Value-graph construction: a forward dataflow analysis over optimised SSA IR.

Every SSA value of a function gets a normal form (sym.T of sym.P); stores become a
guarded effect log; each natural loop is summarised by its trip count, its affine
induction variables, its reductions and its per-iteration effects.  Nothing is
executed and no solver is involved: the normal forms are compared by identity.
"""
import json
import re
import struct
from fractions import Fraction
from sym import *
import sym


class Unsupported(Exception):
    pass


_uid = [0]


def fresh(kind, *more):
    _uid[0] += 1
    return atom_id((kind, _uid[0]) + more)


def owners(b):
    """the object a base pointer belongs to: the base itself and the objects it was loaded from"""
    r = [b]
    while b is not None and ATOMS[b][0] == 'ld':
        b = baseof(ATOMS[b][1])
        r.append(b)
    return [x for x in r if x is not None]


STDCALL = re.compile(r'^_ZNK?S[tiosa]')


def before(name, p, sz, arg):
    """the cell precedes the library object handed to a standard library function"""
    if not name or not STDCALL.match(name):
        return False
    d = p - arg
    for m, c in d.d.items():
        if m == ():
            continue
        q = P({m: 1}).single()
        x = ATOMS[q] if q is not None else ('',)
        at = x[1] if x[0] == 'ld' else x[2] if x[0] == 'after' else None
        if c > 0 or at is None or not (_vtable(at) or at.const() == -24):       # offset of a virtual base, read from a vtable: not negative
            return False
    return d.const() + sz <= 0


def _vtable(p):
    for a in sym._tall(L(p)):
        x = ATOMS[a]
        if x[0] == 'glob' and str(x[1]).startswith('_ZT') or x[0] == 'ld' and _vtable(x[1]):
            return True
    return False


class Effect:
    __slots__ = ('kind', 'ptr', 'size', 'val', 'guard', 'ks', 'loc', 'name', 'args', 'res', 'seq', 'fty', 'dense')

    def __init__(self, kind, **kw):
        self.kind = kind
        self.ptr = self.val = self.name = self.args = self.res = self.fty = self.dense = None
        self.size = 0
        self.guard = TRUE
        self.ks = ()          # ((katom, N tree), ...) outermost first
        self.loc = ''
        self.seq = 0
        for k, v in kw.items():
            setattr(self, k, v)

    def __repr__(self):
        if self.kind == 'store':
            return 'store%d [%s] = %s if %s for %s @%s' % (self.size, show(self.ptr), showt(self.val), showt(self.guard),
                                                          [(show(A(k)), showt(n)) for k, n in self.ks], self.loc)
        return '%s %s(%s) if %s for %s' % (self.kind, self.name, ', '.join(showt(a) if isinstance(a, T) else str(a) for a in self.args or []), showt(self.guard), [(show(A(k)), showt(n)) for k, n in self.ks])


_nc = {}


def noconst(p):
    """(p without its constant term, constant term)"""
    r = _nc.get(p)
    if r is None:
        c = p.const()
        r = _nc[p] = (p - C(c) if c else p, c)
    return r


ALLOCSZ = {}            # bytes of a local variable, where its type tells


def extent(b):
    """bytes of the storage named by base atom b (a block obtained here or a local variable), or None"""
    a = ATOMS[b]
    if a[0] == 'new':
        return a[3] if isinstance(a[3], (T, P)) else None
    n = ALLOCSZ.get(b) if a[0] == 'alloca' else None
    return C(n) if n is not None else None


def baseof(p):
    """pointer base atom id of a pointer polynomial, or None"""
    best = None
    for m, c in p.d.items():
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in PTR:
            if best is not None:
                return None
            best = m[0][0]
    return best


MATH = {'sqrt', 'sqrtf', 'cos', 'cosf', 'sin', 'sinf', 'tan', 'tanf', 'acos', 'acosf', 'asin', 'asinf', 'atan', 'atanf',
        'cosh', 'coshf', 'sinh', 'sinhf', 'tanh', 'tanhf', 'exp', 'expf', 'log', 'logf', 'log10', 'log10f', 'pow', 'powf',
        'atan2', 'atan2f', 'ceil', 'ceilf', 'floor', 'floorf', 'fabs', 'fabsf', 'fmod', 'fmodf', 'toupper'}
NORET = ('QDP_error_exit', 'QDP_abort', '__cxa_throw', '__assert_fail', 'abort', 'exit')


class Fn:
    def __init__(self, j, module):
        self.j = j
        self.name = j['name']
        self.module = module
        self.blocks = {b['id']: b['i'] for b in j['blocks']}
        self.order = [b['id'] for b in j['blocks']]
        self.entry = self.order[0]
        self.loops = j['loops']
        for l in self.loops:
            l['bs'] = set(l['b'])
        self.succ = {}
        self.dead = set()
        for b, ins in self.blocks.items():
            t = ins[-1]
            if t['op'] == 'br':
                s = list(dict.fromkeys(t['s']))
            elif t['op'] == 'switch':
                s = list(dict.fromkeys([t['def']] + [c[1] for c in t['cases']]))
            elif t['op'] == 'call' and 'normal' in t:
                s = [t['normal']]
            else:
                s = []
            # a call that cannot return ends the path
            for i in ins:
                if i['op'] == 'call' and (i.get('noret') or any(n in i.get('f', '') for n in NORET)) and 'QDPIO' not in i.get('f', ''):
                    s = []
                    self.dead.add(b)
            if t['op'] in ('unreachable', 'resume'):
                self.dead.add(b)
            self.succ[b] = s
        changed = True
        while changed:
            changed = False
            for b in self.blocks:
                if b not in self.dead and self.succ[b] and all(s in self.dead for s in self.succ[b]):
                    self.dead.add(b)
                    changed = True
        # reverse post order
        seen, rpo = set(), []
        st = [(self.entry, iter(self.succ[self.entry]))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                rpo.append(b)
                st.pop()
        self.rpo = rpo[::-1]
        self.rpoi = {b: i for i, b in enumerate(self.rpo)}
        self.preds = {b: [] for b in self.blocks}
        for b in self.rpo:
            for s in self.succ[b]:
                self.preds[s].append(b)
        self.inner = {}     # block -> innermost loop id
        for l in self.loops:
            for b in l['b']:
                cur = self.inner.get(b)
                if cur is None or len(self.loops[cur]['b']) > len(l['b']):
                    self.inner[b] = l['id']
        self.byheader = {l['h']: l for l in self.loops}


class Module:
    def __init__(self, text):
        j = json.loads(text)
        self.funcs = {f['name']: Fn(f, self) for f in j['funcs']}
        self.globals = j['globals']


def f2q(s):
    v = float.fromhex(s)
    if v != v or v in (float('inf'), float('-inf')):
        return mk('fconst', s)
    return C(Fraction(v))


UNB = mk('unbounded')


def _mentioned(p):
    s = set()
    sym._collect(p, s)
    return s


class Opts:
    """analysis options of a check"""

    def __init__(self, **kw):
        self.elem = {}              # unused
        self.pure_calls = ()        # regexes of callee names treated as pure
        self.ignore_calls = ()      # regexes of callee names without observable effect here
        self.call_hook = None       # f(ev, inst, name, args, guard) -> value tree or None
        self.uninit = True
        self.known = None           # f(ev, address, size, base) -> value of initial memory or None
        self.unroll = 0             # loops with at most this many turns are evaluated turn by turn
        self.bits = False           # keep the width of 8, 16 and 32 bit logic
        self.scatter = False        # recognise accumulation into cells addressed through a table
        self.frame = None           # (lo, hi): where the stack lies, to tell it from storage given other ranges
        self.wrap32 = False         # a value known to exceed 32 bits is reduced when it is made to fit
        self.__dict__.update(kw)


class Ev:
    def __init__(self, fn, opts=None, args=None):
        self.fn = fn
        self.o = opts or Opts()
        self.env = {}
        self.log = []
        self.assume = TRUE
        self.ptrsub = {}
        self.notes = []
        self.nload = self.nstore = self.ninst = self.nloop = 0
        self.escaped = set()
        self.dryctx = []
        self.aborts = []            # (guard, name, loc)
        for i, t in enumerate(fn.j['args']):
            if args and i in args:
                v = args[i]
                if not isinstance(v, (T, list)):
                    v = L(v)
            else:
                a = mk('arg', i)
                if t == 'ptr':
                    PTR.add(a.single())
                v = L(a)
                if t == 'i1':
                    v = c_atom('bool', a)
                if t[0] == 'v':
                    n, et = vecty(t)
                    v = [L(mk('arg', i, j)) for j in range(n)]
            self.env[i] = v
        self.ret = None
        self.ucache = {}
        self.allocas = set()
        self.chain = ''               # call chain of an inlined evaluation
        self.injective = None        # base address of a table whose entries are pairwise different
        self.floatacc = []           # single-precision values carried round loops of unknown length
        self.unknown = []            # loop stores whose address could not be related to a load
        self.kfact = TRUE            # facts about the iteration numbers of the enclosing loops
        self.ncond = 0               # loads whose value depends on a condition

    # ------------------------------------------------------------ operands
    def val(self, o, ty=None):
        if 'v' in o:
            r = self.env.get(o['v'])
            if r is None:
                return L(mk('undef'))
            return r
        if 'i' in o:
            if o.get('w') == 1:
                return TRUE if int(o['i']) else FALSE
            return L(C(int(o['i'])))
        if 'f' in o:
            return L(f2q(o['f']))
        if 'vec' in o:
            return [self.val(x) for x in o['vec']]
        if 'g' in o:
            a = mk('glob', o['g'])
            PTR.add(a.single())
            return L(a + C(o['o']))
        if 'fn' in o:
            a = mk('fn', o['fn'])
            return L(a)
        if 'u' in o:
            if ty and ty[0] == 'v':
                return [L(mk('undef'))] * vecty(ty)[0]
            return L(mk('undef'))
        return L(mk('opq', json.dumps(o, sort_keys=True)))

    def num(self, o, ty=None):
        """integer/float view: booleans become 0/1 polynomials"""
        return asnum(self.val(o, ty))

    def boo(self, o):
        return asbool(self.val(o))

    # ------------------------------------------------------------ driver
    def run(self):
        self.region(set(self.fn.rpo), self.fn.entry, TRUE, None)
        return self

    def region(self, blocks, entry, guard0, loop):
        """evaluate the acyclic region; returns edge guards of edges leaving / back edges"""
        fn = self.fn
        edges = {}
        out = {}
        bg = {entry: guard0}
        self.bguard = getattr(self, 'bguard', {})
        ret = []
        for b in fn.rpo:
            if b not in blocks:
                continue
            li = fn.inner.get(b)
            # skip blocks of inner loops (handled at their header)
            inner = None
            if loop is None:
                cur = li
                while cur is not None and cur != -1:
                    inner = cur
                    cur = fn.loops[cur]['parent']
            else:
                cur = li
                while cur is not None and cur != loop['id']:
                    inner = cur
                    cur = fn.loops[cur]['parent']
            if inner is not None:
                il = fn.loops[inner]
                if il['h'] != b:
                    continue
            if b == entry:
                g = guard0
            else:
                g = FALSE
                for p in fn.preds[b]:
                    e = edges.get((p, b))
                    if e is not None:
                        g = bor(g, e)
            if g is FALSE:
                continue
            g = prune(g)
            if g is FALSE:
                continue
            if inner is not None and not (loop is not None and il['id'] == loop['id']):
                self.loop(il, g, edges)
                continue
            self.bguard[b] = g
            self.block(b, g, edges, loop if b == entry else None, ret)
        for (p, s), g in edges.items():
            if s not in blocks or (loop is not None and s == entry):
                out[(p, s)] = g
        if ret:
            r = ret[-1][1]
            for g, v in reversed(ret[:-1]):
                if v is not None and r is not None:
                    r = lift2(lambda a, b: ite(g, a, b), v, r)
            self.ret = r
            self.retg = FALSE
            for g, v in ret:
                self.retg = bor(self.retg, g)
        return out

    def block(self, b, g, edges, skipphi, ret):
        fn = self.fn
        for ins in fn.blocks[b]:
            self.ninst += 1
            op = ins['op']
            if op == 'phi':
                if skipphi is not None:
                    continue
                opts = []
                for p, v in ins['in']:
                    e = edges.get((p, b))
                    if e is None or e is FALSE:
                        continue
                    opts.append((e, self.val(v, ins['t'])))
                if not opts:
                    self.env[ins['id']] = L(mk('undef'))
                    continue
                opts = [o for o in opts if not isundef(o[1])] or opts
                r = opts[-1][1]
                for e, v in reversed(opts[:-1]):
                    r = lift2(lambda x, y: ite(e, x, y), *bcoerce(v, r))
                if isinstance(r, list):
                    r = [prune(restrict(x, g)) for x in r]
                else:
                    r = restrict(r, g)
                    r = prune(r)
                self.env[ins['id']] = r
                continue
            if op == 'br':
                s = ins['s']
                live = [x for x in s if x not in fn.dead]
                if 'c' in ins and s[0] != s[1]:
                    c = self.boo(ins['c'])
                    if len(live) == 2:
                        ad(edges, (b, s[0]), band(g, c))
                        ad(edges, (b, s[1]), band(g, bnot(c)))
                    elif len(live) == 1:
                        cc = c if live[0] == s[0] else bnot(c)
                        self.aborts.append((band(g, bnot(cc)), self.deadname(s[0] if live[0] == s[1] else s[1]), ins.get('l', '')))
                        # the other side does not return: assume it is not taken
                        if band(g, cc) is FALSE:
                            continue
                        ad(edges, (b, live[0]), g)
                elif live:
                    ad(edges, (b, s[0]), g)
                continue
            if op == 'switch':
                c = self.num(ins['c'])
                rest = g
                tg = {}
                for cv, t in ins['cases']:
                    k = bind(apply(lambda x: x - C(int(cv['i'])), c), c_eq0)
                    tg[t] = bor(tg.get(t, FALSE), band(rest, k))
                    rest = band(rest, bnot(k))
                tg[ins['def']] = bor(tg.get(ins['def'], FALSE), rest)
                for t, e in tg.items():
                    if t in fn.dead:
                        self.aborts.append((e, self.deadname(t), ins.get('l', '')))
                        continue
                    ad(edges, (b, t), prune(e))
                continue
            if op == 'ret':
                ret.append((g, self.val(ins['a'][0], fn.j['ret']) if ins.get('a') else None))
                continue
            if op in ('unreachable', 'resume'):
                continue
            self.inst(ins, g)
            if op == 'call' and 'normal' in ins:
                ad(edges, (b, ins['normal']), g)

    def deadname(self, b):
        seen = set()
        st = [b]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for i in self.fn.blocks[x]:
                if i['op'] == 'call' and (i.get('noret') or any(n in i.get('f', '') for n in NORET)):
                    return i.get('f', '?')
            st.extend(self.fn.succ[x])
        return '?'

    # ------------------------------------------------------------ instructions
    def inst(self, ins, g):
        op = ins['op']
        t = ins['t']
        env = self.env
        i = ins['id']
        if op == 'gep':
            p = self.val(ins['base'])
            p = apply(lambda x: x + C(ins['off']), p) if ins['off'] else p
            for o, sc in ins['idx']:
                v = self.num(o)
                p = apply(lambda x, y: x + y.scale(sc), p, v)
            env[i] = p
            return
        if op == 'load':
            env[i] = self.load(ins, g)
            return
        if op == 'store':
            self.store(ins, g)
            return
        if op == 'alloca':
            a = mk('alloca', i) if not self.chain else mk('alloca', i, self.chain)
            PTR.add(a.single())
            self.allocas.add(a.single())
            ALLOCSZ[a.single()] = ins.get('size')
            if self.o.frame:
                RANGE[a.single()] = self.o.frame
            env[i] = L(a)
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'sdiv', 'udiv', 'srem', 'urem', 'frem'):
            vs = [self.val(a, t) for a in ins['a']]
            et = t
            if t[0] == 'v':
                n, et = vecty(t)
                vs = [v if isinstance(v, list) else [v] * n for v in vs]
                env[i] = [self.arith(op, et, [v[k] for v in vs], ins) for k in range(n)]
            else:
                env[i] = self.arith(op, et, vs, ins)
            return
        if op in ('sext', 'zext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            ft = ins.get('ft', t)
            v = self.val(ins['a'][0], ft)
            if t[0] == 'v' or ft[0] == 'v':
                n, et = vecty(t) if t[0] == 'v' else (1, t)
                m, ef = vecty(ft) if ft[0] == 'v' else (1, ft)
                if op == 'bitcast' and n != m:
                    # e.g. i64 <-> <2 x float>
                    env[i] = self.recast(v, ft, t)
                    return
                vs = v if isinstance(v, list) else [v]
                r = [self.cast(op, ef, et, x) for x in vs]
                env[i] = r if t[0] == 'v' else r[0]
            else:
                env[i] = self.cast(op, ft, t, v)
            return
        if op == 'icmp' or op == 'fcmp':
            a, b = [self.val(x, ins['ot']) for x in ins['a']]
            if isinstance(a, list) or isinstance(b, list):
                n = vecty(ins['ot'])[0]
                a = a if isinstance(a, list) else [a] * n
                b = b if isinstance(b, list) else [b] * n
                env[i] = [self.cmp(op, ins['p'], x, y) for x, y in zip(a, b)]
            else:
                # no object wraps around the end of the address space
                env[i] = self.cmp(op, 's' + ins['p'][1:] if ins['ot'] == 'ptr' and ins['p'][0] == 'u' else ins['p'], a, b)
            return
        if op == 'select':
            c = self.val(ins['a'][0])
            a, b = self.val(ins['a'][1], t), self.val(ins['a'][2], t)
            if isinstance(c, list):
                env[i] = [ite(asbool(x), y, z) for x, y, z in zip(c, a, b)]
                return
            c = asbool(c)
            if isundef(a):
                env[i] = b
            elif isundef(b):
                env[i] = a
            else:
                env[i] = lift2(lambda x, y: ite(c, x, y), *bcoerce(a, b))
            return
        if op == 'shuffle':
            a = self.val(ins['a'][0], t)
            b = self.val(ins['a'][1], t)
            if not isinstance(a, list):
                a = [a]
            if not isinstance(b, list):
                b = [b] * len(a)
            n = len(a)
            env[i] = [L(mk('undef')) if m < 0 else (a[m] if m < n else b[m - n]) for m in ins['mask']]
            return
        if op == 'extractelement':
            a = self.val(ins['a'][0])
            k = self.num(ins['a'][1])
            env[i] = a[int(k.v.const())] if isinstance(a, list) else a
            return
        if op == 'insertelement':
            n = vecty(t)[0]
            a = self.val(ins['a'][0], t)
            a = list(a) if isinstance(a, list) else [a] * n
            a[int(self.num(ins['a'][2]).v.const())] = self.val(ins['a'][1])
            env[i] = a
            return
        if op == 'extractvalue':
            a = self.val(ins['a'][0])
            ix = ins['ix']
            if isinstance(a, list) and len(ix) == 1:
                env[i] = a[ix[0]]
            else:
                env[i] = apply(lambda x: mk('xv', x, tuple(ix)), asnum(a)) if not isinstance(a, list) else L(mk('opq', i))
            return
        if op == 'insertvalue':
            a = self.val(ins['a'][0])
            env[i] = L(mk('opq', 'iv', i))
            return
        if op == 'call':
            self.call(ins, g)
            return
        if op in ('landingpad', 'fence'):
            return
        self.notes.append('unsupported instruction ' + op)
        env[i] = L(mk('opq', op, i))

    def arith(self, op, ty, vs, ins):
        if ty == 'i1':
            a, b = asbool(vs[0]), asbool(vs[1])
            if op in ('and', 'mul'):
                return band(a, b)
            if op == 'or':
                return bor(a, b)
            if op in ('xor', 'add', 'sub'):
                return ite(a, bnot(b), b)
        vs = [asnum(v) for v in vs]
        if op == 'fneg':
            return apply(lambda x: -x, vs[0])
        if op in ('fadd', 'add'):
            return apply(lambda x, y: x + y, *vs)
        if op in ('fsub', 'sub'):
            return apply(lambda x, y: x - y, *vs)
        if self.o.wrap32 and (op in ('mul', 'shl') or op == 'and' and ty == 'i64'):
            def wrapped(x, y):
                r = intop(op, int(ty[1:]), x, y, ins)
                lo, hi = prange(r)
                k = int(y.const()) if op == 'shl' and y.isconst() else 0
                if op == 'and':
                    lo, hi = prange(x)
                    return mk('mod', x, 1 << 32) if ty == 'i64' and y.isconst() and y.const() == 0xffffffff and hi is not None and hi >= 1 << 32 else r
                if ty == 'i32' and hi is not None and hi >= 1 << 31:
                    return mk('mod', r, 1 << 32)
                if ty == 'i64' and k == 32 and hi is not None and hi >= 1 << 63:
                    return mk('mod', x, 1 << 32).scale(1 << 32)
                return r
            return apply(wrapped, *vs)
        if op in ('fmul', 'mul'):
            return apply(lambda x, y: x * y, *vs)
        if op == 'fdiv':
            return apply(lambda x, y: x * inv(y), *vs)
        if op == 'or' and ins.get('disjoint'):
            return apply(lambda x, y: x + y, *vs)
        w = int(ty[1:]) if ty[0] == 'i' else 0
        if op in ('and', 'or', 'xor') and all(bit01(v) for v in vs):
            a, b = asbool(vs[0]), asbool(vs[1])
            return asnum(band(a, b) if op == 'and' else bor(a, b) if op == 'or' else ite(a, bnot(b), b))
        if self.o.bits and w in (8, 16, 32) and op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return apply(lambda x, y: intop(op, w, x, y, ins) if x.isconst() and y.isconst() else mk('b', op, w, x, y), *vs)
        return apply(lambda x, y: intop(op, w, x, y, ins), *vs)

    def cast(self, op, ft, t, v):
        if op in ('sext', 'zext'):
            if ft == 'i1':
                b = asbool(v)
                return ite(b, L(C(-1 if op == 'sext' else 1)), TZERO)
            if self.o.bits and ft in ('i8', 'i16', 'i32'):
                return apply(lambda x: x if x.isconst() and x.const() >= 0 else mk('b', op, int(ft[1:]), x, ZERO), asnum(v))
            if op == 'zext' and ft in ('i8', 'i16'):
                w = int(ft[1:])

                def z(x):
                    if x.isconst():
                        return C(x.const() % (1 << w))
                    return x
                return apply(z, asnum(v))
            if op == 'sext' and ft == 'i8':
                return apply(lambda x: x if x.isconst() else mk('sext8', x), asnum(v))
            return v
        if op == 'trunc':
            if t == 'i1':
                if v.c is None and (v is TRUE or v is FALSE):
                    return v
                return bnot(bind(asnum(v), lambda x: c_eq0(x if (prange(x)[0] is not None and prange(x)[1] is not None and prange(x)[1] <= 255) else intop('and', 64, x, ONE, {}))))
            w = int(t[1:])
            if self.o.bits and w in (8, 16, 32):
                return apply(lambda x: C(x.const() % (1 << w)) if x.isconst() else mk('b', 'zext', w, x, ZERO), asnum(v))

            def tr(x):
                if x.isconst():
                    c = x.const() % (1 << w)
                    return C(c - (1 << w) if c >= (1 << (w - 1)) and w >= 32 else c)
                lo, hi = prange(x)
                if lo is not None and hi is not None and lo >= 0 and hi < (1 << w):
                    return x
                if self.o.wrap32 and w == 32 and hi is not None and hi >= 1 << 31:
                    return mk('mod', x, 1 << 32)
                if w < 32:
                    s = x.single()
                    if s is not None and ATOMS[s][0] == 'ld' and ATOMS[s][2] * 8 > w:
                        return mk('ld', ATOMS[s][1], w // 8)
                    return mk('mod', x, 1 << w)
                s = x.single()
                if s is not None and ATOMS[s][0] == 'ld' and ATOMS[s][2] == 8 and w == 32:
                    return subload(x, 0, 4)
                if s is None and w == 32:
                    r = packed(x, 0, 4)
                    if r is not None and r != x:
                        return r
                if s is not None and ATOMS[s][0] == 'cat':
                    return subload(x, 0, 4)
                return x
            return apply(tr, asnum(v))
        if op in ('fpext', 'sitofp', 'uitofp', 'freeze', 'ptrtoint', 'inttoptr'):
            if op == 'inttoptr':
                def ip(x):
                    s = x.single()
                    if s is not None:
                        PTR.add(s)
                    return x
                return apply(ip, asnum(v))
            return v if op == 'freeze' else asnum(v)
        if op == 'fptrunc':
            return v
        if op in ('fptosi', 'fptoui'):
            return apply(lambda x: x if (x.isconst() and intcoef(x)) else mk('toint', x), asnum(v))
        if op == 'bitcast':
            return retype(v, ft, t)
        return v

    def recast(self, v, ft, t):
        n, et = vecty(t) if t[0] == 'v' else (1, t)
        m, ef = vecty(ft) if ft[0] == 'v' else (1, ft)
        vs = v if isinstance(v, list) else [v]
        if n > m and n % m == 0:
            r = n // m
            sz = tysize(et)
            out = []
            for x in vs:
                for k in range(r):
                    out.append(apply(lambda p: unbits(subload(p, k * sz, sz)) if et[0] == 'f' else subload(p, k * sz, sz), asnum(x)))
            return out if t[0] == 'v' else out[0]
        r = m // n
        out = []
        for k in range(n):
            parts = [apply(lambda p: fbits(p, tysize(ef)), asnum(x)) if ef[0] == 'f' else asnum(x) for x in vs[k * r:(k + 1) * r]]
            out.append(apply(lambda *ps: mkcat(ps, tysize(ef)), *parts))
        return out if t[0] == 'v' else out[0]

    def cmp(self, op, pred, a, b):
        if op == 'icmp':
            if isb(a) or isb(b):
                a1, b1 = asbool(a), asbool(b)
                if pred == 'eq':
                    return ite(a1, b1, bnot(b1))
                if pred == 'ne':
                    return ite(a1, bnot(b1), b1)
            a, b = asnum(a), asnum(b)
            if pred in ('eq', 'ne') and bit01(a) and bit01(b):
                a1, b1 = asbool(a), asbool(b)
                r = ite(a1, b1, bnot(b1))
                return r if pred == 'eq' else bnot(r)
            d = apply(lambda x, y: x - y, a, b)
            if pred == 'eq':
                return bind(d, c_eq0)
            if pred == 'ne':
                return bnot(bind(d, c_eq0))
            if pred == 'slt':
                return bind(d, lambda p: c_le0(p + 1))
            if pred == 'sle':
                return bind(d, c_le0)
            if pred == 'sgt':
                return bnot(bind(d, c_le0))
            if pred == 'sge':
                return bnot(bind(d, lambda p: c_le0(p + 1)))
            # unsigned: the bound side is taken as non-negative
            if pred in ('uge', 'ule'):
                return bnot(self.cmp(op, 'ult' if pred == 'uge' else 'ugt', a, b))
            if pred == 'ugt':
                a, b = b, a
            # a <u b
            nb = apply(lambda x: x, b)

            def ult(x, y):
                lo, _ = prange(x)
                ny, _ = prange(y)
                if y.isconst() and y.const() < 0:
                    # y is a huge unsigned number: x <u 2^w - n
                    return bor(bnot(c_le0(x + 1)), c_lt(x, y))
                if x.isconst() and x.const() < 0:
                    return FALSE if not y.isconst() else (TRUE if x.const() < y.const() < 0 else FALSE)
                t = c_lt(x, y)
                if lo is None or lo < 0:
                    if x.isconst():
                        # const <u y where y may be negative: y<0 is a huge number
                        if ny is None or ny < 0:
                            return bor(t, c_le0(y + 1))
                        return t
                    t = band(bnot(c_le0(x + 1)), t)
                return t
            return bind(a, lambda x: bind(b, lambda y: ult(x, y)))
        a, b = asnum(a), asnum(b)
        if pred in ('uno', 'ord'):
            def un(x, y):
                r = FALSE
                for z in (x, y):
                    if not z.isconst():
                        r = bor(r, c_atom('isnan', z))
                return r
            r = bind(a, lambda x: bind(b, lambda y: un(x, y)))
            return r if pred == 'uno' else bnot(r)
        d = apply(lambda x, y: x - y, a, b)
        for s in (a, b):
            inf = _hasinf(s)
            if inf:
                return bind(a, lambda x: bind(b, lambda y: c_atom('fcmp_' + pred[1:], x, y)))
        p2 = pred[1:]
        if pred in ('ueq', 'une', 'oeq', 'one'):
            r = bind(d, c_feq)
            return r if p2 == 'eq' else bnot(r)
        if p2 == 'lt':
            return bind(d, c_flt)
        if p2 == 'le':
            return bind(d, c_fle)
        if p2 == 'gt':
            return bnot(bind(d, c_fle))
        if p2 == 'ge':
            return bnot(bind(d, c_flt))
        raise Unsupported('fcmp ' + pred)

    # ------------------------------------------------------------ memory
    def load(self, ins, g):
        self.nload += 1
        p = self.val(ins['a'][0])
        t = ins['t']
        if t[0] == 'v':
            n, et = vecty(t)
            sz = tysize(et)
            r = [bind(p, lambda x: self.ld(x + C(k * sz), sz, et, g)) for k in range(n)]
            if self.o.scatter and p.c is None and all(self.tablecell(p.v + C(k * sz), sz, self.kstack and self.kstack[-1]) for k in range(n)):
                r = [apply(lambda x: x + mk('sc', p.v + C(k * sz)), v) for k, v in enumerate(r)]
            return r
        r = bind(p, lambda x: self.ld(x, ins['sz'], t, g))
        if self.o.scatter and t[0] in 'fd' and p.c is None and self.tablecell(p.v, ins['sz'], self.kstack and self.kstack[-1]):
            r = apply(lambda x: x + mk('sc', p.v), r)
        if 'bl' in ins and isinstance(r, T):
            for v in leaves(r):
                a = v.single() if isinstance(v, P) else None
                if a is not None and ATOMS[a][0] == 'ld' and RANGE.get(a, (None, None)) != (0, 1):
                    RANGE[a] = (0, 1)
        return r

    def ld(self, p, sz, ty, g, upto=None):
        """value of sz bytes at p under guard g, searching the effect log backwards"""
        if self.kfact is not TRUE:
            g = band(g, self.kfact)
        b = baseof(p)
        logs = self.log
        n = len(logs) if upto is None else upto
        acc = []           # (guard, value)
        idx = n - 1
        instore = None
        while idx >= 0:
            e = logs[idx]
            idx -= 1
            if e.kind == 'call':
                if b is not None and e.args is not None and e.val == 'clobber' and any(
                        isinstance(a, T) and any(isinstance(l, P) and baseof(l) in owners(b) and not before(e.name, p, sz, l) for l in leaves(a)) for a in e.args):
                    acc.append((e.guard, L(mkptr(mk('after', e.seq, p, sz), ty))))
                    if e.guard is TRUE or band(g, bnot(e.guard)) is FALSE:
                        break
                continue
            if e.kind == 'marker':
                continue
            eb = baseof(e.ptr)
            if eb != b and not (eb is None or b is None):
                x, y = ATOMS[eb], ATOMS[b]
                if not (e.ks and e.kind == 'store' and x[0] == y[0] and (x[0] == 'new' and x[1:3] == y[1:3] and len(x) == len(y) > 4
                                                                         or x[0] == 'ld' and x[2] == y[2] and _am(eb) & frozenset(k for k, _ in e.ks))):
                    continue
            if e.kind == 'copy':
                if eb != b:
                    continue
                d = p - e.ptr
                if d.isconst():
                    o = d.const()
                    if o < 0 or (e.size is not None and o >= e.size):
                        continue
                    if band(g, e.guard) is FALSE:
                        continue
                    v = bind(e.val, lambda src: self.ld(src + C(o), sz, ty, g, upto=e.seq))
                    acc.append((e.guard, v))
                    if band(g, bnot(e.guard)) is FALSE:
                        break
                elif e.size is None:
                    v = bind(e.val, lambda src: self.ld(src + d, sz, ty, g, upto=e.seq))
                    acc.append((e.guard, v))
                    if band(g, bnot(e.guard)) is FALSE:
                        break
                continue
            if e.kind == 'set':
                d = p - e.ptr
                if d.isconst():
                    o = d.const()
                    if o < 0 or (e.size is not None and o >= e.size):
                        continue
                if band(g, e.guard) is FALSE:
                    continue
                acc.append((e.guard, e.val))
                if band(g, bnot(e.guard)) is FALSE:
                    break
                continue
            if e.ks:
                if e.size in (4,) and sz == 8 and (self.loadfromloop(e, p, 4, ty) or self.loadfromloop(e, p + C(4), 4, ty)):
                    parts = [asnum(self.ld(p + C(k), 4, 'i32', g, upto=idx + 2)) for k in (0, 4)]
                    acc.append((TRUE, apply(lambda *ps: (unbits if ty[0] == 'f' else ident)(mkcat(ps, 4)), *parts)))
                    break
                if e.size and sz < e.size <= 16 and e.size % sz == 0:
                    n0 = len(self.unknown)
                    r, unk = None, False
                    for o in range(0, e.size, sz):
                        r = self.loadfromloop(e, p - C(o), e.size, e.fty or ty)
                        if len(self.unknown) > n0:
                            del self.unknown[n0:]
                            unk, r = True, None
                        if r is not None:
                            v = apply(lambda x: subload(fbits(x, e.size) if str(e.fty) in ('f32', 'f64') else x, o, sz), asnum(r[1])) if not isinstance(r[1], list) else None
                            if v is None:
                                r, unk = None, True
                                break
                            r = (r[0], apply(unbits, v) if ty[0] == 'f' else v)
                            break
                    if r is None and unk:
                        self.unknown.append(e)
                else:
                    r = self.loadfromloop(e, p, sz, ty)
                if r is None:
                    continue
                gg, v = r
                if band(g, gg) is FALSE:
                    continue
                acc.append((gg, v))
                if band(g, bnot(gg)) is FALSE:
                    break
                continue
            if eb is None or b is None:
                if e.ptr == p and e.size == sz:
                    pass
                else:
                    continue
            d = p - e.ptr
            if not d.isconst():
                # different symbolic offsets into one object: distinct elements are assumed distinct
                if band(g, e.guard) is FALSE:
                    continue
                cov = self.sameentry(d)
                if cov is None:
                    cov = c_eq0(d)
                if cov is FALSE:
                    continue
                if sz != e.size or self.distinct(p, e.ptr):
                    continue
                acc.append((band(e.guard, cov), e.val))
                continue
            o = d.const()
            if isinstance(o, Fraction):
                continue
            if o >= e.size or o + sz <= 0:
                continue
            if band(g, e.guard) is FALSE:
                continue
            if o == 0 and sz == e.size:
                v = retype(e.val, e.fty, ty)
            elif o >= 0 and o + sz <= e.size:
                v = apply(lambda x: subload(fbits(x, e.size) if str(e.fty) in ('f32', 'f64') else x, o, sz), asnum(e.val))
                if ty[0] == 'f':
                    v = apply(unbits, v)
            elif o <= 0 and sz >= e.size and sz == 8 and e.size == 4:
                lo = self.ld(p, 4, 'i32', g, upto=idx + 2)
                hi = self.ld(p + C(4), 4, 'i32', g, upto=idx + 2)
                v = apply(lambda x, y: (unbits if ty[0] == 'f' else ident)(mkcat((x, y), 4)), asnum(lo), asnum(hi))
                acc.append((TRUE, v))
                break
            else:
                parts = []
                if e.size < sz and sz % e.size == 0:
                    for k in range(0, sz, e.size):
                        parts.append(asnum(self.ld(p + C(k), e.size, 'i%d' % (8 * e.size), g, upto=idx + 2)))
                    v = apply(lambda *ps: (unbits if ty[0] == 'f' else ident)(mkcat(ps, e.size)), *parts)
                    acc.append((TRUE, v))
                    break
                v = L(mk('partial', p, sz))
            acc.append((e.guard, v))
            if band(g, bnot(e.guard)) is FALSE:
                break
        else:
            acc.append((TRUE, self.initial(p, sz, ty, g)))
        if acc and band(g, bnot(acc[-1][0])) is not FALSE and idx < 0 and len(acc) and acc[-1][0] is not TRUE:
            acc.append((TRUE, self.initial(p, sz, ty, g)))
        r = acc[-1][1]
        for gd, v in reversed(acc[:-1]):
            r = lift2(lambda x, y: ite(gd, x, y), *bcoerce(v, r))
        if ty == 'i1':
            r = asbool(r)
        if not isinstance(r, list):
            r = restrict(r, g)
            if r.c is not None:
                self.ncond += 1
        return r

    def distinct(self, p, q):
        return False

    def sameentry(self, d):
        """d = S*(tab[x] - tab[y]) + c: equal exactly when x == y (entries of a site table are distinct)"""
        if self.injective is None:
            return None
        ms = [m for m in d.d if m != ()]
        if len(ms) != 2 or any(len(m) != 1 or m[0][1] != 1 for m in ms) or d.d[ms[0]] != -d.d[ms[1]]:
            return None
        x, y = ATOMS[ms[0][0][0]], ATOMS[ms[1][0][0]]
        if x[0] != 'ld' or y[0] != 'ld' or x[2] != 4 or y[2] != 4 or baseof(x[1]) != self.injective or baseof(y[1]) != self.injective:
            return None
        if d.const() != 0:
            return FALSE if abs(d.const()) < abs(d.d[ms[0]]) else None
        return c_eq0(x[1] - y[1])

    def loadfromloop(self, e, p, sz, ty):
        """value at p written by loop effect e, as (guard, value) or None when it cannot have written p"""
        if sz == e.size:
            q0, cq = noconst(e.ptr)
            p0, cp = noconst(p)
            c0 = self.ucache.get((q0, p0))
            if c0 is not None and c0 != cp - cq:
                return None
        d = p - e.ptr
        ks = [k for k, _ in e.ks]
        if not _mentions(d, frozenset(ks)):
            if phiatoms_any(L(e.ptr)):
                self.unknown.append(e)
                return None
            # loop-invariant address: last iteration wins
            if d.isconst() and not (0 <= d.const() < e.size or -sz < d.const() < 0):
                return None
            if d.isconst() and d.const() == 0 and sz == e.size:
                env = {}
                g = TRUE
                for k, n in e.ks:
                    if n.c is not None:
                        return (FALSE, TZERO)
                    env[k] = n.v - 1
                    g = band(g, bnot(c_le0(n.v)))
                v = subst_t(e.val, env)
                return (band(g, subst_t(e.guard, env)), v)
            if not d.isconst():
                return None
        if len(e.ks) == 1:
            k, n = e.ks[0]
            # solve p == ptr(k)
            coef = None
            rest = {}
            for m, c in e.ptr.d.items():
                if any(a == k for a, _ in m):
                    if len(m) == 1 and m[0][1] == 1:
                        coef = c
                    else:
                        coef = None
                        break
                elif any(k in _am(a) for a, _ in m):
                    coef = None
                    break
                else:
                    rest[m] = c
            else:
                if coef is not None:
                    q = (p - P(rest))
                    r = fl_exact(q, coef)
                    if r is None:
                        # a residue mod the stride different from 0: not written by this effect
                        c = q.const()
                        qq = q - C(c)
                        if fl_exact(qq, coef) is not None and not isinstance(c, Fraction):
                            o = c % abs(coef)
                            if o >= e.size and o + sz <= abs(coef):
                                return None
                    else:
                        if n.c is None:
                            inr = band(bnot(c_le0(r + 1)), TRUE if n.v == UNB else c_lt(r, n.v))
                            g2 = subst_t(e.guard, {k: r})
                            if sz == e.size:
                                return (band(inr, g2), subst_t(e.val, {k: r}))
        envs = self.unify(e.ptr, p, sz, e)
        if envs is not None:
            out = None
            for env in envs:
                g = TRUE
                for k, n in e.ks:
                    if k not in env:
                        if n.c is not None:
                            return (FALSE, TZERO)
                        env[k] = n.v - 1           # free: last iteration wins
                for k, n in e.ks:
                    r = env[k]
                    n2 = subst_t(n, env)
                    g = band(g, band(bnot(c_le0(r + 1)), bind(n2, lambda x: TRUE if x == UNB else c_lt(r, x))))
                g = band(g, subst_t(e.guard, env))
                if g is not FALSE:
                    v = subst_t(e.val, env)
                    out = (g, v) if out is None else (bor(g, out[0]), lift2(lambda x, y: ite(g, x, y), v, out[1]))
            return out
        # address through a table: compare structurally is not possible; give an opaque value
        self.unknown.append(e)
        b = mk('lastwrite', p, sz, e.ptr, e.val)
        return (TRUE, L(b)) if not self.assume_disjoint_loops else None

    def unify(self, q, p, sz, e):
        """bindings of the loop variables ks for which address q(ks) equals p.
        Addresses formed from different entries of one index table are taken to be distinct.
        Returns a list of environments, [] when disjoint, None when unknown."""
        ks = [k for k, _ in e.ks]
        if sz != e.size:
            return None
        env = {}
        kset = frozenset(ks)
        # table entries first
        qt = [a for m in q.d for a, _ in m if ATOMS[a][0] == 'ld' and (_am(a) & kset)]
        # storage allocated in the loop: the allocation of one iteration
        bq, bp = baseof(q), baseof(p)
        if bq is not None and ATOMS[bq][0] == 'new' and (_am(bq) & kset):
            if bp is None:
                return None
            x, y = ATOMS[bq], ATOMS[bp]
            if y[0] in ('alloca', 'glob') or y[0] == 'new' and x[1:3] != y[1:3]:
                return []
            if y[0] != 'new' or len(x) != len(y):
                return None
            for s, t in zip(x[4:], y[4:]):
                if s == t:
                    continue
                k = s.single() if isinstance(s, P) else None
                if k not in kset:
                    return None
                env[k] = t
            if not (isinstance(subst(A(bq), env), T) and subst(A(bq), env).c is None and subst(A(bq), env).v == A(bp) or subst(A(bq), env) == A(bp)):
                return None
            q = subst(q, env)
            if isinstance(q, T):
                if q.c is not None:
                    return None
                q = q.v
            kset = kset - set(env)
            if q == p:
                return [env]
        if bq is not None and ATOMS[bq][0] == 'ld' and (_am(bq) & kset):
            # pointers held in the elements of one array: those of different elements own different storage
            if bp is None:
                return None
            x, y = ATOMS[bq], ATOMS[bp]
            if y[0] != 'ld' or x[2] != y[2] or x[3:] != y[3:]:
                return []
            r = self.radix(x[1], y[1], e, kset, x[2])
            if not r:
                return r if r is None else []
            env.update(r)
            q = subst(q, env)
            if isinstance(q, T):
                if q.c is not None:
                    return None
                q = q.v
            if baseof(q) != bp:
                return []
            kset = kset - set(env)
            if q == p:
                return [env]
        if any((_am(a) & kset) and a not in kset and ATOMS[a][0] != 'ld' for m in q.d for a, _ in m):
            return None
        pt = [a for m in p.d for a, _ in m if ATOMS[a][0] == 'ld' and a != baseof(p)]
        if qt:
            for a in qt:
                for b in pt:
                    if ATOMS[a][2] != ATOMS[b][2] or baseof(ATOMS[a][1]) != baseof(ATOMS[b][1]):
                        continue
                    r = self.radix(ATOMS[a][1], ATOMS[b][1], e, kset, ATOMS[a][2])
                    if r:
                        env.update(r)
                        break
            if not env:
                self.ucache[(noconst(e.ptr)[0], noconst(p)[0])] = float('inf')
                return []
            t = subst(q, env)
            if t.c is not None:
                return None
            q = t.v
            kset = kset - set(env)
            if not _mentions(q, kset):
                d = q - p
                if d.isconst():
                    # the only offset between the two address families at which they meet
                    q0, cq = noconst(e.ptr)
                    p0, cp = noconst(p)
                    self.ucache[(q0, p0)] = cp - cq + d.const()
            if q == p:
                return [env]
            if not _mentions(q, kset):
                return [] if d.isconst() else None
        r = self.radix(q, p, e, kset, sz)
        if r is None:
            r = self.rows(q, p, e, kset, sz)
        if r is None:
            return None
        if r is False:
            return []
        env.update(r)
        return [env]

    def rows(self, q, p, e, kset, sz):
        """like radix, for an array whose row length is not a constant: base + c*(n*i + j) with j < n"""
        co, rest = {}, {}
        for m, c in q.d.items():
            ks = [a for a, n in m if a in kset]
            if ks:
                if len(ks) > 1 or ks[0] in co or dict(m)[ks[0]] != 1 or c <= 0 or isinstance(c, Fraction):
                    return None
                co[ks[0]] = (tuple(x for x in m if x[0] != ks[0]), c)
            elif any(_am(a) & kset for a, _ in m):
                return None
            else:
                rest[m] = c
        todo = sorted(co, key=lambda k: -sum(n for _, n in co[k][0]))
        if len(todo) < 2 or co[todo[-1]][0] or co[todo[-1]][1] < sz:
            return None
        N = dict(e.ks)
        for o, i in zip(todo, todo[1:]):
            n = N[i]
            if n.c is not None or n.v != UNB and P({co[o][0]: co[o][1]}) != P({co[i][0]: co[i][1]}) * n.v:
                return None
        d, env = p - P(rest), {}
        for k in todo:
            mono, c = co[k]
            x = {}
            for m, v in list(d.d.items()):
                f = dict(m)
                if all(f.get(a, 0) >= n for a, n in mono):
                    if isinstance(v, Fraction) or v % c:
                        if mono or m:
                            return None
                        continue
                    for a, n in mono:
                        f[a] -= n
                    x[tuple((a, f[a]) for a, _ in m if f[a])] = v // c
                    d = d - P({m: v})
            env[k] = P(x)
        if d.isconst() and d.const() == 0:
            return env
        if d.isconst() and not isinstance(d.const(), Fraction):
            lo = d.const() % co[todo[-1]][1]
            return False if lo >= sz and lo + sz <= co[todo[-1]][1] else None
        return None

    def radix(self, q, p, e, kset, sz):
        """solve q(ks) == p for linear q; False = no solution, None = unknown"""
        co, rest = {}, {}
        for m, c in q.d.items():
            if any(a in kset for a, _ in m):
                if len(m) == 1 and m[0][1] == 1 and not isinstance(c, Fraction):
                    co[m[0][0]] = c
                else:
                    return None
            elif any(_am(a) & kset for a, _ in m):
                return None
            else:
                rest[m] = c
        d = p - P(rest)
        N = dict(e.ks)
        env = {}
        todo = sorted(co, key=lambda k: -abs(co[k]))
        for i, k in enumerate(todo):
            c = co[k]
            if c < 0:
                return None
            # extent of the inner dimensions
            ext = sz
            for k2 in todo[i + 1:]:
                n2 = N[k2]
                if n2.c is not None or not n2.v.isconst():
                    return None
                ext += co[k2] * (int(n2.v.const()) - 1)
            if ext > c:
                return None
            cc = d.const()
            if isinstance(cc, Fraction):
                return None
            lo = cc % c
            x = fl_exact(d - C(lo), c)
            if x is None:
                return None
            if lo >= ext:
                return False
            env[k] = x
            d = C(lo)
        if d.isconst() and d.const() == 0:
            return env
        return False if d.isconst() else None

    assume_disjoint_loops = True

    def initial(self, p, sz, ty, g=TRUE):
        b = baseof(p)
        if self.o.known:
            r = self.o.known(self, p, sz, b)
            if r is not None:
                return L(r)
        if b is not None:
            k = ATOMS[b]
            if k[0] == 'glob':
                gl = self.fn.module.globals.get(k[1])
                off = p - A(b)
                if gl and gl['const'] and 'init' in gl:
                    if off.isconst():
                        for o, t, c in gl['init']:
                            if o == off.const():
                                v = self.val(c)
                                if isinstance(v, T):
                                    return retype(v, t, ty)
                        if gl.get('zero'):
                            return TZERO
                    else:
                        r = self.table(gl, off, sz, ty)
                        if r is not None:
                            return r
            if k[0] in ('alloca', 'new') and not self.dryload(p):
                return L(mkptr(mk('uninit', p, sz), ty))
        v = mk('ld', p, sz)
        a = v.single()
        if ty == 'ptr':
            PTR.add(a)
        r = L(v)
        if ty == 'i1':
            r = asbool(r)
        return r

    def dryload(self, p):
        return False

    def table(self, gl, off, sz, ty):
        """symbolic index into a small constant table: a decision tree on the index"""
        c = off.const()
        q = off - C(c)
        ents = [(o, t, v) for o, t, v in gl['init']]
        if len(ents) > 70 or not ents:
            return None
        r = None
        for o, t, v in sorted(ents, key=lambda z: z[0]):
            x = self.val(v)
            if not isinstance(x, T):
                return None
            x = retype(x, t, ty)
            cnd = c_eq0(q - C(o - c))
            if cnd is FALSE:
                continue
            r = x if r is None else ite(cnd, x, r)
        return r

    def store(self, ins, g):
        self.nstore += 1
        v = self.val(ins['a'][0], ins['vt'])
        p = self.val(ins['a'][1])
        t = ins['vt']
        if t[0] == 'v':
            n, et = vecty(t)
            sz = tysize(et)
            if not isinstance(v, list):
                v = [v] * n
            for k in range(n):
                self.st(p, k * sz, sz, v[k], et, g, ins)
        else:
            if isinstance(v, list):
                v = L(mk('opq', ins['id']))
            self.st(p, 0, ins['sz'], v, t, g, ins)

    def st(self, p, off, sz, v, ty, g, ins):
        for gp, pp in cases(p):
            gg = band(g, gp)
            if gg is FALSE:
                continue
            vv = restrict(v, gg)
            if isundef(vv):
                continue
            q = pp + C(off)
            if ty == 'i64' and sz == 8 and vv.c is None and isinstance(vv.v, P):
                pass
            self.log.append(Effect('store', ptr=q, size=sz, val=vv, guard=gg, loc=ins.get('l', ''), fty=ty, seq=len(self.log)))

    # ------------------------------------------------------------ calls
    def call(self, ins, g):
        name = ins.get('f', '')
        i = ins['id']
        t = ins['t']
        if name.startswith('llvm.'):
            if self.intrinsic(ins, name, g):
                return
        base = name
        if base.startswith('llvm.'):
            base = base.split('.')[1]
        if base in MATH or (base.startswith('_ZSt') and False):
            vs = [self.val(a, ty) for a, ty in zip(ins['a'], ins['at'])]
            if not any(isinstance(v, list) for v in vs):
                b = base[:-1] if base.endswith('f') and base[:-1] in MATH else base
                self.env[i] = apply(lambda *ps: mathfn(b, ps), *[asnum(v) for v in vs])
                return
        args = []
        for a, ty in zip(ins['a'], ins['at']):
            v = self.val(a, ty)
            args.append(v if isinstance(v, list) else v)
        if not name and 'callee' in ins:
            cv = self.val(ins['callee'])
            if isinstance(cv, T) and cv.c is None and not isb(cv) and cv.v.single() is not None and ATOMS[cv.v.single()][0] == 'fn':
                name = ATOMS[cv.v.single()][1]
        if self.o.call_hook:
            r = self.o.call_hook(self, ins, name, args, g)
            if r is not None:
                if r is not True:
                    self.env[i] = r
                return
        sub = self.fn.module.funcs.get(name) if name and self.fn.module else None
        if sub is not None and name != self.fn.name and self.chain.count('/') < 4 and len(sub.j['args']) == len(args):
            self.env[i] = self.inlined(sub, i, args, g)
            return
        if name in ('_Znwm', '_Znam', 'malloc', '_ZnamRKSt9nothrow_t', '_ZnwmRKSt9nothrow_t'):
            a = A(atom_id(('new', self.fn.name + self.chain, i, args[0]) + tuple(A(k) for k in self.kstack)))
            PTR.add(a.single())
            self.env[i] = L(a)
            self.log.append(Effect('call', name=name, args=args, guard=g, res=a, loc=ins.get('l', ''), seq=len(self.log)))
            return
        if name in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'):
            self.log.append(Effect('call', name=name, args=args, guard=g, loc=ins.get('l', ''), seq=len(self.log)))
            return
        pure = ins.get('pure') or any(re.search(r, name) for r in self.o.pure_calls)
        if not name and 'callee' in ins:
            args = [self.val(ins['callee'])] + args
            name = '*'
        if pure and not any(isinstance(a, list) for a in args):
            r = apply(lambda *ps: mkptr(mk('call', name, tuple(ps)), t), *[asnum(a) for a in args]) if args else L(mk('call', name, ()))
        else:
            seq = len(self.log)
            a = mk('res', self.fn.name, i)
            if self.kstack:
                a = mk('res', self.fn.name, i, tuple(A(k) for k in self.kstack))
            r = L(mkptr(a, t))
            if not any(re.search(x, name) for x in self.o.ignore_calls):
                self.log.append(Effect('call', name=name, args=args, guard=g, res=a, loc=ins.get('l', ''), seq=seq,
                                       val=None if ins.get('ro') else 'clobber'))
        if t == 'i1':
            r = asbool(r)
        if t[0] == 'v' and t != 'void':
            r = [apply(lambda x: mk('lane', x, k), r) for k in range(vecty(t)[0])]
        self.env[i] = r

    kstack = ()

    def inlined(self, fn, i, args, g):
        """evaluate a callee of the module in place"""
        e = Ev(fn, self.o, dict(enumerate(args)))
        for n in ('log', 'assume', 'ptrsub', 'notes', 'escaped', 'dryctx', 'aborts', 'ucache', 'allocas', 'injective', 'floatacc', 'unknown'):
            setattr(e, n, getattr(self, n))
        e.chain = '%s/%d' % (self.chain, i)
        if self.kstack:
            e.kstack = self.kstack
        e.region(set(fn.rpo), fn.entry, g, None)
        for n in ('log', 'assume', 'aborts', 'floatacc', 'unknown'):
            setattr(self, n, getattr(e, n))
        self.ninst += e.ninst
        return e.ret if e.ret is not None else L(ZERO)

    def expandcopy(self, dst, src, size, g, ins):
        """a copy inside a loop body, word by word (the source may be a temporary reused by every iteration)"""
        upto = len(self.log)
        o = 0
        out = []
        while o < size:
            w, ty = self.gran(src, o, upto) if src.c is None else (4, 'i32')
            if o + w > size or o % w:
                w, ty = 4, 'i32'
            v = bind(src, lambda p: self.ld(p + C(o), w, ty, g, upto=upto))
            out.append((o, w, v, ty))
            o += w
        for o, w, v, ty in out:
            if isundef(v) or (isinstance(v, T) and v.c is None and isinstance(v.v, P) and v.v.single() is not None and ATOMS[v.v.single()][0] == 'uninit'):
                continue
            self.log.append(Effect('store', ptr=dst + C(o), size=w, val=v, guard=g, loc=ins.get('l', ''), fty=ty, seq=len(self.log)))

    def gran(self, src, o, upto):
        p = src.v + C(o)
        b = baseof(p)
        for e in reversed(self.log[:upto]):
            if e.kind == 'store' and baseof(e.ptr) == b:
                d = p - e.ptr
                if d.isconst() and d.const() == 0 and e.size in (4, 8):
                    return e.size, e.fty or 'i%d' % (8 * e.size)
        return 4, 'i32'

    def intrinsic(self, ins, name, g):
        i = ins['id']
        t = ins['t']
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.prefetch', 'llvm.stackrestore', 'llvm.donothing', 'llvm.x86.sse2.mfence', 'llvm.x86.sse.sfence')):
            return True
        if name.startswith('llvm.stacksave'):
            self.env[i] = L(mk('opq', i))
            return True
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            d, s, n = [self.val(a) for a in ins['a'][:3]]
            for gp, pp in cases(d):
                gg = band(g, gp)
                if gg is FALSE:
                    continue
                n = restrict(n, gg)
                size = n.v.const() if n.c is None and n.v.isconst() else None
                if self.kstack and size is not None and size <= 8192 and size % 4 == 0:
                    self.expandcopy(pp, restrict(s, gg), int(size), gg, ins)
                    continue
                self.log.append(Effect('copy', ptr=pp, size=size, val=restrict(s, gg), guard=gg, args=[n], loc=ins.get('l', ''), seq=len(self.log)))
            return True
        if name.startswith('llvm.memset'):
            d, s, n = [self.val(a) for a in ins['a'][:3]]
            for gp, pp in cases(d):
                gg = band(g, gp)
                if gg is FALSE:
                    continue
                n = restrict(n, gg)
                size = n.v.const() if n.c is None and n.v.isconst() else None
                if self.kstack and size is not None and size <= 8192 and size % 4 == 0 and s.c is None and s.v == ZERO:
                    for o in range(0, int(size), 4):
                        self.log.append(Effect('store', ptr=pp + C(o), size=4, val=TZERO, guard=gg, loc=ins.get('l', ''), fty='i32', seq=len(self.log)))
                    continue
                self.log.append(Effect('set', ptr=pp, size=size, val=s, guard=gg, args=[n], loc=ins.get('l', ''), seq=len(self.log)))
            return True
        vs = [self.val(a, ty) for a, ty in zip(ins['a'], ins['at'])]
        short = name.split('.')[1]
        if short in ('smax', 'smin', 'umax', 'umin', 'abs', 'fmuladd', 'fma', 'fabs', 'sqrt', 'maxnum', 'minnum', 'floor', 'ceil',
                     'cos', 'sin', 'exp', 'log', 'log10', 'pow', 'copysign', 'is', 'bswap', 'ctpop', 'canonicalize', 'fshl', 'fshr', 'usub', 'uadd'):
            if short in ('usub', 'uadd') or 'with.overflow' in name:
                if 'with.overflow' in name:
                    self.env[i] = [apply(ovf(short), *[asnum(v) for v in vs]), FALSE]
                    return True
                x, y = [asnum(v) for v in vs]
                d = apply(lambda a, b: a - b, x, y)
                if short == 'usub':       # saturating
                    self.env[i] = ite(bind(d, c_le0), TZERO, d)
                    return True
                return False
            if t[0] == 'v':
                n = vecty(t)[0]
                vs = [v if isinstance(v, list) else [v] * n for v in vs]
                self.env[i] = [self.intr1(short, [v[k] for v in vs], ins, name) for k in range(n)]
            else:
                self.env[i] = self.intr1(short, vs, ins, name)
            return True
        if 'with.overflow' in name:
            sh = {'smul': 'mul', 'umul': 'mul', 'sadd': 'add', 'ssub': 'sub'}.get(short)
            if sh:
                f = {'mul': lambda a, b: a * b, 'add': lambda a, b: a + b, 'sub': lambda a, b: a - b}[sh]
                self.env[i] = [apply(f, *[asnum(v) for v in vs]), FALSE]
                return True
        if name.startswith('llvm.vector.reduce.fadd'):
            r = asnum(vs[0])
            for x in vs[1]:
                r = apply(lambda a, b: a + b, r, asnum(x))
            self.env[i] = r
            return True
        if name.startswith('llvm.x86.sse2.cmp.sd') or name.startswith('llvm.x86'):
            self.notes.append('opaque intrinsic ' + name)
            if t[0] == 'v':
                self.env[i] = [L(mk('opq', i, k)) for k in range(vecty(t)[0])]
            else:
                self.env[i] = L(mk('opq', i))
            return True
        return False

    def intr1(self, short, vs, ins, name):
        vs = [asnum(v) for v in vs]
        if short in ('smax', 'umax'):
            c = bind(apply(lambda a, b: a - b, vs[0], vs[1]), c_le0)
            return ite(c, vs[1], vs[0])
        if short in ('smin', 'umin'):
            c = bind(apply(lambda a, b: a - b, vs[0], vs[1]), c_le0)
            return ite(c, vs[0], vs[1])
        if short == 'abs':
            c = bind(vs[0], lambda p: c_le0(p + 1))
            return ite(c, apply(lambda x: -x, vs[0]), vs[0])
        if short in ('fmuladd', 'fma'):
            return apply(lambda a, b, c: a * b + c, *vs)
        if short == 'is':     # is.fpclass
            m = vs[1].v.const()
            return bind(vs[0], lambda x: fpclass(x, m))
        if short == 'bswap':
            w = int(ins['t'][1:]) // 8
            return apply(lambda x: mkcat([subload(x, w - 1 - k, 1) for k in range(w)], 1), vs[0])
        if short in ('fshl', 'fshr', 'ctpop', 'copysign', 'canonicalize'):
            if short in ('fshl', 'fshr') and vs[2].c is None and vs[2].v.isconst():
                w = int(ins['t'][1:])
                return apply(lambda a, b, c: mk(short, w, a, b, c), *vs)
            return apply(lambda *ps: mk(short, *ps), *vs)
        return apply(lambda *ps: mathfn(short, ps), *vs)

    # ------------------------------------------------------------ loops
    def loop(self, l, g, edges):
        fn = self.fn
        self.nloop += 1
        h = l['h']
        phis = [i for i in fn.blocks[h] if i['op'] == 'phi']
        inits = {}
        for ph in phis:
            opts = []
            for p, v in ph['in']:
                if p in l['bs']:
                    continue
                e = edges.get((p, h))
                if e is None or e is FALSE:
                    continue
                opts.append((e, self.val(v, ph['t'])))
            if not opts:
                r = L(mk('undef'))
            else:
                r = opts[-1][1]
                for e, v in reversed(opts[:-1]):
                    r = lift2(lambda x, y: ite(e, x, y), *bcoerce(v, r))
                r = restrict(r, g) if isinstance(r, T) else r
            inits[ph['id']] = r
        if len(l['latches']) != 1:
            raise Unsupported('loop with several latches in ' + fn.name)
        latch = l['latches'][0]
        save = (dict(self.env), len(self.log), self.aborts[:], self.kstack)
        # vector phis are split into lanes
        kid = fresh('k')
        RANGE[kid] = (0, None)
        K = A(kid)

        def mkphi(ph):
            t = ph['t']
            if t[0] == 'v':
                r = []
                for j in range(vecty(t)[0]):
                    r.append(L(A(fresh('phi', ph['id'], j))))
                return r
            a = fresh('phi', ph['id'])
            if t == 'i1':
                return c_atom('bool', A(a))
            if t == 'ptr':
                # the pointer walks inside the object of its initial value
                iv = inits[ph['id']]
                b = baseof(iv.v) if isinstance(iv, T) and iv.c is None and isinstance(iv.v, P) else None
                if b is not None:
                    return L(A(b) + A(a))
                PTR.add(a)
            return L(A(a))

        def once(phv, memphi):
            self.env = dict(save[0])
            del self.log[save[1]:]
            self.aborts = save[2][:]
            self.kstack = save[3] + (kid,)
            for ph in phis:
                self.env[ph['id']] = phv[ph['id']]
            self.memphi = memphi
            out = self.region(l['bs'], h, TRUE, l)
            return out

        if self.o.unroll and self.unrolled(l, inits, phis, h, latch, g, edges, save):
            return
        phv = {ph['id']: mkphi(ph) for ph in phis}
        latchval = {}

        def getlatch():
            r = {}
            for ph in phis:
                for p, v in ph['in']:
                    if p == latch:
                        r[ph['id']] = self.val(v, ph['t'])
            return r
        affine = {}
        kfact0 = self.kfact
        self.kfact = kfact = band(kfact0, g)
        # values reloaded or merged in the body: assume that they keep their initial value and verify it
        ops = {ins['id']: ins['op'] for b in l['b'] for ins in fn.blocks[b]}
        cand = []
        for ph in phis:
            iv = inits[ph['id']]
            if ph['t'] in ('i32', 'i64', 'ptr') and isinstance(iv, T) and iv.c is None and isinstance(iv.v, P):
                for p, v in ph['in']:
                    if p == latch and 'v' in v and ops.get(v['v']) in ('phi', 'load', 'select'):
                        cand.append(ph)
        while cand:
            trial = dict(phv)
            for ph in cand:
                trial[ph['id']] = inits[ph['id']]
            out = once(trial, {})
            back = out.get((latch, h), FALSE)
            lv = getlatch()
            ok = []
            for ph in cand:
                nx = lv[ph['id']]
                if isinstance(nx, T) and not isb(nx):
                    nx = restrict(nx, back) if back is not FALSE else nx
                    if all(isinstance(v, P) and v == inits[ph['id']].v for v in leaves(nx)):
                        ok.append(ph)
            if len(ok) == len(cand):
                for ph in cand:
                    affine[ph['id']] = ZERO
                    phv[ph['id']] = asnum(inits[ph['id']])
                break
            cand = ok
        # iterate: find affine phis, substitute, repeat
        for rnd in range(6):
            nc = self.ncond
            out = once(phv, {})
            back = out.get((latch, h), FALSE)
            lv = getlatch()
            new = False
            for ph in phis:
                i = ph['id']
                if i in affine:
                    continue
                cur, nx = phv[i], lv[i]
                if isinstance(cur, list) and isinstance(nx, list):
                    ini = inits[i] if isinstance(inits[i], list) else [inits[i]] * len(cur)
                    sh = [self.shift(c, restrict(x, back) if not isb(x) and back is not FALSE else x, y, kid, phis, phv) for c, x, y in zip(cur, nx, ini)]
                    if all(x is not None for x in sh):
                        affine[i] = None
                        phv[i] = sh
                        new = True
                    continue
                if isinstance(cur, list) or isb(cur) or isb(nx) or isinstance(nx, list):
                    continue
                sh = self.shift(cur, restrict(nx, back) if back is not FALSE else nx, inits[i], kid, phis, phv)
                if sh is not None:
                    affine[i] = None
                    phv[i] = sh
                    new = True
                    continue
                nx = restrict(nx, back) if back is not FALSE else nx
                if self.invariant(cur, nx, inits[i]):
                    affine[i] = ZERO
                    phv[i] = asnum(inits[i])
                    new = True
                    continue
                if nx.c is not None:
                    continue
                if cur.c is not None:
                    continue
                step = nx.v - cur.v
                if self.loopvar(step, kid, phis, phv):
                    continue
                if not isintstep(step, ph['t']):
                    continue
                affine[i] = step
                phv[i] = apply(lambda x: x + step * K, asnum(inits[i]))
                new = True
            if self.kfact is kfact and self.ncond > nc and back is not FALSE and back is not TRUE:
                # loads that depend on earlier loops: use that the iteration number is below the trip count
                bk = prune(restrict(back, kfact))
                ex = [(e, restrict(gg, kfact)) for e, gg in out.items() if e != (latch, h)]
                lin = self.linbound(bk, kid)
                if lin is None and len(ex) == 2:
                    sr = self.search(bk, ex, kid)
                    lin = L(sr[2] - 2) if sr and sr[2] is not None else None
                if lin is None and len(ex) == 2:
                    # assume a bound on the iteration number that the trip count found under it confirms
                    for v in sorted(condset(bk)):
                        if CONDS[v][0] != 'le' or kid not in _condatoms(v):
                            continue
                        inr = bnot(var(v))
                        sr = self.search(prune(restrict(bk, inr)), [(e, restrict(gg, inr)) for e, gg in ex], kid)
                        w = c_lt(K, sr[2]) if sr and sr[2] is not None else TRUE
                        if w.c is not None and prune(var(v), Facts().add(w.c, w.hi is not FALSE)) is FALSE:
                            lin = L(sr[2] - 2)
                            kfact = band(kfact, inr)
                            break
                if lin is not None and lin.c is None:
                    self.kfact = band(kfact, c_lt(K, lin.v + 2))
                    new = True
            if not new:
                break
        # memory cells carried around the loop (accumulators that stayed in memory)
        out, cells = self.carried(l, once, phv, kid, save, g)
        back = prune(restrict(out.get((latch, h), FALSE), kfact))
        lv = getlatch()
        # exits
        exits = [(e, restrict(gg, kfact)) for e, gg in out.items() if e != (latch, h)]
        self.kfact = kfact
        srch = self.search(back, exits, kid) if len(exits) == 2 else None
        if srch is not None:
            N, exitg = srch[:2]
        else:
            N, mode, exitguard = self.trip(l, back, exits, kid, g)
            exitg = None
        self.kfact = kfact0
        # N: tree, number of complete executions of the header; last iteration index N-1
        lastk = apply(lambda n: n - 1, N)
        # classify the other phis
        subs = {}        # phi atom -> value at iteration k (partial sums) are rarely needed
        finals = {}
        for ph in phis:
            i = ph['id']
            if i in affine:
                continue
            cur, nx, init = phv[i], lv[i], inits[i]
            if isinstance(cur, list):
                fin, end = [], []
                init = init if isinstance(init, list) else [init] * len(cur)
                for c1, n1, i1 in zip(cur, nx, init):
                    a, b = self.accum(c1, n1, i1, kid, N, phis, phv, back)
                    fin.append(a)
                    end.append(b)
                finals[i] = (fin, end)
            else:
                finals[i] = self.accum(cur, nx, init, kid, N, phis, phv, back)
            if 'f32' in str(ph['t']) and not (N.c is None and N.v.isconst()):
                self.floatacc.append(ph.get('loc') or where1(self.fn, l, ph))
        # recurrences involving several phis: opaque but canonical
        allphi = {}
        for ph in phis:
            i = ph['id']
            if i in finals:
                cur = phv[i]
                vs = cur if isinstance(cur, list) else [cur]
                for x in vs:
                    for a in phiatoms(x):
                        allphi[a] = i
        # build substitution for values used after the loop and in loop effects
        last = {}
        env_last = {}
        if N.c is None:
            env_last[kid] = N.v - 1
        endsub, atk = {}, {}
        for i, fe in finals.items():
            fin, end = fe
            cur = phv[i]
            vs = cur if isinstance(cur, list) else [cur]
            fs = fin if isinstance(fin, list) else [fin]
            for x, f in zip(vs, fs):
                for a in phiatoms(x):
                    endsub[a] = f            # value of the phi in the last iteration
        # effects of the body
        body = self.log[save[1]:]
        del self.log[save[1]:]
        for e in body:
            e.guard = band(g, e.guard) if e.guard is not TRUE else g
            # partial values of accumulators inside the loop
            if e.kind == 'store':
                pa = {}
                for a in phiatoms_any(e.val) | phiatoms_any(e.guard):
                    if a in allphi:
                        pa[a] = self.partial_value(a, allphi[a], phv, finals, kid, inits, lv, N)
                if pa:
                    e.val = subst_t(e.val, pa)
                    e.guard = subst_t(e.guard, pa)
                pp = phiatoms_any(L(e.ptr))
                if pp and pp <= set(allphi):
                    q = subst_t(L(e.ptr), {a: self.partial_value(a, allphi[a], phv, finals, kid, inits, lv, N) for a in pp})
                    if q.c is None:
                        e.ptr = q.v
                        self.compact(e, kid, N)
            elif e.kind == 'call' and e.args:
                def part(v):
                    if isinstance(v, (list, tuple)):
                        return type(v)(part(x) for x in v)
                    t = v if isinstance(v, T) else L(v) if isinstance(v, P) else None
                    pa = {a: self.partial_value(a, allphi[a], phv, finals, kid, inits, lv, N) for a in phiatoms_any(t) if a in allphi} if t is not None else None
                    if not pa:
                        return v
                    t = subst_t(t, pa)
                    return t if isinstance(v, T) or t.c is not None else t.v
                e.args = [part(v) for v in e.args]
                e.guard = part(e.guard)
            if self.o.scatter and e.kind == 'store':
                self.scatter(e, kid, N, set(allphi))
            e.ks = (e.dense or (kid, N),) + e.ks
            e.dense = None
            e.seq = len(self.log)
            self.log.append(e)
        for (cp, csz), (cfin, cty, cguard) in cells.items():
            self.log.append(Effect('store', ptr=cp, size=csz, val=cfin(N), guard=g, seq=len(self.log), fty=cty, loc='loop cell'))
        self.kstack = save[3]
        # values leaving the loop: rewrite environment at the last iteration
        env2 = dict(endsub)
        defs = []
        for b in l['b']:
            for ins in fn.blocks[b]:
                if ins['id'] in self.env and ins['t'] != 'void':
                    defs.append(ins['id'])
        used = self.usedoutside(l)
        for d in defs:
            if d not in used:
                continue
            v = self.env[d]
            self.env[d] = self.atlast(v, kid, N, env2)
        newaborts = self.aborts[len(save[2]):]
        # exit edges
        rest = TRUE
        for n, (e, gg) in enumerate(exits):
            if exitg is not None:
                eg = exitg[n]
            elif n == len(exits) - 1:
                eg = rest                    # the loop is left by exactly one of its exits
            else:
                eg = self.atlast(gg, kid, N, env2)
                rest = band(rest, bnot(eg))
            ad(edges, e, band(g, eg))

    def unrolled(self, l, inits, phis, h, latch, g, edges, save):
        """evaluate the loop turn by turn when every path leaves it within opts.unroll turns"""
        phv = dict(inits)
        cg = g
        exits = []
        used = None
        chain = self.chain
        grow, seen = 0, condset(g)
        for k in range(self.o.unroll + 1):
            self.chain = '%s.%d' % (chain, k)
            for ph in phis:
                self.env[ph['id']] = phv[ph['id']]
            self.memphi = {}
            if len(self.log) - save[1] > 4000:
                break
            out = self.region(l['bs'], h, cg, l)
            back = prune(out.pop((latch, h), FALSE))
            if used is None:
                u = self.usedoutside(l)
                used = [ins['id'] for b in l['b'] for ins in self.fn.blocks[b] if ins['id'] in u and ins['t'] != 'void']
            for e, eg in out.items():
                eg = prune(eg)
                if eg is not FALSE:
                    exits.append((e, eg, {d: self.env[d] for d in used if d in self.env}))
            if back is FALSE:
                break
            # every turn adds a condition of its own: the trip count is a free quantity
            cs = condset(back)
            grow = grow + 1 if cs - seen else 0
            seen |= cs
            if grow > 2:
                break
            nxt = {}
            for ph in phis:
                for p, v in ph['in']:
                    if p == latch:
                        v = self.val(v, ph['t'])
                        nxt[ph['id']] = [restrict(x, back) for x in v] if isinstance(v, list) else restrict(v, back)
            phv = nxt
            cg = back
        else:
            back = TRUE
        self.chain = chain
        if back is not FALSE or not exits:
            self.env = dict(save[0])
            del self.log[save[1]:]
            self.aborts = save[2][:]
            self.kstack = save[3]
            return False
        for d in used:
            vs = [(eg, en[d]) for e, eg, en in exits if d in en]
            if not vs:
                continue
            r = vs[-1][1]
            for eg, v in reversed(vs[:-1]):
                if isinstance(v, list):
                    r = [ite(eg, x, y) for x, y in zip(v, r)]
                else:
                    r = lift2(lambda x, y, eg=eg: ite(eg, x, y), *bcoerce(v, r))
            self.env[d] = r
        for e, eg, en in exits:
            ad(edges, e, bor(edges.get(e, FALSE), eg))
        return True

    def invariant(self, cur, nx, init):
        """on every path the next value is the initial one, given that the current value is"""
        if not isinstance(cur, T) or cur.c is not None or not isinstance(cur.v, P) or not isinstance(init, T) or init.c is not None or not isinstance(init.v, P):
            return False
        if not isinstance(nx, T) or nx.c is None and not isinstance(nx.v, P):
            return False
        ph = [a for a in phiatoms(cur)]
        if len(ph) != 1:
            return False
        a = ph[0]
        d = init.v - (cur.v - A(a))
        z = subst_t(nx, {a: d})
        return all(isinstance(v, P) and v == init.v for v in leaves(z))

    def shift(self, cur, nx, init, kid, phis, phv):
        """a value prefetched one iteration ahead: phi(k) = nx(k-1), with nx(-1) the initial value"""
        if not isinstance(nx, T) or isb(nx) or not isinstance(init, T) or self.depphi(nx, phis, phv):
            return None
        if kid not in sym._tall(nx):
            return None
        try:
            if subst_t(nx, {kid: C(-1)}) is not init:
                return None
            return subst_t(nx, {kid: A(kid) - 1})
        except ZeroDivisionError:
            return None

    def usedoutside(self, l):
        r = set()
        fn = self.fn
        for b in fn.rpo:
            inl = b in l['bs']
            for ins in fn.blocks[b]:
                if ins['op'] == 'phi':
                    for p, v in ins['in']:
                        if 'v' in v and p in l['bs'] and not inl:
                            r.add(v['v'])
                if not inl:
                    for o in opnds(ins):
                        r.add(o)
        return r

    def atlast(self, v, kid, N, endsub):
        if isinstance(v, list):
            return [self.atlast(x, kid, N, endsub) for x in v]
        env = dict(endsub)

        def f(n):
            e = {kid: n - 1}
            # phi end values may themselves be expressed at N
            for a, t in env.items():
                e[a] = t
            return subst_t(v, e)
        if not (set(env) | {kid}) & set(sym._tall(v)):
            return v
        return bind(N, f)

    def loopvar(self, p, kid, phis, phv):
        """does p depend on this loop's iteration?"""
        if isinstance(p, T):
            s = sym._tall(p)
        else:
            s = set()
            sym._collect(p, s)
        if kid in s:
            return True
        for ph in phis:
            x = phv[ph['id']]
            for y in (x if isinstance(x, list) else [x]):
                if phiatoms(y) & s:
                    return True
        for a in s:
            t = ATOMS[a]
            if t[0] == 'res' and len(t) > 3 and any(kid in z.d and False for z in ()):
                return True
        return False

    def accum(self, cur, nx, init, kid, N, phis, phv, back):
        """(value of the phi in the last iteration, value after it)"""
        if isb(cur) or isb(nx):
            c = self.boolacc(cur, nx, init, kid, N, phis, phv)
            if c is not None:
                return c
            r = self.recur(cur, nx, init, kid, N)
            return r, r
        nx = asnum(nx)
        cur = asnum(cur)
        init = asnum(init)
        d = apply(lambda x, y: x - y, nx, cur)
        if d is TZERO:
            return init, init
        if not self.depphi(d, phis, phv):
            # plain reduction
            def mks(n):
                e = inrange(d, kid, n)
                return bind(tree_to_poly(e, frozenset([kid])) if kdepc(e, kid) else e,
                            lambda b: L(mksum_t(b, kid, n)))
            total = apply(lambda x, y: x + y, init, bind(N, mks))
            # in the last iteration the phi holds everything but that iteration's contribution
            lastd = bind(N, lambda n: subst_t(d, {kid: n - 1}))
            return apply(lambda x, y: x - y, total, lastd), total
        # max / min: nx = cond(f - phi) ? f : phi
        r = self.minmax(cur, nx, init, kid, N, phis, phv)
        if r is None and cur.c is None:
            r = self.boolacc(cur, nx, init, kid, N, phis, phv)
        if r is not None:
            return r
        # value carried from the previous iteration: nx does not depend on any phi
        if not self.depphi(nx, phis, phv) :
            e2 = bind(N, lambda n: ite(c_le0(n - 1), init, subst_t(nx, {kid: n - 2})))
            e1 = bind(N, lambda n: subst_t(nx, {kid: n - 1}))
            return e2, e1
        r = self.recur(cur, nx, init, kid, N)
        return self.recur(cur, nx, init, kid, apply(lambda n: n - 1, N)), r

    def depphi(self, t, phis, phv):
        s = sym._tall(t)
        for ph in phis:
            x = phv[ph['id']]
            for y in (x if isinstance(x, list) else [x]):
                if phiatoms(y) & s:
                    return True
        return False

    def minmax(self, cur, nx, init, kid, N, phis, phv):
        if nx.c is None or nx.hi.c is not None or nx.lo.c is not None:
            return None
        if cur.c is not None:
            return None
        a, b = nx.hi.v, nx.lo.v
        c = cur.v
        tup = CONDS[nx.c]
        if tup[0] not in ('flt', 'fgt', 'le'):
            return None
        f = b if a == c else (a if b == c else None)
        if f is None:
            return None
        if self.depphi(L(f), phis, phv):
            return None
        q = tup[1]
        if tup[0] == 'le':
            # lin <= t
            d = f - c
            if q == d and tup[2] in (0, -1):
                lt = True
            elif q == -d and tup[2] in (0, -1):
                lt = False
            else:
                return None
            less = lt
        else:
            d = f - c
            if q == d:
                less = tup[0] == 'flt'
            elif q == -d:
                less = tup[0] == 'fgt'
            else:
                return None
        # condition true <=> f < phi (less) or f > phi (not less)
        takes_f = (a == f)          # true branch takes f
        kind = 'min' if less == takes_f else 'max'

        def red(n):
            h = height(f)
            bb = subst(f, {kid: bvar(h)})
            if bb.c is not None:
                raise Unsupported('conditional min/max body')
            return apply(lambda i: mk('red' + kind, bb.v, n, i), init)
        return bind(N, lambda n: red(n - 1)), bind(N, red)

    def boolacc(self, cur, nx, init, kid, N, phis, phv):
        """flag |= c(k) or flag &= c(k)"""
        num = cur.c is None
        if num:
            a = cur.v.single() if isinstance(cur.v, P) else None
            if a is None or not (init is TZERO or init is L(ONE)):
                return None
            n = [subst_t(nx, {a: C(v)}) for v in (0, 1)]
        else:
            if cur.hi is not TRUE or cur.lo is not FALSE:
                return None
            n = [restrict(nx, bnot(cur)), restrict(nx, cur)]
            init = asbool(init)
        if any(self.depphi(x, phis, phv) for x in n) or not all(isb(x) or bit01(x) for x in n):
            return None
        n0, n1 = asbool(n[0]), asbool(n[1])
        start = asbool(init)

        def red(n):
            b = bvar(91 + len(self.kstack))
            if n1 is TRUE:
                c = subst_t(inrange(n0, kid, n), {kid: b})
                r = bor(start, c_atom('any', c, n) if c.c is not None else band(c, c_lt(ZERO, n)))
            elif n0 is FALSE:
                c = subst_t(inrange(bnot(n1), kid, n), {kid: b})
                r = band(start, bnot(c_atom('any', c, n) if c.c is not None else band(c, c_lt(ZERO, n))))
            return asnum(r) if num else r
        if n1 is not TRUE and n0 is not FALSE:
            return None
        return bind(N, lambda n: red(n - 1)), bind(N, red)

    def recur(self, cur, nx, init, kid, N):
        """canonical opaque recurrence"""
        nb = nx if isinstance(nx, T) else L(mk('opq'))
        env = {kid: bvar(90)}
        for a in phiatoms_any(nb):
            env[a] = mk('recphi', ATOMS[a][3] if len(ATOMS[a]) > 3 else 0, 'self' if a in phiatoms(cur) else 'other')
        body = subst_t(nb, env)
        return bind(N, lambda n: L(mk('rec', body, n, init)))

    def partial_value(self, a, i, phv, finals, kid, inits, lv, N):
        """value of accumulator phi atom a at iteration k"""
        cur = phv[i]
        if isinstance(cur, list):
            for x, n1, i1 in zip(cur, lv[i], inits[i] if isinstance(inits[i], list) else [inits[i]] * len(cur)):
                if a in phiatoms(x):
                    return self.partial1(x, n1, i1, kid)
        r = self.partial1(cur, lv[i], inits[i], kid)
        if isinstance(cur, T) and cur.c is None and isinstance(cur.v, P) and cur.v != A(a) and not isb(r):
            base = cur.v - A(a)                  # a pointer is tracked as an offset from its object
            r = apply(lambda x: x - base if isinstance(x, P) else x, r)
        return r

    def partial1(self, cur, nx, init, kid):
        cur, nx, init = asnum(cur), asnum(nx), asnum(init)
        d = apply(lambda x, y: x - y, nx, cur)
        if not (phiatoms_any(d)):
            d = tree_to_poly(d, frozenset([kid])) if kdepc(d, kid) else d
            return apply(lambda x, y: x + y, init, bind(d, lambda b: L(mksum_t(b, kid, A(kid)))))
        if not phiatoms_any(nx):
            return ite(c_le0(A(kid)), init, subst_t(nx, {kid: A(kid) - 1}))
        b = fresh('k')
        nb = subst_t(nx, {kid: A(b)})
        return self.recur(cur, nx, init, kid, L(A(kid)))

    def carried(self, l, once, phv, kid, save, g):
        """detect memory cells with loop-invariant address that are read and written by the body"""
        self.loopreads = []
        self.cellsub = {}
        out = once(phv, {})
        body = self.log[save[1]:]
        stored = {}
        for e in body:
            if e.kind == 'store' and not e.ks:
                if not self.loopvar(e.ptr, kid, [], {}) and not (phiatoms_any(L(e.ptr))):
                    stored.setdefault((e.ptr, e.size), []).append(e)
        cells = {}
        if not stored:
            return out, cells
        # which of them are read before being written in the iteration?
        cellatoms = {}
        for (p, sz), es in stored.items():
            b = baseof(p)
            v0 = self.ld(p, sz, es[-1].fty, TRUE, upto=save[1])
            cellatoms[(p, sz)] = v0
        # second pass with the cells holding fresh symbols
        syms = {}
        pre = []
        for (p, sz), es in stored.items():
            a = fresh('phi', 'mem', sz)
            if es[-1].fty == 'ptr':
                PTR.add(a)
            syms[(p, sz)] = a
            pre.append(Effect('store', ptr=p, size=sz, val=L(A(a)), guard=TRUE, fty=es[-1].fty, loc='cell'))

        def once2():
            self.env = dict(save[0])
            del self.log[save[1]:]
            self.aborts = save[2][:]
            self.kstack = save[3] + (kid,)
            for i, v in phv.items():
                self.env[i] = v
            for e in pre:
                e.seq = len(self.log)
                self.log.append(e)
            return self.region(l['bs'], l['h'], TRUE, l)
        out = once2()
        for (p, sz), es in stored.items():
            nxt = self.ld(p, sz, es[-1].fty, TRUE)
            a = syms[(p, sz)]
            init = cellatoms[(p, sz)]
            cur = L(A(a))
            ty = es[-1].fty

            def fin(N, cur=cur, nxt=nxt, init=init, ty=ty):
                x = self.accum2(cur, nxt, init, kid, N, syms, phv)
                if str(ty) == 'f32' and not (N.c is None and N.v.isconst()) and x is not init:
                    self.floatacc.append('accumulator kept in memory')
                return x
            cells[(p, sz)] = (fin, ty, None)
        # drop the pre-stores and the body stores to cells
        rest = [e for e in self.log[save[1]:] if not (e.kind == 'store' and not e.ks and (e.ptr, e.size) in stored)]
        # uses of the cell symbol inside other effects are partial values
        del self.log[save[1]:]
        for e in rest:
            self.log.append(e)
        self.cellsyms = syms
        return out, cells

    def accum2(self, cur, nx, init, kid, N, syms, phv):
        nx, init = asnum(nx), asnum(init)
        d = apply(lambda x, y: x - y, nx, cur)
        s = sym._tall(d)
        if d is TZERO:
            return init
        ph = phiatoms_any(d)
        if not ph:
            def mks(n):
                e = inrange(d, kid, n)
                return bind(tree_to_poly(e, frozenset([kid])) if kdepc(e, kid) else e, lambda b: L(mksum_t(b, kid, n)))
            return apply(lambda x, y: x + y, init, bind(N, mks))
        if not phiatoms_any(nx):
            return bind(N, lambda n: subst_t(nx, {kid: n - 1}))
        return self.recur(cur, nx, init, kid, N)

    def linbound(self, back, kid):
        """lincond, also for a test k+1 != n when what happens beyond n does not matter"""
        lin = self.lincond(back, kid)
        if lin is not None:
            return lin
        for v in condset(back):
            if CONDS[v][0] != 'le' or kid not in _condatoms(v):
                continue
            lin = self.lincond(prune(restrict(back, bnot(var(v)))), kid)
            if lin is not None and lin.c is None and bnot(var(v)) is c_lt(A(kid), lin.v + 2) and band(self.kfact, c_le0(lin.v + 2)) is FALSE:
                return lin
        return None

    def compact(self, e, kid, N):
        """t[j] = v(k), j counting the iterations with c(k): entry j holds v at the j-th such iteration"""
        if N.c is not None:
            return
        hit = None
        for m, c in e.ptr.d.items():
            ks = [a for a, _ in m if kid in _am(a)]
            if not ks:
                continue
            if len(m) != 1 or m[0][1] != 1 or hit is not None or abs(c) < e.size:
                return
            hit = (m[0][0], c)
        if hit is None or ATOMS[hit[0]][0] != 'sum' or ATOMS[hit[0]][2] != A(kid):
            return
        body = ATOMS[hit[0]][1]
        b = body.single()
        if b is None or ATOMS[b][0] != 'ite' or ATOMS[b][2] != ONE:
            return
        bv = [a for a in sym._tall(ATOMS[b][1]) if ATOMS[a][0] == 'bv']
        cond = ATOMS[b][1] if not bv else subst_t(ATOMS[b][1], {bv[-1]: A(kid)})
        if band(e.guard, bnot(cond)) is not FALSE:
            return
        j = fresh('k')
        RANGE[j] = (0, None)
        nth = mk('nth', body, A(j))
        RANGE[nth.single()] = (0, None)
        e.ptr = e.ptr + (A(j) - A(hit[0])).scale(hit[1])
        e.val = subst_t(restrict(e.val, cond), {kid: nth})
        e.guard = subst_t(restrict(e.guard, cond), {kid: nth})
        e.dense = (j, L(mk('sum', body, N.v)))

    def tablecell(self, p, sz, kid):
        """(table entry, stride) when p = base + stride*table[..k..] + c in storage allocated here"""
        if not kid:
            return None
        b = baseof(p)
        if b is None or ATOMS[b][0] not in ('new', 'alloca') or kid in _am(b):
            return None
        hit = None
        for m, c in p.d.items():
            if any(kid in _am(a) for a, _ in m):
                if hit is not None or len(m) != 1 or m[0][1] != 1 or ATOMS[m[0][0]][0] != 'ld' or abs(c) < sz:
                    return None
                hit = (m[0][0], c)
        return hit

    def scatter(self, e, kid, N, phis):
        """cell[table[k]] += d(k): every cell c holds its old value plus the sum of d(k) over the k with table[k] == c"""
        sc = [a for v in leaves(asnum(e.val)) if isinstance(v, P) for a in _mentioned(v) if ATOMS[a][0] == 'sc'] if not isinstance(e.val, list) else []
        if not sc:
            return
        hit = self.tablecell(e.ptr, e.size, kid)
        if hit is None or N.c is not None:
            raise Unsupported('cells addressed through a table')
        old = asnum(self.ld(e.ptr, e.size, e.fty, e.guard))
        d = restrict(apply(lambda x, y: x - y - mk('sc', e.ptr), asnum(e.val), old), e.guard)
        if any(ATOMS[a][0] == 'sc' for v in leaves(d) for a in _mentioned(v)) or phiatoms_any(d) & phis:
            raise Unsupported('cells addressed through a table')
        c = fresh('k')
        RANGE[c] = (0, None)
        e.ptr = e.ptr + (A(c) - A(hit[0])).scale(hit[1])
        if e.size == 4:
            self.floatacc.append(e.loc)
        cond = c_eq0(A(hit[0]) - A(c))
        g = e.guard
        gk = g if kid in sym._tall(g) else TRUE
        body = tree_to_poly(ite(band(cond, gk), d, TZERO), frozenset([kid]))
        e.guard = TRUE if gk is not TRUE else g
        e.val = apply(lambda x, y: x + y, asnum(self.ld(e.ptr, e.size, e.fty, e.guard)), bind(body, lambda b: L(mksum_t(b, kid, N.v)) if not isinstance(mksum_t(b, kid, N.v), T) else mksum_t(b, kid, N.v)))
        e.dense = (c, L(UNB))

    def search(self, back, exits, kid):
        """loop left early in the first iteration satisfying a condition, or after a known number of iterations:
        (number of header runs, conditions of the two exits)"""
        if back is FALSE or back is TRUE or self.lincond(back, kid) is not None:
            return None
        for j in (0, 1):
            c = prune(exits[j][1])
            if c is FALSE or phiatoms_any(c):
                continue
            r = prune(restrict(back, bnot(c)))
            lin = self.linbound(r, kid)
            if lin is None:
                continue
            hit = {}

            def within(v):
                n = v + 2
                w = c_lt(A(kid), n)
                cn = prune(c, Facts().add(w.c, w.hi is not FALSE)) if w.c is not None else c
                b = subst_t(cn, {kid: bvar(91 + len(self.kstack))})
                hit[v] = (c_atom('any', b, n) if b.c is not None else b, b) if isb(b) else None
                return hit[v] and hit[v][0]
            if any(within(v) is None for v in leaves(lin)):
                continue
            a = bind(lin, lambda v: hit[v][0])
            N = bind(lin, lambda v: ite(hit[v][0], L(mk('first', hit[v][1]) + 1), L(v + 2)))
            eg = [a, bnot(a)]
            return N, eg if j == 0 else eg[::-1], lin.v + 2 if lin.c is None else None
        return None

    def trip(self, l, back, exits, kid, g):
        """number of times the header runs, from the condition under which the back edge is taken.
        Body effects are attributed to every header execution (loops are rotated)."""
        K = A(kid)
        if back is FALSE:
            return L(ONE), None, None
        if back is TRUE:
            return L(mk('inf')), None, None
        lin = self.linbound(back, kid)
        if lin is not None:
            # back edge taken while K <= lin  ->  header runs lin+2 times (k = 0..lin+1)
            return apply(lambda x: x + 2, lin), None, None
        # opaque: first iteration at which the back edge is not taken
        b = subst_t(back, {kid: bvar(91 + len(self.kstack))})
        n = mk('first', b)
        return L(n + 1), None, None

    def lincond(self, back, kid):
        """if back == (K <= bound) for one loop-invariant bound, return bound as tree"""
        # single literal
        if back.c is not None and back.hi in (TRUE, FALSE) and back.lo in (TRUE, FALSE):
            tup = CONDS[back.c]
            pos = back.hi is TRUE
            if tup[0] == 'eq' and not pos:
                # K != b  (lin - c == 0 false)
                p = tup[1] - C(tup[2])
                r = solve(p, kid)
                if r is not None:
                    return L(r - 1)
                return None
            if tup[0] == 'le':
                p = tup[1] - C(tup[2])       # p <= 0
                if not pos:
                    p = -p + 1               # p > 0  <=> -p+1 <= 0
                co, rest = lincoef(p, kid)
                if co is None or co <= 0:
                    return None
                # co*K + rest <= 0
                return L(fl(-rest, co) if co != 1 else -rest)
            return None
        if back.c is not None:
            # condition chosen by loop-invariant tests
            if not any(kid in sym._amention(a) for a in _condatoms(back.c)):
                hi = self.lincond(back.hi, kid) if back.hi not in (TRUE, FALSE) else None
                lo = self.lincond(back.lo, kid) if back.lo not in (TRUE, FALSE) else None
                if hi is not None and lo is not None:
                    return ite(var(back.c), hi, lo)
        return None


def condset(t):
    s, todo, done = set(), [t], set()
    while todo:
        x = todo.pop()
        if x.c is None or x.id in done:
            continue
        done.add(x.id)
        s.add(x.c)
        todo += [x.hi, x.lo]
    return s


def _condatoms(c):
    s = set()
    for q in CONDS[c][1:]:
        sym._collect(q, s)
    return s


_am = sym._amention
_mentions = sym._mentions


def lincoef(p, kid):
    co, rest = 0, {}
    for m, c in p.d.items():
        if any(a == kid for a, _ in m):
            if m == ((kid, 1),):
                co = c
            else:
                return None, None
        elif any(kid in _am(a) for a, _ in m):
            return None, None
        else:
            rest[m] = c
    return co, P(rest)


def solve(p, kid):
    """k such that p(k)=0 for p linear in k"""
    co, rest = lincoef(p, kid)
    if co is None or co == 0:
        return None
    r = (-rest).scale(Fraction(1) / Fraction(co))
    return r


def fl_exact(q, coef):
    """q/coef when every coefficient divides, else None"""
    d = {}
    for m, c in q.d.items():
        x = Fraction(c) / coef
        if x.denominator != 1:
            return None
        d[m] = int(x)
    return P(d)


def kdepc(t, kid):
    """does a condition of t depend on kid?"""
    if t.c is None:
        return False
    return kid in _condatoms(t.c) or kdepc(t.hi, kid) or kdepc(t.lo, kid)


def isnotk(t, kid):
    return kid not in sym._tall(t)


def inrange(d, kid, n):
    """drop the cases of the summand that no iteration 0 <= k < n reaches"""
    if not kdepc(d, kid) or not isinstance(n, P):
        return d
    g = c_lt(A(kid), n)
    if g.c is None:
        return d
    f = Facts().add(g.c, g.hi is not FALSE)
    f.deep = True
    return prune(d, f)


def mksum_t(b, kid, n):
    return mksum(b, kid, n)


def phiatoms(t):
    s = set()
    if t.c is None:
        if isinstance(t.v, P):
            for m in t.v.d:
                for a, _ in m:
                    if ATOMS[a][0] == 'phi':
                        s.add(a)
    else:
        for q in CONDS[t.c][1:]:
            x = set()
            sym._collect(q, x)
            s |= {a for a in x if ATOMS[a][0] == 'phi'}
    return s


def phiatoms_any(t):
    return {a for a in sym._tall(t) if ATOMS[a][0] == 'phi'}


def isintstep(step, ty):
    return ty[0] == 'i' or ty == 'ptr'


def leaves(t):
    if t.c is None:
        return [t.v]
    return leaves(t.hi) + leaves(t.lo)


def cases(t):
    """(guard, leaf) of a pointer tree, one per distinct leaf"""
    if t.c is None:
        return [(TRUE, t.v)]
    r = {}

    def go(t, g):
        if t.c is None:
            r[t.v] = bor(r.get(t.v, FALSE), g)
            return
        go(t.hi, band(g, var(t.c)))
        go(t.lo, band(g, bnot(var(t.c))))
    go(t, TRUE)
    return [(g, p) for p, g in r.items()]


def bit01(t):
    for v in leaves(t):
        lo, hi = prange(v) if isinstance(v, P) else (0, 1)
        if lo is None or hi is None or lo < 0 or hi > 1:
            return False
    return True


def opnds(ins):
    r = []

    def f(o):
        if isinstance(o, dict):
            if 'v' in o:
                r.append(o['v'])
            for x in o.get('vec', ()):
                f(x)
        elif isinstance(o, list):
            for x in o:
                f(x)
    for k in ('a', 'base', 'idx', 'c', 'callee'):
        if k in ins:
            f(ins[k])
    return r


def ad(edges, k, g):
    if k in edges:
        g = bor(edges[k], g)
    edges[k] = g


def vecty(t):
    m = re.match(r'v(\d+)(.*)', t)
    return int(m.group(1)), m.group(2)


def tysize(t):
    return {'f32': 4, 'f64': 8, 'ptr': 8, 'i1': 1, 'f80': 16}.get(t) or int(t[1:]) // 8


def isb(t):
    if not isinstance(t, T):
        return False
    while t.c is not None:
        t = t.hi
    return t.v is True or t.v is False


def asnum(t):
    if isinstance(t, list):
        return t
    if isb(t):
        return ite(t, L(ONE), TZERO)
    return t


def asbool(t):
    if isb(t):
        return t

    def f(v):
        if v is True or v is False:
            return TRUE if v else FALSE
        if v.isconst():
            return TRUE if v.const() else FALSE
        return bnot(c_eq0(v))
    return bind(t, f)


def bcoerce(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return a, b
    if isb(a) != isb(b):
        return asnum(a), asnum(b)
    return a, b


def lift2(f, a, b):
    if isinstance(a, list) or isinstance(b, list):
        n = len(a) if isinstance(a, list) else len(b)
        a = a if isinstance(a, list) else [a] * n
        b = b if isinstance(b, list) else [b] * n
        return [f(x, y) for x, y in zip(a, b)]
    return f(a, b)


_UNDEF = mk('undef')


def isundef(v):
    if isinstance(v, list):
        return all(isundef(x) for x in v)
    return isinstance(v, T) and v.c is None and v.v == _UNDEF


def mkptr(p, ty):
    if ty == 'ptr':
        s = p.single()
        if s is not None:
            PTR.add(s)
    return p


def retype(v, fty, ty):
    if ty == 'ptr' and isinstance(v, T) and not isb(v):
        def f(x):
            s = x.single()
            if s is not None:
                PTR.add(s)
            return x
        return apply(f, v)
    if fty and fty[0] == 'f' and ty[0] == 'i' or fty and fty[0] == 'i' and ty[0] == 'f':
        # bit reinterpretation of a constant
        if isinstance(v, T) and v.c is None and isinstance(v.v, P) and v.v.isconst() and v.v.const() != 0:
            c = v.v.const()
            try:
                if fty == 'f32':
                    return L(C(struct.unpack('<i', struct.pack('<f', float(c)))[0]))
                if fty == 'f64':
                    return L(C(struct.unpack('<q', struct.pack('<d', float(c)))[0]))
                if ty == 'f32':
                    return L(C(Fraction(struct.unpack('<f', struct.pack('<I', int(c) % (1 << 32)))[0])))
                if ty == 'f64':
                    return L(C(Fraction(struct.unpack('<d', struct.pack('<Q', int(c) % (1 << 64)))[0])))
            except (struct.error, ValueError, OverflowError):
                pass
        if isinstance(v, T) and not isb(v):
            if fty[0] == 'f':
                return apply(lambda x: fbits(x, tysize(fty)), v)
            return apply(unbits, v)
    return v


def fbits(x, sz):
    """bit pattern of the floating point value x as an integer"""
    if x.isconst() and x.const() == 0:
        return x
    s = x.single()
    if s is not None and ATOMS[s][0] in ('ld', 'bytes', 'cat', 'uninit', 'undef'):
        return x
    return mk('fbits', x, sz)


def ident(x):
    return x


def unbits(x):
    s = x.single()
    if s is not None and ATOMS[s][0] == 'fbits':
        return ATOMS[s][1]
    return x


def packed(x, o, sz):
    """sz=4 bytes at offset o of lo + 2^32*hi where lo and hi are 4-byte bit patterns"""
    H = 1 << 32
    lo, hi = {}, {}
    for m, c in x.d.items():
        if isinstance(c, Fraction):
            return None
        if c % H == 0:
            hi[m] = c // H
        else:
            lo[m] = c
    for d in (lo, hi):
        q = P(d)
        if q.isconst():
            continue
        s = q.single()
        if s is None:
            return None
        k = ATOMS[s]
        if not (k[0] == 'fbits' and k[2] == 4 or k[0] == 'ld' and k[2] == 4 or k[0] == 'bytes' and k[3] == 4):
            return None
    return P(lo) if o == 0 else P(hi)


def subload(x, o, sz):
    """sz bytes at byte offset o of the bit pattern x"""
    if sz == 4 and o in (0, 4) and x.single() is None and not x.isconst():
        r = packed(x, o, sz)
        if r is not None:
            return r
    s = x.single()
    if s is not None:
        t = ATOMS[s]
        if t[0] == 'ld':
            if o == 0 and sz == t[2]:
                return x
            return mk('ld', t[1] + C(o), sz)
        if t[0] == 'cat':
            es = t[2]
            parts = t[1]
            if sz == es and o % es == 0:
                return parts[o // es]
            if sz > es and sz % es == 0 and o % es == 0:
                return mkcat(parts[o // es:(o + sz) // es], es)
            if sz < es:
                return subload(parts[o // es], o % es, sz)
        if t[0] == 'bytes':
            return subload(t[1], t[2] + o, sz)
        if t[0] == 'fbits' and o == 0 and sz == t[2]:
            return x
    if x.isconst() and not isinstance(x.const(), Fraction):
        return C((x.const() >> (8 * o)) & ((1 << (8 * sz)) - 1))
    return mk('bytes', x, o, sz)


def mkcat(parts, es):
    parts = tuple(parts)
    # consecutive loads coalesce
    s = [p.single() for p in parts]
    if all(a is not None and ATOMS[a][0] == 'ld' and ATOMS[a][2] == es for a in s):
        p0 = ATOMS[s[0]][1]
        if all(ATOMS[a][1] == p0 + C(k * es) for k, a in enumerate(s)):
            return mk('ld', p0, es * len(parts))
    if all(a is not None and ATOMS[a][0] == 'bytes' and ATOMS[a][3] == es for a in s):
        x0, o0 = ATOMS[s[0]][1], ATOMS[s[0]][2]
        if all(ATOMS[a][1] == x0 and ATOMS[a][2] == o0 + k * es for k, a in enumerate(s)):
            return subload(x0, o0, es * len(parts))
    # flatten nested cats of the same element size
    if all(p.isconst() and not isinstance(p.const(), Fraction) for p in parts):
        v = 0
        for k, p in enumerate(parts):
            v |= (int(p.const()) & ((1 << (8 * es)) - 1)) << (8 * es * k)
        return C(v)
    return mk('cat', parts, es)


def mathfn(b, ps):
    if b in ('fabs',):
        p = ps[0]
        if p.isconst():
            return C(abs(p.const()))
        lead = p.d[min(p.d)]
        if lead < 0:
            p = -p
        return mk('math', 'fabs', (p,))
    if b == 'maxnum' or b == 'minnum':
        return mk('math', b, tuple(sorted(ps, key=lambda p: min(p.d) if p.d else ())))
    return mk('math', b, tuple(ps))


def fpclass(x, m):
    # masks used by clang for isnan(3) isinf(516) isfinite(504) isnormal(264)
    return c_atom('fpclass', x, int(m))


def ovf(short):
    return (lambda a, b: a - b) if short == 'usub' else (lambda a, b: a + b)


def _hasinf(t):
    for v in leaves(t):
        if isinstance(v, P):
            s = v.single()
            if s is not None and ATOMS[s][0] == 'fconst':
                return True
    return False


def noxor(p):
    """a polynomial of the same parity without exclusive-or atoms"""
    if not intcoef(p):
        return p
    for m, c in p.d.items():
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == 'xor':
            x, y = ATOMS[m[0][0]][1:3]
            return noxor(p - P({m: c}) + (x + y).scale(c))
    return p


def mod2of(p):
    """q when p is q mod 2 by its form"""
    for m, c in p.d.items():
        if c == -2 and len(m) == 1 and m[0][1] == 1:
            a = ATOMS[m[0][0]]
            if a[0] == 'fl' and (a[2] == 2 or a[2] == C(2)):
                q = p + A(m[0][0]).scale(2)
                return q if fl(q, 2) == A(m[0][0]) else None
    return None


def intop(op, w, x, y, ins):
    if x.isconst() and y.isconst():
        a, b = int(x.const()), int(y.const())
        M = (1 << w) - 1
        if op == 'and':
            return C(sgn((a & b) & M, w))
        if op == 'or':
            return C(sgn((a | b) & M, w))
        if op == 'xor':
            return C(sgn((a ^ b) & M, w))
        if op == 'shl':
            return C(sgn((a << b) & M, w))
        if op == 'lshr':
            return C((a & M) >> b)
        if op == 'ashr':
            return C(a >> b)
        if op in ('sdiv', 'udiv'):
            q = abs(a) // abs(b)
            return C(q if (a >= 0) == (b >= 0) else -q)
        if op in ('srem', 'urem'):
            q = abs(a) % abs(b)
            return C(q if a >= 0 else -q)
    if op == 'shl' and y.isconst():
        return x.scale(1 << int(y.const()))
    if op == 'shl' and x.isconst() and x.const() == 1:
        return mk('pow2', y)
    if op == 'mul':
        return x * y
    if op == 'lshr' and y.isconst():
        n = int(y.const())
        if n == w - 1:
            # sign bit
            pass
        s = x.single()
        if s is None and n == 32 and w == 64:
            r = packed(x, 4, 4)
            if r is not None and not r.isconst():
                return r
        if s is not None and ATOMS[s][0] in ('ld', 'cat', 'bytes') and n % 8 == 0:
            if ATOMS[s][0] != 'ld' or ATOMS[s][2] * 8 == w and w == 64 and n == 32:
                return subload(x, n // 8, (w - n) // 8)
        return fl(x, 1 << n)
    if op == 'ashr' and y.isconst():
        return fl(x, 1 << int(y.const()))
    if op in ('sdiv', 'udiv'):
        if y.isconst() and y.const() < 0:
            return -intop(op, w, x, -y, ins)
        return fl(x, y)
    if op in ('srem', 'urem'):
        q = fl(x, y)
        return x - q * y
    if op == 'and':
        for a, b in ((x, y), (y, x)):
            if b.isconst():
                m = int(b.const())
                if m < 0:
                    m2 = -m
                    if m2 & (m2 - 1) == 0:        # clear low bits
                        return fl(a, m2).scale(m2)
                    m &= (1 << w) - 1
                if m & (m + 1) == 0:              # low mask
                    t = ATOMS[a.single()] if a.single() is not None else None
                    if t is not None and t[0] == 'mod' and isinstance(t[2], int) and t[2] % (m + 1) == 0:
                        a = t[1]                  # of a truncated value
                    lo, hi = prange(a)
                    if lo is not None and hi is not None and lo >= 0 and hi <= m:
                        return a
                    if m == 0xffffffff and w == 64:
                        return a
                    if m == 0x7fffffff or m == 0xffffffff:
                        return mk('and', a, m)
                    if m == 1:
                        a = noxor(a)
                    return a - fl(a, m + 1).scale(m + 1)
                # contiguous mask  2^j..2^i
                low = m & -m
                if ((m // low) & (m // low + 1)) == 0:
                    q = fl(a, low)
                    if 29 <= m.bit_length() - 1 <= 31 or m >> 60:      # sign bits of a non-negative index computation
                        return q.scale(low)
                    n = m // low + 1
                    return (q - fl(q, n).scale(n)).scale(low)
    if op == 'xor' and (y.isconst() and y.const() == -1 or x.isconst() and x.const() == -1):
        z = x if y.isconst() else y
        return -z - 1
    if op == 'xor' and (x.isconst() or y.isconst()):
        c, z = (int(y.const()), x) if y.isconst() else (int(x.const()), y)
        if c == 0:
            return z
        if c > 0 and bin(c).count('1') <= 5 and intcoef(z):
            # flip the bits of c one by one: bit k of z is floor(z/2^k) - 2 floor(z/2^(k+1))
            r = z
            for k in range(c.bit_length()):
                if c >> k & 1:
                    r = r + C(1 << k) - (fl(z, 1 << k) - fl(z, 2 << k).scale(2)).scale(2 << k)
            return r
    if op == 'xor':
        u, v = mod2of(x), mod2of(y)
        if (u is not None or v is not None) and all(q is not None or prange(p) in ((0, 1), (0, 0)) for p, q in ((x, u), (y, v))):
            q = (x if u is None else u) + (y if v is None else v)
            return q - fl(q, 2).scale(2)
    a, b = sorted((x, y), key=lambda p: sorted(p.d.items(), key=str).__repr__())
    if op in ('or', 'xor'):
        for p, q in ((x, y), (y, x)):           # disjoint bits
            lo, hi = prange(q)
            if lo is not None and hi is not None and lo >= 0 and intcoef(p) and p.d and prange(p)[0] is not None and prange(p)[0] >= 0:
                m = 1 << int(hi).bit_length()
                if all(c % m == 0 for c in p.d.values()):
                    return p + q
    if op in ('and', 'or', 'xor'):
        if a == b:
            return ZERO if op == 'xor' else a
        return mk(op, a, b)
    return mk(op, x, y)


def sgn(v, w):
    return v - (1 << w) if w > 1 and v >> (w - 1) else v


def where1(fn, l, ph):
    """a source location inside loop l"""
    for b in l['bs']:
        for ins in fn.blocks[b]:
            if ins.get('loc'):
                return ins['loc']
    return ''


for _op in ('and', 'or', 'xor'):
    def _rb(pay, ptr, op=_op):
        x, y = pay
        return intop(op, 64, x, y, {}) if x.isconst() and y.isconst() or op == 'xor' and (x.isconst() or y.isconst()) else mk(op, x, y)
    REBUILD[_op] = _rb
