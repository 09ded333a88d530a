"""P16: operands of double precision are never rounded before they are used.

Forward dataflow over the SSA form of every witness statement: a value is *rounded* when it comes
from a conversion of a double (or of an integer that need not fit) to float, through copies,
selections, vectors and temporaries.  Rounded values may only be stored."""
import re
import wit
import lat
import redm
from spec import Ty

ARITH = ('fadd', 'fsub', 'fmul', 'fdiv', 'frem')
FLOATFN = re.compile(r'^(llvm\.(sqrt|fma|fmuladd|pow|exp|log|sin|cos|floor|ceil|maxnum|minnum)[a-z0-9]*\.f32|(a?(sin|cos|tan)h?|exp|log|log10|sqrt|pow|atan2|fmod|ceil|floor|hypot)f)$')
COPY = ('phi', 'select', 'freeze', 'bitcast', 'insertelement', 'extractelement', 'shuffle', 'shufflevector', 'insertvalue', 'extractvalue', 'fneg')


class Ev:
    ninst = 0


def isfloat(t):
    return bool(re.match(r'^(v\d+)?f32$', t))


def words(w):
    """word types of the floating operands of a statement and of its destination"""
    r = []
    for a in getattr(w, 'args', []):
        t = a[1] if isinstance(a, tuple) else a
        if isinstance(t, Ty) and t.word in 'fd':
            r.append(t.word)
        elif isinstance(t, str):
            m = re.search(r'Real([DF])|Lattice\w+?([DF])\b|REAL(32|64)|\b(float|double)\b', t)
            if m:
                r.append('d' if 'D' in m.groups() or '64' in m.groups() or 'double' in m.groups() else 'f')
    d = w.dest.word if isinstance(getattr(w, 'dest', None), Ty) else None
    return r, d


class PW:
    def __init__(self, w):
        self.w = w
        self.name = w.name
        self.body = w.body
        self.also = getattr(w, 'also', None)

    def code(self):
        return self.w.code()

    def types(self):
        return self.w.types()

    def __getattr__(self, k):
        if k == 'w':
            raise AttributeError(k)
        return getattr(self.w, k)

    def analyse(self, fn):
        ops, dest = words(self.w)
        allwide = dest == 'd' and 'd' in ops and (len(ops) < 3 or 'f' not in ops)
        out = check(fn, allwide)
        ev = Ev()
        ev.ninst = sum(len(b) for b in fn.blocks.values())
        return 1 + sum(1 for b in fn.blocks.values() for i in b if i['op'] in ARITH), out, ev


def check(fn, allwide):
    ins = {i['id']: i for b in fn.blocks.values() for i in b if 'id' in i}
    rounded, mem = set(), set()

    def base(o, d=0):
        i = ins.get(o.get('v')) if isinstance(o, dict) else None
        if i is None or d > 40:
            return None
        if i['op'] == 'alloca':
            return i['id']
        if i['op'] == 'gep':
            return base(i['base'], d + 1)
        if i['op'] in ('bitcast', 'freeze'):
            return base(i['a'][0], d + 1)
        return None

    def isr(o):
        return isinstance(o, dict) and o.get('v') in rounded

    def operands(i):
        return i.get('a') or [x[1] for x in i.get('in', [])]
    while True:
        n = len(rounded) + len(mem)
        for i in ins.values():
            op = i['op']
            if op == 'fptrunc' and isfloat(i['t']) or op in ('sitofp', 'uitofp') and isfloat(i['t']) and wideint(ins, i):
                if not exact(ins, i):
                    rounded.add(i['id'])
            elif op in COPY and any(isr(o) for o in operands(i)):
                rounded.add(i['id'])
            elif op == 'store' and isr(i['a'][0]):
                b = base(i['a'][1])
                if b is not None:
                    mem.add(b)
            elif op == 'load' and isfloat(i['t']):
                if base(i['a'][0]) in mem:
                    rounded.add(i['id'])
            elif op == 'call' and i.get('f', '').startswith('llvm.mem') and len(i['a']) > 1:
                if base(i['a'][1]) in mem:
                    b = base(i['a'][0])
                    if b is not None:
                        mem.add(b)
        if len(rounded) + len(mem) == n:
            break
    out = []
    for i in ins.values():
        op = i['op']
        ar = op in ARITH and isfloat(i['t']) or op == 'fcmp' and isfloat(i.get('ot', '')) or op == 'call' and FLOATFN.match(i.get('f', ''))
        if ar and any(isr(o) for o in operands(i)):
            out.append(('bad', 'a double-precision operand is rounded to single precision before it is used', i.get('l', '')))
        elif ar and allwide:
            out.append(('bad', 'single-precision arithmetic in an operation with a double-precision operand', i.get('l', '')))
        elif op == 'fpext' and any(isr(o) for o in operands(i)):
            out.append(('bad', 'a double-precision value is rounded to single precision on the way', i.get('l', '')))
    return lat.dedup(out)


def wideint(ins, i):
    return False


def exact(ins, i):
    """rounding of a value that was single precision already"""
    o = i['a'][0]
    j = ins.get(o.get('v')) if isinstance(o, dict) else None
    if isinstance(o, dict) and 'f' in o:
        import struct
        v = float.fromhex(o['f']) if 'x' in o['f'] else float(o['f'])
        return struct.unpack('f', struct.pack('f', v))[0] == v
    return j is not None and j['op'] == 'fpext'


def wrap(ws):
    return [PW(w) for w in ws]
