"""Stopwatch (P24): accumulated time of start/stop pairs, for a free clock and a free previous state."""
import aw
import geo
import lat
import lib
import vg
import wit
from sym import *

PRE = aw.OUT + r'''
#include "qdp.h"
using namespace QDP;
#pragma clang attribute push(__attribute__((always_inline)), apply_to = function)
#include "%s/lib/qdp_stopwatch.cc"
#pragma clang attribute pop
''' % lib.REPO


def prelude(ws):
    return PRE


class SWt(aw.AW):
    """every reading of the clock is a free time; readings are ordered as the calls"""
    def __init__(self, name, body, outs, fails=False):
        aw.AW.__init__(self, 'sw_' + name, ['StopWatch& w', 'int n'], body, outs, opts=vg.Opts(call_hook=self.hook, unroll=8), setup=self.begin)
        self.fails = fails

    def begin(self, E):
        self.n = 0

    def hook(self, ev, ins, name, args, g):
        if name == 'gettimeofday':
            i = self.n
            self.n += 1
            p = args[0] if isinstance(args[0], P) else args[0].v
            for off, nm in ((0, 'tsec'), (8, 'tusec')):
                ev.log.append(vg.Effect('store', ptr=p + C(off), size=8, val=L(t(nm, i)), guard=g, fty='i64', loc=ins.get('l', ''), seq=len(ev.log)))
            return L(mk('tfail', C(i))) if self.fails else L(ZERO)
        if 'StandardOutputStream' in name or name.startswith(('_ZNSo', '_ZSt')):
            return args[0] if args else L(ZERO)
        return None


def t(nm, i):
    return mk(nm, C(i))


def us(i):
    return t('tsec', i) * C(1000000) + t('tusec', i)


MUS = 'getTimeInMicroseconds()'


def order(E):
    """the clock does not run backwards between any two of its readings by whole seconds"""
    g = TRUE
    for i in range(4):
        for j in range(i):
            g = band(g, c_le0(t('tsec', j) - t("tsec", i)))
    return g


def iv(*pairs):
    return lambda E: sum((us(b) - us(a) for a, b in pairs), ZERO)


def watches():
    ws = []

    def diff(name, pre, body, pairs, n=2, **kw):
        outs = [('microseconds added', 'd0', iv(*pairs))]
        ws.append(SWt(name, '%so.d[0] = -w.%s; %s; o.d[0] += w.%s' % (pre, MUS, body, MUS), outs, **kw))
    run = lambda *ops: '; '.join('w.%s()' % x for x in ops)
    diff('pair', '', run('start', 'stop'), [(0, 1)])
    diff('pause', '', run('start', 'stop', 'start', 'stop'), [(0, 1), (2, 3)])
    diff('restart', '', run('start', 'start', 'stop'), [(1, 2)])
    diff('idle', 'w.reset(); ', run('stop'), [])
    diff('stop2', '', run('start', 'stop', 'stop'), [(0, 1)])
    diff('running', '', run('start'), [])
    diff('again', '', run('start', 'stop') + '; w.%s; w.getTimeInSeconds()' % MUS, [(0, 1)])
    diff('reset_run', 'w.reset(); ', run('start', 'reset', 'stop'), [])
    diff('reset_pair', 'w.reset(); ', run('start', 'stop', 'reset', 'start', 'stop'), [(2, 3)])
    ws.append(SWt('reset', 'w.reset(); o.d[0] = w.%s; o.d[1] = w.getTimeInSeconds()' % MUS, [('time', 'd0', lambda E: ZERO), ('time in seconds', 'd1', lambda E: ZERO)]))
    ws.append(SWt('new', 'StopWatch s; o.d[0] = s.%s; o.d[1] = s.getTimeInSeconds()' % MUS, [('time', 'd0', lambda E: ZERO), ('time in seconds', 'd1', lambda E: ZERO)]))
    ws.append(SWt('newpair', 'StopWatch s; s.start(); s.stop(); o.d[0] = s.%s; o.d[1] = s.getTimeInSeconds()*1e6' % MUS, [('time', 'd0', iv((0, 1))), ('time in seconds', 'd1', iv((0, 1)))]))
    ws.append(SWt('newidle', 'StopWatch s; s.stop(); o.d[0] = s.%s' % MUS, [('time', 'd0', lambda E: ZERO)]))
    ws.append(SWt('seconds', 'o.d[0] = w.getTimeInSeconds()*1e6 - w.%s' % MUS, [('seconds and microseconds', 'd0', lambda E: ZERO)]))
    ok = lambda i: c_eq0(mk('tfail', C(i)))
    ws.append(SWt('fail', 'o.d[0] = -w.%s; w.start(); w.stop(); o.d[0] += w.%s' % (MUS, MUS),
                  [('microseconds added', 'd0', lambda E: ite(band(ok(0), ok(1)), L(us(1) - us(0)), L(ZERO)))], fails=True))
    part = lambda i: ite(band(ok(i), ok(i + 1)), L(us(i + 1) - us(i)), L(ZERO))
    ws.append(SWt('fail2', 'o.d[0] = -w.%s; w.start(); w.stop(); w.start(); w.stop(); o.d[0] += w.%s' % (MUS, MUS),
                  [('microseconds added', 'd0', lambda E: apply(lambda a, b: a + b, part(0), part(2)))], fails=True))
    for w in ws:
        w.guard = order
    return ws
