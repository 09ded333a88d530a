import sys, time, collections, re
sys.path.insert(0, '/verif/sa')
import lib, wit, importlib
mod, fn = sys.argv[1].split('.')
m = importlib.import_module(mod)
cfg = sys.argv[2] if len(sys.argv) > 2 else 'generic'
pat = sys.argv[3] if len(sys.argv) > 3 else ''
ctx = lib.Ctx()
t = time.time()
ws = [w for w in getattr(m, fn)() if re.search(pat, w.name)]
try:
    res = wit.run(ctx, [(cfg, ws, getattr(m, {'tobjects': 'tprelude', 'tfiles': 'fprelude', 'bfiles': 'fprelude', 'cycle': 'lprelude', 'threaded': 'lprelude', 'aborting': 'eprelude'}[fn] if fn in ('tobjects', 'tfiles', 'bfiles', 'cycle', 'aborting', 'threaded') else 'sseprelude' if cfg == 'sse' or cfg=='thrsse' else 'prelude', ''))])
except lib.CompileError as e:
    print(e, e.err[:2000]); ctx.close(); sys.exit(1)
tot = 0
log = open('/tmp/w/try.log', 'w')
g = collections.OrderedDict()
for c, name, r, err, dt in res:
    for e in err[:40]:
        log.write(repr(e) + '\n')
        g.setdefault(('compile', str(e[3])[-90:]), []).append(e[1])
    for x in r or []:
        tot += x[1]
        for y in x[2]:
            log.write('%s | %s | %s %s %s\n' % (x[0], x[4], y[0], y[1], y[2]))
        if x[2]:
            y = x[2][0]
            k = y[1].split(':')[-1] if 'undecided' == y[0] else y[1]
            g.setdefault((y[0], k[:100] if y[0] == 'undecided' else y[0]), []).append(x[0][2:])
for k, v in g.items():
    print(len(v), k[0], k[1][:100], ' '.join(v)[:400])
print(len(ws), 'witnesses', tot, 'obligations', sum(len(v) for v in g.values()), 'problem witnesses', '%.1fs' % (time.time() - t), 'max unit %.1f' % 0)
ctx.close()
