#!/usr/bin/env python3
"""Development helper: mkseed.py SPEC.py writes /verif/seeded/<id>/ from a spec:
ID, PROP, NEEDS, BREAKS, BUILD ('generic'|'sse'), FILE, EDITS=[(old,new),...] (or FILES={file:[(old,new)]}), DEMO (main body or full program)."""
import json, os, subprocess, sys
V = '/verif'
R = os.environ.get('QDP_REPO', '/repo')
ns = {}
exec(open(sys.argv[1]).read(), ns)
for k in [x for x in ns.get('SEEDS', [])]:
    d = '%s/seeded/%s' % (V, k['id'])
    os.makedirs(d, exist_ok=True)
    files = k.get('files') or {k['file']: k['edits']}
    try:
        for f, eds in files.items():
            p = R + '/' + f
            s = open(p, encoding='latin-1').read()
            for e in eds:
                o, n = e[:2]
                c = s.count(o)
                if len(e) == 3:
                    parts = s.split(o)
                    assert c > e[2], (k['id'], f, c)
                    s = o.join(parts[:e[2] + 1]) + n + o.join(parts[e[2] + 1:])
                else:
                    assert c == 1, (k['id'], f, c, o)
                    s = s.replace(o, n)
            open(p, 'w', encoding='latin-1').write(s)
        diff = subprocess.check_output(['git', '-C', R, 'diff'], text=False)
    finally:
        subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
    assert diff
    open(d + '/patch.diff', 'wb').write(diff)
    demo = k['demo']
    if 'int main' not in demo:
        demo = '''int main(int argc, char **argv)
{
  QDP_initialize(&argc, &argv);
  multi1d<int> nrow(Nd);
  nrow[0] = %s; nrow[1] = %s; nrow[2] = %s; nrow[3] = %s;
  Layout::setLattSize(nrow);
  Layout::create();
  int bad = 0;
''' % tuple(k.get('latt', '4,2,2,4').split(',')) + demo + '''
  QDP_finalize();
  printf("%s\\n", bad ? "WRONG" : "ok");
  return bad ? 1 : 0;
}
'''
    head = k.get('pre', '')
    if '#include "qdp.h"' not in head + demo:
        head = '#include "qdp.h"\n#include <cstdio>\n#include <cmath>\nusing namespace QDP;\n' + head
    open(d + '/demo.cc', 'w').write(head + demo)
    b = k.get('build', 'generic')
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd = the repository, after a build
here=$(cd "$(dirname "$0")" && pwd)
R=$PWD
t=$(mktemp -d /tmp/qdpdemo.XXXXXX) || exit 2
g++ -O2 -msse2 -include cstring -include cstdint %s-I"$R/include" -I"$R/_build/%s/include" %s "$here/demo.cc" -L"$R/_build/%s/lib" -lqdp -o "$t/demo" || { find "$t" -delete; exit 2; }
cd "$t" && timeout 200 ./demo
rc=$?
find "$t" -delete
exit $rc
''' % ('-DQDP_SCALARSITE_SSE_LINALG_H ' if b == 'sse' else '', b, k.get('flags', ''), b))
    json.dump({'property': k['prop'], 'needs': k['needs'], 'what_it_breaks': k['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(k['id'], len(diff))
