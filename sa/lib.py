"""Shared machinery of the checks: witness translation units, compilation to
optimised SSA IR from /repo's current sources, parallel analysis, reporting."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from multiprocessing import Pool

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('QDP_REPO', '/repo')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
LLVM = '/usr/lib/llvm-18/bin/'
CLANG = LLVM + 'clang++' if os.path.exists(LLVM + 'clang++') else 'clang++'

BASEFLAGS = ['-std=c++11', '-w', '-fno-strict-aliasing', '-msse2', '-include', 'cstring', '-include', 'cstdint']
OPTFLAGS = ['-O2', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off',
            '-mllvm', '-inline-threshold=100000', '-mllvm', '-unroll-threshold=100000', '-mllvm', '-unroll-max-count=1000',
            '-mllvm', '-unroll-full-max-count=10000', '-mllvm', '-unroll-runtime=false', '-mllvm', '-unroll-allow-partial=false',
            '-mllvm', '-disable-loop-idiom-all']
CONFIGS = {
    'generic': [],
    'sse': ['-DQDP_SCALARSITE_SSE_LINALG_H'],
    'thr': ['-DQDP_USE_QMT_THREADS', '-I' + os.path.join(VERIF, 'config', 'generic')],
    'omp': ['-DQDP_USE_OMP_THREADS', '-fopenmp', '-I' + os.path.join(VERIF, 'config', 'omp'), '-I' + os.path.join(VERIF, 'config', 'generic')],
    'thrsse': ['-DQDP_USE_QMT_THREADS', '-DQDP_SCALARSITE_SSE_LINALG_H', '-I' + os.path.join(VERIF, 'config', 'sse'), '-I' + os.path.join(VERIF, 'config', 'thr')],
}


class Broken(Exception):
    """the analysis itself could not be carried out (exit 2)"""


def work_dir():
    d = tempfile.mkdtemp(prefix='qdpsa.', dir=os.environ.get('TMPDIR', '/tmp'))
    return d


def build_irdump(d):
    out = os.path.join(VERIF, 'build', 'irdump')
    src = os.path.join(VERIF, 'tool', 'irdump.cpp')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cfg = subprocess.run([LLVM + 'llvm-config', '--cxxflags', '--ldflags', '--libs'], capture_output=True, text=True)
    if cfg.returncode:
        raise Broken('llvm-config: ' + cfg.stderr)
    tmp = out + '.%d' % os.getpid()
    r = subprocess.run([CLANG, '-O1', src, '-o', tmp] + cfg.stdout.split() + ['-std=c++17'], capture_output=True, text=True)
    if r.returncode:
        raise Broken('building irdump: ' + r.stderr[-2000:])
    os.rename(tmp, out)
    return out


def inc(config):
    return ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'config', config)] + CONFIGS[config]


PCH_SRC = '#include "qdp.h"\n'


def build_pch(d, config):
    h = os.path.join(d, 'pre_%s.h' % config)
    with open(h, 'w') as f:
        f.write(PCH_SRC)
    out = h + '.pch'
    r = subprocess.run([CLANG, '-x', 'c++-header'] + BASEFLAGS + OPTFLAGS + inc(config) + [h, '-o', out], capture_output=True, text=True)
    if r.returncode:
        raise CompileError('qdp.h [%s]' % config, r.stderr)
    return out


class CompileError(Exception):
    def __init__(self, what, err):
        Exception.__init__(self, what)
        self.err = err

    def first(self):
        return [l for l in self.err.splitlines() if 'error:' in l][:6]


class Ctx:
    """one run of a check: temp dir, tools, compiled headers"""

    def __init__(self):
        self.d = work_dir()
        self.irdump = build_irdump(self.d)
        self.pch = {}

    def need(self, configs):
        todo = [c for c in configs if c not in self.pch]
        ps = []
        for c in todo:
            h = os.path.join(self.d, 'pre_%s.h' % c)
            with open(h, 'w') as f:
                f.write(PCH_SRC)
            ps.append((c, h + '.pch', subprocess.Popen([CLANG, '-x', 'c++-header'] + BASEFLAGS + OPTFLAGS + inc(c) + [h, '-o', h + '.pch'],
                                                       stderr=subprocess.PIPE, text=True)))
        for c, o, p in ps:
            err = p.communicate()[1]
            if p.returncode:
                raise CompileError('include/qdp.h [%s]' % c, err)
            self.pch[c] = o

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def compile_ir(ctx_d, pch, config, name, text, extra=(), nopch=False, opt=None):
    src = os.path.join(ctx_d, name + '.cc')
    if '//nopch\n' in text:
        nopch, text = True, 'namespace QDP {}\n' + text
    with open(src, 'w') as f:
        f.write(text)
    out = os.path.join(ctx_d, name + '.ll')
    cmd = [CLANG] + BASEFLAGS + (OPTFLAGS if opt is None else opt) + inc(config) + ([] if nopch else ['-include-pch', pch]) + list(extra) + ['-S', '-emit-llvm', src, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CompileError(name, r.stderr)
    return out


def dump_ir(irdump, ll, regex='^w_'):
    r = subprocess.run([irdump, ll, regex], capture_output=True, text=True)
    if r.returncode:
        raise Broken('irdump: ' + r.stderr[-500:])
    return r.stdout
