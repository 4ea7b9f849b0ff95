"""Compile a contract translation unit (which includes the real headers of /repo) to LLVM IR."""
import os
import re
import subprocess
import hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
INC = ['-isystem', '/usr/include/eigen3', '-I', REPO + '/multirotor_simulator', '-I', REPO + '/pid_controller/include',
       '-I', VERIF + '/contracts']
FLAGS = ['-std=c++17', '-O1', '-DNDEBUG', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_MAX_STATIC_ALIGN_BYTES=0', '-ffp-contract=off', '-fno-vectorize',
         '-fno-slp-vectorize', '-fno-threadsafe-statics', '-w', '-fno-math-errno']

NOINLINE = re.compile(r'@(_ZNSt19normal_distributionI[^ (]*EclI|_ZSt4endlIc|_ZStlsI|_ZNSolsE|_ZSt16__ostream_insert)')


class BuildError(Exception):
    pass


def run(cmd, what):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError('%s failed:\n%s\n%s' % (what, ' '.join(cmd), r.stderr[-4000:]))
    return r


def compile_ir(src, workdir, defs=(), keep_calls=None):
    """src: contract .cpp; returns path of the optimised .ll"""
    os.makedirs(workdir, exist_ok=True)
    base = os.path.join(workdir, os.path.splitext(os.path.basename(src))[0])
    raw, out = base + '.raw.ll', base + '.ll'
    run(['clang++'] + FLAGS + list(defs) + INC + ['-S', '-emit-llvm', '-Xclang', '-disable-llvm-passes', src, '-o', raw], 'contract compilation')
    txt = open(raw).read().split('\n')
    o = []
    for ln in txt:
        if ln.startswith('define ') and (NOINLINE.search(ln) or (keep_calls and keep_calls.search(ln))):
            # function attributes group "#N" -> prefix noinline
            ln = re.sub(r' (#\d+)( comdat)?', lambda m: ' noinline ' + m.group(1) + (m.group(2) or ''), ln, count=1)
        o.append(ln)
    open(raw, 'w').write('\n'.join(o))
    run(['opt', '-S', '-passes=default<O1>', raw, '-o', out], 'opt')
    os.unlink(raw)
    return out, o


def tree_hash():
    h = hashlib.sha256()
    for root in ('multirotor_simulator', 'pid_controller'):
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]
