"""replay.py PROPERTY CONTRACT REPLAYFILE: compile the contract against /repo's current tree and run it on the recorded input."""
import os
import re
import sys
import shutil
import subprocess
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
import ir
import prove
import exec as ex


def main():
    prop, harness, path = sys.argv[1:4]
    work = tempfile.mkdtemp(prefix='vf_replay_')
    try:
        ll, _ = check.compile_prop(prop, 'thorough', work)
        exe = check.build_native(ll, work)
        lay = os.path.join(work, 'layout')
        open(lay, 'w').write('\n'.join(x[7:] for x in open(path).read().split('\n') if x.startswith('LAYOUT ')) + '\n')
        r = subprocess.run([exe, harness, lay, 'replay', path], capture_output=True, text=True)
        print(r.stdout.strip())
        return 1 if r.returncode else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


sys.exit(main())
