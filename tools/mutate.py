#!/usr/bin/env python3
"""Line mutants of the headers, run against the checks; prints the mutants no check reports.
usage: mutate.py N SEED WORKERS OUT [file-regex]   (scratch copies under /tmp/mt/mu)"""
import sys, os, re, random, shutil, subprocess, json
from concurrent.futures import ThreadPoolExecutor
N, SEED, W, OUT = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
FRE = sys.argv[5] if len(sys.argv) > 5 else '.'
REPO, VERIF = '/repo', '/verif'
MAP = [
    (r'state\.hpp', 'C28 C09 C06 C04 C03 C21 C20'),
    (r'dynamics\.hpp|utils\.hpp', 'C09 C06 C04 C03 C02 C01 C05 C24 C25 C27 C22 C28 C21'),
    (r'model\.hpp', 'C10 C08 C07 C09 C03 C04 C01 C02 C05 C06 C25 C27'),
    (r'pid\.hpp', 'C14 C16 C13 C15 C12 C11 C17'),
    (r'pid_1d\.hpp', 'C15 C16 C14 C13 C12 C11'),
    (r'acro_|indi_', 'C18 C19 C26 C22 C25 C17'),
    (r'position_|velocity_|trajectory_|multirotor_controllers\.hpp', 'C17 C18 C19 C26 C22 C25'),
    (r'imu\.hpp|inertial_odometry\.hpp', 'C20 C21 C27 C28 C25 C24 C22'),
    (r'multirotor_simulator\.hpp', 'C23 C24 C25 C27 C28 C26 C22 C21 C20'),
]
SW = [(r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' < ', ' <= '), (r' > ', ' >= '),
      (r' <= ', ' < '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
      (r'\b1\.0f?\b', '2.0'), (r'\b0\.5\b', '0.25'), (r'\b0\.0f?\b', '1.0'), (r'\.x\(\)', '.y()'), (r'\.y\(\)', '.z()'), (r'\.z\(\)', '.x()'), (r'\[0\]', '[1]'), (r'\[1\]', '[0]'), (r'\[2\]', '[1]'),
      (r'\bupper_', 'lower_'), (r'\blower_', 'upper_'), (r'K([pid])_', None), (r'linear_velocity', 'linear_acceleration'), (r'linear_acceleration', 'linear_velocity'),
      (r'angular_velocity', 'angular_acceleration'), (r'angular_acceleration', 'angular_velocity'), (r'std::sin', 'std::cos'), (r'std::cos', 'std::sin'), (r'min_', 'max_'), (r'max_', 'min_'),
      (r'\bforce\b', 'torque'), (r'\bstatic\b', 'thread_local'), (r'position', 'velocity'), (r'velocity', 'position'), (r'thrust', 'torque'), (r'torque', 'thrust'), (r'_x\b', '_y'), (r'_y\b', '_x'),
      (r'if \((.*)\) \{$', r'if (!(\1)) {'), (r'\(-', '('), (r'= -', '= '), (r'\.inverse\(\)', ''), (r'\.transpose\(\)', ''), (r'\.conjugate\(\)', ''), (r'\.normalized\(\)', ''), (r'\bdt\b', '(2 * dt)'),
      (r'\.cross\(', '.cwiseProduct('), (r'const override', 'const'), (r'_\b(?=[;,)])', '')]
rng = random.Random(SEED)
muts = []
for root in ('multirotor_simulator', 'pid_controller/include'):
    for d, ds, fs in os.walk(os.path.join(REPO, root)):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), REPO)
            if not p.endswith('.hpp') or not re.search(FRE, p):
                continue
            L = open(os.path.join(REPO, p)).read().split('\n')
            incom = False
            for i, ln in enumerate(L):
                s = ln.strip()
                if s.startswith('/*'):
                    incom = True
                if incom:
                    if '*/' in s:
                        incom = False
                    continue
                if not s or s.startswith('//') or s.startswith('#') or s.startswith('*') or 'template' in s or 'static_assert' in s:
                    continue
                code = ln.split('//')[0]
                for a, b in SW:
                    for m in re.finditer(a, code):
                        if b is None:
                            bb = {'p': 'Ki_', 'i': 'Kd_', 'd': 'Kp_'}[m.group(1)]
                        else:
                            bb = m.expand(b) if '\\' in b else b
                        if code[m.start() - 1:m.start()] == '&' or ('<' in a or '>' in a) and 'operator' in code:
                            continue
                        muts.append((p, i, ln, ln[:m.start()] + bb + ln[m.end():]))
                if re.match(r'^[\w.\->\[\]()]+ *(=|\+=|-=|\*=).*;$|^[\w.\->]+\(.*\);$|^return;$', s) and not s.startswith('return ') and not re.match(r'^(using|const|auto|Scalar|Vector\w*|int|bool|double)\b', s):
                    muts.append((p, i, ln, '  ;'))
rng.shuffle(muts)
print(len(muts), 'mutants possible', flush=True)
muts = muts[:N]


def one(a):
    k, (p, i, old, new) = a
    d = '/tmp/mt/mu/%d' % k
    v = '/tmp/mt/mv/%d' % k
    for x in (d, v):
        shutil.rmtree(x, ignore_errors=True); os.makedirs(x)
    try:
        for x in ('multirotor_simulator', 'pid_controller'):
            shutil.copytree(REPO + '/' + x, d + '/' + x)
        for x in ('engine', 'contracts', 'native', 'known_findings.json'):
            (shutil.copytree if os.path.isdir(VERIF + '/' + x) else shutil.copy)(VERIF + '/' + x, v + '/' + x)
        os.makedirs(v + '/evidence')
        L = open(d + '/' + p).read().split('\n')
        assert L[i] == old
        L[i] = new
        open(d + '/' + p, 'w').write('\n'.join(L))
        chk = next(c for r, c in MAP if re.search(r, p.split('/')[-1])).split()
        for c in chk:
            r = subprocess.run(['python3-vt', 'engine/check.py', c], cwd=v, env=dict(os.environ, VF_REPO=d, VF_JOBS=str(max(2, 8 // W)), VF_NOSEARCH=os.environ.get('VF_NOSEARCH', '')), capture_output=True, text=True)
            if r.returncode:
                st = 'INVALID' if 'contracts-compile' in r.stdout else 'killed'
                return st, c, ' '.join(re.findall(r'undischarged: (\S+ / \S+)', r.stdout)[:2]) + (' NFI' if 'no-failing' in r.stdout else '')
        return 'SURVIVED', '', ''
    except Exception as e:
        return 'ERROR', '', str(e)
    finally:
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(v, ignore_errors=True)


out = open(OUT, 'a')
with ThreadPoolExecutor(W) as tp:
    for (k, m), r in zip(enumerate(muts), tp.map(one, enumerate(muts))):
        out.write('%s %s %s | %s:%d\n    - %s\n    + %s\n' % (r[0], r[1], r[2], m[0], m[1] + 1, m[2].strip(), m[3].strip()))
        out.flush()
print('done')
