#!/usr/bin/env python3
"""newseed.py < spec : spec is a python dict {id, property, needs, breaks, edits:[(file, old, new)], demo: C++ body of main}."""
import json, os, subprocess, sys, shutil
V = '/verif'
R = '/tmp/mt/repo'
sys.path.insert(0, V + '/tools')
import seed
PRE = '''#include <cmath>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <vector>
%s
static int bad = 0;
static void near(double a, double b, const char* what, double tol = 1e-9) {
  if (!(std::fabs(a - b) <= tol * (1 + std::fabs(b)))) { std::printf("%%s: got %%.12g, expected %%.12g\\n", what, a, b); bad = 1; }
}
static void yes(bool c, const char* what) { if (!c) { std::printf("%%s\\n", what); bad = 1; } }
%s
int main() {
%s
  return bad;
}
'''
SH = '''#!/bin/bash
# cwd: the repository; exit 0 when the property holds on the demonstrated case
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
g++ -std=c++17 -O1 -w -I multirotor_simulator -I pid_controller/include -isystem /usr/include/eigen3 "$D/demo.cpp" -o "$W/demo" || exit 2
"$W/demo"
'''
for s in eval(sys.stdin.read()):
    d = '%s/seeded/%s' % (V, s['id'])
    os.makedirs(d, exist_ok=True)
    seed.reset()
    for f, o, n in s['edits']:
        p = R + '/' + f
        t = open(p).read()
        if t.count(o) != 1:
            print(s['id'], 'edit matches', t.count(o), 'times:', o); sys.exit(1)
        open(p, 'w').write(t.replace(o, n))
    open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout)
    inc = s.get('inc', '#include "multirotor_simulator.hpp"')
    open(d + '/demo.cpp', 'w').write(PRE % (inc, s.get('pre', ''), s['demo']))
    open(d + '/demo.sh', 'w').write(SH)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    seed.reset()
    seed.main(s['id'])
