#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]

Generates the verification conditions of the property's contracts from /repo's current sources and
discharges them.  Exit 0: every obligation discharged.  Exit 1: VIOLATION line.
"""
import os
import sys
import re
import json
import time
import shutil
import signal
import tempfile
import subprocess
import traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
import build
import ir
import prove
import exec as ex

EVID = os.path.join(VERIF, 'evidence')


def discharge(o):
    prove.BUDGET['deadline'] = prove.clock() + LIMITS['obligation_s']
    for k in prove.STAT:
        prove.STAT[k] = 0
    t = time.time()
    why = None
    try:
        if o.kind == 'eq':
            r, why = prove.prove_eq(o.pc, o.a, o.b)
        elif o.kind == 'bool':
            r, why = prove.prove_bool(o.pc, o.a)
        elif o.kind == 'unreachable':
            r, why = prove.prove_unreachable(o.pc)
        else:
            r = prove.reachable(o.pc)
        st = 'proved' if r else 'failed'
    except prove.GiveUp as g:
        st = 'giveup'; why = None
        msg = str(g)
    except RecursionError:
        st = 'giveup'; why = None; msg = 'recursion'
    detail = ''
    model = None
    if st == 'failed' and why:
        try:
            detail = 'not provably zero / true: ' + prove.show_poly(why[1])
            detail += '   under: ' + '; '.join(prove.show_cond(f) for f in why[0].facts[-12:])
            if len(why) > 2:
                model = why[2]
            if model is None and isinstance(why[1], dict):
                m = prove.nra(why[0], prove.ceq(why[1]), 4000)
                if isinstance(m, dict):
                    model = m
        except Exception:
            pass
    elif st == 'giveup':
        detail = msg
    be = 'syntactic' if st == 'proved' and o.kind == 'bool' and o.a is ex.TRUE else None
    s = prove.STAT
    if be is None:
        be = '+'.join([x for x, c in (('cvc5', s['cvc5']), ('z3', s['z3']), ('polynomial-normaliser', o.kind == 'eq')) if c]) or 'context-simplifier'
    return {'id': o.id, 'kind': o.kind, 'status': st, 'where': o.where, 's': round(time.time() - t, 4), 'backend': be,
            'solver_s': round(s['z3_s'] + s['cvc5_s'], 4), 'splits': s['splits'], 'detail': detail[:1500], 'model': model}


def run_harness(args):
    path, fname, limits, tier = args
    global LIMITS
    LIMITS = limits
    if limits.get('thorough'):
        prove.BUDGET.update(nra_ms=60000, cvc5_ms=60000, splits=20000)
    t0 = time.time()
    res = {'harness': fname, 'obligations': [], 'error': None}
    try:
        m = ir.parse_module(open(path).read())
        e = ex.Engine(m, prove.decide, prove.prove_eq_b, fname)
        prove.load()
        prove.BUDGET['deadline'] = prove.clock() + limits['exec_s']

        def spill(lines):
            with open('%s.%s.lay' % (path, fname), 'a') as f:
                f.write('\n'.join(lines) + '\n')
        e.spill = spill
        e.run_harness(fname)
        res['exec_s'] = round(time.time() - t0, 3)
        res['exec_solver_s'] = round(prove.STAT['z3_s'], 3)
        res['trusted'] = sorted(e.trusted)
        res['accel'] = e.accel_info
        res['ninputs'] = len(e.inputs)
        res['layout'] = lay = []
        for n, rec in e.havocs:
            for off, k, nm in rec:
                lay.append('H %s %d %s %s' % (n, off, k, nm))
        done = set()
        for n, rec in e.layouts:
            if n in done:
                continue
            done.add(n)
            for r in rec:
                lay.append('S %s %d %s -' % (n, r[0], r[1]))
        bad = 0
        for o in e.obls:
            if bad >= 4 or time.time() - t0 > limits['harness_s']:
                res['obligations'].append({'id': o.id, 'kind': o.kind, 'status': 'not-attempted', 'where': o.where, 's': 0, 'backend': '', 'solver_s': 0, 'splits': 0, 'detail': 'time budget or earlier failures', 'model': None})
                continue
            r = discharge(o)
            res['obligations'].append(r)
            if r['status'] != 'proved':
                bad += 1
    except ir.Unsupported as e_:
        res['error'] = 'unsupported construct: %s' % e_
    except RecursionError:
        res['error'] = 'recursion limit'
    except MemoryError:
        res['error'] = 'memory limit'
    except Exception as e_:
        res['error'] = 'verifier error: %s\n%s' % (e_, traceback.format_exc()[-1500:])
    res['wall_s'] = round(time.time() - t0, 3)
    return res


def call_graph(raw):
    """functions of the repository reachable from each contract, in the unoptimised IR"""
    cur = None
    g = {}
    for ln in raw:
        if ln.startswith('define '):
            m = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
            cur = m.group(1).strip('"') if m else None
            g[cur] = set()
        elif cur and '@' in ln:
            for m in re.finditer(r'@("[^"]*"|[-\w$.]+)', ln):
                g[cur].add(m.group(1).strip('"'))
    return g


REPO_NS = re.compile(r'(10multirotor|14pid_controller|13imu_simulator|3pid|12pid_1d|imu)')


def demangle(names):
    if not names:
        return []
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    return [x for x in r if x]


def short(n):
    n = re.sub(r'^(.*?) (?=multirotor::|pid_controller::|imu)', '', n)
    return n[:160]


def build_native(ll, work, obj=None):
    rt = os.path.join(work, 'rt.o')
    if not os.path.exists(rt):
        build.run(['clang++', '-O1', '-std=c++17', '-c', os.path.join(VERIF, 'native', 'vf_rt.cpp'), '-o', rt], 'replay runtime')
    o = ll + '.o'
    build.run(['clang++', '-c', '-w', ll, '-o', o], 'replay object')
    exe = ll + '.exe'
    build.run(['clang++', o, rt, '-rdynamic', '-ldl', '-o', exe], 'replay link')
    return exe


def native_search(exe, work, harness, layout, n, seed, tmax, model=None):
    lay = os.path.join(work, harness + '.layout')
    open(lay, 'w').write('\n'.join(layout or []) + '\n')
    outs = []
    cmds = []
    if model:
        mf = os.path.join(work, harness + '.model')
        open(mf, 'w').write('\n'.join('INPUT %s %.17g' % (k, float(v)) for k, v in model.items()) + '\n')
        cmds.append([exe, harness, lay, 'search', '200', str(seed), '5', mf])
    for k in range(4):
        cmds.append([exe, harness, lay, 'search', str(n), str(seed + 7 * k), str(tmax)])
    for c in cmds:
        try:
            r = subprocess.run(c, capture_output=True, text=True, timeout=tmax * 3 + 30)
        except subprocess.TimeoutExpired:
            return {'fail': True, 'text': 'the harness did not terminate on a concrete input (%s)' % ' '.join(c[1:])}
        if r.returncode in (1, 3) or r.returncode < 0:
            return {'fail': True, 'text': r.stdout[-60000:], 'cmd': c}
        outs.append(r.stdout.strip()[-300:])
    return {'fail': False, 'text': '\n'.join(outs)}


def main():
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    work = tempfile.mkdtemp(prefix='vf_%s_' % prop, dir=os.environ.get('TMPDIR', '/tmp'))
    try:
        rc = check(prop, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def compile_prop(prop, tier, work):
    src = os.path.join(VERIF, 'contracts', prop + '.cpp')
    defs = ['-DVF_THOROUGH'] if tier == 'thorough' else []
    return build.compile_ir(src, work, defs)


def check(prop, tier, seed, work, t0):
    limits = {'obligation_s': 150, 'harness_s': 400, 'exec_s': 250, 'total_s': 660, 'after_failure_s': 200} if tier == 'quick' else \
        {'obligation_s': 600, 'harness_s': 2400, 'exec_s': 1800, 'thorough': True, 'total_s': 36000, 'after_failure_s': 3000}
    known = [k for k in json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings'] if k['property'] == prop]
    problems = []     # (harness, obligation id, text, model)
    results = []
    ll = None
    funcs = {}
    try:
        ll, raw = compile_prop(prop, tier, work)
        g = call_graph(raw)
        harnesses = [n for n in g if re.match(r'(ob|kf)_', n or '')]
        for h in harnesses:
            seen = set(); st = [h]
            while st:
                x = st.pop()
                if x in seen or x not in g:
                    continue
                seen.add(x); st.extend(g[x])
            funcs[h] = [n for n in seen if n != h and re.search(r'10multirotor|14pid_controller|pid_1d|imu', n) and not re.search(r'^_ZN?S?t?.*5Eigen8internal|^_ZNK?5Eigen', n)]
        if not harnesses:
            problems.append(('-', 'vacuity', 'no contract found in the translation unit', None))
    except build.BuildError as e:
        problems.append(('-', 'contracts-compile', 'the contracts of %s do not compile against the current sources:\n%s' % (prop, e), None))
        harnesses = []
    only = os.environ.get('VF_ONLY')
    if only:
        harnesses = [h for h in harnesses if re.search(only, h)]
    jobs = [(ll, h, limits, tier) for h in harnesses]
    if jobs:
        results = parallel(jobs, limits, {k['contract'] for k in known})
    status = {}
    for r in results:
        bad = []
        if r['error']:
            bad.append((r['harness'], 'verification-condition-generation', r['error'], None))
        obs = r['obligations']
        if not r['error'] and not any(o['kind'] == 'reach' for o in obs):
            bad.append((r['harness'], 'vacuity', 'the contract body is never reached (no path completes)', None))
        elif not r['error'] and not any(o['kind'] != 'reach' for o in obs):
            bad.append((r['harness'], 'vacuity', 'no obligation generated', None))
        for o in obs:
            if o['status'] != 'proved':
                bad.append((r['harness'], o['id'], '%s [%s] %s %s' % (o['status'], o['kind'], o['where'], o['detail']), o['model']))
        status[r['harness']] = bad
    kf_lines = []
    for h, bad in status.items():
        if h.startswith('kf_'):
            continue
        if bad:
            k = [x for x in known if x['contract'] == h]
            if k and k[0]['deviant_contract'] in status and not status[k[0]['deviant_contract']]:
                kf_lines.append('KNOWN-FINDING: property=%s %s' % (prop, k[0]['what']))
                continue
            problems += bad
    # native replay
    confirmed = None
    replay_path = os.path.join(EVID, 'replay-%s.txt' % prop)
    if os.path.exists(replay_path):
        os.unlink(replay_path)
    search_info = ''
    if problems and ll:
        try:
            exe = build_native(ll, work)
            byh = {}
            for p in problems:
                byh.setdefault(p[0], []).append(p)
            hs = list(byh)
            tot = 60 if tier == 'quick' else 240
            for h in hs:
                if h == '-':
                    continue
                lay = next((r.get('layout') for r in results if r['harness'] == h), [])
                model = next((p[3] for p in byh[h] if p[3]), None)
                s = native_search(exe, work, h, lay, 200000, seed, max(4, tot / max(1, len(hs)) / 4), model)
                search_info += '%s: %s\n' % (h, s['text'][-200:] if not s['fail'] else 'failing input found')
                if s['fail']:
                    confirmed = (h, s)
                    break
        except Exception as e:
            search_info += 'native replay unavailable: %s\n' % e
    cross = None
    if tier == 'thorough' and not problems and ll:
        cross = cross_check(ll, work, results, seed)
        for h, c in cross.items():
            if c.get('fail') and h not in [k['contract'] for k in known]:
                confirmed = (h, c)
                problems.append((h, 'machine-arithmetic', 'obligations proved over the reals fail on the compiled code', None))
    write_evidence(prop, tier, seed, results, funcs, problems, known, kf_lines, t0, cross, confirmed)
    for ln in kf_lines:
        print(ln)
    nob = sum(len(r['obligations']) for r in results)
    print('%s: %d contracts, %d obligations, %d undischarged, %.1f s' % (prop, len(results), nob, len(problems), time.time() - t0))
    if not problems:
        return 0
    with open(replay_path, 'w') as f:
        f.write('property %s, tier %s\n\nFailed obligations:\n' % (prop, tier))
        for h, i, txt, mdl in problems[:40]:
            f.write('- contract %s, obligation %s\n    %s\n' % (h, i, txt))
            if mdl:
                f.write('    solver model: %s\n' % json.dumps(mdl)[:3000])
        f.write('\nNative search:\n%s\n' % search_info)
        if confirmed:
            f.write('\nConcrete failing input, executed on the compiled code of the current tree (contract %s):\n%s\n' % (confirmed[0], confirmed[1]['text']))
            for ln in next((r.get('layout') or [] for r in results if r['harness'] == confirmed[0]), []):
                f.write('LAYOUT %s\n' % ln)
            f.write('\nTo run it again: python3-vt %s/engine/replay.py %s %s %s\n' % (VERIF, prop, confirmed[0], replay_path))
    for h, i, txt, mdl in problems[:12]:
        print('  undischarged: %s / %s: %s' % (h, i, txt[:400].replace('\n', ' ')))
    print('VIOLATION property=%s replay=%s%s' % (prop, replay_path, '' if confirmed else ' no-failing-input-found'))
    return 1


def cross_check(ll, work, results, seed):
    out = {}
    try:
        exe = build_native(ll, work)
    except Exception as e:
        return {'-': {'fail': False, 'text': 'unavailable: %s' % e}}
    for r in results:
        h = r['harness']
        lay = os.path.join(work, h + '.layout')
        open(lay, 'w').write('\n'.join(r.get('layout') or []) + '\n')
        p = subprocess.run([exe, h, lay, 'search', '100000', str(seed), '10'], capture_output=True, text=True)
        out[h] = {'fail': p.returncode in (1, 3), 'text': p.stdout.strip()[-20000:] if p.returncode else p.stdout.strip()[-200:]}
    return out


def worker(job, q):
    r = run_harness(job)
    q.put(r)


def parallel(jobs, limits, expected):
    """one process per contract, at most 8 at a time, each with a wall limit; all of them with a wall limit, which is
    shortened once an obligation of a contract outside `expected` stayed undischarged"""
    tmax = limits['harness_s'] + limits['obligation_s'] + 30
    end = time.time() + limits['total_s']
    ctx = mp.get_context('fork')
    todo = list(jobs)
    run = []
    res = {}
    n = int(os.environ.get('VF_JOBS', '8'))
    while todo or run:
        if time.time() > end:
            for j in todo:
                res[j[1]] = {'harness': j[1], 'obligations': [], 'error': 'time limit (not started)', 'wall_s': 0}
            todo = []
        while todo and len(run) < n:
            j = todo.pop(0)
            q = ctx.SimpleQueue()
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=_entry, args=(j, wr))
            p.start()
            wr.close()
            run.append((p, rd, j, time.time()))
        time.sleep(0.02)
        keep = []
        for p, rd, j, ts in run:
            if rd.poll():
                try:
                    res[j[1]] = rd.recv()
                except EOFError:
                    res[j[1]] = {'harness': j[1], 'obligations': [], 'error': 'verifier process died (memory?)', 'wall_s': time.time() - ts}
                p.join()
            elif not p.is_alive():
                res[j[1]] = {'harness': j[1], 'obligations': [], 'error': 'verifier process died (memory?)', 'wall_s': time.time() - ts}
            elif time.time() - ts > tmax or time.time() > end:
                p.kill(); p.join()
                res[j[1]] = {'harness': j[1], 'obligations': [], 'error': 'time limit', 'wall_s': time.time() - ts}
            else:
                keep.append((p, rd, j, ts))
                continue
            r = res[j[1]]
            if r['error'] and not r.get('layout'):
                # the replay still needs to know where the arbitrary values go
                try:
                    r['layout'] = list(dict.fromkeys(open('%s.%s.lay' % (j[0], j[1])).read().split('\n')))
                except OSError:
                    pass
            if j[1] not in expected and (r['error'] or any(o['status'] != 'proved' for o in r['obligations'])):
                end = min(end, time.time() + limits['after_failure_s'])
        run = keep
    return [res[j[1]] for j in jobs]


def _entry(job, wr):
    import resource
    lim = 10 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    import threading
    threading.stack_size(512 << 20)
    out = []

    def go():
        out.append(run_harness(job))
    t = threading.Thread(target=go)
    t.start(); t.join()
    wr.send(out[0] if out else {'harness': job[1], 'obligations': [], 'error': 'verifier failed', 'wall_s': 0})
    wr.close()


ASSUME = [
    'machine floating point is treated as exact real arithmetic (no rounding, overflow, NaN); decimal constants of the source are equal to each other up to 1e-12 relative',
    'clang 18 front end and the O1 pass pipeline preserve the meaning of the C++ source when producing the LLVM IR that is verified',
    'EIGEN_DONT_VECTORIZE and NDEBUG are set for the verified translation unit (scalar Eigen code paths, no assertion code)',
    'callee bodies (including Eigen) are verified in place in each caller, they are not replaced by assumed contracts',
    'the verifier itself (engine/*.py: IR semantics, memory model, polynomial normaliser), Z3 4.x and cvc5 are trusted',
    'sizes of object allocations never overflow and allocation does not fail; signed integer counters do not wrap',
]


def write_evidence(prop, tier, seed, results, funcs, problems, known, kf_lines, t0, cross, confirmed):
    obs = [o for r in results for o in r['obligations'] if not r['harness'].startswith('kf_')]
    nd = sum(1 for o in obs if o['status'] == 'proved')
    be = {}
    for o in obs:
        if o['status'] == 'proved':
            be[o['backend']] = be.get(o['backend'], 0) + 1
    fs = sorted({f for r in results for f in funcs.get(r['harness'], [])})
    fs = sorted({short(x) for x in demangle(fs)})
    trusted = sorted({t for r in results for t in r.get('trusted', [])})
    accel = [dict(a, function=short(demangle([a['function']])[0])) for r in results for a in r.get('accel', [])]
    claim = MANIFEST_LEVEL(prop)
    nviol = 1 if problems else 0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': claim,
        'coverage': {
            'obligations': len(obs), 'discharged': nd,
            'checker_cmd': 'python3-vt engine/check.py %s --tier %s' % (prop, tier),
            'trusted_base': ASSUME + trusted,
            'contracts': [{'contract': r['harness'], 'obligations': len(r['obligations']),
                           'discharged': sum(1 for o in r['obligations'] if o['status'] == 'proved'),
                           'reach_checks': sum(1 for o in r['obligations'] if o['kind'] == 'reach'),
                           'symbolic_inputs': r.get('ninputs', 0), 'vcgen_s': r.get('exec_s'), 'wall_s': r.get('wall_s'), 'error': r.get('error')} for r in results],
            'functions_under_contract': fs,
            'functions_under_contract_count': len(fs),
            'discharged_by': be,
            'solver_s': round(sum(o['solver_s'] for o in obs) + sum(r.get('exec_solver_s', 0) for r in results), 3),
            'case_splits': sum(o['splits'] for o in obs),
            'loops_with_inferred_invariant': accel,
            'slowest_obligations': [[o['id'], o['s']] for o in sorted(obs, key=lambda o: -o['s'])[:5]],
        },
        'assumptions': ASSUME + trusted,
        'violations': nviol,
        'known_findings': kf_lines,
        'wall_s': round(time.time() - t0, 2),
    }
    if cross is not None:
        ev['coverage']['native_cross_check'] = {h: c['text'][-160:] for h, c in cross.items()}
    if problems:
        ev['coverage']['undischarged'] = [[h, i, txt[:300]] for h, i, txt, m in problems[:20]]
        ev['coverage']['failing_input_found'] = bool(confirmed)
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)


def MANIFEST_LEVEL(prop):
    try:
        for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']:
            if c['property'] == prop:
                return c['level']
    except Exception:
        pass
    return 'proof'


if __name__ == '__main__':
    main()
