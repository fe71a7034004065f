"""check.py PROPERTY [quick|thorough]

Decides one property of yargy from the current source of /repo: generates the
proof obligations of every function under contract (specs/cXX.py), discharges
them, then looks for a concrete failing input on the real code
(replay/cXX.py).  Exit 0: held.  Exit 1 with a VIOLATION line: broken."""
import importlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
ROOT = os.environ.get('YARGY_ROOT', '/repo')
PYTHON = os.environ.get('YARGY_PYTHON') or (
    '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable)


def work(args):
    """verify one unit in a process of its own"""
    prop, index, scale = args
    from pyvc import unit as U
    from pyvc import engine
    before = {k: list(v) for k, v in engine.SOLVER_STATS.items()}
    u = U.UNITS[prop][index]
    r = U.run_unit(WORLD, u, scale)
    stats = {}
    for k, v in engine.SOLVER_STATS.items():
        stats[k + '_queries'] = v[0] - before[k][0]
        stats[k + '_seconds'] = v[1] - before[k][1]
    return {
        'index': index, 'name': u.name, 'functions': u.functions, 'status': r.status, 'error': r.error,
        'paths': r.paths, 'seconds': r.seconds, 'inlined': sorted(str(x) for x in r.inlined),
        'assumptions': sorted(str(x) for x in r.assumptions),
        'obligations': [(o.label, o.status, o.detail[:4000] if o.status != 'proved' else '')
                        for o in r.obligations],
        'stats': stats, 'trace': getattr(r, 'trace', None)}


def child(args, conn):
    try:
        conn.send(work(args))
    except BaseException as x:
        conn.send({'crash': '%s: %s' % (type(x).__name__, x)})
    conn.close()


def verify(prop, scale, jobs=7):
    """run every unit, each in a forked process under a hard time limit"""
    from pyvc import unit as U
    units = U.UNITS.get(prop, [])
    order = sorted(range(len(units)), key=lambda i: -units[i].budget)
    running, results = [], {}
    while order or running:
        while order and len(running) < jobs:
            i = order.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=child, args=((prop, i, scale), b))
            p.start()
            b.close()
            running.append((i, p, a, time.time() + units[i].budget * scale + 40))
        again = []
        for i, p, conn, limit in running:
            if conn.poll(0.01):
                try:
                    results[i] = conn.recv()
                except EOFError:
                    results[i] = {'crash': 'verifier process died'}
                p.join()
            elif not p.is_alive():
                results[i] = {'crash': 'verifier process died'}
            elif time.time() > limit:
                p.kill()
                p.join()
                results[i] = {'crash': 'time limit'}
            else:
                again.append((i, p, conn, limit))
        running = again
    out = []
    for i, u in enumerate(units):
        r = results[i]
        if 'crash' in r:
            r = {'index': i, 'name': u.name, 'functions': u.functions, 'status': 'undecided', 'error': r['crash'],
                 'paths': 0, 'seconds': 0.0, 'inlined': [], 'assumptions': [], 'obligations': [], 'stats': {},
                 'trace': None}
        out.append(r)
    return out


def replay(prop, tier, seed, limit, workers):
    """concrete runs of the real code: the bounded part; each worker makes choices of its own"""
    path = os.path.join(HERE, 'replay', prop.lower() + '.py')
    if not os.path.exists(path):
        return None, None
    runs = []
    for i in range(workers):
        own = seed + 1000 * i
        env = dict(os.environ, PYTHONHASHSEED=str(own % 4294967295), PYTHONDONTWRITEBYTECODE='1')
        cmd = [PYTHON, path, '--root', ROOT, '--tier', tier, '--seed', str(own), '--seconds', str(limit)]
        files = tempfile.TemporaryFile(), tempfile.TemporaryFile()
        runs.append((cmd, subprocess.Popen(cmd, stdout=files[0], stderr=files[1], env=env, cwd=HERE), files))
    end = time.time() + limit * 2 + 60
    done = []
    for cmd, p, files in runs:
        try:
            p.wait(timeout=max(1, end - time.time()))
            hung = False
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            hung = True
        texts = []
        for f in files:
            f.seek(0)
            texts.append(f.read().decode('utf8', 'replace'))
            f.close()
        done.append((cmd, reported(hung, texts[0], texts[1], limit)))
    full = [x for x in done if 'crash' not in x[1]]
    if not full:
        return done[0]
    rep = {'cases': 0, 'nontrivial': 0, 'samples': [], 'violations': [], 'rule': '', 'bound': ''}
    for _, r in full:
        rep['cases'] += r['cases']
        rep['nontrivial'] = max(rep['nontrivial'], r['nontrivial'])
        rep['samples'] += r['samples'][:5 // len(full) + 1]
        rep['violations'] += r['violations']
        rep['rule'], rep['bound'] = r.get('rule') or rep['rule'], r.get('bound') or rep['bound']
    cmd = [c for c, r in full if r['violations']][:1] or [full[0][0]]
    return cmd[0], rep


def reported(hung, out, err, limit):
    if hung:
        # a call of the program that does not finish is told by the run itself
        return {'violations': [], 'cases': 0, 'nontrivial': 0, 'samples': [], 'hung': True}
    for line in reversed(out.split('\n')):
        if line.startswith('RESULT '):
            return json.loads(line[7:])
    return {'crash': err[-4000:]}


def known(prop):
    """findings listed for this property: (id, text)"""
    out = []
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf8'):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    scale = 4.0 if thorough else 1.0
    t0 = time.time()
    global WORLD
    from pyvc import unit as U
    results, load_error = [], None
    try:
        WORLD = U.make_world(ROOT)
        importlib.import_module('specs.' + prop.lower())
    except Exception as x:
        load_error = '%s: %s' % (type(x).__name__, x)
    if load_error is None:
        results = verify(prop, scale)
    t1 = time.time()
    cmd, rep = replay(prop, tier, seed, 300 if thorough else 40, 7 if thorough else 5)
    t2 = time.time()

    for r in results:
        if r['error'] and len(r['error']) > 500:
            r['error'] = r['error'][:500] + ' ...'
    obligations = sum(len(r['obligations']) for r in results)
    discharged = sum(s == 'proved' for r in results for _, s, _ in r['obligations'])
    refuted = [(r, o) for r in results for o in r['obligations'] if o[1] == 'refuted']
    undecided = [r for r in results if r['status'] in ('undecided', 'empty')]
    findings = known(prop)
    violations, seen_known = [], []
    crash = None
    if rep is not None:
        if 'crash' in rep:
            crash = rep['crash']
        for v in rep.get('violations', []):
            hit = [k for k, _ in findings if v.get('key') == k]
            if hit:
                seen_known.append(hit[0])
            else:
                violations.append(v)
    for k, t in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop, t))

    for r in results:
        n = len(r['obligations'])
        ok = sum(s == 'proved' for _, s, _ in r['obligations'])
        print('%-10s %d/%d %s (%.1f s)%s' % (r['status'], ok, n, r['name'], r['seconds'],
                                             ' -- ' + r['error'] if r['error'] else ''))
        if r['trace'] and os.environ.get('V'):
            print(r['trace'])
        if os.environ.get('V'):
            for l, s, d in r['obligations']:
                if s != 'proved':
                    print('    ', s, l, d)
    if crash is not None:
        print('concrete runs not available: ' + crash[-500:])
    if load_error:
        print('source not loaded by the verifier: ' + load_error)
    if rep is not None and crash is None:
        print('concrete runs: %d cases, %d non-trivial, %.1f s' % (rep['cases'], rep['nontrivial'], t2 - t1))

    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    replay_file = os.path.join(rdir, prop + '.json')
    code, line = 0, None
    if violations:
        json.dump({'property': prop, 'kind': 'failing input on the real code', 'command': cmd,
                   'violations': violations[:10],
                   'failed_obligations': [{'unit': r['name'], 'obligation': o[0], 'solver': o[2]} for r, o in refuted]},
                  open(replay_file, 'w'), indent=1, ensure_ascii=False, default=str)
        code, line = 1, 'VIOLATION property=%s replay=%s' % (prop, replay_file)
        for v in violations[:3]:
            print('failing input: %s' % json.dumps(v, ensure_ascii=False, default=str)[:1500])
    elif refuted:
        json.dump({'property': prop, 'kind': 'failed obligation',
                   'failed_obligations': [{'unit': r['name'], 'functions': r['functions'], 'obligation': o[0],
                                           'solver': o[2]} for r, o in refuted]},
                  open(replay_file, 'w'), indent=1, ensure_ascii=False, default=str)
        code = 1
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay_file)
        for r, o in refuted[:3]:
            print('failed obligation: %s / %s' % (r['name'], o[0]))
    elif crash is not None and 'File "%s' % os.path.join(ROOT, 'yargy') in crash:
        # the code itself failed while it was imported
        json.dump({'property': prop, 'kind': 'exception outside a case', 'command': cmd, 'stderr': crash},
                  open(replay_file, 'w'), indent=1, ensure_ascii=False)
        print(crash)
        code, line = 1, 'VIOLATION property=%s replay=%s' % (prop, replay_file)
    elif not obligations and not undecided and rep is None:
        print('nothing checked')
        code = 2

    solver = {}
    for r in results:
        for k, v in r['stats'].items():
            solver[k] = round(solver.get(k, 0) + v, 3)
    functions = sorted({f for r in results for f in r['functions']})
    proved_functions = sorted({f for r in results if r['status'] == 'proved' for f in r['functions']})
    evidence = {
        'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': obligations,
            'discharged': discharged,
            'checker_cmd': 'python3-vt %s %s %s' % (os.path.join(HERE, 'check.py'), prop, tier),
            'trusted_base': TRUSTED,
            'functions_under_contract': functions,
            'functions_with_every_obligation_discharged': proved_functions,
            'functions_inlined_into_proofs': sorted({f for r in results for f in r['inlined']}),
            'units': [{'unit': r['name'], 'status': r['status'],
                       'obligations': len(r['obligations']),
                       'discharged': sum(s == 'proved' for _, s, _ in r['obligations']), 'paths': r['paths'],
                       'seconds': round(r['seconds'], 2), 'why': r['error']} for r in results],
            'undecided_units_left_to_the_bounded_check': [r['name'] for r in undecided],
            'solver': solver,
            'proof_seconds': round(t1 - t0, 2),
        },
        'assumptions': sorted({a for r in results for a in r['assumptions']}),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations) + (len(refuted) if not violations else 0),
    }
    if load_error:
        evidence['coverage']['load_error'] = load_error
    if rep is not None and crash is None:
        evidence['coverage']['bounded'] = {
            'label': 'bounded stand-in and replay of counterexamples: never counted as proved',
            'evaluations': rep['cases'], 'distinct_nontrivial': rep['nontrivial'], 'rule': rep.get('rule', ''),
            'bound': rep.get('bound', ''), 'samples': rep.get('samples', [])[:8], 'workers': 7 if thorough else 5, 'seconds': round(t2 - t1, 2)}
    json.dump(evidence, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, ensure_ascii=False,
              default=str)
    print('%s: %d/%d obligations discharged, %d undecided units, %.1f s' % (
        prop, discharged, obligations, len(undecided), time.time() - t0))
    if line:
        print(line)
    sys.exit(code)


TRUSTED = [
    'PyVC (/verif/pyvc): translation of the Python subset to verification conditions, symbolic execution, loop rules',
    'z3 and cvc5: a query counts as discharged when one of them answers unsat',
    'models of builtins, re, itertools, functools and collections in /verif/pyvc/models.py',
    'pymorphy2 records and dictionaries as uninterpreted functions of the word',
    'CPython semantics of the subset; integers are mathematical, strings uninterpreted unless stated',
]

if __name__ == '__main__':
    main()
