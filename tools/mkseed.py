"""mkseed.py SPEC.py: make and confirm planted bugs.

SPEC.py defines SEEDS: list of dict(id, property, edits=[(file, old, new)], needs, what_it_breaks, demo).
Each is applied to /repo, built, tested, demonstrated, undone; kept in /verif/seeded/<id> when confirmed."""
import json, os, subprocess, sys, runpy
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('tests', [])) if False else None


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def stable():
    d = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'passed', 'tests', 'pass'):
        if k in d:
            v = d[k]
            return set(v if isinstance(v, list) else v.keys())
    raise SystemExit('BASELINE keys %s' % list(d))


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    only = sys.argv[2:]
    for s in seeds:
        if only and s['id'] not in only:
            continue
        assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty /repo'
        d = os.path.join(VERIF, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        with open(d + '/demo.py', 'w', encoding='utf8') as f:
            f.write(s['demo'].lstrip('\n'))
        with open(d + '/demo.sh', 'w') as f:
            f.write('#!/bin/bash\n# run with cwd /repo\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 200 '
                    '/opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what_it_breaks']},
                  open(d + '/meta.json', 'w'), indent=1, ensure_ascii=False)
        clean = sh('bash %s/demo.sh' % d, cwd=REPO)
        ok = clean.returncode == 0
        why = '' if ok else 'demo fails on the clean tree: ' + clean.stderr[-800:]
        try:
            for file, old, new in s['edits']:
                p = os.path.join(REPO, file)
                t = open(p, encoding='utf8').read()
                assert t.count(old) == 1, (s['id'], file, t.count(old), old)
                open(p, 'w', encoding='utf8').write(t.replace(old, new))
            open(d + '/patch.diff', 'w', encoding='utf8').write(sh('git -C /repo diff').stdout)
            for file, o, n in s['edits']:
                base = set(sh('git -C /repo show 2259dd4:%s' % file).stdout.splitlines())
                gone = [l[1:] for l in sh('git -C /repo diff -U0 -- %s' % file).stdout.splitlines()
                        if l.startswith('-') and not l.startswith('---')]
                if not any(l in base for l in gone):
                    ok, why = False, 'no original line changed in ' + file
            b = sh('bash /opt/vp/build.sh')
            sh('bash /opt/vp/test.sh /tmp/seed_out.json')
            got = json.load(open('/tmp/seed_out.json'))
            passed = set(got.get('passed') or got.get('pass') or [])
            missing = stable() - passed
            if b.returncode:
                ok, why = False, 'build'
            if missing:
                ok, why = False, 'tests: %s' % sorted(missing)[:5]
            p = sh('bash %s/demo.sh' % d, cwd=REPO)
            if p.returncode == 0:
                ok, why = False, 'demo passes with the patch'
            out = p.stderr[-200:]
        finally:
            sh('git -C /repo checkout -- .')
        print('%-28s %s %s' % (s['id'], 'CONFIRMED' if ok else 'REJECTED', why), out.replace('\n', ' ')[-150:], flush=True)
        if not ok:
            sh('rm -rf %s' % d) if d.startswith(VERIF + '/seeded/') else None


main()
