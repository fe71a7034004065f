"""mutants.py OUT.jsonl [FILE...]: systematic mutants of the code, and what the proofs and the tests say about each.

Each mutant changes one place of one function (a copy of /repo under /tmp); it is run against the stable tests, and
those that survive are proved under the properties whose units name the function.  Not used by any check."""
import ast, copy, json, os, shutil, subprocess, sys, importlib, random
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
sys.path.insert(0, VERIF)
SKIP = {'_repr_pretty_', '__repr__', '_repr_svg_', '__str__', 'dot2svg', 'mock_tokenizer', 'mock_context', 'tokenize',
        'activate_', 'pymorphy2_311_hotfix', '_get_param_names_311'}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
SWAP = {'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min'}


def variants(n):
    """replacements of one node"""
    out = []
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        for o in CMP.get(type(n.ops[0]), []):
            m = copy.deepcopy(n); m.ops = [o()]; out.append(m)
    if isinstance(n, ast.BoolOp):
        m = copy.deepcopy(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); out.append(m)
        for i in range(len(n.values)):
            m = copy.deepcopy(n); del m.values[i]
            out.append(m if len(m.values) > 1 else m.values[0])
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        out.append(copy.deepcopy(n.operand))
    if isinstance(n, ast.BinOp):
        if isinstance(n.op, (ast.Add, ast.Sub)):
            m = copy.deepcopy(n); m.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add(); out.append(m)
            out.append(copy.deepcopy(n.left)); out.append(copy.deepcopy(n.right))
            if isinstance(n.op, ast.Add):
                m = copy.deepcopy(n); m.left, m.right = m.right, m.left; out.append(m)
    if isinstance(n, ast.Constant):
        if isinstance(n.value, bool):
            out.append(ast.Constant(not n.value))
        elif isinstance(n.value, int):
            out.append(ast.Constant(n.value + 1)); out.append(ast.Constant(n.value - 1))
        elif isinstance(n.value, str) and n.value and len(n.value) < 20:
            out.append(ast.Constant(n.value + 'x'))
        elif n.value is None:
            out.append(ast.Constant(0))
    if isinstance(n, ast.Call):
        if isinstance(n.func, ast.Name) and n.func.id in SWAP:
            m = copy.deepcopy(n); m.func.id = SWAP[n.func.id]; out.append(m)
        if isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'reversed', 'list', 'set') and len(n.args) == 1:
            out.append(copy.deepcopy(n.args[0]))
        if len(n.args) >= 2:
            for i in range(len(n.args) - 1):
                m = copy.deepcopy(n); m.args[i], m.args[i + 1] = m.args[i + 1], m.args[i]; out.append(m)
        if len(n.args) >= 1 and not (isinstance(n.func, ast.Attribute) and n.func.attr == 'format'):
            m = copy.deepcopy(n); m.args.pop(); out.append(m)
        for i in range(len(n.keywords)):
            if n.keywords[i].arg and not (isinstance(n.func, ast.Attribute) and n.func.attr == 'format'):
                m = copy.deepcopy(n); del m.keywords[i]; out.append(m)
    if isinstance(n, ast.IfExp):
        out.append(copy.deepcopy(n.body)); out.append(copy.deepcopy(n.orelse))
    if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
        if n.generators[0].ifs:
            m = copy.deepcopy(n); m.generators[0].ifs = []; out.append(m)
        m = copy.deepcopy(n)
        g = m.generators[0]
        g.iter = ast.Subscript(ast.Call(ast.Name('list', ast.Load()), [g.iter], []), ast.Slice(ast.Constant(1), None), ast.Load())
        out.append(m)
    if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and len(n.elts) >= 2 and isinstance(getattr(n, 'ctx', ast.Load()), ast.Load):
        for i in range(len(n.elts)):
            m = copy.deepcopy(n); del m.elts[i]; out.append(m)
        for i in range(len(n.elts) - 1):
            m = copy.deepcopy(n); m.elts[i], m.elts[i + 1] = m.elts[i + 1], m.elts[i]; out.append(m)
    return out


def stmt_variants(s):
    out = []
    if isinstance(s, ast.If):
        m = copy.deepcopy(s); m.test = ast.Constant(True); out.append(m)
        m = copy.deepcopy(s); m.test = ast.Constant(False); out.append(m)
        m = copy.deepcopy(s); m.test = ast.UnaryOp(ast.Not(), m.test); out.append(m)
    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Break, ast.Continue)) and not (
            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
        out.append(ast.Pass())
    if isinstance(s, ast.Return) and s.value is not None:
        m = copy.deepcopy(s); m.value = ast.Constant(None); out.append(m)
    if isinstance(s, ast.For):
        m = copy.deepcopy(s)
        m.iter = ast.Subscript(ast.Call(ast.Name('list', ast.Load()), [m.iter], []), ast.Slice(ast.Constant(1), None), ast.Load())
        out.append(m)
        m = copy.deepcopy(s)
        m.iter = ast.Call(ast.Name('reversed', ast.Load()), [ast.Call(ast.Name('list', ast.Load()), [m.iter], [])], [])
        out.append(m)
        m = copy.deepcopy(s); m.body.append(ast.Break()); out.append(m)
    return out


def mutants(path):
    src = open(path, encoding='utf8').read()
    tree = ast.parse(src)
    seen = set()

    def emit(fn, what):
        t = copy.deepcopy(tree)
        ast.fix_missing_locations(t)
        text = ast.unparse(t)
        if text not in seen:
            seen.add(text)
            return [(fn, what, text)]
        return []
    seen.add(ast.unparse(tree))
    out = []

    def walk(node, fn):
        # statements
        for field in ('body', 'orelse'):
            b = getattr(node, field, None)
            if isinstance(b, list) and fn:
                for i, s in enumerate(b):
                    for v in stmt_variants(s):
                        old = b[i]; b[i] = v
                        ast.fix_missing_locations(tree)
                        out.extend(emit(fn, '%d: %s  =>  %s' % (old.lineno, ast.unparse(old)[:100], ast.unparse(v)[:100])))
                        b[i] = old
        for name, value in ast.iter_fields(node):
            items = value if isinstance(value, list) else [value]
            for i, c in enumerate(items):
                if not isinstance(c, ast.AST):
                    continue
                f = fn
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    if c.name in SKIP:
                        continue
                    f = (fn + '.' if fn else '') + c.name
                elif fn or isinstance(c, ast.Assign):
                    if isinstance(c, ast.expr) and fn:
                        for v in variants(c):
                            if isinstance(value, list):
                                value[i] = v
                            else:
                                setattr(node, name, v)
                            ast.fix_missing_locations(tree)
                            out.extend(emit(fn, '%d: %s  =>  %s' % (c.lineno, ast.unparse(c)[:100], ast.unparse(v)[:100])))
                            if isinstance(value, list):
                                value[i] = c
                            else:
                                setattr(node, name, c)
                if isinstance(c, ast.Raise):
                    continue                                # the text of a message
                walk(c, f)
    walk(tree, '')
    return out


def main():
    outp = sys.argv[1]
    files = sys.argv[2:] or [os.path.relpath(os.path.join(d, f), REPO + '/yargy') for d, _, fs in os.walk(REPO + '/yargy')
                             for f in sorted(fs) if f.endswith('.py') and f != '__init__.py']
    from pyvc.unit import UNITS
    props = ['C%02d' % i for i in range(1, 21)]
    for p in props:
        importlib.import_module('specs.' + p.lower())
    by = {}
    for p in props:
        for u in UNITS[p]:
            for f in u.functions:
                by.setdefault(f, set()).add(p)
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    done = set()
    if os.path.exists(outp):
        done = {(r['file'], r['what'], r['fn']) for r in map(json.loads, open(outp))}
    jobs = []
    for f in files:
        mod = 'yargy.' + f[:-3].replace('/', '.')
        for fn, what, text in mutants(REPO + '/yargy/' + f):
            if (f, what, fn) not in done:
                jobs.append((f, mod, fn, what, text))
    random.Random(5).shuffle(jobs)
    print(len(jobs), 'mutants', flush=True)

    def run(j):
        i, (f, mod, fn, what, text) = j
        d = '/tmp/mutants_%d_%d' % (os.getpid(), i)
        shutil.copytree(REPO, d, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        r = dict(file=f, fn=fn, what=what)
        try:
            with open(d + '/yargy/' + f, 'w', encoding='utf8') as h:
                h.write(text)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
            try:
                t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider',
                                    '--doctest-modules', 'yargy', 'tests'], cwd=d, env=env, capture_output=True, text=True, timeout=60)
                r['tests'] = t.returncode == 0
            except subprocess.TimeoutExpired:
                r['tests'] = False
            if r['tests']:
                q = mod + '.' + fn
                ps = set()
                for g in by:
                    if g == q or g.startswith(q + '.') or q.startswith(g + '.'):
                        ps |= by[g]
                r['props'] = sorted(ps)
                r['out'] = {}
                for p in sorted(ps):
                    try:
                        o = subprocess.run(['python3-vt', VERIF + '/tools/r.py', p], env=dict(env, ROOT=d), capture_output=True,
                                           text=True, timeout=400)
                        lines = [l[:200] for l in (o.stdout + o.stderr).splitlines() if not l.startswith('proved') and "'z3'" not in l]
                    except subprocess.TimeoutExpired:
                        lines = ['undecided timeout']
                    r['out'][p] = lines
                    if any(l.startswith('refuted') for l in lines):
                        break
                    try:
                        o = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', VERIF + '/replay/' + p.lower() + '.py', '--root', d,
                                            '--seconds', '25'], env=env, capture_output=True, text=True, timeout=120).stdout
                        bad = [v['what'] for v in json.loads(o[o.index('RESULT ') + 7:])['violations'] if not v.get('key')]
                    except (subprocess.TimeoutExpired, ValueError):
                        bad = ['no result']
                    if bad:
                        r['replay'] = p, bad[0][:100]
                        break
        finally:
            shutil.rmtree(d, ignore_errors=True)
        with open(outp, 'a') as h:
            h.write(json.dumps(r, ensure_ascii=False) + '\n')
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '6'))) as ex:
        list(ex.map(run, enumerate(jobs)))


main()
