"""PyVC: symbolic interpreter and obligation generator over the real AST of /repo.

Paths are explored by re-execution with decision prefixes; loops over
sequences of unknown length are summarised in comprehension normal form
(values.For) or cut by an invariant.  Nothing is bounded: a construct that
would need a bound raises Unsupported, which is 'undecided'.
"""
import ast
import builtins
import collections
import importlib
import os
import time
import subprocess
import tempfile
import z3

from .values import *

# attributes of values of the standard library
BUILTIN = set().union(*map(dir, (
    list, dict, set, frozenset, tuple, str, bytes, int, float, type, slice, property, BaseException,
    type(_ for _ in ()), type(lambda: 0), map, filter, zip, reversed, enumerate, range, memoryview,
    collections.deque, collections.OrderedDict, collections.Counter, collections.defaultdict
)))

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def bound_names(st):
    """names a statement may bind where it stands"""
    if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        return [st.name]
    if isinstance(st, (ast.Import, ast.ImportFrom)):
        return [a.asname or a.name.split('.')[0] for a in st.names]
    names = [st.id] if isinstance(st, ast.Name) and isinstance(st.ctx, ast.Store) else []
    for x in ast.iter_child_nodes(st):
        names += bound_names(x)
    return names


class Log(object):
    __slots__ = ('kind', 'target', 'data', 'undo')

    def __init__(self, kind, target, data, undo):
        self.kind = kind
        self.target = target
        self.data = data
        self.undo = undo


class Path(object):
    def __init__(self, conds, defs, kind, value, ops):
        self.conds = conds
        self.defs = defs
        self.kind = kind        # normal, return, break, raise
        self.value = value
        self.ops = ops

    @property
    def guard(self):
        return conj(self.conds)


def conj(cs):
    cs = [c for c in cs if c is not True and not z3.is_true(c)]
    if not cs:
        return True
    if len(cs) == 1:
        return cs[0]
    return z3.And(*cs)


def disj(cs):
    cs = list(cs)
    if any(c is True or z3.is_true(c) for c in cs):
        return TRUE
    cs = [c for c in cs if not z3.is_false(c)]
    if not cs:
        return FALSE
    if len(cs) == 1:
        return cs[0]
    return z3.Or(*cs)


def zb(c):
    if c is True:
        return TRUE
    if c is False:
        return FALSE
    return c


def has_ite(t):
    if z3.is_app(t):
        return z3.is_app_of(t, z3.Z3_OP_ITE) or any(has_ite(c) for c in t.children())
    return False


class Scope(object):
    __slots__ = ('vars', 'parent', 'module', 'func', 'birth', 'yields', 'idx', 'cls', 'self_', 'comp')

    def __init__(self, parent, module, func=None, birth=0):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.func = func
        self.birth = birth
        self.yields = None
        self.idx = ()
        self.cls = None
        self.self_ = None
        self.comp = False


class Explorer(object):
    def __init__(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.alternatives = []


class Maybe(object):
    """None iff cond, else value"""

    def __init__(self, cond, value):
        self.cond = cond
        self.value = value


class Alt(object):
    """a if cond else b"""

    def __init__(self, cond, a, b):
        self.cond = cond
        self.a = a
        self.b = b


class Obligation(object):
    def __init__(self, label, status, backend, seconds, detail=''):
        self.label = label
        self.status = status        # proved, refuted, unknown
        self.backend = backend
        self.seconds = seconds
        self.detail = detail


class World(object):
    """the code under verification, loaded from a source tree"""

    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.classes = []
        self.sources = {}
        self.shared = {}        # containers, objects and scopes made at import, by id
        self.loading = True
        self.builtin_classes = {}
        self.functions = {}

    def path_of(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        return p + '.py'


MEMO = {}
SOLVER_STATS = {'z3': [0, 0.0], 'cvc5': [0, 0.0]}


class Engine(object):
    MAX_DEPTH = 60
    MAX_PATHS = 4000

    def __init__(self, world, schema=None, contracts=None, timeout=6000, loop_specs=None, deadline=None):
        self.w = world
        self.schema = dict(schema or {})
        self.contracts = dict(contracts or {})
        self.base_contracts = self.contracts
        # 'dispatch:Class.method': contract of the method on an arbitrary object of the class or a subclass
        self.dispatch = {}
        for k in list(self.contracts):
            if k.startswith(('dispatch:', 'property:')):
                how, rest = k.split(':')
                cname, name = rest.rsplit('.', 1)
                v = PyFn(name, self.contracts.pop(k), bind=True)
                self.dispatch.setdefault(name, []).append((world.cls(cname), PropV(v) if how == 'property' else v))
        self.loop_specs = loop_specs or []
        self.folds = []     # set by a unit: candidate values of loop-carried variables, proved by induction
        self.timeout = timeout
        self.obligations = []
        self.assumptions = set()
        self.inlined = set()
        self.deadline = deadline
        self._seen = {}
        self.lits = {}
        self.vlits = {}
        self.ufs = {}
        self.axioms = []
        self.trace = False
        self.vocabulary = set()
        self.reset([])

    # ------------------------------------------------------------ paths

    def reset(self, prefix):
        self.pc = []
        self.expl = Explorer(prefix)
        self.logs = []
        self.counter = 0
        self.stamp = 1
        self.depth = 0
        self.objs = {}
        self.lists = {}
        self.loopidx = []
        self.accum = {}
        self.poisoned_fields = {}
        self.heapw = []
        self.acc_folds = []
        self.folds = []
        self.path_axioms = []
        self.ghost = {}
        self.bypass = None
        self.tainted = []
        self.loop_uses = {}
        self.frames = []
        self.calls = []         # stamps at the begin and end of each call of the specification
        self.touched = []       # what a call changed of what an earlier call made

    def explore(self, fn):
        """run fn(self) along every feasible path"""
        stack = [[]]
        n = 0
        while stack:
            prefix = stack.pop()
            n += 1
            if n > self.MAX_PATHS:
                raise Unsupported('more than %d paths' % self.MAX_PATHS)
            self.check_deadline()
            self.reset(prefix)
            try:
                fn(self)
            except PathEnd:
                pass
            finally:
                self.undo_to(0)
            stack.extend(self.expl.alternatives)
        return n

    def check_deadline(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the unit exhausted')

    def log(self, kind, target, data, undo):
        if id(target) in self.w.shared and kind != 'resolve' and not self.w.loading:
            # what it holds at the time of a call depends on all the calls before
            undo()
            raise Unsupported('a call changes what was made when the package was imported: %r' % (target,))
        if self.calls and self.depth and kind not in ('resolve', 'duptest', 'ghost') and \
                any(lo < getattr(target, 'birth', 0) <= hi for lo, hi in self.calls):
            self.touched.append((kind, target, data))
        self.logs.append(Log(kind, target, data, undo))

    def undo_to(self, mark):
        while len(self.logs) > mark:
            self.logs.pop().undo()

    def fresh_name(self, base):
        self.counter += 1
        return '%s!%d' % (base, self.counter)

    def const(self, base, sort):
        """fresh constant; inside a loop a function of the loop indices"""
        name = self.fresh_name(base)
        if self.loopidx:
            f = z3.Function(name, *([IntSort] * len(self.loopidx) + [sort]))
            return f(*self.loopidx)
        return z3.Const(name, sort)

    def uf(self, name, *sorts):
        key = (name,) + tuple(s.name() for s in sorts)
        if key not in self.ufs:
            self.ufs[key] = z3.Function(name, *sorts)
        return self.ufs[key]

    def new_stamp(self):
        self.stamp += 1
        return self.stamp

    # ---------------------------------------------------------- solving

    def lit(self, s):
        if s not in self.lits:
            self.lits[s] = z3.Const('lit%d_%s' % (len(self.lits), ''.join(c if c.isalnum() and ord(c) < 128 else '_' for c in s)[:12]), StrSort)
        return self.lits[s]

    def vlit(self, v):
        key = (type(v).__name__, v)
        if key not in self.vlits:
            self.vlits[key] = z3.Const('val%d' % len(self.vlits), ValSort)
        return self.vlits[key]

    def background(self):
        out = list(self.axioms)
        if len(self.lits) > 1:
            out.append(z3.Distinct(*self.lits.values()))
        if len(self.vlits) > 1:
            out.append(z3.Distinct(*self.vlits.values()))
        return out

    def solve(self, exprs, timeout, want_model=False, both=True):
        """'sat' | 'unsat' | 'unknown', backend, seconds, model text"""
        bg = self.background()
        allx = [zb(e) for e in exprs] + bg + list(self.path_axioms)
        key = (tuple(sorted(set(e.get_id() for e in allx))), both)
        if key in MEMO and (MEMO[key][1][0] != 'unknown' or MEMO[key][2] >= timeout):
            return MEMO[key][1]
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', timeout)
        s.set('random_seed', 1)
        for e in allx:
            s.add(e)
        r = s.check()
        res = str(r)
        model = ''
        backend = 'z3'
        if r == z3.sat:
            try:
                model = str(s.model())[:4000]
            except Exception:
                model = ''
        dt = time.time() - t0
        SOLVER_STATS['z3'][0] += 1
        SOLVER_STATS['z3'][1] += dt
        if res == 'unknown' and both:
            t1 = time.time()
            r2 = self.cvc5(s, timeout)
            SOLVER_STATS['cvc5'][0] += 1
            SOLVER_STATS['cvc5'][1] += time.time() - t1
            if r2 in ('unsat',):
                res, backend = r2, 'cvc5'
        out = (res, backend, time.time() - t0, model)
        MEMO[key] = (allx, out, timeout)
        return out

    def cvc5(self, solver, timeout):
        try:
            text = solver.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write('(set-logic ALL)\n' + text)
            try:
                p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '--full-saturate-quant', f.name],
                                   capture_output=True, text=True, timeout=timeout / 1000.0 + 5)
                out = p.stdout.strip().split('\n')[0]
                return out if out in ('sat', 'unsat') else 'unknown'
            finally:
                os.unlink(f.name)
        except Exception:
            return 'unknown'

    def facts(self):
        return [e for k, e in self.pc]

    def feasible(self, cond=TRUE):
        r = self.solve(self.facts() + [cond], 400, both=False)[0]
        return r != 'unsat'

    def valid(self, cond, timeout=1500):
        if cond is True or z3.is_true(cond):
            return True
        r = self.solve(self.facts() + [z3.Not(cond)], timeout, both=False)[0]
        return r == 'unsat'

    def add(self, cond, kind='c'):
        if cond is True or z3.is_true(cond):
            return
        if cond is False or z3.is_false(cond):
            raise PathEnd()
        self.pc.append((kind, cond))

    def assume(self, cond):
        self.add(zb(cond), 'd')

    def branch(self, cond):
        """decide a condition, forking the path if both ways are feasible"""
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        x = self.expl
        if x.pos < len(x.prefix):
            d = x.prefix[x.pos]
        else:
            self.check_deadline()
            ids = {e.get_id() for e in self.facts()}
            neg = z3.simplify(z3.Not(cond))
            if cond.get_id() in ids:
                d = True
            elif neg.get_id() in ids:
                d = False
            else:
                t = self.feasible(cond)
                f = self.feasible(neg)
                if not t and not f:
                    raise PathEnd()
                d = t
                if t and f:
                    x.alternatives.append(x.decisions + [False])
        x.pos += 1
        x.decisions.append(d)
        self.add(cond if d else z3.Not(cond))
        return d

    def choose(self, n):
        """non-deterministic choice 0..n-1 (all explored)"""
        x = self.expl
        if x.pos < len(x.prefix):
            d = x.prefix[x.pos]
        else:
            d = 0
            for alt in range(1, n):
                x.alternatives.append(x.decisions + [alt])
        x.pos += 1
        x.decisions.append(d)
        return d

    def prove(self, cond, label, timeout=None):
        """record the obligation pc |- cond"""
        cond = zb(cond)
        self.check_deadline()
        ctx = [(k, e) for k, e in self.pc]
        key = (label, tuple(e.get_id() for _, e in ctx), cond.get_id())
        if key in self._seen:
            ob = self._seen[key][0]
        else:
            r, backend, dt, model = self.solve(
                [e for _, e in ctx] + [z3.Not(cond)], timeout or self.timeout, want_model=True)
            status = {'unsat': 'proved', 'sat': 'refuted'}.get(r, 'unknown')
            detail = ''
            if status != 'proved':
                detail = 'goal: %s\npath: %s\nmodel: %s' % (
                    str(cond)[:1500], '; '.join(str(e)[:300] for k, e in ctx if k == 'c')[:3000], model[:2500])
            lib = self.library_symbols([e for _, e in ctx] + [cond]) if status == 'refuted' else None
            if lib:
                status = 'unknown'
                detail += '\n(depends on library functions the specification does not mention: %s)' % ', '.join(sorted(lib))
            if status == 'refuted' and self.tainted:
                status = 'unknown'
                detail += '\n(over-approximated: %s)' % ', '.join(self.tainted)
            ob = Obligation(label, status, backend, dt, detail)
            self._seen[key] = (ob, [e for _, e in ctx], cond)
            self.obligations.append(ob)
        if ob.status == 'proved':
            self.add(cond, 'd')
        return ob.status == 'proved'

    LIBRARY = ('str_', 'slice', 'char_at', 'concat', 'substr', 'any_', 'apply', 'repr', 'map{', 'map[', 'int_of',
               'is_decimal', 'truthy', 'isinstance_')

    def library_symbols(self, exprs):
        """uninterpreted library functions that the unit did not declare as its vocabulary"""
        out = set()
        seen = set()
        todo = list(exprs)
        while todo:
            x = todo.pop()
            if not z3.is_expr(x) or x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if n.startswith(self.LIBRARY) and n not in self.vocabulary and n != 'str_len':
                    out.add(n)
            if z3.is_quantifier(x):
                todo.append(x.body())
            else:
                todo.extend(x.children())
        return out

    def allow(self, *names):
        self.vocabulary.update(names)

    # -------------------------------------------------- sub-exploration

    def run_paths(self, thunk):
        """explore thunk from the current state; state is restored"""
        out = []
        stack = [[]]
        saved = self.expl
        n = 0
        while stack:
            prefix = stack.pop()
            n += 1
            if n > 600:
                self.expl = saved
                raise Unsupported('more than 600 paths in a nested exploration')
            mark, pcmark = len(self.logs), len(self.pc)
            born = self.new_stamp()
            self.expl = Explorer(prefix)
            kind = 'normal'
            value = None
            try:
                value = thunk()
            except PathEnd:
                kind = None
            except ReturnX as e:
                kind, value = 'return', e.value
            except BreakX:
                kind = 'break'
            except ContinueX:
                kind = 'normal'
            except PyRaise as e:
                kind, value = 'raise', e
            except (CarriedRead, Unsupported):
                self.undo_to(mark)
                del self.pc[pcmark:]
                self.expl = saved
                raise
            ops = self.logs[mark:]
            new = self.pc[pcmark:]
            # what the path allocated stays as the path left it: only the path's results refer to it
            while len(self.logs) > mark:
                op = self.logs.pop()
                if not getattr(op.target, 'birth', 0) > born:
                    op.undo()
            del self.pc[pcmark:]
            stack.extend(self.expl.alternatives)
            if kind is not None:
                conds, defs = [], []
                for k, e in new:
                    if k == 'c':
                        conds.append(e)
                    elif k == 'd':
                        defs.append(z3.Implies(conj(conds), e) if conds else e)
                out.append(Path(conds, defs, kind, value, ops))
        self.expl = saved
        return out

    def loopctx(self, k, n):
        return LoopCtx(self, k, n)

    def sub_truth(self, thunk):
        """z3 Bool: thunk() (exploring its own branches) is truthy"""
        terms = []
        for p in self.run_paths(lambda: self.truth(thunk())):
            if p.kind != 'normal':
                raise Unsupported('exception or jump inside a condition: %s' % p.value)
            for d in p.defs:
                self.assume(d)
            v = p.value
            if v is False:
                continue
            terms.append(zb(conj(list(p.conds) + ([] if v is True else [v]))))
        return disj(terms)

    def exists_in(self, parts, fn):
        """z3 Bool: some value v of the sequence has fn(v)"""
        terms = []
        for p in parts:
            if isinstance(p, Item):
                if p.guard is True:
                    terms.append(self.sub_truth(lambda: fn(p.value)))
                else:
                    def thunk(p=p):
                        self.add(p.guard)
                        return fn(p.value)
                    terms.append(self.sub_truth(thunk))
            elif isinstance(p, For):
                k = self.index()
                inner = self.inst_parts(p.parts, p.k, k)
                with self.loopctx(k, p.n):
                    body = self.exists_in(inner, fn)
                    rng = z3.And(k >= 0, k < p.n)
                terms.append(self.exists([k], z3.And(rng, body)))
            elif isinstance(p, Blob):
                terms.append(self.blob_exists(p, fn))
            else:
                raise Unsupported('membership in %r' % (p,))
        return disj(terms)

    def exists(self, ks, body):
        body = z3.simplify(body)
        if z3.is_false(body):
            return FALSE
        return z3.Exists(ks, body)

    def forall(self, ks, body):
        body = z3.simplify(zb(body))
        if z3.is_true(body):
            return TRUE
        return z3.ForAll(ks, body)

    def forall_in(self, parts, fn):
        return z3.Not(self.exists_in(parts, lambda v: self.not_(fn(v))))

    def not_(self, v):
        t = self.truth(v)
        if isinstance(t, bool):
            return not t
        return Sym(BOOL, z3.Not(t))

    def blob_exists(self, p, fn):
        raise Unsupported('membership in opaque sequence')

    def index(self):
        self.counter += 1
        return z3.Int('k!%d' % self.counter)

    # ----------------------------------------------------- substitution

    def inst_parts(self, parts, k, e):
        return [self.sub_part(p, k, e, {}) for p in parts]

    def sub_part(self, p, k, e, memo):
        if isinstance(p, Item):
            g = p.guard if p.guard is True else z3.substitute(p.guard, (k, e))
            return Item(self.subst(p.value, k, e, memo), g)
        if isinstance(p, For):
            f = For(p.k, z3.substitute(p.n, (k, e)) if z3.is_expr(p.n) else p.n,
                    [self.sub_part(q, k, e, memo) for q in p.parts])
            f.dedup = p.dedup
            return f
        if isinstance(p, Blob):
            return Blob(z3.substitute(p.e, (k, e)), p.t)
        raise Unsupported('substitution in %r' % (p,))

    def subst(self, v, k, e, memo=None):
        if memo is None:
            memo = {}
        if v is None or isinstance(v, (bool, int, str, float, ClsV, ModuleV, NativeMod, PyFn)):
            return v
        if isinstance(v, Sym):
            return Sym(v.t, z3.substitute(v.e, (k, e)))
        if z3.is_expr(v):
            return z3.substitute(v, (k, e))
        if isinstance(v, tuple):
            return tuple(self.subst(x, k, e, memo) for x in v)
        if isinstance(v, Maybe):
            return Maybe(z3.substitute(v.cond, (k, e)), self.subst(v.value, k, e, memo))
        if isinstance(v, Alt):
            return Alt(z3.substitute(v.cond, (k, e)), self.subst(v.a, k, e, memo), self.subst(v.b, k, e, memo))
        if id(v) in memo:
            return memo[id(v)][1]
        if isinstance(v, ObjV):
            if not v.fresh:
                r = z3.substitute(v.ref, (k, e))
                if r.eq(v.ref):
                    return v
                return self.obj(r, v.cls, v.cands)
            if not depends(v, k):
                return v
            o = ObjV(z3.substitute(v.ref, (k, e)) if z3.is_expr(v.ref) else v.ref, v.cls, v.cands, True, v.birth)
            o.idx = tuple(z3.substitute(i, (k, e)) for i in v.idx)
            memo[id(v)] = (v, o)
            for n, x in v.fields.items():
                o.fields[n] = self.subst(x, k, e, memo)
            o.ghost = v.ghost
            return o
        if isinstance(v, ListV):
            if v.ref is not None:
                r = z3.substitute(v.ref, (k, e))
                if r.eq(v.ref):
                    return v
                return self.symlist(r, v.et, type(v))
            o = type(v)([self.sub_part(p, k, e, memo) for p in v.parts], v.birth)
            o.idx = tuple(z3.substitute(i, (k, e)) for i in getattr(v, 'idx', ()))
            if not depends(v, k) and len(v.parts) == len(o.parts) and all(same_part(x, y) for x, y in zip(v.parts, o.parts)):
                memo[id(v)] = (v, v)
                return v
            memo[id(v)] = (v, o)
            return o
        if isinstance(v, DictV):
            if v.base is not None or not v.parts and not v.groups and not depends(v, k):
                return v
            o = DictV([self.sub_part(p, k, e, memo) for p in v.parts], v.default, v.birth)
            o.groups = [self.sub_part(p, k, e, memo) for p in v.groups]
            o.idx = tuple(z3.substitute(i, (k, e)) for i in getattr(v, 'idx', ()))
            memo[id(v)] = (v, o)
            return o
        if isinstance(v, StrCat):
            return StrCat([self.subst(x, k, e, memo) for x in v.parts])
        if isinstance(v, StrJoin):
            return StrJoin(self.subst(v.sep, k, e, memo), [self.sub_part(p, k, e, memo) for p in v.seq])
        if isinstance(v, StrMap):
            return StrMap(self.subst(v.base, k, e, memo), v.table)
        if isinstance(v, HashV):
            return HashV(self.subst(v.value, k, e, memo))
        if isinstance(v, Bound):
            return Bound(v.fn, self.subst(v.self_, k, e, memo))
        if isinstance(v, FuncV):
            if any(i.eq(k) for i in getattr(v.scope, 'idx', ()) or ()):
                raise Unsupported('function value depends on a loop index')
            return v
        if isinstance(v, (ExcV, PyRaise, Poison, Deferred)):
            return v
        if hasattr(v, 'subst_model'):
            return v.subst_model(self, k, e)
        raise Unsupported('substitution in %r' % (v,))

    # -------------------------------------------------------- allocation

    def alloc_ref(self):
        self.counter += 1
        n = self.counter
        if self.loopidx:
            f = z3.Function('new!%d' % n, *([IntSort] * (len(self.loopidx) + 1)))
            r = f(*self.loopidx)
            self.add(r < 0, 't')
            return r
        return z3.IntVal(-n)

    def new_obj(self, cls):
        o = ObjV(self.alloc_ref(), cls, fresh=True, birth=self.new_stamp())
        o.idx = tuple(self.loopidx)
        return o

    def new_list(self, parts=(), kind=ListV):
        l = kind(parts, birth=self.new_stamp())
        l.idx = tuple(self.loopidx)
        return l

    def new_dict(self, parts=(), default=None):
        d = DictV(parts, default, birth=self.new_stamp())
        d.idx = tuple(self.loopidx)
        d.ref = self.alloc_ref()
        return d

    def cands_of(self, names):
        """closed world: the named classes and their subclasses"""
        out = []
        for c in self.w.classes:
            if any(any(m.name == n or m.qualname == n for m in c.mro) for n in names):
                out.append(c)
        return tuple(out)

    def cls_tag(self, ref):
        return self.uf('cls', IntSort, IntSort)(ref)

    def obj(self, ref, cls=None, cands=None):
        key = ref.get_id()
        o = self.objs.get(key)
        if o is not None and o.ref.eq(ref):
            if cls is not None and o.cls is None:
                o.cls = cls
            return o
        o = ObjV(ref, cls, cands, fresh=False, birth=0)
        o.idx = ()
        self.objs[key] = o
        return o

    def type_facts(self, v, t=None):
        if isinstance(v, ObjV) and not v.fresh:
            self.add(v.ref > 0, 't')
            if v.cls is None and v.cands:
                self.add(z3.Or(*[self.cls_tag(v.ref) == c.id for c in v.cands]), 't')
            elif v.cls is not None:
                self.add(self.cls_tag(v.ref) == v.cls.id, 't')
        elif isinstance(v, tuple):
            for x in v:
                self.type_facts(x)

    def mk(self, t, e, facts=True):
        """value of type t denoted by the term e"""
        k = t.kind
        if k in ('int', 'bool', 'str', 'any'):
            return Sym(t, e)
        if k == 'obj':
            cands = self.cands_of(t.args)
            if not cands:
                raise Unsupported('no class %r' % (t.args,))
            o = self.obj(e, cands[0] if len(cands) == 1 else None, cands)
            if facts:
                self.type_facts(o)
            return o
        if k == 'list':
            return self.symlist(e, t.args[0], ListV)
        if k == 'set':
            return self.symlist(e, t.args[0], SetV)
        if k == 'fn':
            return PyFn('fn', ('symbolic', e))
        if k == 'model':
            return t.args[0](self, e)
        raise Unsupported('mk %r' % t)

    def symlist(self, ref, et, kind=ListV):
        key = (ref.get_id(), kind)
        l = self.lists.get(key)
        if l is not None:
            return l
        n = self.uf('len_' + tname(et), IntSort, IntSort)(ref)
        self.counter += 1
        k = z3.Int('e!%d' % self.counter)
        l = kind([For(k, n, [Item(self.elem(et, ref, k))])], 0, ref, et)
        l.idx = ()
        self.lists[key] = l
        self.add(n >= 0, 'd')
        if et.kind == 'obj':
            cands = self.cands_of(et.args)
            j = z3.Int('j!t')
            x = self.uf('el_' + tname(et), IntSort, IntSort, IntSort)(ref, j)
            fact = z3.Implies(z3.And(j >= 0, j < n), z3.And(x > 0, z3.Or(*[self.cls_tag(x) == c.id for c in cands])))
            if has_ite(ref):
                self.add(z3.ForAll([j], fact), 'd')     # 'if' is not allowed in a pattern
            else:
                self.add(z3.ForAll([j], fact, patterns=[x]), 'd')
        if kind is SetV and et.kind in ('str', 'int', 'any'):
            l.parts[0].memset = (ref, et)
        return l

    def mem(self, ref, et, x):
        return self.uf('mem_' + tname(et), IntSort, et.sort, BoolSort)(ref, x)

    def elem(self, et, ref, k):
        if et.kind == 'opt':
            c = self.uf('eln_' + tname(et), IntSort, IntSort, BoolSort)(ref, k)
            e = self.uf('el_' + tname(et), IntSort, IntSort, et.args[0].sort)(ref, k)
            return Maybe(c, self.mk(et.args[0], e, facts=False))
        if et.kind == 'tup':
            return tuple(
                self.mk(x, self.uf('el%d_%s' % (i, tname(et)), IntSort, IntSort, x.sort)(ref, k), facts=False)
                for i, x in enumerate(et.args))
        e = self.uf('el_' + tname(et), IntSort, IntSort, et.sort)(ref, k)
        return self.mk(et, e, facts=False)

    def fresh(self, t, base='x'):
        """arbitrary value of type t"""
        if t.kind == 'opt':
            c = self.const(base + '_none', BoolSort)
            return Maybe(c, self.fresh(t.args[0], base))
        if t.kind == 'tup':
            return tuple(self.fresh(x, base) for x in t.args)
        return self.mk(t, self.const(base, t.sort))

    # ------------------------------------------------------------ resolve

    def res(self, v):
        while True:
            if isinstance(v, Maybe):
                if self.branch(v.cond):
                    return None
                v = v.value
                self.type_facts(v)
            elif isinstance(v, Alt):
                v = v.a if self.branch(v.cond) else v.b
                self.type_facts(v)
            elif isinstance(v, Deferred):
                v = v.force()
            elif isinstance(v, Poison):
                raise CarriedRead(v.loc)
            else:
                return modelled(v)

    # ------------------------------------------------------------- heap

    def cls_of(self, o):
        if o.cls is not None:
            return o.cls
        return None

    def field_type(self, o, name):
        classes = [o.cls] if o.cls else list(o.cands or ())
        for c in classes:
            for m in c.mro:
                t = self.schema.get((m.name, name))
                if t is not None:
                    return m.name, t
        return None, None

    def get_field(self, o, name):
        """instance attribute, or None if there is none"""
        if (id(o), name) in self.poisoned_fields:
            h = self.poisoned_fields[(id(o), name)]
            raise CarriedRead(('field', o, name))
        if not o.fresh and any(w[0] == 'p' and w[2] == name for w in self.heapw):
            raise Unsupported('reading %s after it is written in a loop' % name)
        if name in o.fields:
            return True, self.res(o.fields[name])
        if o.fresh:
            return False, None
        for kind, ref, fname, value in reversed(self.heapw):
            if fname == name:
                if z3.is_expr(ref) and ref.eq(o.ref):
                    return True, self.res(value)
                if self.branch(o.ref == ref):
                    return True, self.res(value)
        owner, t = self.field_type(o, name)
        if t is None:
            return False, None
        if t.kind == 'opt':
            c = self.uf('none_%s_%s' % (owner, name), IntSort, BoolSort)(o.ref)
            if self.branch(c):
                return True, None
            t = t.args[0]
        if t.kind == 'const':
            return True, t.args[0]
        if t.kind == 'tup':
            return True, tuple(self.mk(x, self.uf('fld%d_%s_%s' % (i, owner, name), IntSort, x.sort)(o.ref))
                               for i, x in enumerate(t.args))
        e = self.uf('fld_%s_%s' % (owner, name), IntSort, t.sort)(o.ref)
        return True, self.mk(t, e)

    def set_field(self, o, name, value):
        value = self.guard_store(value)
        if o.fresh or True:
            old = o.fields.get(name, NotImpl)

            def undo():
                if old is NotImpl:
                    o.fields.pop(name, None)
                else:
                    o.fields[name] = old
            self.log('field', o, (name, value, old), undo)
            o.fields[name] = value
            if not o.fresh:
                entry = ('w', o.ref, name, value)
                self.heapw.append(entry)
                hw = self.heapw
                self.log('heapw', o, (name, value), lambda: hw.pop())

    def guard_store(self, v):
        return v

    def pre_existing(self, o, stamp):
        return getattr(o, 'birth', 0) <= stamp

    # -------------------------------------------------------- environment

    def lookup(self, scope, name):
        s = scope
        while s is not None:
            if name in s.vars:
                v = s.vars[name]
                if isinstance(v, Lost):
                    raise Unsupported('the order of a set')
                if isinstance(v, (Maybe, Alt, Deferred, Poison, Unmodelled)):
                    r = self.res(v)
                    s.vars[name] = r
                    self.log('resolve', s, (name, r), lambda: s.vars.__setitem__(name, v))
                    return r
                return v
            s = s.parent
        if name in scope.module.ns:
            return modelled(scope.module.ns[name])
        b = self.w.builtins.get(name, NotImpl)
        if b is NotImpl:
            if hasattr(builtins, name) or name.startswith('__'):
                raise Unsupported('the name %s' % name)
            self.throw('NameError', name)
        return b

    def set_var(self, scope, name, value):
        old = scope.vars.get(name, NotImpl)

        def undo():
            if old is NotImpl:
                scope.vars.pop(name, None)
            else:
                scope.vars[name] = old
        self.log('env', scope, (name, value, old), undo)
        scope.vars[name] = value

    def throw(self, name, *args):
        raise PyRaise(self.w.exceptions[name], args)

    # --------------------------------------------------------- truth, eq

    def truth(self, v):
        """python bool or z3 Bool"""
        v = self.res(v)
        if z3.is_expr(v):
            return v
        if v is None:
            return False
        if isinstance(v, (bool, int, float)):
            return bool(v)
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Sym):
            if v.t.kind == 'bool':
                return v.e
            if v.t.kind == 'int':
                return v.e != 0
            if v.t.kind == 'str':
                return v.e != self.lit('')
            if v.t.kind == 'any':
                return self.uf('truthy', ValSort, BoolSort)(v.e)
        if isinstance(v, StrCat):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            return disj([zb(self.truth(p)) for p in v.parts])
        if isinstance(v, ObjV):
            for m in ('__bool__', '__len__'):
                f = self.class_attr(v, m)
                if f is not None:
                    return self.truth(self.call(Bound(f, v), []))
            return True
        if isinstance(v, ListV):
            self.check_accum(v)
            return self.nonempty(v.parts)
        if isinstance(v, DictV):
            self.check_accum(v)
            if v.base is not None:
                raise Unsupported('truth of symbolic dict')
            a = self.nonempty(v.parts)
            b = self.nonempty(v.groups)
            if a is True or b is True:
                return True
            return disj([zb(a), zb(b)])
        return True

    def nonempty(self, parts):
        terms = []
        for p in parts:
            if isinstance(p, Item):
                if p.guard is True:
                    return True
                terms.append(p.guard)
            elif isinstance(p, For):
                inner = self.nonempty(p.parts)
                if inner is True:
                    terms.append(p.n > 0 if z3.is_expr(p.n) else zb(p.n > 0))
                elif inner is not False:
                    terms.append(self.exists([p.k], z3.And(p.k >= 0, p.k < p.n, inner)))
            elif isinstance(p, Blob):
                terms.append(self.blob_nonempty(p))
            else:
                raise Unsupported('nonempty %r' % (p,))
        if not terms:
            return False
        return disj(terms)

    def blob_nonempty(self, p):
        raise Unsupported('length of opaque sequence')

    def box(self, v):
        """term of sort Val"""
        v = self.res(v)
        if isinstance(v, Sym):
            if v.t.kind == 'any':
                return v.e
            return self.uf('box_' + v.t.kind, v.t.sort, ValSort)(v.e)
        if isinstance(v, bool) or v is None or isinstance(v, float):
            return self.vlit(v)
        if isinstance(v, int):
            return self.uf('box_int', IntSort, ValSort)(z3.IntVal(v))
        if isinstance(v, str):
            return self.uf('box_str', StrSort, ValSort)(self.lit(v))
        if isinstance(v, ObjV):
            return self.uf('box_ref', IntSort, ValSort)(v.ref)
        if isinstance(v, tuple):
            f = self.uf('box_tup%d' % len(v), *([ValSort] * (len(v) + 1)))
            return f(*[self.box(x) for x in v]) if v else self.vlit('()')
        if isinstance(v, ListV) and v.ref is not None:
            return self.uf('box_list', IntSort, ValSort)(v.ref)
        if isinstance(v, ListV):
            raise Unsupported('boxing a list')
        if isinstance(v, ClsV):
            return self.vlit('class ' + v.qualname)
        if isinstance(v, (StrCat, StrJoin, StrMap)):
            return self.uf('box_str', StrSort, ValSort)(self.strterm(v))
        if isinstance(v, PyFn) and isinstance(v.fn, tuple):
            return self.uf('box_fn', IntSort, ValSort)(v.fn[1])
        raise Unsupported('boxing %r' % (v,))

    def strterm(self, v):
        if isinstance(v, str):
            return self.lit(v)
        if isinstance(v, Sym):
            if v.t.kind == 'str':
                return v.e
            raise Unsupported('strterm %r' % (v,))
        if isinstance(v, StrCat):
            ps = [self.strterm(p) for p in v.parts]
            r = ps[-1]
            for p in reversed(ps[:-1]):
                r = self.uf('concat', StrSort, StrSort, StrSort)(p, r)
            return r
        if isinstance(v, StrMap):
            t = repr(sorted(v.table.items()))
            return self.uf('map' + t, StrSort, StrSort)(self.strterm(v.base))
        raise Unsupported('strterm %r' % (v,))

    def is_str(self, v):
        return isinstance(v, (str, StrCat, StrJoin, StrMap)) or (isinstance(v, Sym) and v.t.kind == 'str')

    def eq(self, a, b):
        """value of a == b: python bool or z3 Bool"""
        a, b = self.res(a), self.res(b)
        prim = (bool, int, str, float, type(None))
        if isinstance(a, prim) and isinstance(b, prim):
            return a == b
        if a is b and not isinstance(a, (ObjV,)):
            return True
        if isinstance(a, HashV) or isinstance(b, HashV):
            if isinstance(a, HashV) and isinstance(b, HashV):
                return self.ident_tuple(a.value, b.value)
            raise Unsupported('comparing a hash')
        if isinstance(a, ObjV) or isinstance(b, ObjV):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, ObjV):
                    f = self.class_attr(x, '__eq__')
                    if f is not None:
                        r = self.res(self.call(Bound(f, x), [y]))
                        if r is NotImplemented:
                            continue
                        return self.truth(r)
            return self.ident(a, b)
        if isinstance(a, Sym) and a.t.kind == 'cls' or isinstance(b, Sym) and b.t.kind == 'cls':
            return self.same_class(a, b)
        if isinstance(a, Sym) and a.t.kind == 'any' or isinstance(b, Sym) and b.t.kind == 'any':
            return self.box(a) == self.box(b)
        if self.is_str(a) and self.is_str(b):
            return self.str_eq(a, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            ka, kb = self.kind_of(a), self.kind_of(b)
            if {ka, kb} <= {'int', 'bool'}:
                if ka == kb:
                    return self.term(a) == self.term(b)
                ea, eb = self.num(a), self.num(b)
                return ea == eb
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            cs = [self.eq(x, y) for x, y in zip(a, b)]
            if any(c is False for c in cs):
                return False
            c = conj(cs)
            return True if c is True else c
        if isinstance(a, ListV) and isinstance(b, ListV):
            if a.kind != b.kind:
                return False
            return self.list_eq(a, b)
        if type(a) != type(b):
            return False
        return self.ident(a, b)

    def str_eq(self, a, b):
        pa = a.parts if isinstance(a, StrCat) else [a]
        pb = b.parts if isinstance(b, StrCat) else [b]
        if len(pa) == len(pb) and len(pa) > 1:
            # sufficient condition only when separators are equal literals
            if all((not isinstance(x, str) and not isinstance(y, str)) or x == y for x, y in zip(pa, pb)):
                cs = [self.str_eq(x, y) for x, y in zip(pa, pb) if not isinstance(x, str)]
                if all(c is True for c in cs):
                    return True
        if isinstance(a, StrMap) and isinstance(b, StrMap):
            if a.table == b.table:
                return self.str_eq(a.base, b.base)
        if isinstance(a, StrJoin) or isinstance(b, StrJoin):
            raise Unsupported('comparing joined strings')
        return self.strterm(a) == self.strterm(b)

    def same_class(self, a, b):
        """equality of two classes, at least one of them the class of an object not known exactly"""
        ts = []
        for x in (a, b):
            if isinstance(x, Sym) and x.t.kind == 'cls':
                ts.append(x.e)
            elif isinstance(x, ClsV) and x.native is None:
                ts.append(z3.IntVal(x.id))
            elif isinstance(x, ClsV):
                return False        # the classes of symbolic objects are those of the program
            else:
                raise Unsupported('comparing a class with %r' % (x,))
        return ts[0] == ts[1]

    def ident_tuple(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            cs = [zb(self.ident_tuple(x, y)) for x, y in zip(a, b)]
            return conj(cs)
        if isinstance(a, ListV) and isinstance(b, ListV):
            return self.list_eq(a, b)
        return self.eq(a, b)

    def kind_of(self, v):
        if isinstance(v, bool):
            return 'bool'
        if isinstance(v, int):
            return 'int'
        if isinstance(v, Sym):
            return v.t.kind
        return type(v).__name__

    def term(self, v):
        v = self.res(v)
        if isinstance(v, Sym):
            return v.e
        if isinstance(v, bool):
            return zb(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, str) or isinstance(v, (StrCat, StrMap)):
            return self.strterm(v)
        if isinstance(v, ObjV):
            return v.ref
        if isinstance(v, ListV) and v.ref is not None:
            return v.ref
        raise Unsupported('no term for %r' % (v,))

    def num(self, v):
        v = self.res(v)
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, Sym):
            if v.t.kind == 'int':
                return v.e
            if v.t.kind == 'bool':
                return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported('not a number: %r' % (v,))

    def list_eq(self, a, b):
        if a is b:
            return True
        if a.ref is not None and b.ref is not None and a.et == b.et:
            pass
        ca, cb = self.concrete(a.parts), self.concrete(b.parts)
        if ca is not None and cb is not None:
            if len(ca) != len(cb):
                return False
            return self.eq(tuple(ca), tuple(cb))
        la, lb = self.length(a.parts), self.length(b.parts)
        k = self.index()
        with self.loopctx(k, la):
            body = self.sub_truth(lambda: self.mkbool(self.eq(self.at(a.parts, k), self.at(b.parts, k))))
        return z3.And(la == lb, self.forall([k], z3.Implies(z3.And(k >= 0, k < la), body)))

    def mkbool(self, c):
        return c if isinstance(c, bool) else Sym(BOOL, c)

    def ident(self, a, b):
        """a is b"""
        a, b = self.res(a), self.res(b)
        if a is b:
            return True
        if isinstance(a, ObjV) and isinstance(b, ObjV):
            if a.fresh and b.fresh and not (a.idx or b.idx):
                return False
            if a.fresh != b.fresh and not self.havoced:
                return False
            return a.ref == b.ref
        if isinstance(a, Sym) and a.t.kind == 'cls' or isinstance(b, Sym) and b.t.kind == 'cls':
            return self.same_class(a, b)
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.t.kind == b.t.kind:
                return a.e == b.e
        if isinstance(a, Sym) and a.t.kind == 'any' or isinstance(b, Sym) and b.t.kind == 'any':
            try:
                return self.box(a) == self.box(b)
            except Unsupported:
                return False
        prim = (bool, int, str, float, type(None))
        if isinstance(a, prim) and isinstance(b, prim):
            return type(a) == type(b) and a == b
        if isinstance(a, Sym) and isinstance(b, prim) or isinstance(b, Sym) and isinstance(a, prim):
            if a is None or b is None:
                return False
            return self.eq(a, b)
        if isinstance(a, ListV) and isinstance(b, ListV) and a.ref is not None and b.ref is not None:
            return a.ref == b.ref
        return False

    havoced = False

    # ---------------------------------------------------------- sequences

    def concrete(self, parts):
        """python list of the values if their number is known"""
        out = []
        for p in parts:
            if isinstance(p, Item) and p.guard is True:
                out.append(p.value)
            else:
                return None
        return out

    def length(self, parts):
        """z3 Int"""
        total = z3.IntVal(0)
        for p in parts:
            if isinstance(p, Item):
                if p.guard is True:
                    total = total + 1
                else:
                    total = total + z3.If(p.guard, 1, 0)
            elif isinstance(p, For) and not p.dedup and all(isinstance(q, Item) and q.guard is True for q in p.parts):
                total = total + p.n * len(p.parts)
            elif isinstance(p, For) and p.count is not None:
                total = total + p.count(p.n)
            else:
                raise Unsupported('length of a filtered sequence')
        return z3.simplify(total)

    def at(self, parts, i):
        """value at index i (z3 Int or python int >= 0), assumed in range"""
        i = z3.IntVal(i) if isinstance(i, int) else i
        base = z3.IntVal(0)
        live = [p for p in parts]
        for n, p in enumerate(live):
            last = n == len(live) - 1
            if isinstance(p, Item):
                if p.guard is not True:
                    if self.branch(p.guard):
                        if last or self.branch(i == base):
                            return self.res(p.value)
                        base = base + 1
                    continue
                if last or self.branch(i == base):
                    return self.res(p.value)
                base = base + 1
            elif isinstance(p, For):
                if p.dedup or not all(isinstance(q, Item) and q.guard is True for q in p.parts) or len(p.parts) != 1:
                    raise Unsupported('index into a filtered sequence')
                if last or self.branch(i < base + p.n):
                    v = self.subst(p.parts[0].value, p.k, z3.simplify(i - base))
                    v = self.res(v)
                    self.type_facts(v)
                    return v
                base = z3.simplify(base + p.n)
            else:
                raise Unsupported('index into %r' % (p,))
        if not self.valid(False):
            raise Unsupported('index into an empty sequence')
        raise PathEnd()

    def unordered(self, v):
        """a set that was computed is held in the order of its making, with repetitions"""
        if not isinstance(v, ListV):
            return False
        if v.bag:
            return True
        if not isinstance(v, SetV) or v.ref is not None or not v.parts:
            return False
        return len(v.parts) > 1 or not (isinstance(v.parts[0], Item) or getattr(v.parts[0], 'memset', None) is not None)

    def parts_of(self, v, bag=False):
        """parts of an iterable value (bag: neither order nor repetition matters to the caller)"""
        v = self.res(v)
        if not bag and self.unordered(v):
            raise Unsupported('the order of a set')
        if isinstance(v, ListV):
            self.check_accum(v)
            for p in v.parts:
                ms = getattr(p, 'memset', None)
                if ms is not None:
                    # iteration yields exactly the members
                    ref, et = ms
                    x = z3.Const('x!mem', et.sort)
                    j = z3.Int('j!mem')
                    el = self.uf('el_' + tname(et), IntSort, IntSort, et.sort)
                    self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < p.n), self.mem(ref, et, el(ref, j)))))
                    self.assume(z3.ForAll([x], z3.Implies(self.mem(ref, et, x), z3.Exists(
                        [j], z3.And(j >= 0, j < p.n, el(ref, j) == x)))))
            return list(v.parts)
        if isinstance(v, tuple):
            return [Item(x) for x in v]
        if isinstance(v, str):
            return [Item(x) for x in v]
        if isinstance(v, DictV):
            self.check_accum(v)
            return self.dict_keys(v)
        if isinstance(v, ObjV):
            f = self.class_attr(v, '__iter__')
            if f is not None:
                return self.parts_of(self.call(Bound(f, v), []))
            self.throw('TypeError', 'not iterable')
        if v is None or isinstance(v, (int, bool, ClsV, FuncV)):
            self.throw('TypeError', 'not iterable')
        raise Unsupported('iterating %r' % (v,))

    def dict_keys(self, d):
        if d.base is not None:
            return d.base.keys(self) + [Item(x) for x in self.new_keys(d)]
        if d.groups:
            if d.parts:
                raise Unsupported('keys of a mixed dict')
            return [map_part(p, lambda v: v[0], dedup=True) for p in d.groups]
        cs = self.concrete(d.parts)
        if cs is not None:
            out = []
            for k, v in cs:
                if not any(self.branch(self.eq(k, x)) for x in out):
                    out.append(k)
            return [Item(x) for x in out]
        return [map_part(p, lambda v: v[0], dedup=True) for p in d.parts]

    def new_keys(self, d):
        """keys added to a dict of unknown content"""
        if d.groups or self.concrete(d.parts) is None:
            raise Unsupported('keys of a mixed dict')
        out = []
        for k, v in self.concrete(d.parts):
            if not self.branch(d.base.has(self, k)) and not any(self.branch(self.eq(k, x)) for x in out):
                out.append(k)
        return out

    def dict_items(self, d):
        if d.base is not None:
            if d.parts or d.groups:
                raise Unsupported('items of a changed dict')
            return d.base.items(self)
        if d.groups:
            raise Unsupported('items of a grouping dict')
        cs = self.concrete(d.parts)
        if cs is None:
            raise Unsupported('items of a symbolic dict')
        return [Item((k, self.dict_get(d, k))) for k in [p.value for p in self.dict_keys(d)]]

    def check_accum(self, v):
        if id(v) in self.accum:
            raise CarriedRead(('acc', v))

    # ---------------------------------------------------------- mutation

    def list_append(self, l, value):
        self.mutate_parts(l, l.parts + [Item(value)], 'append', (value,))

    def list_extend(self, l, parts):
        self.mutate_parts(l, l.parts + list(parts), 'extend', (list(parts),))

    def mutate_parts(self, l, parts, op, data):
        old = l.parts

        def undo():
            l.parts = old
        self.log(op, l, data, undo)
        l.parts = parts
        if l.ref is not None and op in ('append', 'extend', 'set', 'pop', 'reorder'):
            pass

    def dict_set(self, d, key, value):
        old = d.parts

        def undo():
            d.parts = old
        self.log('dset', d, (key, value), undo)
        d.parts = d.parts + [Item((key, value))]

    def dict_group(self, d, key, value):
        if d.frozen:
            raise Unsupported('change of a copied grouping dict')
        old = d.groups

        def undo():
            d.groups = old
        self.log('gappend', d, (key, value), undo)
        d.groups = d.groups + [Item((key, value))]

    def dict_has(self, d, key):
        if id(d) in self.accum:
            return self.dup_test(d, key)
        terms = []
        if d.base is not None:
            terms.append(d.base.has(self, key))
        terms.append(self.exists_in(d.parts, lambda kv: self.mkbool(self.eq(kv[0], key))))
        if d.groups:
            terms.append(self.exists_in(d.groups, lambda kv: self.mkbool(self.eq(kv[0], key))))
        return disj([zb(t) for t in terms])

    def dict_get(self, d, key, missing=NotImpl):
        """d[key]"""
        self.check_accum(d)
        if isinstance(key, HashV):
            raise Unsupported('hash as key')
        for n in range(len(d.parts) - 1, -1, -1):
            p = d.parts[n]
            if isinstance(p, Item):
                if p.guard is not True and not self.branch(p.guard):
                    continue
                if self.branch(self.eq(p.value[0], key)):
                    return self.res(p.value[1])
            elif isinstance(p, For):
                v = self.find_last(p, lambda kv: self.mkbool(self.eq(kv[0], key)), first=p.dedup)
                if v is not None:
                    return self.res(v[1])
            else:
                raise Unsupported('dict part')
        if d.base is not None:
            return d.base.get(self, key, missing)
        if d.groups or (d.default is not None and d.groups is not None and getattr(d, 'grouping', False)):
            parts = []
            for p in d.groups:
                parts.append(self.filter_part(p, lambda kv: self.mkbool(self.eq(kv[0], key)), lambda kv: kv[1]))
            has = self.exists_in(d.groups, lambda kv: self.mkbool(self.eq(kv[0], key)))
            if d.default is None:
                if not self.branch(has):
                    if missing is not NotImpl:
                        return missing
                    self.throw('KeyError', key)
            else:
                if missing is not NotImpl and not self.branch(has):
                    return missing
            return self.new_list(parts)
        if missing is not NotImpl:
            return missing
        if d.default is not None:
            v = self.call(d.default, [])
            self.dict_set(d, key, v)
            return v
        self.throw('KeyError', key)

    def dict_get_or(self, d, key, default):
        if d.base is None and not d.groups and self.concrete(d.parts) is not None:
            for p in reversed(d.parts):
                if self.branch(self.eq(p.value[0], key)):
                    return self.res(p.value[1])
            self.check_accum(d)
            return default
        self.check_accum(d)
        return self.dict_get(d, key, missing=default)

    def filter_part(self, p, pred, proj):
        if isinstance(p, Item):
            def thunk():
                if p.guard is not True:
                    self.add(p.guard)
                return pred(p.value)
            c = self.sub_truth(thunk)
            return Item(proj(p.value), True if z3.is_true(z3.simplify(c)) else c)
        k = self.index()
        inner = self.inst_parts(p.parts, p.k, k)
        with self.loopctx(k, p.n):
            parts = [self.filter_part(q, pred, proj) for q in inner]
        return For(k, p.n, parts)

    def find_last(self, p, pred, first=False):
        """value of the last (first) element of For p satisfying pred, or None"""
        if len(p.parts) != 1 or not isinstance(p.parts[0], Item):
            raise Unsupported('lookup in nested sequence')
        k = self.index()
        it = self.inst_parts(p.parts, p.k, k)[0]
        with self.loopctx(k, p.n):
            def thunk():
                if it.guard is not True:
                    self.add(it.guard)
                return pred(it.value)
            hit = self.sub_truth(thunk)
        rng = z3.And(k >= 0, k < p.n)
        if not self.branch(self.exists([k], z3.And(rng, hit))):
            return None
        s = self.const('at', IntSort)
        j = self.index()
        order = j < s if first else j > s
        self.assume(z3.And(s >= 0, s < p.n, z3.substitute(hit, (k, s))))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < p.n, order), z3.Not(z3.substitute(hit, (k, j))))))
        v = self.subst(it.value, k, s)
        self.type_facts(v)
        return v

    def dup_test(self, acc, x):
        d = self.const('dup', BoolSort)
        self.log('duptest', acc, (x, d), lambda: None)
        return d

    # ----------------------------------------------------------- classes

    def class_attr(self, o, name):
        """attribute found in the class of o; forks if it depends on it"""
        self.found = True
        if isinstance(o, ObjV):
            if self.dispatch and not o.fresh and name in self.dispatch:
                for root, v in self.dispatch[name]:
                    mine = [c for c in ((o.cls,) if o.cls is not None else o.cands) if c.subclass_of(root)]
                    if mine and (o.cls is not None or len(mine) == len(o.cands) or
                                 self.branch(z3.Or(*[self.cls_tag(o.ref) == c.id for c in mine]))):
                        return v
            if o.cls is not None:
                v, c = o.cls.lookup(name)
                self.found = c is not None
                return v
            return self.class_attr_multi(o, name)
        self.found = False
        return None

    def class_attr_multi(self, o, name):
        groups = []
        for c in o.cands:
            v, owner = c.lookup(name)
            fv = v.fget if isinstance(v, PropV) else v
            con = self.contracts.get(fv.qualname) if isinstance(fv, FuncV) else None
            for g in groups:
                if g[0] is v and g[3] == (owner is not None) or con is not None and con is g[2]:
                    g[1].append(c)
                    break
            else:
                groups.append((v, [c], con, owner is not None))
        for v, cs, con, found in groups[:-1]:
            if self.branch(z3.Or(*[self.cls_tag(o.ref) == c.id for c in cs])):
                self.found = found
                return v
        v, cs, con, found = groups[-1]
        if len(groups) > 1:
            self.add(z3.Or(*[self.cls_tag(o.ref) == c.id for c in cs]), 't')
        self.found = found
        return v

    def isinstance_(self, v, cls):
        v = self.res(v)
        if isinstance(cls, tuple):
            rs = [self.isinstance_(v, c) for c in cls]
            if any(r is True for r in rs):
                return True
            rs = [r for r in rs if r is not False]
            return disj(rs) if rs else False
        if isinstance(cls, ClsV):
            if cls.native is not None:
                return self.native_isinstance(v, cls)
            if isinstance(v, ObjV):
                if v.cls is not None:
                    return v.cls.subclass_of(cls)
                yes = [c for c in v.cands if c.subclass_of(cls)]
                if not yes:
                    return False
                if len(yes) == len(v.cands):
                    return True
                return z3.Or(*[self.cls_tag(v.ref) == c.id for c in yes])
            if isinstance(v, Sym) and v.t.kind == 'any':
                return self.uf('isinstance_' + cls.qualname, ValSort, BoolSort)(v.e)
            if hasattr(v, 'isinstance_model'):
                return v.isinstance_model(self, cls)
            return False
        raise Unsupported('isinstance with %r' % (cls,))

    def native_isinstance(self, v, cls):
        t = cls.native
        k = self.kind_of(v)
        if t is object:
            return True
        if isinstance(v, Sym) and v.t.kind == 'any':
            return self.uf('isinstance_' + cls.name, ValSort, BoolSort)(v.e)
        if isinstance(v, ExcV):
            return issubclass(v.cls, t) if isinstance(t, type) else False
        if t is bool:
            return k == 'bool'
        if t is int:
            return k in ('int', 'bool')
        if t is str:
            return self.is_str(v)
        if t is float:
            return isinstance(v, float)
        if t is tuple:
            return isinstance(v, tuple)
        if t is list:
            return isinstance(v, ListV) and v.kind == 'list'
        if t in (set, frozenset):
            return isinstance(v, ListV) and v.kind == 'set'
        if t is dict:
            return isinstance(v, DictV)
        if t is type:
            return isinstance(v, ClsV)
        if isinstance(v, ObjV) and v.cls is not None:
            return v.cls.subclass_of(cls)
        return False

    def type_of(self, v):
        v = self.res(v)
        if isinstance(v, ObjV):
            if v.cls is not None:
                return v.cls
            return Sym(T('cls'), self.cls_tag(v.ref))
        if isinstance(v, ClsV):
            return self.w.builtins['type']
        names = [(bool, 'bool'), (int, 'int'), (str, 'str'), (float, 'float'), (tuple, 'tuple')]
        for t, n in names:
            if isinstance(v, t):
                return self.w.builtins[n]
        if isinstance(v, Sym) and v.t.kind in ('bool', 'int', 'str'):
            return self.w.builtins[v.t.kind]
        if self.is_str(v):
            return self.w.builtins['str']
        if isinstance(v, DictV):
            return self.w.builtins['dict']
        if isinstance(v, ListV):
            return self.w.builtins[{'list': 'list', 'set': 'set', 'gen': 'object'}[v.kind]]
        if v is None:
            return self.w.builtins['NoneType']
        return self.w.builtins['object']

    # --------------------------------------------------------- attributes

    def alt(self, cond, a, b):
        return Alt(zb(cond), a, b)

    def no_attribute(self, o, name):
        if not self.depth:
            # asked by a specification, not by the program
            raise Unsupported('%r has no attribute %s' % (o, name))
        if self.has_builtin(o, name):
            raise Unsupported('attribute %s of %r' % (name, o))
        self.throw('AttributeError', name)

    def has_builtin(self, o, name):
        """may a value of this kind have an attribute that is not modelled?"""
        if isinstance(o, ClsV):
            return hasattr(type, name)
        if isinstance(o, ObjV):
            return hasattr(object, name)
        if isinstance(o, PyFn):
            return True
        if isinstance(o, (FuncV, Bound)):
            return hasattr(Bound.__init__, name)
        if isinstance(o, ModuleV):
            return False
        if isinstance(o, NativeMod):
            try:
                return hasattr(importlib.import_module(getattr(o, 'name', '')), name)
            except (ImportError, ValueError):
                return True
        if o is None or isinstance(o, (bool, int)) or isinstance(o, Sym) and o.t.kind in ('int', 'bool'):
            return hasattr(o if o is None else 1, name)
        return name in BUILTIN

    def getattr(self, o, name, default=NotImpl):
        o = self.res(o)
        if isinstance(o, ObjV):
            ca = self.class_attr(o, name)
            found = self.found
            if isinstance(ca, PropV):
                return self.res(self.call(ca.fget, [o]))
            ok, v = self.get_field(o, name)
            if ok:
                return v
            if found:
                return self.bind(ca, o)
            if name == '__class__':
                return self.type_of(o)
            if name == '__dict__':
                raise Unsupported('__dict__')
            ga = self.class_attr(o, '__getattr__')
            if ga is not None:
                return self.call(Bound(ga, o), [name])
            if not o.fresh and self.assigns(o, name):
                raise Unsupported('attribute %s of %r has no declared type' % (name, o))
            if default is not NotImpl:
                return default
            self.no_attribute(o, name)
        if isinstance(o, ClsV):
            v, c = o.lookup(name)
            if c is not None:
                if isinstance(v, ClassMethodV):
                    return Bound(v.fn, o)
                if isinstance(v, StaticV):
                    return v.fn
                return v
            if name == '__name__':
                return o.name
            if name == '__mro__':
                return tuple(o.mro)
            if name == 'mro':
                return PyFn('mro', lambda e, a, k: e.call(e.w.builtins['list'], [tuple(o.mro)]))
            if hasattr(type, name) and name not in ('__module__', '__doc__'):
                raise Unsupported('attribute %s of a class' % name)
            if name == '__module__':
                return o.module.name if o.module else 'builtins'
            if name == '__doc__':
                return None
            if default is not NotImpl:
                return default
            self.no_attribute(o, name)
        if isinstance(o, (ModuleV, NativeMod)):
            if name in o.ns:
                return modelled(o.ns[name])
            sub = getattr(o, 'name', '') + '.' + name
            if isinstance(o, ModuleV):
                try:
                    return self.load_module(sub)
                except FileNotFoundError:
                    pass
            if default is not NotImpl:
                return default
            self.no_attribute(o, name)
        if isinstance(o, SuperV):
            mro = o.obj.cls.mro if isinstance(o.obj, ObjV) and o.obj.cls else None
            if mro is None:
                if isinstance(o.obj, ObjV):
                    mro = self.mro_after(o.obj, o.cls, name)
                elif isinstance(o.obj, ClsV):
                    mro = o.obj.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns:
                    v = modelled(c.ns[name])
                    if isinstance(v, PropV):
                        return self.call(v.fget, [o.obj])
                    return self.bind(v, o.obj)
            self.no_attribute(o, name)
        if isinstance(o, (FuncV, PyFn)):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                if isinstance(o, PyFn) and isinstance(o.fn, tuple):
                    return Sym(STR, self.uf('fn_name', IntSort, StrSort)(o.fn[1]))
                return o.name
            if default is not NotImpl:
                return default
            self.no_attribute(o, name)
        if isinstance(o, Sym) and o.t.kind == 'cls' and name in ('__name__', '__module__', '__qualname__'):
            return Sym(STR, self.uf('cls' + name, IntSort, StrSort)(o.e))
        if isinstance(o, Bound) and name == '__func__':
            return o.fn
        if isinstance(o, Bound) and name == '__name__':
            return o.fn.name
        m = self.w.method_model(self, o, name)
        if m is not None:
            return m
        if isinstance(o, Sym) and o.t.kind == 'any':
            raise Unsupported('attribute %s of a value of unknown type' % name)
        if hasattr(o, 'program_class'):
            # what the model leaves open is read off the class of the program it stands for
            v, c = self.w.get(o.program_class).lookup(name)
            if isinstance(v, PropV):
                return self.res(self.call(v.fget, [o]))
            if isinstance(v, (FuncV, StaticV, ClassMethodV)):
                return self.bind(v, o)
        if hasattr(o, 'method_model') or hasattr(o, 'getattr_model'):
            raise Unsupported('attribute %s of %s' % (name, type(o).__name__))
        if default is not NotImpl:
            return default
        self.no_attribute(o, name)

    def assigns(self, o, name):
        """do the classes of o assign self.name somewhere?"""
        for c in ([o.cls] if o.cls else o.cands or ()):
            for m in c.mro:
                for f in m.ns.values():
                    f = f.fget if isinstance(f, PropV) else f
                    if isinstance(f, FuncV) and not isinstance(f.node, ast.Lambda):
                        for x in ast.walk(f.node):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == name:
                                return True
        return False

    def mro_after(self, o, cls, name):
        """super() on an object of unknown class: fork on its class"""
        cs = [c for c in o.cands if c.subclass_of(cls)]
        for c in cs[:-1]:
            if self.branch(self.cls_tag(o.ref) == c.id):
                return c.mro
        return cs[-1].mro

    def bind(self, v, o):
        if isinstance(v, FuncV) or isinstance(v, PyFn) and v.bind:
            return Bound(v, o)
        if isinstance(v, ClassMethodV):
            return Bound(v.fn, self.type_of(o))
        if isinstance(v, StaticV):
            return v.fn
        return v

    def setattr(self, o, name, value):
        o = self.res(o)
        if isinstance(o, ObjV):
            self.set_field(o, name, value)
            return
        if isinstance(o, ClsV):
            old = o.ns.get(name, NotImpl)

            def undo():
                if old is NotImpl:
                    o.ns.pop(name, None)
                else:
                    o.ns[name] = old
            self.log('cls', o, (name, value), undo)
            o.ns[name] = value
            return
        if isinstance(o, FuncV):
            if id(o) in self.w.shared and not self.w.loading:
                raise Unsupported('a call changes an attribute of a function')
            o.attrs[name] = value
            return
        raise Unsupported('setattr on %r' % (o,))

    # --------------------------------------------------------------- call

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        f = self.res(f)
        args = list(args)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + args, kwargs)
        if isinstance(f, PyFn):
            if isinstance(f.fn, tuple):
                return self.call_symbolic(f, args)
            if any(isinstance(x, StarV) for x in args):
                raise Unsupported('*args of unknown length')
            return f.fn(self, args, kwargs)
        if isinstance(f, FuncV):
            c = self.contracts.get(f.qualname)
            if c is not None and self.bypass != f.qualname:
                return c(self, args, kwargs)
            if self.bypass == f.qualname:
                self.bypass = None
            return self.call_func(f, args, kwargs)
        if isinstance(f, ClsV):
            c = self.contracts.get(f.qualname)
            if c is not None:
                return c(self, args, kwargs)
            begin = self.stamp
            try:
                return self.instantiate(f, args, kwargs)
            finally:
                if not self.depth:
                    self.calls.append((begin, self.stamp))
        if isinstance(f, ObjV):
            m = self.class_attr(f, '__call__')
            if m is not None:
                return self.call(self.bind(m, f), args, kwargs)
            self.throw('TypeError', 'not callable')
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcV(f, tuple(args))
        if isinstance(f, StaticV):
            return self.call(f.fn, args, kwargs)
        if hasattr(f, 'call_model'):
            return f.call_model(self, args, kwargs)
        if f is None or isinstance(f, (int, str, tuple, ListV, DictV)):
            self.throw('TypeError', 'not callable')
        raise Unsupported('calling %r' % (f,))

    def call_symbolic(self, f, args):
        """unknown pure function: uninterpreted, value -> value"""
        e = self.uf('apply%d' % len(args), *([IntSort] + [ValSort] * (len(args) + 1)))(
            f.fn[1], *[self.box(a) for a in args])
        return Sym(ANY, e)

    def body_call(self, f, args, kwargs=None):
        """call the real body even if f has a contract (verification entry)"""
        fn, a = f, list(args)
        if isinstance(fn, Bound):
            a = [fn.self_] + a
            fn = fn.fn
        self.bypass = fn.qualname if fn.qualname in self.contracts else None
        return self.res(self.call(fn, a, kwargs))

    def instantiate(self, cls, args, kwargs):
        if cls.native is not None:
            return cls.construct(self, args, kwargs)
        for m in cls.mro:
            if m.native is not None and m.native is not object:
                if getattr(m, 'construct_sub', None):
                    return m.construct_sub(self, cls, args, kwargs)
        o = self.new_obj(cls)
        init, owner = cls.lookup('__init__')
        if init is not None:
            self.call(Bound(init, o), args, kwargs)
        elif args or kwargs:
            self.throw('TypeError', 'takes no arguments')
        return o

    def call_func(self, f, args, kwargs):
        self.depth += 1
        if self.depth > self.MAX_DEPTH:
            self.depth = 0
            raise Unsupported('recursion through %s without a contract' % f.qualname)
        self.inlined.add(f.qualname)
        depth = self.depth
        begin = self.stamp
        try:
            scope = Scope(f.scope, f.module, f, self.new_stamp())
            scope.idx = tuple(self.loopidx)
            try:
                self.bind_args(f, scope, args, kwargs)
            except PyRaise:
                if depth == 1:
                    # the call of a specification, not of the program
                    raise Unsupported('%s takes other arguments' % f.qualname)
                raise
            node = f.node
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, scope)
            if f.isgen is None:
                f.isgen = is_generator(node)
            if f.isgen:
                scope.yields = self.new_list(kind=GenV)
                try:
                    self.ex(node.body, scope)
                except ReturnX:
                    pass
                return scope.yields
            try:
                self.ex(node.body, scope)
            except ReturnX as r:
                return r.value
            return None
        finally:
            self.depth = depth - 1
            if depth == 1:
                self.calls.append((begin, self.stamp))

    def bind_args(self, f, scope, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = dict()
        star = [i for i, x in enumerate(args) if isinstance(x, StarV)]
        if star:
            if star[0] < len(names) or not a.vararg:
                raise Unsupported('*args of unknown length')
            from .models import TupleV
            rest = []
            for x in args[len(names):]:
                rest.extend(x.parts if isinstance(x, StarV) else [Item(x)])
            scope.vars[a.vararg.arg] = self.new_list(rest, TupleV)
            args = args[:len(names)]
        elif len(args) > len(names):
            if not a.vararg:
                self.throw('TypeError', 'too many arguments')
            scope.vars[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg:
            scope.vars[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vals[n] = v
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        if '**' in kwargs:
            if not a.kwarg or len(kwargs) > 1:
                raise Unsupported('**kwargs')
            scope.vars[a.kwarg.arg] = kwargs['**']
            kwargs = {}
        for n, v in kwargs.items():
            if n in names or n in kwonly:
                if n in vals:
                    self.throw('TypeError', 'multiple values for ' + n)
                vals[n] = v
            elif a.kwarg:
                extra[n] = v
            else:
                self.throw('TypeError', 'unexpected argument ' + n)
        if a.kwarg and a.kwarg.arg not in scope.vars:
            d = self.new_dict()
            d.parts = [Item((k, v)) for k, v in extra.items()]
            scope.vars[a.kwarg.arg] = d
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                j = i - (len(names) - nd)
                if j < 0:
                    self.throw('TypeError', 'missing argument ' + n)
                vals[n] = f.defaults[j]
        for n in kwonly:
            if n not in vals:
                if n not in f.kwdefaults:
                    self.throw('TypeError', 'missing argument ' + n)
                vals[n] = f.kwdefaults[n]
        scope.vars.update(vals)

    # ---------------------------------------------------------- statements

    def ex(self, body, sc):
        for st in body:
            self.stmt(st, sc)

    def stmt(self, st, sc):
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        m(st, sc)

    def x_Expr(self, st, sc):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, sc)

    def x_Pass(self, st, sc):
        pass

    def x_Global(self, st, sc):
        raise Unsupported('global')

    def x_Assert(self, st, sc):
        if not self.branch(self.truth(self.ev(st.test, sc))):
            self.throw('AssertionError')

    def x_Return(self, st, sc):
        raise ReturnX(self.ev(st.value, sc) if st.value else None)

    def x_Break(self, st, sc):
        raise BreakX()

    def x_Continue(self, st, sc):
        raise ContinueX()

    def x_Raise(self, st, sc):
        if st.exc is None:
            raise Unsupported('bare raise')
        e = self.res(self.ev(st.exc, sc))
        if isinstance(e, ExcV):
            raise PyRaise(e.cls, e.args)
        if isinstance(e, ClsV) and e.native is not None:
            raise PyRaise(e.native, ())
        if isinstance(e, type):
            raise PyRaise(e, ())
        if isinstance(e, ClsV):
            raise PyRaise(e, ())
        if isinstance(e, ObjV) and e.cls:
            raise PyRaise(e.cls, ())
        self.throw('TypeError', 'exceptions must derive from BaseException')

    def x_Try(self, st, sc):
        try:
            self.ex(st.body, sc)
        except PyRaise as e:
            for h in st.handlers:
                if h.type is None:
                    match = True
                else:
                    t = self.res(self.ev(h.type, sc))
                    ts = t if isinstance(t, tuple) else (t,)
                    match = False
                    for x in ts:
                        n = x.native if isinstance(x, ClsV) and x.native else x
                        if isinstance(n, type) and isinstance(e.exc, type):
                            match = match or issubclass(e.exc, n)
                        elif isinstance(e.exc, ClsV) and isinstance(x, ClsV):
                            match = match or e.exc.subclass_of(x)
                if match:
                    if h.name:
                        self.set_var(sc, h.name, ExcV(e.exc, tuple(e.eargs)))
                    self.ex(h.body, sc)
                    break
            else:
                self.ex(st.finalbody, sc)
                raise
        else:
            self.ex(st.orelse, sc)
        self.ex(st.finalbody, sc)

    def x_If(self, st, sc):
        if self.branch(self.truth(self.ev(st.test, sc))):
            self.ex(st.body, sc)
        else:
            self.ex(st.orelse, sc)

    def x_Assign(self, st, sc):
        v = self.ev(st.value, sc)
        for t in st.targets:
            self.assign(t, v, sc)

    def x_AnnAssign(self, st, sc):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, sc), sc)

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.set_var(sc, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = self.parts_of(v)
            vals = self.concrete(parts)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported('starred assignment')
            if vals is None:
                n = self.length(parts)
                if not self.branch(n == len(t.elts)):
                    self.throw('ValueError', 'unpack')
                vals = [self.at(parts, i) for i in range(len(t.elts))]
            if len(vals) != len(t.elts):
                self.throw('ValueError', 'unpack')
            for x, y in zip(t.elts, vals):
                self.assign(x, y, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, sc), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.res(self.ev(t.value, sc)), self.ev(t.slice, sc), v)
        else:
            raise Unsupported('assignment target')

    def x_AugAssign(self, st, sc):
        t = st.target
        load = ast.copy_location(type(t)(**{f: getattr(t, f) for f in t._fields}), t)
        load.ctx = ast.Load()
        if isinstance(t, ast.Name):
            cur = self.ev(load, sc)
            new = self.binop(st.op, cur, self.ev(st.value, sc), inplace=True)
            self.set_var(sc, t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.res(self.ev(t.value, sc))
            cur = self.getattr(o, t.attr)
            new = self.binop(st.op, cur, self.ev(st.value, sc), inplace=True)
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.res(self.ev(t.value, sc))
            i = self.ev(t.slice, sc)
            cur = self.getitem(o, i)
            new = self.binop(st.op, cur, self.ev(st.value, sc), inplace=True)
            self.setitem(o, i, new)
        else:
            raise Unsupported('augmented assignment')

    def x_Delete(self, st, sc):
        for t in st.targets:
            if isinstance(t, ast.Name):
                old = sc.vars.pop(t.id)
                self.log('env', sc, (t.id, NotImpl, old), lambda: sc.vars.__setitem__(t.id, old))
            else:
                raise Unsupported('del')

    def x_FunctionDef(self, st, sc):
        f = self.make_function(st, sc)
        for d in reversed(st.decorator_list):
            f = self.decorate(self.ev(d, sc), f)
        self.set_var(sc, st.name, f)

    def decorate(self, d, f):
        return self.res(self.call(d, [f]))

    def make_function(self, node, sc):
        name = getattr(node, 'name', '<lambda>')
        if sc.cls is not None:
            qual = sc.cls + '.' + name
        elif sc.func is not None:
            qual = sc.func.qualname + '.<locals>.' + name
        else:
            qual = sc.module.name + '.' + name
        a = node.args
        defaults = [self.ev(x, sc) for x in a.defaults]
        kwd = {x.arg: self.ev(d, sc) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        # class scopes are not visible from methods
        parent = sc
        while parent is not None and parent.cls is not None:
            parent = parent.parent
        if parent is not None and parent.func is None and parent.parent is None and parent.vars is sc.module.ns:
            parent = None
        f = FuncV(name, node, parent, sc.module, qual, defaults, kwd, sc.cls)
        if sc.func is None:
            self.w.functions[qual] = f
        return f

    def x_ClassDef(self, st, sc):
        bases = [self.res(self.ev(b, sc)) for b in st.bases]
        qual = (sc.cls or sc.module.name) + '.' + st.name
        cs = Scope(sc, sc.module, sc.func, self.new_stamp())
        cs.cls = qual
        self.define(st.body, cs)
        cls = self.make_class(st.name, bases, cs.vars, sc.module, qual)
        v = cls
        for d in reversed(st.decorator_list):
            v = self.decorate(self.ev(d, sc), v)
        self.set_var(sc, st.name, v)

    def make_class(self, name, bases, ns, module, qual):
        if not bases:
            bases = [self.w.builtins['object']]
        cls = ClsV(name, bases, ns, module, qual)
        cls.mro = c3(cls)
        if '__eq__' in ns and '__hash__' not in ns:
            ns['__hash__'] = None
        self.w.class_counter += 1
        cls.id = self.w.class_counter
        if self.w.loading:
            self.w.classes.append(cls)
        for v in ns.values():
            if isinstance(v, FuncV) and v.cls == qual:
                v.owner = cls
        return cls

    def x_Import(self, st, sc):
        for a in st.names:
            m = self.load_module(a.name)
            if a.asname:
                self.set_var(sc, a.asname, m)
            else:
                top = a.name.split('.')[0]
                self.set_var(sc, top, self.load_module(top))

    def define(self, body, sc):
        """the body of a module or a class: what is outside the subset is left out, not all of it"""
        for st in body:
            try:
                self.stmt(st, sc)
            except Unsupported as why:
                for name in bound_names(st):
                    self.set_var(sc, name, Unmodelled(str(why)))

    def x_ImportFrom(self, st, sc):
        name = st.module or ''
        if st.level:
            mod = sc.module
            pkg = mod.name.split('.')
            if not mod.is_pkg:
                pkg = pkg[:-1]
            pkg = pkg[:len(pkg) - (st.level - 1)]
            name = '.'.join(pkg + ([name] if name else []))
        try:
            m = self.load_module(name)
        except Unsupported as why:
            for a in st.names:
                self.set_var(sc, a.asname or a.name, Unmodelled(str(why)))
            return
        for a in st.names:
            if a.name == '*':
                names = m.ns.get('__all__')
                if names is not None:
                    names = self.concrete(names.parts)
                else:
                    names = [n for n in m.ns if not n.startswith('_')]
                for n in names:
                    self.set_var(sc, n, m.ns[n])
                continue
            if a.name in m.ns:
                v = m.ns[a.name]
            else:
                try:
                    v = self.load_module(name + '.' + a.name)
                except FileNotFoundError:
                    self.throw('ImportError', a.name)
                except Unsupported as why:
                    v = Unmodelled(str(why))
            self.set_var(sc, a.asname or a.name, v)

    def load_module(self, name):
        w = self.w
        if name in w.modules:
            return w.modules[name]
        if name in w.native_modules:
            return w.native_modules[name]
        path = w.path_of(name)
        if not os.path.exists(path):
            if not name.startswith('yargy'):
                raise Unsupported('import of %s' % name)
            raise FileNotFoundError(name)
        if '.' in name:
            self.load_module(name.rsplit('.', 1)[0])
        if name in w.modules:
            return w.modules[name]
        src = open(path, encoding='utf8').read()
        w.sources[name] = src
        tree = ast.parse(src, path)
        mod = ModuleV(name, {'__name__': name})
        mod.is_pkg = path.endswith('__init__.py')
        w.modules[name] = mod
        sc = Scope(None, mod)
        sc.vars = mod.ns
        was = w.loading
        w.loading = True
        self.define(tree.body, sc)
        w.loading = was
        if '.' in name:
            parent, child = name.rsplit('.', 1)
            w.modules[parent].ns.setdefault(child, mod)
        return mod

    def x_With(self, st, sc):
        raise Unsupported('with')

    # --------------------------------------------------------------- loops

    def x_For(self, st, sc):
        seq = self.res(self.ev(st.iter, sc))
        parts = None
        broke = [False]

        def body(v):
            self.assign(st.target, v, sc)
            self.ex(st.body, sc)
        try:
            self.iterate(seq, body, st, sc)
        except BreakX:
            return
        self.ex(st.orelse, sc)

    def iterate(self, seq, body, node=None, sc=None):
        """run body for each element; BreakX propagates to the caller"""
        for spec in self.loop_specs:
            if spec.matches(self, node, seq, sc):
                return spec.run(self, node, seq, sc, body)
        if isinstance(node, ast.For) and self.unordered(seq):
            return self.iterate_bag(seq, body, node, sc)
        parts = self.parts_of(seq, isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp)))
        self.iterate_parts(parts, body, node, sc, seq)

    def iterate_bag(self, seq, body, node, sc):
        """a loop over a computed set: it may only put into sets"""
        mark = len(self.logs)
        try:
            self.iterate_parts(self.parts_of(seq, True), body, node, sc, seq)
        except (BreakX, ReturnX):
            raise Unsupported('the order of a set')
        for op in self.logs[mark:]:
            if op.kind == 'env' and op.target is sc:
                sc.vars[op.data[0]] = Lost()
            elif not (op.kind in ('add', 'update') and isinstance(op.target, SetV) or
                      op.kind in ('resolve', 'poison', 'duptest', 'install')):
                raise Unsupported('the order of a set')

    def iterate_parts(self, parts, body, node, sc, seq=None):
        for p in parts:
            if isinstance(p, Item):
                if p.guard is not True and not self.branch(p.guard):
                    continue
                try:
                    body(self.res(p.value))
                except ContinueX:
                    pass
            elif isinstance(p, For):
                n = z3.simplify(p.n) if z3.is_expr(p.n) else z3.IntVal(p.n)
                if p.dedup:
                    # same values without repetition: the body must be insensitive to repetition
                    self.dedup_iter = True
                if z3.is_int_value(n) and not p.dedup:
                    for i in range(n.as_long()):
                        self.iterate_parts(self.inst_parts(p.parts, p.k, z3.IntVal(i)), body, node, sc)
                    continue
                self.summarise(p, n, body, node, sc)
            else:
                raise Unsupported('iterating %r' % (p,))

    def summarise(self, p, n, body, node, sc):
        """a loop of unknown length, generically"""
        if p.dedup:
            return self.summarise_dedup(p, n, body, node, sc)
        stamp0 = self.stamp
        hyps = {}
        written = {}
        paths = None
        for _ in range(24):
            try:
                k, paths = self.generic(p, n, body, node, sc, written, hyps)
            except CarriedRead as c:
                loc = self.canon_loc(c.loc)
                if loc in hyps:
                    raise Unsupported('loop-carried %s' % (loc_name(loc),))
                hyps[loc] = self.infer(p, n, body, node, sc, loc, written, hyps)
                continue
            new = self.written_locs(paths, stamp0)
            fresh = {l: o for l, o in new.items() if l not in written}
            if fresh:
                written.update(fresh)
                continue
            # assigned on some paths only: by a closed form, if the specification has one
            some = [l for l in written if l.kind in ('env', 'field') and l not in hyps and
                    self.folds and self.loc_value(l) is not NotImpl and
                    not isinstance(self.loc_value(l), (Deferred, Poison)) and
                    any(v is NotImpl for q, v in self.end_values(paths, l))]
            more = {l: self.closed_form(l, p, n) for l in some}
            more = {l: h for l, h in more.items() if h is not None}
            if not more:
                break
            hyps.update(more)
        else:
            raise Unsupported('loop summary did not converge')
        # verify hypotheses
        for loc, h in hyps.items():
            h.check(self, k, paths, loc)
        hits = [q for q in paths if q.kind != 'normal']
        normal = [q for q in paths if q.kind == 'normal']
        if hits:
            hit = disj([zb(q.guard) for q in hits])
            self.lift_defs(k, n, paths)
            e = self.exists([k], z3.And(k >= 0, k < n, hit))
            if self.branch(e):
                s = self.const('at', IntSort)
                j = self.index()
                self.assume(z3.And(s >= 0, s < n, z3.substitute(hit, (k, s))))
                self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < s), z3.Not(z3.substitute(hit, (k, j))))))
                self.apply_effects(k, s, normal, written, hyps, stamp0, p)
                self.iterate_parts(self.inst_parts(p.parts, p.k, s), body, node, sc)
                if not self.valid(False):
                    # the exit found at a generic index must be found again at this one
                    raise Unsupported('a loop exit that is not repeated at its own index')
                raise PathEnd()
            j = self.index()
            self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(z3.substitute(hit, (k, j))))))
            self.apply_effects(k, n, normal, written, hyps, stamp0, p)
        else:
            self.lift_defs(k, n, paths)
            self.apply_effects(k, n, normal, written, hyps, stamp0, p)

    def summarise_dedup(self, p, n, body, node, sc):
        q = For(p.k, p.n, p.parts)
        lists = self.logs
        stamp0 = self.stamp
        mark = len(self.logs)
        self.summarise(q, n, body, node, sc)
        for op in self.logs[mark:]:
            if op.kind in ('append', 'extend', 'gappend', 'gextend') and self.pre_existing(op.target, stamp0):
                self.undo_to(mark)
                return self.summarise(self.firsts(p, n), n, body, node, sc)

    def firsts(self, p, n):
        """a deduplicated sequence with the first occurrences told by a condition"""
        if len(p.parts) != 1 or not isinstance(p.parts[0], Item):
            raise Unsupported('ordered effect of a loop over a deduplicated sequence')
        k, j = self.index(), self.index()
        it, other = (self.inst_parts(p.parts, p.k, x)[0] for x in (k, j))
        before = z3.And(j >= 0, j < k, zb(other.guard), zb(self.eq(other.value, it.value)))
        return For(k, n, [Item(it.value, z3.And(zb(it.guard), z3.Not(z3.Exists([j], before))))])

    def lift_defs(self, k, n, paths):
        for q in paths:
            for d in q.defs:
                self.assume(self.forall([k], z3.Implies(z3.And(k >= 0, k < n), d)))

    def generic(self, p, n, body, node, sc, written, hyps):
        """paths of the body at a generic index k"""
        k = self.index()
        inner = self.inst_parts(p.parts, p.k, k)

        def thunk():
            for loc in written:
                if loc in hyps:
                    hyps[loc].install(self, k, loc)
                else:
                    self.poison(loc)
            for part in inner:
                if isinstance(part, Item):
                    if part.guard is not True:
                        if not self.branch(part.guard):
                            continue
                    v = self.res(part.value)
                    self.type_facts(v)
                    try:
                        body(v)
                    except ContinueX:
                        pass
                else:
                    self.iterate_parts([part], body, node, sc)
        with self.loopctx(k, n):
            paths = self.run_paths(thunk)
        return k, paths

    def canon_loc(self, loc):
        return Loc(*loc)

    def poison(self, loc):
        kind = loc.kind
        if kind == 'env':
            scope, name = loc.args
            old = scope.vars.get(name, NotImpl)

            def undo():
                if old is NotImpl:
                    scope.vars.pop(name, None)
                else:
                    scope.vars[name] = old
            self.log('poison', scope, (name,), undo)
            scope.vars[name] = Poison(('env', scope, name))
        elif kind == 'field':
            o, name = loc.args
            old = o.fields.get(name, NotImpl)

            def undo():
                if old is NotImpl:
                    o.fields.pop(name, None)
                else:
                    o.fields[name] = old
            self.log('poison', o, (name,), undo)
            o.fields[name] = Poison(('field', o, name))
        elif kind == 'acc':
            l = loc.args[0]
            was = self.accum.get(id(l), 0)

            def undo():
                if was:
                    self.accum[id(l)] = was
                else:
                    self.accum.pop(id(l), None)
            self.log('poison', l, (), undo)
            self.accum[id(l)] = was + 1

    def written_locs(self, paths, stamp):
        """locations that existed before the loop and are written in it"""
        out = {}
        for q in paths:
            for op in q.ops:
                if not self.pre_existing(op.target, stamp) or op.kind in ('poison', 'duptest', 'resolve', 'heapw', 'ghost'):
                    continue
                if getattr(op, 'hyp', False):
                    continue
                if op.kind == 'env':
                    out[Loc('env', op.target, op.data[0])] = op.target
                elif op.kind == 'field':
                    if not op.target.fresh and self.loopidx_dep(op.target.ref):
                        # pointwise update of distinct pre-state objects
                        out[Loc('pointwise', op.data[0])] = op.target
                        continue
                    out[Loc('field', op.target, op.data[0])] = op.target
                elif op.kind in ('append', 'extend', 'add', 'update', 'dset', 'gappend', 'gextend'):
                    out[Loc('acc', op.target)] = op.target
                else:
                    raise Unsupported('effect %s on a shared object in a loop' % op.kind)
        return out

    def same_data(self, u, v):
        try:
            return u is v or self.ident(u, v) is True
        except Unsupported:
            return False

    def loopidx_dep(self, ref):
        return any(str(v).startswith('k!') for v in free_consts(ref))

    def apply_effects(self, k, n, normal, written, hyps, stamp, p):
        """the state after iterations 0..n-1"""
        accs = []
        for loc in written:
            if loc.kind == 'acc':
                accs.append(loc.args[0])
        empty = {id(c) for c in accs if not (c.parts or getattr(c, 'groups', None) or getattr(c, 'base', None) is not None)}
        for acc in accs:
            items = []
            gitems = []
            dedup = untested = False
            once = len(normal) > 1
            others, grown = [], []
            for q in normal:
                conds = [z3.simplify(c) if z3.is_app_of(c, z3.Z3_OP_NOT) else c for c in q.conds]
                # membership tests of accumulators: deduplication pattern
                dups = [op for op in q.ops if op.kind == 'duptest' and (op.target is acc or self.lockstep(acc, op.target, normal, empty))]
                for op in q.ops:
                    if op.kind == 'duptest' and op not in dups:
                        # of another container: either way, this one grows alike (checked by the merging below)
                        d2 = op.data[1]
                        conds = [c for c in conds if not (c.eq(d2) or c.eq(z3.Not(d2)) or c.eq(z3.simplify(z3.Not(d2))))]
                        others.append(d2)
                dedup_q = False
                for op in dups:
                    d = op.data[1]
                    neg = [c for c in conds if c.eq(z3.Not(d)) or c.eq(z3.simplify(z3.Not(d)))]
                    pos = [c for c in conds if c.eq(d)]
                    conds = [c for c in conds if not (c in neg or c in pos)] if not (neg or pos) else \
                        [c for c in conds if not any(c.eq(x) for x in neg + pos)]
                    if any(mentions(c, d) for c in conds):
                        raise Unsupported('complex use of a membership test of a growing container: %s' % conds)
                    if neg:
                        # ops on this path must be exactly 'add the tested value'
                        dedup_q = op.data[0]
                    elif pos:
                        for o2 in q.ops:
                            if o2.target is acc and o2.kind in ('append', 'dset', 'extend', 'gappend', 'gextend'):
                                raise Unsupported('adding an already present value')
                g = conj(conds)
                mine = [op for op in q.ops if op.target is acc and op.kind not in ('poison', 'duptest', 'install')]
                grown.append((bool(neg) if dups else None, zb(g), mine, [op.data[0] for op in dups]))
                if not dups and any(op.kind in ('append', 'extend') for op in mine) and isinstance(acc, ListV) and \
                        acc.kind != 'set':
                    untested = True
                once = once and not dups and [op.kind for op in mine] in (['append'], ['dset'])
                for op in q.ops:
                    if op.target is not acc:
                        continue
                    if dups and op.kind in ('extend', 'update', 'gappend', 'gextend'):
                        raise Unsupported('several values added under a membership test')
                    if op.kind in ('append', 'add', 'dset'):
                        val = op.data[0] if op.kind != 'dset' else (op.data[0], op.data[1])
                        if dedup_q is not False:
                            tested = op.data[0]
                            c = self.eq(tested, dedup_q)
                            if c is not True and not self.valid(self.close_k(k, n, zb(c))):
                                raise Unsupported('appended value is not the tested one')
                            dedup = True
                        items.append(Item(val, g))
                    elif op.kind in ('extend', 'update'):
                        for part in op.data[0]:
                            items.append(guard_part(part, g))
                    elif op.kind == 'gappend':
                        gitems.append(Item((op.data[0], op.data[1]), g))
                    elif op.kind == 'gextend':
                        gitems.extend(guard_part(part, g) for part in op.data[0])
            if dedup and untested:
                raise Unsupported('values added with and without a membership test')
            if others:
                if any(mentions(it.guard, d2) for it in items for d2 in others if isinstance(it, Item) and z3.is_expr(it.guard)):
                    raise Unsupported('complex use of a membership test of a growing container')
                for a in range(len(grown)):
                    for b in range(a):
                        (na, ga, ma, ta), (nb, gb, mb, tb) = grown[a], grown[b]
                        if (na is None) != (nb is None) or na is not None and not (
                                len(ta) == len(tb) and all(self.same_data(u, v) for u, v in zip(ta, tb))):
                            # one makes sure of a value the other does not care about
                            if not self.valid(self.close_k(k, n, z3.Not(z3.And(ga, gb)))):
                                raise Unsupported('a container that grows depending on another')
                            continue
                        alike = len(ma) == len(mb) and all(
                            x.kind == y.kind and len(x.data) == len(y.data) and
                            all(self.same_data(u, v) for u, v in zip(x.data, y.data)) for x, y in zip(ma, mb))
                        if na == nb and not alike and not self.valid(self.close_k(k, n, z3.Not(z3.And(ga, gb)))):
                            raise Unsupported('a container that grows depending on another')
                slim = []
                for it in items:
                    if not any(isinstance(it, Item) and isinstance(x, Item) and zb(it.guard).eq(zb(x.guard)) and
                               self.ident(it.value, x.value) is True for x in slim):
                        slim.append(it)
                items = slim
            if any(isinstance(it, For) and it.dedup for it in items):
                dedup = True
            if once and items:
                # every iteration adds exactly one value: which one depends on the path
                v = items[-1].value
                for it in reversed(items[:-1]):
                    w = it.value
                    if isinstance(acc, DictV) and isinstance(v, tuple):
                        # (name, value)
                        v = (w[0] if self.ident(w[0], v[0]) is True or self.same_data(w[0], v[0]) else Alt(zb(it.guard), w[0], v[0]),
                             Alt(zb(it.guard), w[1], v[1]))
                    else:
                        v = Alt(zb(it.guard), w, v)
                items = [Item(v)]
            if items:
                f = For(k, n, items)
                f.dedup = dedup
                h = hyps.get(Loc('acc', acc))
                if h is not None:
                    f.count = h.count
                old = acc.parts

                def undo(acc=acc, old=old):
                    acc.parts = old
                kind = 'dset' if isinstance(acc, DictV) else 'update' if acc.kind == 'set' else 'extend'
                self.log(kind if not isinstance(acc, DictV) else 'extend', acc, ([f],), undo)
                acc.parts = acc.parts + [f]
            if gitems:
                f = For(k, n, gitems)
                old = acc.groups

                def undo(acc=acc, old=old):
                    acc.groups = old
                self.log('gextend', acc, ([f],), undo)
                acc.groups = acc.groups + [f]
        for loc in written:
            if loc.kind == 'env':
                scope, name = loc.args
                if loc in hyps:
                    hyps[loc].finish(self, n, loc)
                    continue
                self.set_var(scope, name, self.deferred(k, n, normal, loc, scope.vars.get(name, NotImpl)))
            elif loc.kind == 'field':
                if loc in hyps:
                    hyps[loc].finish(self, n, loc)
                    continue
                o, name = loc.args
                self.set_field(o, name, self.deferred(k, n, normal, loc, o.fields.get(name, NotImpl)))
            elif loc.kind == 'pointwise':
                name = loc.args[0]
                for q in normal:
                    for op in q.ops:
                        if op.kind == 'field' and op.data[0] == name and self.pre_existing(op.target, stamp) \
                                and not op.target.fresh and self.loopidx_dep(op.target.ref):
                            j = self.index()
                            other = z3.substitute(op.target.ref, (k, j))
                            with self.loopctx(k, n):
                                if not self.valid(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), other != op.target.ref))):
                                    raise Unsupported('a loop that may write %s of an object twice' % name)
                            hw = self.heapw
                            hw.append(('p', None, name, None))
                            self.log('pointwise', op.target, (name, k, n, q.guard, op.data[1]), lambda: hw.pop())
        # ghost effects (contract call traces)
        gnames = []
        for q in normal:
            for op in q.ops:
                if op.kind == 'ghost' and op.target not in gnames:
                    gnames.append(op.target)
        for name in gnames:
            items = []
            for q in normal:
                for op in q.ops:
                    if op.kind == 'ghost' and op.target == name:
                        for part in op.data[0]:
                            items.append(guard_part(part, q.guard))
            self.ghost_emit(name, [For(k, n, items)])

    def lockstep(self, acc, other, normal, empty):
        """both are empty before the loop and every path adds the same value to both, or none: the same membership"""
        if id(acc) not in empty or id(other) not in empty:
            return False
        for q in normal:
            vals = []
            for c in (acc, other):
                ops = [op for op in q.ops if op.target is c and op.kind not in ('poison', 'duptest', 'install')]
                if any(op.kind not in ('append', 'add', 'dset') for op in ops) or len(ops) > 1:
                    return False
                vals.append([op.data[0] for op in ops])
            if len(vals[0]) != len(vals[1]) or vals[0] and not self.same_data(vals[0][0], vals[1][0]):
                return False
        return True

    def close_k(self, k, n, c):
        return self.forall([k], z3.Implies(z3.And(k >= 0, k < n), c))

    def ghost_emit(self, name, parts):
        old = self.ghost.get(name, [])
        self.log('ghost', name, (parts,), lambda: self.ghost.__setitem__(name, old))
        self.ghost[name] = old + list(parts)

    def deferred(self, k, n, normal, loc, init):
        """value of a non-carried variable after the loop"""
        def force():
            if self.branch(n <= 0):
                if init is NotImpl:
                    self.throw('NameError', loc_name(loc))
                return self.res(init)
            last = z3.simplify(n - 1)
            for i, q in enumerate(normal):
                val = NotImpl
                for op in q.ops:
                    if loc.kind == 'env' and op.kind == 'env' and op.target is loc.args[0] and op.data[0] == loc.args[1]:
                        val = op.data[1]
                    if loc.kind == 'field' and op.kind == 'field' and op.target is loc.args[0] and op.data[0] == loc.args[1]:
                        val = op.data[1]
                if val is NotImpl:
                    raise Unsupported('value of %s after a loop' % loc_name(loc))
                g = z3.substitute(zb(q.guard), (k, last))
                if i == len(normal) - 1 or self.branch(g):
                    self.add(g, 'c')
                    v = self.subst(val, k, last)
                    self.type_facts(v)
                    return self.res(v)
            if not self.valid(False):
                raise Unsupported('value of %s after a loop' % loc_name(loc))
            raise PathEnd()
        return Deferred(loc_name(loc), force)

    # ------------------------------------------------- carried variables

    def loc_value(self, loc):
        if loc.kind == 'env':
            return loc.args[0].vars.get(loc.args[1], NotImpl)
        if loc.kind == 'field':
            return loc.args[0].fields.get(loc.args[1], NotImpl)
        return NotImpl

    def end_values(self, paths, loc):
        out = []
        for q in paths:
            if q.kind != 'normal':
                continue
            val = NotImpl
            for op in q.ops:
                if getattr(op, 'hyp', False):
                    continue
                if op.kind == loc.kind and op.target is loc.args[0] and op.data[0] == loc.args[1]:
                    val = op.data[1]
            out.append((q, val))
        return out

    def closed_form(self, loc, p, n):
        init = self.res(self.loc_value(loc))
        for fold in self.folds:
            value = fold(self, init, p, n)
            if value is not None:
                return Fold(init, value, n)
        return None

    def infer(self, p, n, body, node, sc, loc, written, hyps):
        """hypothesis for a loop-carried location: its value before iteration k"""
        if loc.kind == 'acc' and isinstance(loc.args[0], ListV):
            for fold in self.acc_folds:
                h = fold(self, loc.args[0], p, n)
                if h is not None:
                    return h
            if loc.args[0].kind == 'list':
                return OneEach()
        if loc.kind not in ('env', 'field'):
            raise Unsupported('reading %s while it grows in a loop' % (loc_name(loc),))
        init = self.loc_value(loc)
        if init is NotImpl:
            raise Unsupported('loop-carried %s has no initial value' % loc_name(loc))
        init = self.res(init)
        h = self.closed_form(loc, p, n)
        if h is not None:
            return h
        # first iteration with the initial value of loc
        k = self.index()
        inner = self.inst_parts(p.parts, p.k, k)

        def thunk():
            self.add(k == 0, 'r')
            for l in written:
                if l == loc:
                    continue
                if l in hyps:
                    hyps[l].install(self, k, l)
                elif l.kind == 'acc' or self.loc_value(l) is NotImpl:
                    self.poison(l)
            for part in inner:
                if isinstance(part, Item):
                    if part.guard is not True and not self.branch(part.guard):
                        continue
                    v = self.res(part.value)
                    self.type_facts(v)
                    try:
                        body(v)
                    except ContinueX:
                        pass
                else:
                    self.iterate_parts([part], body, node, sc)
        with self.loopctx(k, n):
            paths = self.run_paths(thunk)
        ends = self.end_values(paths, loc)
        vals = [v for q, v in ends]
        if not vals:
            return Last(init, None, None)
        if isinstance(init, (int, Sym)) and not isinstance(init, bool) and self.kind_of(init) == 'int' \
                and all(v is not NotImpl and self.kind_of(self.res(v)) == 'int' for v in vals):
            d = z3.simplify(self.num(vals[0]) - self.num(init))
            if z3.is_int_value(d):
                return Linear(init, d.as_long())
        if isinstance(init, bool) or (isinstance(init, Sym) and init.t.kind == 'bool'):
            f = self.flag_hyp(init, k, ends, loc)
            if f is not None:
                return f
        g = vals[0]
        if g is NotImpl:
            raise Unsupported('loop-carried %s' % loc_name(loc))
        if len(inner) == 1 and isinstance(inner[0], Item) and inner[0].guard is True and \
                isinstance(inner[0].value, Alt) and len(vals) > 1:
            if all(isinstance(self.res(v), ObjV) for v in vals if v is not NotImpl):
                g = inner[0].value
            elif NotImpl not in vals:
                # a guess, proved by induction like any other
                g = vals[-1]
                for q, v in reversed(ends[:-1]):
                    g = v if v is g else Alt(zb(q.guard), v, g)
        return Last(init, g, k)

    def flag_hyp(self, init, k, ends, loc):
        return None

    # --------------------------------------------------------------- while

    def x_While(self, st, sc):
        for spec in self.loop_specs:
            if spec.matches(self, st, None, sc):
                return spec.run_while(self, st, sc)
        count = 0
        while True:
            c = self.truth(self.ev(st.test, sc))
            if not isinstance(c, bool):
                c2 = z3.simplify(c)
                if not (z3.is_true(c2) or z3.is_false(c2)):
                    count += 1
                    if count > 12:
                        raise Unsupported('while loop without invariant')
                c = self.branch(c)
            else:
                count += 1
                if count > 400:
                    raise Unsupported('while loop without invariant')
            if not c:
                self.ex(st.orelse, sc)
                return
            try:
                self.ex(st.body, sc)
            except BreakX:
                return
            except ContinueX:
                continue

    # ----------------------------------------------------------- expressions

    def ev(self, e, sc):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, sc)

    def e_Constant(self, e, sc):
        if e.value is Ellipsis or isinstance(e.value, (bytes, complex)):
            raise Unsupported('constant')
        return e.value

    def e_Name(self, e, sc):
        return self.lookup(sc, e.id)

    def e_Attribute(self, e, sc):
        return self.getattr(self.ev(e.value, sc), e.attr)

    def e_Call(self, e, sc):
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            f = self.lookup(sc, 'super')
            if isinstance(f, PyFn) and not e.args:
                s = sc
                while s.func is None or s.func.cls is None:
                    s = s.parent
                return SuperV(s.func.owner, s.vars[s.func.node.args.args[0].arg])
        f = self.res(self.ev(e.func, sc))
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                parts = self.parts_of(self.ev(a.value, sc))
                vals = self.concrete(parts)
                if vals is None:
                    args.append(StarV(parts))
                else:
                    args.extend(vals)
            else:
                args.append(self.ev(a, sc))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.res(self.ev(k.value, sc))
                if isinstance(d, DictV) and d.base is None and self.concrete(d.parts) is not None:
                    items = self.concrete(self.dict_items(d))
                    if items is None or not all(isinstance(x[0], str) for x in items):
                        raise Unsupported('**kwargs')
                    for x, y in items:
                        kw[x] = y
                elif isinstance(d, DictV) and hasattr(f, 'call_model') and '**' not in kw:
                    kw['**'] = d
                else:
                    raise Unsupported('**kwargs')
            else:
                kw[k.arg] = self.ev(k.value, sc)
        return self.res(self.call(f, args, kw))

    def e_NamedExpr(self, e, sc):
        v = self.ev(e.value, sc)
        if sc.func is None or sc.comp:
            raise Unsupported('assignment expression')
        self.assign(e.target, v, sc)
        return v

    def e_IfExp(self, e, sc):
        if self.branch(self.truth(self.ev(e.test, sc))):
            return self.ev(e.body, sc)
        return self.ev(e.orelse, sc)

    def e_BoolOp(self, e, sc):
        """and/or with the value of the deciding operand"""
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.res(self.ev(x, sc))
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(t, bool):
                if t != is_and:
                    return v
                continue
            if isinstance(v, Sym) and v.t.kind == 'bool':
                r = self.merge_rest(e, i + 1, t, is_and, sc)
                if r is not None:
                    return r
            if self.branch(t) != is_and:
                return v if not (isinstance(v, Sym) and v.t.kind == 'bool') else (not is_and)
        return v

    def merge_rest(self, e, i, t, is_and, sc):
        """t and/or the remaining operands as one term, if these are pure"""
        import copy
        rest = copy.copy(e)
        rest.values = e.values[i:]
        cond = t if is_and else z3.Not(t)
        x = self.expl
        key = ('merge', x.pos)

        def thunk():
            self.add(cond)
            return self.res(self.e_BoolOp(rest, sc) if len(rest.values) > 1 else self.ev(rest.values[0], sc))
        if x.pos < len(x.prefix):
            if x.prefix[x.pos] == 'split':
                x.pos += 1
                x.decisions.append('split')
                return None
        c0 = self.counter
        paths = self.run_paths(thunk)
        ok = all(p.kind == 'normal' and isinstance(p.value, (bool, Sym)) and self.kind_of(p.value) == 'bool'
                 and all(op.kind == 'resolve' for op in p.ops) for p in paths)
        if not ok:
            self.counter = c0
            x.pos += 1
            x.decisions.append('split')
            return None
        x.pos += 1
        x.decisions.append('merge')
        for p in paths:
            for d in p.defs:
                self.assume(d)
        terms = [zb(conj(list(p.conds) + ([] if p.value is True else [self.term(p.value)]))) for p in paths
                 if p.value is not False]
        return Sym(BOOL, z3.simplify(disj(terms) if is_and else disj([t] + terms)))

    def e_UnaryOp(self, e, sc):
        v = self.res(self.ev(e.operand, sc))
        if isinstance(e.op, ast.Not):
            return self.not_(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            return Sym(INT, -self.num(v))
        raise Unsupported('unary operator')

    def e_BinOp(self, e, sc):
        return self.binop(e.op, self.ev(e.left, sc), self.ev(e.right, sc))

    def binop(self, op, a, b, inplace=False):
        a, b = self.res(a), self.res(b)
        prim = (bool, int, float, str, tuple)
        if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)) or \
                isinstance(a, str) and isinstance(b, str) or \
                isinstance(a, tuple) and isinstance(b, tuple) or \
                (isinstance(a, str) and isinstance(b, int) and isinstance(op, ast.Mult)):
            try:
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b,
                        ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b,
                        ast.Div: lambda: a / b, ast.Pow: lambda: a ** b, ast.BitOr: lambda: a | b,
                        ast.BitAnd: lambda: a & b, ast.BitXor: lambda: a ^ b}[type(op)]()
            except KeyError:
                raise Unsupported('operator')
            except TypeError:
                self.throw('TypeError', 'operands')
        if isinstance(op, ast.Mod) and self.is_str(a):
            return self.w.percent_format(self, a, b)
        if isinstance(op, ast.Add) and self.is_str(a) and self.is_str(b):
            return strcat([a, b])
        if isinstance(a, ListV) and isinstance(b, ListV):
            if isinstance(op, ast.Add) and a.kind == 'list' and b.kind == 'list':
                if inplace:
                    self.list_extend(a, self.parts_of(b))
                    return a
                return self.new_list(self.parts_of(a) + self.parts_of(b))
            if isinstance(op, ast.BitOr) and a.kind == 'set' and b.kind == 'set':
                if inplace:
                    self.mutate_parts(a, a.parts + self.parts_of(b, True), 'update', (self.parts_of(b, True),))
                    return a
                return self.new_list(self.parts_of(a, True) + self.parts_of(b, True), SetV)
            if a.kind == 'set' and b.kind == 'set' and isinstance(op, (ast.BitAnd, ast.Sub)):
                want = isinstance(op, ast.BitAnd)
                parts = [self.filter_part(p, (lambda v: self.mkbool(zb(self.contains(b, v)))) if want else
                                          (lambda v: self.not_(self.mkbool(zb(self.contains(b, v))))), lambda v: v)
                         for p in self.parts_of(a, True)]
                return self.new_list(parts, SetV)
        if isinstance(op, ast.Mult) and isinstance(a, ListV) and a.kind == 'list':
            vals = self.concrete(self.parts_of(a))
            if isinstance(b, int) and vals is not None:
                return self.new_list([Item(x) for x in vals * b])
            if vals is not None and self.kind_of(b) == 'int':
                k = self.index()
                n = self.num(b)
                return self.new_list([For(k, z3.If(n < 0, 0, n), [Item(x) for x in vals])])
        if {self.kind_of(a), self.kind_of(b)} <= {'int', 'bool'}:
            x, y = self.num(a), self.num(b)
            if isinstance(op, ast.Add):
                return Sym(INT, z3.simplify(x + y))
            if isinstance(op, ast.Sub):
                return Sym(INT, z3.simplify(x - y))
            if isinstance(op, (ast.Mod, ast.FloorDiv)) and isinstance(b, int) and b > 0:
                return Sym(INT, x % b if isinstance(op, ast.Mod) else x / b)
            if isinstance(op, ast.Mult):
                return Sym(INT, z3.simplify(x * y))
        if isinstance(a, ListV) != isinstance(b, ListV) and isinstance(op, ast.Add):
            if not isinstance(a, (Sym, ObjV)) and not isinstance(b, (Sym, ObjV)):
                self.throw('TypeError', 'operands')
        raise Unsupported('operator %s on %r, %r' % (type(op).__name__, a, b))

    def e_Compare(self, e, sc):
        left = self.res(self.ev(e.left, sc))
        n = len(e.ops)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.res(self.ev(r, sc))
            c = self.compare(op, left, right)
            if i == n - 1:
                return self.mkbool(c) if not isinstance(c, Sym) else c
            if not self.branch(c if not isinstance(c, Sym) else c.e):
                return False
            left = right

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            if isinstance(a, ObjV):
                f = self.class_attr(a, '__ne__')
                if f is not None:
                    return self.truth(self.call(Bound(f, a), [b]))
            c = self.eq(a, b)
            return (not c) if isinstance(c, bool) else z3.Not(c)
        if isinstance(op, ast.Is):
            return self.ident(a, b)
        if isinstance(op, ast.IsNot):
            c = self.ident(a, b)
            return (not c) if isinstance(c, bool) else z3.Not(c)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            c = self.contains(b, a)
            return (not c) if isinstance(c, bool) else z3.Not(c)
        return self.order(op, a, b)

    def order(self, op, a, b):
        prim = (bool, int, float)
        if isinstance(a, prim) and isinstance(b, prim) or isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if {self.kind_of(a), self.kind_of(b)} <= {'int', 'bool'}:
            x, y = self.num(a), self.num(b)
            return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
        if isinstance(a, tuple) and isinstance(b, tuple):
            strict = isinstance(op, (ast.Lt, ast.Gt))
            base = ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt()
            for i in range(max(len(a), len(b))):
                if i >= len(a):
                    return isinstance(op, (ast.Lt, ast.LtE))
                if i >= len(b):
                    return isinstance(op, (ast.Gt, ast.GtE))
                c = self.eq(a[i], b[i])
                if self.branch(c):
                    continue
                return self.order(base, a[i], b[i])
            return not strict
        names = {ast.Lt: '__lt__', ast.Gt: '__gt__', ast.LtE: '__le__', ast.GtE: '__ge__'}
        swap = {'__lt__': '__gt__', '__gt__': '__lt__', '__le__': '__ge__', '__ge__': '__le__'}
        nm = names[type(op)]
        if isinstance(a, ObjV):
            f = self.class_attr(a, nm)
            if f is not None:
                return self.truth(self.call(Bound(f, a), [b]))
        if isinstance(b, ObjV):
            f = self.class_attr(b, swap[nm])
            if f is not None:
                return self.truth(self.call(Bound(f, b), [a]))
        if isinstance(a, Sym) and a.t.kind == 'any' or isinstance(b, Sym) and b.t.kind == 'any' or \
                isinstance(a, Sym) and a.t.kind == 'str' or isinstance(b, Sym) and b.t.kind == 'str':
            f = {'__lt__': ('lt', 0), '__gt__': ('lt', 1), '__le__': ('le', 0), '__ge__': ('le', 1)}[nm]
            x, y = (a, b) if f[1] == 0 else (b, a)
            return self.uf('any_' + f[0], ValSort, ValSort, BoolSort)(self.box(x), self.box(y))
        self.throw('TypeError', 'unorderable')

    def contains(self, c, x):
        c = self.res(c)
        x = self.res(x)
        if isinstance(c, ListV):
            if id(c) in self.accum:
                return self.dup_test(c, x)
            if isinstance(c, SetV) and any(getattr(p, 'memset', None) is not None for p in c.parts):
                terms = []
                for p in c.parts:
                    if getattr(p, 'memset', None) is not None and self.kind_of(x) == p.memset[1].kind:
                        terms.append(self.mem(p.memset[0], p.memset[1], self.term(x)))
                    else:
                        terms.append(self.exists_in([p], lambda v: self.mkbool(self.is_or_eq(v, x))))
                return self.simp(disj(terms))
            return self.simp(self.exists_in(c.parts, lambda v: self.mkbool(self.is_or_eq(v, x))))
        if isinstance(c, tuple):
            return self.simp(disj([zb(self.eq(v, x)) for v in c]))
        if isinstance(c, DictV):
            return self.simp(self.dict_has(c, x))
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if self.is_str(c) and self.is_str(x):
            return self.uf('substr', StrSort, StrSort, BoolSort)(self.strterm(x), self.strterm(c))
        if isinstance(c, ObjV):
            f = self.class_attr(c, '__contains__')
            if f is not None:
                return self.truth(self.call(Bound(f, c), [x]))
            return self.simp(self.exists_in(self.parts_of(c), lambda v: self.mkbool(self.eq(v, x))))
        if isinstance(c, Sym) and c.t.kind == 'any':
            return self.uf('any_in', ValSort, ValSort, BoolSort)(self.box(x), c.e)
        if hasattr(c, 'contains_model'):
            return c.contains_model(self, x)
        self.throw('TypeError', 'not a container')

    def is_or_eq(self, a, b):
        return self.eq(a, b)

    def simp(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return c

    def e_Tuple(self, e, sc):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported('starred')
        return tuple(self.ev(x, sc) for x in e.elts)

    def e_List(self, e, sc):
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts.extend(self.parts_of(self.ev(x.value, sc)))
            else:
                parts.append(Item(self.ev(x, sc)))
        return self.new_list(parts)

    def e_Set(self, e, sc):
        return self.new_list([Item(self.ev(x, sc)) for x in e.elts], SetV)

    def e_Dict(self, e, sc):
        d = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported('** in dict')
            d.parts.append(Item((self.ev(k, sc), self.ev(v, sc))))
        return d

    def e_Lambda(self, e, sc):
        return self.make_function(e, sc)

    def comp(self, e, sc, kind, elt):
        acc = self.new_list(kind=kind) if kind is not DictV else self.new_dict()
        inner = Scope(sc, sc.module, sc.func, self.new_stamp())
        inner.idx = tuple(self.loopidx)
        inner.comp = True

        def run(gens, scope):
            if not gens:
                if kind is DictV:
                    self.dict_set(acc, self.ev(e.key, scope), self.ev(e.value, scope))
                elif kind is SetV:
                    self.mutate_parts(acc, acc.parts + [Item(self.ev(elt, scope))], 'add', None)
                    self.logs[-1].data = (acc.parts[-1].value,)
                else:
                    self.list_append(acc, self.ev(elt, scope))
                return
            g = gens[0]
            seq = self.res(self.ev(g.iter, scope if g is not e.generators[0] else sc))
            if self.unordered(seq) and isinstance(acc, ListV):
                acc.bag = True

            def body(v):
                self.assign(g.target, v, scope)
                for c in g.ifs:
                    if not self.branch(self.truth(self.ev(c, scope))):
                        return
                run(gens[1:], scope)
            self.iterate(seq, body, e, scope)
        run(e.generators, inner)
        return acc

    def e_ListComp(self, e, sc):
        return self.comp(e, sc, ListV, e.elt)

    def e_GeneratorExp(self, e, sc):
        return self.comp(e, sc, GenV, e.elt)

    def e_SetComp(self, e, sc):
        return self.comp(e, sc, SetV, e.elt)

    def e_DictComp(self, e, sc):
        return self.comp(e, sc, DictV, None)

    def e_Yield(self, e, sc):
        v = self.ev(e.value, sc) if e.value else None
        s = sc
        while s.yields is None:
            s = s.parent
        self.list_append(s.yields, v)
        return None

    def e_YieldFrom(self, e, sc):
        s = sc
        while s.yields is None:
            s = s.parent
        self.list_extend(s.yields, self.parts_of(self.ev(e.value, sc)))

    def e_JoinedStr(self, e, sc):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, sc)
                parts.append(self.w.to_repr(self, x) if v.conversion == 114 else self.w.to_str(self, x))
        return strcat(parts)

    def e_Subscript(self, e, sc):
        o = self.res(self.ev(e.value, sc))
        if isinstance(e.slice, ast.Slice):
            return self.slice(o, e.slice, sc)
        return self.getitem(o, self.ev(e.slice, sc))

    def slice(self, o, s, sc):
        lo = self.res(self.ev(s.lower, sc)) if s.lower else None
        hi = self.res(self.ev(s.upper, sc)) if s.upper else None
        if s.step is not None:
            st = self.res(self.ev(s.step, sc))
            if st == -1 and lo is None and hi is None:
                parts = self.reverse_parts(self.parts_of(o))
                return self.new_list(parts) if not isinstance(o, tuple) else tuple(x.value for x in parts)
            raise Unsupported('slice step')
        if isinstance(o, (str, tuple)) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return o[lo:hi]
        if self.is_str(o):
            if lo in (None, 0) and hi == 1 and type(hi) is int:
                return self.getitem(o, 0) if self.branch(zb(self.truth(o))) else ''
            # a bound that is left out is not any number
            a = z3.IntVal(0) if lo is None else self.num(lo)
            b = z3.IntVal(0) if hi is None else self.num(hi)
            return Sym(STR, self.uf('slice' + '_' * (lo is None) + '^' * (hi is None), StrSort, IntSort, IntSort, StrSort)(self.strterm(o), a, b))
        if isinstance(o, ListV):
            parts = self.parts_of(o)
            vals = self.concrete(parts)
            if vals is not None and all(x is None or isinstance(x, int) for x in (lo, hi)):
                return self.new_list([Item(x) for x in vals[lo:hi]])
            n = self.length(parts)
            a = z3.IntVal(0) if lo is None else self.norm_index(lo, n)
            b = n if hi is None else self.norm_index(hi, n)
            k = self.index()
            size = z3.If(b - a > 0, b - a, 0)
            with self.loopctx(k, size):
                ps = self.run_paths(lambda: self.at(parts, z3.simplify(a + k)))
            items = []
            for q in ps:
                items.append(Item(q.value, q.guard))
            if len(items) == 1:
                items[0].guard = True
            return self.new_list([For(k, z3.simplify(size), items)])
        raise Unsupported('slice of %r' % (o,))

    def norm_index(self, i, n):
        i = self.num(i)
        i = z3.If(i < 0, i + n, i)
        return z3.simplify(z3.If(i < 0, 0, z3.If(i > n, n, i)))

    def reverse_parts(self, parts):
        out = []
        for p in reversed(parts):
            if isinstance(p, Item):
                out.append(p)
            elif isinstance(p, For) and not p.dedup:
                k = self.index()
                inner = self.inst_parts(p.parts, p.k, z3.simplify(p.n - 1 - k))
                out.append(For(k, p.n, self.reverse_parts(inner)))
            else:
                raise Unsupported('reversing %r' % (p,))
        return out

    def getitem(self, o, i):
        o, i = self.res(o), self.res(i)
        if isinstance(o, DictV):
            return self.dict_subscript(o, i)
        if isinstance(o, (str, tuple)) and isinstance(i, int):
            try:
                return self.res(o[i])
            except IndexError:
                self.throw('IndexError')
        if isinstance(o, (ListV, tuple)):
            parts = self.parts_of(o)
            vals = self.concrete(parts)
            if vals is not None and isinstance(i, int):
                try:
                    return self.res(vals[i])
                except IndexError:
                    self.throw('IndexError')
            if self.kind_of(i) not in ('int', 'bool'):
                self.throw('TypeError', 'indices must be integers')
            if isinstance(i, int) and i >= 0 or True:
                return self.index_seq(parts, i)
        if self.is_str(o) and self.kind_of(i) == 'int':
            if not isinstance(i, int) or i not in (0, -1):
                raise Unsupported('index of a string')
            if self.branch(self.strterm(o) == self.lit('')):
                self.throw('IndexError')
            return Sym(STR, self.uf('char_at', StrSort, IntSort, StrSort)(self.strterm(o), self.num(i)))
        if isinstance(o, ObjV):
            f = self.class_attr(o, '__getitem__')
            if f is not None:
                return self.call(Bound(f, o), [i])
            self.throw('TypeError', 'not subscriptable')
        if hasattr(o, 'getitem_model'):
            return o.getitem_model(self, i)
        if o is None or isinstance(o, (int, ClsV, FuncV)):
            self.throw('TypeError', 'not subscriptable')
        raise Unsupported('subscript of %r' % (o,))

    def index_seq(self, parts, i):
        simple = all((isinstance(p, Item)) or
                     (isinstance(p, For) and not p.dedup and len(p.parts) == 1 and
                      isinstance(p.parts[0], Item) and p.parts[0].guard is True) for p in parts)
        if simple:
            n = self.length(parts)
            e = self.num(i)
            if self.branch(e < 0):
                e = z3.simplify(e + n)
                if self.branch(e < 0):
                    self.throw('IndexError')
            if not self.branch(e < n):
                self.throw('IndexError')
            return self.at(parts, e)
        if isinstance(i, int) and i == 0:
            return self.first_of(parts)
        raise Unsupported('index into a filtered sequence')

    def first_of(self, parts):
        for p in parts:
            if isinstance(p, Item):
                if p.guard is True or self.branch(p.guard):
                    return self.res(p.value)
            elif isinstance(p, For) and all(isinstance(q, Item) for q in p.parts):
                hit = self.nonempty(p.parts)
                hit = zb(hit)
                if not self.branch(self.exists([p.k], z3.And(p.k >= 0, p.k < p.n, hit))):
                    continue
                s = self.const('at', IntSort)
                j = self.index()
                self.assume(z3.And(s >= 0, s < p.n, z3.substitute(hit, (p.k, s))))
                self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < s), z3.Not(z3.substitute(hit, (p.k, j))))))
                return self.first_of(self.inst_parts(p.parts, p.k, s))
            else:
                raise Unsupported('first element')
        self.throw('IndexError')

    def dict_subscript(self, d, key):
        if hasattr(d.base, 'subscript'):
            return d.base.subscript(self, key)
        if d.default is not None and d.base is None:
            conc = self.concrete(d.parts)
            simple = conc is not None and not d.groups and isinstance(key, (str, int)) \
                and all(isinstance(x[0], (str, int)) for x in conc)
            if not simple and (id(d) in self.accum or self.loopidx or d.groups):
                if isinstance(d.default, ClsV) and d.default.native is list and not d.parts:
                    return GroupRef(d, key)
        return self.dict_get(d, key)

    def setitem(self, o, i, v):
        if isinstance(o, DictV):
            self.dict_set(o, i, v)
            return
        if isinstance(o, ListV) and o.kind == 'list':
            vals = self.concrete(o.parts)
            if vals is not None and isinstance(i, int):
                if not -len(vals) <= i < len(vals):
                    self.throw('IndexError')
                vals = list(vals)
                vals[i] = v
                self.mutate_parts(o, [Item(x) for x in vals], 'set', (i, v))
                return
        if hasattr(o, 'setitem_model'):
            return o.setitem_model(self, i, v)
        raise Unsupported('item assignment on %r' % (o,))


class LoopCtx(object):
    def __init__(self, eng, k, n):
        self.e, self.k, self.n = eng, k, n

    def __enter__(self):
        e = self.e
        self.mark = len(e.pc)
        e.loopidx = e.loopidx + [self.k]
        e.pc.append(('r', z3.And(self.k >= 0, self.k < self.n)))

    def __exit__(self, *exc):
        e = self.e
        e.loopidx = e.loopidx[:-1]
        new = e.pc[self.mark + 1:]
        del e.pc[self.mark:]
        if exc[0] is None:
            rng = z3.And(self.k >= 0, self.k < self.n)
            for kind, x in new:
                if kind == 'd':
                    e.pc.append(('d', e.forall([self.k], z3.Implies(rng, x)) if mentions(x, self.k) else x))


class Loc(object):
    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args

    def key(self):
        return (self.kind,) + tuple(a if isinstance(a, str) else id(a) for a in self.args)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


def loc_name(loc):
    return '%s %s' % (loc.kind, loc.args[1] if len(loc.args) > 1 else 'container')


class Hyp(object):
    """hypothesis about a loop-carried location, verified by induction"""

    def install(self, eng, k, loc):
        v = self.value(eng, k)
        mark = len(eng.logs)
        if loc.kind == 'env':
            eng.set_var(loc.args[0], loc.args[1], v)
        else:
            eng.set_field(loc.args[0], loc.args[1], v)
        for op in eng.logs[mark:]:
            op.hyp = True

    def finish(self, eng, n, loc):
        v = self.value(eng, n, final=True)
        if loc.kind == 'env':
            eng.set_var(loc.args[0], loc.args[1], v)
        else:
            eng.set_field(loc.args[0], loc.args[1], v)


Log.__slots__ = ('kind', 'target', 'data', 'undo', 'hyp')


class Log(object):       # noqa: F811  (with room for the hypothesis mark)
    __slots__ = ('kind', 'target', 'data', 'undo', 'hyp')

    def __init__(self, kind, target, data, undo):
        self.kind = kind
        self.target = target
        self.data = data
        self.undo = undo
        self.hyp = False


class Filtered(object):
    """contents of a growing list before iteration k: value(j) for those j < k for which cond(j); count(k) of them"""

    def __init__(self, value, cond, count):
        self.value_, self.cond, self.count = value, cond, count

    def install(self, eng, k, loc):
        l = loc.args[0]
        j = eng.index()
        f = For(j, k, [Item(self.value_(j), self.cond(j))])
        f.count = self.count
        old = l.parts

        def undo():
            l.parts = old
        eng.log('install', l, (), undo)
        eng.logs[-1].hyp = True
        l.parts = old + [f]

    def check(self, eng, k, paths, loc):
        for q in paths:
            if q.kind != 'normal':
                continue
            mine = [op for op in q.ops if op.target is loc.args[0] and op.kind not in ('poison', 'duptest', 'install')]
            if [op.kind for op in mine] not in ([], ['append']):
                raise Unsupported('a list that grows in another way')
            c = self.cond(k)
            if not eng.valid(z3.Implies(zb(q.guard), c if mine else z3.Not(c))):
                raise Unsupported('a list that grows in another way')
            if mine:
                if not eng.valid(z3.Implies(zb(q.guard), zb(eng.ident(eng.res(mine[0].data[0]), self.value_(k))))):
                    raise Unsupported('a list that grows by other values')

    def finish(self, eng, n, loc):
        pass


class OneEach(object):
    """a list that gets exactly one value in each iteration: its length is known, its values are not"""

    count = None

    def install(self, eng, k, loc):
        l = loc.args[0]

        def unknown():
            raise Unsupported('reading container while it grows in a loop')
        j = eng.index()
        old = l.parts

        def undo():
            l.parts = old
        eng.log('install', l, (), undo)
        eng.logs[-1].hyp = True
        l.parts = old + [For(j, k, [Item(Deferred('unknown', unknown))])]

    def check(self, eng, k, paths, loc):
        for q in paths:
            if q.kind == 'normal':
                mine = [op for op in q.ops if op.target is loc.args[0] and op.kind not in ('poison', 'duptest', 'install')]
                if [op.kind for op in mine] != ['append']:
                    raise Unsupported('a list that does not grow by one in each iteration')

    def finish(self, eng, n, loc):
        pass


class Last(Hyp):
    """value before iteration k: init if k == 0 else g(k-1)"""

    def __init__(self, init, g, k):
        self.init, self.g, self.k = init, g, k

    def value(self, eng, k, final=False):
        def force():
            if self.g is None or eng.branch(k <= 0):
                return eng.res(self.init)
            v = eng.subst(self.g, self.k, z3.simplify(k - 1))
            eng.type_facts(v)
            return eng.res(v)
        return Deferred('carried', force)

    def check(self, eng, k, paths, loc):
        for q, v in eng.end_values(paths, loc):
            if v is NotImpl:
                raise Unsupported('loop-carried %s not always assigned' % loc_name(loc))
            want = eng.subst(self.g, self.k, k)
            while isinstance(want, Alt):
                if eng.valid(z3.Implies(zb(q.guard), want.cond)):
                    want = want.a
                elif eng.valid(z3.Implies(zb(q.guard), z3.Not(want.cond))):
                    want = want.b
                else:
                    break
            if not same(eng, v, want):
                raise Unsupported('loop-carried %s is not a function of the last element' % loc_name(loc))


class Fold(Hyp):
    """value before iteration k: given by the specification, proved here by induction"""

    def __init__(self, init, fn, n):
        self.init, self.fn, self.n = init, fn, n

    def value(self, eng, k, final=False):
        if final:
            k = z3.simplify(z3.If(k < 0, 0, k))
        return self.fn(k)

    def check(self, eng, k, paths, loc):
        if not eng.valid(zb(eng.ident(self.init, self.fn(z3.IntVal(0)))), 4000):
            raise Unsupported('invariant of loop-carried %s does not hold initially' % loc_name(loc))
        for q, v in eng.end_values(paths, loc):
            if v is NotImpl:
                v = self.fn(k)
            want = self.fn(k + 1)
            goal = zb(eng.ident(v, want))
            pre = z3.And(k >= 0, k < self.n, zb(q.guard), *[zb(d) for d in q.defs])
            if not eng.valid(z3.Implies(pre, goal), 6000):
                raise Unsupported('invariant of loop-carried %s is not preserved' % loc_name(loc))


class Linear(Hyp):
    def __init__(self, init, d):
        self.init, self.d = init, d

    def value(self, eng, k, final=False):
        if final:
            k = z3.If(k < 0, 0, k)
        return Sym(INT, z3.simplify(eng.num(self.init) + self.d * k))

    def check(self, eng, k, paths, loc):
        for q, v in eng.end_values(paths, loc):
            if v is NotImpl:
                if self.d == 0:
                    continue
                raise Unsupported('counter %s not always advanced' % loc_name(loc))
            want = eng.num(self.value(eng, k + 1))
            if not z3.is_true(z3.simplify(eng.num(v) == want)):
                raise Unsupported('counter %s is not linear' % loc_name(loc))


def same(eng, a, b):
    if a is b:
        return True
    if isinstance(a, Maybe) and isinstance(b, Maybe):
        return a.cond.eq(b.cond) and same(eng, a.value, b.value)
    if isinstance(a, (Maybe, Alt, Deferred)) or isinstance(b, (Maybe, Alt, Deferred)):
        return False
    if isinstance(a, ObjV) and isinstance(b, ObjV):
        return z3.is_expr(a.ref) and z3.is_expr(b.ref) and a.ref.eq(b.ref)
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.t == b.t and z3.is_true(z3.simplify(a.e == b.e))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(eng, x, y) for x, y in zip(a, b))
    prim = (bool, int, str, float, type(None))
    if isinstance(a, prim) and isinstance(b, prim):
        return type(a) == type(b) and a == b
    return False


def depends(v, k):
    return any(i.eq(k) or mentions(i, k) for i in getattr(v, 'idx', ()))


def same_part(p, q):
    """the substitution has left this part alone"""
    if isinstance(p, Item) and isinstance(q, Item):
        x, y = p.value, q.value
        same = x is y or isinstance(x, (int, str)) and x == y and type(x) is type(y) or \
            isinstance(x, Sym) and isinstance(y, Sym) and x.e.eq(y.e)
        return same and zb(p.guard).eq(zb(q.guard))
    return False


def free_consts(e):
    seen, out, todo = set(), [], [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return out


def mentions(e, c):
    if not z3.is_expr(e):
        return False
    return any(x.eq(c) for x in free_consts(e)) if z3.is_const(c) else any(
        sub.eq(c) for sub in subterms(e))


def subterms(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        yield x
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())


def guard_part(p, g):
    if g is True:
        return p
    if isinstance(p, Item):
        return Item(p.value, g if p.guard is True else z3.And(g, p.guard))
    if isinstance(p, For):
        f = For(p.k, p.n, [guard_part(q, g) for q in p.parts])
        f.dedup = p.dedup
        return f
    raise Unsupported('guarding %r' % (p,))


def map_part(p, fn, dedup=False):
    if isinstance(p, Item):
        return Item(fn(p.value), p.guard)
    f = For(p.k, p.n, [map_part(q, fn) for q in p.parts])
    f.dedup = dedup or p.dedup
    return f


def strcat(parts):
    out = []
    for p in parts:
        ps = p.parts if isinstance(p, StrCat) else [p]
        for x in ps:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            elif isinstance(x, str) and not x:
                pass
            else:
                out.append(x)
    if not out:
        return ''
    if len(out) == 1:
        return out[0]
    return StrCat(out)


def tname(t):
    return t.kind + ('_' + '_'.join(tname(a) if isinstance(a, T) else str(a) for a in t.args) if t.args else '')


def is_generator(node):
    todo = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        todo.extend(ast.iter_child_nodes(x))
    return False


def c3(cls):
    def merge(seqs):
        out = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported('inconsistent mro')
            out.append(c)
            seqs = [[x for x in t if x is not c] for t in seqs]
            seqs = [t for t in seqs if t]
        return out
    return [cls] + merge([b.mro for b in cls.bases] + [list(cls.bases)])
