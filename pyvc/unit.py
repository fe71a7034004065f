"""Verification units: one function (or lemma) under contract each."""
import gc
import time
import traceback
import z3

from .values import *
from .engine import Engine, Scope, Obligation, SOLVER_STATS, zb, conj
from .models import Lib


class Unit(object):
    def __init__(self, prop, name, fn, functions=(), schema=None, contracts=None, loops=None, budget=60,
                 timeout=6000, remembers=()):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.functions = list(functions)
        self.schema = schema or {}
        self.contracts = contracts or {}
        self.loops = loops or []
        self.budget = budget
        self.timeout = timeout
        self.remembers = remembers      # fields whose contents the unit follows through all calls


UNITS = {}


def unit(prop, name=None, functions=(), schema=None, contracts=None, loops=None, budget=60, timeout=6000, remembers=()):
    def deco(fn):
        u = Unit(prop, name or fn.__name__, fn, functions, schema, contracts, loops, budget, timeout, remembers)
        UNITS.setdefault(prop, []).append(u)
        return fn
    return deco


class Result(object):
    def __init__(self, unit):
        self.unit = unit
        self.obligations = []
        self.error = None           # why undecided
        self.paths = 0
        self.seconds = 0.0
        self.inlined = set()
        self.assumptions = set()
        self.canary = None

    @property
    def status(self):
        if any(o.status == 'refuted' for o in self.obligations):
            return 'refuted'
        if self.error or any(o.status == 'unknown' for o in self.obligations):
            return 'undecided'
        if not self.obligations:
            return 'empty'
        return 'proved'


def first_use_only(e, remembers):
    """a call that changes what an earlier call has made (a cache of an object, say) depends on the calls before, and
    proving it right after construction says nothing about the next one"""
    for kind, target, data in e.touched:
        if kind == 'field':
            names = {data[0]}
        else:
            names = {op.data[0] for op in e.logs if op.kind == 'field' and op.data and op.data[1] is target}
        if not names & set(remembers):
            raise Unsupported('a call changes what an earlier one has made (%s %s): %r' % (
                kind, data[0] if kind == 'field' else '', target))


def run_unit(world, u, scale=1.0):
    r = Result(u)
    t0 = time.time()
    contracts = u.contracts(world) if callable(u.contracts) else u.contracts
    eng = Engine(world, u.schema, contracts, timeout=int(u.timeout * scale), loop_specs=u.loops,
                 deadline=t0 + u.budget * scale)
    reach = [0]

    def body(e):
        try:
            try:
                u.fn(e)
            finally:
                first_use_only(e, u.remembers)
        except PyRaise as x:
            # an exception the specification does not allow
            e.prove(False, 'no exception escapes (%s)' % x)
        # vacuity canary: the end of the path must be reachable
        if reach[0] < 1 and e.solve(e.facts(), 3000, both=False)[0] != 'unsat':
            reach[0] += 1
    try:
        r.paths = eng.explore(body)
    except Unsupported as x:
        r.error = 'outside the verified subset: %s' % x
    except RecursionError:
        r.error = 'recursion too deep'
    except z3.Z3Exception as x:
        r.error = "solver: %s" % x
        r.trace = traceback.format_exc()
    except PyRaise as x:
        r.error = 'exception outside a path: %s' % x
    except Exception as x:
        # a failure of the verifier itself decides nothing
        r.error = 'verifier: %s: %s' % (type(x).__name__, str(x)[:300])
        r.trace = traceback.format_exc()
    r.obligations = eng.obligations
    r.inlined = eng.inlined
    r.assumptions = eng.assumptions
    r.seconds = time.time() - t0
    r.canary = reach[0]
    if r.obligations and not reach[0] and not r.error:
        r.error = 'vacuous: no reachable path'
    return r


def make_world(root):
    w = Lib(root)
    e = Engine(w)
    w.load_all(e)
    w.shared = {id(o): o for o in gc.get_objects() if isinstance(o, (ListV, DictV, ObjV, ClsV, Scope, FuncV))}
    w.loading = False
    return w
