"""Values of the symbolic interpreter.

Concrete Python ints, bools, strs, None and tuples represent themselves.
Everything else is one of the classes below.
"""
import z3

StrSort = z3.DeclareSort('Str')
ValSort = z3.DeclareSort('Val')
IntSort = z3.IntSort()
BoolSort = z3.BoolSort()


class Unsupported(Exception):
    """construct outside the verifier's reach: undecided, never a violation"""


class PathEnd(Exception):
    """the current path is infeasible or deliberately closed"""


class PyRaise(Exception):
    """an exception raised by the interpreted program"""

    def __init__(self, exc, args=()):
        self.exc = exc          # ClsV or builtin exception type
        self.eargs = args

    @property
    def name(self):
        return self.exc.name if isinstance(self.exc, ClsV) else self.exc.__name__

    def __str__(self):
        return '%s%r' % (self.name, tuple(self.eargs))


class ReturnX(Exception):
    def __init__(self, value):
        self.value = value


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class CarriedRead(Exception):
    """a loop-carried location was read in a generic iteration"""

    def __init__(self, loc):
        self.loc = loc


# ---------------------------------------------------------------- types

class T(object):
    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args

    def __repr__(self):
        return self.kind + (repr(self.args) if self.args else '')

    def __eq__(self, o):
        return isinstance(o, T) and (self.kind, self.args) == (o.kind, o.args)

    def __hash__(self):
        return hash((self.kind, self.args))

    @property
    def sort(self):
        return {'bool': BoolSort, 'str': StrSort, 'any': ValSort}.get(self.kind, IntSort)


INT = T('int')
BOOL = T('bool')
STR = T('str')
ANY = T('any')
FN = T('fn')


def OBJ(*names):
    return T('obj', *names)


def LIST(t):
    return T('list', t)


def SET(t):
    return T('set', t)


def OPT(t):
    return T('opt', t)


def TUP(*ts):
    return T('tup', *ts)


def DICT(k, v):
    return T('dict', k, v)


# ---------------------------------------------------------------- values

class Sym(object):
    __slots__ = ('t', 'e')

    def __init__(self, t, e):
        self.t = t
        self.e = e

    def __repr__(self):
        return 'Sym(%s)' % self.e


class StrCat(object):
    """concatenation of >= 2 non-literal-adjacent parts (normalised)"""

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return 'StrCat(%r)' % (self.parts,)


class StrJoin(object):
    """sep.join(seq) with a sequence of unknown length"""

    def __init__(self, sep, seq):
        self.sep = sep
        self.seq = seq

    def __repr__(self):
        return 'StrJoin(%r, %r)' % (self.sep, self.seq)


class StrMap(object):
    """symbolic base string under a per-character substitution.

    table: {char: replacement string}; characters outside the table map to
    themselves.  prefix/suffix handled by StrCat.
    """

    def __init__(self, base, table):
        self.base = base
        self.table = table

    def __repr__(self):
        return 'StrMap(%r, %r)' % (self.base, self.table)


class HashV(object):
    """hash(x): equal exactly when x equal (no-collision assumption)"""

    def __init__(self, value):
        self.value = value


class ClsV(object):
    def __init__(self, name, bases, ns, module, qualname):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.qualname = qualname
        self.mro = None
        self.id = None
        self.native = None

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return modelled(c.ns[name]), c
        return None, None

    def subclass_of(self, other):
        return other in self.mro

    def __repr__(self):
        return '<class %s>' % self.qualname


class FuncV(object):
    def __init__(self, name, node, scope, module, qualname, defaults, kwdefaults, cls=None):
        self.name = name
        self.node = node
        self.scope = scope
        self.module = module
        self.qualname = qualname
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.isgen = None
        self.attrs = {}

    def __repr__(self):
        return '<function %s>' % self.qualname


class Bound(object):
    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_

    def __repr__(self):
        return '<bound %r of %r>' % (self.fn, self.self_)


class PyFn(object):
    """function modelled by the verifier (builtin or trusted library)"""

    def __init__(self, name, fn, bind=False):
        self.name = name
        self.fn = fn
        self.bind = bind        # behaves as a method when found in a class
        self.attrs = {}

    def __repr__(self):
        return '<model %s>' % self.name


class PropV(object):
    def __init__(self, fget, fset=None):
        self.fget = fget


class StaticV(object):
    def __init__(self, fn):
        self.fn = fn


class ClassMethodV(object):
    def __init__(self, fn):
        self.fn = fn


class SuperV(object):
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class ModuleV(object):
    def __init__(self, name, ns):
        self.name = name
        self.ns = ns

    def __repr__(self):
        return '<module %s>' % self.name


class NativeMod(object):
    def __init__(self, name, ns):
        self.name = name
        self.ns = ns


class ObjV(object):
    """object; ref is a z3 Int term (> 0: exists before the call, negative
    numeral or fresh function: allocated during the call)"""

    def __init__(self, ref, cls=None, cands=None, fresh=False, birth=0):
        self.ref = ref
        self.cls = cls
        self.cands = cands      # tuple of possible classes if cls is None
        self.fresh = fresh
        self.fields = {}
        self.birth = birth
        self.ghost = {}

    def __repr__(self):
        c = self.cls.name if self.cls else '|'.join(c.name for c in self.cands or ())
        return '%s@%s' % (c, self.ref)


class ExcV(object):
    """instance of a builtin exception"""

    def __init__(self, cls, args):
        self.cls = cls
        self.args = args


# sequences in comprehension normal form -------------------------------

class Item(object):
    """value present iff guard (python True or z3 Bool)"""
    __slots__ = ('guard', 'value')

    def __init__(self, value, guard=True):
        self.value = value
        self.guard = guard

    def __repr__(self):
        return ('%r' % (self.value,)) if self.guard is True else '%r if %s' % (self.value, self.guard)


class For(object):
    """parts for k = 0 .. n-1, in order; k a z3 Int constant"""
    __slots__ = ('k', 'n', 'parts', 'dedup', 'memset', 'count')

    def __init__(self, k, n, parts, dedup=False):
        self.memset = None
        self.count = None      # number of elements, as a function of n, of a filtered sequence
        self.k = k
        self.n = n
        self.parts = parts
        self.dedup = dedup

    def __repr__(self):
        return 'For(%s<%s: %r)' % (self.k, self.n, self.parts)


class Blob(object):
    """opaque sequence-valued term of a specification, e.g. PRE(node)"""
    __slots__ = ('e', 't')

    def __init__(self, e, t):
        self.e = e
        self.t = t

    def __repr__(self):
        return 'Blob(%s)' % self.e


class ListV(object):
    kind = 'list'

    def __init__(self, parts, birth=0, ref=None, et=None):
        self.parts = list(parts)
        self.birth = birth
        self.ref = ref          # z3 Int for lists of the pre-state
        self.et = et
        self.dedup = False
        self.bag = False        # in the order of some set, repetitions kept

    def __repr__(self):
        return '%s%r' % (self.kind, self.parts)


class SetV(ListV):
    kind = 'set'


class GenV(ListV):
    kind = 'gen'


class DictV(object):
    """entries: parts whose item values are (key, value) pairs; later wins.

    multi: parts of (key, value) for defaultdict(list)-style grouping."""

    def __init__(self, parts=(), default=None, birth=0, base=None, ordered=False):
        self.parts = list(parts)
        self.default = default
        self.groups = []        # parts of (key, value) group appends
        self.birth = birth
        self.frozen = False     # the lists of the groups are shared with a copy
        self.base = base        # symbolic base: object with .get(ctx, key) / .has(ctx, key)
        self.ref = None

    def __repr__(self):
        return 'dict(%r, groups=%r)' % (self.parts, self.groups)


class GroupRef(object):
    """d[key] of a grouping defaultdict(list) under symbolic keys"""

    def __init__(self, d, key):
        self.d = d
        self.key = key


class Deferred(object):
    """variable whose value after a loop is computed only if read"""

    def __init__(self, name, force):
        self.name = name
        self.force = force


class Unmodelled(object):
    """a definition of the program that is outside the verified subset"""

    def __init__(self, reason):
        self.reason = reason


def modelled(v):
    if isinstance(v, Unmodelled):
        raise Unsupported(v.reason)
    return v


class Lost(object):
    """a variable that holds one of several values, which one depends on the order of a set"""


class Poison(object):
    def __init__(self, loc):
        self.loc = loc


NotImpl = object()


class StarV(object):
    """the values of a sequence of unknown length, given as positional arguments"""

    def __init__(self, parts):
        self.parts = parts
