"""Trusted models of the Python builtins and libraries yargy uses.

Each model states what CPython documents for the builtin; nothing here knows
about yargy.  The models themselves are tested against CPython by
pyvc/selftest.py.
"""
import string
import z3

from .values import *
from .engine import World, strcat, conj, disj, zb, map_part, guard_part, Maybe


class TupleV(ListV):
    """tuple of unknown length"""
    kind = 'tuple'


def fn(name, f, bind=False):
    return PyFn(name, f, bind)


class Lib(World):
    def __init__(self, root):
        super(Lib, self).__init__(root)
        self.loading = False
        self.class_counter = 100
        self.native_modules = {}
        self.exceptions = {}
        self.builtins = {}
        self.setup()

    # ------------------------------------------------------------- set up

    def native_class(self, name, native, bases=(), construct=None):
        bases = list(bases)
        c = ClsV(name, bases, {}, None, name)
        c.native = native
        c.mro = [c] + [m for b in bases[:1] for m in b.mro]
        c.id = len(self.builtin_classes) + 1
        c.construct = construct or m_unknown(name)
        self.builtin_classes[name] = c
        return c

    def setup(self):
        b = self.builtins
        for e in (BaseException, Exception, TypeError, ValueError, KeyError, IndexError, AttributeError,
                  NameError, NotImplementedError, AssertionError, StopIteration, RuntimeError,
                  ImportError, ZeroDivisionError, RecursionError, LookupError, OverflowError):
            self.exceptions[e.__name__] = e
            b[e.__name__] = e
        obj = self.native_class('object', object)
        obj.construct = lambda eng, a, k: eng.new_obj(obj)
        obj.ns['__init__'] = fn('__init__', m_object_init, bind=True)
        obj.ns['__hash__'] = fn('__hash__', lambda e, a, k: HashV((Sym(INT, e.res(a[0]).ref),)), bind=True)
        b['object'] = obj
        for name, t, c in [
            ('int', int, m_int), ('str', str, m_str), ('bool', bool, m_bool), ('float', float, None),
            ('list', list, m_list), ('tuple', tuple, m_tuple), ('set', set, m_set),
            ('frozenset', frozenset, m_set), ('dict', dict, m_dict), ('type', type, m_type),
            ('NoneType', type(None), None),
        ]:
            b[name] = self.native_class(name, t, [obj], c)
        for name, f in [
            ('len', m_len), ('isinstance', m_isinstance), ('issubclass', m_issubclass), ('id', m_id),
            ('hash', m_hash), ('getattr', m_getattr), ('setattr', m_setattr), ('hasattr', m_hasattr),
            ('any', m_any), ('all', m_all), ('sorted', m_sorted), ('reversed', m_reversed),
            ('enumerate', m_enumerate), ('zip', m_zip), ('range', m_range), ('iter', m_iter),
            ('next', m_next), ('repr', m_repr), ('min', m_min), ('max', m_max), ('sum', m_sum),
            ('map', m_map), ('filter', m_filter), ('super', m_super), ('callable', m_callable),
            ('property', lambda e, a, k: PropV(a[0])), ('staticmethod', lambda e, a, k: StaticV(a[0])),
            ('classmethod', lambda e, a, k: ClassMethodV(a[0])), ('print', lambda e, a, k: None),
            ('abs', m_abs), ('ord', m_unknown('ord')), ('chr', m_unknown('chr')),
        ]:
            b[name] = fn(name, f)
        b['NotImplemented'] = NotImplemented
        self.builtins['None'] = None
        nm = self.native_modules

        def mod(name, **ns):
            nm[name] = NativeMod(name, ns)
        mod('functools', wraps=fn('wraps', lambda e, a, k: fn('deco', lambda e2, a2, k2: a2[0])),
            lru_cache=fn('lru_cache', m_lru_cache),
            total_ordering=fn('total_ordering', lambda e, a, k: a[0]))
        mod('collections', defaultdict=fn('defaultdict', m_defaultdict), OrderedDict=fn('OrderedDict', m_dict),
            namedtuple=fn('namedtuple', m_unknown('namedtuple')), deque=fn('deque', m_list))
        chain = fn('chain', m_chain)
        chain.attrs['from_iterable'] = fn('from_iterable', m_chain_from)
        mod('itertools', combinations=fn('combinations', m_combinations), chain=chain,
            islice=fn('islice', m_unknown('islice')), count=fn('count', m_unknown('count')))
        mod('inspect', isclass=fn('isclass', lambda e, a, k: isinstance(e.res(a[0]), ClsV) or
                                  isinstance(e.res(a[0]), type)),
            getfullargspec=fn('getfullargspec', m_unknown('getfullargspec')))
        mod('re', compile=fn('re.compile', m_re_compile), finditer=fn('re.finditer', m_re_finditer),
            UNICODE=32, IGNORECASE=2, U=32, I=2, MULTILINE=8, VERBOSE=64)
        mod('subprocess', Popen=fn('Popen', m_unknown('Popen')), PIPE=-1)
        mod('operator', attrgetter=fn('attrgetter', m_attrgetter), itemgetter=fn('itemgetter', m_itemgetter))
        unit = self.native_class('BaseAnalyzerUnit', object(), [obj])
        mod('pymorphy2', MorphAnalyzer=fn('PymorphyAnalyzer', m_pymorphy))
        mod('pymorphy2.units')
        mod('pymorphy2.units.base', BaseAnalyzerUnit=unit)

    def load_all(self, eng):
        import os
        top = os.path.join(self.root, 'yargy')
        names = []
        for d, ds, fs in os.walk(top):
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.relpath(os.path.join(d, f), self.root)[:-3].split(os.sep)
                    if p[-1] == '__init__':
                        p = p[:-1]
                    names.append('.'.join(p))
        for n in sorted(names):
            eng.load_module(n)

    def cls(self, name):
        """class by dotted tail, e.g. 'token.Token'"""
        for c in self.classes:
            if c.qualname == name or c.qualname.endswith('.' + name):
                return c
        raise Unsupported('class %s not found' % name)

    def get(self, qual):
        """module attribute by full dotted name"""
        mod, _, name = qual.rpartition('.')
        m = self.modules.get(mod)
        if m is not None and name in m.ns:
            return modelled(m.ns[name])
        c = self.cls(mod)
        v, owner = c.lookup(name)
        if owner is None:
            raise Unsupported('%s not found' % qual)
        return v

    # ----------------------------------------------------- text of values

    def to_str(self, eng, v):
        v = eng.res(v)
        if eng.is_str(v):
            return v
        if isinstance(v, (int, float, bool)) or v is None:
            return str(v)
        if isinstance(v, Sym):
            if v.t.kind == 'any':
                return Sym(STR, eng.uf('str_any', ValSort, StrSort)(v.e))
            return Sym(STR, eng.uf('str_' + v.t.kind, v.t.sort, StrSort)(v.e))
        if isinstance(v, ObjV):
            f = eng.class_attr(v, '__str__')
            if f is not None:
                return eng.res(eng.call(Bound(f, v), []))
        return self.to_repr(eng, v)

    def to_repr(self, eng, v):
        v = eng.res(v)
        if isinstance(v, (int, float, bool, str)) or v is None:
            return repr(v)
        if isinstance(v, ObjV):
            f = eng.class_attr(v, '__repr__')
            if f is not None:
                return eng.res(eng.call(Bound(f, v), []))
            return Sym(STR, eng.uf('repr_obj', IntSort, StrSort)(v.ref))
        if eng.is_str(v):
            return Sym(STR, eng.uf('repr_str', StrSort, StrSort)(eng.strterm(v)))
        if isinstance(v, Sym):
            if v.t.kind == 'any':
                return Sym(STR, eng.uf('repr_any', ValSort, StrSort)(v.e))
            return self.to_str(eng, v)
        return Sym(STR, eng.const('repr', StrSort))

    def percent_format(self, eng, a, b):
        if not isinstance(a, str):
            raise Unsupported('%-format of a computed template')
        args = list(b) if isinstance(b, tuple) else [b]
        out, i = [], 0
        while i < len(a):
            j = a.find('%', i)
            if j < 0:
                out.append(a[i:])
                break
            out.append(a[i:j])
            c = a[j + 1:j + 2]
            if c == '%':
                out.append('%')
            elif c in ('s', 'd', 'r', 'i'):
                if not args:
                    eng.throw('TypeError', 'not enough arguments for format string')
                v = args.pop(0)
                out.append(self.to_repr(eng, v) if c == 'r' else self.to_str(eng, v))
            else:
                raise Unsupported('%-format')
            i = j + 2
        if args:
            eng.throw('TypeError', 'not all arguments converted')
        return strcat(out)

    def str_format(self, eng, template, args, kwargs):
        if not isinstance(template, str):
            raise Unsupported('format of a computed template')
        out = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(template):
            out.append(lit)
            if field is None:
                continue
            if spec:
                raise Unsupported('format specification')
            head, rest = string._string.formatter_field_name_split(field)
            if head == '':
                head = auto
                auto += 1
            if isinstance(head, int):
                if head >= len(args):
                    eng.throw('IndexError', 'format')
                v = args[head]
            else:
                if head not in kwargs:
                    eng.throw('KeyError', head)
                v = kwargs[head]
            for is_attr, name in rest:
                v = eng.getattr(v, name) if is_attr else eng.getitem(v, name)
            out.append(self.to_repr(eng, v) if conv == 'r' else self.to_str(eng, v))
        return strcat(out)

    # -------------------------------------------------------------- methods

    def method_model(self, eng, o, name):
        if isinstance(o, (ListV,)):
            table = METHODS[o.kind] if o.kind in METHODS else {}
        elif isinstance(o, DictV):
            table = METHODS['dict']
        elif isinstance(o, GroupRef):
            table = METHODS['group']
        elif eng.is_str(o):
            table = METHODS['str']
        elif isinstance(o, ExcV):
            if name == 'args':
                return tuple(o.args)
            return None
        elif hasattr(o, 'method_model'):
            return o.method_model(eng, name)
        else:
            return None
        f = table.get(name) or DUNDER.get(name)
        if f is None and isinstance(o, str) and name in ('split', 'splitlines', 'rstrip', 'lstrip', 'partition', 'find',
                                                         'count', 'index', 'zfill', 'rjust', 'ljust'):
            return PyFn(name, lambda e, a, k: str_known(e, o, name, a, k))
        if f is None:
            if isinstance(o, (Sym, StrCat, StrJoin, StrMap, str)) and hasattr(str, name) or \
                    isinstance(o, (ListV, GroupRef)) and hasattr(list, name) or \
                    isinstance(o, DictV) and hasattr(dict, name):
                raise Unsupported('method %s' % name)
            return None
        return PyFn(name, lambda e, a, k: f(e, o, a, k))


# ------------------------------------------------------------------ re (trusted; a unit says what is assumed)

class Regex(object):
    """a compiled pattern"""

    def __init__(self, pattern, flags):
        self.pattern, self.flags = pattern, flags

    def method_model(self, e, name):
        if name == 'finditer':
            return PyFn('finditer', lambda e, a, k: m_re_finditer(e, [self] + list(a), k))
        return None


def m_re_compile(eng, a, k):
    flags = eng.res(a[1] if len(a) > 1 else k.get('flags', 0))
    if not isinstance(flags, int):
        raise Unsupported('computed flags')
    return Regex(eng.res(a[0]), flags)


def m_re_finditer(eng, a, k):
    r = eng.res(a[0])
    if not isinstance(r, Regex) or getattr(eng, 'regex_hook', None) is None:
        raise Unsupported('re.finditer')
    return eng.regex_hook(eng, r, eng.res(a[1]))


# ------------------------------------------------------------------ builtins

def m_unknown(name):
    def f(eng, args, kwargs):
        raise Unsupported('call of %s' % name)
    return f


def m_pymorphy(eng, args, kwargs):
    """pymorphy2.MorphAnalyzer(...): a unit says what the default dictionary is"""
    made = getattr(eng, 'default_dictionary', None)
    if made is None or args or kwargs:
        raise Unsupported('call of pymorphy2.MorphAnalyzer')
    return made(eng)


def m_object_init(eng, a, k):
    if len(a) > 1 or k:
        eng.throw('TypeError', 'object.__init__() takes no arguments')


def m_int(eng, a, k):
    if not a:
        return 0
    v = eng.res(a[0])
    if isinstance(v, (int, str, float)):
        try:
            return int(v)
        except ValueError:
            eng.throw('ValueError', v)
    if isinstance(v, Sym) and v.t.kind in ('int', 'bool'):
        return Sym(INT, eng.num(v))
    if eng.is_str(v):
        t = eng.strterm(v)
        ok = eng.uf('is_decimal', StrSort, BoolSort)(t)
        if not eng.branch(ok):
            eng.throw('ValueError', 'int')
        return Sym(INT, eng.uf('int_of', StrSort, IntSort)(t))
    raise Unsupported('int(%r)' % (v,))


def m_str(eng, a, k):
    return eng.w.to_str(eng, a[0]) if a else ''


def m_repr(eng, a, k):
    return eng.w.to_repr(eng, a[0])


def m_bool(eng, a, k):
    return eng.mkbool(eng.truth(a[0])) if a else False


def m_list(eng, a, k):
    return eng.new_list(eng.parts_of(a[0]) if a else [])


def m_tuple(eng, a, k):
    if not a:
        return ()
    v = eng.res(a[0])
    if isinstance(v, tuple):
        return v
    parts = eng.parts_of(v)
    vals = eng.concrete(parts)
    if vals is not None:
        return tuple(vals)
    return eng.new_list(parts, TupleV)


def m_set(eng, a, k):
    return eng.new_list(eng.parts_of(a[0], True) if a else [], SetV)


def m_dict(eng, a, k):
    d = eng.new_dict()
    if a:
        v = eng.res(a[0])
        if isinstance(v, DictV):
            if v.base is not None:
                raise Unsupported('copy of a symbolic dict')
            if v.groups:
                # the copy shares the lists of the groups: neither may grow later
                d.groups = list(v.groups)
                d.frozen = v.frozen = True
            d.parts = list(v.parts)
        else:
            for p in eng.parts_of(v):
                d.parts.append(p)
    for n, v in k.items():
        d.parts.append(Item((n, v)))
    return d


def m_defaultdict(eng, a, k):
    d = eng.new_dict()
    d.default = eng.res(a[0]) if a else None
    return d


def m_type(eng, a, k):
    if len(a) == 1:
        return eng.type_of(a[0])
    name, bases, ns = [eng.res(x) for x in a]
    if isinstance(name, Sym):
        name = str(name.e)
    items = eng.concrete(ns.parts)
    if items is None:
        raise Unsupported('class with a computed namespace')
    bs = eng.concrete(eng.parts_of(bases))
    return eng.make_class(name, bs, {x: y for x, y in items}, None, 'dynamic.' + name)


def m_len(eng, a, k):
    v = eng.res(a[0])
    if isinstance(v, (str, tuple)):
        return len(v)
    if eng.is_str(v):
        e = eng.uf('str_len', StrSort, IntSort)(eng.strterm(v))
        eng.assume(e >= 0)
        eng.assume((e == 0) == (eng.strterm(v) == eng.lit('')))
        return Sym(INT, e)
    if isinstance(v, ListV):
        eng.check_accum(v)
        if v.kind == 'set':
            vals = eng.concrete(v.parts)
            if vals is None:
                if v.ref is None:
                    raise Unsupported('size of a set')
            else:
                out = []
                for x in vals:
                    if not any(eng.branch(eng.eq(x, y)) for y in out):
                        out.append(x)
                return len(out)
        e = eng.length(v.parts)
        return e.as_long() if z3.is_int_value(e) else Sym(INT, e)
    if isinstance(v, DictV):
        size = getattr(v.base, 'size', None)
        if size is not None:
            return Sym(INT, size + len(eng.new_keys(v)))
        vals = eng.concrete(eng.dict_keys(v))
        if vals is not None:
            return len(vals)
        raise Unsupported('size of a symbolic dict')
    if isinstance(v, ObjV):
        f = eng.class_attr(v, '__len__')
        if f is not None:
            return eng.call(Bound(f, v), [])
    if v is None or isinstance(v, (int, bool)):
        eng.throw('TypeError', 'len')
    raise Unsupported('len of %r' % (v,))


def as_types(eng, t):
    t = eng.res(t)
    if isinstance(t, tuple):
        return tuple(as_types(eng, x) for x in t)
    if isinstance(t, ListV):
        eng.throw('TypeError', 'isinstance() arg 2')
    return t


def m_isinstance(eng, a, k):
    r = eng.isinstance_(a[0], as_types(eng, a[1]))
    return eng.mkbool(r)


def m_issubclass(eng, a, k):
    x, t = eng.res(a[0]), as_types(eng, a[1])
    if not isinstance(x, (ClsV, type)):
        if hasattr(x, 'issubclass_model'):
            return x.issubclass_model(eng, t)
        if isinstance(x, Sym) and x.t.kind == 'cls':
            raise Unsupported('issubclass of a symbolic class')
        eng.throw('TypeError', 'issubclass() arg 1 must be a class')
    if hasattr(t, 'issubclass_rmodel'):
        return t.issubclass_rmodel(eng, x)
    ts = t if isinstance(t, tuple) else (t,)
    return any(isinstance(x, ClsV) and isinstance(y, ClsV) and x.subclass_of(y) for y in ts)


def m_id(eng, a, k):
    v = eng.res(a[0])
    if isinstance(v, ObjV):
        return Sym(INT, v.ref)
    if isinstance(v, ListV):
        if v.ref is not None:
            return Sym(INT, v.ref)
        v.ref_id = getattr(v, 'ref_id', None)
        if v.ref_id is None:
            v.ref_id = eng.alloc_ref()
        return Sym(INT, v.ref_id)
    if isinstance(v, DictV):
        if v.ref is None:
            v.ref = eng.alloc_ref()
        return Sym(INT, v.ref)
    if isinstance(v, ClsV):
        return 10 ** 9 + v.id
    if isinstance(v, PyFn) and isinstance(v.fn, tuple):
        return Sym(INT, v.fn[1])
    if isinstance(v, (FuncV, PyFn, Bound)):
        return 2 * 10 ** 9 + id(v) % 10 ** 9
    if getattr(v, 'is_object', False):
        return Sym(INT, v.ref)
    raise Unsupported('id(%r)' % (v,))


def m_hash(eng, a, k):
    v = eng.res(a[0])
    if isinstance(v, ObjV):
        f = eng.class_attr(v, '__hash__')
        c = v.cls
        if f is None:
            if c is not None:
                for m in c.mro:
                    if '__hash__' in m.ns:
                        eng.throw('TypeError', 'unhashable')
            return HashV((Sym(INT, v.ref),))
        return eng.res(eng.call(Bound(f, v), []))
    if isinstance(v, ListV) and v.kind != 'tuple' or isinstance(v, DictV):
        eng.throw('TypeError', 'unhashable')
    if isinstance(v, tuple):
        out = []
        for x in v:
            x = eng.res(x)
            if isinstance(x, (ObjV, ListV, DictV)) and not isinstance(x, TupleV):
                x = m_hash(eng, [x], {})
            out.append(x)
        return HashV(tuple(out))
    return HashV(v)


def m_getattr(eng, a, k):
    name = eng.res(a[1])
    if not isinstance(name, str):
        o = eng.res(a[0])
        if hasattr(o, 'getattr_model'):
            return o.getattr_model(eng, name)
        raise Unsupported('getattr with a computed name')
    if len(a) > 2:
        try:
            return eng.getattr(a[0], name, a[2])
        except PyRaise as e:
            if e.exc is AttributeError:
                return a[2]
            raise
    return eng.getattr(a[0], name)


def m_hasattr(eng, a, k):
    name = eng.res(a[1])
    try:
        eng.getattr(a[0], name)
        return True
    except PyRaise as e:
        if e.exc is AttributeError:
            return False
        raise


def m_setattr(eng, a, k):
    name = eng.res(a[1])
    if not isinstance(name, str):
        o = eng.res(a[0])
        if hasattr(o, 'setattr_model'):
            return o.setattr_model(eng, name, a[2])
        if isinstance(o, ClsV) and getattr(eng, 'class_attrs_hook', None) is not None:
            eng.class_attrs_hook(eng, o, name, a[2])
            return
        raise Unsupported('setattr with a computed name')
    eng.setattr(a[0], name, a[2])


def m_any(eng, a, k):
    parts = eng.parts_of(a[0], True)
    return eng.mkbool(eng.simp(eng.exists_in(parts, lambda v: v)))


def m_all(eng, a, k):
    parts = eng.parts_of(a[0], True)
    return eng.mkbool(eng.simp(eng.forall_in(parts, lambda v: v)))


def m_sorted(eng, a, k):
    v = eng.res(a[0])
    h = getattr(eng, 'sorted_hook', None)
    parts = eng.parts_of(v, isinstance(v, SetV) and (eng.concrete(v.parts) is not None or getattr(h, 'sets', False)))
    vals = eng.concrete(parts)
    key = k.get('key')
    rev = eng.res(k.get('reverse', False))
    if vals is None or not isinstance(rev, bool):
        if h is not None:
            return h(eng, v, parts, key, rev)
        raise Unsupported('sorting a sequence of unknown length')
    # stable insertion sort with the program's own comparison
    import ast
    if isinstance(v, SetV):
        uniq = []
        for x in vals:
            if not any(eng.branch(eng.eq(x, y)) for y in uniq):
                uniq.append(x)
        vals = uniq
    keys = [eng.call(key, [x]) if key is not None and eng.res(key) is not None else x for x in vals]
    out = []
    for x, kx in zip(vals, keys):
        i = len(out)
        while i > 0:
            less = eng.order(ast.Lt(), kx, out[i - 1][1]) if not rev else eng.order(ast.Lt(), out[i - 1][1], kx)
            if not eng.branch(less if not isinstance(less, Sym) else less.e):
                break
            i -= 1
        out.insert(i, (x, kx))
    return eng.new_list([Item(x) for x, _ in out])


def m_reversed(eng, a, k):
    return eng.new_list(eng.reverse_parts(eng.parts_of(a[0])), GenV)


def numbered(eng, parts, start):
    """parts of (position, value)"""
    base = eng.num(start)
    out = []

    def one(parts, base):
        res = []
        for p in parts:
            if isinstance(p, Item):
                if p.guard is not True:
                    raise Unsupported('numbering a filtered sequence')
                b = z3.simplify(base)
                res.append(Item((b.as_long() if z3.is_int_value(b) else Sym(INT, b), p.value)))
                base = base + 1
            elif isinstance(p, For) and not p.dedup and all(isinstance(q, Item) and q.guard is True for q in p.parts):
                m = len(p.parts)
                items = [Item((Sym(INT, z3.simplify(base + p.k * m + i)), q.value)) for i, q in enumerate(p.parts)]
                res.append(For(p.k, p.n, items))
                base = base + p.n * m
            else:
                raise Unsupported('numbering a filtered sequence')
        return res
    return one(parts, base)


def m_enumerate(eng, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    return eng.new_list(numbered(eng, eng.parts_of(a[0]), start), GenV)


def m_zip(eng, a, k):
    seqs = [eng.parts_of(x) for x in a]
    if not seqs:
        return eng.new_list([], GenV)
    vals = [eng.concrete(s) for s in seqs]
    if all(v is not None for v in vals):
        return eng.new_list([Item(t) for t in zip(*vals)], GenV)
    lens = [eng.length(s) for s in seqs]
    n = lens[0]
    for x in lens[1:]:
        n = z3.If(x < n, x, n)
    n = z3.simplify(n)
    kk = eng.index()
    with eng.loopctx(kk, n):
        ps = eng.run_paths(lambda: tuple(eng.at(s, kk) for s in seqs))
    # the cases exclude each other and one of them is taken
    v = ps[-1].value
    for p in reversed(ps[:-1]):
        v = eng.alt(p.guard, p.value, v)
    return eng.new_list([For(kk, n, [Item(v, True)])], GenV)


def m_range(eng, a, k):
    vals = [eng.res(x) for x in a]
    for v in vals:
        if eng.kind_of(v) not in ('int', 'bool'):
            eng.throw('TypeError', 'range')
    if all(isinstance(v, int) for v in vals):
        r = range(*vals)
        if len(r) > 2000:
            raise Unsupported('long range')
        return eng.new_list([Item(x) for x in r], ListV)
    if len(vals) == 1:
        lo, hi = z3.IntVal(0), eng.num(vals[0])
    elif len(vals) == 2:
        lo, hi = eng.num(vals[0]), eng.num(vals[1])
    else:
        if vals[2] != -1:
            raise Unsupported('range step')
        hi, lo = eng.num(vals[0]), eng.num(vals[1])
        n = z3.simplify(z3.If(hi - lo > 0, hi - lo, 0))
        kk = eng.index()
        return eng.new_list([For(kk, n, [Item(Sym(INT, z3.simplify(hi - kk)))])], ListV)
    n = z3.simplify(z3.If(hi - lo > 0, hi - lo, 0))
    kk = eng.index()
    return eng.new_list([For(kk, n, [Item(Sym(INT, z3.simplify(lo + kk)))])], ListV)


def m_iter(eng, a, k):
    v = eng.res(a[0])
    if isinstance(v, GenV):
        return v
    return eng.new_list(eng.parts_of(v), GenV)


def m_next(eng, a, k):
    g = eng.res(a[0])
    if not isinstance(g, GenV):
        raise Unsupported('next of %r' % (g,))
    vals = eng.concrete(g.parts)
    if vals is not None:
        if not vals:
            if len(a) > 1:
                return a[1]
            eng.throw('StopIteration')
        eng.mutate_parts(g, g.parts[1:], 'pop', (0,))
        return vals[0]
    try:
        return eng.first_of(g.parts)
    except PyRaise:
        if len(a) > 1:
            return a[1]
        eng.throw('StopIteration')


def m_minmax(which):
    def f(eng, a, k):
        vals = list(a) if len(a) > 1 else eng.concrete(eng.parts_of(a[0]))
        if vals is None or k:
            raise Unsupported('min/max of a sequence of unknown length')
        if not vals:
            eng.throw('ValueError', 'empty')
        import ast
        best = vals[0]
        for v in vals[1:]:
            c = eng.order(ast.Lt(), v, best) if which == 'min' else eng.order(ast.Lt(), best, v)
            if eng.branch(c if not isinstance(c, Sym) else c.e):
                best = v
        return best
    return f


m_min = m_minmax('min')
m_max = m_minmax('max')


def m_sum(eng, a, k):
    import ast
    vals = eng.concrete(eng.parts_of(a[0]))
    if vals is None:
        raise Unsupported('sum of a sequence of unknown length')
    t = a[1] if len(a) > 1 else 0
    for v in vals:
        t = eng.binop(ast.Add(), t, v)
    return t


def m_abs(eng, a, k):
    v = eng.res(a[0])
    if isinstance(v, int):
        return abs(v)
    e = eng.num(v)
    return Sym(INT, z3.If(e < 0, -e, e))


def mapped(eng, seq, f):
    acc = eng.new_list(kind=GenV)

    def body(v):
        r = f(v)
        if r is not NotImpl:
            eng.list_append(acc, r)
    eng.iterate_parts(eng.parts_of(seq), body, None, None)
    return acc


def m_map(eng, a, k):
    if len(a) != 2:
        raise Unsupported('map of several sequences')
    return mapped(eng, a[1], lambda v: eng.res(eng.call(a[0], [v])))


def m_filter(eng, a, k):
    def f(v):
        c = v if eng.res(a[0]) is None else eng.call(a[0], [v])
        return v if eng.branch(eng.truth(c)) else NotImpl
    return mapped(eng, a[1], f)


def m_super(eng, a, k):
    if len(a) == 2:
        return SuperV(eng.res(a[0]), eng.res(a[1]))
    raise Unsupported('super()')


def m_callable(eng, a, k):
    v = eng.res(a[0])
    if isinstance(v, (FuncV, PyFn, Bound, ClsV)):
        return True
    if isinstance(v, ObjV):
        return eng.class_attr(v, '__call__') is not None
    return False


def m_lru_cache(eng, a, k):
    def deco(e, a2, k2):
        f = a2[0]
        return PyFn(getattr(f, 'name', 'cached'), lambda e3, a3, k3: e3.call(f, a3, k3), bind=True)
    if len(a) == 1 and isinstance(eng.res(a[0]), (FuncV, PyFn)):
        return deco(eng, a, k)
    return PyFn('lru_cache', deco)


def m_combinations(eng, a, k):
    r = eng.res(a[1])
    if r != 2:
        raise Unsupported('combinations of other than 2')
    parts = eng.parts_of(a[0])
    vals = eng.concrete(parts)
    if vals is not None:
        import itertools
        return eng.new_list([Item(t) for t in itertools.combinations(vals, 2)], GenV)
    n = eng.length(parts)
    i, j = eng.index(), eng.index()
    m = z3.simplify(n - 1 - i)
    with eng.loopctx(i, n):
        first = eng.at(parts, i)
        with eng.loopctx(j, m):
            second = eng.at(parts, z3.simplify(i + 1 + j))
    return eng.new_list([For(i, n, [For(j, m, [Item((first, second))])])], GenV)


def m_chain(eng, a, k):
    parts = []
    for x in a:
        parts.extend(eng.parts_of(x))
    return eng.new_list(parts, GenV)


def m_chain_from(eng, a, k):
    acc = eng.new_list(kind=GenV)
    eng.iterate(eng.res(a[0]), lambda x: eng.iterate(eng.res(x), lambda v: eng.list_append(acc, v)))
    return acc


def m_attrgetter(eng, a, k):
    names = [eng.res(x) for x in a]
    if k or not all(isinstance(n, str) for n in names):
        raise Unsupported('attrgetter')

    def get(e, a, k):
        vs = []
        for n in names:
            v = a[0]
            for x in n.split('.'):
                v = e.getattr(v, x)
            vs.append(e.res(v))
        return vs[0] if len(vs) == 1 else tuple(vs)
    return fn('attrgetter', get)


def m_itemgetter(eng, a, k):
    def get(e, b, k):
        vs = [e.res(e.getitem(b[0], i)) for i in a]
        return vs[0] if len(vs) == 1 else tuple(vs)
    return fn('itemgetter', get)


# ------------------------------------------------------------------- methods

def l_append(e, o, a, k):
    e.list_append(o, a[0])


def l_extend(e, o, a, k):
    e.list_extend(o, e.parts_of(a[0]))


def l_pop(e, o, a, k):
    vals = e.concrete(o.parts)
    i = e.res(a[0]) if a else -1
    if vals is None:
        return pop_unknown(e, o, i)
    if not isinstance(i, int):
        raise Unsupported('pop at a computed index')
    if not -len(vals) <= i < len(vals):
        e.throw('IndexError', 'pop')
    vals = list(vals)
    r = vals.pop(i)
    e.mutate_parts(o, [Item(x) for x in vals], 'pop', (i,))
    return e.res(r)


def pop_unknown(e, o, i):
    if i not in (0, -1):
        raise Unsupported('pop from a list of unknown length')
    end = 0 if i == 0 else len(o.parts) - 1
    p = o.parts[end]
    rest = o.parts[1:] if i == 0 else o.parts[:-1]
    if isinstance(p, Item) and p.guard is True:
        e.mutate_parts(o, rest, 'pop', (i,))
        return e.res(p.value)
    if not isinstance(p, For) or p.dedup or len(p.parts) != 1 or not isinstance(p.parts[0], Item) or \
            p.parts[0].guard is not True:
        raise Unsupported('pop from a list of unknown length')
    if e.branch(p.n <= 0):
        e.mutate_parts(o, rest, 'pop', (i,))
        if not rest:
            e.throw('IndexError', 'pop')
        return l_pop(e, o, [i], {})
    at = z3.IntVal(0) if i == 0 else z3.simplify(p.n - 1)
    v = e.res(e.subst(p.parts[0].value, p.k, at))
    e.type_facts(v)
    if i == 0:
        f = For(p.k, z3.simplify(p.n - 1), e.inst_parts(p.parts, p.k, p.k + 1))
        e.mutate_parts(o, [f] + rest, 'pop', (i,))
    else:
        f = For(p.k, z3.simplify(p.n - 1), p.parts)
        e.mutate_parts(o, rest + [f], 'pop', (i,))
    return v


def l_insert(e, o, a, k):
    i = e.res(a[0])
    if i == 0:
        e.mutate_parts(o, [Item(a[1])] + o.parts, 'insert', (0, a[1]))
        return
    raise Unsupported('insert')


def l_index(e, o, a, k):
    vals = e.concrete(o.parts)
    if vals is None:
        raise Unsupported('index')
    for i, v in enumerate(vals):
        if e.branch(e.eq(v, a[0])):
            return i
    e.throw('ValueError', 'index')


def l_remove(e, o, a, k):
    vals = e.concrete(o.parts)
    if vals is None:
        raise Unsupported('remove')
    for i, v in enumerate(vals):
        if e.branch(e.eq(v, a[0])):
            e.mutate_parts(o, [Item(x) for x in vals[:i] + vals[i + 1:]], 'pop', (i,))
            return
    e.throw('ValueError', 'remove')


def l_reverse(e, o, a, k):
    e.mutate_parts(o, e.reverse_parts(o.parts), 'reorder', ())


def l_sort(e, o, a, k):
    s = m_sorted(e, [o], k)
    e.mutate_parts(o, s.parts, 'reorder', ())


def l_clear(e, o, a, k):
    e.mutate_parts(o, [], 'reorder', ())


def l_copy(e, o, a, k):
    e.check_accum(o)
    return e.new_list(o.parts, type(o))


def s_add(e, o, a, k):
    old = o.parts

    def undo():
        o.parts = old
    e.log('add', o, (a[0],), undo)
    o.parts = o.parts + [Item(a[0])]


def s_update(e, o, a, k):
    for x in a:
        parts = e.parts_of(x, True)
        e.mutate_parts(o, o.parts + parts, 'update', (parts,))


def s_union(e, o, a, k):
    e.check_accum(o)
    parts = list(o.parts)
    for x in a:
        parts += e.parts_of(x, True)
    return e.new_list(parts, SetV)


def d_get(e, o, a, k):
    return e.dict_get_or(o, a[0], a[1] if len(a) > 1 else None)


def d_items(e, o, a, k):
    return e.new_list(e.dict_items(o), GenV)


def d_keys(e, o, a, k):
    return e.new_list(e.dict_keys(o), GenV)


def d_values(e, o, a, k):
    return e.new_list([map_part(p, lambda kv: kv[1]) for p in e.dict_items(o)], GenV)


def d_setdefault(e, o, a, k):
    v = e.res(a[1]) if len(a) > 1 else None
    if isinstance(v, ListV) and v.kind == 'list' and v.ref is None and not v.parts and o.base is None and not o.parts and \
            (id(o) in e.accum or e.loopidx or o.groups):
        # a list for each key (the same as a defaultdict)
        return GroupRef(o, a[0])
    if e.branch(e.dict_has(o, a[0])):
        return e.dict_get(o, a[0])
    v = a[1] if len(a) > 1 else None
    e.dict_set(o, a[0], v)
    return v


def d_update(e, o, a, k):
    for x in a:
        x = e.res(x)
        if not isinstance(x, DictV):
            raise Unsupported('dict.update')
        for kv in e.concrete(e.dict_items(x)) or ():
            e.dict_set(o, kv[0], kv[1])
    for n, v in k.items():
        e.dict_set(o, n, v)


def d_copy(e, o, a, k):
    return m_dict(e, [o], {})


def g_append(e, o, a, k):
    e.dict_group(o.d, o.key, a[0])


def g_extend(e, o, a, k):
    raise Unsupported('extend of a group')


def str_uf(name, ret):
    sort = {'str': StrSort, 'bool': BoolSort, 'int': IntSort}[ret]

    def f(e, o, a, k):
        if isinstance(o, str) and all(isinstance(e.res(x), (str, int)) for x in a):
            return getattr(o, name)(*[e.res(x) for x in a])
        args = [e.res(x) for x in a]
        terms, sorts = [e.strterm(o)], [StrSort]
        for x in args:
            if e.is_str(x):
                terms.append(e.strterm(x))
                sorts.append(StrSort)
            elif e.kind_of(x) == 'int':
                terms.append(e.num(x))
                sorts.append(IntSort)
            else:
                raise Unsupported('str.%s' % name)
        r = e.uf('str_' + name, *(sorts + [sort]))(*terms)
        if name == 'lower' and not a:
            # lower() is idempotent on the alphabets considered; recorded as trusted
            pass
        return Sym(T(ret), r)
    return f


def str_known(e, o, name, a, k):
    args = [e.res(x) for x in a]
    if k or not all(isinstance(x, (str, int)) or x is None for x in args):
        raise Unsupported('str.%s' % name)
    try:
        v = getattr(o, name)(*args)
    except (TypeError, ValueError) as x:
        e.throw(type(x).__name__, name)
    return e.new_list([Item(x) for x in v], ListV) if isinstance(v, list) else v


def str_join(e, o, a, k):
    parts = e.parts_of(a[0])
    vals = e.concrete(parts)
    if vals is not None:
        out = []
        for i, v in enumerate(vals):
            v = e.res(v)
            if not e.is_str(v):
                if isinstance(v, Sym) and v.t.kind == 'any':
                    raise Unsupported('join of a value of unknown type')
                e.throw('TypeError', 'join')
            if i:
                out.append(o)
            out.append(v)
        return strcat(out)
    return StrJoin(o, parts)


def str_replace(e, o, a, k):
    x, y = e.res(a[0]), e.res(a[1])
    if isinstance(o, str) and isinstance(x, str) and isinstance(y, str):
        return o.replace(x, y)
    if isinstance(x, str) and isinstance(y, str) and len(x) == 1 and len(a) == 2:
        return replace_char(e, o, x, y)
    raise Unsupported('str.replace')


def replace_char(e, o, x, y):
    """o.replace(x, y) as a per-character substitution"""
    if isinstance(o, str):
        return o.replace(x, y)
    if isinstance(o, StrCat):
        return strcat([replace_char(e, p, x, y) for p in o.parts])
    if isinstance(o, Sym):
        return StrMap(o, {x: y})
    if isinstance(o, StrMap):
        table = {c: r.replace(x, y) for c, r in o.table.items()}
        if x not in table:
            table[x] = y
        return StrMap(o.base, table)
    raise Unsupported('str.replace')


def str_format(e, o, a, k):
    return e.w.str_format(e, o, a, k)


DUNDER = {
    '__getitem__': lambda e, o, a, k: e.getitem(o, a[0]),
    '__contains__': lambda e, o, a, k: e.contains(o, a[0]),
}

METHODS = {
    'list': {'append': l_append, 'extend': l_extend, 'pop': l_pop, 'insert': l_insert, 'index': l_index,
             'remove': l_remove, 'reverse': l_reverse, 'sort': l_sort, 'copy': l_copy, 'clear': l_clear,
             'popleft': lambda e, o, a, k: l_pop(e, o, [0], k)},
    'tuple': {'index': l_index},
    'gen': {'append': l_append},
    'set': {'add': s_add, 'update': s_update, 'union': s_union, 'copy': l_copy},
    'dict': {'get': d_get, 'items': d_items, 'keys': d_keys, 'values': d_values, 'setdefault': d_setdefault,
             'update': d_update, 'copy': d_copy},
    'group': {'append': g_append, 'extend': g_extend},
    'str': {'join': str_join, 'format': str_format, 'replace': str_replace,
            'lower': str_uf('lower', 'str'), 'upper': str_uf('upper', 'str'), 'title': str_uf('title', 'str'),
            'strip': str_uf('strip', 'str'), 'capitalize': str_uf('capitalize', 'str'),
            'casefold': str_uf('casefold', 'str'), 'swapcase': str_uf('swapcase', 'str'),
            'islower': str_uf('islower', 'bool'), 'isupper': str_uf('isupper', 'bool'),
            'istitle': str_uf('istitle', 'bool'), 'isdigit': str_uf('isdigit', 'bool'),
            'isalpha': str_uf('isalpha', 'bool'), 'isspace': str_uf('isspace', 'bool'),
            'isnumeric': str_uf('isnumeric', 'bool'), 'isdecimal': str_uf('isdecimal', 'bool'),
            'startswith': str_uf('startswith', 'bool'), 'endswith': str_uf('endswith', 'bool')},
}
