"""Shared vocabulary of the contracts."""
import ast
import z3
from pyvc.values import *
from pyvc.engine import zb, conj, disj, Maybe, Alt, Filtered, free_consts
from pyvc.models import TupleV
from pyvc.unit import unit


class Raw(object):
    """pymorphy2 parse record (trusted): normal_form, tag.grammemes, inflect"""

    def __init__(self, eng, ref):
        self.ref = ref

    def method_model(self, e, name):
        if name == 'normal_form':
            return Sym(STR, e.uf('raw_normal_form', IntSort, StrSort)(self.ref))
        if name == 'word':
            return Sym(STR, e.uf('raw_word', IntSort, StrSort)(self.ref))
        if name == 'tag':
            return RawTag(self.ref)
        if name == 'inflect':
            def inflect(e, a, k):
                g = e.box(a[0]) if not isinstance(e.res(a[0]), ListV) else grams_term(e, e.res(a[0]))
                none = e.uf('raw_inflect_none', IntSort, ValSort, BoolSort)(self.ref, g)
                r = Raw(e, e.uf('raw_inflect', IntSort, ValSort, IntSort)(self.ref, g))
                return Maybe(none, r)
            return PyFn('inflect', inflect)
        return None

    def subst_model(self, e, k, x):
        return Raw(e, z3.substitute(self.ref, (k, x)))


class RawTag(object):
    def __init__(self, ref):
        self.ref = ref

    def method_model(self, e, name):
        if name == 'grammemes':
            return e.symlist(e.uf('raw_grammemes', IntSort, IntSort)(self.ref), STR, SetV)
        return None

    def subst_model(self, e, k, x):
        return RawTag(z3.substitute(self.ref, (k, x)))


def grams_term(e, v):
    """term for a set of grammemes given to inflect: the set, not the object"""
    if v.ref is not None:
        return e.uf('box_list', IntSort, ValSort)(v.ref)
    vals = e.concrete(v.parts)
    if vals is not None and all(isinstance(x, str) for x in vals):
        return e.vlit(('grams',) + tuple(sorted(set(vals))))
    raise Unsupported('computed grammemes')


RAW = T('model', Raw)

SCHEMA = {
    ('Span', 'start'): INT, ('Span', 'stop'): INT,
    ('Token', 'value'): STR, ('Token', 'span'): OBJ('Span'), ('Token', 'type'): STR,
    ('MorphToken', 'forms'): LIST(OBJ('Form')),
    ('TagToken', 'tag'): ANY,
    ('Form', 'normalized'): STR, ('Form', 'grams'): OBJ('Grams'), ('Form', 'raw'): RAW,
    ('Grams', 'values'): SET(STR),
    # fields a unit says nothing else about
    ('BNFRule', 'name'): OPT(STR), ('BNFRule', 'interpretator'): OPT(OBJ('Interpretator')),
    ('BNFRule', 'relation'): OPT(OBJ('Relation')), ('BNFRule', 'productions'): LIST(OBJ('Production')),
    ('Production', 'main'): INT, ('PipelineProduction', 'value'): STR,
    ('Node', 'rule'): OBJ('BNFRule'), ('Node', 'production'): OBJ('Production'), ('Node', 'rank'): INT,
    ('Leaf', 'predicate'): OBJ('Predicate'), ('Leaf', 'token'): OBJ('Token'),
    ('Tree', 'root'): OBJ('Node'), ('Match', 'tree'): OBJ('Tree'),
    ('Column', 'index'): INT, ('Column', 'token'): OPT(OBJ('Token')), ('Column', 'states'): LIST(OBJ('State')),
    ('State', 'rule'): OBJ('BNFRule'), ('State', 'production'): OBJ('Production'), ('State', 'dot_index'): INT,
    ('State', 'start_column'): OBJ('Column'), ('State', 'stop_column'): OBJ('Column'), ('State', 'node'): OBJ('Node'),
    ('Chart', 'columns'): LIST(OBJ('Column')), ('Chart', 'tokens'): LIST(OBJ('Token')),
    ('Parser', 'rule'): OBJ('BNFRule'), ('Parser', 'tokenizer'): OBJ('Tokenizer'), ('Parser', 'tagger'): OBJ('Tagger'),
    ('NamedRule', 'name'): STR, ('InterpretationRule', 'interpretator'): OBJ('Interpretator'),
    ('RelationRule', 'relation'): OBJ('Relation'), ('PipelineRule', 'pipeline'): OBJ('Pipeline'),
    ('ExtendedRule', 'reverse'): BOOL, ('MinBoundedRule', 'min'): INT, ('MaxBoundedRule', 'max'): INT,
}


def get(e, o, name):
    return e.res(e.getattr(o, name))


def text(e, t):
    return e.term(get(e, t, 'value'))


def fieldterm(e, cls, name, ref, sort):
    return e.uf('fld_%s_%s' % (cls, name), IntSort, sort)(ref)


def is_cls(e, o, name):
    """z3 Bool: o is an instance of the class"""
    return zb(e.isinstance_(o, e.w.cls(name)))


def forms_of(e, t):
    """list of forms of a pre-state token (meaningful for morph tokens only)"""
    return e.symlist(fieldterm(e, 'MorphToken', 'forms', t.ref, IntSort), OBJ('Form'))


def q(e, name='q'):
    e.counter += 1
    return z3.Int('%s!%d' % (name, e.counter))


def some_form(e, t, pred):
    """z3: some form of t satisfies pred(form ref)"""
    l = forms_of(e, t)
    k = q(e)
    f = e.uf('el_obj_Form', IntSort, IntSort, IntSort)(l.ref, k)
    return z3.Exists([k], z3.And(k >= 0, k < e.length(l.parts), pred(f)))


def gram_in(e, form_ref, x):
    """z3: grammeme x (Str term) is among the grammemes of the form"""
    g = fieldterm(e, 'Form', 'grams', form_ref, IntSort)
    return e.mem(fieldterm(e, 'Grams', 'values', g, IntSort), STR, x)


def token(e, cls='Token', name='token'):
    t = e.fresh(OBJ(cls), name)
    return t


def flat(e, parts):
    """values and For parts present on this path (forks on guards)"""
    out = []
    for p in parts:
        if isinstance(p, Item):
            if p.guard is True or e.branch(p.guard):
                out.append(e.res(p.value))
        elif isinstance(p, For):
            n = z3.simplify(p.n) if z3.is_expr(p.n) else z3.IntVal(p.n)
            if z3.is_int_value(n) and n.as_long() == 0:
                continue
            if z3.is_int_value(n) and n.as_long() <= 4 and not p.dedup:
                for i in range(n.as_long()):
                    out.extend(flat(e, e.inst_parts(p.parts, p.k, z3.IntVal(i))))
                continue
            p = unguard(e, p)
            if p is not None:
                out.append(p)
        else:
            out.append(p)
    return out


def conjuncts(c):
    if z3.is_and(c):
        return [x for y in c.children() for x in conjuncts(y)]
    return [c]


def unguard(e, p):
    """a filter that is the same for every element is decided once (forks)"""
    items, bound = [], [p.k]

    def leaves(parts):
        for q in parts:
            if isinstance(q, For):
                bound.append(q.k)
                leaves(q.parts)
            else:
                items.append(q)
    leaves(p.parts)
    if not items or not all(isinstance(q, Item) and z3.is_expr(q.guard) for q in items) or p.dedup:
        return p

    def fixed(c):
        return not any(v.eq(x) for v in free_consts(c) for x in bound)

    def rest(parts):
        out = []
        for q in parts:
            if isinstance(q, For):
                inner = rest(q.parts)
                if inner:
                    f = For(q.k, q.n, inner)
                    f.dedup, f.count = q.dedup, q.count
                    out.append(f)
                continue
            fx = [c for c in conjuncts(q.guard) if fixed(c)]
            if fx and not e.branch(z3.And(*fx)):
                continue
            left = [c for c in conjuncts(q.guard) if not fixed(c)]
            out.append(Item(q.value, z3.And(*left) if left else True))
        return out
    if not all(any(fixed(c) for c in conjuncts(q.guard)) for q in items):
        return p
    parts = rest(p.parts)
    if not parts:
        return None
    f = For(p.k, p.n, parts)
    f.count = p.count
    return f


def same_seq(e, got, want, label, eq=None):
    """prove that two sequences in normal form are equal element by element"""
    eq = eq or (lambda a, b: e.eq(a, b))
    a, b = flat(e, got), flat(e, want)
    ea, eb = [x for x in a if isinstance(x, (For, Blob))], [x for x in b if isinstance(x, (For, Blob))]
    if not ea and not eb:
        if len(a) != len(b):
            e.prove(False, label + ': number of elements')
            return
        for x, y in zip(a, b):
            e.prove(zb(eq(x, y)), label)
        return
    if len(a) != len(b) or [isinstance(x, For) for x in a] != [isinstance(x, For) for x in b]:
        # the same sequence may be split differently: undecided, unless empty
        raise Unsupported(('sequences of different shape: %r / %r' % (a, b))[:600])
    for x, y in zip(a, b):
        if isinstance(x, For):
            if x.dedup != y.dedup:
                raise Unsupported('deduplicated sequence')
            e.prove(x.n == y.n, label + ': length')
            k = e.index()
            ix, iy = e.inst_parts(x.parts, x.k, k), e.inst_parts(y.parts, y.k, k)
            with e.loopctx(k, y.n):
                e.run_paths(lambda: same_seq(e, ix, iy, label, eq))
        else:
            e.prove(zb(eq(x, y)), label)


def same_obj(e, a, b):
    """identity of two values"""
    return zb(e.ident(a, b))


def frame(e, label='nothing that existed before the call is changed', allow=()):
    """no field or container of the pre-state has been written on this path"""
    bad = []
    for op in e.logs:
        if op.kind in ('field', 'heapw', 'pointwise') and isinstance(op.target, ObjV) and not op.target.fresh:
            if op.target not in allow and (op.kind != 'heapw'):
                bad.append('%s.%s' % (op.target, op.data[0]))
        if op.kind in ('append', 'extend', 'set', 'pop', 'reorder', 'insert', 'add', 'update') and \
                isinstance(op.target, ListV) and op.target.ref is not None and op.target not in allow:
            bad.append('%s of %s' % (op.kind, op.target.ref))
    e.prove(not bad, label + (' (%s)' % ', '.join(bad) if bad else ''))


def fields_are(e, o, cls, label, **want):
    """o is exactly of class cls with these fields"""
    c = e.w.cls(cls)
    e.prove(isinstance(o, ObjV) and o.cls is c, label + ': class')
    for n, v in want.items():
        got = get(e, o, n)
        if isinstance(v, ListV) and isinstance(got, ListV):
            if got is v:
                e.prove(True, '%s: %s' % (label, n))
            else:
                same_seq(e, got.parts, v.parts, '%s: %s' % (label, n))
        else:
            e.prove(zb(e.ident(got, v)), '%s: %s' % (label, n))


def merged(*ds):
    r = {}
    for d in ds:
        r.update(d)
    return r


def share(prop, module, *names):
    """the property also rests on these units of another property (all of them by default)"""
    import importlib
    from pyvc.unit import UNITS
    importlib.import_module('specs.' + module.lower())
    for u in UNITS[module]:
        if not names or any(n in u.name for n in names):
            UNITS.setdefault(prop, []).append(u)


class WhileInv(object):
    """while loop by a loop invariant: one per variable the loop assigns.

    havoc(e, name, entry) -> arbitrary value of the variable that satisfies the invariant (assumed), or NotImpl when
    the variable has no value before the loop; check(e, name, entry, value) proves the invariant for a new value.
    The body may write nothing but local variables."""

    def __init__(self, function, havoc, check):
        self.function = function
        self.havoc = havoc
        self.check = check

    def matches(self, e, node, seq, sc):
        return isinstance(node, ast.While) and sc is not None and sc.func is not None and \
            sc.func.qualname == self.function

    def run_while(self, e, st, sc):
        names = sorted({x.id for b in st.body + [st.test] for x in ast.walk(b)
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        entry = {n: e.res(sc.vars[n]) for n in names if n in sc.vars}
        for n in names:
            if n in entry:
                self.check(e, n, entry[n], entry[n])
                e.set_var(sc, n, self.havoc(e, n, entry[n]))
        e.stamp += 1
        mark, stamp = len(e.logs), e.stamp
        if not e.branch(zb(e.truth(e.ev(st.test, sc)))):
            e.ex(st.orelse, sc)
            return
        try:
            e.ex(st.body, sc)
        except BreakX:
            self.silent(e, mark, sc, stamp)
            return
        except ContinueX:
            pass
        self.silent(e, mark, sc, stamp)
        for n in names:
            if n in entry:
                self.check(e, n, entry[n], e.res(sc.vars[n]))
        raise PathEnd()

    def silent(self, e, mark, sc, stamp):
        for op in e.logs[mark:]:
            if op.kind in ('env', 'resolve') and op.target is sc:
                continue
            if op.kind in ('resolve',) or not e.pre_existing(op.target, stamp):
                continue
            raise Unsupported('effect %s in a while loop' % op.kind)
