"""C11: facts collect exactly the attributes marked in the matched phrase.

A fact class is a scheme: an unknown sequence of declared names, each with an unknown attribute (ordinary with a default, or
repeatable).  The state of an InterpretatorFact is a table over names.  set and merge are proved for every state and every
name, FactInterpretator.__call__ as a sequence of set and merge, the views as functions of the table."""
from .lib import *
from . import c05, c12, c13, c15

I = 'yargy.interpretation.'
FACT = I + 'fact.'
IF = FACT + 'InterpretatorFact'
IP = I + 'interpretator.'
RES = OBJ('InterpretatorResult')


# --- schemes ------------------------------------------------------------------

class Scheme(object):
    """a class of facts"""

    def __init__(self, e, ref):
        self.ref = ref

    def method_model(self, e, name):
        if name == '__attributes__':
            return declared(e, self.ref)
        if name == '__name__':
            return Sym(STR, e.uf('scheme_name', IntSort, StrSort)(self.ref))
        return None

    def getattr_model(self, e, key):
        return attribute_of(e, self.ref, key)

    def issubclass_model(self, e, t):
        if isinstance(t, Scheme):
            return Sym(BOOL, descends(e, self.ref, t.ref))
        if isinstance(t, ClsV):
            return e.w.cls('Fact').subclass_of(t)
        raise Unsupported('issubclass')

    def call_model(self, e, args, kwargs):
        if args:
            raise Unsupported('a fact made of positional arguments')
        o = e.new_obj(e.w.cls('Fact'))
        d = kwargs.get('**')
        if d is None:
            d = e.new_dict()
            d.parts = [Item((k, v)) for k, v in kwargs.items()]
        e.ghost_emit('made', [Item((o, self, d))])
        return o

    def subst_model(self, e, k, x):
        return Scheme(e, z3.substitute(self.ref, (k, x)))


SCHEME = T('model', Scheme)


def scheme(e, name='scheme'):
    s = Scheme(e, e.const(name, IntSort))
    distinct(e, s.ref)
    return s


def declared(e, ref):
    """the names a scheme declares"""
    return e.symlist(e.uf('declared', IntSort, IntSort)(ref), STR, ListV)


def name_at(e, ref, i):
    return e.uf('el_str', IntSort, IntSort, StrSort)(e.uf('declared', IntSort, IntSort)(ref), i)


def distinct(e, ref):
    """the names a scheme declares differ"""
    i, j = q(e, 'i'), q(e, 'j')
    n = e.length(declared(e, ref).parts)
    a, b = name_at(e, ref, i), name_at(e, ref, j)
    pos = e.uf('position', IntSort, StrSort, IntSort)
    e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), pos(ref, a) == i), patterns=[a]))


def is_declared(e, ref, key):
    """z3: the scheme declares the name"""
    pos = e.uf('position', IntSort, StrSort, IntSort)(ref, key)
    n = e.length(declared(e, ref).parts)
    return z3.And(pos >= 0, pos < n, name_at(e, ref, pos) == key)


def attribute_of(e, ref, key):
    return e.mk(OBJ('Attribute', 'RepeatableAttribute'), e.uf('attribute_of', IntSort, StrSort, IntSort)(ref, e.term(key)))


def descends(e, a, b):
    return e.uf('descends', IntSort, IntSort, BoolSort)(a, b)


def repeats(e, ref, key):
    """z3: the attribute of that name is repeatable"""
    return is_cls(e, e.mk(OBJ('Attribute', 'RepeatableAttribute'), e.uf('attribute_of', IntSort, StrSort, IntSort)(ref, key)),
                  'RepeatableAttribute')


def default_of(e, ref, key):
    return Sym(ANY, fieldterm(e, 'Attribute', 'default', e.uf('attribute_of', IntSort, StrSort, IntSort)(ref, key), ValSort))


SCHEMA11 = merged(c13.SCHEMA_TREE, {
    ('FactInterpretator', 'fact'): SCHEME, ('InterpretatorFact', 'scheme'): SCHEME,
    ('AttributeBase', 'fact'): SCHEME, ('AttributeBase', 'name'): STR, ('Attribute', 'fact'): SCHEME,
    ('Attribute', 'name'): STR, ('Attribute', 'default'): ANY,
    ('AttributeResult', 'attribute'): OBJ('AttributeBase'), ('AttributeResult', 'value'): RES,
    ('FactResult', 'fact'): OBJ('InterpretatorFact'), ('NormalizerResult', 'value'): ANY,
    ('NormalizerResult', 'input'): OBJ('InterpretatorInput'),
    ('InterpretatorFact', 'repeatable'): SET(STR), ('InterpretatorFact', 'modified'): SET(STR),
    ('Fact', '_raw'): OBJ('InterpretatorFact'), ('Chain', 'tokens'): LIST(OBJ('Token')), ('Chain', 'key'): OPT(STR),
    ('InterpretatorInput', 'items'): LIST(OBJ('Token', 'InterpretatorResult')), ('InterpretatorInput', 'key'): OPT(STR),
    ('Token', 'span'): OBJ('Span'), ('Span', 'start'): INT, ('Span', 'stop'): INT,
    ('AttributeSchemeBase', 'name'): STR, ('AttributeScheme', 'name'): STR, ('AttributeScheme', 'default'): ANY,
})


# --- the state of a fact under assembly ----------------------------------------

class Table(object):
    """the attributes of a fact: declared names with a value each"""

    def __init__(self, scheme, value):
        self.scheme, self.value = scheme, value

    def has(self, e, key):
        return is_declared(e, self.scheme, e.term(key))

    def get(self, e, key, missing=None):
        key = e.term(key)
        if e.branch(self.has(e, Sym(STR, key))):
            return e.res(self.value(e, key))
        if missing is not NotImpl:
            return missing
        e.throw('KeyError', key)

    def size(self, e):
        return e.length(declared(e, self.scheme).parts)

    def key(self, e, k):
        return name_at(e, self.scheme, k)

    def keys(self, e):
        k = e.index()
        return [For(k, self.size(e), [Item(Sym(STR, self.key(e, k)))])]

    def items(self, e):
        k = e.index()
        key = self.key(e, k)
        return [For(k, self.size(e), [Item((Sym(STR, key), self.value(e, key)))])]


def member(e, o, which, key):
    """z3: the name is in a set of the fact, in the pre-state"""
    return e.mem(fieldterm(e, 'InterpretatorFact', which, o, IntSort), STR, key)


def list_ref(e, ref, key):
    return e.uf('list_of', IntSort, StrSort, IntSort)(ref, key)


def list_at(e, ref, key):
    return e.symlist(list_ref(e, ref, key), RES)


def value_at(e, ref, key):
    """the value of a name: a list of results, a result, or the default"""
    one = e.mk(RES, e.uf('value_of', IntSort, StrSort, IntSort)(ref, key), facts=False)
    return Alt(member(e, ref, 'repeatable', key), list_at(e, ref, key),
               Alt(member(e, ref, 'modified', key), one, Sym(ANY, e.uf('default_in', IntSort, StrSort, ValSort)(ref, key))))


def of(e, o, sch=None):
    """an InterpretatorFact in any state; its invariant is assumed (shown for a new one, and kept by set and merge):
    the names that have a value are the declared ones, in order; no other is set or repeatable; each name has its own list"""
    r = o.ref
    if sch is not None:
        o.fields['scheme'] = sch
    s = get(e, o, 'scheme').ref
    d = e.new_dict()
    d.base = Table(s, lambda e, key: value_at(e, r, key))
    d.birth = 0
    o.fields['attributes'] = d
    distinct(e, s)
    x = z3.Const('x!%d' % e.counter, StrSort)
    for which in ('repeatable', 'modified'):
        m = member(e, r, which, x)
        e.assume(z3.ForAll([x], z3.Implies(m, is_declared(e, s, x)), patterns=[m]))
    return o


def has_name(e, o, key):
    return is_declared(e, get(e, o, 'scheme').ref, key)


def fact(e, name='fact', sch=None):
    o = e.fresh(OBJ('InterpretatorFact'), name)
    return of(e, o, sch)


def attrs(e, o):
    return get(e, o, 'attributes')


def in_set(e, o, which, key):
    return zb(e.truth(e.mkbool(e.contains(get(e, o, which), Sym(STR, key)))))


def value(e, o, key):
    return e.res(e.dict_get(attrs(e, o), Sym(STR, key)))


def is_old(e, o, key, got, label):
    """the value of the name is what it was"""
    r = o.ref
    if e.branch(member(e, r, 'repeatable', key)):
        e.prove(isinstance(got, ListV) and got.ref is not None and zb(got.ref == list_ref(e, r, key)), label + ': the list')
        if isinstance(got, ListV):
            same_seq(e, got.parts, old_list(e, r, key), label + ': its values', eq=lambda a, b: e.ident(a, b))
    elif e.branch(member(e, r, 'modified', key)):
        e.prove(isinstance(got, ObjV) and zb(got.ref == e.uf('value_of', IntSort, StrSort, IntSort)(r, key)), label)
    else:
        e.prove(zb(e.box(got) == e.uf('default_in', IntSort, StrSort, ValSort)(r, key)), label)


def old_list(e, ref, key):
    k = e.index()
    l = list_ref(e, ref, key)
    n = e.uf('len_obj_InterpretatorResult', IntSort, IntSort)(l)
    return [For(k, n, [Item(e.elem(RES, l, k))])]


def only_writes(e, allow):
    """no list of the pre-state is written but these, no field of an object that is not fresh"""
    bad = []
    for op in e.logs:
        if op.kind in ('field', 'heapw', 'pointwise') and isinstance(op.target, ObjV) and not op.target.fresh:
            bad.append('%s.%s' % (op.target, op.data[0]))
        if op.kind in ('append', 'extend', 'set', 'pop', 'reorder', 'insert', 'add', 'update', 'dset') and \
                isinstance(op.target, (ListV, DictV)) and (op.target.ref is not None or isinstance(op.target, DictV)) and \
                getattr(op.target, 'birth', 0) == 0:
            if not any(op.target is x for x in allow):
                bad.append('%s of %s' % (op.kind, op.target.ref))
    e.prove(not bad, 'nothing else is changed' + (' (%s)' % ', '.join(bad[:3]) if bad else ''))


@unit('C11', 'a new fact has an empty list for each repeatable attribute and the default for the others', [IF + '.__init__'],
      schema=SCHEMA11, budget=120)
def init(e):
    s = scheme(e)
    o = e.res(e.call(e.w.get(IF), [s]))
    e.prove(get(e, o, 'scheme') is s, 'of the class')
    x, y = e.const('x', StrSort), e.const('y', StrSort)
    e.prove(zb(e.dict_has(attrs(e, o), Sym(STR, x))) == is_declared(e, s.ref, x), 'the declared names have a value')
    names = e.dict_keys(attrs(e, o))
    if len(names) == 1 and isinstance(names[0], For):
        # each name once: the declared names differ
        names = [For(names[0].k, names[0].n, names[0].parts)]
    same_seq(e, names, declared(e, s.ref).parts, 'in order')
    e.assume(z3.And(is_declared(e, s.ref, x), is_declared(e, s.ref, y), x != y))
    rep = repeats(e, s.ref, x)
    e.prove(in_set(e, o, 'repeatable', x) == rep, 'the repeatable names')
    e.prove(z3.Not(in_set(e, o, 'modified', x)), 'nothing is set yet')
    v = value(e, o, x)
    if e.branch(rep):
        e.prove(isinstance(v, ListV) and v.kind == 'list' and v.ref is None and not flat(e, v.parts), 'an empty list')
        e.prove(value(e, o, y) is not v, 'of its own')
    else:
        e.prove(zb(e.box(v) == default_of(e, s.ref, x).e), 'the default')
    frame(e)


@unit('C11', 'setting an attribute replaces its value, or adds to the end of a repeatable one', [IF + '.set'], schema=SCHEMA11,
      budget=120)
def set_(e):
    o = fact(e)
    key = e.fresh(STR, 'key')
    v = e.fresh(RES, 'value')
    e.assume(has_name(e, o, key.e))
    e.call(e.getattr(o, 'set'), [key, v])
    own = [attrs(e, o), get(e, o, 'modified')]
    if e.branch(member(e, o.ref, 'repeatable', key.e)):
        got = value(e, o, key.e)
        e.prove(isinstance(got, ListV) and got.kind == 'list', 'a list')
        same_seq(e, got.parts, old_list(e, o.ref, key.e) + [Item(v)], 'the values so far and the new one',
                 eq=lambda a, b: e.ident(a, b))
        own.append(got)
    else:
        e.prove(zb(e.ident(value(e, o, key.e), v)), 'the new value')
    x = e.const('x', StrSort)
    e.prove(in_set(e, o, 'modified', x) == z3.Or(member(e, o.ref, 'modified', x), x == key.e), 'the name is among the set ones')
    e.prove(in_set(e, o, 'repeatable', x) == member(e, o.ref, 'repeatable', x), 'the repeatable names stay')
    e.prove(zb(e.dict_has(attrs(e, o), Sym(STR, x))) == has_name(e, o, x), 'no other name appears')
    e.assume(z3.And(x != key.e, has_name(e, o, x)))
    is_old(e, o, x, value(e, o, x), 'the other names keep their value')
    only_writes(e, own)


# --- merging ---------------------------------------------------------------------

class Merging(object):
    """the loop over the names set in the other fact, by an invariant: those seen are merged, the others as before"""

    def matches(self, e, node, seq, sc):
        s = e.res(seq)
        return isinstance(node, ast.For) and sc is not None and sc.func is not None and \
            sc.func.qualname == IF + '.merge' and isinstance(s, SetV) and s.ref is not None

    def run(self, e, node, seq, sc, body):
        mine, other = self.mine, self.other
        s = e.res(seq)
        if not e.valid(s.ref == fieldterm(e, 'InterpretatorFact', 'modified', other.ref, IntSort)):
            raise Unsupported('a loop over other names')
        if any(op.kind not in ('env', 'resolve') for op in e.logs[self.mark:]):
            raise Unsupported('effects before the loop')
        names = sorted({x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        if any(x in sc.vars for x in names):
            raise Unsupported('a variable of the loop is used before it')
        seen = e.uf('seen', StrSort, BoolSort)
        x = e.const('some name', StrSort)
        if e.branch(e.const('all the names', BoolSort)):
            self.state(e, lambda k: member(e, other.ref, 'modified', k))
            return
        key = e.fresh(STR, 'key')
        mod = lambda k: member(e, other.ref, 'modified', k)             # noqa: E731
        e.assume(z3.And(mod(key.e), z3.Not(seen(key.e))))
        y = z3.Const('y!m', StrSort)
        e.assume(z3.ForAll([y], z3.Implies(seen(y), mod(y)), patterns=[seen(y)]))
        self.state(e, seen)
        d, m = attrs(e, mine), get(e, mine, 'modified')
        mark = len(e.logs)
        try:
            body(key)
        except ContinueX:
            pass
        for op in e.logs[mark:]:
            if op.kind in ('env', 'resolve') or op.target is d or op.target is m or \
                    isinstance(op.target, (ListV, DictV)) and getattr(op.target, 'birth', 0) > self.stamp:
                continue
            if op.kind in ('append', 'extend') and isinstance(op.target, ListV) and op.target.ref is not None and \
                    e.valid(op.target.ref == list_ref(e, mine.ref, key.e)):
                continue        # its own list of that name
            raise Unsupported('effect %s in the loop' % op.kind)
        if e.branch(x == key.e):
            x = key.e
        self.check(e, lambda k: z3.Or(seen(k), k == key.e), x)
        raise PathEnd()

    def state(self, e, done):
        """the state in which the names for which done holds are merged"""
        o, p = self.mine, self.other
        d = e.new_dict()
        d.base = Table(get(e, o, 'scheme').ref, lambda e, key: self.merged(e, done, key))
        o.fields['attributes'] = d
        o.fields['modified'] = Seen(lambda x: z3.Or(member(e, o.ref, 'modified', x), done(x)))
        self.stamp = e.new_stamp()

    def merged(self, e, done, key):
        o, p = self.mine, self.other
        one = e.mk(RES, e.uf('value_of', IntSort, StrSort, IntSort)(p.ref, key), facts=False)
        both = e.new_list(old_list(e, o.ref, key) + old_list(e, p.ref, key))
        return Alt(done(key), Alt(member(e, o.ref, 'repeatable', key), both, one), value_at(e, o.ref, key))

    def check(self, e, done, x):
        o = self.mine
        e.assume(has_name(e, o, x))
        e.prove(in_set(e, o, 'modified', x) == z3.Or(member(e, o.ref, 'modified', x), done(x)), 'the names set in either')
        self.check_value(e, done, x)

    def check_value(self, e, done, x):
        o, p = self.mine, self.other
        got = value(e, o, x)
        if not e.branch(done(x)):
            is_old(e, o, x, got, 'a name the other has not set keeps its value')
        elif e.branch(member(e, o.ref, 'repeatable', x)):
            e.prove(isinstance(got, ListV) and got.kind == 'list' and
                    (got.ref is None or zb(got.ref == list_ref(e, o.ref, x))), 'a list of its own')
            same_seq(e, got.parts, old_list(e, o.ref, x) + old_list(e, p.ref, x), 'the values of this and of the other, in order',
                     eq=lambda a, b: e.ident(a, b))
        else:
            e.prove(isinstance(got, ObjV) and zb(got.ref == e.uf('value_of', IntSort, StrSort, IntSort)(p.ref, x)),
                    'the value of the other')


class Seen(object):
    """a set known by its membership"""
    birth = 0

    def __init__(self, has):
        self.has = has

    def contains_model(self, e, x):
        return self.has(e.term(x))

    def method_model(self, e, name):
        if name == 'add':
            def add(e, a, k):
                old, x = self.has, e.term(a[0])

                def undo():
                    self.has = old
                e.log('add', self, (a[0],), undo)
                self.has = lambda y: z3.Or(old(y), y == x)
            return PyFn('add', add)
        return None


MERGING = Merging()


@unit('C11', 'merging another fact: its ordinary attributes replace, its repeatable ones go to the end', [IF + '.merge'],
      schema=SCHEMA11, loops=[MERGING], budget=120)
def merge(e):
    mine, other = fact(e, 'fact'), fact(e, 'other')
    e.assume(mine.ref != other.ref)
    x = z3.Const('x!r', StrSort)
    rep = member(e, other.ref, 'repeatable', x)
    # the other fact is of the same class or of one derived from it: same names, same kinds
    e.assume(z3.ForAll([x], member(e, mine.ref, 'repeatable', x) == rep, patterns=[rep]))
    m = member(e, other.ref, 'modified', x)
    e.assume(z3.ForAll([x], z3.Implies(m, has_name(e, mine, x)), patterns=[m]))
    MERGING.mine, MERGING.other, MERGING.mark = mine, other, len(e.logs)
    e.call(e.getattr(mine, 'merge'), [other])
    y = e.const('y', StrSort)
    MERGING.check(e, lambda k: member(e, other.ref, 'modified', k), y)
    for op in e.logs:
        if op.kind in ('append', 'extend', 'set', 'pop', 'reorder') and isinstance(op.target, ListV) and op.target.ref is not None:
            raise Unsupported('a change of a list after the loop')
    e.prove(True, 'the lists of the other stay as they are')


# --- the interpretation of a phrase marked with a fact ------------------------------

def c_new(e, a, k):
    o = e.new_obj(e.w.cls(IF))
    o.fields['scheme'] = e.res(a[0] if a else k['scheme'])
    return o


def c_set(e, a, k):
    key, v = (list(a[1:]) + [k[n] for n in ('key', 'value') if n in k])
    e.ghost_emit('steps', [Item(('set', e.res(a[0]), key, e.res(v)))])


def c_merge(e, a, k):
    e.ghost_emit('steps', [Item(('merge', e.res(a[0]), e.res(a[1]), None))])


@unit('C11', 'the marked parts of a phrase are set or merged in order, those of other facts are not', [IP + 'FactInterpretator.__call__'],
      schema=SCHEMA11, contracts={IF: c_new, IF + '.set': c_set, IF + '.merge': c_merge}, budget=120)
def interpret(e):
    p = e.fresh(OBJ('FactInterpretator'), 'mark')
    inp = e.fresh(OBJ('InterpretatorInput'), 'input')
    r = e.res(e.call(p, [inp]))
    e.prove(is_cls(e, r, 'FactResult'), 'a fact')
    f = get(e, r, 'fact')
    s = get(e, p, 'fact')
    e.prove(isinstance(f, ObjV) and f.fresh and z3.simplify(get(e, f, 'scheme').ref == s.ref), 'a new one of the class of the mark')
    items = get(e, inp, 'items')
    k = e.index()
    n = e.length(items.parts)
    got = e.ghost.get('steps', [])
    if not (len(got) == 1 and isinstance(got[0], For)):
        raise Unsupported('steps')
    e.prove(got[0].n == n, 'every part is looked at')
    steps = e.inst_parts(got[0].parts, got[0].k, k)
    with e.loopctx(k, n):
        def one():
            x = e.res(e.at(items.parts, k))
            done = flat(e, steps)
            if e.branch(is_cls(e, x, 'AttributeResult')):
                a = get(e, x, 'attribute')
                if e.branch(descends(e, s.ref, get(e, a, 'fact').ref)):
                    e.prove(len(done) == 1 and done[0][0] == 'set', 'a marked part is set')
                    if len(done) == 1 and done[0][0] == 'set':
                        e.prove(done[0][1] is f, 'in the fact')
                        e.prove(zb(e.eq(done[0][2], get(e, a, 'name'))), 'under the name of the attribute')
                        e.prove(zb(e.ident(done[0][3], get(e, x, 'value'))), 'with its value')
                    return
            elif e.branch(is_cls(e, x, 'FactResult')):
                if e.branch(descends(e, get(e, get(e, x, 'fact'), 'scheme').ref, s.ref)):
                    e.prove(len(done) == 1 and done[0][0] == 'merge', 'a nested fact of the same kind is merged')
                    if len(done) == 1 and done[0][0] == 'merge':
                        e.prove(done[0][1] is f, 'into the fact')
                        e.prove(zb(e.ident(done[0][2], get(e, x, 'fact'))), 'as a whole')
                    return
            e.prove(not done, 'other parts do not contribute')
        e.run_paths(one)
    frame(e)


@unit('C11', 'the last value set is the one an ordinary attribute has, and only what is set counts', [IF + '.set', IF + '.merge'])
def last_wins(e):
    """induction over the steps of a fact: step i contributes(i) a value v(i) to the name, else leaves it alone"""
    c, v = e.uf('contributes', IntSort, BoolSort), e.uf('contributed', IntSort, ValSort)
    st, mod = e.uf('after', IntSort, ValSort), e.uf('set_after', IntSort, BoolSort)
    d, n = e.const('default', ValSort), e.const('n', IntSort)
    e.allow('contributes', 'contributed', 'after', 'set_after')

    def holds(m):
        i, j = q(e, 'i'), q(e, 'j')
        some = z3.Exists([i], z3.And(i >= 0, i < m, c(i), st(m) == v(i),
                                     z3.ForAll([j], z3.Implies(z3.And(j > i, j < m), z3.Not(c(j))))))
        none = z3.And(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.Not(c(j)))), st(m) == d)
        return z3.If(mod(m), some, none)
    e.assume(z3.And(st(0) == d, z3.Not(mod(0))))
    e.prove(holds(z3.IntVal(0)), 'at first')
    e.assume(n >= 0)
    e.assume(z3.If(c(n), z3.And(st(n + 1) == v(n), mod(n + 1)), z3.And(st(n + 1) == st(n), mod(n + 1) == mod(n))))
    e.assume(holds(n))
    e.prove(holds(n + 1), 'after one more step')


# --- the views -----------------------------------------------------------------------

def v_json(e, o):
    return Sym(ANY, e.uf('result_json', IntSort, ValSort)(o.ref))


VIEWS = {'property:InterpretatorResult.normalized': c12.result_value,
         'property:InterpretatorResult.as_json': lambda e, a, k: v_json(e, e.res(a[0])),
         'property:InterpretatorResult.spans': lambda e, a, k: e.symlist(
             e.uf('spans_of', IntSort, IntSort)(e.res(a[0]).ref), OBJ('Span'), GenV)}
for c in ('Chain', 'FactResult', 'AttributeResult', 'NormalizerResult'):
    VIEWS['property:%s.as_json' % c] = VIEWS['property:InterpretatorResult.as_json']
RESULTS = merged(SCHEMA11, {})


def shown(e, r, key, view):
    """the value of a name in a view"""
    if e.branch(member(e, r, 'repeatable', key)):
        l = list_ref(e, r, key)
        k = e.index()
        n = e.uf('len_obj_InterpretatorResult', IntSort, IntSort)(l)
        return e.new_list([For(k, n, [Item(view(e.elem(RES, l, k)))])])
    if e.branch(member(e, r, 'modified', key)):
        return view(e.mk(RES, e.uf('value_of', IntSort, StrSort, IntSort)(r, key), facts=False))
    return Sym(ANY, e.uf('default_in', IntSort, StrSort, ValSort)(r, key))


def same_shown(e, got, want, label):
    got = e.res(got)
    if isinstance(want, ListV):
        e.prove(isinstance(got, ListV) and got.kind == 'list' and got.ref is None, label + ': a list')
        if isinstance(got, ListV):
            same_seq(e, got.parts, want.parts, label)
    else:
        e.prove(not isinstance(got, ListV) and zb(e.box(got) == e.box(want)), label)


@unit('C11', 'the fact of a match is made of the value of each attribute', [IF + '.normalized'], schema=SCHEMA11, contracts=VIEWS,
      budget=120)
def normalized(e):
    o = fact(e)
    r = get(e, o, 'normalized')
    made = flat(e, e.ghost.get('made', []))
    e.prove(len(made) == 1 and made[0][0] is r, 'one fact')
    e.prove(z3.simplify(made[0][1].ref == get(e, o, 'scheme').ref), 'of the class')
    e.prove(get(e, r, '_raw') is o, 'with what it was made of')
    d = made[0][2]
    x = e.const('x', StrSort)
    e.assume(has_name(e, o, x))
    e.prove(zb(e.dict_has(d, Sym(STR, x))), 'every name is given')
    want = shown(e, o.ref, x, lambda v: c12.result_value(e, [v], {}))
    same_shown(e, e.dict_get(d, Sym(STR, x)), want, 'the value')
    frame(e)


@unit('C11', 'the JSON view has the values in declaration order, those without a value left out', [IF + '.as_json'], schema=SCHEMA11,
      contracts=VIEWS, budget=120)
def as_json(e):
    o = fact(e)
    d = get(e, o, 'as_json')
    s = get(e, o, 'scheme').ref
    e.prove(isinstance(d, DictV), 'a dictionary')
    if not (len(d.parts) == 1 and isinstance(d.parts[0], For)):
        raise Unsupported('a view of another shape')
    p = d.parts[0]
    n = e.length(declared(e, s).parts)
    e.prove(p.n == n, 'the declared names')
    k = e.index()
    inner = e.inst_parts(p.parts, p.k, k)
    with e.loopctx(k, n):
        def one():
            key = name_at(e, s, k)
            got = flat(e, inner)
            want = shown(e, o.ref, key, lambda v: v_json(e, v))
            none = z3.BoolVal(False) if isinstance(want, ListV) else zb(e.ident(want, None))
            if e.branch(none):
                e.prove(not got, 'a name without a value is left out')
            else:
                e.prove(len(got) == 1, 'a name with a value is there')
                if len(got) == 1:
                    e.prove(zb(e.eq(got[0][0], Sym(STR, key))), 'under its name')
                    same_shown(e, got[0][1], want, 'with its value')
        e.run_paths(one)
    frame(e)


@unit('C11', 'the spans of a fact are those of its values', [IF + '.spans'], schema=SCHEMA11, contracts=VIEWS, budget=120)
def raw_spans(e):
    o = fact(e)
    got = e.parts_of(get(e, o, 'spans'))
    if not (len(got) == 1 and isinstance(got[0], For)):
        raise Unsupported('spans of another shape')
    s = get(e, o, 'scheme').ref
    size = e.length(declared(e, s).parts)
    e.prove(got[0].n == size, 'every name')
    k = e.index()
    inner = e.inst_parts(got[0].parts, got[0].k, k)
    spans = lambda v: e.uf('spans_of', IntSort, IntSort)(e.res(v).ref)      # noqa: E731
    with e.loopctx(k, size):
        def one():
            key = name_at(e, s, k)
            parts = flat(e, inner)
            if e.branch(member(e, o.ref, 'repeatable', key)):
                l = list_ref(e, o.ref, key)
                j, m = e.index(), e.index()
                t = spans(e.elem(RES, l, j))
                want = [For(j, e.uf('len_obj_InterpretatorResult', IntSort, IntSort)(l), [
                    For(m, e.length(e.symlist(t, OBJ('Span')).parts), [Item(e.elem(OBJ('Span'), t, m))])])]
                nested(e, parts, want)
            elif e.branch(member(e, o.ref, 'modified', key)):
                t = spans(e.mk(RES, e.uf('value_of', IntSort, StrSort, IntSort)(o.ref, key), facts=False))
                same_seq(e, parts, e.symlist(t, OBJ('Span')).parts, 'the spans of the value', eq=lambda a, b: e.ident(a, b))
            else:
                e.prove(not parts, 'a name that is not set has no text')
        e.run_paths(one)
    frame(e)


def nested(e, got, want):
    """the spans of each value in turn"""
    if not (len(got) == 1 and isinstance(got[0], For)):
        if not got:
            e.prove(want[0].n == 0, 'the spans of the values')
            return
        raise Unsupported('spans of another shape')
    g, w = got[0], want[0]
    e.prove(g.n == w.n, 'every value')
    k = e.index()
    with e.loopctx(k, w.n):
        e.run_paths(lambda: same_seq(e, e.inst_parts(g.parts, g.k, k), e.inst_parts(w.parts, w.k, k), 'the spans of a value',
                                     eq=lambda a, b: e.ident(a, b)))


def sorting(e):
    """sorted(x, key): in order of key, as a permutation (trusted); the order is noted"""
    def hook(eng, v, parts, key, rev):
        k = e.index()
        n = e.length(parts)
        with e.loopctx(k, n):
            x = e.at(parts, k)
            by = e.res(e.call(key, [x])) if key is not None else e.res(x)
        e.ghost_emit('sorted', [Item((parts, k, e.res(x), by, rev))])
        return e.new_list([Item('sorted')])
    e.sorted_hook = hook


@unit('C11', 'the spans of a fact in order of the text', [FACT + 'Fact.spans', FACT + 'Fact.as_json'], schema=SCHEMA11,
      contracts={'property:InterpretatorFact.spans': lambda e, a, k: e.symlist(
          e.uf('raw_spans', IntSort, IntSort)(e.res(a[0]).ref), OBJ('Span'), GenV),
          'property:InterpretatorFact.as_json': lambda e, a, k: Sym(ANY, e.uf('raw_json', IntSort, ValSort)(e.res(a[0]).ref))})
def spans(e):
    o = e.fresh(OBJ('Fact'), 'fact')
    raw = get(e, o, '_raw')
    e.prove(zb(e.box(get(e, o, 'as_json')) == e.uf('raw_json', IntSort, ValSort)(raw.ref)), 'the JSON view is that of what it was made of')
    sorting(e)
    got = e.concrete(e.parts_of(get(e, o, 'spans')))
    done = flat(e, e.ghost.get('sorted', []))
    if got != ['sorted'] or len(done) != 1:
        raise Unsupported('another way to order the spans')
    parts, k, x, by, rev = done[0]
    same_seq(e, parts, e.symlist(e.uf('raw_spans', IntSort, IntSort)(raw.ref), OBJ('Span')).parts, 'all the spans',
             eq=lambda a, b: e.ident(a, b))
    e.prove(rev is False, 'from the first')
    with e.loopctx(k, e.length(parts)):
        e.prove(isinstance(by, Sym) and by.t.kind == 'int' and zb(by.e == get(e, x, 'start').e), 'by the place they start at')
    frame(e)


# --- what a result shows --------------------------------------------------------------

INNER = {'property:InterpretatorFact.normalized': lambda e, a, k: Sym(ANY, e.uf('fact_normalized', IntSort, ValSort)(e.res(a[0]).ref)),
         'property:InterpretatorFact.as_json': lambda e, a, k: Sym(ANY, e.uf('fact_json', IntSort, ValSort)(e.res(a[0]).ref)),
         'property:InterpretatorFact.spans': lambda e, a, k: e.symlist(
             e.uf('fact_spans', IntSort, IntSort)(e.res(a[0]).ref), OBJ('Span'), GenV)}


def views(cls):
    """the views of a result of a class are those of what it holds"""
    names = ['normalized', 'as_json', 'spans']

    @unit('C11', 'the views of a %s are those of its %s' % (cls, 'fact' if cls == 'FactResult' else 'value'),
          [IP + '%s.%s' % (cls, n) for n in names], schema=SCHEMA11,
          contracts=INNER if cls == 'FactResult' else {k: v for k, v in VIEWS.items() if 'property:InterpretatorResult' in k})
    def u(e):
        o = e.res(e.call(e.w.get(IP + cls), [e.fresh(OBJ('InterpretatorFact'), 'fact')])) if cls == 'FactResult' else \
            e.res(e.call(e.w.get(IP + cls), [e.fresh(RES, 'value'), e.fresh(OBJ('AttributeBase'), 'attribute')]))
        inner = get(e, o, 'fact' if cls == 'FactResult' else 'value')
        p = 'fact' if cls == 'FactResult' else 'result'
        e.prove(zb(e.box(get(e, o, 'normalized')) == e.uf(p + '_normalized', IntSort, ValSort)(inner.ref)), 'the value')
        e.prove(zb(e.box(get(e, o, 'as_json')) == e.uf(p + '_json', IntSort, ValSort)(inner.ref)), 'the JSON view')
        s = e.uf('fact_spans' if cls == 'FactResult' else 'spans_of', IntSort, IntSort)(inner.ref)
        same_seq(e, e.parts_of(get(e, o, 'spans')), e.symlist(s, OBJ('Span')).parts, 'the spans', eq=lambda a, b: e.ident(a, b))
        frame(e)


views('FactResult')
views('AttributeResult')


def span_of(e, a, k):
    """get_tokens_span by its contract (C10): from the first word to the last"""
    return e.mk(OBJ('Span'), e.uf('span_of', IntSort, IntSort)(c12.copy_of(e, a[0])), facts=False)


@unit('C11', 'the views of a piece of text', [IP + 'Chain.normalized', IP + 'Chain.as_json', IP + 'Chain.spans'], schema=SCHEMA11,
      contracts=merged(c12.JOIN, {'yargy.token.get_tokens_span': span_of}))
def chain(e):
    ts = e.fresh(LIST(OBJ('Token')), 'tokens')
    o = e.res(e.call(e.w.get(IP + 'Chain'), [ts, e.fresh(OPT(STR), 'key')]))
    want = c12.JOIN['yargy.token.join_tokens'](e, [ts], {})
    e.prove(zb(e.eq(get(e, o, 'normalized'), want)), 'the text')
    e.prove(zb(e.eq(get(e, o, 'as_json'), want)), 'the JSON view is the text')
    got = flat(e, e.parts_of(get(e, o, 'spans')))
    e.prove(len(got) == 1 and zb(e.ident(got[0], span_of(e, [ts], {}))), 'one span, of the text')
    frame(e)


@unit('C11', 'the views of a normalized part', [IP + 'NormalizerResult.normalized', IP + 'NormalizerResult.as_json',
                                              IP + 'NormalizerResult.spans'],
      schema=SCHEMA11, contracts=merged({k: v for k, v in VIEWS.items() if 'property:InterpretatorResult' in k}, {
          'property:InterpretatorInput.spans': lambda e, a, k: e.symlist(
              e.uf('input_spans', IntSort, IntSort)(e.res(a[0]).ref), OBJ('Span'), GenV)}))
def normalizer_result(e):
    result = e.branch(e.const('a result', BoolSort))
    v = e.fresh(RES, 'value') if result else e.fresh(STR, 'value')
    text = e.branch(e.const('of a text', BoolSort))
    i = e.fresh(RES if text else OBJ('InterpretatorInput'), 'input')
    o = e.res(e.call(e.w.get(IP + 'NormalizerResult'), [v, i]))
    e.prove(zb(e.ident(get(e, o, 'normalized'), v)), 'the value')
    got = get(e, o, 'as_json')
    if result:
        e.prove(zb(e.box(got) == v_json(e, v).e), 'the JSON view of the value')
    else:
        e.prove(zb(e.ident(got, v)), 'the JSON view is the value')
    s = e.uf('spans_of' if text else 'input_spans', IntSort, IntSort)(i.ref)
    same_seq(e, e.parts_of(get(e, o, 'spans')), e.symlist(s, OBJ('Span')).parts, 'the spans of the text', eq=lambda a, b: e.ident(a, b))
    frame(e)


@unit('C11', 'the spans of a phrase given to a mark', [IP + 'InterpretatorInput.spans'], schema=SCHEMA11,
      contracts=merged({k: v for k, v in VIEWS.items() if k.endswith('InterpretatorResult.spans')}, {'yargy.token.get_tokens_span': lambda e, a, k: e.mk(
          OBJ('Span'), e.uf('span_of', IntSort, IntSort)(e.res(a[0]).ref), facts=False)}))
def input_spans(e):
    o = e.fresh(OBJ('InterpretatorInput'), 'input')
    items = get(e, o, 'items')
    got = e.parts_of(get(e, o, 'spans'))
    n = e.length(items.parts)
    k = e.index()
    with e.loopctx(k, n):
        word = is_cls(e, e.at(items.parts, k), 'Token')
    if e.branch(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), word))):
        got = flat(e, got)
        e.prove(len(got) == 1 and not isinstance(got[0], For) and
                zb(got[0].ref == e.uf('span_of', IntSort, IntSort)(items.ref)), 'words: one span')
    else:
        got = flat(e, got)
        if not (len(got) == 1 and isinstance(got[0], For)):
            raise Unsupported('spans of another shape')
        e.prove(got[0].n == n, 'every part')
        k = e.index()
        inner = e.inst_parts(got[0].parts, got[0].k, k)
        with e.loopctx(k, n):
            def one():
                x = e.res(e.at(items.parts, k))
                parts = flat(e, inner)
                if e.branch(is_cls(e, x, 'Token')):
                    e.prove(len(parts) == 1 and zb(e.ident(parts[0], get(e, x, 'span'))), 'the span of a word')
                else:
                    s = e.uf('spans_of', IntSort, IntSort)(x.ref)
                    same_seq(e, parts, e.symlist(s, OBJ('Span')).parts, 'the spans of a part', eq=lambda a, b: e.ident(a, b))
            e.run_paths(one)
    frame(e)


# --- facts as the user sees them ---------------------------------------------------------

class Given(object):
    """the keyword arguments: any names with any values"""

    def __init__(self, ref):
        self.ref = ref

    def has(self, e, key):
        return e.uf('is_given', IntSort, StrSort, BoolSort)(self.ref, e.term(key))

    def at(self, e, key):
        return Sym(ANY, e.uf('given', IntSort, StrSort, ValSort)(self.ref, key))

    def get(self, e, key, missing=None):
        if e.branch(self.has(e, key)):
            return self.at(e, e.term(key))
        if missing is not NotImpl:
            return missing
        e.throw('KeyError', key)

    def key(self, e, k):
        return e.uf('given_name', IntSort, IntSort, StrSort)(self.ref, k)

    def keys(self, e):
        k = e.index()
        n = e.uf('number_given', IntSort, IntSort)(self.ref)
        e.add(n >= 0, 'd')
        return [For(k, n, [Item(Sym(STR, self.key(e, k)))])]

    def items(self, e):
        k = e.index()
        n = e.uf('number_given', IntSort, IntSort)(self.ref)
        e.add(n >= 0, 'd')
        return [For(k, n, [Item((Sym(STR, self.key(e, k)), self.at(e, self.key(e, k))))])]


class Instance(object):
    """a fact under construction: its attributes are those of its class until they are set"""
    program_class = FACT + 'Fact'

    def __init__(self, s):
        self.scheme = s

    def method_model(self, e, name):
        return self.scheme.method_model(e, name)

    def getattr_model(self, e, key):
        return self.scheme.getattr_model(e, key)

    def setattr_model(self, e, key, v):
        e.ghost_emit('set', [Item((key, v))])

    def subst_model(self, e, k, x):
        return self


@unit('C11', 'a fact has the given values, else the defaults, and refuses other names', [FACT + 'Fact.__init__'], schema=SCHEMA11,
      budget=120)
def construct(e):
    s = scheme(e)
    d = e.new_dict()
    g = Given(e.const('kwargs', IntSort))
    d.base = g
    i = q(e)
    n = e.uf('number_given', IntSort, IntSort)(g.ref)
    key = g.key(e, i)
    e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), e.uf('is_given', IntSort, StrSort, BoolSort)(g.ref, key)),
                       patterns=[key]))
    wrong = z3.Exists([i], z3.And(i >= 0, i < n, z3.Not(is_declared(e, s.ref, key))))
    try:
        e.call(e.w.get(FACT + 'Fact').lookup('__init__')[0], [Instance(s)], {'**': d})
    except PyRaise as x:
        e.prove(wrong, 'only other names are refused')
        e.prove(x.exc is KeyError, 'with a KeyError')
        return
    e.prove(z3.Not(wrong), 'other names are refused')
    got = e.ghost.get('set', [])
    m = e.length(declared(e, s.ref).parts)
    got = flat(e, got)
    if not got:
        e.prove(m == 0, 'every declared name')
        return
    if not (len(got) == 1 and isinstance(got[0], For)):
        raise Unsupported('attributes set in another way')
    e.prove(got[0].n == m, 'every declared name')
    k = e.index()
    inner = e.inst_parts(got[0].parts, got[0].k, k)
    with e.loopctx(k, m):
        def one():
            key = name_at(e, s.ref, k)
            v = flat(e, inner)
            e.prove(len(v) == 1, 'is set once')
            if len(v) != 1:
                return
            name, v = v[0]
            v = e.res(v)
            e.prove(zb(e.eq(name, Sym(STR, key))), 'under its name')
            if e.branch(e.uf('is_given', IntSort, StrSort, BoolSort)(g.ref, key)):
                e.prove(zb(e.box(v) == g.at(e, key).e), 'the given value')
            elif e.branch(repeats(e, s.ref, key)):
                e.prove(isinstance(v, ListV) and v.kind == 'list' and v.ref is None and not flat(e, v.parts) and
                        depends_on(v, k), 'an empty list of its own')
            else:
                e.prove(zb(e.box(v) == default_of(e, s.ref, key).e), 'the default')
        e.run_paths(one)
    frame(e)


def depends_on(v, k):
    return bool(getattr(v, 'idx', ()))


@unit('C11', 'a class of facts has the given attributes in order', [
    FACT + 'fact', FACT + 'prepare_attribute', I + 'attribute.AttributeScheme.construct', I + 'attribute.AttributeScheme.__init__',
    I + 'attribute.RepeatableAttributeScheme.construct', I + 'attribute.Attribute.__init__', I + 'attribute.AttributeBase.__init__'],
    schema=SCHEMA11, budget=120)
def make_class(e):
    items = e.fresh(LIST(OBJ('AttributeScheme', 'RepeatableAttributeScheme')), 'attributes')
    bare = e.branch(e.const('names', BoolSort))
    if bare:
        items = e.fresh(LIST(STR), 'names')
    e.class_attrs_hook = lambda eng, c, name, v: e.ghost_emit('set', [Item((c, name, v))])
    c = e.res(e.call(e.w.get(FACT + 'fact'), ['F', items]))
    e.prove(isinstance(c, ClsV) and c.subclass_of(e.w.cls('Fact')), 'a class of facts')
    e.prove(zb(e.eq(get(e, c, '__name__'), 'F')), 'of that name')
    n = e.length(items.parts)
    k = e.index()
    names = get(e, c, '__attributes__')
    e.prove(isinstance(names, ListV) and names.kind == 'list' and names.ref is None, 'with a list of names')
    e.prove('__attributes__' in c.ns and '_raw' in c.ns, 'of its own')
    got = flat(e, e.ghost.get('set', []))
    gn = flat(e, names.parts)
    if not got:
        e.prove(n == 0, 'every attribute')
        e.prove(not gn, 'no name without an attribute')
        return
    if not (len(got) == 1 and isinstance(got[0], For) and len(gn) == 1 and isinstance(gn[0], For)):
        raise Unsupported('attributes set in another way')
    e.prove(z3.And(got[0].n == n, gn[0].n == n), 'every attribute')
    inner = e.inst_parts(got[0].parts, got[0].k, k)
    nm = e.inst_parts(gn[0].parts, gn[0].k, k)
    with e.loopctx(k, n):
        def one():
            x = e.res(e.at(items.parts, k))
            v, m = flat(e, inner), flat(e, nm)
            e.prove(len(v) == 1 and len(m) == 1, 'one attribute, one name')
            want = x if bare else get(e, x, 'name')
            e.prove(zb(e.eq(m[0], want)), 'the name')
            cls, name, a = v[0]
            a = e.res(a)
            e.prove(cls is c, 'of the class')
            e.prove(zb(e.eq(name, want)), 'under its name')
            e.prove(isinstance(a, ObjV) and a.fresh and get(e, a, 'fact') is c, 'an attribute of the class')
            e.prove(zb(e.eq(get(e, a, 'name'), want)), 'that knows its name')
            if bare:
                e.prove(a.cls is e.w.cls(I + 'attribute.Attribute') and get(e, a, 'default') is None, 'an ordinary one without a default')
            elif e.branch(is_cls(e, x, 'RepeatableAttributeScheme')):
                e.prove(a.cls is e.w.cls(I + 'attribute.RepeatableAttribute'), 'a repeatable one')
            else:
                e.prove(a.cls is e.w.cls(I + 'attribute.Attribute'), 'an ordinary one')
                e.prove(zb(e.ident(get(e, a, 'default'), get(e, x, 'default'))), 'with its default')
        e.run_paths(one)


@unit('C11', 'attributes are ordinary with a default, or repeatable', [
    I + 'attribute.AttributeScheme.repeatable', I + 'attribute.RepeatableAttributeScheme.__init__', 'yargy.interpretation.attribute'],
    schema=SCHEMA11)
def declare(e):
    name, v = e.fresh(STR, 'name'), e.fresh(ANY, 'default')
    a = e.res(e.call(e.w.get('yargy.interpretation.attribute'), [name, v]))
    fields_are(e, a, I + 'attribute.AttributeScheme', 'with a default', name=name, default=v)
    a = e.res(e.call(e.w.get('yargy.interpretation.attribute'), [name]))
    fields_are(e, a, I + 'attribute.AttributeScheme', 'without', name=name, default=None)
    r = e.res(e.call(e.getattr(a, 'repeatable'), []))
    fields_are(e, r, I + 'attribute.RepeatableAttributeScheme', 'repeatable', name=name)
    frame(e)


def c_interpret(e, a, k):
    return e.mk(RES, e.uf('interpreted', IntSort, IntSort)(e.res(a[0]).ref))


@unit('C11', 'the fact of a match is that of its phrase', ['yargy.parser.Match.fact'],
      schema=merged(SCHEMA11, {('Match', 'tree'): OBJ('Tree')}),
      contracts=merged(VIEWS, {'yargy.tree.constructors.Tree.interpret': c_interpret}))
def match_fact(e):
    m = e.fresh(OBJ('Match'), 'match')
    got = get(e, m, 'fact')
    r = c_interpret(e, [get(e, m, 'tree')], {})
    e.prove(zb(e.box(got) == e.uf('result_normalized', IntSort, ValSort)(r.ref)), 'its normalized value')
    frame(e)


share('C11', 'C12', 'no mark', 'on a marked part')
share('C11', 'C13', 'line reaches the interpretation', 'the line of a marked phrase')
share('C11', 'C15', 'dropping unmarked phrases', 'a marked phrase keeps', 'a tree without a mark')
share('C11', 'C10', 'span')
