"""C08: agreement constraints accept what can agree and keep only agreeing forms.

The state of a graph is its four tables (relation id -> relation, relation id -> words, word id -> word, word id -> forms),
each an unknown function of the key.  validate is proved by an invariant of the loop over the ties, for every graph."""
from .lib import *
from . import c05, c15

G = 'yargy.relations.graph.'
EDGE = G + 'Edge'
SCHEMA8 = merged(c15.SCHEMA15, {
    ('Edge', 'relation'): OBJ('Relation'), ('Edge', 'first'): OBJ('MorphToken'), ('Edge', 'second'): OBJ('MorphToken'),
    ('MorphToken', 'forms'): LIST(OBJ('Form')),
})


class Base(object):
    """a dictionary with unknown entries: has(key), value(key); names in order: key(0) .. key(n-1)"""

    def __init__(self, name, has, value, n=None, key=None):
        self.name, self.has_, self.value, self.n, self.key = name, has, value, n, key

    def has(self, e, key):
        return self.has_(e.num(key))

    def get(self, e, key, missing=None):
        if e.branch(self.has_(e.num(key))):
            return self.value(e, e.num(key))
        if missing is not NotImpl:
            return missing
        e.throw('KeyError', key)

    def keys(self, e):
        if self.n is None:
            raise Unsupported('names of ' + self.name)
        k = e.index()
        return [For(k, self.n, [Item(Sym(INT, self.key(k)))])]

    def items(self, e):
        if self.n is None:
            raise Unsupported('entries of ' + self.name)
        k = e.index()
        return [For(k, self.n, [Item((Sym(INT, self.key(k)), self.value(e, self.key(k))))])]


class Grouping(Base):
    """the same with an empty list for a missing name"""

    def __init__(self, d, *a, **kw):
        Base.__init__(self, *a, **kw)
        self.d = d

    def subscript(self, e, key):
        if not e.branch(self.has_(e.num(key))) and (e.loopidx or id(self.d) in e.accum):
            return GroupRef(self.d, key)
        return e.dict_get(self.d, key)

    def get(self, e, key, missing=None):
        if e.branch(self.has_(e.num(key))):
            return self.value(e, e.num(key))
        if missing is not NotImpl:
            return missing
        if self.d.groups:
            return e.new_list([e.filter_part(p, lambda kv: e.mkbool(e.eq(kv[0], key)), lambda kv: kv[1])
                               for p in self.d.groups])
        v = e.new_list([])
        e.dict_set(self.d, key, v)
        return v


def table(e, name, typ, cls=None, ordered=False, grouping=False):
    has = e.uf('has_' + name, IntSort, BoolSort)
    of = e.uf(name, IntSort, IntSort)
    n = key = None
    if ordered:
        n = e.const('number_of_' + name, IntSort)
        key = e.uf('nth_of_' + name, IntSort, IntSort)
        i = q(e)
        e.assume(n >= 0)
        e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), has(key(i))), patterns=[key(i)]))
    value = (lambda e, k: e.symlist(of(k), typ)) if cls is ListV else (lambda e, k: e.mk(typ, of(k), facts=False))
    d = e.new_dict()
    if grouping:
        d.base = Grouping(d, name, has, value, n, key)
    else:
        d.base = Base(name, has, value, n, key)
    return d


def graph(e, cls='TokenRelationsGraph'):
    """a graph in any state: keys are identities"""
    g = e.res(e.call(e.w.get(G + cls), []))
    e.setattr(g, 'relations', table(e, 'relation_of', OBJ('Relation')))
    e.setattr(g, 'relation_items', table(e, 'words_of', OBJ('MorphToken'), ListV, ordered=True, grouping=True))
    i = q(e)
    # every relation with words is known by its identity, every word likewise, and has its forms at hand
    e.assume(z3.ForAll([i], z3.Implies(e.uf('has_words_of', IntSort, BoolSort)(i),
                                       z3.And(e.uf('has_relation_of', IntSort, BoolSort)(i),
                                              e.uf('relation_of', IntSort, IntSort)(i) == i)),
                       patterns=[e.uf('has_words_of', IntSort, BoolSort)(i)]))
    # the table itself holds the relation, so no other relation ever gets its identity
    known = e.uf('has_relation_of', IntSort, BoolSort)
    e.assume(z3.ForAll([i], z3.Implies(known(i), e.uf('relation_of', IntSort, IntSort)(i) == i), patterns=[known(i)]))
    if cls == 'TokenRelationsGraph':
        e.setattr(g, 'tokens', table(e, 'word_of', OBJ('MorphToken'), ordered=True))
        e.setattr(g, 'token_forms', table(e, 'forms_of', OBJ('Form'), ListV, grouping=True))
        has = e.uf('has_word_of', IntSort, BoolSort)
        e.assume(z3.ForAll([i], z3.Implies(has(i), z3.And(e.uf('word_of', IntSort, IntSort)(i) == i,
                                                          e.uf('has_forms_of', IntSort, BoolSort)(i))), patterns=[has(i)]))
    return g


def same(e, f):
    """z3: equal forms have the same value"""
    return e.uf('form_value', IntSort, IntSort)(e.res(f).ref)


def answer(e, r, v, w):
    return e.uf('answer', IntSort, IntSort, IntSort, ValSort)(r, v, w)


def agree(e, r, v, w):
    return e.uf('truthy', ValSort, BoolSort)(answer(e, r, v, w))


FORMS = {'dispatch:Form.__eq__': lambda e, a, k: Sym(BOOL, same(e, a[0]) == same(e, a[1])),
         'dispatch:Relation.__call__': lambda e, a, k: Sym(ANY, answer(e, e.res(a[0]).ref, same(e, a[1]), same(e, a[2])))}


def edges_of(e, a, k):
    """contract of edges: the ties of the graph, between words it knows"""
    return e.symlist(e.uf('ties_of', IntSort, IntSort)(e.res(a[0]).ref), OBJ(EDGE), GenV)


def known(e, g, edge):
    has = e.uf('has_word_of', IntSort, BoolSort)
    e.assume(z3.And(has(get(e, edge, 'first').ref), has(get(e, edge, 'second').ref)))


def tie(e, edge):
    return get(e, edge, 'relation').ref, get(e, edge, 'first').ref, get(e, edge, 'second').ref


class Ties(object):
    """the loop over the ties of a graph, by an invariant of the forms each word has left:
    inv(e, key, parts) -> [(z3, label)]; given(e, name) assumes it for the table forms(key) = list ref"""

    def __init__(self, given, inv, each=None):
        self.given, self.inv, self.each = given, inv, each

    def matches(self, e, node, seq, sc):
        if not (isinstance(node, ast.For) and sc is not None and sc.func is not None and
                sc.func.qualname == G + 'TokenRelationsGraph.validate'):
            return False
        p = e.parts_of(seq)
        return len(p) == 1 and isinstance(p[0], For) and len(p[0].parts) == 1 and isinstance(p[0].parts[0], Item) and \
            isinstance(e.res(p[0].parts[0].value), ObjV) and e.res(p[0].parts[0].value).cls is e.w.cls(EDGE)

    def state(self, e, g, name):
        """the forms after some of the ties"""
        f = e.uf(name, IntSort, IntSort)
        d = table(e, name, OBJ('Form'), ListV, grouping=True)
        d.base.has_ = e.uf('has_forms_of', IntSort, BoolSort)
        e.setattr(g, 'token_forms', d)
        self.given(e, lambda key: f(key))
        return d

    def run(self, e, node, seq, sc, body):
        g = e.res(sc.vars['self'])
        parts = e.parts_of(seq)
        n = e.length(parts)
        names = sorted({x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        for x in names:
            if x in sc.vars:
                raise Unsupported('a variable of the loop is used before it')
        key = e.const('word', IntSort)
        e.assume(e.uf('has_word_of', IntSort, BoolSort)(key))
        d = get(e, g, 'token_forms')
        e.ties_done = z3.IntVal(0)
        for c, label in self.inv(e, key, e.dict_get(d, Sym(INT, key)).parts):
            e.prove(c, label + ': at first')
        if e.branch(e.const('all the ties', BoolSort)):
            e.ties_done = n
            self.state(e, g, 'forms_left')
            return
        i = e.const('tie', IntSort)
        e.assume(z3.And(i >= 0, i < n))
        e.ties_done = i
        d = self.state(e, g, 'forms_before')
        edge = e.res(e.at(parts, i))
        known(e, g, edge)
        if self.each:
            self.each(e, i, edge)
        e.stamp += 1
        mark, stamp = len(e.logs), e.stamp
        try:
            body(edge)
        except ContinueX:
            pass
        for op in e.logs[mark:]:
            if op.kind in ('env', 'resolve') and op.target is sc or op.kind == 'resolve' or op.target is d or \
                    not e.pre_existing(op.target, stamp):
                continue
            raise Unsupported('effect %s in the loop' % op.kind)
        if get(e, g, 'token_forms') is not d:
            raise Unsupported('another table of forms')
        e.ties_done = i + 1
        for c, label in self.inv(e, key, e.dict_get(d, Sym(INT, key)).parts):
            e.prove(c, label + ': after one more tie')
        raise PathEnd()


el = lambda e, l, k: e.uf('el_obj_Form', IntSort, IntSort, IntSort)(l, k)      # noqa: E731
ln = lambda e, l: e.uf('len_obj_Form', IntSort, IntSort)(l)                    # noqa: E731
val = lambda e, x: e.uf('form_value', IntSort, IntSort)(x)                     # noqa: E731


# --- forms are never made up ---------------------------------------------------------------------------

def had(e, key, v):
    return e.uf('had_form', IntSort, IntSort, BoolSort)(key, v)


def sub_given(e, forms):
    t, k = q(e), q(e)
    x = el(e, forms(t), k)
    e.assume(z3.ForAll([t, k], z3.Implies(z3.And(k >= 0, k < ln(e, forms(t))), had(e, t, val(e, x))), patterns=[x]))


def sub_inv(e, key, parts):
    return [(e.forall_in(parts, lambda x: had(e, key, same(e, x))), 'every form left is one the word had')]


@unit('C08', 'a match is reported only if every tied word keeps a form, and it keeps none it had not', [
    G + 'TokenRelationsGraph.validate'], schema=SCHEMA8,
    contracts=merged(FORMS, {'property:RelationsGraph.edges': edges_of, G + 'RelationsGraph.edges': edges_of}),
    loops=[Ties(sub_given, sub_inv)], budget=120, remembers=('token_forms',))
def sound(e):
    g = graph(e)
    sub_given(e, lambda key: e.uf('forms_of', IntSort, IntSort)(key))
    r = e.res(e.call(e.getattr(g, 'validate'), []))
    d = get(e, g, 'token_forms')
    words = get(e, g, 'tokens').base
    i = e.index()
    with e.loopctx(i, words.n):
        left = ln(e, e.uf('forms_left', IntSort, IntSort)(words.key(i)))
    none = z3.Exists([i], z3.And(i >= 0, i < words.n, left <= 0))
    e.prove(zb(e.truth(r)) == z3.Not(none), 'reported exactly if every tied word has a form left')
    key = e.const('any word', IntSort)
    e.assume(e.uf('has_word_of', IntSort, BoolSort)(key))
    for c, label in sub_inv(e, key, e.dict_get(d, Sym(INT, key)).parts):
        e.prove(c, label)


# --- forms that agree everywhere are kept ----------------------------------------------------------------

def chosen(e, key):
    """value of the form chosen for the word"""
    return e.uf('chosen_form', IntSort, IntSort)(key)


def keep_given(e, forms):
    t = q(e)
    at = e.uf('place_%d' % e.new_stamp(), IntSort, IntSort)
    l = forms(t)
    e.assume(z3.ForAll([t], z3.Implies(e.uf('has_word_of', IntSort, BoolSort)(t), z3.And(
        at(t) >= 0, at(t) < ln(e, l), val(e, el(e, l, at(t))) == chosen(e, t))), patterns=[l]))


def keep_inv(e, key, parts):
    return [(e.exists_in(parts, lambda x: same(e, x) == chosen(e, key)), 'the form chosen for a word is among those left')]


def agreeing(e, i, edge):
    r, a, b = tie(e, edge)
    e.assume(agree(e, r, chosen(e, a), chosen(e, b)))


@unit('C08', 'if forms can be chosen so that all ties agree, the match is reported and they are kept', [
    G + 'TokenRelationsGraph.validate'], schema=SCHEMA8,
    contracts=merged(FORMS, {'property:RelationsGraph.edges': edges_of, G + 'RelationsGraph.edges': edges_of}),
    loops=[Ties(keep_given, keep_inv, agreeing)], budget=120, remembers=('token_forms',))
def complete(e):
    g = graph(e)
    keep_given(e, lambda key: e.uf('forms_of', IntSort, IntSort)(key))
    r = e.res(e.call(e.getattr(g, 'validate'), []))
    e.prove(zb(e.truth(r)), 'the match is reported')
    key = e.const('any word', IntSort)
    e.assume(e.uf('has_word_of', IntSort, BoolSort)(key))
    d = get(e, g, 'token_forms')
    for c, label in keep_inv(e, key, e.dict_get(d, Sym(INT, key)).parts):
        e.prove(c, label)


# --- kept forms agree with what the other words had ----------------------------------------------------

def tie_at(e, g, j):
    ref = e.uf('el_obj_' + EDGE, IntSort, IntSort, IntSort)(e.uf('ties_of', IntSort, IntSort)(g.ref), j)
    f = lambda n: e.uf('fld_Edge_' + n, IntSort, IntSort)(ref)                  # noqa: E731
    return f('relation'), f('first'), f('second')


def fits(e, j, v, side):
    """the form agrees, by the tie j, with one that the other word had"""
    return e.uf('fits_%d' % side, IntSort, IntSort, BoolSort)(j, v)


def fits_meaning(e, g):
    j, v, w = q(e), q(e), q(e)
    r, a, b = tie_at(e, g, j)
    e.assume(z3.ForAll([j, v, w], z3.Implies(z3.And(had(e, b, w), agree(e, r, v, w)), fits(e, j, v, 0))))
    e.assume(z3.ForAll([j, v, w], z3.Implies(z3.And(had(e, a, v), agree(e, r, v, w)), fits(e, j, w, 1))))


def fit_given(e, forms):
    sub_given(e, forms)
    t, j, k = q(e), q(e), q(e)
    r, a, b = tie_at(e, e.the_graph, j)
    x = val(e, el(e, forms(t), k))
    done = z3.And(j >= 0, j < e.ties_done, k >= 0, k < ln(e, forms(t)), a != b)
    e.assume(z3.ForAll([t, j, k], z3.And(z3.Implies(z3.And(done, a == t), fits(e, j, x, 0)),
                                         z3.Implies(z3.And(done, b == t), fits(e, j, x, 1)))))


def fit_inv(e, key, parts):
    out = sub_inv(e, key, parts)
    j = e.const('any tie', IntSort)
    r, a, b = tie_at(e, e.the_graph, j)
    done = z3.And(j >= 0, j < e.ties_done, a != b)
    for side, word in ((0, a), (1, b)):
        out.append((z3.Implies(z3.And(done, word == key), zb(e.forall_in(parts, lambda x, side=side: fits(e, j, same(e, x), side)))),
                    'a form left agrees with one that the other word had'))
    return out


@unit('C08', 'a form is kept only if every word it is tied to had a form that agrees with it', [
    G + 'TokenRelationsGraph.validate'], schema=SCHEMA8,
    contracts=merged(FORMS, {'property:RelationsGraph.edges': edges_of, G + 'RelationsGraph.edges': edges_of}),
    loops=[Ties(fit_given, fit_inv)], budget=120, remembers=('token_forms',))
def fitting(e):
    g = graph(e)
    e.the_graph = g
    fits_meaning(e, g)
    e.ties_done = z3.IntVal(0)
    sub_given(e, lambda key: e.uf('forms_of', IntSort, IntSort)(key))
    e.call(e.getattr(g, 'validate'), [])
    d = get(e, g, 'token_forms')
    key = e.const('any word', IntSort)
    e.assume(e.uf('has_word_of', IntSort, BoolSort)(key))
    for c, label in fit_inv(e, key, e.dict_get(d, Sym(INT, key)).parts):
        e.prove(c, label)


# --- a form is kept once ----------------------------------------------------------------------------------

def elements(parts, at=(), given=()):
    """(indices, condition, value) of every kind of element"""
    for n, p in enumerate(parts):
        if isinstance(p, Item):
            yield at + ((n, None),), given + (() if p.guard is True else (p.guard,)), p.value
        elif isinstance(p, For) and not p.dedup:
            for x in elements(p.parts, at + ((n, None), (None, p.k)), given + (p.k >= 0, p.k < p.n)):
                yield x
        else:
            raise Unsupported('elements of %r' % (p,))


def once(e, parts):
    """no two elements are equal forms"""
    if len(parts) == 1 and isinstance(parts[0], For) and parts[0].dedup:
        return z3.BoolVal(True)
    out = []
    some = list(elements(parts))
    for at, given, v in some:
        for to, under, w in some:
            w, twin = same(e, w), []
            under = list(under)
            apart = []
            for (n, k), (m, l) in zip(at, to):
                if k is None or l is None:
                    if (n, k is None) != (m, l is None):
                        apart.append(z3.BoolVal(True))
            for m, l in to:
                if l is not None:
                    twin.append((l, e.index()))
            w = z3.substitute(w, *twin) if twin else w
            under = [z3.substitute(c, *twin) if twin else c for c in under]
            mine, other = [k for _, k in at if k is not None], [b for _, b in twin]
            apart += [a != b for a, b in zip(mine, other)]
            both = z3.And(z3.BoolVal(True), *(list(given) + under))
            out.append(z3.Implies(z3.And(both, z3.Or(z3.BoolVal(False), *apart)), same(e, v) != w))
    return z3.And(z3.BoolVal(True), *out)


def once_given(e, forms):
    t, i, j = q(e), q(e), q(e)
    l = forms(t)
    e.assume(z3.ForAll([t, i, j], z3.Implies(z3.And(i >= 0, i < j, j < ln(e, l)), val(e, el(e, l, i)) != val(e, el(e, l, j))),
                       patterns=[z3.MultiPattern(el(e, l, i), el(e, l, j))]))


def once_inv(e, key, parts):
    return [(once(e, parts), 'no form is left twice')]


@unit('C08', 'of forms that differ, none is kept twice', [G + 'TokenRelationsGraph.validate'], schema=SCHEMA8,
      contracts=merged(FORMS, {'property:RelationsGraph.edges': edges_of, G + 'RelationsGraph.edges': edges_of}),
      loops=[Ties(once_given, once_inv)], budget=120, remembers=('token_forms',))
def kept_once(e):
    g = graph(e)
    once_given(e, lambda key: e.uf('forms_of', IntSort, IntSort)(key))
    e.call(e.getattr(g, 'validate'), [])
    d = get(e, g, 'token_forms')
    key = e.const('any word', IntSort)
    e.assume(e.uf('has_word_of', IntSort, BoolSort)(key))
    for c, label in once_inv(e, key, e.dict_get(d, Sym(INT, key)).parts):
        e.prove(c, label)


# --- two words that are tied once ----------------------------------------------------------------------

@unit('C08', 'two words tied once keep exactly the forms that agree with one of the other', [
    G + 'TokenRelationsGraph.validate'], schema=SCHEMA8,
    contracts=merged(FORMS, {
        'property:RelationsGraph.edges': lambda e, a, k: e.new_list([Item(e.the_tie)], GenV),
        G + 'RelationsGraph.edges': lambda e, a, k: e.new_list([Item(e.the_tie)], GenV)}), budget=120)
def one_tie(e):
    g = graph(e)
    edge = e.fresh(OBJ(EDGE), 'tie')
    e.the_tie = edge
    known(e, g, edge)
    r, a, b = tie(e, edge)
    e.assume(a != b)
    F = e.uf('forms_of', IntSort, IntSort)
    result = e.res(e.call(e.getattr(g, 'validate'), []))
    d = get(e, g, 'token_forms')
    v = e.const('form', IntSort)
    i, j = q(e), q(e)
    e.allow('forms_of', 'el_obj_Form', 'len_obj_Form', 'form_value', 'agree')
    mine = z3.And(i >= 0, i < ln(e, F(a)), j >= 0, j < ln(e, F(b)), agree(e, r, val(e, el(e, F(a), i)), val(e, el(e, F(b), j))))
    for key, who in ((a, 0), (b, 1)):
        parts = e.dict_get(d, Sym(INT, key)).parts
        x = el(e, F(a), i) if who == 0 else el(e, F(b), j)
        want = z3.Exists([i, j], z3.And(mine, val(e, x) == v))
        got = zb(e.exists_in(parts, lambda y: same(e, y) == v))
        e.prove(z3.Implies(got, want), 'a form is kept only if a form of the other word agrees with it')
        e.prove(z3.Implies(want, got), 'a form is kept if a form of the other word agrees with it')
    other = e.const('another word', IntSort)
    e.assume(z3.And(other != a, other != b, e.uf('has_forms_of', IntSort, BoolSort)(other)))
    e.prove(e.dict_get(d, Sym(INT, other)).ref == F(other), 'the forms of the other words stay')


# --- the ties of a graph ----------------------------------------------------------------------------------

@unit('C08', 'every two words of a relation are tied once', [G + 'RelationsGraph.edges', G + 'Edge.__init__'], schema=SCHEMA8)
def edges(e):
    g = graph(e)
    r = e.parts_of(e.getattr(g, 'edges'))
    by = get(e, g, 'relation_items').base
    k, i, j = e.index(), e.index(), e.index()
    words = e.symlist(e.uf('words_of', IntSort, IntSort)(by.key(k)), OBJ('MorphToken'))
    n = e.length(words.parts)
    want = [For(k, by.n, [For(i, n, [For(j, z3.simplify(n - 1 - i), [Item((
        by.key(k), e.at(words.parts, i), e.at(words.parts, i + 1 + j)))])])])]

    def eq(x, w):
        return z3.And(same_obj(e, get(e, x, 'first'), w[1]), same_obj(e, get(e, x, 'second'), w[2]),
                      get(e, x, 'relation').ref == w[0], is_cls(e, x, EDGE))
    same_seq(e, r, want, 'each two words of each relation, in order', eq=eq)
    frame(e)


@unit('C08', 'a word is added to its relation with its forms', [G + 'TokenRelationsGraph.add', G + 'RelationsGraph.add'],
      schema=SCHEMA8)
def add(e):
    g = graph(e)
    rel, word = e.fresh(OBJ('Relation'), 'relation'), e.fresh(OBJ('MorphToken'), 'word')
    has = e.uf('has_forms_of', IntSort, BoolSort)
    e.assume(has(word.ref) == e.uf('has_word_of', IntSort, BoolSort)(word.ref))
    e.assume(e.length(get(e, word, 'forms').parts) > 0)
    grew = []
    mark = len(e.logs)
    e.call(e.getattr(g, 'add'), [rel, word])
    for op in e.logs[mark:]:
        if op.kind in ('append', 'extend', 'set', 'pop', 'insert', 'reorder') and isinstance(op.target, ListV) and \
                op.target.ref is not None:
            grew.append(op)
    get_ = lambda n, k: e.dict_get(get(e, g, n), Sym(INT, k))          # noqa: E731
    e.prove(same_obj(e, get_('relations', rel.ref), rel), 'the relation is known')
    e.prove(same_obj(e, get_('tokens', word.ref), word), 'the word is known')
    W = e.uf('words_of', IntSort, IntSort)
    if e.branch(e.uf('has_words_of', IntSort, BoolSort)(rel.ref)):
        e.prove(len(grew) == 1 and grew[0].kind == 'append', 'one word more')
        e.prove(grew[0].target.ref == W(rel.ref), 'among those of the relation')
        e.prove(same_obj(e, grew[0].data[0], word), 'that word')
        e.prove(get_('relation_items', rel.ref).ref == W(rel.ref), 'after the words it had')
    else:
        e.prove(not grew, 'nothing else grows')
        same_seq(e, get_('relation_items', rel.ref).parts, [Item(word)], 'the first word of the relation')
    have = get_('token_forms', word.ref)
    if e.branch(has(word.ref)):
        e.prove(have.ref == e.uf('forms_of', IntSort, IntSort)(word.ref), 'a word that was there keeps the forms it has left')
    else:
        forms = get(e, word, 'forms')
        k = e.index()
        same_seq(e, have.parts, [For(k, e.length(forms.parts), [Item(e.at(forms.parts, k))])], 'all the forms of the word',
                 eq=lambda x, y: same_obj(e, x, y))
        e.prove(have.ref is None or not e.valid(have.ref == forms.ref), 'a list of its own')
    o = e.const('other', IntSort)
    e.assume(z3.And(o != rel.ref, o != word.ref))
    for n, h, f in (('relations', 'has_relation_of', 'relation_of'), ('relation_items', 'has_words_of', 'words_of'),
                    ('tokens', 'has_word_of', 'word_of'), ('token_forms', 'has_forms_of', 'forms_of')):
        e.prove(zb(e.dict_has(get(e, g, n), Sym(INT, o))) == e.uf(h, IntSort, BoolSort)(o), n + ': the others stay')
        e.assume(e.uf(h, IntSort, BoolSort)(o))
        e.prove(get_(n, o).ref == e.uf(f, IntSort, IntSort)(o), n + ': the others stay')
    frame(e, allow=[op.target for op in grew])


@unit('C08', 'at first nothing is tied', [G + 'TokenRelationsGraph.__init__', G + 'RelationsGraph.__init__'], schema=SCHEMA8)
def empty(e):
    g = e.res(e.call(e.w.get(G + 'TokenRelationsGraph'), []))
    k = e.fresh(INT, 'key')
    for n in ('relations', 'relation_items', 'tokens', 'token_forms'):
        e.prove(z3.Not(zb(e.dict_has(get(e, g, n), k))), n)
    h = e.res(e.call(e.w.get(G + 'TokenRelationsGraph'), []))
    for n in ('relations', 'relation_items', 'tokens', 'token_forms'):
        e.prove(get(e, g, n) is not get(e, h, n), n + ': not shared')
    frame(e)


# --- the words of a match get the forms that are left ---------------------------------------------------------

@unit('C08', 'a tied word gets the forms left, others are untouched', [G + 'TokenRelationsGraph.constrain'], schema=SCHEMA8)
def constrain(e):
    for c in ('MorphToken', 'MorphTagToken', 'Token'):
        def thunk():
            g = graph(e)
            w = c05.exactly(e, e.fresh(OBJ('Token'), 'word'), 'yargy.token.' + c)
            tied = e.uf('has_word_of', IntSort, BoolSort)(w.ref)
            if c == 'Token':
                e.assume(z3.Not(tied))          # only words with forms can be tied
            r = e.res(e.call(e.getattr(g, 'constrain'), [w]))
            if not e.branch(tied):
                e.prove(same_obj(e, r, w), 'a word that is not tied is untouched')
                return
            e.prove(r.fresh and is_cls(e, r, 'yargy.token.' + c), 'a word of the same kind')
            for f in ('value', 'span', 'type') + (('tag',) if 'Tag' in c else ()):
                e.prove(zb(e.ident(get(e, r, f), get(e, w, f))), 'the same ' + f)
            e.prove(get(e, r, 'forms').ref == e.uf('forms_of', IntSort, IntSort)(w.ref), 'the forms it has left')
            frame(e)
        e.run_paths(thunk)


share('C08', 'C15', 'stands for a phrase', 'changes only the word', 'every node of a tree is visited', 'walked from left')
share('C08', 'C02', 'becomes a match')
share('C08', 'C07', '')
share('C08', 'C20', 'constrained')
share('C08', 'C14', 'a tree is rebuilt')
