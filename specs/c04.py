"""C04: ambiguity is resolved by the order of alternatives.

A derivation is compared as its choices: the place of the alternative taken at the top, then the choices inside the
phrase from left to right.  The units prove that Node.__lt__ is that order (children by its own contract), that this is a
strict order in which different derivations always differ, so that the first of the sorted trees is the same whatever
order they were found in, that the place of an alternative is its place in the compiled rule, and that the compiler keeps
the alternatives in the order the user gave and builds repetitions and options with theirs."""
from .lib import *
from . import c02, c05
from .c05 import SCHEMA5, VISIT, EXTENDED, MERGED, RC, TR, SQ, API, new, transform, make, visit_of, same, says_nullable, \
    peel, prepared

NODE = 'yargy.tree.constructors.Node'
SCHEMA4 = merged(SCHEMA, {
    ('Node', 'rule'): OBJ('BNFRule'), ('Node', 'production'): OBJ('Production'), ('Node', 'rank'): INT,
    ('Node', 'children'): LIST(OBJ(NODE)),
})


def rank(e, x):
    return fieldterm(e, 'Node', 'rank', x, IntSort)


class Derivations(object):
    """phrases of one rule.  child(x, k): the k-th part of the phrase x; less: the order of the parts (the contract of
    Node.__lt__ for nodes that are different and of one rule)"""

    def __init__(self, e):
        self.e = e
        self.kids = lambda x: fieldterm(e, 'Node', 'children', x, IntSort)
        self.size = lambda x: e.uf('len_obj_' + NODE, IntSort, IntSort)(self.kids(x))
        self.el = e.uf('el_obj_' + NODE, IntSort, IntSort, IntSort)
        self.cls = None
        self.less = e.uf('less', IntSort, IntSort, BoolSort)

    def child(self, x, k):
        return self.el(self.kids(x), k)

    def leaf(self, x, k):
        e = self.e
        return is_cls(e, e.mk(OBJ(NODE), self.child(x, k), facts=False), 'Leaf')

    def differ(self, x, y, k):
        return z3.And(z3.Not(self.leaf(x, k)), self.child(x, k) != self.child(y, k))

    def smaller(self, x, y, j):
        """x comes before y; j: a fresh variable"""
        i = q(self.e)
        first = z3.And(j >= 0, j < self.size(x), self.differ(x, y, j),
                       z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < j), z3.Not(self.differ(x, y, i)))))
        return z3.Or(rank(self.e, x) < rank(self.e, y),
                     z3.And(rank(self.e, x) == rank(self.e, y),
                            z3.Exists([j], z3.And(first, self.less(self.child(x, j), self.child(y, j))))))

    def alike(self, x, y):
        """phrases of one rule by one alternative have parts of the same kinds"""
        j = q(self.e)
        same_size = z3.And(self.size(x) == self.size(y), z3.ForAll([j], z3.Implies(
            z3.And(j >= 0, j < self.size(x)), self.leaf(x, j) == self.leaf(y, j))))
        return z3.And(self.size(x) >= 0, self.size(y) >= 0,
                      z3.Implies(rank(self.e, x) == rank(self.e, y), same_size))


def c_node_lt(e, a, k):
    """contract for the parts: the order, in which the earlier alternative comes first"""
    x, y = e.res(a[0]), e.res(a[1])
    return Sym(BOOL, e.uf('less', IntSort, IntSort, BoolSort)(x.ref, y.ref))


@unit('C04', 'derivations are compared by their choices, outer before inner, left before right', [NODE + '.__lt__'],
      schema=SCHEMA4, contracts={'dispatch:%s.__lt__' % NODE: c_node_lt}, budget=120)
def compare(e):
    d = Derivations(e)
    a, b = e.fresh(OBJ(NODE), 'a'), e.fresh(OBJ(NODE), 'b')
    for x in (a, b):
        x.cls, x.cands = e.w.cls(NODE), None
        e.type_facts(x)
    e.assume(fieldterm(e, 'Node', 'rule', a.ref, IntSort) == fieldterm(e, 'Node', 'rule', b.ref, IntSort))
    e.assume(a.ref != b.ref)
    e.assume(d.alike(a.ref, b.ref))
    i = q(e)
    # the contract for parts: the place of the alternative decides if it can; different phrases always compare
    part = lambda x, y: z3.And(z3.Implies(rank(e, x) < rank(e, y), z3.And(d.less(x, y), z3.Not(d.less(y, x)))),         # noqa: E731
                               z3.Implies(x != y, d.less(x, y) == z3.Not(d.less(y, x))))
    k = q(e)
    u, v = d.child(a.ref, k), d.child(b.ref, k)
    e.assume(z3.ForAll([k], z3.And(part(u, v), part(v, u)), patterns=[z3.MultiPattern(u, v)]))
    f = e.getattr(e.w.get(NODE), '__lt__')
    got = zb(e.truth(e.body_call(f, [a, b])))
    e.prove(got == d.smaller(a.ref, b.ref, i), 'the order of the choices')
    frame(e)


@unit('C04', 'the order of the choices is strict and total', [])
def total(e):
    """for phrases of one rule over the same words: given that for their parts, part by part"""
    e.schema = SCHEMA4
    d = Derivations(e)
    a, b, c = (e.fresh(OBJ(NODE), n).ref for n in 'abc')
    j, k, m = e.const('j', IntSort), e.const('k', IntSort), e.const('m', IntSort)
    for x in (a, b, c):
        for y in (a, b, c):
            e.assume(d.alike(x, y))
    i = q(e)
    for x, y, z in [(a, b, c)]:
        every = z3.And(i >= 0, i < d.size(x))
        u, v, w = d.child(x, i), d.child(y, i), d.child(z, i)
        order = [z3.Implies(p != r, d.less(p, r) == z3.Not(d.less(r, p))) for p, r in ((u, v), (v, w), (u, w))]
        order += [z3.Not(d.less(p, p)) for p in (u, v, w)]
        order += [z3.Implies(z3.And(d.less(p, r), d.less(r, s)), d.less(p, s))
                  for p in (u, v, w) for r in (u, v, w) for s in (u, v, w)]
        e.assume(z3.ForAll([i], z3.Implies(every, z3.And(*order))))

    def first(x, y, j):
        return z3.And(j >= 0, j < d.size(x), d.differ(x, y, j),
                      z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < j), z3.Not(d.differ(x, y, i)))))
    before = lambda x, y, j: z3.Or(rank(e, x) < rank(e, y), z3.And(                                 # noqa: E731
        rank(e, x) == rank(e, y), first(x, y, j), d.less(d.child(x, j), d.child(y, j))))
    # leaves of one word and term are made once for a state, so phrases that differ differ in a part (C02)
    apart = lambda x, y, j: z3.Implies(rank(e, x) == rank(e, y), first(x, y, j))                    # noqa: E731
    e.prove(z3.Not(before(a, a, j)), 'nothing comes before itself')
    e.prove(z3.Implies(apart(a, b, j), z3.Or(before(a, b, j), before(b, a, j))), 'of two one comes first')
    e.prove(z3.Implies(z3.And(before(a, b, j), before(b, a, k)), False), 'and only one')
    e.prove(z3.Implies(z3.And(before(a, b, j), before(b, c, k)), before(a, c, z3.If(j < k, j, k)) if False else
                       z3.Or(before(a, c, j), before(a, c, k))), 'what comes before comes before what is after')


@unit('C04', 'the first of the derivations does not depend on the order they were found in', [])
def unique_first(e):
    less = e.uf('less', IntSort, IntSort, BoolSort)
    n = e.const('n', IntSort)
    el, p, r = (e.uf(x, IntSort, IntSort) for x in ('tree', 'one_order', 'other_order'))
    i, j = q(e), q(e)
    among = lambda i: z3.And(i >= 0, i < n)                                                         # noqa: E731
    a, b = q(e), q(e)
    e.assume(n >= 1)
    e.assume(z3.ForAll([a, b], z3.And(z3.Not(z3.And(less(a, b), less(b, a))), z3.Or(a == b, less(a, b), less(b, a)))))
    for s in (p, r):
        e.assume(z3.ForAll([i], z3.Implies(among(i), among(s(i)))))
        e.assume(z3.ForAll([i], z3.Implies(among(i), z3.Exists([j], z3.And(among(j), s(j) == i)))))
        e.assume(z3.ForAll([i, j], z3.Implies(z3.And(among(i), i < j, j < n), z3.Not(less(el(s(j)), el(s(i)))))))
    e.prove(el(p(0)) == el(r(0)), 'the same derivation is the first')


# --- repetitions and options are alternatives in order --------------------------------------------

def alternatives(e, o, part):
    """'empty', 'once' or 'more' for the alternatives of a fresh rule, in order"""
    o = e.res(o)
    if same(e, o, part):
        return ['once']
    if getattr(o, 'repeats', None) is not None:
        return [o]
    if not (isinstance(o, ObjV) and o.fresh and o.cls is not None):
        raise Unsupported('a part of unknown meaning')
    name = o.cls.name
    if name == 'EmptyRule':
        return ['empty']
    if name == 'ForwardRule':
        d = get(e, o, 'rule')
        if d is None:
            raise Unsupported('undefined')
        return alternatives(e, d, part)
    if name == 'OrRule':
        xs = e.concrete(get(e, o, 'rules').parts)
    elif name == 'Rule':
        xs = e.concrete(get(e, o, 'productions').parts)
    else:
        raise Unsupported('rule ' + name)
    if xs is None:
        raise Unsupported('alternatives of unknown number')
    if name == 'OrRule':
        return [y for x in xs for y in alternatives(e, x, part)]
    out = []
    for p in xs:
        p = e.res(p)
        ts = e.concrete(get(e, p, 'terms').parts)
        if ts is None:
            raise Unsupported('parts of unknown number')
        ts = [e.res(t) for t in ts]
        if not ts:
            out.append('empty')
        elif len(ts) == 1:
            out += alternatives(e, ts[0], part)
        elif len(ts) == 2:
            e.prove(zb(same(e, ts[0], part)), 'the first repeat comes first')
            out.append('more')
        else:
            raise Unsupported('alternatives')
    return out


def repeats(e, r, part):
    """(alternatives of the repetition at the end, the parts before it are the part itself)"""
    r = e.res(r)
    if isinstance(r, ObjV) and r.fresh and r.cls is not None and r.cls.name == 'Rule' and \
            getattr(r, 'repeats', None) is None:
        ps = e.concrete(get(e, r, 'productions').parts)
        if ps is not None and len(ps) == 1:
            ts = flat(e, get(e, e.res(ps[0]), 'terms').parts)
            for t in ts[:-1]:
                x = t.parts[0] if isinstance(t, For) and len(t.parts) == 1 else t
                e.prove(zb(same(e, x.value if isinstance(x, Item) else x, part)), 'the repeats that are required come first')
            last = e.res(ts[-1].value if isinstance(ts[-1], Item) else ts[-1]) if not isinstance(ts[-1], For) else None
            if last is None:
                raise Unsupported('parts')
            return alternatives(e, last, part)
    return alternatives(e, r, part)


def c_max_bound(e, a, k):
    r = c05.max_bound(e, a, k)
    flag = k.get('reverse', a[2] if len(a) > 2 else False)
    r.reversed = flag
    return r


def order(e, cls, item):
    """the alternatives a repetition or option stands for, in order"""
    flag = lambda n: e.branch(zb(e.truth(get(e, item, n))))                               # noqa: E731
    if cls == 'OptionalRule':
        return ['once', 'empty'] if flag('reverse') else ['empty', 'once']
    if cls == 'RepeatableOptionalRule':
        xs = ['once', 'more'] if flag('reverse_repeatable') else ['more', 'once']
        return xs + ['empty'] if flag('reverse_optional') else ['empty'] + xs
    return ['once', 'more'] if flag('reverse') else ['more', 'once']


def replaced(cls):
    @unit('C04', 'the alternatives of a repetition or option, in order: ' + cls,
          [TR + 'ReplaceExtendedTransformator.visit_' + cls, TR + 'repeatable', TR + 'optional', TR + 'repeatable_optional',
           TR + 'repeat', API + 'rule', API + 'or_', RC + 'ForwardRule.define'], schema=SCHEMA5,
          contracts=merged(VISIT, {TR + 'max_bound': c_max_bound, RC + 'prepare_terms': prepared}), budget=120)
    def u(e):
        part = e.fresh(OBJ('Rule'), 'part')
        item = new(e, cls, part)
        r = transform(e, make(e, 'ReplaceExtendedTransformator'), item)
        have = repeats(e, r, visit_of(e, part))
        if len(have) == 1 and not isinstance(have[0], str):
            e.prove(zb(e.ident(have[0].reversed, get(e, item, 'reverse'))), 'reversed as it says')
        else:
            want = order(e, cls, item)
            if sorted(have) != sorted(want):
                raise Unsupported('alternatives')
            e.prove(have == want, 'as much as possible first, unless reversed')
        frame(e)


for c_ in EXTENDED:
    replaced(c_)


@unit('C04', 'from one to count repeats: more of them first, unless reversed', [TR + 'max_bound'], schema=SCHEMA5,
      contracts={TR + 'max_bound': c_max_bound, RC + 'prepare_terms': prepared})
def bounded_above(e):
    part, count, rev = e.fresh(OBJ('Rule'), 'part'), e.fresh(INT, 'count'), e.fresh(BOOL, 'reverse')
    e.assume(count.e >= 1)
    r = e.res(e.body_call(e.w.get(TR + 'max_bound'), [part, count, rev]))
    if same(e, r, part):
        e.prove(count.e == 1, 'the part alone if it is not repeated')
        return
    ps = e.concrete(get(e, r, 'rules').parts) if r.cls.name == 'OrRule' else None
    if ps is None or len(ps) != 2:
        raise Unsupported('alternatives')
    have = alternatives(e, r, part)
    want = ['once', 'more'] if e.branch(rev.e) else ['more', 'once']
    e.prove(have == want, 'more first, unless reversed')
    for x in ps:
        x = e.res(x)
        if same(e, x, part):
            continue
        ts = e.concrete(get(e, e.res(e.concrete(get(e, x, 'productions').parts)[0]), 'terms').parts)
        rest = e.res(ts[-1])
        if getattr(rest, 'repeats', None) is None:
            raise Unsupported('recursion')
        e.prove(zb(e.ident(rest.reversed, rev)), 'the rest in the same order')
    frame(e)


# --- merged repetitions keep their orders ---------------------------------------------------------------

def flags(e, o):
    """([(repetition flag)], [(option flag)], part) from the outside in"""
    rep, opt = [], []
    while True:
        o = e.res(o)
        x = getattr(o, 'visit_of', None)
        if x is not None:
            o = x
        elif o.fresh and o.cls is not None and o.cls.name in EXTENDED:
            f = lambda n: zb(e.truth(get(e, o, n)))                                       # noqa: E731
            if o.cls.name == 'RepeatableOptionalRule':
                rep.append(f('reverse_repeatable'))
                opt.append(f('reverse_optional'))
            elif o.cls.name == 'OptionalRule':
                opt.append(f('reverse'))
            else:
                rep.append(f('reverse'))
            o = get(e, o, 'rule')
        else:
            return rep, opt, o


def squashed(outer):
    @unit('C04', 'merged repetitions keep their orders: ' + outer,
          [SQ + 'visit_' + outer, SQ + 'visit_BoundedRule', TR + 'requires_several'], schema=SCHEMA5,
          contracts=merged(VISIT, {TR + 'is_nullable': says_nullable}),
          loops=[WhileInv(SQ + 'visit_MinMaxBoundedRule', peel.havoc, peel.check)], budget=120)
    def u(e):
        for inner in MERGED + [None]:
            def thunk():
                x = e.fresh(OBJ('Rule'), 'part')
                if inner is None:
                    e.assume(z3.Not(is_cls(e, x, 'ExtendedRule')))
                child = x if inner is None else new(e, inner, x, ' inside')
                if inner == 'RepeatableRule':
                    e.assume(c05.core(e, child) == c05.core(e, x))
                item = new(e, outer, child)
                rep, opt, _ = flags(e, item)
                r = transform(e, make(e, 'SquashExtendedTransformator'), item)
                have_rep, have_opt, base = flags(e, r)
                what = '%s of %s: ' % (outer, inner or 'another rule')
                if getattr(base, 'visit_of', None) is None and same(e, base, child):
                    rep, opt = flags(e, item)[0][:1], flags(e, item)[1][:1]
                for have, want, n in ((have_rep, rep, 'repetition'), (have_opt, opt, 'option')):
                    for h in have:
                        e.prove(z3.Or(*[h == w for w in want]), what + 'the order of the %s' % n)
                frame(e)
            e.run_paths(thunk)


for c_ in EXTENDED:
    squashed(c_)


# the place of an alternative in its rule is its rank, and the compiler keeps the places
share('C04', 'C02', 'a phrase starts from', 'a plain rule starts every production', 'match reports a match')
share('C04', 'C01', 'trees are sorted', 'one match for each chosen', 'findall resolves')
share('C04', 'C05', 'alternatives become the productions', 'keeps the parts of a rule', 'a plain rule becomes a rule of the',
      'as good as that part', 'has the parts it is given', 'all the steps')
share('C04', 'C13', 'the lines tried at a word', 'a production per line')
