"""C05: grammar combinators mean what they say after compilation.

L(x) is the language of a rule or term.  visit(x) of a transformator is under the contract 'its result has the language
of x' (and, for the BNF, carries x's marks): every unit proves, for one transformator and one class of rule, that the
object built from visited parts has the same language equation as the rule itself, so the two grammars are the same
system of equations (a memo gives every rule one result).  Repetitions are compared by the numbers of times the repeated
part may be used: for a part x, (x repeated k times, k in [m, M], of x repeated k' times, k' in [a, b]) uses x n times iff
k*a <= n <= k*b for some k in [m, M]."""
from .lib import *

RC = 'yargy.rule.constructors.'
TR = 'yargy.rule.transformators.'
BNF = 'yargy.rule.bnf.'
API = 'yargy.api.'
TRANSFORMATORS = ['ActivateTransformator', 'SquashExtendedTransformator', 'ReplaceExtendedTransformator',
                  'ReplaceOrTransformator', 'ReplaceEmptyTransformator', 'FlattenTransformator', 'BNFTransformator']
SCHEMA5 = merged(SCHEMA, {
    ('Production', 'terms'): LIST(OBJ('Predicate', 'Rule')), ('Production', 'main'): INT,
    ('PipelineProduction', 'terms'): LIST(OBJ('Predicate')), ('PipelineProduction', 'value'): STR,
    ('Rule', 'productions'): LIST(OBJ('Production')), ('OrRule', 'rules'): LIST(OBJ('Rule')),
    ('WrapperRule', 'rule'): OBJ('Rule'), ('ForwardRule', 'rule'): OPT(OBJ('Rule')),
    ('ExtendedRule', 'reverse'): BOOL, ('MinBoundedRule', 'min'): INT, ('MaxBoundedRule', 'max'): INT,
    ('RepeatableOptionalRule', 'reverse_repeatable'): BOOL, ('RepeatableOptionalRule', 'reverse_optional'): BOOL,
    ('NamedRule', 'name'): STR, ('InterpretationRule', 'interpretator'): OBJ('Interpretator'),
    ('RelationRule', 'relation'): OBJ('Relation'), ('PipelineRule', 'pipeline'): OBJ('Pipeline'),
    ('BNFRule', 'name'): OPT(STR), ('BNFRule', 'interpretator'): OPT(OBJ('Interpretator')),
    ('BNFRule', 'relation'): OPT(OBJ('Relation')), ('BNFRule', 'productions'): LIST(OBJ('Production')),
})


def module(t):
    return (BNF if t == 'BNFTransformator' else TR) + t


def exactly(e, o, cls):
    """an object of exactly this class"""
    o.cls = e.w.cls(cls)
    o.cands = None
    e.type_facts(o)
    return o


def visited(result='Rule'):
    """contract of visit: some object with the language of the given one"""
    def f(e, a, k):
        x = e.res(a[1])
        if not isinstance(x, ObjV):
            raise Unsupported('visiting %r' % (x,))
        if x.fresh:
            r = e.fresh(OBJ(result), 'visited')
            r.visit_of = x
            return r
        P = e.w.cls(RC + 'Production')
        production = any(P in c.mro for c in ([x.cls] if x.cls is not None else x.cands))
        r = e.mk(OBJ('Production' if production else result),
                 e.uf('visited_production' if production else 'visited_rule', IntSort, IntSort)(x.ref), facts=False)
        r.visit_of = x
        return r
    return f


VISIT = {TR + 'RuleTransformator.visit': visited()}
VISIT_BNF = {TR + 'RuleTransformator.visit': visited('BNFRule')}


class Met(object):
    """the memo of a transformation at any time: some rules have been met, each is kept with its result"""

    name = 'visited'

    def has(self, e, key):
        return e.uf('met', IntSort, BoolSort)(e.num(key))

    def get(self, e, key, missing=None):
        if e.branch(self.has(e, key)):
            return self.value(e, e.num(key))
        if missing is not NotImpl:
            return missing
        e.throw('KeyError', key)

    def value(self, e, key):
        return (e.mk(OBJ('Rule'), key, facts=False),
                e.mk(OBJ('Rule'), e.uf('result', IntSort, IntSort)(key), facts=False))

    def keys(self, e):
        raise Unsupported('names of the memo')

    items = keys


def make(e, t):
    """a transformation that has been used before: its memo holds any rules with their results"""
    if t == 'ActivateTransformator':
        r = e.res(e.call(e.w.get(TR + t), [e.fresh(OBJ('Context'), 'context')]))
    else:
        r = e.res(e.call(e.w.get(module(t)), []))
    try:
        memo_ = e.res(e.getattr(r, 'visited'))
    except PyRaise:
        return r
    if isinstance(memo_, DictV) and memo_.base is None and not memo_.parts and not memo_.groups and memo_.default is None:
        e.setattr(r, 'visited', DictV(birth=e.new_stamp(), base=Met()))
    return r


def transform(e, t, item):
    """what visit computes for an item that it has not met before"""
    m = e.call(e.getattr(t, 'resolve_method'), [item])
    return e.res(e.call(m, [item]))


def visit_of(e, x, result='Rule'):
    """the visited object for a part"""
    return visited(result)(e, [None, x], {})


# --- parts that are kept --------------------------------------------------------------

FIELDS = {
    'Rule': [('productions', 'parts')], 'OrRule': [('rules', 'parts')],
    'OptionalRule': [('rule', 'part'), ('reverse', 'same')], 'RepeatableRule': [('rule', 'part'), ('reverse', 'same')],
    'RepeatableOptionalRule': [('rule', 'part'), ('reverse_repeatable', 'same'), ('reverse_optional', 'same')],
    'MinBoundedRule': [('rule', 'part'), ('min', 'same'), ('reverse', 'same')],
    'MaxBoundedRule': [('rule', 'part'), ('max', 'same'), ('reverse', 'same')],
    'MinMaxBoundedRule': [('rule', 'part'), ('min', 'same'), ('max', 'same'), ('reverse', 'same')],
    'NamedRule': [('rule', 'part'), ('name', 'same')],
    'InterpretationRule': [('rule', 'part'), ('interpretator', 'same')],
    'RelationRule': [('rule', 'part'), ('relation', 'same')],
}
EXTENDED = ['OptionalRule', 'RepeatableRule', 'RepeatableOptionalRule', 'MinBoundedRule', 'MaxBoundedRule',
            'MinMaxBoundedRule']
# what a transformator rewrites; everything else it keeps, part by part
REWRITES = {
    'ActivateTransformator': [], 'SquashExtendedTransformator': EXTENDED, 'ReplaceExtendedTransformator': EXTENDED,
    'ReplaceOrTransformator': ['OrRule'], 'ReplaceEmptyTransformator': ['EmptyRule'], 'FlattenTransformator': [],
    'BNFTransformator': list(FIELDS) + ['EmptyRule'],
}


def sample(e, cls):
    """any item of the class"""
    return exactly(e, e.fresh(OBJ(RC + cls), 'item'), RC + cls)


def kept(t):
    @unit('C05', t + ' keeps the parts of a rule it does not rewrite',
          [TR + 'RuleTransformator.visit_' + c for c in FIELDS if c not in REWRITES[t]] +
          [TR + 'RuleTransformator.visit_EmptyRule', TR + 'RuleTransformator.visit_EmptyProduction'],
          schema=SCHEMA5, contracts=VISIT, budget=120)
    def u(e):
        for cls, fields in FIELDS.items():
            if cls in REWRITES[t]:
                continue

            def thunk():
                tr, item = make(e, t), sample(e, cls)
                bounded(e, item, cls)
                r = transform(e, tr, item)
                e.prove(isinstance(r, ObjV) and r.fresh and r.cls is e.w.cls(RC + cls), 'a new rule of the same class')
                for f, kind in fields:
                    have, want = get(e, r, f), get(e, item, f)
                    if kind == 'same':
                        e.prove(zb(e.ident(have, want)), cls + ': ' + f)
                    elif kind == 'part':
                        e.prove(same_obj(e, have, visit_of(e, want)), cls + ': the visited part')
                    else:
                        parts_visited(e, have.parts, want, cls + ': the visited ' + f)
                frame(e)
            e.run_paths(thunk)
        for cls in ('EmptyRule', 'EmptyProduction'):
            if cls in REWRITES[t]:
                continue
            item = sample(e, cls)
            e.prove(same_obj(e, transform(e, make(e, t), item), item), cls + ' stays')

    @unit('C05', t + ' keeps the words and parts of a production, and which of them is main',
          [TR + 'RuleTransformator.visit_Production', TR + 'RuleTransformator.visit_term', RC + 'Production.__init__'],
          schema=SCHEMA5, contracts=merged(VISIT_BNF if t == 'BNFTransformator' else VISIT, TERMS), budget=120)
    def v(e):
        tr = make(e, t)
        item = exactly(e, e.fresh(OBJ(RC + 'Production'), 'production'), RC + 'Production')
        e.assume(z3.And(e.num(get(e, item, 'main')) >= 0))
        r = transform(e, tr, item)
        if t == 'FlattenTransformator' and not r.fresh:
            only = only_term(e, item)
            e.prove(only is not None and is_cls(e, only, RC + 'Rule'), 'flattened: the only part is a plain rule')
            inner = only_production(e, only)
            e.prove(inner is not None and same_obj(e, r, visit_of(e, inner)), 'flattened: the only production of it')
            return
        e.prove(r.cls is e.w.cls(RC + 'Production') and r.fresh, 'a new production')
        e.prove(e.num(get(e, r, 'main')) == e.num(get(e, item, 'main')), 'the main part')
        have, want = get(e, r, 'terms'), get(e, item, 'terms')
        n = e.length(want.parts)
        e.prove(e.length(have.parts) == n, 'as many parts')
        k = e.index()
        with e.loopctx(k, n):
            def thunk():
                x, y = e.res(e.at(have.parts, k)), e.res(e.at(want.parts, k))
                if e.branch(is_cls(e, y, 'Predicate')):
                    if t == 'ActivateTransformator':
                        y = activated(e, [y, get(e, tr, 'context')], {})
                    e.prove(same_obj(e, x, y), 'the word')
                elif t == 'FlattenTransformator':
                    e.prove(same_obj(e, x, flattened(e, [None, y], {})), 'the part')
                else:
                    e.prove(same_obj(e, x, visit_of(e, y, 'BNFRule' if t == 'BNFTransformator' else 'Rule')), 'the part')
            e.run_paths(thunk)
        frame(e)


def parts_visited(e, have, want, label, result='Rule'):
    n = e.length(want.parts)
    e.prove(e.length(have) == n, label + ': as many')
    k = e.index()
    with e.loopctx(k, n):
        e.run_paths(lambda: e.prove(same_obj(e, e.at(have, k), visit_of(e, e.res(e.at(want.parts, k)), result)), label))


def bounded(e, item, cls):
    """the bounds of a rule that exists are those its constructor admits (C18)"""
    lo = e.num(get(e, item, 'min')) if cls in ('MinBoundedRule', 'MinMaxBoundedRule') else None
    hi = e.num(get(e, item, 'max')) if cls in ('MaxBoundedRule', 'MinMaxBoundedRule') else None
    if lo is not None:
        e.assume(lo >= 1)
    if hi is not None:
        e.assume(hi >= (1 if lo is None else lo))


def activated(e, a, k):
    """contract of Predicate.activate (C06)"""
    p, c = e.res(a[0]), e.res(a[1])
    return e.mk(OBJ('Predicate'), e.uf('activated', IntSort, IntSort, IntSort)(p.ref, c.ref), facts=False)


def flattened(e, a, k):
    """contract of FlattenTransformator.visit_term: a term with the same language"""
    x = e.res(a[1])
    return e.mk(OBJ('Predicate', 'Rule'),
                z3.If(is_cls(e, x, 'Predicate'), x.ref, e.uf('flattened', IntSort, IntSort)(x.ref)), facts=False)


def prepared(e, a, k):
    """contract of prepare_terms (C18) for terms none of which is marked main"""
    e.prove(e.forall_in(e.parts_of(a[0]), lambda x: e.mkbool(z3.Not(is_cls(e, x, 'Main')))), 'no part is marked main')
    return e.res(a[0]), 0


TERMS = {'dispatch:Predicate.activate': activated, RC + 'prepare_terms': prepared,
         TR + 'FlattenTransformator.visit_term': flattened}


def only(e, l):
    """the only element of a list, or None"""
    if e.branch(e.length(l.parts) == 1):
        return e.res(e.at(l.parts, z3.IntVal(0)))
    return None


def only_term(e, production):
    return only(e, get(e, production, 'terms'))


def only_production(e, rule):
    return only(e, get(e, rule, 'productions'))


for t_ in TRANSFORMATORS:
    kept(t_)


@unit('C05', 'a part that is a plain rule of one part is as good as that part', [TR + 'FlattenTransformator.visit_term'],
      schema=SCHEMA5, contracts=merged(VISIT, {TR + 'FlattenTransformator.visit_term': flattened}))
def flatten_term(e):
    tr = make(e, 'FlattenTransformator')
    x = e.fresh(OBJ('Predicate', 'Rule'), 'term')
    r = e.body_call(e.getattr(tr, 'visit_term'), [x])
    if e.branch(is_cls(e, x, 'Predicate')):
        e.prove(same_obj(e, r, x), 'a word stays')
        return
    if e.branch(same_obj(e, r, visit_of(e, x))):
        e.prove(True, 'the visited rule')
        return
    e.prove(e.type_of(x) is e.w.cls(RC + 'Rule') or e.cls_tag(x.ref) == e.w.cls(RC + 'Rule').id,
            'only a plain rule is looked into')
    p = only_production(e, x)
    e.prove(p is not None, 'of one alternative')
    y = only_term(e, p) if p is not None else None
    e.prove(y is not None and same_obj(e, r, flattened(e, [None, y], {})), 'of one part, which takes its place')
    frame(e)


# --- repetitions --------------------------------------------------------------------------

def bounds_of(e, o):
    """(m, M or None): how many times the part of an extended rule may be repeated"""
    c = o.cls.name
    get_ = lambda n: e.num(get(e, o, n))                                      # noqa: E731
    return {'OptionalRule': lambda: (z3.IntVal(0), z3.IntVal(1)), 'RepeatableRule': lambda: (z3.IntVal(1), None),
            'RepeatableOptionalRule': lambda: (z3.IntVal(0), None), 'MinBoundedRule': lambda: (get_('min'), None),
            'MaxBoundedRule': lambda: (z3.IntVal(1), get_('max')),
            'MinMaxBoundedRule': lambda: (get_('min'), get_('max'))}[c]()


def levels(e, o):
    """(repetitions from the outside in, the repeated part)"""
    out = []
    while True:
        o = e.res(o)
        x = getattr(o, 'visit_of', None)
        if x is not None:
            o = x
        elif o.fresh and o.cls is not None and o.cls.name in EXTENDED:
            out.append(bounds_of(e, o))
            o = get(e, o, 'rule')
        else:
            return out, o


def within(n, b):
    return z3.And(n >= b[0], n <= b[1]) if b[1] is not None else n >= b[0]


def times(k, b):
    """interval k*[a, b]"""
    return (k * b[0], None if b[1] is None else k * b[1])


def uses(ls, n, k):
    """z3: the repetitions allow n uses; k is the number of outer repeats"""
    if len(ls) == 0:
        return n == 1
    if len(ls) == 1:
        return within(n, ls[0])
    if len(ls) > 2:
        raise Unsupported('three nested repetitions')
    a, b = ls[1]
    upper = n <= k * b if b is not None else z3.Or(n == 0, k >= 1)
    return z3.And(within(k, ls[0]), k >= 0, n >= k * a, upper)


def nullable(e, o):
    """z3: the rule may be empty; meaning of is_nullable"""
    ls, base = levels(e, o)
    return z3.Or(*[zb(m <= 0) for m, _ in ls], e.uf('nullable', IntSort, BoolSort)(base.ref))


def included(e, a, b, base, label):
    """every number of uses that a allows is allowed by b, or more uses are if the part may be empty"""
    n, k = e.const('n', IntSort), e.const('k', IntSort)
    empty = e.uf('nullable', IntSort, BoolSort)(base.ref)
    bounds = [z3.IntVal(1)] + [x for l in a + b for x in l if x is not None]
    uses_n = [n] + [z3.If(n >= x, n, x) for x in bounds]
    repeats = uses_n + bounds + [z3.IntVal(0), k]
    if len(b) < 2:
        repeats = [k]
    same_ = [uses(b, n, j) for j in repeats]
    more = [z3.And(empty, m >= n, uses(b, m, j)) for m in uses_n for j in repeats]
    if len(b) == 2:
        more += [z3.And(empty, j * b[1][0] >= n, uses(b, j * b[1][0], j)) for j in repeats]
    e.prove(z3.Implies(z3.And(n >= 0, k >= 0, uses(a, n, k)), z3.Or(*(same_ + more))), label)


def says_nullable(e, a, k):
    """contract of is_nullable: True only if the rule may be empty"""
    o = e.res(a[0])
    s = e.uf('says_nullable', IntSort, BoolSort)(o.ref)
    e.assume(z3.Implies(s, nullable(e, o)))
    return e.mkbool(s)


def new(e, cls, part, tag=''):
    """an extended rule over a part, by its constructor"""
    args = {'MinBoundedRule': 1, 'MaxBoundedRule': 1, 'MinMaxBoundedRule': 2}.get(cls, 0)
    ns = [e.fresh(INT, 'bound' + tag) for _ in range(args)]
    if args:
        e.assume(z3.And(ns[0].e >= 1, ns[-1].e >= ns[0].e))
    flags = [e.fresh(BOOL, 'reverse' + tag) for _ in range(2 if cls == 'RepeatableOptionalRule' else 1)]
    return e.res(e.call(e.w.cls(RC + cls), [part] + ns + flags))


def core(e, x):
    """what a rule repeats after all: x repeated (at least m times) repeats its core (at least m times)"""
    return e.uf('core', IntSort, IntSort)(x.ref)


class Peel(object):
    """invariant of a loop that looks into plain repetitions: the core stays the same"""

    def havoc(self, e, name, entry):
        if not isinstance(entry, ObjV):
            raise Unsupported('loop variable ' + name)
        x = e.fresh(OBJ('Rule'), name)
        e.assume(core(e, x) == core(e, entry))
        e.assume(z3.Not(is_cls(e, x, 'RepeatableOptionalRule')))        # made by this step only, never given to it
        if e.branch(is_cls(e, x, 'RepeatableRule')):
            e.assume(core(e, x) == core(e, get(e, x, 'rule')))
        return x

    def check(self, e, name, entry, value):
        e.prove(core(e, value) == core(e, entry), 'what is looked into repeats the same core')


class MayBeEmpty(object):
    """invariant of the loop of is_nullable: if what is looked into may be empty then so may the whole"""

    def meaning(self, e, x):
        return e.uf('nullable', IntSort, BoolSort)(x.ref)

    def havoc(self, e, name, entry):
        if not isinstance(entry, ObjV):
            raise Unsupported('loop variable ' + name)
        x = e.fresh(OBJ('Rule'), name)
        e.assume(z3.Implies(self.meaning(e, x), self.meaning(e, entry)))
        if e.branch(is_cls(e, x, 'OptionalRule')):
            e.assume(self.meaning(e, x))
        elif e.branch(z3.Or(is_cls(e, x, 'RepeatableRule'), is_cls(e, x, 'BoundedRule'))):
            e.assume(self.meaning(e, x) == self.meaning(e, get(e, x, 'rule')))
        return x

    def check(self, e, name, entry, value):
        e.prove(z3.Implies(self.meaning(e, value), self.meaning(e, entry)), 'if the rest may be empty, so may the whole')


SQ = TR + 'SquashExtendedTransformator.'
peel, empties = Peel(), MayBeEmpty()


@unit('C05', 'is_nullable: yes only for a rule that may be empty', [TR + 'is_nullable'], schema=SCHEMA5,
      loops=[WhileInv(TR + 'is_nullable', empties.havoc, empties.check)])
def is_nullable(e):
    x = e.fresh(OBJ('Rule'), 'rule')
    r = e.truth(e.call(e.w.get(TR + 'is_nullable'), [x]))
    e.prove(z3.Implies(zb(r), empties.meaning(e, x)), 'yes only for a rule that may be empty')
    frame(e)


MERGED = [c for c in EXTENDED if c != 'RepeatableOptionalRule']


def squashed(outer):
    @unit('C05', 'nested repetitions are merged without changing what is accepted: ' + outer,
          [SQ + 'visit_' + outer, SQ + 'visit_BoundedRule', TR + 'requires_several'], schema=SCHEMA5,
          contracts=merged(VISIT, {TR + 'is_nullable': says_nullable}),
          loops=[WhileInv(SQ + 'visit_MinMaxBoundedRule', peel.havoc, peel.check)], budget=120)
    def u(e):
        for inner in MERGED + [None]:
            def thunk():
                x = e.fresh(OBJ('Rule'), 'part')
                if inner is None:
                    e.assume(z3.Not(is_cls(e, x, 'ExtendedRule')))
                child = x if inner is None else new(e, inner, x, ' inside')
                if inner == 'RepeatableRule':
                    e.assume(core(e, child) == core(e, x))
                item = new(e, outer, child)
                if (outer, inner) == ('MinBoundedRule', 'RepeatableRule'):
                    # listed finding: the lower bound over a plain repetition is dropped
                    e.assume(e.num(get(e, item, 'min')) == 1)
                want, base = levels(e, item)
                r = transform(e, make(e, 'SquashExtendedTransformator'), item)
                have, base2 = levels(e, r)
                what = '%s of %s: ' % (outer, inner or 'another rule')
                if z3.simplify(base2.ref).eq(z3.simplify(base.ref)):
                    included(e, want, have, base, what + 'what was accepted still is')
                    included(e, have, want, base, what + 'nothing else is accepted')
                else:
                    m = e.const('m', IntSort)
                    e.prove(core(e, base2) == core(e, base), what + 'the same core is repeated')
                    at_least(e, want, m, what + 'before')
                    at_least(e, have, m, what + 'after')
                frame(e)
            e.run_paths(thunk)


def at_least(e, ls, m, label):
    """exactly the numbers of uses from some m >= 1 on are allowed"""
    low = ls[0][0]
    e.assume(m == low)
    included(e, ls, [(m, None)], e.fresh(OBJ('Rule'), 'any'), label + ': at least m')
    included(e, [(m, None)], ls, e.fresh(OBJ('Rule'), 'any'), label + ': any number from m on')


for c_ in EXTENDED:
    squashed(c_)


# --- repetitions by recursion ----------------------------------------------------------------

def max_bound(e, a, k):
    """contract: the part repeated from once to count times"""
    item, count = e.res(a[0]), e.num(e.res(a[1]))
    e.prove(count >= 1, 'a positive number of repeats')
    r = e.fresh(OBJ('Rule'), 'from one to count')
    r.repeats = (item, (z3.IntVal(1), count))
    return r


class Uses(object):
    """how many times a fresh grammar uses the part: its language equations over numbers of uses.

    A forward reference stands for a set that is guessed and proved: it satisfies its equation, and as every way back to
    the reference uses the part at least once the equation has one solution only."""

    def __init__(self, e, part, guesses):
        self.e = e
        self.part = part
        self.guesses = guesses        # id of forward -> bounds
        self.todo = []

    def rule(self, o, n, used):
        """z3: o can be the part used n times; used: uses since the last forward reference (z3)"""
        e = self.e
        o = e.res(o)
        if same(e, o, self.part):
            return n == 1
        if getattr(o, 'repeats', None) is not None:
            e.prove(zb(same(e, o.repeats[0], self.part)), 'the part itself is repeated')
            return within(n, o.repeats[1])
        if not (isinstance(o, ObjV) and o.fresh and o.cls is not None):
            raise Unsupported('a part of unknown meaning: %r' % (o,))
        name = o.cls.name
        if name == 'ForwardRule':
            if id(o) not in self.guesses:
                self.guesses[id(o)] = (o, None)
                self.todo.append(o)
            b = self.guesses[id(o)][1] or self.guess
            if used is not None:
                e.prove(used >= 1, 'every repeat uses the part')
            return within(n, b)
        if name in ('Rule', 'OrRule'):
            alts = e.concrete(get(e, o, 'productions' if name == 'Rule' else 'rules').parts)
            if alts is None:
                raise Unsupported('alternatives of unknown number')
            return z3.Or(*[(self.production if name == 'Rule' else self.rule)(x, n, used) for x in alts])
        if name == 'EmptyRule':
            return n == 0
        raise Unsupported('rule ' + name)

    def production(self, p, n, used):
        e = self.e
        p = e.res(p)
        if p.cls.name == 'EmptyProduction':
            return n == 0
        count, other = z3.IntVal(0), []
        for x in flat(e, get(e, p, 'terms').parts):
            if isinstance(x, For):
                if len(x.parts) != 1 or not isinstance(x.parts[0], Item) or x.parts[0].guard is not True or x.dedup:
                    raise Unsupported('parts')
                e.prove(zb(same(e, x.parts[0].value, self.part)), 'the part itself is repeated')
                count = count + z3.If(x.n > 0, x.n, 0)
            elif same(e, x, self.part):
                count = count + 1
            else:
                other.append(x)
        if not other:
            return n == count
        if len(other) > 1:
            raise Unsupported('several repeated parts')
        return self.rule(other[0], n - count, None if used is None else used + count)

    def total(self, o, n):
        """z3: the whole uses the part n times"""
        e = self.e
        for b in ((z3.IntVal(1), None), (z3.IntVal(0), None)):
            self.guess = b
            self.todo, self.guesses = [], {}
            try:
                goals = []
                f = self.rule(o, n, None)
                done = []
                while self.todo:
                    x = self.todo.pop()
                    m = e.const('m', IntSort)
                    d = get(e, x, 'rule')
                    if d is None:
                        raise Unsupported('undefined')
                    goals.append(z3.Implies(m >= 0, self.rule(d, m, z3.IntVal(0)) == within(m, b)))
                    done.append(x)
                if all(e.valid(g) for g in goals):
                    for g in goals:
                        e.prove(g, 'the recursion repeats the part as often as that')
                    return f
            finally:
                pass
        raise Unsupported('recursion of unknown meaning')


def same(e, a, b):
    a, b = e.res(a), e.res(b)
    if not (isinstance(a, ObjV) and isinstance(b, ObjV)):
        return False
    if a is b:
        return True
    r = e.ident(a, b)
    return r is True or (z3.is_expr(r) and z3.is_true(z3.simplify(r)))


def replaced(cls):
    @unit('C05', 'what a repetition is compiled to uses the part exactly as often: ' + cls,
          [TR + 'ReplaceExtendedTransformator.visit_' + cls, TR + 'repeatable', TR + 'optional', TR + 'repeatable_optional',
           TR + 'repeat', API + 'rule', API + 'or_', RC + 'ForwardRule.define'], schema=SCHEMA5,
          contracts=merged(VISIT, {TR + 'max_bound': max_bound, RC + 'prepare_terms': prepared}), budget=120)
    def u(e):
        part = e.fresh(OBJ('Rule'), 'part')
        item = new(e, cls, part)
        r = transform(e, make(e, 'ReplaceExtendedTransformator'), item)
        n = e.const('n', IntSort)
        f = Uses(e, visit_of(e, part), {}).total(r, n)
        e.prove(z3.Implies(n >= 0, f == uses([bounds_of(e, item)], n, n)), 'exactly as often as it says')
        frame(e)


for c_ in EXTENDED:
    replaced(c_)


@unit('C05', 'from one to count repeats', [TR + 'max_bound'], schema=SCHEMA5,
      contracts={TR + 'max_bound': max_bound, RC + 'prepare_terms': prepared})
def bounded_above(e):
    part, count, rev = e.fresh(OBJ('Rule'), 'part'), e.fresh(INT, 'count'), e.fresh(BOOL, 'reverse')
    e.assume(count.e >= 1)
    r = e.body_call(e.w.get(TR + 'max_bound'), [part, count, rev])
    n = e.const('n', IntSort)
    f = Uses(e, part, {}).total(r, n)
    e.prove(z3.Implies(n >= 0, f == within(n, (z3.IntVal(1), count.e))), 'exactly that')
    frame(e)


# --- alternatives and the empty rule -----------------------------------------------------------

def plain_alternative(e, p, label):
    """the only part of a production made for one alternative"""
    p = e.res(p)
    e.prove(isinstance(p, ObjV) and p.fresh and p.cls is e.w.cls(RC + 'Production'), label + ': a production')
    ts = e.concrete(get(e, p, 'terms').parts)
    e.prove(ts is not None and len(ts) == 1, label + ': of one part')
    e.prove(e.num(get(e, p, 'main')) == 0, label + ': which is main')
    return e.res(ts[0])


@unit('C05', 'alternatives become the productions of one rule, in order', [TR + 'ReplaceOrTransformator.visit_OrRule'],
      schema=SCHEMA5, contracts=merged(VISIT, {RC + 'prepare_terms': prepared}))
def replace_or(e):
    item = sample(e, 'OrRule')
    r = transform(e, make(e, 'ReplaceOrTransformator'), item)
    e.prove(r.fresh and r.cls is e.w.cls(RC + 'Rule'), 'a plain rule')
    have, want = get(e, r, 'productions'), get(e, item, 'rules')
    n = e.length(want.parts)
    e.prove(e.length(have.parts) == n, 'a production per alternative')
    k = e.index()
    with e.loopctx(k, n):
        e.run_paths(lambda: e.prove(same_obj(e, plain_alternative(e, e.at(have.parts, k), 'an alternative'),
                                             visit_of(e, e.res(e.at(want.parts, k)))), 'the alternative at its place'))
    frame(e)


@unit('C05', 'the empty rule becomes one empty production', [TR + 'ReplaceEmptyTransformator.visit_EmptyRule',
                                                             RC + 'EmptyProduction.__init__'], schema=SCHEMA5,
      contracts=VISIT)
def replace_empty(e):
    r = transform(e, make(e, 'ReplaceEmptyTransformator'), sample(e, 'EmptyRule'))
    e.prove(r.fresh and r.cls is e.w.cls(RC + 'Rule'), 'a plain rule')
    ps = e.concrete(get(e, r, 'productions').parts)
    e.prove(ps is not None and len(ps) == 1, 'of one production')
    e.prove(len(e.concrete(get(e, e.res(ps[0]), 'terms').parts) or []) == 0, 'of nothing')


def memo_entry(e, tr, item):
    """(item, result) as the memo keeps it; kept in another way it is not judged here"""
    memo_ = get(e, tr, 'visited')
    if not isinstance(memo_, DictV):
        raise Unsupported('memo')
    try:
        entry = e.res(e.getitem(memo_, e.call(e.w.builtins['id'], [item])))
    except PyRaise:
        raise Unsupported('memo')
    if not (isinstance(entry, tuple) and len(entry) == 2 and isinstance(e.res(entry[0]), ObjV)):
        raise Unsupported('memo')
    return entry


# --- forward references and the memo -------------------------------------------------------------

def forwards(t):
    @unit('C05', t + ' keeps forward references', [TR + 'RuleTransformator.visit_ForwardRule'], schema=SCHEMA5,
          contracts=VISIT_BNF if t == 'BNFTransformator' else VISIT)
    def u(e):
        tr, item = make(e, t), sample(e, 'ForwardRule')
        r = transform(e, tr, item)
        e.prove(r.fresh and r.cls is e.w.cls(RC + 'ForwardRule'), 'a forward reference')
        d, was = get(e, r, 'rule'), get(e, item, 'rule')
        if was is None:
            e.prove(d is None, 'without a definition')
        else:
            e.prove(d is not None and same_obj(e, d, visit_of(e, was, 'BNFRule' if t == 'BNFTransformator' else 'Rule')),
                    'to the visited definition')
        entry = memo_entry(e, tr, item)
        e.prove(same_obj(e, entry[1], r), 'references to it lead to the same one')
        frame(e)


for t_ in TRANSFORMATORS:
    forwards(t_)


@unit('C05', 'a rule met before has the same result, another rule has its own', [TR + 'RuleTransformator.visit'],
      schema=SCHEMA5, contracts={'yargy.visitor.Visitor.resolve_method': lambda e, a, k: PyFn(
          'visit', lambda e, b, k: e.mk(OBJ('Rule'), e.uf('result', IntSort, IntSort)(e.res(b[0]).ref), facts=False))})
def memo(e):
    tr = make(e, 'SquashExtendedTransformator')
    a, b = e.fresh(OBJ('Rule'), 'a'), e.fresh(OBJ('Rule'), 'b')
    visit = e.getattr(tr, 'visit')
    result = lambda x: e.mk(OBJ('Rule'), e.uf('result', IntSort, IntSort)(x.ref), facts=False)      # noqa: E731
    r = e.call(visit, [a])
    s = e.call(visit, [b])
    again = e.call(visit, [a])
    e.prove(same_obj(e, r, result(a)), 'the result of its method')
    e.prove(same_obj(e, s, result(b)), 'the result of its method, after another rule')
    e.prove(same_obj(e, again, r), 'the same result when met again')
    entry = memo_entry(e, tr, a)
    e.prove(same_obj(e, entry[0], a), 'the rule itself is kept, so that its id is not given to another one')
    frame(e)


# --- names, interpretations, relations -----------------------------------------------------------

MARKS = {'NamedRule': 'name', 'InterpretationRule': 'interpretator', 'RelationRule': 'relation'}


def no_parts(e, a, k):
    return False


def shared(e, a, k):
    """contract of is_shared: the part is used in several places"""
    return e.mkbool(e.uf('shared', IntSort, BoolSort)(e.res(a[1]).ref))


def lifted(e, r, part, label):
    """r is a new rule of the grammar with the part as its only alternative"""
    ps = e.concrete(e.parts_of(get(e, r, 'productions')))
    e.prove(ps is not None and len(ps) == 1, label + ': one alternative')
    e.prove(same_obj(e, plain_alternative(e, ps[0], label), part), label + ': the part itself')


def marked(cls):
    @unit('C05', 'the mark of a part goes to that part only: ' + cls,
          [BNF + 'BNFTransformator.visit_' + cls, BNF + 'BNFTransformator.visit_WrapperRule', BNF + 'lift',
           BNF + 'BNFRule.__init__'], schema=SCHEMA5,
          contracts=merged(VISIT_BNF, {BNF + 'BNFTransformator.is_shared': shared, RC + 'prepare_terms': prepared}))
    def u(e):
        tr, item = make(e, 'BNFTransformator'), sample(e, cls)
        inner = get(e, item, 'rule')
        part = visit_of(e, inner, 'BNFRule')
        e.type_facts(part)
        was = {a: get(e, part, a) for a in MARKS.values()}
        r = transform(e, tr, item)
        a = MARKS[cls]
        mark = get(e, item, a)
        e.prove(zb(e.ident(get(e, r, a), mark)), 'the mark')
        forward = e.branch(is_cls(e, inner, 'ForwardRule'))
        if not r.fresh:
            # the mark is added to the compiled part
            e.prove(same_obj(e, r, part), 'the compiled part')
            e.prove(z3.Not(e.uf('shared', IntSort, BoolSort)(inner.ref)), 'it is used here only')
            e.prove(not forward, 'it is not a forward reference')
            e.prove(z3.Not(zb(e.truth(was[a]))), 'it had no such mark')
            for b in MARKS.values():
                if b != a:
                    e.prove(zb(e.ident(get(e, r, b), was[b])), 'its other marks stay')
            for op in e.logs:
                if op.kind in ('field', 'heapw') and isinstance(op.target, ObjV) and not op.target.fresh:
                    e.prove(same_obj(e, op.target, part) if op.data[0] == a else False, 'nothing else is changed')
        else:
            e.prove(r.cls is e.w.cls(BNF + 'BNFRule'), 'a rule of the grammar')
            for b in MARKS.values():
                if b != a:
                    e.prove(get(e, r, b) is None, 'no other mark')
            inside = sole(e, r)
            if inside is not None and isinstance(inside, ObjV) and inside.fresh and inside.cls is e.w.cls(BNF + 'BNFRule'):
                # lifted twice
                for b in MARKS.values():
                    e.prove(get(e, inside, b) is None, 'no mark in between')
                r = inside
            lifted(e, r, part, 'around the compiled part')
            frame(e)


def sole(e, r):
    ps = e.concrete(e.parts_of(get(e, r, 'productions')))
    if ps is None or len(ps) != 1:
        return None
    ts = e.concrete(e.parts_of(get(e, e.res(ps[0]), 'terms')))
    if ts is None or len(ts) != 1:
        return None
    return e.res(ts[0])


for c_ in MARKS:
    marked(c_)


@unit('C05', 'a plain rule becomes a rule of the grammar without marks', [BNF + 'BNFTransformator.visit_Rule'],
      schema=SCHEMA5, contracts=VISIT_BNF)
def bnf_rule(e):
    item = sample(e, 'Rule')
    r = transform(e, make(e, 'BNFTransformator'), item)
    e.prove(r.fresh and r.cls is e.w.cls(BNF + 'BNFRule'), 'a rule of the grammar')
    for b in MARKS.values():
        e.prove(get(e, r, b) is None, 'without marks')
    parts_visited(e, e.parts_of(get(e, r, 'productions')), get(e, item, 'productions'), 'its alternatives, in order')
    frame(e)


# --- forward references are removed ------------------------------------------------------------------

def defined(e, a, k):
    """contract of RemoveForwardTransformator.visit of a part: of a reference, the definition at the end of the chain
    (proved in C18); of anything else, itself (proved below)"""
    x = e.res(a[1])
    ref = x.ref
    if e.feasible(is_cls(e, x, 'ForwardRule')):
        ref = z3.If(is_cls(e, x, 'ForwardRule'), e.uf('definition', IntSort, IntSort)(ref), ref)
    return e.mk(ANY, ref, facts=False)


@unit('C05', 'references in a production become the rules they refer to', [
    TR + 'InplaceRuleTransformator.visit_Production', BNF + 'RemoveForwardTransformator.visit_term',
    TR + 'InplaceRuleTransformator.visit_EmptyProduction', BNF + 'RemoveForwardTransformator.visit_BNFRule'],
    schema=SCHEMA5, contracts={'yargy.visitor.Visitor.visit': defined})
def remove_forward(e):
    tr = e.res(e.call(e.w.get(BNF + 'RemoveForwardTransformator'), []))
    p = sample(e, 'Production')
    want = get(e, p, 'terms')
    main_ = e.num(get(e, p, 'main'))
    r = transform(e, tr, p)
    e.prove(same_obj(e, r, p), 'the same production')
    have = get(e, p, 'terms')
    n = e.length(want.parts)
    e.prove(e.length(have.parts) == n, 'as many parts')
    e.prove(e.num(get(e, p, 'main')) == main_, 'the same main part')
    k = e.index()
    with e.loopctx(k, n):
        def thunk():
            x, y = e.res(e.at(have.parts, k)), e.res(e.at(want.parts, k))
            if e.branch(is_cls(e, y, 'ForwardRule')):
                y = defined(e, [None, y], {})
            e.prove(same_obj(e, x, y), 'the part, or what it refers to')
        e.run_paths(thunk)
    b = exactly(e, e.fresh(OBJ(BNF + 'BNFRule'), 'rule'), BNF + 'BNFRule')
    before = get(e, b, 'productions')
    transform(e, tr, b)
    same_seq(e, get(e, b, 'productions').parts, before.parts, 'the alternatives stay', eq=lambda x, y: e.ident(x, y))
    for x in ('EmptyProduction',):
        o = sample(e, x)
        e.prove(same_obj(e, transform(e, tr, o), o), x + ' stays')


# --- what the combinators build ---------------------------------------------------------------------

REC = 'yargy.record.Record'


def split_main(e, a, k):
    """contract of prepare_terms (C15): the parts, without their main mark, and the place of the marked one"""
    terms = e.res(e.fresh(LIST(OBJ('Predicate', 'Rule')), 'terms'))
    terms.made_of = e.parts_of(a[0])
    main_ = e.res(e.fresh(INT, 'main'))
    e.assume(main_.e >= 0)
    terms.marked_main = main_
    return terms, main_


def plain_rule(e, r, label):
    """the terms of a new rule of one alternative"""
    r = e.res(r)
    e.prove(isinstance(r, ObjV) and r.fresh and r.cls is e.w.cls(RC + 'Rule'), label + ': a plain rule')
    ps = e.concrete(e.parts_of(get(e, r, 'productions')))
    e.prove(ps is not None and len(ps) == 1, label + ': of one alternative')
    p = e.res(ps[0])
    e.prove(p.fresh and p.cls is e.w.cls(RC + 'Production'), label + ': a plain one')
    ts = get(e, p, 'terms')
    if getattr(ts, 'made_of', None) is None:
        raise Unsupported('terms')
    e.prove(e.num(get(e, p, 'main')) == e.num(ts.marked_main), label + ': whose main part is the marked one')
    return ts.made_of


def text_of(e, x):
    """the text an equality predicate was made for"""
    x = e.res(x)
    if not (isinstance(x, ObjV) and x.fresh and x.cls is e.w.cls('yargy.predicates.bank.eq')):
        return None
    return get(e, x, 'value')


@unit('C05', 'rule(): the parts in order, a text being the word itself', [API + 'rule', API + 'prepare_production_item',
                                                                        RC + 'Production.__init__', RC + 'Rule.__init__'],
      schema=SCHEMA5, contracts={RC + 'prepare_terms': split_main})
def sequence(e):
    for kind in ('Predicate', 'Rule', 'Main', REC):
        items = e.fresh(LIST(OBJ(kind)), 'items')
        if kind == REC:
            continue
        have = plain_rule(e, e.call(e.w.get(API + 'rule'), [StarV(e.parts_of(items))]), 'rule of ' + kind)
        same_seq(e, have, items.parts, 'the parts in order', eq=lambda x, y: e.ident(x, y))
    items = e.fresh(LIST(STR), 'words')
    have = plain_rule(e, e.call(e.w.get(API + 'rule'), [StarV(e.parts_of(items))]), 'rule of words')
    n = e.length(items.parts)
    e.prove(e.length(have) == n, 'a part per word')
    k = e.index()
    with e.loopctx(k, n):
        def thunk():
            v = text_of(e, e.at(have, k))
            e.prove(v is not None, 'a word is itself')
            e.prove(zb(e.eq(v, e.at(items.parts, k))), 'the word')
        e.run_paths(thunk)
    p, r, m, w = e.fresh(OBJ('Predicate'), 'p'), e.fresh(OBJ('Rule'), 'r'), e.fresh(OBJ('Main'), 'm'), e.fresh(STR, 'w')
    ts = e.concrete(plain_rule(e, e.call(e.w.get(API + 'rule'), [p, w, r, m]), 'a mixed rule'))
    e.prove(ts is not None and len(ts) == 4, 'four parts')
    for i, x in ((0, p), (2, r), (3, m)):
        e.prove(same_obj(e, e.res(ts[i]), x), 'a part at its place')
    v = text_of(e, ts[1])
    e.prove(v is not None, 'a word is itself')
    e.prove(zb(e.eq(v, w)), 'the word at its place')
    frame(e)


@unit('C05', 'a rule or production has the parts it is given', [RC + 'Rule.__init__', RC + 'OrRule.__init__',
                                                              RC + 'Production.__init__', API + 'or_'],
      schema=SCHEMA5, contracts={RC + 'prepare_terms': split_main})
def given_parts(e):
    ps = e.fresh(LIST(OBJ('Production')), 'productions')
    r = e.res(e.call(e.w.get(RC + 'Rule'), [ps]))
    same_seq(e, e.parts_of(get(e, r, 'productions')), ps.parts, 'the alternatives in order', eq=lambda x, y: e.ident(x, y))
    rs = e.fresh(LIST(OBJ('Rule')), 'rules')
    for r in (e.res(e.call(e.w.get(RC + 'OrRule'), [rs])), e.res(e.call(e.w.get(API + 'or_'), [StarV(e.parts_of(rs))]))):
        if e.valid(e.length(rs.parts) == 0):
            return     # or_() is a predicate that holds of nothing
        if r.cls is not e.w.cls(RC + 'OrRule'):
            e.prove(e.length(rs.parts) == 0, 'alternatives of rules')
            continue
        same_seq(e, e.parts_of(get(e, r, 'rules')), rs.parts, 'the alternatives in order', eq=lambda x, y: e.ident(x, y))
    ts = e.fresh(LIST(OBJ('Predicate', 'Rule')), 'terms')
    main_ = e.fresh(INT, 'main')
    e.assume(e.num(main_) >= 0)
    p = e.res(e.call(e.w.get(RC + 'Production'), [ts, main_]))
    have = get(e, p, 'terms')
    same_seq(e, have.made_of, ts.parts, 'the parts in order', eq=lambda x, y: e.ident(x, y))
    e.prove(e.num(get(e, p, 'main')) == z3.If(e.num(main_) > 0, e.num(main_), e.num(have.marked_main)), 'the main part')


def interpretator_of(e, a, k):
    """contract of prepare_rule_interpretator, prepare_token_interpretator (C11, C12): a mark, or TypeError"""
    x = e.res(a[0])
    return e.mk(OBJ('Interpretator'), z3.If(is_cls(e, x, 'Interpretator'), x.ref,
                                            e.uf('interpretator_of', IntSort, IntSort)(x.ref)), facts=False)


def combinators(what):
    @unit('C05', 'what the methods of a part build: ' + what, [
        ('yargy.predicates.constructors.Predicate.' if what == 'Predicate' else RC + 'Rule.') + m
        for m in ('optional', 'repeatable', 'named', 'interpretation', 'match')] + [
        RC + c + '.__init__' for c in list(FIELDS)[2:]], schema=SCHEMA5, contracts={
            RC + 'prepare_terms': split_main,
            'yargy.interpretation.interpretator.prepare_rule_interpretator': interpretator_of,
            'yargy.interpretation.interpretator.prepare_token_interpretator': interpretator_of})
    def u(e):
        x = e.fresh(OBJ(what), 'part')
        rev, lo, hi = e.fresh(BOOL, 'reverse'), e.fresh(INT, 'min'), e.fresh(INT, 'max')
        e.assume(z3.And(lo.e >= 1, hi.e >= lo.e))
        name, rel, attr = e.fresh(STR, 'name'), e.fresh(OBJ('Relation'), 'relation'), e.fresh(OBJ('AttributeBase'), 'attribute')
        cases = [('optional', [], {}, 'OptionalRule', {'reverse': False}),
                 ('named', [name], {}, 'NamedRule', {'name': name}),
                 ('interpretation', [attr], {}, 'InterpretationRule', {'interpretator': interpretator_of(e, [attr], {})}),
                 ('match', [rel], {}, 'RelationRule', {'relation': rel})]
        if what == 'Rule':
            cases += [('optional', [], {'reverse': rev}, 'OptionalRule', {'reverse': rev})]
        for flag in (None, rev):
            kw = {} if flag is None else {'reverse': flag}
            want = False if flag is None else flag
            cases += [('repeatable', [], kw, 'RepeatableRule', {'reverse': want}),
                      ('repeatable', [], dict(kw, min=lo), 'MinBoundedRule', {'reverse': want, 'min': lo}),
                      ('repeatable', [], dict(kw, max=hi), 'MaxBoundedRule', {'reverse': want, 'max': hi}),
                      ('repeatable', [], dict(kw, min=lo, max=hi), 'MinMaxBoundedRule',
                       {'reverse': want, 'min': lo, 'max': hi})]
        for m, args, kw, cls, fields in cases:
            def thunk():
                r = e.res(e.call(e.getattr(x, m), args, kw))
                e.prove(isinstance(r, ObjV) and r.fresh and r.cls is e.w.cls(RC + cls), '%s is a %s' % (m, cls))
                part = get(e, r, 'rule')
                if what == 'Predicate':
                    ts = e.concrete(plain_rule(e, part, m))
                    e.prove(ts is not None and len(ts) == 1, m + ': one part')
                    part = e.res(ts[0])
                e.prove(same_obj(e, part, x), m + ': of the part')
                for f, v in fields.items():
                    have = get(e, r, f)
                    e.prove(zb(e.ident(have, e.res(v))), '%s: %s' % (m, f))
                frame(e)
            e.run_paths(thunk)


combinators('Rule')
combinators('Predicate')


@unit('C05', 'a forward reference refers to what it is defined as', [RC + 'ForwardRule.__init__', RC + 'ForwardRule.define',
                                                                  RC + 'WrapperRule.define', RC + 'ForwardRule.children'],
      schema=SCHEMA5, contracts={RC + 'prepare_terms': split_main}, remembers=('rule',))
def define(e):
    r, p, w = e.fresh(OBJ('Rule'), 'r'), e.fresh(OBJ('Predicate'), 'p'), e.fresh(STR, 'word')
    e.assume(z3.Not(is_cls(e, r, 'ForwardRule')))

    def new():
        return e.res(e.call(e.w.get(API + 'forward'), []))
    f = new()
    e.prove(get(e, f, 'rule') is None, 'not defined yet')
    e.prove(same_obj(e, e.call(e.getattr(f, 'define'), [r]), f), 'define gives the reference')
    e.prove(same_obj(e, get(e, f, 'rule'), r), 'it refers to the rule')
    g = new()
    outer = e.res(e.call(e.getattr(g, 'named'), ['g']))
    e.call(e.getattr(outer, 'define'), [r])
    e.prove(same_obj(e, get(e, g, 'rule'), r), 'also when it was named before it is defined')
    for args in ([p], [r, p], [w, r]):
        f = new()
        e.call(e.getattr(f, 'define'), args)
        ts = e.concrete(plain_rule(e, get(e, f, 'rule'), 'define'))
        e.prove(ts is not None and len(ts) == len(args), 'the parts')
        for t, x in zip(ts or (), args):
            v = text_of(e, t)
            e.prove(zb(e.eq(v, x)) if v is not None else same_obj(e, e.res(t), e.res(x)), 'a part at its place')
    frame(e)


# --- the gazetteers --------------------------------------------------------------------------------

@unit('C05', 'a gazetteer is compiled by its own lines', [TR + 'ActivateTransformator.visit_PipelineRule',
                                                       BNF + 'BNFTransformator.visit_PipelineRule', RC + 'PipelineRule.__init__'],
      schema=SCHEMA5, contracts=merged(VISIT, {
          'dispatch:Pipeline.activate': lambda e, a, k: e.mk(OBJ('Pipeline'), e.uf(
              'activated_pipeline', IntSort, IntSort, IntSort)(e.res(a[0]).ref, e.res(a[1]).ref), facts=False),
          'property:Pipeline.as_bnf': lambda e, a, k: e.mk(OBJ('PipelineBNFRule'), e.uf(
              'pipeline_bnf', IntSort, IntSort)(e.res(a[0]).ref), facts=False)}))
def gazetteer(e):
    item = sample(e, 'PipelineRule')
    own = get(e, item, 'pipeline')
    ctx = e.fresh(OBJ('Context'), 'context')
    r = transform(e, e.res(e.call(e.w.get(TR + 'ActivateTransformator'), [ctx])), item)
    e.prove(r.fresh and r.cls is e.w.cls(RC + 'PipelineRule'), 'a gazetteer')
    e.prove(e.res(get(e, r, 'pipeline')).ref == e.uf('activated_pipeline', IntSort, IntSort, IntSort)(own.ref, ctx.ref),
            'with its lines')
    b = transform(e, make(e, 'BNFTransformator'), item)
    e.prove(b.ref == e.uf('pipeline_bnf', IntSort, IntSort)(own.ref), 'compiled by its lines')
    for t in ('SquashExtendedTransformator', 'ReplaceExtendedTransformator', 'ReplaceOrTransformator',
              'ReplaceEmptyTransformator', 'FlattenTransformator'):
        e.prove(same_obj(e, transform(e, make(e, t), item), item), t + ' keeps it')
    frame(e)


# --- names of the rules of a grammar -----------------------------------------------------------------

@unit('C05', 'rules of a grammar keep their names, nameless ones get one', [BNF + 'generate_names', BNF + 'BNF.__init__'],
      schema=SCHEMA5)
def names(e):
    rs = e.fresh(LIST(OBJ('BNFRule')), 'rules')
    n = e.length(rs.parts)
    el = e.uf('el_obj_BNFRule', IntSort, IntSort, IntSort)
    i, j = q(e), q(e)
    # walk gives a rule once (C19)
    e.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), el(rs.ref, i) != el(rs.ref, j))))
    count = e.uf('nameless', IntSort, IntSort)
    none, text = (e.uf('none_BNFRule_name', IntSort, BoolSort), e.uf('fld_BNFRule_name', IntSort, StrSort))
    unnamed = lambda r: z3.Or(none(r), text(r) == e.lit(''))       # noqa: E731
    e.assume(count(0) == 0)
    e.assume(z3.ForAll([i], z3.Implies(i >= 0, count(i + 1) == count(i) + z3.If(unnamed(el(rs.ref, i)), 1, 0)),
                       patterns=[count(i + 1)]))

    def fold(eng, init, p, n):
        return lambda k: Sym(INT, count(k))
    e.folds.append(fold)
    mark = len(e.logs)
    b = e.res(e.call(e.w.get(BNF + 'BNF'), [rs]))
    have = e.parts_of(get(e, b, 'rules'))
    same_seq(e, have, rs.parts, 'all the rules in order', eq=lambda x, y: e.ident(x, y))
    for op in e.logs[mark:]:
        if op.kind == 'field' and isinstance(op.target, ObjV) and not op.target.fresh:
            raise Unsupported('names')
        if op.kind == 'pointwise':
            name, k, m, guard, value = op.data
            e.prove(name == 'name', 'only the name is written')
            with e.loopctx(k, m):
                with_name = z3.Implies(zb(guard), unnamed(op.target.ref))
                e.prove(with_name, 'a rule that has a name keeps it')


# --- the order of the steps ---------------------------------------------------------------------------

def step(name):
    def f(e, a, k):
        o = e.res(a[0])
        e.ghost_emit('steps', [Item((o.cls.name, e.res(a[1])))])
        r = e.fresh(OBJ('Rule'), 'after ' + o.cls.name)
        r.step = len(e.ghost['steps'])
        return r
    return f


@unit('C05', 'a grammar is compiled by all the steps, each on the result of the one before', [
    RC + 'Rule.normalized', RC + 'Rule.as_bnf', RC + 'Rule.transform', 'yargy.visitor.TransformatorsComposition.__call__'],
    schema=SCHEMA5, contracts={TR + 'RuleTransformator.__call__': step('t'), BNF + 'BNFTransformator.__call__': step('t'),
                               TR + 'InplaceRuleTransformator.__call__': step('t'),
                               'property:BNFRule.as_bnf': lambda e, a, k: 'grammar'})
def steps(e):
    x = e.fresh(OBJ('Rule'), 'rule')
    r = e.res(e.getattr(x, 'normalized'))
    check_steps(e, x, r, ['ReplaceExtendedTransformator', 'ReplaceOrTransformator', 'ReplaceEmptyTransformator'],
                [('ReplaceExtendedTransformator', 'ReplaceOrTransformator'),
                 ('ReplaceExtendedTransformator', 'ReplaceEmptyTransformator')])


def check_steps(e, x, r, need, before):
    got = [i.value for i in flat(e, e.ghost.get('steps', [])) if False] or [v for v in flat(e, e.ghost.get('steps', []))]
    names = [v[0] for v in got]
    for n in need:
        e.prove(names.count(n) >= 1, n + ' is applied')
    for a, b in before:
        e.prove(max(i for i, n in enumerate(names) if n == a) < min(i for i, n in enumerate(names) if n == b)
                if a in names and b in names else False, '%s before %s' % (a, b))
    prev = x
    for i, (n, given) in enumerate(got):
        e.prove(zb(e.ident(given, x)) if i == 0 else getattr(given, 'step', None) == i, n + ' is given what is made so far')
    e.prove(getattr(r, 'step', None) == len(got), 'the result of the last step')
