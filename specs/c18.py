"""C18: misuse is rejected with an error; valid use is not."""
from .lib import *

API = 'yargy.api.'
RC = 'yargy.rule.constructors.'
REC = 'Record'
SCHEMA18 = merged(SCHEMA, {
    ('Context', 'tokenizer'): OBJ('Tokenizer'), ('Context', 'tagger'): OBJ('Tagger'),
    ('Tokenizer', 'types'): SET(STR), ('Tokenizer', 'rules'): LIST(OBJ('TokenRule')),
    ('TokenRule', 'type'): STR, ('TokenRule', 'pattern'): STR,
    ('MorphTokenizer', 'morph'): OBJ('MorphAnalyzer'),
    ('ForwardRule', 'rule'): OPT(OBJ('Rule')),
    ('Main', 'term'): OBJ('Record'),
})


def outcome(e, thunk):
    """(the error, the value) of a call"""
    depth = e.depth
    e.depth = depth + 1         # what a user writes: a missing attribute is an error of the program
    try:
        return None, e.res(thunk())
    except PyRaise as p:
        return p, None
    finally:
        e.depth = depth


def refused(e, thunk, bad, what):
    """the call raises exactly when it is a misuse"""
    p, v = outcome(e, thunk)
    if p is not None:
        e.prove(zb(bad), 'a valid use is not refused: ' + what)
    else:
        e.prove(z3.Not(zb(bad)), 'a misuse is refused: ' + what)
    return v


def is_(e, x, *names):
    x = e.res(x)
    if isinstance(x, ObjV):
        return z3.Or(*[is_cls(e, x, n) for n in names])
    return z3.BoolVal(False)


def things(e):
    """a value of every kind a user may pass by mistake"""
    return {
        'predicate': e.fresh(OBJ('Predicate'), 'predicate'), 'relation': e.fresh(OBJ('Relation'), 'relation'),
        'rule': e.fresh(OBJ('Rule'), 'rule'), 'main': e.fresh(OBJ('Main'), 'main'),
        'record': e.fresh(OBJ(REC), 'record'), 'string': e.fresh(STR, 'string'), 'number': e.fresh(INT, 'number'),
        'nothing': None, 'flag': e.fresh(BOOL, 'flag'), 'list': e.fresh(LIST(STR), 'list'),
        'class': e.w.cls('Predicate'),
    }


def nary(e, name):
    """items: any number of records of any kinds, or some other kind of value among them"""
    items = e.fresh(LIST(OBJ(REC)), 'items')
    n = e.length(items.parts)

    def every(*names):
        k = q(e)
        el = e.uf('el_obj_Record', IntSort, IntSort, IntSort)(items.ref, k)
        return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), is_cls(e, e.mk(OBJ(REC), el, facts=False), names[0])))
    return items, every


@unit('C18', 'and_, or_: mixed kinds', [API + 'and_', API + 'or_', 'yargy.predicates.constructors.PredicatesComposition.__init__',
                                     'yargy.relations.constructors.RelationsComposition.__init__', RC + 'OrRule.__init__'],
      schema=SCHEMA18)
def mixed(e):
    for f in ('and_', 'or_'):
        items, every = nary(e, f)
        ok = [every('Predicate'), every('Relation')] + ([every('Rule')] if f == 'or_' else [])
        refused(e, lambda: e.call(e.w.get(API + f), [StarV(e.parts_of(items))]), z3.Not(z3.Or(*ok)), f)


# --- the main part of a production -------------------------------------------------

class Terms(object):
    """any parts of a rule; none(k), pos(k): whether, and where, a part before k is marked main"""

    def __init__(self, e, name='items'):
        self.e = e
        self.items = e.fresh(LIST(OBJ(REC)), name)
        self.n = e.length(self.items.parts)
        self.none = e.uf('none_marked', IntSort, BoolSort)
        self.pos = e.uf('last_marked', IntSort, IntSort)
        k = q(e)
        e.assume(self.none(0))
        e.assume(z3.ForAll([k], z3.Implies(k >= 0, z3.And(
            self.none(k + 1) == z3.And(self.none(k), z3.Not(self.marked(k))),
            self.pos(k + 1) == z3.If(self.marked(k), k, self.pos(k)))), patterns=[self.none(k + 1)]))
        # lemma, by induction: what none and pos mean
        j = q(e)

        def lemma(k):
            return z3.And(self.none(k) == z3.Not(z3.Exists([j], z3.And(j >= 0, j < k, self.marked(j)))),
                          z3.Or(self.none(k), z3.And(self.pos(k) >= 0, self.pos(k) < k, self.marked(self.pos(k)),
                                                     z3.ForAll([j], z3.Implies(z3.And(j > self.pos(k), j < k),
                                                                               z3.Not(self.marked(j)))))))
        m = e.const('m', IntSort)
        e.prove(lemma(z3.IntVal(0)), 'lemma: nothing is marked before the first part')
        e.prove(z3.Implies(z3.And(m >= 0, lemma(m)), lemma(m + 1)), 'lemma: one more part')
        e.assume(z3.ForAll([m], z3.Implies(m >= 0, lemma(m)), patterns=[self.none(m)]))

        def fold(eng, init, p, n):
            if init is None:
                return lambda k: Maybe(self.none(k), Sym(INT, self.pos(k)))
        e.folds.append(fold)

    def item(self, k):
        return self.e.mk(OBJ(REC), self.e.uf('el_obj_Record', IntSort, IntSort, IntSort)(self.items.ref, k), facts=False)

    def marked(self, k):
        return is_cls(self.e, self.item(k), 'Main')

    def wrong(self):
        j = q(self.e)
        i = q(self.e)
        return z3.Or(
            z3.Exists([j], z3.And(j >= 0, j < self.n, z3.Not(is_(self.e, self.item(j), 'Predicate', 'Rule', 'Main')))),
            z3.Exists([i, j], z3.And(i >= 0, i < j, j < self.n, self.marked(i), self.marked(j))))


@unit('C18', 'parts of a rule: two marked main, or of a wrong kind', [RC + 'prepare_terms'], schema=SCHEMA18, budget=90)
def two_mains(e):
    t = Terms(e)
    refused(e, lambda: e.call(e.w.get(RC + 'prepare_terms'), [t.items]), t.wrong(), 'the parts of a rule')


# --- arguments of the wrong kind -----------------------------------------------------

RULE_CLASSES = ['OptionalRule', 'RepeatableRule', 'NamedRule', 'InterpretationRule', 'RelationRule', 'MinBoundedRule',
                'MaxBoundedRule', 'MinMaxBoundedRule', 'RepeatableOptionalRule']


@unit('C18', 'not_, main: arguments of the wrong kind', [
    API + 'not_', 'yargy.relations.constructors.Main.__init__', 'yargy.predicates.constructors.NotPredicate.__init__',
    'yargy.relations.constructors.NotRelation.__init__', 'yargy.check.assert_type'], schema=SCHEMA18)
def unary(e):
    for n, x in things(e).items():
        refused(e, lambda: e.call(e.w.get(API + 'not_'), [x]), z3.Not(is_(e, x, 'Predicate', 'Relation')), 'not_')
        refused(e, lambda: e.call(e.w.cls('Main'), [x]), z3.Not(is_(e, x, 'Predicate', 'Rule')), 'main')
        refused(e, lambda: e.call(e.w.cls('NotPredicate'), [x]), z3.Not(is_(e, x, 'Predicate')), 'NotPredicate')
        refused(e, lambda: e.call(e.w.cls('NotRelation'), [x]), z3.Not(is_(e, x, 'Relation')), 'NotRelation')


def wrapping(name):
    @unit('C18', name + ': arguments of the wrong kind', [RC + name + '.__init__', RC + 'WrapperRule.__init__'],
          schema=SCHEMA18)
    def u(e):
        r = e.fresh(OBJ('Rule'), 'a rule')
        b = e.fresh(BOOL, 'reverse')
        lo, hi = e.fresh(INT, 'min'), e.fresh(INT, 'max')
        flag = lambda x: isinstance(e.res(x), Sym) and e.res(x).t.kind == 'bool'                        # noqa: E731
        args = {'OptionalRule': [('flag', b)], 'RepeatableRule': [('flag', b)],
                'NamedRule': [('string', e.fresh(STR, 'name'))],
                'InterpretationRule': [('Interpretator', e.fresh(OBJ('Interpretator'), 'interpretator'))],
                'RelationRule': [('Relation', e.fresh(OBJ('Relation'), 'relation'))],
                'MinBoundedRule': [('min', lo), ('flag', b)], 'MaxBoundedRule': [('min', hi), ('flag', b)],
                'MinMaxBoundedRule': [('min', lo), ('min', hi), ('flag', b)],
                'RepeatableOptionalRule': [('flag', b), ('flag', b)]}[name]
        low = z3.Or(*[e.num(v) < 1 for k, v in args if k == 'min'])
        if name == 'MinMaxBoundedRule':
            low = z3.Or(low, e.num(hi) < e.num(lo))
        cls = e.w.cls(RC + name)
        refused(e, lambda: e.call(cls, [r] + [v for _, v in args]), low, 'bounds')
        e.assume(z3.Not(low))
        for n, x in things(e).items():
            refused(e, lambda: e.call(cls, [x] + [v for _, v in args]), z3.Not(is_(e, x, 'Rule')), 'wrapping ' + n)
            for i, (k, v) in enumerate(args):
                if k in ('min',):
                    continue
                ok = {'flag': lambda: flag(x), 'string': lambda: n == 'string'}.get(k, lambda: is_(e, x, k))()
                given = [v for _, v in args]
                given[i] = x
                refused(e, lambda: e.call(cls, [r] + given), z3.Not(zb(ok)), 'argument ' + n)


for c in RULE_CLASSES:
    wrapping(c)


@unit('C18', 'bounds of a repetition', [RC + 'Rule.repeatable', 'yargy.predicates.constructors.Predicate.repeatable',
                                        'yargy.check.assert_greater_equals'], schema=SCHEMA18)
def bounds(e):
    for what in ('Rule', 'Predicate'):
        r = e.fresh(OBJ(what), 'r')
        b = e.fresh(BOOL, 'reverse')
        lo, hi = e.fresh(INT, 'min'), e.fresh(INT, 'max')
        f = lambda **k: e.call(e.getattr(r, 'repeatable'), [], dict(k, reverse=b))     # noqa: E731
        refused(e, lambda: f(), False, 'no bounds')
        refused(e, lambda: f(min=lo), e.num(lo) < 1, 'min')
        refused(e, lambda: f(max=hi), e.num(hi) < 1, 'max')
        refused(e, lambda: f(min=lo, max=hi), z3.Or(e.num(lo) < 1, e.num(hi) < e.num(lo)), 'min and max')


@unit('C18', 'what a rule is made of', [RC + 'Rule.__init__', RC + 'OrRule.__init__'], schema=SCHEMA18)
def parts(e):
    for cls, want in (('Rule', 'Production'), ('OrRule', 'Rule')):
        items, every = nary(e, cls)
        refused(e, lambda: e.call(e.w.cls(RC + cls), [items]), z3.Not(every(want)), cls)
        for n, x in things(e).items():
            refused(e, lambda: e.call(e.w.cls(RC + cls), [e.new_list([Item(x)])]), z3.Not(is_(e, x, want)), cls + ' of ' + n)


@unit('C18', 'a forward of a forward', [RC + 'ForwardRule.define', RC + 'WrapperRule.define'], schema=SCHEMA18,
      remembers=('rule',))
def forwards(e):
    f = e.res(e.call(e.w.get(API + 'forward'), []))
    g = e.fresh(OBJ('Rule'), 'definition')
    refused(e, lambda: e.call(e.getattr(f, 'define'), [g]), is_(e, g, 'ForwardRule'), 'definition of a forward')
    p = e.fresh(OBJ('Predicate'), 'predicate')
    w = e.res(e.call(e.w.get(API + 'forward'), []))
    refused(e, lambda: e.call(e.getattr(w, 'define'), [p, g]), False, 'definition by several parts')


def attribute_interpretator(e, a, k):
    """contract: a marked attribute has an interpretator (C12)"""
    return e.fresh(OBJ('AttributeInterpretator'), 'interpretator')


@unit('C18', 'methods of rules and predicates: arguments of the wrong kind',
      [RC + 'Rule.' + m for m in ('optional', 'named', 'interpretation', 'match')] +
      ['yargy.predicates.constructors.Predicate.' + m for m in ('optional', 'named', 'interpretation', 'match')] +
      ['yargy.interpretation.interpretator.prepare_rule_interpretator',
       'yargy.interpretation.interpretator.prepare_token_interpretator'], schema=SCHEMA18, budget=120, contracts={
           'yargy.interpretation.interpretator.prepare_attribute_interpretator': attribute_interpretator})
def methods(e):
    for what in ('Rule', 'Predicate'):
        r = e.fresh(OBJ(what), 'r')
        for n, x in things(e).items():
            f = lambda m: e.call(e.getattr(r, m), [x])     # noqa: E731
            refused(e, lambda: f('named'), n != 'string', 'named by ' + n)
            refused(e, lambda: f('match'), z3.Not(is_(e, x, 'Relation')), 'match with ' + n)
            ok = ['AttributeBase', 'Normalizer'] + (['Interpretator'] if what == 'Rule' else [])
            refused(e, lambda: f('interpretation'), z3.Not(is_(e, x, *ok)), 'interpretation by ' + n)
        F = e.res(e.call(e.w.get('yargy.interpretation.fact.fact'), ['F', e.new_list([Item('x')])]))
        refused(e, lambda: e.call(e.getattr(r, 'interpretation'), [F]), what != 'Rule', 'interpretation by a fact')


# --- names the parser's dictionary, tokenizer and tagger do not have ------------------

BANK = 'yargy.predicates.bank.'
TR = 'yargy.rule.transformators.'


def refusing(name, *sorts):
    """contract of a check: raises exactly when a condition of its arguments holds"""
    def f(e, a, k):
        bad = e.uf(name, *([IntSort] + list(sorts) + [BoolSort]))(
            e.res(a[0]).ref, *[e.term(x) if s == StrSort else e.res(x).ref for x, s in zip(a[1:], sorts)])
        if e.branch(bad):
            e.throw('ValueError', 'refused')
    return f


check_gram = refusing('unknown_gram', StrSort)
activate_fails = refusing('activation_fails', IntSort)


def check_tag(e, a, k):
    return e.mkbool(e.uf('knows_tag', IntSort, StrSort, BoolSort)(e.res(a[0]).ref, e.term(a[1])))


def activate(e, a, k):
    """contract of Predicate.activate: raises, or gives some predicate of the parser"""
    activate_fails(e, a, k)
    p, c = e.res(a[0]), e.res(a[1])
    return e.mk(OBJ('Predicate'), e.uf('activated', IntSort, IntSort, IntSort)(p.ref, c.ref), facts=False)


def named(name, cls):
    @unit('C18', 'unknown ' + name, [BANK + cls + '.activate', 'yargy.tokenizer.Tokenizer.check_type'], schema=SCHEMA18,
          contracts={'dispatch:MorphAnalyzer.check_gram': check_gram, 'dispatch:Tagger.check_tag': check_tag})
    def u(e):
        ctx = e.fresh(OBJ('Context'), 'context')
        v = e.fresh(STR, 'name')
        tk = get(e, ctx, 'tokenizer')
        has = lambda x: zb(e.contains(get(e, tk, 'types'), x))                                  # noqa: E731
        if cls == 'gram':
            tk.cls, tk.cands = e.w.cls('MorphTokenizer'), None
            e.type_facts(tk)
            bad = e.uf('unknown_gram', IntSort, StrSort, BoolSort)(get(e, tk, 'morph').ref, v.e)
            made = [(e.call(e.w.cls(BANK + cls), [v]), bad)]
        elif cls == 'type':
            made = [(e.call(e.w.cls(BANK + cls), [v]), z3.Not(has(v)))]
        elif cls == 'tag':
            bad = z3.Not(e.uf('knows_tag', IntSort, StrSort, BoolSort)(get(e, ctx, 'tagger').ref, v.e))
            made = [(e.call(e.w.cls(BANK + cls), [v]), bad)]
        else:
            f = e.fresh(T('fn'), 'f')
            ts = e.fresh(LIST(STR), 'types')
            some = e.exists_in(ts.parts, lambda x: e.mkbool(z3.Not(has(x))))
            C = e.w.cls(BANK + cls)
            made = [(e.call(C, [f]), False), (e.call(C, [f, v]), z3.Not(has(v))), (e.call(C, [f, ts]), zb(some))]
        for p, bad in made:
            refused(e, lambda: e.call(e.getattr(e.res(p), 'activate'), [ctx]), bad, name)


for n_, c_ in [('grammeme', 'gram'), ('token type', 'type'), ('tag', 'tag'), ('token type of a custom predicate', 'custom')]:
    named(n_, c_)


@unit('C18', 'unknown names inside and_, or_ and not_', ['yargy.predicates.constructors.PredicatesComposition.activate',
                                                         'yargy.predicates.constructors.NotPredicate.activate'],
      schema=SCHEMA18, contracts={'dispatch:Predicate.activate': activate})
def inside(e):
    ctx = e.fresh(OBJ('Context'), 'context')
    ps = e.fresh(LIST(OBJ('Predicate')), 'predicates')
    fails = lambda p: e.uf('activation_fails', IntSort, IntSort, BoolSort)(e.res(p).ref, ctx.ref)        # noqa: E731
    some = e.exists_in(ps.parts, lambda p: e.mkbool(fails(p)))
    for f in ('AndPredicate', 'OrPredicate'):
        c = e.res(e.call(e.w.cls(f), [ps]))
        refused(e, lambda: e.call(e.getattr(c, 'activate'), [ctx]), zb(some), 'a part of ' + f)
    p = e.fresh(OBJ('Predicate'), 'predicate')
    c = e.res(e.call(e.w.cls('NotPredicate'), [p]))
    refused(e, lambda: e.call(e.getattr(c, 'activate'), [ctx]), fails(p), 'the part of not_')


def visited(e, a, k):
    """contract of RuleTransformator.visit: the part is visited"""
    e.ghost_emit('visit', [Item(e.res(a[1]))])
    x = e.res(a[1])
    kind = 'Production' if 'Production' in [c.name for c in (x.cls.mro if x.cls else ())] else 'Rule'
    return e.mk(OBJ(kind), e.uf('visited_' + kind, IntSort, IntSort)(x.ref), facts=False)


@unit('C18', 'terms of a production are activated for the parser', [TR + 'ActivateTransformator.visit_term',
                                                                    TR + 'ActivateTransformator.visit_PipelineRule'],
      schema=SCHEMA18, contracts={'dispatch:Predicate.activate': activate, TR + 'RuleTransformator.visit': visited})
def term(e):
    ctx = e.fresh(OBJ('Context'), 'context')
    t = e.res(e.call(e.w.get(TR + 'ActivateTransformator'), [ctx]))
    p = e.fresh(OBJ('Predicate'), 'predicate')
    fails = e.uf('activation_fails', IntSort, IntSort, BoolSort)(p.ref, ctx.ref)
    refused(e, lambda: e.call(e.getattr(t, 'visit_term'), [p]), fails, 'a predicate of the grammar')


@unit('C18', 'the parser activates its grammar for its own tokenizer and tagger, of the right kinds',
      ['yargy.parser.Parser.__init__', RC + 'Rule.activate', 'yargy.parser.Context.__init__'], schema=SCHEMA18,
      contracts={TR + 'ActivateTransformator.__call__': lambda e, a, k: activated_rule(e, a),
                 'property:Rule.normalized': lambda e, a, k: e.fresh(OBJ('Rule'), 'normalized'),
                 'property:Rule.as_bnf': lambda e, a, k: e.fresh(OBJ('BNF'), 'bnf'),
                 TR + 'RuleTransformator.__call__': lambda e, a, k: activated_rule(e, a),
                 'property:BNF.start': lambda e, a, k: e.fresh(OBJ('BNFRule'), 'start'),
                 'yargy.tokenizer.MorphTokenizer': lambda e, a, k: e.fresh(OBJ('MorphTokenizer'), 'default tokenizer')})
def parser(e):
    P = e.w.cls('Parser')
    for n, x in things(e).items():
        r, tk, tg = e.fresh(OBJ('Rule'), 'r'), e.fresh(OBJ('Tokenizer'), 'tokenizer'), e.fresh(OBJ('Tagger'), 'tagger')
        x = e.res(x)
        if x is not None and not isinstance(x, ClsV) and e.branch(z3.Not(zb(e.truth(x)))):
            continue        # an empty value may be taken for none given, or refused
        bad = z3.BoolVal(x is not None)
        refused(e, lambda: e.call(P, [r], {'tokenizer': x, 'tagger': tg}), bad, 'tokenizer ' + n)
        refused(e, lambda: e.call(P, [r], {'tokenizer': tk, 'tagger': x}), bad, 'tagger ' + n)
    p = e.call(P, [r], {'tokenizer': tk, 'tagger': tg})
    last = e.ghost['activate'][-1].value
    e.prove(z3.And(zb(e.ident(last[0], r)), zb(e.ident(get(e, last[1], 'tokenizer'), tk)),
                   zb(e.ident(get(e, last[1], 'tagger'), tg))), 'the grammar is activated for tokenizer and tagger')
    e.call(P, [r])
    last = e.ghost['activate'][-1].value
    e.prove(is_cls(e, get(e, last[1], 'tokenizer'), 'MorphTokenizer'), 'for the default tokenizer')
    e.prove(is_cls(e, get(e, last[1], 'tagger'), 'PassTagger'), 'for the default tagger')


def activated_rule(e, a):
    e.ghost_emit('activate', [Item((e.res(a[1]), get(e, a[0], 'context')))])
    return e.fresh(OBJ('Rule'), 'activated')


# --- tokenizers and facts --------------------------------------------------------------

TK = 'yargy.tokenizer.'


def compiled(e, a, k):
    """contract of Tokenizer.compile (C09): the types are those of the rules"""
    rules = e.res(a[1])
    types = e.const('types', IntSort)
    s = e.symlist(types, STR, SetV)
    x = q(e)
    t = z3.Const('t!%d' % e.counter, StrSort)
    some = e.exists_in(e.parts_of(rules), lambda r: e.mkbool(e.term(e.getattr(r, 'type')) == t))
    e.assume(z3.ForAll([t], e.mem(types, STR, t) == zb(some)))
    return (e.fresh(ANY, 'regexp'), e.fresh(ANY, 'mapping'), s)


@unit('C18', 'token rules of a wrong kind, and removing an unknown token type', [
    TK + 'Tokenizer.reset', TK + 'Tokenizer.add_rules', TK + 'Tokenizer.remove_types', TK + 'Tokenizer.check_type',
    TK + 'Tokenizer.__init__', TK + 'MorphTokenizer.__init__'], schema=SCHEMA18, contracts={TK + 'Tokenizer.compile': compiled})
def tokenizer(e):
    items, every = nary(e, 'rules')
    ok = every('TokenRule')
    m = e.fresh(OBJ('MorphAnalyzer'), 'morph')
    refused(e, lambda: e.call(e.w.cls('Tokenizer'), [items]), z3.Not(ok), 'rules of a tokenizer')
    refused(e, lambda: e.call(e.w.cls('MorphTokenizer'), [items], {'morph': m}), z3.Not(ok), 'rules of a tokenizer')
    t = e.fresh(OBJ('Tokenizer'), 'tokenizer')
    refused(e, lambda: e.call(e.getattr(t, 'add_rules'), [StarV(e.parts_of(items))]), z3.Not(ok), 'added rules')


@unit('C18', 'removing an unknown token type', [TK + 'Tokenizer.remove_types', TK + 'Tokenizer.check_type'],
      schema=SCHEMA18, contracts={TK + 'Tokenizer.compile': compiled})
def removing(e):
    t = e.fresh(OBJ('Tokenizer'), 'tokenizer')
    ts = e.fresh(LIST(STR), 'types')
    have = get(e, t, 'types')
    some = e.exists_in(ts.parts, lambda x: e.mkbool(z3.Not(zb(e.contains(have, x)))))
    refused(e, lambda: e.call(e.getattr(t, 'remove_types'), [StarV(e.parts_of(ts))]), zb(some), 'types to remove')


FACT = 'yargy.interpretation.fact.'
ATTR = 'yargy.interpretation.attribute.'


@unit('C18', 'attributes a fact does not declare', [FACT + 'Fact.__init__', FACT + 'fact', FACT + 'prepare_attribute',
                                                    ATTR + 'AttributeScheme.repeatable'], schema=SCHEMA18)
def facts(e):
    v = e.fresh(ANY, 'value')
    attribute = e.w.get('yargy.interpretation.attribute')
    F = e.res(e.call(e.w.get(FACT + 'fact'), ['F', e.new_list([
        Item('x'), Item(e.call(attribute, ['y', v])),
        Item(e.call(e.getattr(e.call(attribute, ['z']), 'repeatable'), []))])]))
    for n in ('x', 'y', 'z', 'a', 'X', 'xy', ''):
        known = n in ('x', 'y', 'z')
        refused(e, lambda: e.call(F, [], {n: v}), not known, 'value of ' + n)
        refused(e, lambda: e.call(F, [], {'x': v, n: v}), not known, 'value of ' + n)
        refused(e, lambda: e.getattr(F, n or 'b'), not known, 'attribute ' + n)
    refused(e, lambda: e.call(F, []), False, 'no values')
    # what every fact has besides its attributes is no attribute
    for n in ('as_json', 'spans', '_raw', '__attributes__', '__init__', '__class__', '__eq__', 'set', 'scheme', 'raw'):
        refused(e, lambda: e.call(F, [], {n: v}), True, 'value of ' + n)


@unit('C18', 'a repeatable attribute with a default', [ATTR + 'AttributeScheme.repeatable',
                                                        ATTR + 'RepeatableAttributeScheme.__init__'], schema=SCHEMA18)
def default(e):
    attribute = e.w.get('yargy.interpretation.attribute')
    for n, x in things(e).items():
        if n in ('record', 'class', 'main', 'rule', 'relation', 'predicate', 'list'):
            continue
        refused(e, lambda: e.call(e.getattr(e.call(attribute, ['a', x]), 'repeatable'), []),
                z3.Not(zb(e.compare(ast.Eq(), x, None))), 'default ' + n)


@unit('C18', 'marks that do not go together', [ATTR + 'InflectedAttribute', ATTR + 'NormalizedAttribute',
                                               ATTR + 'RepeatableAttribute'], schema=SCHEMA18)
def marks(e):
    F = e.res(e.call(e.w.get(FACT + 'fact'), ['F', e.new_list([
        Item('x'), Item(e.call(e.getattr(e.call(e.w.get('yargy.interpretation.attribute'), ['z']), 'repeatable'), []))])]))
    f = e.fresh(T('fn'), 'f')
    v = e.fresh(ANY, 'v')
    a = e.getattr(F, 'x')
    args = {'inflected': [], 'normalized': [], 'const': [v], 'custom': [f]}
    one = lambda x, m: e.call(e.getattr(x, m), args[m])                          # noqa: E731
    for m in args:
        refused(e, lambda: one(a, m), False, m)
        for m2 in args:
            ok = m2 == 'custom' and m != 'const'
            refused(e, lambda: one(one(a, m), m2), not ok, m + '.' + m2)


@unit('C18', 'lines of a wrong kind', ['yargy.pipelines.PipelineScheme.__init__'], schema=SCHEMA18)
def lines(e):
    good_ = e.fresh(LIST(STR), 'lines')
    for p in ('pipeline', 'caseless_pipeline', 'morph_pipeline'):
        for n, x in things(e).items():
            l = e.new_list(list(good_.parts) + [Item(x)])
            refused(e, lambda: e.call(e.w.get('yargy.pipelines.' + p), [l]), n != 'string', 'line ' + n)
        items, every = nary(e, 'lines')
        refused(e, lambda: e.call(e.w.get('yargy.pipelines.' + p), [items]), e.length(items.parts) > 0, 'records as lines')


share('C18', 'C17', 'known')


# --- forward references ------------------------------------------------------------------

def undefined(e, x):
    """z3: a rule is a chain of forward references that ends with one never defined"""
    return z3.And(is_cls(e, x, 'ForwardRule'), e.uf('undefined_chain', IntSort, BoolSort)(x.ref))


def definition(e, f):
    """what undefined means for this rule: the end of the chain, one step at a time"""
    if not e.branch(is_cls(e, f, 'ForwardRule')):
        return
    r = get(e, f, 'rule')
    e.assume(undefined(e, f) == (z3.BoolVal(True) if r is None else undefined(e, r)))


class Chain(object):
    """invariant of the loop: the chain from here ends as the whole chain does"""

    def havoc(self, e, name, entry):
        if not isinstance(entry, ObjV):
            return e.havoc(entry) if hasattr(e, 'havoc') else entry
        x = e.fresh(OBJ('Rule'), name)
        e.assume(undefined(e, x) == undefined(e, entry))
        definition(e, x)
        return x

    def check(self, e, name, entry, value):
        if isinstance(entry, ObjV):
            e.prove(undefined(e, value) == undefined(e, entry), 'the chain from here ends as the whole chain does')


BNF = 'yargy.rule.bnf.'
chain = Chain()


@unit('C18', 'a forward never defined', [BNF + 'RemoveForwardTransformator.visit_ForwardRule'], schema=SCHEMA18,
      loops=[WhileInv(BNF + 'RemoveForwardTransformator.visit_ForwardRule', chain.havoc, chain.check)])
def never_defined(e):
    t = e.res(e.call(e.w.get(BNF + 'RemoveForwardTransformator'), []))
    f = e.fresh(OBJ('ForwardRule'), 'forward')
    r = refused(e, lambda: e.call(e.getattr(t, 'visit_ForwardRule'), [f]), undefined(e, f), 'a forward of the grammar')
    if r is not None:
        e.prove(z3.Not(is_cls(e, r, 'ForwardRule')), 'what remains is not a forward')
