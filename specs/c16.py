"""C16: value objects compare, hash and iterate by class and declared fields."""
from .lib import *

FIELDS = {
    'token.Token': 'value span type', 'token.MorphToken': 'value span type forms',
    'token.TagToken': 'value span type tag', 'token.MorphTagToken': 'value span type tag forms',
    'tree.constructors.Tree': 'root range', 'tree.constructors.Node': 'rule production rank children',
    'tree.constructors.Leaf': 'predicate token', 'tokenizer.TokenRule': 'type pattern',
    'predicates.bank.normalized': 'value', 'predicates.bank.dictionary': 'value', 'predicates.bank.gram': 'value',
    'predicates.bank.type': 'value', 'predicates.bank.tag': 'value', 'predicates.bank.custom': 'function types',
    'predicates.constructors.AndPredicate': 'predicates', 'predicates.constructors.OrPredicate': 'predicates',
    'predicates.constructors.NotPredicate': 'predicate',
    'predicates.bank.eq': 'value', 'predicates.bank.length_eq': 'value', 'predicates.bank.gte': 'value',
    'predicates.bank.lte': 'value', 'predicates.bank.caseless': 'value', 'predicates.bank.in_': 'value',
    'predicates.bank.in_caseless': 'value', 'predicates.bank.DictionaryPredicate': 'value',
    'predicates.bank.GramPredicate': 'value', 'predicates.bank.TypePredicate': 'value',
    'predicates.bank.TagPredicate': 'value', 'predicates.bank.CustomPredicate': 'function types',
    'predicates.bank.true': '', 'predicates.bank.is_lower': '', 'predicates.bank.is_upper': '',
    'predicates.bank.is_title': '', 'predicates.bank.is_capitalized': '', 'predicates.bank.is_single': '',
    'relations.constructors.Main': 'term', 'relations.constructors.AndRelation': 'relations',
    'relations.constructors.OrRelation': 'relations', 'relations.constructors.NotRelation': 'relation',
    'relations.bank.gender_relation': '', 'relations.bank.gnc_relation': '',
    'relations.bank.number_relation': '', 'relations.bank.case_relation': '',
    'rule.constructors.Production': 'terms main', 'rule.constructors.EmptyProduction': 'terms main',
    'pipelines.PipelineProduction': 'value terms', 'rule.constructors.Rule': 'productions',
    'rule.constructors.OrRule': 'rules', 'rule.constructors.OptionalRule': 'rule reverse',
    'rule.constructors.RepeatableRule': 'rule reverse',
    'rule.constructors.RepeatableOptionalRule': 'rule reverse_repeatable reverse_optional',
    'rule.constructors.MinBoundedRule': 'rule min reverse', 'rule.constructors.MaxBoundedRule': 'rule max reverse',
    'rule.constructors.MinMaxBoundedRule': 'rule min max reverse', 'rule.constructors.NamedRule': 'rule name',
    'rule.constructors.InterpretationRule': 'rule interpretator',
    'rule.constructors.RelationRule': 'rule relation', 'rule.constructors.EmptyRule': '',
    'rule.constructors.PipelineRule': 'pipeline',
    'rule.bnf.BNFRule': 'productions name interpretator relation',
    'pipelines.PipelineBNFRule': 'productions name interpretator relation',
    'pipelines.CaselessPipelineBNFRule': 'productions name interpretator relation',
    'pipelines.MorphPipelineBNFRule': 'productions name interpretator relation',
    'rule.bnf.BNF': 'rules', 'parser.Match': 'tokens span',
    'interpretation.normalizer.NormalizedNormalizer': '', 'interpretation.normalizer.InflectedNormalizer': 'grams',
    'interpretation.normalizer.MorphFunctionNormalizer': 'morph function',
    'interpretation.normalizer.ConstNormalizer': 'value', 'interpretation.normalizer.FunctionNormalizer': 'function',
    'interpretation.normalizer.FunctionFunctionNormalizer': 'first second',
    'interpretation.attribute.AttributeScheme': 'name default',
    'interpretation.attribute.RepeatableAttributeScheme': 'name',
    'interpretation.attribute.Attribute': 'fact name default',
    'interpretation.attribute.RepeatableAttribute': 'fact name',
    'interpretation.attribute.InflectedAttribute': 'attribute grams',
    'interpretation.attribute.NormalizedAttribute': 'attribute',
    'interpretation.attribute.InflectedFunctionAttribute': 'attribute grams function',
    'interpretation.attribute.NormalizedFunctionAttribute': 'attribute function',
    'interpretation.attribute.ConstAttribute': 'attribute value',
    'interpretation.attribute.FunctionAttribute': 'attribute function',
    'interpretation.attribute.FunctionFunctionAttribute': 'attribute first second',
    'interpretation.interpretator.Chain': 'tokens key', 'interpretation.interpretator.FactResult': 'fact',
    'interpretation.interpretator.AttributeResult': 'value attribute',
    'interpretation.interpretator.NormalizerResult': 'value input',
    'interpretation.interpretator.FactInterpretator': 'fact',
    'interpretation.interpretator.AttributeInterpretator': 'attribute',
    'interpretation.interpretator.AttributeNormalizerInterpretator': 'attribute normalizer',
    'interpretation.interpretator.NormalizerInterpretator': 'normalizer',
    'morph.Gender': 'male female neutral bi general', 'morph.Number': 'single plural only_single only_plural',
    'morph.Case': 'mask fixed', 'morph.Grams': 'values', 'morph.Form': 'normalized grams',
    'pipelines.Key': 'value terms', 'pipelines.Pipeline': 'keys', 'pipelines.CaselessPipeline': 'keys',
    'pipelines.MorphPipeline': 'keys', 'pipelines.PipelineScheme': 'lines',
    'pipelines.CaselessPipelineScheme': 'lines', 'pipelines.MorphPipelineScheme': 'lines',
    'relations.graph.Edge': 'relation first second',
}
SPAN = ['start', 'stop']
VALUES = {}
for qual, names in FIELDS.items():
    for n in names.split():
        VALUES[(qual.split('.')[-1], n)] = ANY
for n in set(' '.join(FIELDS.values()).split()):
    VALUES[('Record', n)] = ANY
# fields that the other classes of the hierarchy may have
for n in 'rule reverse'.split():
    VALUES[('ForwardRule', n)] = ANY
OPS = ['yargy.record.Record.__eq__', 'yargy.record.Record.__ne__', 'yargy.record.Record.__hash__',
       'yargy.record.Record.__iter__']


def exactly(e, cls, name):
    o = e.fresh(OBJ('Record'), name)
    o.cls, o.cands = cls, None
    e.type_facts(o)
    return o


def fld(e, cls, o, n):
    """value of a declared field; EmptyProduction and the like fix some of them in the class"""
    return get(e, o, n)


def order(e, op, a, b):
    return zb(e.compare(op, a, b))


def value_class(qual, names):
    @unit('C16', qual, ['yargy.' + qual] + OPS, schema=VALUES)
    def u(e):
        import ast
        cls = e.w.get('yargy.' + qual)
        a, b = exactly(e, cls, 'a'), exactly(e, cls, 'b')
        va, vb = [fld(e, cls, a, n) for n in names], [fld(e, cls, b, n) for n in names]
        same = conj([zb(e.eq(x, y)) for x, y in zip(va, vb)])
        eq, ne = order(e, ast.Eq(), a, b), order(e, ast.NotEq(), a, b)
        e.prove(eq == zb(same), 'equal exactly when the fields %s are' % ', '.join(names))
        e.prove(ne == z3.Not(eq), 'inequality is the negation of equality')
        # iteration
        it = e.concrete(e.parts_of(e.res(e.call(e.w.builtins['list'], [a]))))
        e.prove(it is not None and len(it) == len(names), 'iteration gives the declared fields: number')
        for n, x, y in zip(names, it, va):
            e.prove(zb(e.ident(x, y)), 'iteration gives the declared fields in order: ' + n)
        # hashing (fields hashable: the hash of an arbitrary field value is a function of the value)
        h1, h2 = e.call(e.w.builtins['hash'], [a]), e.call(e.w.builtins['hash'], [b])
        e.prove(z3.Implies(eq, zb(e.eq(h1, h2))), 'equal objects hash equally')
        frame(e)

    @unit('C16', qual + ' against other classes', ['yargy.' + qual] + OPS, schema=VALUES)
    def v(e):
        import ast
        cls = e.w.get('yargy.' + qual)
        a = exactly(e, cls, 'a')
        others = [e.fresh(T, 'x') for T in (STR, INT, BOOL)] + [None, (e.fresh(ANY, 'f'), e.fresh(ANY, 'g')),
                                                                e.fresh(LIST(ANY), 'l')]
        for x in others:
            e.prove(z3.Not(order(e, ast.Eq(), a, x)), 'not equal to a value of another class')
            e.prove(order(e, ast.NotEq(), a, x), 'unequal to a value of another class')
        b = e.fresh(OBJ('Record'), 'b')
        b.cands = tuple(c for c in b.cands if c is not cls and not c.subclass_of(e.w.cls('Span')))
        e.add(z3.Or(*[e.cls_tag(b.ref) == c.id for c in b.cands]), 't')
        e.prove(z3.Not(order(e, ast.Eq(), a, b)), 'not equal to an object of another class')
        e.prove(order(e, ast.NotEq(), a, b), 'unequal to an object of another class')
        c = e.fresh(OBJ('Span'), 'c')
        e.prove(z3.Not(order(e, ast.Eq(), a, c)), 'not equal to a span')
        e.prove(z3.Not(order(e, ast.Eq(), c, a)), 'a span is not equal to it')


for qual, names in FIELDS.items():
    value_class(qual, names.split())

ISPAN = {('Span', 'start'): INT, ('Span', 'stop'): INT}
SOPS = ['yargy.span.Span.__eq__', 'yargy.span.Span.__lt__'] + OPS


@unit('C16', 'Span', SOPS, schema=ISPAN)
def span(e):
    import ast
    cls = e.w.get('yargy.span.Span')
    a, b = exactly(e, cls, 'a'), exactly(e, cls, 'b')
    s, t = [e.term(get(e, a, n)) for n in SPAN], [e.term(get(e, b, n)) for n in SPAN]
    eq, ne = order(e, ast.Eq(), a, b), order(e, ast.NotEq(), a, b)
    e.prove(eq == z3.And(s[0] == t[0], s[1] == t[1]), 'spans are equal exactly when their bounds are')
    e.prove(ne == z3.Not(eq), 'inequality is the negation of equality')
    h1, h2 = e.call(e.w.builtins['hash'], [a]), e.call(e.w.builtins['hash'], [b])
    e.prove(z3.Implies(eq, zb(e.eq(h1, h2))), 'equal spans hash equally')
    it = e.concrete(e.parts_of(e.res(e.call(e.w.builtins['list'], [a]))))
    e.prove(it is not None and len(it) == 2, 'iteration gives start and stop')
    for x, y in zip(it, s):
        e.prove(e.term(x) == y, 'iteration gives start and stop in order')
    x, y = e.fresh(INT, 'x'), e.fresh(INT, 'y')
    e.prove(order(e, ast.Eq(), a, (x, y)) == z3.And(s[0] == x.e, s[1] == y.e), 'equal to the pair of its bounds')
    e.prove(order(e, ast.NotEq(), a, (x, y)) == z3.Not(z3.And(s[0] == x.e, s[1] == y.e)), 'unequal to other pairs')
    e.prove(z3.Not(order(e, ast.Eq(), a, (x,))), 'not equal to a tuple of another length')
    e.prove(z3.Not(order(e, ast.Eq(), a, (x, y, x))), 'not equal to a tuple of another length')
    e.prove(order(e, ast.Lt(), a, b) == z3.Or(s[0] < t[0], z3.And(s[0] == t[0], s[1] < t[1])),
            'ordered by start, then stop')
    for o in (None, e.fresh(INT, 'i'), e.fresh(STR, 's'), e.fresh(LIST(INT), 'l')):
        e.prove(z3.Not(order(e, ast.Eq(), a, o)), 'not equal to a value of another class')
    frame(e)


@unit('C16', 'sorting spans', SOPS, schema=ISPAN)
def sorting(e):
    """the order the sorted() of Parser.prepare_resolved_matches relies on is total"""
    import ast
    cls = e.w.get('yargy.span.Span')
    a, b, c = (exactly(e, cls, n) for n in 'abc')
    lt = lambda x, y: order(e, ast.Lt(), x, y)                      # noqa: E731
    e.prove(z3.Not(lt(a, a)), 'irreflexive')
    e.prove(z3.Implies(z3.And(lt(a, b), lt(b, c)), lt(a, c)), 'transitive')
    e.prove(z3.Or(lt(a, b), lt(b, a), order(e, ast.Eq(), a, b)), 'total')


@unit('C16', 'forward references', ['yargy.rule.constructors.ForwardRule.__eq__',
                                    'yargy.rule.constructors.ForwardRule.__hash__', OPS[1]], schema=VALUES)
def forward(e):
    import ast
    cls = e.w.get('yargy.rule.constructors.ForwardRule')
    a, b = exactly(e, cls, 'a'), exactly(e, cls, 'b')
    eq, ne = order(e, ast.Eq(), a, b), order(e, ast.NotEq(), a, b)
    e.prove(eq == (a.ref == b.ref), 'forward references are equal only to themselves')
    e.prove(ne == z3.Not(eq), 'inequality is the negation of equality')
    h1, h2 = e.call(e.w.builtins['hash'], [a]), e.call(e.w.builtins['hash'], [b])
    e.prove(z3.Implies(eq, zb(e.eq(h1, h2))), 'equal forward references hash equally')
    frame(e)


@unit('C16', 'facts', ['yargy.interpretation.fact.fact', 'yargy.interpretation.fact.Fact.__init__'] + OPS,
      schema=VALUES)
def facts(e):
    """two facts of one kind with two declared attributes; the value classes of C16 in general by their field list"""
    import ast
    F = e.call(e.w.get('yargy.interpretation.fact.fact'), ['F', e.new_list([Item('x'), Item('y')])])
    G = e.call(e.w.get('yargy.interpretation.fact.fact'), ['F', e.new_list([Item('x'), Item('y')])])
    v = [e.fresh(ANY, 'v') for _ in range(4)]
    a, b = (e.call(F, [], {'x': v[i], 'y': v[i + 1]}) for i in (0, 2))
    g = e.call(G, [], {'x': v[0], 'y': v[1]})
    eq, ne = order(e, ast.Eq(), a, b), order(e, ast.NotEq(), a, b)
    e.prove(eq == z3.And(v[0].e == v[2].e, v[1].e == v[3].e), 'facts are equal exactly when their attributes are')
    e.prove(ne == z3.Not(eq), 'inequality is the negation of equality')
    e.prove(z3.Not(order(e, ast.Eq(), a, g)), 'facts of different kinds are not equal')
    it = e.concrete(e.parts_of(e.res(e.call(e.w.builtins['list'], [a]))))
    e.prove(it is not None and len(it) == 2, 'iteration gives the attributes')
    for x, y in zip(it, v):
        e.prove(zb(e.ident(x, y)), 'iteration gives the attributes in declaration order')
    h1, h2 = e.call(e.w.builtins['hash'], [a]), e.call(e.w.builtins['hash'], [b])
    e.prove(z3.Implies(eq, zb(e.eq(h1, h2))), 'equal facts hash equally')
