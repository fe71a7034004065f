"""C14: parsers are reusable and do not interfere.

A frame argument.  Every function that a parser runs is under a frame: it changes nothing that existed before the call,
apart from the chart of this call.  Compilation makes new rules: own(x) holds of rules and productions made by the
transformation in progress; every transformator is shown to give, for parts it has visited (contract of visit: own, or a
part that is never written), an object whose parts are again own, and everything that is written in place (marks, names,
references that are resolved) is own.  The trees of a match are rebuilt before the agreeing forms are put in."""
from .lib import *
from . import c02, c05, c06, c13, c15, c18
from .c05 import RC, TR, BNF, SCHEMA5, FIELDS, TRANSFORMATORS, EXTENDED, MARKS

VIS = 'yargy.visitor.'
Y = 'yargy.parser.'
MADE = ['visited_rule', 'visited_production', 'flattened', 'bounded_above']
# never written, so they may be kept as they are
KEPT = ['Predicate', 'EmptyRule', 'EmptyProduction', 'PipelineProduction', 'PipelineRule', 'Pipeline']


def own(e, ref):
    """z3: the object is made by the transformation in progress"""
    if not getattr(e, 'own_axioms', False):
        e.own_axioms = True
        x = q(e)
        o = e.uf('own', IntSort, BoolSort)
        for n in MADE:
            f = e.uf(n, IntSort, IntSort)
            e.axioms.append(z3.ForAll([x], o(f(x)), patterns=[f(x)]))
    return e.uf('own', IntSort, BoolSort)(ref)


def visited(result='Rule'):
    """contract of visit: an object made by the transformation"""
    f = c05.visited(result)

    def g(e, a, k):
        own(e, z3.IntVal(0))
        r = f(e, a, k)
        if e.res(a[1]).fresh:
            e.assume(own(e, r.ref))
        return r
    return g


def limited(e, a, k):
    """contract of max_bound: of a part made by the transformation, a rule made by it"""
    x = e.res(a[0])
    made(e, x, 'the repeated part')
    r = e.mk(OBJ('Rule'), e.uf('bounded_above', IntSort, IntSort)(x.ref), facts=False)
    own(e, r.ref)
    return r


CONTRACTS = merged(c05.TERMS, {RC + 'prepare_terms': c05.prepared, TR + 'max_bound': limited})
VISIT = merged(CONTRACTS, {TR + 'RuleTransformator.visit': visited()})
VISIT_BNF = merged(CONTRACTS, {TR + 'RuleTransformator.visit': visited('BNFRule'),
                               BNF + 'BNFTransformator.is_shared': c05.shared})


def made(e, v, label, seen=None):
    """v and everything reachable from it is made by the transformation, or is never written"""
    seen = seen if seen is not None else []
    v = e.res(v)
    if isinstance(v, (tuple, list)):
        for x in v:
            made(e, x, label, seen)
    elif isinstance(v, ListV):
        parts_made(e, v.parts, label, seen)
    elif isinstance(v, DictV):
        raise Unsupported('a rule that holds a dictionary')
    elif isinstance(v, ObjV):
        if any(x is v for x in seen):
            return
        seen.append(v)
        if v.fresh:
            for x in list(v.fields.values()):
                made(e, x, label, seen)
            return
        cs = v.cands if v.cls is None else [v.cls]
        if all(any(m.name in ('Interpretator', 'Relation', 'Context', 'Pipeline') for m in c.mro) for c in cs):
            return
        e.prove(z3.Or(own(e, v.ref), *[is_cls(e, v, n) for n in KEPT]), label)


def parts_made(e, parts, label, seen):
    for p in flat(e, parts):
        if isinstance(p, For):
            k = e.index()
            inner = e.inst_parts(p.parts, p.k, k)
            with e.loopctx(k, p.n):
                e.run_paths(lambda: parts_made(e, inner, label, list(seen)))
        elif isinstance(p, Blob):
            raise Unsupported('parts')
        else:
            made(e, p, label, seen)


def item_of(e, cls):
    item = c05.sample(e, cls)
    c05.bounded(e, item, cls)
    if cls in FIELDS and cls not in ('Rule', 'OrRule'):
        x = get(e, item, 'rule')
        # made by one of the steps only, never a part of what is given to it
        e.assume(z3.Not(is_cls(e, x, 'RepeatableOptionalRule')))
    return item


def classes_of(t):
    if t == 'BNFTransformator':
        return ['Rule', 'ForwardRule', 'Production'] + list(MARKS)
    return list(FIELDS) + ['ForwardRule', 'Production', 'EmptyRule', 'EmptyProduction']


class NoMatter(object):
    """any rule; that what a loop looks into is not written is checked with the frame"""

    def havoc(self, e, name, entry):
        if not isinstance(entry, ObjV):
            raise Unsupported('loop variable ' + name)
        x = e.fresh(OBJ('Rule'), name)
        e.assume(z3.Not(is_cls(e, x, 'RepeatableOptionalRule')))
        return x

    def check(self, e, name, entry, value):
        pass


any_rule = NoMatter()
LOOPS = [WhileInv(TR + 'SquashExtendedTransformator.visit_MinMaxBoundedRule', any_rule.havoc, any_rule.check),
         WhileInv(TR + 'is_nullable', any_rule.havoc, any_rule.check)]


def writes_own(e, mark, label):
    """only what the transformation made is written since the mark"""
    for op in e.logs[mark:]:
        if op.kind == 'field' and isinstance(op.target, ObjV) and not op.target.fresh:
            e.prove(own(e, op.target.ref), label)
        if op.kind == 'pointwise':
            raise Unsupported('writing in a loop')
        if op.kind in ('append', 'extend', 'set', 'pop', 'reorder', 'insert', 'add', 'update') and \
                isinstance(op.target, ListV) and op.target.ref is not None:
            e.prove(False, label + ': a list is changed in place')


def new_rules(t, classes):
    @unit('C14', '%s makes new rules of what it has visited, and changes nothing else: %s' % (t, ', '.join(classes)),
          [c05.module(t)] + [TR + 'RuleTransformator.visit_' + c for c in classes], schema=SCHEMA5,
          contracts=VISIT_BNF if t == 'BNFTransformator' else VISIT, loops=LOOPS, budget=150)
    def u(e):
        for cls in classes:
            def thunk():
                tr, item = c05.make(e, t), item_of(e, cls)
                mark = len(e.logs)
                r = c05.transform(e, tr, item)
                made(e, r, '%s: made by the transformation' % cls)
                if t == 'BNFTransformator':
                    writes_own(e, mark, cls + ': only what the transformation made is changed')
                else:
                    frame(e)
            e.run_paths(thunk)


for t_ in TRANSFORMATORS:
    cs = classes_of(t_)
    ext = [c for c in cs if c in EXTENDED]
    if t_ == 'SquashExtendedTransformator':
        new_rules(t_, [c for c in cs if c not in EXTENDED])
        for c_ in ext:
            new_rules(t_, [c_])
    elif t_ == 'ReplaceExtendedTransformator':
        new_rules(t_, [c for c in cs if c not in EXTENDED])
        new_rules(t_, ext)
    else:
        new_rules(t_, cs)


@unit('C14', 'a plain rule of one part is replaced by what is made of that part', [TR + 'FlattenTransformator.visit_term'],
      schema=SCHEMA5, contracts=VISIT)
def flatten_term(e):
    tr = c05.make(e, 'FlattenTransformator')
    x = e.fresh(OBJ('Predicate', 'Rule'), 'term')
    own(e, z3.IntVal(0))
    made(e, e.body_call(e.getattr(tr, 'visit_term'), [x]), 'made by the transformation')
    frame(e)


@unit('C14', 'a limited repetition is made of new rules', [TR + 'max_bound'], schema=SCHEMA5, contracts=CONTRACTS)
def limit(e):
    x, n, rev = e.fresh(OBJ('Rule'), 'part'), e.fresh(INT, 'count'), e.fresh(BOOL, 'reverse')
    e.assume(z3.And(own(e, x.ref), n.e >= 1))
    made(e, e.body_call(e.w.get(TR + 'max_bound'), [x, n, rev]), 'made by the transformation')
    frame(e)


# --- what is written in place ------------------------------------------------------------------------

@unit('C14', 'references are resolved in rules of the transformation only', [
    TR + 'InplaceRuleTransformator.visit_Production', TR + 'InplaceRuleTransformator.visit_EmptyProduction',
    TR + 'InplaceRuleTransformator.visit_PipelineProduction', BNF + 'RemoveForwardTransformator.visit_BNFRule',
    BNF + 'RemoveForwardTransformator.visit_PipelineBNFRule', BNF + 'RemoveForwardTransformator.visit_ForwardRule'],
    schema=SCHEMA5, contracts={'yargy.visitor.Visitor.visit': c05.defined})
def resolved(e):
    for cls in (RC + 'EmptyProduction', 'yargy.pipelines.PipelineProduction', RC + 'ForwardRule',
                'yargy.pipelines.PipelineBNFRule'):
        def thunk():
            tr = e.res(e.call(e.w.get(BNF + 'RemoveForwardTransformator'), []))
            o = c05.exactly(e, e.fresh(OBJ(cls), 'item'), cls)
            if cls.endswith('ForwardRule'):
                c = get(e, o, 'rule')
                if c is None:
                    return
                e.assume(z3.Not(is_cls(e, c, 'ForwardRule')))
            c05.transform(e, tr, o)
            frame(e, cls.rsplit('.', 1)[1] + ' is not changed')
        e.run_paths(thunk)
    for cls in (RC + 'Production', BNF + 'BNFRule'):
        def thunk():
            tr = e.res(e.call(e.w.get(BNF + 'RemoveForwardTransformator'), []))
            o = c05.exactly(e, e.fresh(OBJ(cls), 'item'), cls)
            c05.transform(e, tr, o)
            frame(e, 'only the item itself is changed', allow=[o])
        e.run_paths(thunk)


def gazetteer(kind):
    cls, rule, pred, t = c13.KINDS[kind]

    @unit('C14', 'a gazetteer is compiled to new rules each time: ' + kind, [
        'yargy.pipelines.Pipeline.as_bnf', 'yargy.pipelines.Pipeline.productions', 'yargy.pipelines.PipelineBNFRule.__init__'],
        schema=merged(c13.schema(kind), {('Pipeline', 'keys'): LIST(OBJ('Key'))}),
        contracts={'yargy.pipelines.' + c + '.build_index': lambda e, a, k: e.new_dict() for c in (
            'PipelineBNFRule', 'MorphPipelineBNFRule')})
    def u(e):
        e.allow('str_lower')
        p = c05.exactly(e, e.fresh(OBJ('yargy.pipelines.' + cls), 'pipeline'), 'yargy.pipelines.' + cls)
        a, b = e.res(e.getattr(p, 'as_bnf')), e.res(e.getattr(p, 'as_bnf'))
        e.prove(isinstance(a, ObjV) and a.fresh and isinstance(b, ObjV) and b.fresh, 'a new rule')
        e.prove(a is not b, 'another one each time')
        frame(e)


for k_ in c13.KINDS:
    gazetteer(k_)


# --- each compilation starts anew -----------------------------------------------------------------------

def started(e, a, k):
    o = e.res(a[0])
    e.prove(o.fresh and id(o) not in e.w.shared, 'a transformator of its own')
    for f in ('visited', 'parents'):
        try:
            d = e.res(e.getattr(o, f))
        except PyRaise:
            d = None
        if d is not None:
            if not isinstance(d, DictV):
                raise Unsupported('memo')
            e.prove(id(d) not in e.w.shared and not d.parts and not d.groups and d.base is None, 'that has visited nothing yet')
            for x in e.started:
                e.prove(d is not x, 'with a memo of its own')
            e.started.append(d)
    bnf = e.w.get(BNF + 'BNFTransformator') in o.cls.mro or e.w.get(BNF + 'RemoveForwardTransformator') in o.cls.mro
    cls = BNF + 'BNFRule' if bnf else RC + 'Rule'
    return c05.exactly(e, e.fresh(OBJ(cls), 'transformed'), cls)


START = {TR + 'RuleTransformator.__call__': started, BNF + 'BNFTransformator.__call__': started,
         TR + 'InplaceRuleTransformator.__call__': started}


@unit('C14', 'each compilation uses transformators of its own', [
    RC + 'Rule.activate', RC + 'Rule.normalized', RC + 'Rule.as_bnf', RC + 'Rule.transform',
    VIS + 'TransformatorsComposition.__call__', VIS + 'TransformatorsComposition.__init__', TR + 'RuleTransformator.__init__',
    TR + 'ActivateTransformator.__init__', BNF + 'BNFTransformator.__init__'], schema=SCHEMA5,
    contracts=merged(START, {'property:BNFRule.as_bnf': lambda e, a, k: 'grammar'}))
def anew(e):
    e.started = []
    x, ctx = c05.sample(e, 'Rule'), e.fresh(OBJ('Context'), 'context')
    for _ in range(2):
        e.call(e.getattr(x, 'activate'), [ctx])
        e.getattr(x, 'normalized')
        e.getattr(x, 'as_bnf')
    e.prove(len(e.started) >= 2, 'transformators are used')
    frame(e)


def a_rule(name):
    def f(e, a, k):
        return e.mk(OBJ('Rule'), e.uf(name, *([IntSort] * len(a)), IntSort)(*[e.res(x).ref for x in a]), facts=False)
    return f


def a_context(e, a, k):
    """contract of Rule.activate: depends on the rule, the tokenizer and the tagger"""
    c = e.res(a[1])
    return a_rule('activated_rule')(e, [a[0], get(e, c, 'tokenizer'), get(e, c, 'tagger')], k)


@unit('C14', 'what a parser is depends on its rule, tokenizer and tagger only', [Y + 'Parser.__init__', Y + 'Context.__init__'],
      schema=c18.SCHEMA18, contracts={
          'dispatch:Rule.activate': a_context, 'property:Rule.normalized': a_rule('normalized_rule'),
          'property:Rule.as_bnf': lambda e, a, k: e.mk(OBJ('BNF'), e.uf('grammar', IntSort, IntSort)(e.res(a[0]).ref),
                                                       facts=False),
          'property:BNF.start': lambda e, a, k: e.mk(OBJ('BNFRule'), e.uf('start_rule', IntSort, IntSort)(e.res(a[0]).ref),
                                                     facts=False)})
def parser(e):
    r, tk, tg = e.fresh(OBJ('Rule'), 'rule'), e.fresh(OBJ('Tokenizer'), 'tokenizer'), e.fresh(OBJ('Tagger'), 'tagger')
    P = e.w.cls('Parser')
    # what else was compiled before makes no difference
    other, tk2, tg2 = e.fresh(OBJ('Rule'), 'other'), e.fresh(OBJ('Tokenizer'), 'tokenizer'), e.fresh(OBJ('Tagger'), 'tagger')
    for x in (tk, tk2, tg, tg2):
        e.assume(zb(e.truth(x)))
    got = []
    for i in range(3):
        p = e.res(e.call(P, [r, tk, tg] if i != 1 else [other, tk2, tg2]))
        e.prove(isinstance(p, ObjV) and p.fresh, 'a new parser')
        if i != 1:
            got.append(p)
    ctx = e.res(e.call(e.w.get(Y + 'Context'), [tk, tg]))
    g = a_rule('normalized_rule')(e, [a_context(e, [r, ctx], {})], {})
    want = e.uf('start_rule', IntSort, IntSort)(e.uf('grammar', IntSort, IntSort)(g.ref))
    for p in got:
        e.prove(get(e, p, 'rule').ref == want, 'its grammar')
        e.prove(same_obj(e, get(e, p, 'tokenizer'), tk), 'its tokenizer')
        e.prove(same_obj(e, get(e, p, 'tagger'), tg), 'its tagger')
        e.prove(len(p.fields) == 3, 'and nothing else')
    frame(e)


# --- predicates -------------------------------------------------------------------------------------------

def each_predicate(e):
    """every class of predicates, with arguments of the kinds its documentation gives"""
    B, C = c06.BANK, c06.CONS
    s = lambda n='value': e.fresh(STR, n)          # noqa: E731
    ps = lambda: e.fresh(LIST(OBJ('Predicate')), 'predicates')      # noqa: E731
    args = {'true': [], 'is_lower': [], 'is_upper': [], 'is_title': [], 'is_capitalized': [], 'is_single': [],
            'eq': [s()], 'length_eq': [e.fresh(INT, 'n')], 'gte': [e.fresh(INT, 'n')], 'lte': [e.fresh(INT, 'n')],
            'caseless': [s()], 'in_': [e.fresh(LIST(STR), 'values')], 'in_caseless': [e.fresh(LIST(STR), 'values')],
            'normalized': [s()], 'dictionary': [e.fresh(SET(STR), 'values')], 'gram': [s()], 'type': [s()], 'tag': [s()],
            'DictionaryPredicate': [e.fresh(SET(STR), 'values')], 'GramPredicate': [s()], 'TypePredicate': [s()],
            'TagPredicate': [s()], 'custom': [e.fresh(T('fn'), 'f'), s('type')],
            'CustomPredicate': [e.fresh(T('fn'), 'f'), e.fresh(LIST(STR), 'types')]}
    for n, a in args.items():
        yield n, e.w.get(B + n), a
    for n in ('AndPredicate', 'OrPredicate'):
        yield n, e.w.get(C + n), [ps()]
    yield 'NotPredicate', e.w.get(C + 'NotPredicate'), [e.fresh(OBJ('Predicate'), 'predicate')]


ABSTRACT = ['Predicate', 'PredicateScheme', 'PredicatesComposition', 'ParameterPredicate', 'ParameterPredicateScheme']


@unit('C14', 'predicates are not changed by being activated', [c06.CONS + 'Predicate.activate', c06.BANK + 'normalized.activate',
                                                           c06.BANK + 'dictionary.activate', c06.BANK + 'custom.activate'],
      schema=c06.SCHEMA6, contracts=merged(c06.CONTRACTS, {'dispatch:Predicate.activate': c05.activated}), budget=120)
def activation(e):
    names = []
    for n, cls, args in each_predicate(e):
        names.append(n)

        def thunk():
            p = e.res(e.call(cls, args))
            mark, before = len(e.logs), dict(p.fields)
            e.call(e.getattr(p, 'activate'), [e.fresh(OBJ('Context'), 'context')])
            frame(e, n + ': nothing is changed')
            for op in e.logs[mark:]:
                e.prove(not (op.kind == 'field' and op.target is p), n + ': it is not changed itself')
                if op.kind in ('append', 'extend', 'set', 'pop', 'reorder', 'insert', 'add', 'update', 'dset', 'gappend'):
                    e.prove(not any(op.target is x for x in before.values()), n + ': its parameters are not changed')
        e.run_paths(thunk)
    known = set(names) | set(ABSTRACT)
    more = [c.name for c in e.w.classes if any(m.name == 'Predicate' for m in c.mro) and c.name not in known]
    if more:
        raise Unsupported('predicates %s' % more)


# --- each parse has a chart of its own ------------------------------------------------------------------------

@unit('C14', 'each parse has a chart of its own', [Y + 'Chart.__init__', Y + 'Column.__init__'], schema=c02.SCHEMA2)
def charts(e):
    tokens = e.fresh(LIST(OBJ('Token')), 'tokens')
    n = e.length(tokens.parts)
    e.assume(n >= 2)
    lists, seen = [], []
    for _ in range(2):
        c = e.res(e.call(e.w.get(Y + 'Chart'), [tokens]))
        cols = get(e, c, 'columns')
        e.prove(c.fresh and cols is not tokens, 'a list of columns of its own')
        lists.append(cols)
    a, b = lists
    e.prove(a is not b, 'a list of columns of its own')
    i, j = e.const('i', IntSort), e.const('j', IntSort)
    e.assume(z3.And(i >= 0, i < j, j < n))
    for col in [e.at(a.parts, z3.IntVal(0)), e.at(a.parts, i + 1), e.at(a.parts, j + 1), e.at(b.parts, i + 1)]:
        col = e.res(col)
        e.prove(isinstance(col, ObjV) and col.fresh, 'a new column')
        for f in ('states', 'hashes', 'states_index', 'empty_index'):
            v = get(e, col, f)
            e.prove(id(v) not in e.w.shared and getattr(v, 'ref', None) is not tokens.ref, 'a %s of its own' % f)
            e.prove(all(v is not x for x in seen), f + ' is not shared')
            seen.append(v)
    frame(e)


# --- the tree of a match is its own -------------------------------------------------------------------------

@unit('C14', 'a tree is rebuilt with leaves and nodes of its own', [
    c15.TT + 'TreeTransformator.visit_Leaf', c15.TT + 'PropogateEmptyTransformator.visit_Node', c15.TT + 'TreeTransformator.__call__',
    c15.TC + 'Tree.normalized', c15.TC + 'Tree.transform'], schema=c15.SCHEMA15, contracts={VIS + 'Visitor.visit': c15.visited_some})
def rebuilt(e):
    tr = e.res(e.call(e.w.get(c15.TT + 'PropogateEmptyTransformator'), []))
    leaf = c15.node(e, 'leaf', c15.TC + 'Leaf')
    a = e.res(e.call(e.getattr(tr, 'visit_Leaf'), [leaf]))
    b = e.res(e.call(e.getattr(tr, 'visit_Leaf'), [leaf]))
    e.prove(a.fresh and b.fresh and a is not b, 'a leaf of its own each time')
    t = e.fresh(OBJ('Tree'), 'tree')
    n = e.res(e.getattr(t, 'normalized'))
    e.prove(n.fresh and n.cls is e.w.cls('Tree'), 'a tree of its own')
    e.prove(same_obj(e, get(e, n, 'root'), c15.visited_some(e, [None, get(e, t, 'root')], {})), 'of the rebuilt nodes')
    frame(e)


share('C14', 'C15', 'dropping empty parts', 'agreement changes only', 'every node of a tree is visited', 'the words of a phrase are kept',
      'an interpreted', 'a marked phrase keeps')
share('C14', 'C02', 'is attached', 'starts from a production', 'the indexes keep', 'added once', 'a chart has a column',
      'the states of a column', 'the matches of a chart', 'match reports', 'becomes a match', 'the words of a match', 'step', 'the parser')
share('C14', 'C01', 'findall resolves', 'find gives', 'one match for each')
share('C14', 'C05', 'a rule met before', 'keep', 'names of', 'rules of a grammar')
share('C14', 'C06')
share('C14', 'C08', 'a tied word gets', 'a word is added', 'at first nothing')
share('C14', 'C09', 'tokens are the matches')
share('C14', 'C11', 'a new fact has', 'setting an attribute', 'merging another', 'the marked parts', 'the fact of a match', 'the JSON view')
share('C14', 'C13')
share('C14', 'C17', 'asking again', 'readings of a word')
share('C14', 'C20')
