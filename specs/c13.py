"""C13: a gazetteer matches exactly its lines and reports the line as key."""
from .lib import *

PIPE = 'yargy.pipelines.'
KINDS = {
    'pipeline': ('Pipeline', 'PipelineBNFRule', 'eq', STR),
    'caseless_pipeline': ('CaselessPipeline', 'CaselessPipelineBNFRule', 'caseless', STR),
    'morph_pipeline': ('MorphPipeline', 'MorphPipelineBNFRule', 'DictionaryPredicate', SET(STR)),
}
SCHEMA13 = merged(SCHEMA, {
    ('PipelineProduction', 'value'): STR, ('PipelineProduction', 'terms'): LIST(OBJ('Predicate')),
    ('Production', 'main'): INT,
    ('Key', 'value'): STR,
    ('Context', 'tokenizer'): OBJ('MorphTokenizer'), ('MorphTokenizer', 'morph'): OBJ('MorphAnalyzer'),
})


def schema(kind):
    _, _, pred, t = KINDS[kind]
    return merged(SCHEMA13, {('PipelineProduction', 'terms'): LIST(OBJ('yargy.predicates.bank.' + pred)),
                             (pred, 'value'): t, ('Key', 'terms'): LIST(t)})


def normalized(e, a, k):
    return Sym(STR, e.uf('token_normalized', IntSort, StrSort)(e.res(a[0]).ref))


def sorted_positions(e, n):
    """sorted() of a set of positions 0..n-1"""
    def hook(eng, v, parts, key, rev):
        if not isinstance(v, SetV) or key is not None or rev:
            raise Unsupported('sorting')
        e.prove(e.forall_in(parts, lambda x: e.mkbool(z3.And(e.num(x) >= 0, e.num(x) < n))), 'positions of lines')
        k = e.index()
        with e.loopctx(k, n):
            member = e.exists_in(parts, lambda x: e.mkbool(e.num(x) == k))
        return e.new_list([For(k, n, [Item(Sym(INT, k), member)])])
    hook.sets = True        # decided by membership
    e.sorted_hook = hook


def predicted(kind):
    _, rule, pred, t = KINDS[kind]

    @unit('C13', kind + ': the lines tried at a word are those whose first word accepts it, in order',
          [PIPE + rule + '.predict', PIPE + rule + '.build_index', PIPE + 'PipelineBNFRule.__init__'], schema=schema(kind),
          contracts={'property:Token.normalized': normalized}, budget=120)
    def u(e):
        prods = e.fresh(LIST(OBJ('PipelineProduction')), 'productions')
        n = e.length(prods.parts)
        j = q(e)
        el = e.uf('el_obj_PipelineProduction', IntSort, IntSort, IntSort)
        terms = lambda ref: e.symlist(fieldterm(e, 'PipelineProduction', 'terms', ref, IntSort),    # noqa: E731
                                      OBJ('yargy.predicates.bank.' + pred))
        e.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), e.length(terms(el(prods.ref, j)).parts) > 0)))
        sorted_positions(e, n)
        e.allow('str_lower')
        r = e.res(e.call(e.w.get(PIPE + rule), [prods]))
        same_seq(e, get(e, r, 'productions').parts, prods.parts, 'every line, in order', eq=lambda a, b: e.ident(a, b))
        tok = e.fresh(OBJ('Token'), 'token')
        got = e.res(e.call(e.getattr(r, 'predict'), [tok]))
        k = e.index()
        with e.loopctx(k, n):
            prod = e.at(prods.parts, k)
            first = e.at(terms(prod.ref).parts, z3.IntVal(0))
            e.type_facts(first)
            ok = e.sub_truth(lambda: e.call(first, [tok]))
        guarded(e, e.parts_of(got), k, n, prod, ok)
        frame(e)


def guarded(e, parts, k, n, value, ok):
    """the sequence is value(k) for the k = 0..n-1 with ok(k), in order"""
    a = flat(e, parts)
    if not a:
        e.prove(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Not(ok))), 'no line is tried only if none is due')
        return
    if len(a) != 1 or not isinstance(a[0], For) or a[0].dedup or len(a[0].parts) != 1:
        raise Unsupported('lines tried in another shape')
    f = a[0]
    e.prove(f.n == n, 'every line is considered')
    it = e.inst_parts(f.parts, f.k, k)[0]
    if not isinstance(it, Item):
        raise Unsupported('lines tried in another shape')
    with e.loopctx(k, n):
        def thunk():
            e.prove(zb(it.guard) == ok, 'a line is tried exactly when its first word accepts the word')
            if e.branch(ok):
                e.prove(zb(e.ident(e.res(it.value), value)), 'the line itself')
        e.run_paths(thunk)


for kd in KINDS:
    predicted(kd)


# --- from the lines to the productions --------------------------------------------

def pieces(e, a, k):
    return e.symlist(e.uf('pieces', IntSort, StrSort, IntSort)(e.res(a[0]).ref, e.term(a[1])), STR)


def dictionary_form(e, a, k):
    return e.symlist(e.uf('dictionary_form', IntSort, StrSort, IntSort)(e.res(a[0]).ref, e.term(a[1])), STR, SetV)


SPLIT = {'yargy.tokenizer.Tokenizer.split': pieces, 'dispatch:MorphAnalyzer.normalized': dictionary_form}


def from_lines(kind):
    cls, _, pred, _ = KINDS[kind]

    @unit('C13', kind + ': activation gives a key per line, in order, made of its words',
          [PIPE + 'PipelineScheme.__init__', PIPE + 'PipelineScheme.activate', PIPE + cls + 'Scheme.get_key',
           PIPE + 'Key.__init__', PIPE + 'Pipeline.__init__', PIPE + kind], schema=SCHEMA13, contracts=SPLIT)
    def u(e):
        lines = e.fresh(LIST(STR), 'lines')
        r = e.res(e.call(e.w.get(PIPE + kind), [lines]))
        e.prove(r.cls is e.w.cls('PipelineRule'), 'a rule')
        scheme = get(e, r, 'pipeline')
        ctx = e.fresh(OBJ('Context'), 'context')
        tk = get(e, ctx, 'tokenizer')
        p = e.res(e.call(e.getattr(scheme, 'activate'), [ctx]))
        e.prove(p.cls is e.w.cls(PIPE + cls), 'pipeline of the same kind')
        keys = get(e, p, 'keys')
        n = e.length(lines.parts)
        e.prove(e.length(keys.parts) == n, 'a key per line')
        k = e.index()
        with e.loopctx(k, n):
            def thunk():
                key, line = e.res(e.at(keys.parts, k)), e.at(lines.parts, k)
                e.prove(zb(e.eq(get(e, key, 'value'), line)), 'the line as it was written')
                words = pieces(e, [tk, line], {})
                m = e.length(words.parts)
                terms = get(e, key, 'terms')
                e.prove(e.length(terms.parts) == m, 'a term per word of the line')
                j = e.index()
                with e.loopctx(j, m):
                    w, t = e.at(words.parts, j), e.res(e.at(terms.parts, j))
                    if kind == 'morph_pipeline':
                        w = dictionary_form(e, [get(e, tk, 'morph'), w], {})
                        e.prove(isinstance(t, ListV) and t.ref is not None and t.ref == w.ref,
                                'the dictionary forms of the word')
                    else:
                        e.prove(zb(e.eq(t, w)), 'the word')
            e.run_paths(thunk)
        frame(e)

    @unit('C13', kind + ': a production per line, in order, with the line as value',
          [PIPE + 'Pipeline.as_bnf', PIPE + 'Pipeline.productions', PIPE + 'PipelineProduction.__init__',
           'yargy.predicates.bank.%s.__init__' % pred],
          schema=schema(kind), contracts={PIPE + KINDS[kind][1]: lambda e, a, k: e.ghost_emit('bnf', [Item(e.res(a[0]))]) or 'bnf',
                                          'yargy.rule.constructors.prepare_terms': lambda e, a, k: (e.res(a[0]), 0)})
    def v(e):
        keys = e.fresh(LIST(OBJ('Key')), 'keys')
        p = e.res(e.call(e.w.get(PIPE + cls), [keys]))
        e.allow('str_lower')
        e.prove(e.res(e.getattr(p, 'as_bnf')) == 'bnf', 'the rule that looks the lines up')
        got = flat(e, e.ghost.get('bnf', []))
        e.prove(len(got) == 1, 'one rule')
        prods = e.parts_of(got[0])
        n = e.length(keys.parts)
        e.prove(e.length(prods) == n, 'a production per line')
        k = e.index()
        P = e.w.cls('yargy.predicates.bank.' + pred)
        with e.loopctx(k, n):
            def thunk():
                key, prod = e.res(e.at(keys.parts, k)), e.res(e.at(prods, k))
                e.prove(prod.cls is e.w.cls('PipelineProduction'), 'a pipeline production')
                e.prove(zb(e.eq(get(e, prod, 'value'), get(e, key, 'value'))), 'with the line as value')
                e.prove(e.num(get(e, prod, 'main')) == 0, 'the first word is the main one')
                have, want = get(e, prod, 'terms'), get(e, key, 'terms')
                m = e.length(want.parts)
                e.prove(e.length(have.parts) == m, 'a term per word')
                j = e.index()
                with e.loopctx(j, m):
                    def inner():
                        t, w = e.res(e.at(have.parts, j)), e.at(want.parts, j)
                        e.prove(t.cls is P, 'the predicate of the pipeline')
                        v = get(e, t, 'value')
                        if kind == 'morph_pipeline':
                            e.prove(v is e.res(w) or v.ref == e.res(w).ref, 'of the forms')
                        elif kind == 'caseless_pipeline':
                            e.prove(zb(e.eq(v, e.call(e.getattr(w, 'lower'), []))), 'of the word in lower case')
                        else:
                            e.prove(zb(e.eq(v, w)), 'of the word')
                    e.run_paths(inner)
            e.run_paths(thunk)
        frame(e)


for kd in KINDS:
    from_lines(kd)


@unit('C13', 'a grammar is given its pipelines before it is compiled',
      ['yargy.rule.transformators.ActivateTransformator.visit_PipelineRule',
       'yargy.rule.transformators.RuleTransformator.visit_PipelineProduction',
       'yargy.rule.transformators.RuleTransformator.visit_PipelineRule',
       'yargy.rule.bnf.BNFTransformator.visit_PipelineRule', 'yargy.rule.bnf.RemoveForwardTransformator.visit_PipelineBNFRule',
       'yargy.rule.transformators.InplaceRuleTransformator.visit_PipelineProduction'],
      schema=merged(SCHEMA13, {('PipelineRule', 'pipeline'): OBJ('Pipeline')}),
      contracts={'dispatch:Pipeline.activate': lambda e, a, k: e.mk(OBJ('Pipeline'), e.uf('activated', IntSort, IntSort, IntSort)(
          e.res(a[0]).ref, e.res(a[1]).ref)),
          'property:Pipeline.as_bnf': lambda e, a, k: e.mk(OBJ('BNFRule'), e.uf('looked_up', IntSort, IntSort)(e.res(a[0]).ref))})
def in_grammar(e):
    T = 'yargy.rule.transformators.'
    item, ctx = e.fresh(OBJ('PipelineRule'), 'item'), e.fresh(OBJ('Context'), 'context')
    t = e.res(e.call(e.w.get(T + 'ActivateTransformator'), [ctx]))
    r = e.res(e.call(e.getattr(t, 'visit_PipelineRule'), [item]))
    e.prove(r.cls is e.w.cls('PipelineRule'), 'a pipeline')
    e.prove(get(e, r, 'pipeline').ref == e.uf('activated', IntSort, IntSort, IntSort)(get(e, item, 'pipeline').ref, ctx.ref),
            'with the words of its lines')
    prod = e.fresh(OBJ('PipelineProduction'), 'production')
    for name in ('SquashExtendedTransformator', 'ReplaceExtendedTransformator', 'ReplaceOrTransformator',
                 'ReplaceEmptyTransformator', 'FlattenTransformator'):
        t = e.res(e.call(e.w.get(T + name), []))
        e.prove(same_obj(e, e.call(e.getattr(t, 'visit_PipelineRule'), [item]), item), name + ' leaves a pipeline as it is')
        e.prove(same_obj(e, e.call(e.getattr(t, 'visit_PipelineProduction'), [prod]), prod), name + ' leaves a line as it is')
    t = e.res(e.call(e.w.get('yargy.rule.bnf.BNFTransformator'), []))
    r = e.res(e.call(e.getattr(t, 'visit_PipelineRule'), [item]))
    e.prove(r.ref == e.uf('looked_up', IntSort, IntSort)(get(e, item, 'pipeline').ref), 'compiled to the rule of its lines')
    t = e.res(e.call(e.w.get('yargy.rule.bnf.RemoveForwardTransformator'), []))
    b = e.fresh(OBJ('PipelineBNFRule'), 'rule')
    e.prove(same_obj(e, e.call(e.getattr(t, 'visit_PipelineBNFRule'), [b]), b), 'and left as it is')
    e.prove(same_obj(e, e.call(e.getattr(t, 'visit_PipelineProduction'), [prod]), prod), 'with its lines')
    frame(e)


# --- the line of a match ------------------------------------------------------------

TREE = 'yargy.tree.transformators.'
NODE = 'yargy.tree.constructors.Node'
SCHEMA_TREE = merged(SCHEMA13, {
    ('Node', 'rule'): OBJ('BNFRule'), ('Node', 'production'): OBJ('Production', 'PipelineProduction'), ('Node', 'rank'): INT,
    ('Node', 'children'): LIST(OBJ(NODE)), ('Node', 'main_index'): OPT(INT),
    ('BNFRule', 'interpretator'): OPT(OBJ('Interpretator')),
    ('Leaf', 'token'): OBJ('Token'), ('Leaf', 'predicate'): OBJ('Predicate'),
})


def holder(e, x):
    """uf: the line that a part stands for (0: none), by unfolding: the part is a match of a pipeline, or an unmarked
    part with a single child that stands for it"""
    f = e.uf('line_of', IntSort, IntSort)
    c = e.w.cls
    x = x if z3.is_expr(x) else x.ref
    prod = fieldterm(e, 'Node', 'production', x, IntSort)
    rule = fieldterm(e, 'Node', 'rule', x, IntSort)
    kids = e.symlist(fieldterm(e, 'Node', 'children', x, IntSort), OBJ(NODE))
    kid = e.at(kids.parts, z3.IntVal(0))
    el = kid.ref
    o = e.mk(OBJ(NODE), x, facts=False)
    leaf = e.isinstance_(o, c('Leaf'))
    pipe = zb(e.isinstance_(e.mk(OBJ('Production'), prod, facts=False), c('PipelineProduction')))
    marked = z3.And(z3.Not(zb(e.isinstance_(kid, c('Leaf')))), marks(e, el))
    # parts without words are gone by now (C15)
    return z3.And(z3.Or(zb(leaf), e.length(kids.parts) > 0),
                  f(x) == z3.If(zb(leaf), 0, z3.If(pipe, prod, z3.If(z3.Or(e.length(kids.parts) != 1, marked), 0, f(el)))))


def marks(e, x):
    """the part carries an interpretation"""
    rule = fieldterm(e, 'Node', 'rule', x, IntSort)
    return z3.Not(e.uf('none_BNFRule_interpretator', IntSort, BoolSort)(rule))


def below(e, n, entry):
    v = e.fresh(OBJ(NODE), n)
    e.assume(e.uf('line_of', IntSort, IntSort)(v.ref) == e.uf('line_of', IntSort, IntSort)(entry.ref))
    e.assume(holder(e, v))
    return v


def same_line(e, n, entry, v):
    e.assume(holder(e, entry))
    e.assume(holder(e, v))
    e.prove(e.uf('line_of', IntSort, IntSort)(v.ref) == e.uf('line_of', IntSort, IntSort)(entry.ref),
            'the part looked at stands for the same line as the marked one')


@unit('C13', 'the line of a marked phrase is found however deep the pipeline is', [TREE + 'KeepInterpretationNodesTransformator.production'],
      schema=SCHEMA_TREE, loops=[WhileInv(TREE + 'KeepInterpretationNodesTransformator.production', below, same_line)])
def keyed(e):
    t = e.res(e.call(e.w.get(TREE + 'KeepInterpretationNodesTransformator'), []))
    item = e.fresh(OBJ(NODE), 'item')
    item.cls, item.cands = e.w.cls('yargy.tree.constructors.Node'), None
    e.type_facts(item)
    e.assume(holder(e, item))
    got = e.res(e.call(e.getattr(t, 'production'), [item]))
    line = e.uf('line_of', IntSort, IntSort)(item.ref)
    if e.branch(line == 0):
        e.prove(zb(z3.Not(is_cls(e, got, 'PipelineProduction'))), 'no line where there is none')
    else:
        e.prove(got.ref == line, 'the line of the pipeline')
    frame(e)


def visited(e, a, k):
    return e.mk(OBJ('Token'), e.uf('visited', IntSort, IntSort)(e.res(a[1]).ref))


def interpreted(e, a, k):
    e.ghost_emit('inputs', [Item((e.res(a[0]), e.res(a[1])))])
    return 'result'


@unit('C13', 'the line reaches the interpretation of the phrase', [TREE + 'InterpretationTransformator.visit_Node',
                                                                  TREE + 'InterpretationTransformator.visit_Leaf',
                                                                  'yargy.interpretation.interpretator.InterpretatorInput.__init__'],
      schema=merged(SCHEMA_TREE, {('BNFRule', 'interpretator'): OBJ('Interpretator')}),
      contracts={'yargy.visitor.Visitor.visit': visited, 'dispatch:Interpretator.__call__': interpreted})
def key_given(e):
    t = e.res(e.call(e.w.get(TREE + 'InterpretationTransformator'), []))
    item = e.fresh(OBJ(NODE), 'item')
    item.cls, item.cands = e.w.cls('yargy.tree.constructors.Node'), None
    e.type_facts(item)
    r = e.res(e.call(e.getattr(t, 'visit_Node'), [item]))
    e.prove(r == 'result', 'the result of the interpretation')
    got = flat(e, e.ghost.get('inputs', []))
    e.prove(len(got) == 1 and same_obj(e, got[0][0], get(e, get(e, item, 'rule'), 'interpretator')), 'of the mark of the phrase')
    inp = got[0][1]
    prod = get(e, item, 'production')
    if e.branch(is_cls(e, prod, 'PipelineProduction')):
        e.prove(zb(e.eq(get(e, inp, 'key'), Sym(STR, fieldterm(e, 'PipelineProduction', 'value', prod.ref, StrSort)))),
                'the key is the line')
    else:
        e.prove(get(e, inp, 'key') is None, 'no key')
    kids = get(e, item, 'children')
    k = e.index()
    want = [For(k, e.length(kids.parts), [Item(visited(e, [t, e.at(kids.parts, k)], {}))])]
    same_seq(e, get(e, inp, 'items').parts, want, 'the parts of the phrase in order', eq=lambda a, b: e.ident(a, b))
    leaf = e.fresh(OBJ('Leaf'), 'leaf')
    e.prove(same_obj(e, e.call(e.getattr(t, 'visit_Leaf'), [leaf]), get(e, leaf, 'token')), 'a word stands for itself')
    frame(e)


share('C13', 'C06', 'eq', 'caseless', 'dictionary')
share('C13', 'C12', 'normalized()')
share('C13', 'C02', 'attached', 'rule starts', 'phrase starts')
