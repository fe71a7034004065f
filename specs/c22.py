"""C22: a printed grammar is the compiled grammar.

A text that is put together is compared piece by piece: literals, labels of parts (by contract, each proved or given by the
part), and ' | '.join of a sequence of any length, whose parts are compared one by one."""
from .lib import *
from . import c05
from .c05 import SCHEMA5, RC, BNF, exactly
from .c19 import LABELS, label_of, every_part, PARTS

PIPE = 'yargy.pipelines.'
PRED = 'yargy.predicates.constructors.'
REL = 'yargy.relations.constructors.'
SCHEMA22 = merged(SCHEMA5, {
    ('Production', 'terms'): LIST(OBJ('Predicate', 'BNFRule')),
    ('BNF', 'rules'): LIST(OBJ('BNFRule')),
    ('PredicatesComposition', 'predicates'): LIST(OBJ('Predicate')), ('NotPredicate', 'predicate'): OBJ('Predicate'),
    ('RelationsComposition', 'relations'): LIST(OBJ('Relation')), ('NotRelation', 'relation'): OBJ('Relation'),
})


def text_of(e, a, k):
    return Sym(STR, e.uf('text_of', IntSort, StrSort)(e.res(a[0]).ref))


class Row(object):
    """sep.join of what each of a sequence gives"""

    def __init__(self, sep, seq, each):
        self.sep, self.seq, self.each = sep, seq, each


def pieces(v):
    return list(v.parts) if isinstance(v, StrCat) else [v]


def reads(e, got, want, label):
    """the text got is made of the pieces want"""
    have = pieces(e.res(got))
    if len(have) != len(want):
        if all(isinstance(x, (str, Sym)) for x in have) and not any(isinstance(x, Row) for x in want):
            e.prove(False, label)
        raise Unsupported('text of another shape: %r' % (have,))
    for h, w in zip(have, want):
        if isinstance(w, Row):
            if not isinstance(h, StrJoin):
                raise Unsupported('text of another shape: %r' % (h,))
            e.prove(h.sep == w.sep, label + ': put together by %r' % w.sep)
            n = e.length(w.seq)
            e.prove(e.length(h.seq) == n, label + ': one piece for each')
            k = e.index()
            with e.loopctx(k, n):
                def thunk():
                    x = e.res(e.at(w.seq, k))
                    mine = w.each(x, k)
                    reads(e, e.at(h.seq, k), pieces(mine), label + ': each in its place')
                e.run_paths(thunk)
        elif isinstance(w, str):
            e.prove(isinstance(h, str) and h == w, label + ': %r' % w)
        else:
            if not isinstance(h, Sym):
                raise Unsupported('text of another shape: %r' % (h,))
            e.prove(h.e == w.e, label)


def text(e, o):
    return e.call(e.getattr(o, '__str__'), [])


@unit('C22', 'an alternative is shown as its parts in order, the main one marked', [RC + 'Production.__str__'],
      schema=SCHEMA22, contracts=LABELS)
def production(e):
    p = exactly(e, e.fresh(OBJ('Production'), 'production'), RC + 'Production')
    main = e.num(get(e, p, 'main'))
    terms = get(e, p, 'terms')

    def each(x, k):
        own = label_of(e, [x], {})
        marked = e.branch(z3.And(main > 0, k == main))
        return StrCat(['^', own]) if marked else own
    reads(e, text(e, p), [Row(' ', terms.parts, each)], 'the parts')
    frame(e)


@unit('C22', 'the empty alternative is shown as such', [RC + 'EmptyProduction.__str__'], schema=SCHEMA22, contracts=LABELS)
def empty(e):
    p = e.res(e.call(e.w.get(RC + 'EmptyProduction'), []))
    reads(e, text(e, p), ['e'], 'the empty alternative')
    frame(e)


@unit('C22', 'a rule is shown with its alternatives in order', [BNF + 'BNFRule.__str__'], schema=SCHEMA22,
      contracts=merged(LABELS, {'dispatch:Production.__str__': text_of}))
def line(e):
    r = exactly(e, e.fresh(OBJ('BNFRule'), 'rule'), BNF + 'BNFRule')
    reads(e, text(e, r), [label_of(e, [r], {}), ' -> ',
                          Row(' | ', get(e, r, 'productions').parts, lambda x, k: text_of(e, [x], {}))], 'a line')
    frame(e)


@unit('C22', 'a gazetteer is shown by its kind', [PIPE + 'PipelineBNFRule.__str__'], schema=SCHEMA22, contracts=LABELS)
def gazetteer(e):
    for cls, kind in (('PipelineBNFRule', 'pipeline'), ('CaselessPipelineBNFRule', 'caseless_pipeline'),
                      ('MorphPipelineBNFRule', 'morph_pipeline')):
        r = exactly(e, e.fresh(OBJ('yargy.pipelines.' + cls), 'rule'), PIPE + cls)
        reads(e, text(e, r), [label_of(e, [r], {}), ' -> ' + kind], kind)
    frame(e)


@unit('C22', 'the label of a rule: its name or its mark, and its relation', [BNF + 'BNFRule.label'], schema=SCHEMA22,
      contracts={k: v for k, v in LABELS.items() if 'BNFRule' not in k})
def label(e):
    for cls in (BNF + 'BNFRule', PIPE + 'PipelineBNFRule'):
        r = exactly(e, e.fresh(OBJ(cls.split('.')[-1]), 'rule'), cls)
        name, mark, relation = get(e, r, 'name'), get(e, r, 'interpretator'), get(e, r, 'relation')
        if name is None and mark is None:
            continue        # every rule of a grammar has a name
        want = [name if mark is None else label_of(e, [mark], {})]
        if relation is not None:
            want += ['^', label_of(e, [relation], {})]
        reads(e, e.getattr(r, 'label'), want, 'the label')
    frame(e)


@unit('C22', 'a grammar is shown line by line, the start first', [BNF + 'BNF.source', BNF + 'BNF.start'], schema=SCHEMA22,
      contracts={'dispatch:BNFRule.__str__': text_of})
def source(e):
    b = e.fresh(OBJ('BNF'), 'grammar')
    rules = get(e, b, 'rules')
    same_seq(e, e.parts_of(e.getattr(b, 'source')),
             [For(k, n, [Item(text_of(e, [e.at(rules.parts, k)], {}))]) for k, n in [(e.index(), e.length(rules.parts))]],
             'a line for each rule in order', eq=lambda x, y: zb(e.eq(x, y)))
    e.assume(e.length(rules.parts) > 0)
    e.prove(zb(e.ident(get(e, b, 'start'), e.at(rules.parts, z3.IntVal(0)))), 'the first rule is the start')
    frame(e)


@unit('C22', 'a grammar has every rule of it once, the start first', [BNF + 'BNFRule.as_bnf', RC + 'Rule.walk'], schema=SCHEMA22,
      contracts={RC + 'bfs_rule': every_part, BNF + 'BNF': lambda e, a, k: e.ghost_emit('bnf', [Item(e.res(a[0]))]) or 'grammar'})
def grammar(e):
    r = exactly(e, e.fresh(OBJ('BNFRule'), 'rule'), BNF + 'BNFRule')
    got = e.res(e.getattr(r, 'as_bnf'))
    e.prove(got == 'grammar', 'a grammar')
    made = flat(e, e.ghost.get('bnf', []))
    e.prove(len(made) == 1, 'one grammar')
    every = every_part(e, [r], {})
    k = e.index()
    x = e.res(e.at(every.parts, k))
    want = [For(k, e.length(every.parts), [Item(x, is_cls(e, x, BNF + 'BNFRule'))])]
    same_seq(e, e.parts_of(made[0]), want, 'its rules', eq=lambda a, b: e.ident(a, b))
    frame(e)


def composition(cls, field, name, module):
    @unit('C22', 'a composition is shown with its operands in order: ' + cls, [
        module + ('%sComposition.label' % ('Predicates' if module == PRED else 'Relations') if field[-1] == 's' else cls + '.label')],
        schema=SCHEMA22, contracts=LABELS)
    def u(e):
        kind = OBJ('Predicate' if module == PRED else 'Relation')
        parts = e.fresh(LIST(kind) if field[-1] == 's' else kind, 'operands')
        own = e.getattr(e.res(e.call(e.w.get(module + cls), [parts])), 'label')
        if field[-1] == 's':
            want = [name + '(', Row(', ', parts.parts, lambda x, k: label_of(e, [x], {})), ')']
        else:
            want = [name + '(', label_of(e, [parts], {}), ')']
        reads(e, own, want, cls)
        frame(e)


composition('AndPredicate', 'predicates', 'and_', PRED)
composition('OrPredicate', 'predicates', 'or_', PRED)
composition('NotPredicate', 'predicate', 'not_', PRED)
composition('AndRelation', 'relations', 'and_', REL)
composition('OrRelation', 'relations', 'or_', REL)
composition('NotRelation', 'relation', 'not_', REL)


@unit('C22', 'a rule without a name gets a number of its own', [BNF + 'generate_names', BNF + 'BNF.__init__'], schema=SCHEMA22)
def numbers(e):
    rs = e.fresh(LIST(OBJ('BNFRule')), 'rules')
    n = e.length(rs.parts)
    el = e.uf('el_obj_BNFRule', IntSort, IntSort, IntSort)
    i, j = q(e), q(e)
    # walk gives a rule once (C19)
    e.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), el(rs.ref, i) != el(rs.ref, j))))
    count = e.uf('nameless', IntSort, IntSort)
    none, name = e.uf('none_BNFRule_name', IntSort, BoolSort), e.uf('fld_BNFRule_name', IntSort, StrSort)
    unnamed = lambda r: z3.Or(none(r), name(r) == e.lit(''))       # noqa: E731
    e.assume(count(0) == 0)
    e.assume(z3.ForAll([i], z3.Implies(i >= 0, count(i + 1) == count(i) + z3.If(unnamed(el(rs.ref, i)), 1, 0)),
                       patterns=[count(i + 1)]))
    e.folds.append(lambda eng, init, p, n: lambda k: Sym(INT, count(k)))
    mark = len(e.logs)
    e.call(e.w.get(BNF + 'BNF'), [rs])
    done = [op for op in e.logs[mark:] if op.kind == 'pointwise']
    if not done:
        raise Unsupported('names')
    k = e.index()
    with e.loopctx(k, n):
        def thunk():
            r = el(rs.ref, k)
            named = []
            for op in done:
                name_, at, m, guard, value = op.data
                e.prove(m == n, 'every rule is looked at')
                put = lambda x: z3.substitute(x, (at, k))      # noqa: E731
                e.prove(put(op.target.ref) == r, 'each in turn')
                g = put(zb(guard))
                named.append(g)
                if e.branch(g):
                    v = pieces(e.res(value))
                    if len(v) != 2 or v[0] != 'R' or not isinstance(v[1], Sym):
                        raise Unsupported('names of another shape')
                    e.prove(put(v[1].e) == e.term(e.w.to_str(e, Sym(INT, count(k)))), 'the number of nameless rules before it')
            e.prove(z3.Or(*named) == unnamed(r), 'a rule is named exactly when it has no name')
        e.run_paths(thunk)
    # a nameless rule that comes later has a greater number (by induction over what lies between)
    a, b = e.const('a', IntSort), e.const('b', IntSort)
    e.prove(z3.Implies(z3.And(0 <= a, unnamed(el(rs.ref, a))), count(a + 1) > count(a)), 'numbers grow with a nameless rule')
    e.prove(z3.Implies(z3.And(0 <= a, a <= b, count(a) <= count(b)), count(a) <= count(b + 1)), 'numbers never fall')


share('C22', 'C05', 'rules of a grammar keep their names', 'a grammar is compiled by all the steps')
share('C22', 'C19', 'a walk over a grammar', 'the parts of a kind')
