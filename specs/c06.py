"""C06: predicates decide exactly their documented condition."""
from .lib import *

BANK = 'yargy.predicates.bank.'
CONS = 'yargy.predicates.constructors.'

SCHEMA6 = dict(SCHEMA)
SCHEMA6.update({
    ('Tokenizer', 'types'): SET(STR), ('MorphTokenizer', 'morph'): OBJ('MorphAnalyzer'),
    ('Context', 'tokenizer'): OBJ('MorphTokenizer'), ('Context', 'tagger'): OBJ('Tagger'),
})


def norms(e, word):
    """normal forms of a word, as the analyser gives them (decided by C17)"""
    return e.uf('dict_normal_forms', StrSort, IntSort)(e.strterm(word))


CONTRACTS = {
    'yargy.morph.MorphAnalyzer.normalized': lambda e, a, k: e.symlist(norms(e, e.res(a[1])), STR, SetV),
    'yargy.morph.CachedMorphAnalyzer.normalized': lambda e, a, k: e.symlist(norms(e, e.res(a[1])), STR, SetV),
    # grammeme, type and tag are known here; that unknown ones raise is C18
    'yargy.morph.MorphAnalyzer.check_gram': lambda e, a, k: None,
    'yargy.tokenizer.Tokenizer.check_type': lambda e, a, k: None,
    'yargy.tagger.Tagger.check_tag': lambda e, a, k: True,
    'yargy.tagger.TaggersComposition.check_tag': lambda e, a, k: True,
}


def any_token(e):
    t = e.fresh(OBJ('Token'), 'token')
    v = text(e, t)
    e.assume(v != e.lit(''))
    e.assume(z3.Implies(kind(e, t) == e.lit('INT'), e.uf('is_decimal', StrSort, BoolSort)(v)))
    return t


def kind(e, t):
    return e.term(get(e, t, 'type'))


def context(e):
    return e.fresh(OBJ('Context'), 'context')


def lower(e, x):
    return e.uf('str_lower', StrSort, StrSort)(x)


def check(e, pred, t, want, name):
    got = e.truth(e.call(pred, [t]))
    e.prove(zb(got) == zb(want), '%s accepts a token exactly when its condition holds' % name)
    frame(e, 'deciding %s changes nothing' % name)


def bank(name, args, want, vocabulary=(), scheme=False, functions=()):
    """args(e) -> constructor arguments; want(e, token, args) -> z3 condition"""
    @unit('C06', name, [BANK + name + '.__call__'] + [BANK + f for f in functions], schema=SCHEMA6,
          contracts=CONTRACTS)
    def u(e):
        e.allow('is_decimal', 'int_of', *vocabulary)
        xs = args(e)
        p = e.call(e.w.get(BANK + name), xs)
        if scheme:
            p = e.call(e.getattr(p, 'activate'), [context(e)])
        t = any_token(e)
        check(e, p, t, want(e, t, xs), name)


def strf(e, name, x):
    return e.uf('str_' + name, StrSort, BoolSort)(x)


bank('true', lambda e: [], lambda e, t, a: True)
for n in ('lower', 'upper', 'title'):
    bank('is_' + n, lambda e: [], lambda e, t, a, n=n: strf(e, 'is' + n, text(e, t)), ['str_is' + n])
bank('is_capitalized', lambda e: [],
     lambda e, t, a: strf(e, 'isupper', e.uf('char_at', StrSort, IntSort, StrSort)(text(e, t), z3.IntVal(0))),
     ['str_isupper', 'char_at'])
bank('eq', lambda e: [e.fresh(STR, 'value')], lambda e, t, a: text(e, t) == e.term(a[0]))
bank('length_eq', lambda e: [e.fresh(INT, 'n')],
     lambda e, t, a: e.uf('str_len', StrSort, IntSort)(text(e, t)) == e.term(a[0]))
INTOF = lambda e, t: e.uf('int_of', StrSort, IntSort)(text(e, t))
bank('gte', lambda e: [e.fresh(INT, 'n')],
     lambda e, t, a: z3.And(kind(e, t) == e.lit('INT'), INTOF(e, t) >= e.term(a[0])), functions=['int_required'])
bank('lte', lambda e: [e.fresh(INT, 'n')],
     lambda e, t, a: z3.And(kind(e, t) == e.lit('INT'), INTOF(e, t) <= e.term(a[0])), functions=['int_required'])
bank('caseless', lambda e: [e.fresh(STR, 'value')],
     lambda e, t, a: lower(e, text(e, t)) == lower(e, e.term(a[0])), ['str_lower'], functions=['caseless.__init__'])


def some_of(e, s, pred):
    """z3: some element of the set of strings s satisfies pred"""
    k = q(e)
    x = e.uf('el_str', IntSort, IntSort, StrSort)(s.ref, k)
    return z3.Exists([k], z3.And(k >= 0, k < e.length(s.parts), pred(x)))


bank('in_', lambda e: [e.fresh(LIST(STR), 'values')],
     lambda e, t, a: some_of(e, a[0], lambda x: x == text(e, t)))
bank('in_caseless', lambda e: [e.fresh(LIST(STR), 'values')],
     lambda e, t, a: some_of(e, a[0], lambda x: lower(e, x) == lower(e, text(e, t))), ['str_lower'],
     functions=['in_caseless.__init__'])


def dictionary(e, t, has):
    """some word form of a morph token, else its lowered text, is a word of the dictionary set"""
    morph = is_cls(e, t, 'MorphToken')
    return z3.If(morph, some_form(e, t, lambda f: has(fieldterm(e, 'Form', 'normalized', f, StrSort))),
                 has(lower(e, text(e, t))))


bank('normalized', lambda e: [e.fresh(STR, 'word')],
     lambda e, t, a: dictionary(e, t, lambda x: e.mem(norms(e, a[0]), STR, x)), ['str_lower'], scheme=True,
     functions=['normalized.activate', 'DictionaryPredicate.__call__'])


def in_dictionary(e, a, x):
    k = q(e)
    w = e.uf('el_str', IntSort, IntSort, StrSort)(a.ref, k)
    return z3.Exists([k], z3.And(k >= 0, k < e.length(a.parts),
                                 e.mem(e.uf('dict_normal_forms', StrSort, IntSort)(w), STR, x)))


bank('dictionary', lambda e: [e.fresh(LIST(STR), 'words')],
     lambda e, t, a: dictionary(e, t, lambda x: in_dictionary(e, a[0], x)), ['str_lower'], scheme=True,
     functions=['dictionary.activate', 'DictionaryPredicate.__call__'])
bank('gram', lambda e: [e.fresh(STR, 'gram')],
     lambda e, t, a: z3.And(is_cls(e, t, 'MorphToken'), some_form(e, t, lambda f: gram_in(e, f, e.term(a[0])))),
     scheme=True, functions=['gram.activate', 'GramPredicate.__call__', 'morph_required'])
bank('type', lambda e: [e.fresh(STR, 'type')], lambda e, t, a: kind(e, t) == e.term(a[0]), scheme=True,
     functions=['type.activate', 'TypePredicate.__call__'])


def tag_is(e, t, x):
    return fieldterm(e, 'TagToken', 'tag', t.ref, ValSort) == e.term(x)


bank('tag', lambda e: [e.fresh(ANY, 'tag')],
     lambda e, t, a: z3.And(is_cls(e, t, 'TagToken'), tag_is(e, t, a[0])), scheme=True,
     functions=['tag.activate', 'TagPredicate.__call__'])


def single(e, f):
    return z3.Or(gram_in(e, f, e.lit('sing')), gram_in(e, f, e.lit('Sgtm')))


bank('is_single', lambda e: [],
     lambda e, t, a: z3.And(is_cls(e, t, 'MorphToken'), some_form(e, t, lambda f: single(e, f))),
     functions=['is_single.is_single', 'morph_required'])


def custom(types):
    @unit('C06', 'custom (%s)' % types, [BANK + 'custom.__init__', BANK + 'custom.activate',
                                        BANK + 'CustomPredicate.__call__'], schema=SCHEMA6, contracts=CONTRACTS)
    def u(e):
        def function(e, a, k):
            return Sym(BOOL, e.uf('custom_function', StrSort, BoolSort)(e.strterm(e.res(a[0]))))
        fn = PyFn('function', function)
        if types == 'none':
            kw, allowed = {}, lambda x: True
        elif types == 'one':
            one = e.fresh(STR, 'type')
            kw, allowed = {'types': one}, lambda x: x == e.term(one)
            e.assume(e.term(one) != e.lit(''))
        else:
            many = e.fresh(LIST(STR), 'types')
            e.assume(e.length(many.parts) > 0)
            kw, allowed = {'types': many}, lambda x: some_of(e, many, lambda y: y == x)
        p = e.call(e.w.get(BANK + 'custom'), [fn], kw)
        p = e.call(e.getattr(p, 'activate'), [context(e)])
        t = any_token(e)
        check(e, p, t, z3.And(zb(allowed(kind(e, t))), e.uf('custom_function', StrSort, BoolSort)(text(e, t))),
              'custom')


for types in ('none', 'one', 'many'):
    custom(types)


# --- narrowing -------------------------------------------------------------

def narrowing(name, args, keep, scheme):
    @unit('C06', name + '.constrain', [BANK + ('GramPredicate' if scheme else name) + '.constrain'], schema=SCHEMA6,
          contracts=CONTRACTS)
    def u(e):
        xs = args(e)
        p = e.call(e.w.get(BANK + name), xs)
        if scheme:
            p = e.call(e.getattr(p, 'activate'), [context(e)])
        t = e.fresh(OBJ('MorphToken'), 'token')
        forms = forms_of(e, t)
        r = e.res(e.call(e.getattr(p, 'constrain'), [t]))
        got = get(e, r, 'forms')
        l = e.length(forms.parts)
        k = e.index()
        f = e.uf('el_obj_Form', IntSort, IntSort, IntSort)(forms.ref, k)
        want = For(k, l, [Item(e.mk(OBJ('Form'), f, facts=False), keep(e, f, xs))])
        same_seq(e, got.parts, [want], '%s keeps exactly the forms that satisfy it' % name, eq=e.ident)
        for n in ('value', 'span', 'type'):
            e.prove(same_obj(e, get(e, r, n), get(e, t, n)), 'narrowing keeps the ' + n)
        frame(e, 'narrowing changes nothing else')


narrowing('gram', lambda e: [e.fresh(STR, 'gram')], lambda e, f, a: gram_in(e, f, e.term(a[0])), True)
narrowing('is_single', lambda e: [], lambda e, f, a: single(e, f), False)


# --- connectives -----------------------------------------------------------

def answer(e, p, t):
    return e.uf('pred_answer', IntSort, IntSort, ValSort)(p, t)


def holds(e, p, t):
    """a predicate answers with any value at all (custom functions do): it holds if that is true"""
    return e.uf('truthy', ValSort, BoolSort)(answer(e, p, t))


ABSTRACT = {'dispatch:Predicate.__call__': lambda e, a, k: Sym(ANY, answer(e, a[0].ref, a[1].ref))}


def connective(cls, spec):
    @unit('C06', cls, [CONS + cls + '.__call__', CONS + ('NotPredicate' if spec == 'not' else 'PredicatesComposition')
                       + '.__init__'], schema=SCHEMA6, contracts=ABSTRACT)
    def u(e):
        C = e.w.get(CONS + cls)
        t = any_token(e)
        if spec == 'not':
            x = e.fresh(OBJ('Predicate'), 'predicate')
            r = e.call(C, [x])
            want = z3.Not(holds(e, x.ref, t.ref))
        else:
            xs = e.fresh(LIST(OBJ('Predicate')), 'predicates')
            r = e.call(C, [xs])
            k = q(e)
            el = e.uf('el_obj_Predicate', IntSort, IntSort, IntSort)(xs.ref, k)
            rng = z3.And(k >= 0, k < e.length(xs.parts))
            h = holds(e, el, t.ref)
            want = z3.ForAll([k], z3.Implies(rng, h)) if spec == 'all' else z3.Exists([k], z3.And(rng, h))
        got = e.truth(e.call(r, [t]))
        e.prove(zb(got) == want, '%s combines its parts as the connective does' % cls)
        frame(e)


connective('AndPredicate', 'all')
connective('OrPredicate', 'any')
connective('NotPredicate', 'not')


def activated(e, a, k):
    return e.mk(OBJ('Predicate'), e.uf('activated', IntSort, IntSort, IntSort)(a[0].ref, a[1].ref))


def activation(cls, spec):
    @unit('C06', cls + '.activate', [CONS + ('NotPredicate' if spec == 'not' else 'PredicatesComposition') + '.activate'],
          schema=SCHEMA6, contracts=dict(ABSTRACT, **{'dispatch:Predicate.activate': activated}))
    def u(e):
        C = e.w.get(CONS + cls)
        t, c = any_token(e), context(e)
        act = e.uf('activated', IntSort, IntSort, IntSort)
        if spec == 'not':
            x = e.fresh(OBJ('Predicate'), 'predicate')
            r = e.call(C, [x])
            want = z3.Not(holds(e, act(x.ref, c.ref), t.ref))
        else:
            xs = e.fresh(LIST(OBJ('Predicate')), 'predicates')
            r = e.call(C, [xs])
            k = q(e)
            el = e.uf('el_obj_Predicate', IntSort, IntSort, IntSort)(xs.ref, k)
            rng = z3.And(k >= 0, k < e.length(xs.parts))
            h = holds(e, act(el, c.ref), t.ref)
            want = z3.ForAll([k], z3.Implies(rng, h)) if spec == 'all' else z3.Exists([k], z3.And(rng, h))
        # parts of the new predicate are predicates again
        j = q(e)
        e.assume(z3.ForAll([j, k] if False else [j], z3.And(act(j, c.ref) > 0)))
        got = e.truth(e.call(e.res(e.call(e.getattr(r, 'activate'), [c])), [t]))
        e.prove(zb(got) == want, 'activating %s activates its parts' % cls)
        frame(e, 'activation does not change the predicate')


activation('AndPredicate', 'all')
activation('OrPredicate', 'any')
activation('NotPredicate', 'not')
