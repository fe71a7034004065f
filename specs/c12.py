"""C12: normalizers compute the documented value, the same from an attribute mark and from a rule mark."""
from .lib import *

I = 'yargy.interpretation.'
TOKEN = 'yargy.token.'
SCHEMA12 = dict(SCHEMA)
FN = T('fn')


def copy_of(e, l):
    """the list of the pre-state that a list copies element by element"""
    l = e.res(l)
    if isinstance(l, ListV) and l.ref is not None:
        return l.ref
    ps = e.parts_of(l)
    if len(ps) == 1 and isinstance(ps[0], For):
        k = e.index()
        inner = e.inst_parts(ps[0].parts, ps[0].k, k)
        if len(inner) == 1 and isinstance(inner[0], Item) and inner[0].guard is True:
            v = inner[0].value
            if isinstance(v, ObjV) and not v.fresh and z3.is_app(v.ref) and v.ref.decl().name() == 'el_obj_Token' \
                    and v.ref.arg(1).eq(k):
                src = v.ref.arg(0)
                if z3.simplify(ps[0].n == e.uf('len_obj_Token', IntSort, IntSort)(src)).eq(z3.BoolVal(True)):
                    return src
    raise Unsupported('not a copy of the tokens')


def gset(e, g):
    g = e.res(g)
    return grams_term(e, g) if isinstance(g, ListV) else e.box(g)


def joined(name, *sorts):
    def f(e, a, k):
        args = [copy_of(e, a[0])]
        if name == 'join_inflected':
            args.append(gset(e, a[1]))
        return Sym(STR, e.uf(name, *([IntSort] + list(sorts) + [StrSort]))(*args))
    return f


JOIN = {TOKEN + 'join_tokens': joined('join'), TOKEN + 'join_normalized_tokens': joined('join_normalized'),
        TOKEN + 'join_inflected_tokens': joined('join_inflected', ValSort)}


def result_value(e, a, k):
    """InterpretatorResult.normalized of an arbitrary result"""
    return Sym(ANY, e.uf('result_normalized', IntSort, ValSort)(a[0].ref))


CONTRACTS = dict(JOIN)
CONTRACTS['property:InterpretatorResult.normalized'] = result_value


def apply(e, f, v):
    return Sym(ANY, e.uf('apply1', IntSort, ValSort, ValSort)(f.fn[1], e.box(v)))


# a mark: (name, steps, value on tokens, value on another result or None if refused)

def steps(e, name):
    """the marks, as calls on an attribute / on the constructors of the rule marks, and their documented value"""
    f, g = e.fresh(FN, 'f'), e.fresh(FN, 'g')
    grams = e.fresh(SET(STR), 'grams')
    v = e.fresh(ANY, 'v')
    N = lambda ts, key: Sym(STR, z3.If(key[0], e.uf('join_normalized', IntSort, StrSort)(ts.ref), key[1])) \
        if key is not None else JOIN[TOKEN + 'join_normalized_tokens'](e, [ts], {})      # noqa: E731
    NS = e.uf('join_inflected', IntSort, ValSort, StrSort)
    default = e.vlit(('grams', 'nomn', 'sing'))
    T_ = lambda ts, key: JOIN[TOKEN + 'join_tokens'](e, [ts], {})                        # noqa: E731
    table = {
        'normalized()': ([('normalized', [])], N, None),
        'inflected()': ([('inflected', [])], lambda ts, key: Sym(STR, NS(ts.ref, default)), None),
        'inflected(grams)': ([('inflected', [grams])], lambda ts, key: Sym(STR, NS(ts.ref, gset(e, grams))), None),
        'const(v)': ([('const', [v])], lambda ts, key: v, lambda r: v),
        'custom(f)': ([('custom', [f])], lambda ts, key: apply(e, f, T_(ts, key)), lambda r: apply(e, f, r)),
        'custom(f).custom(g)': ([('custom', [f]), ('custom', [g])],
                                lambda ts, key: apply(e, g, apply(e, f, T_(ts, key))),
                                lambda r: apply(e, g, apply(e, f, r))),
        'normalized().custom(f)': ([('normalized', []), ('custom', [f])],
                                   lambda ts, key: apply(e, f, N(ts, key)), None),
        'inflected(grams).custom(f)': ([('inflected', [grams]), ('custom', [f])],
                                       lambda ts, key: apply(e, f, Sym(STR, NS(ts.ref, gset(e, grams)))), None),
        'inflected().custom(f)': ([('inflected', []), ('custom', [f])],
                                  lambda ts, key: apply(e, f, Sym(STR, NS(ts.ref, default))), None),
    }
    return table[name]


MARKS = ['normalized()', 'inflected()', 'inflected(grams)', 'const(v)', 'custom(f)', 'custom(f).custom(g)',
         'normalized().custom(f)', 'inflected(grams).custom(f)', 'inflected().custom(f)']
CLASSES = ['NormalizedNormalizer', 'InflectedNormalizer', 'ConstNormalizer', 'FunctionNormalizer',
           'FunctionFunctionNormalizer', 'MorphFunctionNormalizer']
FNS = [I + 'normalizer.%s.__call__' % c for c in CLASSES] + [
    I + 'interpretator.NormalizerInterpretator.__call__',
    I + 'interpretator.AttributeNormalizerInterpretator.__call__',
    I + 'interpretator.prepare_attribute_interpretator', I + 'interpretator.prepare_rule_interpretator',
    I + 'interpretator.prepare_token_interpretator', I + 'attribute.Attribute', I + 'attribute.InflectedAttribute',
    I + 'attribute.NormalizedAttribute', I + 'attribute.FunctionAttribute', I + 'attribute.ConstAttribute']


def make_attribute(e):
    F = e.call(e.w.get(I + 'fact.fact'), ['F', e.new_list([Item('x')])])
    return e.res(e.getattr(F, 'x'))


def interpretators(e, name):
    """the interpretator of the mark on the attribute, and on the rule (by both ways to attach it)"""
    st, value, other = steps(e, name)
    attr = make_attribute(e)
    a = attr
    for m, args in st:
        a = e.res(e.call(e.getattr(a, m), args))
    r = e.res(e.call(e.w.get(I + st[0][0]), st[0][1]))
    for m, args in st[1:]:
        r = e.res(e.call(e.getattr(r, m), args))
    on_attr = [e.res(e.call(e.w.get(I + 'interpretator.' + p), [a]))
               for p in ('prepare_rule_interpretator', 'prepare_token_interpretator')]
    on_rule = [e.res(e.call(e.w.get(I + 'interpretator.' + p), [r]))
               for p in ('prepare_rule_interpretator', 'prepare_token_interpretator')]
    return attr, on_attr, on_rule, value, other


def give(e, items, key=NotImpl):
    i = e.res(e.call(e.w.get(I + 'interpretator.InterpretatorInput'), [items]))
    if key is not NotImpl:
        e.setattr(i, 'key', key)
    return i


def final(e, r):
    """the value the fact gets from this result"""
    return get(e, r, 'normalized')


def same_value(e, got, want, label):
    got = e.res(got)
    if want is None:
        return
    e.prove(e.box(got) == e.box(want), label)


def on_tokens(name, keyed):
    @unit('C12', '%s on words%s' % (name, ' of a pipeline line' if keyed else ''), FNS, schema=SCHEMA12,
          contracts=JOIN, budget=120)
    def u(e):
        attr, on_attr, on_rule, value, _ = interpretators(e, name)
        ts = e.fresh(LIST(OBJ('Token')), 'tokens')
        key, kt = NotImpl, None
        if keyed:
            key = e.fresh(STR, 'key')
            kt = (key.e == e.lit(''), key.e)            # no line is empty
            e.assume(z3.Not(kt[0]))
        want = value(ts, kt)
        for ip in on_attr:
            r = e.res(e.call(ip, [give(e, ts, key)]))
            e.prove(is_cls(e, r, 'AttributeResult'), 'the value goes to an attribute')
            e.prove(zb(e.ident(get(e, r, 'attribute'), attr)), 'to the marked attribute')
            same_value(e, final(e, r), want, 'documented value of the mark on an attribute')
        for ip in on_rule:
            r = e.res(e.call(ip, [give(e, ts, key)]))
            e.prove(z3.Not(is_cls(e, r, 'AttributeResult')), 'the value is not of an attribute')
            same_value(e, final(e, r), want, 'documented value of the mark on a rule')
        frame(e)


def on_result(name):
    @unit('C12', '%s on a marked part' % name, FNS, schema=SCHEMA12, contracts=CONTRACTS, budget=120)
    def u(e):
        attr, on_attr, on_rule, _, other = interpretators(e, name)
        part = e.fresh(OBJ('InterpretatorResult'), 'part')
        part.cands = tuple(c for c in part.cands if c.name != 'InterpretatorResult')
        want = other(result_value(e, [part], {}))
        for ip in on_attr + on_rule:
            r = e.res(e.call(ip, [give(e, e.new_list([Item(part)]))]))
            same_value(e, final(e, r), want, 'documented value of the mark')
        frame(e)


for m in MARKS:
    on_tokens(m, False)
    on_tokens(m, True)
for m in ('const(v)', 'custom(f)', 'custom(f).custom(g)'):
    on_result(m)


# --- without a mark -------------------------------------------------------------

@unit('C12', 'no mark: the text', [I + 'interpretator.AttributeInterpretator.__call__',
                                   I + 'interpretator.Chain.normalized'], schema=SCHEMA12, contracts=JOIN)
def plain(e):
    attr = make_attribute(e)
    ts = e.fresh(LIST(OBJ('Token')), 'tokens')
    key = e.fresh(OPT(STR), 'key')
    for p in ('prepare_rule_interpretator', 'prepare_token_interpretator'):
        ip = e.res(e.call(e.w.get(I + 'interpretator.' + p), [attr]))
        r = e.res(e.call(ip, [give(e, ts, key)]))
        e.prove(zb(e.ident(get(e, r, 'attribute'), attr)), 'to the marked attribute')
        same_value(e, final(e, r), JOIN[TOKEN + 'join_tokens'](e, [ts], {}), 'the text of the part')
    frame(e)


def passed_on(cls):
    @unit('C12', 'no mark, on a part that is a ' + cls, [I + 'interpretator.AttributeInterpretator.__call__'],
          schema=merged(SCHEMA12, {('AttributeResult', 'value'): OBJ('Chain', 'NormalizerResult', 'FactResult'),
                                   ('AttributeResult', 'attribute'): OBJ('AttributeBase')}), contracts=CONTRACTS)
    def u(e):
        attr = make_attribute(e)
        part = e.fresh(OBJ(cls), 'part')
        ip = e.res(e.call(e.w.get(I + 'interpretator.prepare_rule_interpretator'), [attr]))
        r = e.res(e.call(ip, [give(e, e.new_list([Item(part)]))]))
        e.prove(zb(e.ident(get(e, r, 'attribute'), attr)), 'to the marked attribute')
        want = get(e, part, 'value') if cls == 'AttributeResult' else part
        e.prove(zb(e.ident(get(e, r, 'value'), want)), 'the value of the part is passed on')


for c in ('AttributeResult', 'NormalizerResult', 'FactResult'):
    passed_on(c)


# --- inflection --------------------------------------------------------------

def inflection(default):
    @unit('C12', 'inflection of a form' + (' by default' if default else ''), ['yargy.morph.Form.inflect'],
          schema=SCHEMA)
    def u(e):
        f = e.fresh(OBJ('Form'), 'form')
        e.allow('raw_inflect', 'raw_inflect_none', 'raw_word')
        grams = e.fresh(SET(STR), 'grams')
        r = e.call(e.getattr(f, 'inflect'), [] if default else [grams])
        g = e.vlit(('grams', 'nomn', 'sing')) if default else grams_term(e, grams)
        raw = get(e, f, 'raw').ref
        none = e.uf('raw_inflect_none', IntSort, ValSort, BoolSort)(raw, g)
        word = e.uf('raw_word', IntSort, StrSort)(e.uf('raw_inflect', IntSort, ValSort, IntSort)(raw, g))
        e.prove(e.term(r) == z3.If(none, e.term(get(e, f, 'normalized')), word),
                'the inflected word, or the normal form if it cannot be inflected')
        frame(e)


inflection(False)
inflection(True)


# the words of a text: joined, normalized and inflected one by one
share('C12', 'C10', 'join_', 'normalize_token', 'inflect_token', 'normalized of')
