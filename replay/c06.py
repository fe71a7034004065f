from base import *
from yargy import and_, or_, not_
from yargy.token import Token
from yargy.span import Span
from yargy.morph import Form, Grams
from yargy.tokenizer import MorphTokenizer, Tokenizer, TokenRule
from yargy.tagger import Tagger
from yargy.parser import Context
from yargy import predicates as P

TOKENIZER = MorphTokenizer()
MORPH = TOKENIZER.morph
TAGS = ['B', 'I', 'O', 'PER']


class Tags(Tagger):
    tags = TAGS


CONTEXT = Context(TOKENIZER, Tags())
VALUES = ['а', 'Рано', 'рано', 'РАНО', 'раНо', 'стали', 'Стали', 'учителя', 'x', 'X', 'Xy', 'XY', 'xY', 'ok', 'Ok',
          'ёж', 'Ёж', 'ЁЖ', 'ß', 'ẞ', 'İ', '-', '«', '№', '٣', '²', 'S', 's', 'M', 'ǅ', 'О', '1a', 'Вася', '\n', '_']
INTS = ['0', '1', '3', '4', '5', '007', '10', '2016', '99999999999999999999', '٣', '٠٤', '０１２', '4']
GRAMS = ['NOUN', 'VERB', 'sing', 'plur', 'Sgtm', 'Pltm', 'nomn', 'gent', 'masc', 'femn', 'Name', 'Surn']
WORDS = ['стали', 'сталь', 'стать', 'учитель', 'учителя', 'врач', 'рано', 'ранний', 'x', 'X', 'ok', '5', 'вася', 'ёж']


def form():
    return Form(RNG.choice(WORDS), Grams(set(RNG.sample(GRAMS, RNG.randrange(5)))), raw=None)


def any_token():
    if RNG.random() < .3:
        value, type = RNG.choice(INTS), 'INT'
    else:
        value = RNG.choice(VALUES)
        type = RNG.choice(['RU', 'LATIN', 'PUNCT', 'OTHER', 'EOL'])
    if RNG.random() < .3:
        value, type = RNG.choice(INTS), RNG.choice(['OTHER', 'LATIN', 'INT'])
    start = RNG.randrange(5)
    t = Token(value, Span(start, start + len(value)), type)
    kind = RNG.randrange(5)
    forms = [form() for _ in range(RNG.randrange(4))]
    # the word forms of a token are never empty unless narrowed
    if kind == 0:
        return t, None, None
    if kind == 1:
        return t.morphed(forms or [form()]), forms, None
    tag = RNG.choice(TAGS + [None, '', 'X'])
    if kind == 2:
        return t.tagged(tag), None, tag
    if kind == 3:
        f = forms or [form()]
        return t.morphed(f).tagged(tag), f, tag
    f = forms or [form()]
    return t.tagged(tag).morphed(f), f, tag


def forms_of(t):
    return getattr(t, 'forms', None)


def tag_of(t):
    return (True, t.tag) if hasattr(t, 'tag') else (False, None)


def number(t):
    return int(t.value)


def lemmas(word):
    return {r.normal_form for r in MORPH.raw.parse(word)}


def dic(t, values):
    f = forms_of(t)
    if f is not None:
        return any(x.normalized in values for x in f)
    return t.value.lower() in values


def single(f):
    return 'sing' in f.grams.values or 'Sgtm' in f.grams.values


def fn_len(v):
    return len(v) > 2


def fn_value(v):
    return v


def fn_half(v):
    return len(v) // 2


def fn_none(v):
    return v if v.isupper() else None


def fn_rest(v):
    return v[1:]


def fn_list(v):
    return [x for x in v if x in 'аx1']


def base():
    """(predicate, condition, name)"""
    k = RNG.randrange(18)
    if k == 0:
        return P.true(), lambda t: True, 'true()'
    if k == 1:
        return P.is_lower(), lambda t: t.value.islower(), 'is_lower()'
    if k == 2:
        return P.is_upper(), lambda t: t.value.isupper(), 'is_upper()'
    if k == 3:
        return P.is_title(), lambda t: t.value.istitle(), 'is_title()'
    if k == 4:
        return P.is_capitalized(), lambda t: t.value[:1].isupper(), 'is_capitalized()'
    if k == 5:
        v = RNG.choice(VALUES + INTS)
        return P.eq(v), lambda t: t.value == v, 'eq(%r)' % v
    if k == 6:
        n = RNG.randrange(6)
        return P.length_eq(n), lambda t: len(t.value) == n, 'length_eq(%d)' % n
    if k in (7, 8):
        n = RNG.choice([-1, 0, 1, 3, 4, 5, 7, 12, 2016])
        if k == 7:
            return P.gte(n), lambda t: t.type == 'INT' and number(t) >= n, 'gte(%d)' % n
        return P.lte(n), lambda t: t.type == 'INT' and number(t) <= n, 'lte(%d)' % n
    if k == 9:
        v = RNG.choice(VALUES)
        return P.caseless(v), lambda t: t.value.lower() == v.lower(), 'caseless(%r)' % v
    if k == 10:
        v = set(RNG.sample(VALUES + INTS, RNG.randrange(6)))
        return P.in_(v), lambda t: t.value in v, 'in_(%r)' % v
    if k == 11:
        v = set(RNG.sample(VALUES + INTS, RNG.randrange(6)))
        low = {x.lower() for x in v}
        return P.in_caseless(v), lambda t: t.value.lower() in low, 'in_caseless(%r)' % v
    if k == 12:
        v = RNG.choice(WORDS)
        vs = lemmas(v)
        return P.normalized(v), lambda t: dic(t, vs), 'normalized(%r)' % v
    if k == 13:
        v = set(RNG.sample(WORDS, RNG.randrange(4)))
        vs = set()
        for x in v:
            vs |= lemmas(x)
        return P.dictionary(v), lambda t: dic(t, vs), 'dictionary(%r)' % v
    if k == 14:
        g = RNG.choice(GRAMS)
        return P.gram(g), lambda t: any(g in f.grams.values for f in forms_of(t) or ()), 'gram(%r)' % g
    if k == 15:
        v = RNG.choice(['INT', 'RU', 'LATIN', 'PUNCT', 'EOL', 'OTHER'])
        return P.type(v), lambda t: t.type == v, 'type(%r)' % v
    if k == 16:
        v = RNG.choice(TAGS)
        return P.tag(v), lambda t: tag_of(t)[0] and t.tag == v, 'tag(%r)' % v
    if RNG.random() < .4:
        return P.is_single(), lambda t: any(single(f) for f in forms_of(t) or ()), 'is_single()'
    types = RNG.choice([None, 'INT', 'RU', ['INT', 'LATIN'], ('OTHER',), ['PUNCT', 'RU', 'INT'], ('LATIN', 'EOL', 'OTHER', 'RU')])
    f = RNG.choice([fn_len, fn_value, fn_half, fn_none, fn_rest, fn_list])
    ok = lambda t: True if types is None else t.type == types if isinstance(types, str) else t.type in types
    return P.custom(f, types=types), lambda t: ok(t) and bool(f(t.value)), 'custom(%s, %r)' % (f.__name__, types)


def tree(depth):
    k = RNG.random()
    if depth == 0 or k < .4:
        return base()
    if k < .55:
        p, s, n = tree(depth - 1)
        return not_(p), lambda t: not s(t), 'not_(%s)' % n
    parts = [tree(depth - 1) for _ in range(RNG.choice([1, 2, 2, 3]))]
    f, q = RNG.choice([(and_, all), (or_, any)])
    specs = [x[1] for x in parts]
    return f(*[x[0] for x in parts]), lambda t: q(s(t) for s in specs), '%s(%s)' % (
        f.__name__, ', '.join(x[2] for x in parts))


def view(t):
    f = forms_of(t)
    return (type(t).__name__, t.value, t.span.start, t.span.stop, t.type, tag_of(t),
            None if f is None else [id(x) for x in f])


def conditions():
    for _ in range(60000 if THOROUGH else 9000):
        if R.full():
            return
        p, spec, name = tree(RNG.choice([0, 0, 0, 1, 2]))
        ok, a = R.guard('activate', name, lambda: p.activate(CONTEXT))
        if not ok:
            return
        for _ in range(6):
            t, _, _ = any_token()
            before = view(t)
            ok, got = R.guard(name, (name, before), lambda: a(t))
            if not ok:
                return
            want = bool(spec(t))
            R.case((name, before), True)
            if bool(got) != want:
                R.fail(name, before, got=got, want=want)
                return
            if view(t) != before:
                R.fail(name + ' changed the token', before)
                return


def selecting():
    for _ in range(20000 if THOROUGH else 4000):
        if R.full():
            return
        t, _, _ = any_token()
        if forms_of(t) is None:
            continue
        before = view(t)
        if RNG.random() < .6:
            g = RNG.choice(GRAMS)
            p, keep, name = P.gram(g), lambda f: g in f.grams.values, 'gram(%r)' % g
        else:
            p, keep, name = P.is_single(), single, 'is_single()'
        a = p.activate(CONTEXT)
        ok, c = R.guard(name + '.constrain', (name, before), lambda: a.constrain(t))
        if not ok:
            return
        want = [id(f) for f in t.forms if keep(f)]
        R.case((name, before, 'constrain'), len(want) < len(t.forms))
        if [id(f) for f in c.forms] != want or view(c)[:6] != before[:6] or view(t) != before:
            R.fail(name + '.constrain', before, got=view(c), want=want)
            return


def real():
    """tokens as the tokenizers produce them"""
    text = 'Мама мыла раму 7 раз, в 2016 г. Ivan ПЕТРОВ стали учителя -- ok_1 test@mail.ru\nёж'
    plain, morph = list(Tokenizer()(text)), list(TOKENIZER(text))
    for _ in range(1500):
        p, spec, name = tree(2)
        a = p.activate(CONTEXT)
        for t in plain + morph:
            ok, got = R.guard(name, (name, t), lambda: a(t))
            if not ok:
                return
            R.case((name, t.value, hasattr(t, 'forms')))
            if bool(got) != bool(spec(t)):
                R.fail(name, view(t), got=got)
                return


def unions():
    """and_, or_ of predicates given as scheme: activation reaches every part"""
    for v in WORDS[:6]:
        for comb, q in ((and_, all), (or_, any)):
            parts = [P.normalized(v), P.gram('NOUN'), P.type('RU')]
            vs = lemmas(v)
            specs = [lambda t: dic(t, vs), lambda t: any('NOUN' in f.grams.values for f in forms_of(t) or ()),
                     lambda t: t.type == 'RU']
            a = comb(*parts).activate(CONTEXT)
            for w in WORDS:
                for t in TOKENIZER(w):
                    R.same(bool(a(t)), q(s(t) for s in specs), comb.__name__, (v, w))


R.rule = 'predicate and token; every one distinct by name and token'
R.bound = 'random nestings to depth 2 of the 18 predicates; tokens of all four kinds with up to 3 forms'
main(conditions, selecting, real, unions)
