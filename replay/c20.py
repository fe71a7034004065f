"""C20: annotations of tokens, taggers, the morphological tokenizer."""
from base import *
from yargy.token import Token
from yargy.span import Span
from yargy.morph import Form, Grams, MorphAnalyzer
from yargy.tagger import Tagger, PassTagger, TaggersComposition
from yargy.tokenizer import Tokenizer, MorphTokenizer, TokenRule, RULES


def form():
    return Form(RNG.choice('абв'), Grams(set(RNG.sample(['NOUN', 'sing', 'plur', 'masc'], RNG.randrange(3)))))


MISSING = object()


def state(t):
    return (t.value, t.span, t.type,
            t.forms if hasattr(t, 'forms') else MISSING, t.tag if hasattr(t, 'tag') else MISSING)


def same(a, b):
    return all(x is y or x == y for x, y in zip(a, b))


def annotations():
    for i in range(20000 if THOROUGH else 3000):
        if R.full():
            return
        value = RNG.choice(['стали', 'x', '5', ''])
        t = Token(value, Span(3, 3 + len(value)), RNG.choice(['RU', 'INT', 'X']))
        want = list(state(t))
        steps = []
        for _ in range(RNG.randrange(1, 6)):
            forms, tag = [form() for _ in range(RNG.randrange(3))], RNG.choice(['B', 'I', None, '', 0])
            kind = RNG.randrange(3)
            can = not (kind == 0 and want[3] is not MISSING or kind == 1 and want[4] is not MISSING
                       or kind == 2 and want[3] is MISSING)
            if not can:
                continue
            before, copy = state(t), (list(t.forms) if hasattr(t, 'forms') else None)
            steps.append((['morphed', 'tagged', 'constrained'][kind], forms if kind != 1 else tag))
            case = (value, steps)
            if kind == 0:
                ok, new = R.guard('morphed', case, t.morphed, forms)
                want[3] = forms
            elif kind == 1:
                ok, new = R.guard('tagged', case, t.tagged, tag)
                want[4] = tag
            else:
                ok, new = R.guard('constrained', case, t.constrained, forms)
                want[3] = forms
            if not ok:
                break
            R.case(case)
            R.check(same(state(new), want), 'annotation lost or changed', case, got=state(new), want=want)
            R.check(same(state(t), before) and (copy is None or t.forms == copy),
                    'the original token changed', case, got=state(t), want=before)
            R.check(new is not t, 'annotating returned the token itself', case)
            t = new


class Mark(Tagger):
    def __init__(self, name, tags):
        self.name, self.tags = name, tags

    def __call__(self, tokens):
        for t in tokens:
            yield Token(t.value + self.name, t.span, t.type)


class Drop(Tagger):
    def __init__(self, n, tags):
        self.n, self.tags = n, tags

    def __call__(self, tokens):
        for i, t in enumerate(tokens):
            if i % 2 == self.n:
                yield t


class Known(Tagger):
    """a tagger with its own idea of what it knows"""
    def __init__(self, f):
        self.f = f

    def __call__(self, tokens):
        return tokens

    def check_tag(self, tag):
        return self.f(tag)


def apply(tagger, values):
    if isinstance(tagger, Mark):
        return [v + tagger.name for v in values]
    if isinstance(tagger, Drop):
        return [v for i, v in enumerate(values) if i % 2 == tagger.n]
    if isinstance(tagger, TaggersComposition):
        for x in tagger.parts:
            values = apply(x, values)
    return values


def knows(tagger, tag):
    if isinstance(tagger, TaggersComposition):
        return any(knows(x, tag) for x in tagger.parts)
    if isinstance(tagger, Known):
        return bool(tagger.f(tag))
    return tag in getattr(tagger, 'tags', [])


def tagger(depth):
    k = RNG.randrange(5 if depth else 4)
    tags = RNG.sample(['B', 'I', 'O', '', None], RNG.randrange(3))
    if k == 0:
        return Mark(RNG.choice('xyz'), tags)
    if k == 1:
        return Drop(RNG.randrange(2), tags)
    if k == 2:
        return PassTagger()
    if k == 3:
        return Known(RNG.choice([lambda t: t == 'Q', lambda t: False, lambda t: t in ('B', 'Z')]))
    parts = [tagger(depth - 1) for _ in range(RNG.randrange(4))]
    c = TaggersComposition(parts)
    c.parts = parts
    return c


def show(t):
    if isinstance(t, TaggersComposition):
        return [show(x) for x in t.parts]
    return type(t).__name__, getattr(t, 'name', getattr(t, 'n', None)), getattr(t, 'tags', None)


def taggers():
    for i in range(20000 if THOROUGH else 3000):
        if R.full() or R.left(.5) < 0:
            return
        tokens = [Token(RNG.choice('abc'), Span(j, j + 1), 'T') for j in range(RNG.randrange(6))]
        values = [t.value for t in tokens]
        c = tagger(2)
        case = (show(c), values)
        ok, got = R.guard('tagger', case, lambda: list(c(iter(tokens) if RNG.random() < .5 else tokens)))
        if ok:
            R.same([t.value for t in got], apply(c, values), 'tagged tokens', case)
            if isinstance(c, PassTagger):
                R.check(len(got) == len(tokens) and all(a is b for a, b in zip(got, tokens)),
                        'PassTagger changed the tokens', case)
        for tag in ['B', 'I', 'O', 'Q', 'Z', '', None, 'X']:
            ok, k = R.guard('check_tag', (case, tag), c.check_tag, tag)
            if ok:
                R.same(bool(k), knows(c, tag), 'known tag', (case, tag))


CHARS = ['стали', 'Вася', ' ', ' ', '\n', '-', 'abc', 'X', '12', '5', 'ёж', '№', '€', '·', '\u0301', '\t', 'ß', 'і',
         'a@b.ru', '+7 999', '"']


class Source(object):
    def __call__(self, word):
        if word[:1].isupper():
            return []
        return [Form(word.lower(), Grams({'NOUN'})), Form(word + '!', Grams(set()))]


def tokenizers():
    real = MorphAnalyzer()
    for i in range(20000 if THOROUGH else 1200):
        if R.full() or R.left() < 0:
            return
        rules = list(RULES)
        if RNG.random() < .4:
            rules = RNG.sample(rules, RNG.randrange(1, len(rules)))
        if RNG.random() < .3:
            rules = [TokenRule(RNG.choice(['RU', 'NEW', 'LATIN']), RNG.choice(['сте?', r'[ab]', r'\d\d']))] + rules
        morph = Source() if RNG.random() < .8 else real
        text = ''.join(RNG.choice(CHARS) for _ in range(RNG.randrange(9)))
        case = (text, [tuple(r) for r in rules])
        ok, pair = R.guard('tokenizer', case, lambda: (list(Tokenizer(rules)(text)),
                                                       list(MorphTokenizer(rules, morph=morph)(text))))
        if not ok:
            continue
        plain, full = pair
        R.same([(t.value, tuple(t.span), t.type) for t in full], [(t.value, tuple(t.span), t.type) for t in plain],
               'segmentation', case)
        for t in full:
            if t.type == 'RU':
                R.check(hasattr(t, 'forms') and [(f.normalized, set(f.grams.values)) for f in t.forms]
                        == [(f.normalized, set(f.grams.values)) for f in morph(t.value)],
                        'word forms of a Russian word', (case, t.value))
            else:
                R.check(not hasattr(t, 'forms'), 'word forms on a token that is no Russian word', (case, t.value))
        R.check(not any(hasattr(t, 'forms') or hasattr(t, 'tag') for t in plain), 'plain tokens annotated', case)


R.rule = 'a token with a sequence of annotations, a composition of taggers with tokens and tags, or a text with rules'
R.bound = 'up to 5 annotations, nested compositions up to 3 levels, texts of up to 8 pieces'
main(annotations, taggers, tokenizers)
