from base import *
from yargy import Parser, rule, or_
from yargy.predicates import true
from yargy.pipelines import morph_pipeline, caseless_pipeline, pipeline
from yargy.interpretation import fact, attribute, normalized, inflected, const, custom
from yargy.tokenizer import Tokenizer, MorphTokenizer

F = fact('F', ['a', 'b'])
MORPH = MorphTokenizer()
PLAIN = Tokenizer()
RAW = MORPH.morph.raw
GRAMS = [{'nomn', 'sing'}, {'gent'}, {'datv', 'plur'}, {'femn'}, {'accs', 'sing', 'masc'}, {'VERB'}, set()]
WORDS = ['мама', 'Мыла', 'стали', 'учителя', 'X', 'Ivan', '12', '-', 'красивую', 'дома', 'ножницы', 'Московской',
         'области', 'пальто', 'мною', 'бегущего', 'Ы', 'ёж', 'президентам', 'и', 'варкалось', 'супругами', 'ПЕТРОВЫМ']


def join(tokens, word):
    out = ''
    for i, t in enumerate(tokens):
        if i and t.span.start > tokens[i - 1].span.stop:
            out += ' '
        out += word(t)
    return out


def is_ru(t):
    return hasattr(t, 'forms')


def lemma(t):
    return RAW.parse(t.value)[0].normal_form if is_ru(t) else t.value.lower()


def inflect(t, grams):
    if not is_ru(t):
        return t.value.lower()
    p = RAW.parse(t.value)[0]
    r = p.inflect(grams)
    return r.word if r else p.normal_form


def f1(v):
    return '<%s>' % (v,)


def f2(v):
    return [v, v]


def f3(v):
    return str(v)[::-1]


def f4(v):
    """a value that counts as false"""
    return 0 if len(str(v)) % 2 else ''


def f5(v):
    return None if len(str(v)) % 3 else []


FUNCTIONS = [f1, f2, f3, f4, f5]


def marks():
    """(steps, value on tokens, attribute mark, rule mark)"""
    out = []
    out.append(('text', lambda ts, key: join(ts, lambda t: t.value), lambda a: a, None))
    out.append(('normalized', lambda ts, key: key or join(ts, lemma), lambda a: a.normalized(), lambda: normalized()))
    out.append(('inflected()', lambda ts, key: join(ts, lambda t: inflect(t, {'nomn', 'sing'})),
                lambda a: a.inflected(), lambda: inflected()))
    for g in GRAMS:
        out.append(('inflected(%s)' % sorted(g), lambda ts, key, g=g: join(ts, lambda t: inflect(t, g)),
                    lambda a, g=g: a.inflected(g), lambda g=g: inflected(g)))
    for v in (1, 'x', None, 0, (1, 2)):
        out.append(('const(%r)' % (v,), lambda ts, key, v=v: v, lambda a, v=v: a.const(v), lambda v=v: const(v)))
    base = list(out)
    for name, value, am, rm in base[:3] + base[3:6]:
        for f in FUNCTIONS:
            out.append((name + '.custom(%s)' % f.__name__, lambda ts, key, value=value, f=f: f(value(ts, key)),
                        lambda a, am=am, f=f: am(a).custom(f),
                        (lambda rm=rm, f=f: (rm().custom(f))) if rm else (lambda f=f: custom(f))))
    text = base[0][1]
    for f in FUNCTIONS:
        for g in FUNCTIONS:
            out.append(('custom(%s).custom(%s)' % (f.__name__, g.__name__),
                        lambda ts, key, f=f, g=g: g(f(text(ts, key))),
                        lambda a, f=f, g=g: a.custom(f).custom(g), lambda f=f, g=g: custom(f).custom(g)))
    return out


def random_text():
    n = RNG.choice([1, 1, 2, 3, 3] if RNG.random() < .95 else [9, 12, 16])
    return ''.join(RNG.choice(WORDS) + (RNG.choice(['', ' ', ' ', '  ']) if i < n - 1 else '') for i in range(n))


def values():
    texts = [random_text() for _ in range(60 if not THOROUGH else 600)] + WORDS
    for name, value, am, rm in marks():
        for tok in (MORPH, PLAIN):
            run = true().repeatable()
            ps = [('attribute', Parser(run.interpretation(am(F.a)).interpretation(F), tokenizer=tok))]
            if rm:
                ps.append(('rule', Parser(run.interpretation(rm()).interpretation(F.a).interpretation(F), tokenizer=tok)))
                ps.append(('bare rule', Parser(run.interpretation(rm()), tokenizer=tok)))
            ps.append(('token', Parser(true().interpretation(am(F.a)).repeatable(max=1).interpretation(F), tokenizer=tok)))
            for text in RNG.sample(texts, 14):
                ts = list(tok(text))
                for where, parser in ps:
                    if R.full():
                        return
                    if where == 'token' and len(ts) != 1:
                        continue
                    ok, m = R.guard('match', text, lambda: parser.match(text))
                    if not ok or m is None:
                        R.check(m is not None, 'match', text)
                        return
                    ok, got = R.guard('fact', (name, where, text), lambda: m.fact)
                    if not ok:
                        return
                    got = got if where == 'bare rule' else got.a
                    want = value(ts, None)
                    R.case((name, where, text, tok is MORPH), True)
                    if got != want:
                        R.fail('%s on the %s' % (name, where), text, got=got, want=want)


def nested():
    """marks on marks: outer over inner, in the order written"""
    for _ in range(300 if not THOROUGH else 3000):
        if R.full():
            return
        fs = [RNG.choice(FUNCTIONS) for _ in range(RNG.choice([1, 2, 3]))]
        inner = RNG.choice([None, 'normalized', 'inflected', 'const'])
        run = true().repeatable()
        r = run
        value = lambda ts: join(ts, lambda t: t.value)
        if inner == 'normalized':
            r, value = r.interpretation(normalized()), lambda ts: join(ts, lemma)
        elif inner == 'inflected':
            r, value = r.interpretation(inflected({'gent'})), lambda ts: join(ts, lambda t: inflect(t, {'gent'}))
        elif inner == 'const':
            r, value = r.interpretation(const('c')), lambda ts: 'c'
        for f in fs:
            r = r.interpretation(custom(f))
        last = RNG.choice([None, f1, f2, f4])
        r = r.interpretation(F.a.custom(last) if last else F.a).interpretation(F)
        parser = Parser(r, tokenizer=MORPH)
        text = random_text()
        ts = list(MORPH(text))
        want = value(ts)
        for f in fs + ([last] if last else []):
            want = f(want)
        ok, got = R.guard('fact', (inner, [f.__name__ for f in fs], text), lambda: parser.match(text).fact.a)
        if not ok:
            return
        R.case((inner, [f.__name__ for f in fs], last and last.__name__, text))
        if got != want:
            R.fail('marks on marks', (inner, [f.__name__ for f in fs], text), got=got, want=want)


def keys():
    """a gazetteer match is normalized to its line"""
    lines = ['Московская область', 'ПЕТРОВ', 'учитель', 'ёж']
    for mk, texts in ((morph_pipeline, ['московской области', 'Петрову', 'учителями', 'ежи']),
                      (caseless_pipeline, ['МОСКОВСКАЯ ОБЛАСТЬ', 'петров', 'Учитель', 'ЁЖ']),
                      (pipeline, lines)):
        for name, value, am, rm in marks():
            if 'inflected' in name:
                continue
            P = mk(lines)
            ps = [Parser(P.interpretation(am(F.a)).interpretation(F), tokenizer=MORPH)]
            if rm:
                ps.append(Parser(P.interpretation(rm()).interpretation(F.a).interpretation(F), tokenizer=MORPH))
            for line, text in zip(lines, texts):
                for parser in ps:
                    m = parser.match(text)
                    if m is None:
                        continue
                    ok, got = R.guard('fact', (name, text), lambda: m.fact.a)
                    if not ok:
                        return
                    R.case((mk.__name__, name, text))
                    want = value(list(MORPH(text)), line)
                    if got != want:
                        R.fail('%s of a gazetteer match' % name, text, got=got, want=want)


R.rule = 'mark, place of the mark and text; all distinct'
R.bound = 'every mark alone and with one or two functions, on the attribute, the rule and the token; texts of up to 3 words'
main(values, nested, keys)
