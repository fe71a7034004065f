from base import *
from gram import limited, attempt, index_range
from yargy import Parser, rule, or_, forward
from yargy.predicates import eq, caseless, normalized as normalized_, type as type_, in_
from yargy.pipelines import pipeline, caseless_pipeline, morph_pipeline
from yargy.interpretation import fact, attribute, normalized
from yargy.tokenizer import Tokenizer, MorphTokenizer, TokenRule
from yargy.morph import MorphAnalyzer

MORPH = MorphTokenizer()
PLAIN = Tokenizer()


class Choosy(MorphTokenizer):
    """a word in one place has some of its forms, in another place others"""

    def __call__(self, text):
        for i, t in enumerate(MorphTokenizer.__call__(self, text)):
            forms = getattr(t, 'forms', None)
            if forms and len(forms) > 1 and i % 3:
                t = t.constrained([f for k, f in enumerate(forms) if f.normalized == forms[(i * 5 + len(text)) % len(forms)].normalized])
            yield t


CHOOSY = Choosy(morph=MORPH.morph)


class Backwards(MorphAnalyzer):
    """another dictionary"""

    def normalized(self, word):
        return {word[::-1]}


LETTERS = MorphTokenizer([TokenRule('L', r'\S')], morph=Backwards(MORPH.morph.raw))
RAW = MORPH.morph.raw
F = fact('F', ['a', attribute('b').repeatable()])
VOCAB = ['стали', 'сталь', 'стать', 'стал', 'мыла', 'мыло', 'мыть', 'учитель', 'учителя', 'УЧИТЕЛЯМ', 'Дома', 'дом',
         'дома', 'ДОМ', 'и', 'не', 'abc', 'Abc', 'ABC', '12', '-', 'ёж', 'Ежи', 'замок', 'замка', 'суда', 'судно', 'суд', '.', 'г',
         'ß', 'ẞ', 'ſ', 'İ', 'ǆ', 'ς', 'Σ', 'µ', 'книги', 'люди', 'человек', 'шла', 'идти', 'Й', '№', 'пали', 'пасть', 'паль', 'палить', 'дали', 'дать', 'даль']
LEMMAS = {}


def lemmas(w, tok=MORPH):
    if w not in LEMMAS:
        LEMMAS[w] = {r.normal_form for r in RAW.parse(w)}
    return LEMMAS[w]


def accepts(kind, t, word):
    """does the token stand for the word of a line"""
    if kind == 'eq':
        return t.value == word
    if kind == 'caseless':
        return t.value.lower() == word.lower()
    if hasattr(t, 'forms'):
        return bool({f.normalized for f in t.forms} & lemmas(word))
    return t.value.lower() in lemmas(word)


def lines_at(kind, lines, ts, i, j):
    return [n for n, l in enumerate(lines)
            if len(l) == j - i and all(accepts(kind, t, w) for t, w in zip(ts[i:j], l))]


MAKERS = [('eq', pipeline, PLAIN), ('eq', pipeline, MORPH), ('caseless', caseless_pipeline, PLAIN),
          ('caseless', caseless_pipeline, MORPH), ('morph', morph_pipeline, MORPH), ('morph', morph_pipeline, MORPH),
          ('morph', morph_pipeline, CHOOSY)]


def alternatives(kind, lines):
    p = {'eq': eq, 'caseless': caseless, 'morph': normalized_}[kind]
    return or_(*[rule(*[p(w) for w in l]) for l in lines])


def random_lines(tok):
    vocab = RNG.sample(VOCAB, RNG.choice([3, 5, 8]))
    lines = []
    for _ in range(RNG.choice([1, 2, 3, 4, 6])):
        raw = ' '.join(RNG.choice(vocab) for _ in range(RNG.choice([1, 1, 2, 2, 3, 3, 4] if RNG.random() < .95 else [8, 9, 12])))
        if RNG.random() < .1:
            raw = raw.replace(' ', '  ')
        if RNG.random() < .1:
            raw = RNG.choice([' %s', '%s ', '\t%s', ' %s  ', '%s\xa0']) % raw
        words = tok.split(raw)
        lines.append((raw, words))
    if RNG.random() < .3:
        lines.append(RNG.choice(lines))
    if RNG.random() < .05:
        # many lines of one first word
        for w in VOCAB:
            raw = vocab[0] + ' ' + w
            lines.append((raw, tok.split(raw)))
    return vocab, lines


def word(vocab, lines):
    k = RNG.random()
    if k < .6:
        ws = list(RNG.choice(lines)[1])
    else:
        ws = [RNG.choice(vocab + VOCAB)]
    if RNG.random() < .4:
        ws = [RNG.choice([w.upper(), w.lower(), w.title()]) for w in ws]
    return ws


def single():
    end = time.time() + R.left(.55)
    while time.time() < end and not R.full():
        kind, mk, tok = RNG.choice(MAKERS)
        vocab, pairs = random_lines(tok)
        raws, lines = [p[0] for p in pairs], [p[1] for p in pairs]
        gaz = mk(raws)
        if RNG.random() < .3:
            # used with another tokenizer before
            R.guard('Parser', raws, lambda: Parser(rule(gaz), tokenizer=LETTERS))
        shape = RNG.choice(['plain', 'twice', 'part', 'attr', 'norm', 'named'])
        if shape == 'plain':
            r = gaz.interpretation(F.a.normalized()).interpretation(F)
        elif shape == 'attr':
            r = rule(gaz.interpretation(F.a.normalized())).interpretation(F)
        elif shape == 'norm':
            r = gaz.interpretation(normalized()).interpretation(F.a).interpretation(F)
        elif shape == 'named':
            r = gaz.named('X').interpretation(F.a.normalized()).interpretation(F)
        else:
            r = or_(rule(gaz.interpretation(F.b.normalized()) if False else gaz.interpretation(F.a.normalized())),
                    rule(gaz.interpretation(F.a.normalized()), '!')).interpretation(F)
        ok, ps = R.guard('Parser', raws, lambda: (Parser(r, tokenizer=tok), Parser(alternatives(kind, lines), tokenizer=tok)))
        if not ok:
            return
        parser, other = ps
        for _ in range(4):
            words = []
            while len(words) < 6 and RNG.random() < .75 or not words:
                words.extend(word(vocab, pairs))
            text = ' '.join(words)
            ts = list(tok(text))
            starts = {t.span.start: i for i, t in enumerate(ts)}
            case = (kind, raws, shape, text)
            want = {}
            for i in range(len(ts)):
                for j in range(i + 1, len(ts) + 1):
                    hit = lines_at(kind, lines, ts, i, j)
                    if hit:
                        want[i, j] = hit
            ok, found = R.guard('extract', case, lambda: list(parser.extract(text)))
            if not ok:
                return
            R.case(case, len(want) > 1)
            got = {index_range(m, starts) for m in found}
            if got != set(want):
                R.fail('runs matched by the pipeline', case, extra=sorted(got - set(want)), missing=sorted(set(want) - got))
                break
            ok, alt = R.guard('extract', case, lambda: {index_range(m, starts) for m in other.extract(text)})
            if ok and alt != got:
                R.fail('pipeline and alternatives of the same lines differ', case, pipeline=sorted(got), rule=sorted(alt))
                break
            ok, found = R.guard('findall', case, lambda: [(index_range(m, starts), m.fact.a) for m in parser.findall(text)])
            if not ok:
                return
            for at, value in found:
                if value != raws[want[at][0]]:
                    R.fail('the earliest line is not the key', case, run=at, got=value, want=raws[want[at][0]])
            if (0, len(ts)) in want:
                ok, m = R.guard('match', case, lambda: parser.match(text))
                if ok and (m is None or m.fact.a != raws[want[0, len(ts)][0]]):
                    R.fail('match of a line', case, got=m and m.fact)


def several():
    """one pipeline in several places, and two pipelines in one grammar"""
    end = time.time() + R.left(.7)
    while time.time() < end and not R.full():
        kind, mk, tok = RNG.choice(MAKERS)
        vocab, pairs = random_lines(tok)
        raws, lines = [p[0] for p in pairs], [p[1] for p in pairs]
        gaz = mk(raws)
        marked = gaz.interpretation(F.b.normalized()) if hasattr(F.b, 'normalized') else gaz.interpretation(
            normalized()).interpretation(F.b)
        k = RNG.choice([2, 2, 3])
        if RNG.random() < .5:
            parts = [marked] * k
        else:
            parts = [gaz.interpretation(normalized()).interpretation(F.b) for _ in range(k)]
        r = rule(*parts).interpretation(F)
        ok, parser = R.guard('Parser', raws, lambda: Parser(r, tokenizer=tok))
        if not ok:
            return
        for _ in range(4):
            words = []
            for _ in range(k):
                words.extend(RNG.choice(pairs)[1])
            if RNG.random() < .5:
                words = [RNG.choice([w, w.upper(), w.lower()]) for w in words]
            text = ' '.join(words)
            ts = list(tok(text))
            n = len(ts)
            case = (kind, raws, k, text)
            ways = {(): 0}

            def split(i, left):
                if left == 0:
                    return [()] if i == n else []
                out = []
                for j in range(i + 1, n + 1):
                    hit = lines_at(kind, lines, ts, i, j)
                    if hit:
                        out += [(hit[0],) + rest for rest in split(j, left - 1)]
                return out
            want = [[raws[x] for x in way] for way in split(0, k)]
            ok, m = R.guard('match', case, lambda: parser.match(text))
            if not ok:
                return
            R.case(case, bool(want))
            if (m is None) != (not want):
                R.fail('a row of lines', case, got=m, want=want)
                break
            if m is not None:
                ok, got = R.guard('fact', case, lambda: m.fact.b)
                if ok and got not in want:
                    R.fail('keys of a row of lines', case, got=got, want=want)


def inside():
    """a pipeline inside a phrase: lines that share the first word"""
    lines = ['закон', 'закон о', 'закон о суде', 'суд', 'суд', 'Суде']
    for kind, mk, tok in MAKERS:
        g = mk(lines)
        A, B = fact('A', ['x']), fact('B', ['y', 'z'])
        for r, get in [
                (rule(g.interpretation(B.y.normalized()), type_('RU').interpretation(B.z)).interpretation(B), lambda f: (f.y, f.z)),
                (rule(type_('RU').interpretation(B.z), g.interpretation(B.y.normalized())).interpretation(B), lambda f: (f.y, f.z))]:
            parser = Parser(r, tokenizer=tok)
            for text in ['закон о мире', 'закон о суде мира', 'закон мира', 'мир закон о', 'а суд', 'мир Закон О Суде', 'суда мир']:
                ts = list(tok(text))
                n = len(ts)
                words = [tok.split(l) for l in lines]
                first = get is not None and str(r).find('z') >= 0
                before = r.rule.productions[0].terms[0] is not None and 'Pipeline' in repr(r.rule.productions[0].terms[0])
                a, b = (0, n - 1) if before else (1, n)
                hit = lines_at(kind, words, ts, a, b) if b > a else []
                one = ts[n - 1 if before else 0]
                ok, m = R.guard('match', (kind, text), lambda: parser.match(text))
                if not ok:
                    return
                R.case((kind, text, before))
                want = bool(hit) and one.type == 'RU'
                if (m is not None) != want:
                    R.fail('a line inside a phrase', (kind, text, before), got=m, want=hit)
                elif m is not None:
                    R.same(get(m.fact), (lines[hit[0]], one.value), 'key of a line inside a phrase', (kind, text))


R.rule = 'pipeline, use and text; non-trivial: several runs match'
R.bound = 'up to 7 lines of up to 3 words, texts of about 8 words; one to three uses of a pipeline in a grammar'
main(single, several, inside)
