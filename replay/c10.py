from base import *
from yargy import Parser, rule
from yargy.predicates import true
from yargy.interpretation import fact, attribute, normalized, inflected
from yargy.tokenizer import Tokenizer, MorphTokenizer
from yargy.token import Token, join_tokens, join_normalized_tokens, join_inflected_tokens, get_tokens_span
from yargy.span import Span
from yargy.morph import Form, Grams

WORDS = ['мама', 'Мыла', 'стали', 'учителя', 'X', 'Ivan', '12', '007', '-', '«', '»', '.', ',', '№', '\n', 'ok', '_', '§',
         'красивую', 'дома', '\n\n']
GAPS = ['', '', ' ', '  ', '\t', '   \t', '\xa0']
F = fact('F', ['a', 'b', 'c', 'd', 'n'])
MORPH = MorphTokenizer()
PLAIN = Tokenizer()
RAW = MORPH.morph.raw


def join(tokens, word):
    out = ''
    for i, t in enumerate(tokens):
        if i and t.span.start > tokens[i - 1].span.stop:
            out += ' '
        out += word(t)
    return out


def lemma(t):
    f = getattr(t, 'forms', None)
    return f[0].normalized if f else t.value.lower()


def inflect(t, grams):
    f = getattr(t, 'forms', None)
    if not f:
        return t.value.lower()
    r = RAW.parse(t.value)[0].inflect(set(grams))
    return r.word if r else f[0].normalized


def texts():
    """marked runs of real text"""
    run = true().repeatable()
    parsers = []
    for tok in (MORPH, PLAIN):
        for mark, word in [(F.a, lambda t: t.value), (F.a.normalized(), lemma),
                           (F.a.inflected({'gent'}), lambda t: inflect(t, {'gent'})),
                           (F.a.inflected(), lambda t: inflect(t, {'nomn', 'sing'})),
                           (F.a.inflected({'accs', 'plur'}), lambda t: inflect(t, {'accs', 'plur'}))]:
            parsers.append((tok, Parser(run.interpretation(mark).interpretation(F), tokenizer=tok), word, str(mark)))
    for _ in range(1500 if not THOROUGH else 15000):
        if R.full() or R.left(.7) < 0:
            return
        tok, parser, word, name = RNG.choice(parsers)
        text = RNG.choice(['', ' ', '  ']) + ''.join(
            RNG.choice(WORDS) + RNG.choice(GAPS) for _ in range(RNG.choice([1, 2, 3, 4, 5])))
        ok, m = R.guard('match', text, lambda: parser.match(text))
        if not ok:
            return
        tokens = list(tok(text))
        if not tokens:
            continue
        R.case((text, name), len(tokens) > 1)
        if m is None:
            R.fail('a text of any words does not match', text)
            return
        ok, fact_ = R.guard('fact', text, lambda: m.fact)
        if not ok:
            return
        want = join(tokens, word)
        if fact_.a != want:
            R.fail('joined text', (text, name), got=fact_.a, want=want)
        if tuple(m.span) != (tokens[0].span.start, tokens[-1].span.stop):
            R.fail('span of the match', text, got=m.span)
        got = [tuple(s) for s in fact_.spans]
        if got != [(tokens[0].span.start, tokens[-1].span.stop)]:
            R.fail('span of the value', text, got=got)


def tokens():
    """arbitrary tokens: repeated, empty and touching spans"""
    for _ in range(8000 if not THOROUGH else 80000):
        if R.full():
            return
        at, ts = RNG.randrange(3), []
        for _ in range(RNG.choice([1, 1, 2, 3, 4])):
            v = RNG.choice(['', 'a', 'Bc', ' ', 'x y', '0', 'Ё'])
            t = Token(v, Span(at, at + RNG.choice([len(v), len(v), 1])), RNG.choice(['RU', 'INT']))
            at = t.span.stop + RNG.choice([0, 0, 1, 2, 10])
            if RNG.random() < .3:
                t = t.morphed([Form(RNG.choice(['lem', '', 'ma']), Grams(set()), raw=None)])
            if RNG.random() < .2:
                t = t.tagged('B')
            ts.append(t)
        case = [(t.value, tuple(t.span), lemma(t)) for t in ts]
        R.case(case, len(ts) > 1)
        ok, got = R.guard('join', case, lambda: (join_tokens(ts), join_tokens(iter(ts)), join_normalized_tokens(ts),
                                                 get_tokens_span(ts)))
        if not ok:
            return
        want = join(ts, lambda t: t.value)
        if got[0] != want or got[1] != want:
            R.fail('join_tokens', case, got=got[0], want=want)
        if got[2] != join(ts, lemma):
            R.fail('join_normalized_tokens', case, got=got[2], want=join(ts, lemma))
        if got[3] != (ts[0].span.start, ts[-1].span.stop):
            R.fail('get_tokens_span', case, got=got[3])
        plain = [t for t in ts if not hasattr(t, 'forms')]
        if plain and join_inflected_tokens(plain, {'gent'}) != join(plain, lemma):
            R.fail('join_inflected_tokens', case)


def found():
    """matches inside a longer text"""
    parser = Parser(rule(true(), true()), tokenizer=PLAIN)
    for _ in range(400):
        text = ''.join(RNG.choice(WORDS) + RNG.choice(GAPS) for _ in range(RNG.choice([2, 4, 6])))
        ts = list(PLAIN(text))
        for m in parser.extract(text):
            a, b = m.tokens
            R.case((text, tuple(m.span)))
            if tuple(m.span) != (a.span.start, b.span.stop) or m.span.start >= m.span.stop:
                R.fail('span of the match', text, got=m.span)


R.rule = 'text or token list and the mark; non-trivial: more than one token'
R.bound = 'texts of up to 5 words with gaps; lists of up to 4 arbitrary tokens'
main(tokens, texts, found)
