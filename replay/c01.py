from gram import *


def best_coverage(spans, n):
    best = [0] * (n + 1)
    for j in range(1, n + 1):
        best[j] = best[j - 1]
        for a, b in spans:
            if b == j:
                best[j] = max(best[j], best[a] + b - a)
    return best[n]


def check(g, parser, words, spans, text=None):
    text = text_of(words) if text is None else text
    starts = positions(words)
    ok, found = attempt('findall', (g, words), lambda: list(parser.findall(text)))
    if not ok:
        return
    case = (str(g), ' '.join(words))
    R.case(case, len(found) > 1 or len(spans) > 2)
    got = [index_range(m, starts) for m in found]
    last = 0
    for a, b in got:
        if a < last:
            R.fail('findall: matches are out of order or share a token', case, got=got)
            return
        last = b
        if (a, b) not in spans:
            R.fail('findall: a match at a range where the grammar does not match', case, got=got, spans=sorted(spans))
            return
    size = sum(b - a for a, b in got)
    want = best_coverage(spans, len(words))
    if size != want:
        R.fail('findall covers %d tokens, %d are possible' % (size, want), case, got=got, spans=sorted(spans))
    ok, first = attempt('find', (g, words), lambda: parser.find(text))
    if ok:
        if (first is None) != (not got):
            R.fail('find: %r' % (first and index_range(first, starts),), case, got=got)
        elif first is not None and index_range(first, starts) != got[0]:
            R.fail('find is not the first match of findall', case, got=got)


def lines():
    """interval structures: a gazetteer over runs of equal and different words"""
    for _ in range(3000 if THOROUGH else 500):
        if R.full() or R.left(.5) < 0:
            return
        alphabet = 'abcd'[:RNG.choice([1, 2, 3, 4])]
        lines = set()
        for _ in range(RNG.choice([1, 2, 3, 4, 5, 6])):
            lines.add(tuple(RNG.choice(alphabet) for _ in range(RNG.choice([1, 1, 2, 2, 3, 3, 4, 5]))))
        if RNG.random() < .15:
            lines.add(tuple(RNG.choice(alphabet) for _ in range(RNG.choice([9, 17, 33, 40]))))
        lines = sorted(lines)
        RNG.shuffle(lines)
        g = Grammar(('pipe', tuple(lines)), {})
        ok, parser = R.guard('Parser', g, lambda: Parser(build(g), tokenizer=Tokenizer()))
        if not ok:
            return
        for _ in range(4):
            n = RNG.choice([0, 1, 2, 4, 6, 8, 10, 12])
            words = []
            while len(words) < n:
                words.extend(RNG.choice(lines) if RNG.random() < .7 else (RNG.choice('abcdz'),))
            words = tuple(words)
            check(g, parser, words, Spans(g, words).of(g.start) - {(i, i) for i in range(n + 1)})


def long():
    """long lines over many short ones; the lines are runs of the text"""
    for _ in range(60 if THOROUGH else 12):
        if R.full() or R.left(.75) < 0:
            return
        n = RNG.choice([40, 60, 130])
        words = tuple(RNG.choice('abcd') for _ in range(n))
        lines = set()
        for _ in range(RNG.choice([1, 2, 4])):
            a = RNG.randrange(n)
            k = RNG.choice([2, 5, 12, 25, n // 2, n - 1])
            lines.add(words[a:a + k])
            for k in RNG.sample([1, 2, 3, 5, 10, 30], 2):
                lines.add(words[a:a + k])
                lines.add(words[a + k:a + k + RNG.choice([1, 5, 30, n])])
        if RNG.random() < .4:
            lines |= {(x,) for x in 'abcd'}
        lines = sorted(x for x in lines if x)
        RNG.shuffle(lines)
        case = [' '.join(x) for x in lines]
        ok, parser = R.guard('Parser', case, lambda: Parser(build(Grammar(('pipe', tuple(lines)), {})), tokenizer=Tokenizer()))
        if not ok:
            return
        check(case, parser, words, {(i, i + len(x)) for x in lines for i in range(n) if words[i:i + len(x)] == x})


def grammars():
    gen = Gen(RNG)
    for g, parser, words in cases(gen, R.left(.6), sizes=(1, 2, 3, 4, 5, 6)):
        spans = Spans(g, words).of(g.start)
        check(g, parser, words, {(i, j) for i, j in spans if i < j})


def resolving():
    """resolve_spans on arbitrary sorted interval sets"""
    from yargy.span import resolve_spans
    for _ in range(40000 if THOROUGH else 8000):
        if R.full():
            return
        n = RNG.choice([2, 3, 4, 5, 6, 8, 8, 40])
        if RNG.random() < .002:
            n = 300
        every = [(i, j) for i in range(n) for j in range(i + 1, n + 1)]
        spans = RNG.sample(every, RNG.randrange(0, min(len(every), 8) + 1))
        if n == 300:
            spans = list(set(spans[:3]) | {(i, i + RNG.choice([1, 1, 2])) for i in range(n - 1) if RNG.random() < .9})
        spans.sort(key=lambda s: (s[0], -s[1]))
        ok, got = R.guard('resolve_spans', spans, lambda: list(resolve_spans(list(spans))))
        if not ok:
            return
        R.case(tuple(spans), len(spans) > 2)
        if got != sorted(got) or any(b > c for (a, b), (c, d) in zip(got, got[1:])) or not set(got) <= set(spans):
            R.fail('resolve_spans: overlap or order', spans, got=got)
        elif sum(b - a for a, b in got) != best_coverage(set(spans), n):
            R.fail('resolve_spans is not optimal', spans, got=got)


def constrained():
    """matches rejected by agreement are not candidates"""
    from yargy.morph import Form, Grams
    from yargy.relations import number_relation
    from yargy.predicates import in_
    from yargy import rule, or_

    class Forms(Tokenizer):
        def __call__(self, text):
            for t in Tokenizer.__call__(self, text):
                grams = {'s': ['sing'], 'p': ['plur'], 'b': ['sing', 'plur']}.get(t.value, [])
                yield t.morphed([Form(t.value, Grams({x})) for x in grams])
    for lo, hi in [(1, 3), (2, 3), (1, 4), (2, 2), (3, 4)]:
        rel = number_relation()
        part = rule(in_({'s', 'p', 'b'})).match(rel)
        parser = Parser(part.repeatable(min=lo, max=hi), tokenizer=Forms())
        for _ in range(60 if not THOROUGH else 600):
            words = tuple(RNG.choice('sssppb') for _ in range(RNG.randrange(9)))
            ok, all_ = attempt('extract', words, lambda: list(parser.extract(text_of(words))))
            if not ok:
                continue
            starts = positions(words)
            spans = {index_range(m, starts) for m in all_}
            check('agreement %d-%d' % (lo, hi), parser, words, spans)
    # several derivations of a range, of which the preferred may not agree
    for lines in [('spb', 'p'), ('sp', 'spb'), ('b', 's'), ('spb', 's', 'p')]:
        rel = number_relation()
        tied = rule(in_(set(lines[0]))).match(rel)
        free = [rule(in_(set(x)), in_({'s', 'p', 'b'})) for x in lines[1:]]
        parser = Parser(or_(rule(tied, tied), *free), tokenizer=Forms())
        for _ in range(60 if not THOROUGH else 600):
            words = tuple(RNG.choice('sssppb') for _ in range(RNG.randrange(7)))
            agree = lambda a, b: 'b' in (a, b) or a == b
            spans = {(i, i + 2) for i in range(len(words) - 1) if any(words[i] in x for x in lines[1:]) or
                     words[i] in lines[0] and words[i + 1] in lines[0] and agree(words[i], words[i + 1])}
            check('tied or free %s' % (lines,), parser, words, spans)


def twin(kind, g, parser, words, text):
    check(g, parser, words, {(i, j) for i, j in Spans(g, words).of(g.start) if i < j}, text)


R.rule = 'a grammar and a text (or a sorted list of spans); non-trivial: more than one match or more than two candidate ranges'
R.bound = 'random grammars to depth 3, texts to 6 tokens; gazetteers with lines to 40 words; span sets over 40 positions'
main(resolving, lines, long, constrained, twins(twin, .2), grammars)
