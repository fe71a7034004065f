from gram import *


def check(g, parser, words, same=None, text=None):
    """same: the grammar whose derivations are those of the parser's rule"""
    text = text_of(words) if text is None else text
    starts = positions(words)
    case = (str(g), ' '.join(words))
    n = len(words)
    if same is not None:
        g = same
    try:
        D = Derivations(g, words, 400)
        ok, found = attempt('findall', case, lambda: list(parser.findall(text)))
        if not ok:
            return
        runs = [('findall', m) for m in found]
        ok, m = attempt('match', case, lambda: parser.match(text))
        if ok and m is not None:
            runs.append(('match', m))
        for what, m in runs:
            a, b = index_range(m, starts)
            ds = D.of(g.start, a, b)
            views = {tuple(x for x in marks(d.nodes) if isinstance(x[0], str)) for d in ds}
            R.case(case + (what, a, b), len(views) > 1)
            if not ds:
                continue
            best = min(ds, key=lambda d: d.key)
            want = [x for x in marks(best.nodes) if isinstance(x[0], str)]
            got = node_marks(m, starts, named)
            if got != want:
                R.fail(what + ': another derivation is preferred', case, got=got, want=want,
                       all=[(d.key, marks(d.nodes)) for d in sorted(ds, key=lambda d: d.key)][:6])
                return
    except Cyclic:
        return


def grammars():
    gen = Gen(RNG, alphabet='ab', marks=.9, nested=False, share=.15)
    for g, parser, words in cases(gen, R.left(.85), sizes=(1, 2, 3, 4, 5, 6), texts=5):
        check(g, parser, words)


T = lambda *c: ('t', c)
S = lambda *x: ('seq', list(x), 0)
A = lambda *x: ('alt', list(x))
M = lambda l, x: ('mark', 'n' + l, x)


def forms():
    """every repetition and option, both orders, with ambiguous neighbours"""
    a, b = T('a'), T('a', 'b')
    parts = []
    for rev in (False, True):
        parts.append(('opt', M('i', a), rev))
        for lo, hi in [(None, None), (2, None), (3, None), (None, 2), (None, 3), (None, 4), (2, 3), (2, 4), (1, 3), (3, 5)]:
            parts.append(('rep', M('i', a), lo, hi, rev))
            parts.append(('rep', A(M('i', a), M('j', S(a, a))), lo, hi, rev))
        for rev2 in (False, True):
            parts.append(('optrep', M('i', a), rev, rev2))
            parts.append(('optrep', A(M('i', a), M('j', S(a, a))), rev, rev2))
    for p in parts:
        for q in parts:
            if RNG.random() > (.12 if not THOROUGH else .6):
                continue
            if R.full() or R.left(.6) < 0:
                return
            g = Grammar(S(M('x', p), M('y', q)), {})
            ok, parser = R.guard('Parser', g, lambda: Parser(build(g), tokenizer=Tokenizer()))
            if not ok:
                return
            for n in (1, 2, 3, 4, 5, 6):
                check(g, parser, ('a',) * n)
    for p in parts:
        g = Grammar(M('x', p), {})
        ok, parser = R.guard('Parser', g, lambda: Parser(build(g), tokenizer=Tokenizer()))
        if ok:
            for n in (1, 2, 3, 4, 5, 6):
                check(g, parser, ('a',) * n)


def merged():
    """modifiers of modified rules: the repetition keeps its order and the option keeps its own"""
    a = M('i', T('a'))
    pairs = []
    for p in (False, True):
        for q in (False, True):
            pairs.append((('opt', ('opt', a, q), p), ('opt', a, p)))
            pairs.append((('rep', ('opt', a, q), None, None, p), ('optrep', a, p, q)))
            for n in (2, 3):
                pairs.append((('rep', ('opt', a, q), None, n, p), ('opt', ('rep', a, None, n, p), q)))
            for r in (False, True):
                pairs.append((('opt', ('optrep', a, p, q), r), ('optrep', a, p, r)))
                pairs.append((('rep', ('optrep', a, p, q), None, None, r), ('optrep', a, r, q)))
    y = M('y', ('rep', M('j', T('a')), None, 3, False))
    for given, same in pairs:
        if R.full():
            return
        for rest in ([], [y]):
            g = Grammar(S(M('x', given), *rest), {})
            ok, parser = R.guard('Parser', g, lambda: Parser(build(g), tokenizer=Tokenizer()))
            if not ok:
                return
            for n in (1, 2, 3, 4):
                check(g, parser, ('a',) * n, Grammar(S(M('x', same), *rest), {}))


def rejected():
    """the derivations that are preferred may not agree: the next one in order is reported"""
    from yargy import rule, or_
    from yargy.morph import Form, Grams
    from yargy.relations import Relation

    class Never(Relation):
        __attributes__ = []

        def __call__(self, form, other):
            return False

    class Forms(Tokenizer):
        def __call__(self, text):
            for t in Tokenizer.__call__(self, text):
                yield t.morphed([Form(t.value, Grams(set()), raw=None)])

    for _ in range(400 if THOROUGH else 120):
        if R.full() or R.left(.7) < 0:
            return
        count = RNG.choice([1, 1, 2, 3])
        free = [[RNG.random() < .5 for _ in range(RNG.choice([2, 3, 4, 5]))] for _ in range(count)]
        choices = []
        for c, f in enumerate(free):
            alternatives = []
            for i, x in enumerate(f):
                never = Never()
                word = rule('a') if x else rule('a').match(never)
                alternatives.append(rule(word, word if x else rule('a').match(never)).named('n%d_%d' % (c, i)))
            choices.append(or_(*alternatives))
        ok, parser = R.guard('Parser', free, lambda: Parser(rule(*choices).named('all'), tokenizer=Forms()))
        if not ok:
            return
        words = ('a',) * (2 * count)
        want = None
        if all(any(f) for f in free):
            want = [('n%d_%d' % (c, f.index(True)), 2 * c, 2 * c + 2) for c, f in enumerate(free)]
        for what, fn in (('match', lambda: parser.match(text_of(words))), ('find', lambda: parser.find(text_of(words)))):
            ok, m = attempt(what, free, fn)
            if not ok:
                continue
            got = None if m is None else node_marks(m, positions(words), named)
            R.case(('rejected', what, str(free)), len(free) > 1)
            if got != want:
                R.fail(what + ': not the first derivation that agrees', free, got=got, want=want)


def twin(kind, g, parser, words, text):
    check(g, parser, words, text=text)


R.rule = 'grammar, text, entry point and run; non-trivial: the run has derivations with different named parts'
R.bound = 'pairs of repetitions and options over one word to length 6; random grammars to depth 3, texts to 6 words'
main(merged, rejected, twins(twin, .15, nested=False), forms, grammars)
