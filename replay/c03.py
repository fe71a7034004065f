from gram import *
from yargy import rule, or_
from yargy.morph import Form, Grams
from yargy.relations import Relation


def check(g, parser, words, text=None):
    text = text_of(words) if text is None else text
    starts = positions(words)
    case = (str(g), ' '.join(words))
    n = len(words)
    want = {(i, j) for i, j in Spans(g, words).of(g.start) if i < j}
    ok, found = attempt('extract', case, lambda: list(parser.extract(text)))
    if not ok:
        return
    R.case(case, len(want) > 1)
    got = {index_range(m, starts) for m in found}
    if not want <= got:
        R.fail('extract: derivable runs are not reported', case, missing=sorted(want - got), got=sorted(got))
        return
    ok, m = attempt('match', case, lambda: parser.match(text))
    if ok and (0, n) in want and m is None:
        R.fail('match: the text is derivable but not matched', case)
    ok, found = attempt('extract', case, lambda: list(parser.extract(text, all=False)))
    if ok and (0, n) in want and not any(index_range(m, starts) == (0, n) for m in found):
        R.fail('extract(all=False): the text is derivable but not reported', case)


def grammars():
    # forward rules, optional and empty parts are the point here
    for share, refs in [(.1, 2), (.4, 1), (.2, 3)]:
        gen = Gen(RNG, share=share)
        gen_refs = refs
        make = gen.grammar
        gen.grammar = lambda depth, make=make, refs=gen_refs: make(depth, refs)
        for g, parser, words in cases(gen, R.left(.3), sizes=(0, 1, 2, 3, 4, 5, 6)):
            check(g, parser, words)


T = lambda c: ('t', (c,))
S = lambda *x: ('seq', list(x), 0)
A = lambda *x: ('alt', list(x))
O = lambda x: ('opt', x, False)
X, Y, Z = ('ref', 'X'), ('ref', 'Y'), ('ref', 'Z')


def recursion():
    """left, right, middle and mutual recursion, hidden behind empty parts"""
    list_ = [
        (X, {'X': A(S(X, T('a')), T('a'))}),
        (X, {'X': A(S(T('a'), X), T('a'))}),
        (X, {'X': A(S(T('a'), X, T('b')), ('empty',))}),
        (X, {'X': A(S(X, X), T('a'))}),
        (X, {'X': A(S(X, T('b'), X), T('a'))}),
        (X, {'X': A(S(Y, T('a')), T('b')), 'Y': A(S(X, T('b')), T('a'))}),
        (X, {'X': A(S(O(T('b')), X, T('a')), T('c'))}),
        (X, {'X': A(S(Y, X, T('a')), T('c')), 'Y': A(('empty',), T('b'))}),
        (X, {'X': A(S(T('a'), X, Y), T('c')), 'Y': O(T('b'))}),
        (S(Y, Y, T('c')), {'Y': O(T('b'))}),
        (S(Y, Y), {'Y': O(S(T('b'), Z)), 'Z': O(T('c'))}),
        (S(X, Y), {'X': A(('empty',), S(T('a'), X)), 'Y': A(('empty',), S(Y, T('b')))}),
        (S(X, X, X), {'X': A(T('a'), ('empty',))}),
        (S(O(X), O(X), T('a')), {'X': A(T('a'), T('b'))}),
        (('rep', S(O(T('a')), T('b')), None, None, False), {}),
        (S(X, X, T('a')), {'X': S(O(T('b')), O(T('c')))}),
        (S(X, X), {'X': S(O(T('b')), O(T('c')))}),
        (S(X, T('a'), X, X), {'X': S(O(T('b')), O(T('c')))}),
        (S(X, Y, X, T('c')), {'X': S(O(T('a')), Y), 'Y': S(O(T('b')), Z), 'Z': O(T('c'))}),
        (S(Y, X, T('a')), {'X': S(Y, Y), 'Y': S(Z, Z), 'Z': O(T('b'))}),
        (S(Y, Y, T('a')), {'X': O(T('b')), 'Y': A(S(X, X), T('c'))}),
        (S(T('a'), X, X, T('a')), {'X': S(Y, O(T('b'))), 'Y': S(O(T('c')), ('empty',))}),
        (S(('opt', ('rep', T('a'), None, None, False), False), ('rep', T('a'), None, 2, False)), {}),
        (A(S(X, T('c')), S(X, T('b'))), {'X': A(S(Y, T('a')), T('a')), 'Y': A(X, S(T('b'), X))}),
    ]
    for start, defs in list_:
        g = Grammar(start, defs)
        if cyclic(g):
            continue
        for r in ([False, True] if len(defs) else [False]):
            ok, parser = R.guard('Parser', g, lambda: Parser(build(g), tokenizer=Tokenizer()))
            if not ok:
                continue
            for n in range(0, 6):
                for k in range(3 ** n if n <= 4 else 60):
                    if R.full():
                        return
                    if n <= 4:
                        words = tuple('abc'[k // 3 ** i % 3] for i in range(n))
                    else:
                        words = tuple(RNG.choice('abc') for _ in range(n + RNG.randrange(3)))
                    check(g, parser, words)
            break


class Never(Relation):
    __attributes__ = []

    def __call__(self, form, other):
        return False


class Forms(Tokenizer):
    def __call__(self, text):
        for i, t in enumerate(Tokenizer.__call__(self, text)):
            yield t.morphed([Form(i, Grams(set()), raw=None)])


def agreeing():
    """the phrase can agree only if the part at one place is read in one of its ways"""
    for n in (1, 2, 3, 4, 5):
        for at in range(n):
            for flip in (False, True):
                for deep in (False, True):
                    if R.full():
                        return
                    never = Never()
                    tied = lambda w: rule(w).named('tied').match(never)
                    both = [tied('a'), rule('a').named('free')]
                    choice = or_(*(both[::-1] if flip else both))
                    if deep:
                        choice = rule(choice).named('deep')
                    plain = or_(rule('a').named('x'), rule('a').named('y'))
                    phrase = rule(*[choice if i == at else plain for i in range(n)])
                    case = (n, at, flip, deep)
                    ok, parser = R.guard('Parser', case, lambda: Parser(rule(phrase.named('P'), tied('b')), tokenizer=Forms()))
                    if not ok:
                        return
                    text = ' '.join('a' * n + 'b')
                    R.case(('agreeing',) + case)
                    ok, found = attempt('extract', case, lambda: list(parser.extract(text)))
                    if ok and not any(len(m.tokens) == n + 1 for m in found):
                        R.fail('extract: the phrase can agree but is not reported', case)
                    ok, m = attempt('match', case, lambda: parser.match(text))
                    if ok and m is None:
                        R.fail('match: the phrase can agree but is not matched', case)
                    ok, found = attempt('findall', case, lambda: list(parser.findall(text)))
                    if ok and [len(m.tokens) for m in found] != [n + 1]:
                        R.fail('findall: the phrase can agree but is not found', case)


R.rule = 'grammar and text; non-trivial: more than one derivable run'
R.bound = 'recursion patterns with all texts to 4 words over 3 letters; random grammars to depth 3, texts to 6 words'
main(agreeing, twins(lambda kind, g, parser, words, text: check(g, parser, words, text), .2), recursion, grammars)
