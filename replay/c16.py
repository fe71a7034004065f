from base import *
import copy
from yargy import rule, or_, forward, empty, not_, and_
from yargy import predicates as P
from yargy.interpretation import fact, attribute
from yargy.span import Span
from yargy.token import Token
from yargy.tokenizer import MorphTokenizer, Tokenizer, TokenRule
from yargy.morph import Form, Grams
from yargy.record import Record
from yargy.pipelines import pipeline, caseless_pipeline, morph_pipeline
from yargy.relations import gnc_relation, gender_relation, case_relation, main as main_, number_relation
from yargy.parser import Parser, Context


def all_records():
    out, stack = [], [Record]
    while stack:
        c = stack.pop()
        for s in c.__subclasses__():
            if s not in out and s.__module__.startswith('yargy'):
                out.append(s)
                stack.append(s)
    return out


VALUES = [1, 0, 'a', 'b', None, (1, 2), True, 2.0, frozenset('x')]


def raw(cls, values):
    x = object.__new__(cls)
    for n, v in zip(cls.__attributes__, values):
        setattr(x, n, v)
    return x


def settable(cls):
    """declared fields that instances store (not computed)"""
    try:
        raw(cls, [0] * len(cls.__attributes__))
        return True
    except AttributeError:
        return False


def generic():
    """every value class of the library, with arbitrary field values"""
    classes = [c for c in all_records() if settable(c)]
    special = {'ForwardRule'}
    for c in classes:
        if c.__name__ in special:
            continue
        n = len(c.__attributes__)
        sub = type(c.__name__ + 'Sub', (c,), {})
        for _ in range(60 if not THOROUGH else 500):
            if R.full():
                return
            a = [RNG.choice(VALUES) for _ in range(n)]
            b = list(a)
            if n and RNG.random() < .6:
                b[RNG.randrange(n)] = RNG.choice(VALUES)
            x, y, z = raw(c, a), raw(c, b), raw(sub, a)
            case = (c.__name__, a, b)
            R.case(case, n > 0)
            want = all(p == q for p, q in zip(a, b))
            ok, _ = R.guard(c.__name__, case, lambda: one(c, x, y, z, a, b, want, case))
            if not ok:
                return


def one(c, x, y, z, a, b, want, case):
    if (x == y) is not want or (x != y) is not (not want) or (y == x) is not want:
        R.fail(c.__name__ + ': equality is not equality of class and fields', case, got=(x == y, x != y))
    if x == z or not x != z or z == x:
        R.fail(c.__name__ + ': equal to an object of another class', case)
    if c.__name__ != 'Span' and (x == tuple(a) or not (x != tuple(a))):
        R.fail(c.__name__ + ': equal to a tuple', case)
    if want and hash(x) != hash(y):
        R.fail(c.__name__ + ': equal but hashed differently', case)
    if a and c.__name__ != 'Span':
        # a field is set afterwards: the object is that of its present fields
        hash(z)
        w, i = raw(c, a), RNG.randrange(len(a))
        hash(w), w == y, list(w)
        setattr(w, c.__attributes__[i], b[i])
        v = raw(c, a[:i] + [b[i]] + a[i + 1:])
        if w != v or not w == v or hash(w) != hash(v) or list(w) != list(v):
            R.fail(c.__name__ + ': differs from an equal object after a field was set', case, got=(w, v))
    if list(x) != a:
        R.fail(c.__name__ + ': iteration does not give the fields in order', case, got=list(x))


def spans():
    for _ in range(3000):
        a, b, c, d = [RNG.randrange(4) for _ in range(4)]
        x, y = Span(a, b), Span(c, d)
        R.case((a, b, c, d))
        eq = (a, b) == (c, d)
        if (x == y) != eq or (x == (c, d)) != eq or ((c, d) == x) != eq or (x != (c, d)) == eq or (x != y) == eq:
            R.fail('Span equality', (a, b, c, d))
        if (x < y) != ((a, b) < (c, d)):
            R.fail('Span order', (a, b, c, d))
        if eq and (hash(x) != hash(y)):
            R.fail('Span hash', (a, b))
        if len({x, y}) != (1 if eq else 2):
            R.fail('Span in a set', (a, b, c, d))
        if x == [a, b] or x == (a, b, c) or x == (a,):
            R.fail('Span equals something else', (a, b))
        if [x, y] != sorted([x, y], key=tuple) and sorted([x, y]) == [x, y] and (c, d) < (a, b):
            R.fail('Span sort', (a, b, c, d))


def facts():
    F = fact('F', ['a', 'b', attribute('c', 5), attribute('d').repeatable()])
    G = fact('F', ['a', 'b', attribute('c', 5), attribute('d').repeatable()])
    for _ in range(2000):
        k = {n: RNG.choice([1, 2, None]) for n in 'abc' if RNG.random() < .7}
        l = dict(k)
        if RNG.random() < .5:
            l[RNG.choice('abc')] = RNG.choice([1, 2, None, 5])
        x, y = F(**k), F(**l)
        fill = lambda k: [k.get('a'), k.get('b'), k.get('c', 5), []]
        want = fill(k) == fill(l)
        R.case((sorted(k.items(), key=str), sorted(l.items(), key=str)))
        if (x == y) != want or (x != y) == want:
            R.fail('facts: equality', (k, l))
        if list(x) != fill(k):
            R.fail('facts: iteration', k, got=list(x))
        if x == G(**k):
            R.fail('facts of different kinds are equal', k)
    H = fact('H', ['a', 'b'])
    for a in (1, 'x', None):
        if hash(H(a=a, b=2)) != hash(H(a=a, b=2)):
            R.fail('facts: hash', a)


def forwards():
    for define in (None, rule('a'), or_(rule('a'), rule('b'))):
        a, b = forward(), forward()
        if define is not None:
            a.define(define)
            b.define(define)
        R.case(str(define))
        R.check(a == a and not a != a and a != b and not a == b, 'forward references', define)
        ok, v = R.guard('hash of a forward reference', define, lambda: (hash(a) == hash(a), 0))
        if ok:
            R.check(v[0], 'hash of a forward reference', define)
    a = forward()
    r = rule('x', a)
    a.define(or_(r, rule('y')))
    ok, v = R.guard('recursive rule', None, lambda: (r == r, r != rule('x', forward())))
    if ok and v != (True, True):
        R.fail('recursive rules', v)


def makers():
    f = lambda v: True
    gnc = gnc_relation()
    F = fact('F', ['a'])
    base = [
        lambda: rule('a', 'b'), lambda: rule('a'), lambda: rule(P.eq('a'), P.eq('b')), lambda: rule('b', 'a'),
        lambda: rule('a').optional(), lambda: rule('a').optional(reverse=True), lambda: rule('a').repeatable(),
        lambda: rule('a').repeatable(reverse=True), lambda: rule('a').repeatable(min=2),
        lambda: rule('a').repeatable(max=2), lambda: rule('a').repeatable(min=2, max=3),
        lambda: rule('a').repeatable(min=2, max=4), lambda: rule('a').repeatable(min=1, max=3),
        lambda: rule('a').repeatable(min=2, max=3, reverse=True), lambda: rule('a').repeatable(min=3),
        lambda: rule('a').named('A'), lambda: rule('a').named('B'), lambda: rule('a').match(gnc),
        lambda: rule('a').match(gender_relation()), lambda: rule('a').interpretation(F),
        lambda: rule('a').interpretation(F.a), lambda: rule('a').interpretation(F.a.normalized()),
        lambda: or_(rule('a'), rule('b')), lambda: or_(rule('b'), rule('a')), lambda: empty(),
        lambda: rule('a', main_(P.eq('b'))),
        lambda: pipeline(['a', 'b']), lambda: caseless_pipeline(['a', 'b']), lambda: morph_pipeline(['a', 'b']),
        lambda: pipeline(['a']),
        lambda: P.eq('a'), lambda: P.eq('b'), lambda: P.caseless('a'), lambda: P.in_({'a'}), lambda: P.in_caseless({'a'}),
        lambda: P.gte(1), lambda: P.lte(1), lambda: P.gram('NOUN'), lambda: P.type('INT'), lambda: P.tag('INT'),
        lambda: P.true(), lambda: P.is_lower(), lambda: P.is_upper(), lambda: P.custom(f), lambda: P.custom(f, types='INT'),
        lambda: P.normalized('a'), lambda: P.dictionary({'a'}), lambda: P.length_eq(1), lambda: P.is_single(),
        lambda: and_(P.eq('a'), P.eq('b')), lambda: or_(P.eq('a'), P.eq('b')), lambda: not_(P.eq('a')),
        lambda: and_(P.eq('b'), P.eq('a')), lambda: gnc_relation(), lambda: gender_relation(), lambda: case_relation(),
        lambda: and_(gender_relation(), case_relation()), lambda: not_(case_relation()),
        lambda: Span(0, 1), lambda: Token('a', Span(0, 1), 'RU'), lambda: Token('a', Span(0, 1), 'LATIN'),
        lambda: Token('a', Span(0, 1), 'RU').tagged('B'), lambda: Token('a', Span(0, 1), 'RU').morphed([]),
        lambda: Token('a', Span(0, 1), 'RU').morphed([]).tagged('B'),
        lambda: Token('a', Span(0, 1), 'RU').morphed([Form('a', Grams({'NOUN'}))]),
        lambda: Form('a', Grams({'NOUN'})), lambda: Form('a', Grams({'VERB'})), lambda: Grams({'NOUN'}),
        lambda: TokenRule('A', 'a'), lambda: F(a=1), lambda: F(a=2), lambda: F(), lambda: F.a, lambda: F.a.normalized(),
        lambda: F.a.inflected({'gent'}), lambda: F.a.const(1), lambda: F.a.custom(f), lambda: attribute('a'),
        lambda: attribute('a', 1), lambda: attribute('a').repeatable(),
    ]
    base += [
        lambda: Token('a', Span(0, 1), 'RU').tagged('C'), lambda: Token('a', Span(0, 2), 'RU').tagged('B'),
        lambda: Token('b', Span(0, 1), 'RU').tagged('B'), lambda: Token('a', Span(0, 1), 'LATIN').tagged('B'),
        lambda: Token('a', Span(0, 1), 'RU').morphed([Form('a', Grams({'VERB'}))]),
        lambda: Token('a', Span(0, 1), 'RU').morphed([]).tagged('C'),
        lambda: Token('a', Span(0, 1), 'RU').morphed([Form('a', Grams({'NOUN'}))]).tagged('B'),
        lambda: Form('b', Grams({'NOUN'})), lambda: P.custom(f, types='RU'), lambda: P.custom(min), lambda: TokenRule('A', 'b'),
        lambda: TokenRule('B', 'a'), lambda: F.a.const(2), lambda: F.a.inflected({'datv'}), lambda: F.a.custom(min),
        lambda: F.a.inflected({'gent'}).custom(f), lambda: F.a.inflected({'datv'}).custom(f), lambda: F.a.normalized().custom(f),
        lambda: F.a.normalized().custom(min), lambda: F.a.custom(f).custom(min), lambda: F.a.custom(min).custom(f),
        lambda: attribute('b'), lambda: attribute('b').repeatable(),
        lambda: rule('a').optional().repeatable(), lambda: rule('b').repeatable(min=2), lambda: rule('b').named('A'),
        lambda: rule('b').match(gnc), lambda: rule('b').interpretation(F), lambda: rule('b').interpretation(F.a),
        lambda: rule('b').optional(), lambda: rule('b').repeatable(), lambda: rule('b').repeatable(max=2),
        lambda: rule('b').repeatable(min=2, max=3), lambda: rule('a').repeatable(max=3),
        lambda: P.gram('VERB'), lambda: P.type('RU'), lambda: P.tag('X'), lambda: P.gte(2), lambda: P.lte(2),
        lambda: P.normalized('b'), lambda: P.dictionary({'b'}), lambda: P.length_eq(2), lambda: not_(P.eq('b')),
        lambda: or_(gender_relation(), case_relation()), lambda: not_(gender_relation()), lambda: number_relation(),
    ]
    eq_pair = {(i, j) for i, a in enumerate(base) for j, b in enumerate(base) if (i, j) in {(0, 2)}}
    for i, m in enumerate(base):
        for j, n in enumerate(base):
            ok, got = R.guard('==', (i, j), lambda: (m() == n(), m() != n()))
            if not ok:
                return
            same = i == j or (i, j) in eq_pair or (j, i) in eq_pair
            R.case(('makers', i, j), i != j)
            if got != (same, not same):
                R.fail('equality of %r and %r' % (m(), n()), got=got, want=same)
                if R.full():
                    return
    parser = Parser(rule(P.type('INT'), P.type('INT')))
    a, b = parser.match('1 2'), parser.match('1 2')
    R.check(a == b and not a != b, 'matches of the same text')
    R.check(parser.match('1 2') != parser.match('1 3'), 'matches of different texts')
    R.check(list(a) == [a.tokens, a.span], 'fields of a match')
    # forms: field order
    t = Token('a', Span(0, 1), 'RU')
    R.check(list(t) == ['a', Span(0, 1), 'RU'], 'fields of a token', got=list(t))
    m = t.morphed([1]).tagged('B')
    R.check(list(m) == ['a', Span(0, 1), 'RU', 'B', [1]], 'fields of a token with forms and tag', got=list(m))
    R.check(hash(Token('a', Span(0, 1), 'RU')) == hash(Token('a', Span(0, 1), 'RU')), 'hash of tokens')


R.rule = 'pairs of value objects; non-trivial: the class declares fields'
R.bound = 'every Record class of the library with random field values; spans over 0..3; pairs of 80 constructed objects'
main(generic, spans, facts, forwards, makers)
