"""C18: misuse raises, valid use does not; every construct in seeded surroundings."""
from gram import *
from yargy import Parser, rule, empty, forward, and_, or_, not_
from yargy import predicates as P
from yargy.predicates import Predicate
from yargy.relations import main, gnc_relation, gender_relation, number_relation, case_relation, Relation
from yargy.interpretation import fact, attribute
from yargy import interpretation as I
from yargy.tokenizer import Tokenizer, MorphTokenizer, TokenRule, RULES, EMAIL_RULE
from yargy.tagger import Tagger, TaggersComposition, PassTagger
from yargy.pipelines import pipeline, caseless_pipeline, morph_pipeline

TOKENIZER = MorphTokenizer()


class Tags(Tagger):
    tags = ['B', 'I']

    def __call__(self, tokens):
        return tokens


TAGGER = Tags()
F = fact('F', ['a', attribute('b').repeatable(), attribute('c', 1)])
G = fact('G', [])
GRAMS = ['NOUN', 'sing', 'masc', 'Name', 'Pltm']
BADGRAMS = ['XX', 'noun', '', 'NOUN ', 'существительное']
TYPES = ['RU', 'INT', 'LATIN', 'PUNCT', 'EOL', 'OTHER']
BADTYPES = ['XX', 'ru', '', 'EMAIL', 'int']


def ok_pred(depth=2):
    k = RNG.randrange(12 if depth else 9)
    if k == 0:
        return P.eq('a')
    if k == 1:
        return P.gram(RNG.choice(GRAMS))
    if k == 2:
        return P.type(RNG.choice(TYPES))
    if k == 3:
        return P.tag(RNG.choice(['B', 'I']))
    if k == 4:
        return P.custom(len, types=RNG.choice([None, 'RU', ('RU', 'INT'), ['EOL'], []]))
    if k == 5:
        return P.normalized('стали')
    if k == 6:
        return P.dictionary({'врач'})
    if k == 7:
        return RNG.choice([P.is_single, P.is_lower, P.true, P.is_capitalized])()
    if k == 8:
        return RNG.choice([lambda: P.gte(1), lambda: P.in_({'x'}), lambda: P.in_caseless({'X'}), lambda: P.length_eq(2)])()
    if k == 9:
        return not_(ok_pred(depth - 1))
    return RNG.choice([and_, or_])(*[ok_pred(depth - 1) for _ in range(RNG.randrange(1, 4))])


def bad_pred(depth=2):
    """a predicate that names something the parser does not have"""
    k = RNG.randrange(7 if depth else 4)
    if k == 0:
        return P.gram(RNG.choice(BADGRAMS))
    if k == 1:
        return P.type(RNG.choice(BADTYPES))
    if k == 2:
        return P.tag(RNG.choice(['XX', 'b', '']))
    if k == 3:
        return P.custom(len, types=RNG.choice(['XX', ('RU', 'XX'), ['XX', 'RU'], ['email']]))
    if k == 4:
        return not_(bad_pred(depth - 1))
    items = [ok_pred(depth - 1) for _ in range(RNG.randrange(3))]
    items.insert(RNG.randrange(len(items) + 1), bad_pred(depth - 1))
    return RNG.choice([and_, or_])(*items)


def ok_rel(depth=1):
    k = RNG.randrange(6 if depth else 4)
    if k < 4:
        return [gnc_relation, gender_relation, number_relation, case_relation][k]()
    if k == 4:
        return not_(ok_rel(0))
    return RNG.choice([and_, or_])(ok_rel(0), ok_rel(0))


def ok_inter():
    return RNG.choice([
        lambda: F, lambda: G, lambda: F.a, lambda: F.b, lambda: F.c, lambda: F.a.inflected(), lambda: F.a.inflected({'plur'}),
        lambda: F.a.normalized(), lambda: F.a.const(None), lambda: F.a.custom(str), lambda: F.a.normalized().custom(str),
        lambda: F.a.inflected().custom(str), lambda: F.a.custom(str).custom(len), lambda: I.const(1),
        lambda: I.normalized(), lambda: I.inflected(), lambda: I.inflected({'gent'}), lambda: I.custom(str),
        lambda: I.normalized().custom(str), lambda: I.inflected().custom(str), lambda: I.custom(str).custom(len)])()


def ok_term():
    return RNG.choice([lambda: 'x', ok_pred, lambda: ok_rule(1)])()


def ok_rule(depth=2):
    k = RNG.randrange(12 if depth else 3)
    if k == 0:
        return rule(ok_pred(0))
    if k == 1:
        return rule('x', 'y')
    if k == 2:
        return RNG.choice([lambda: pipeline(['x y', 'x']), lambda: caseless_pipeline(['X']),
                           lambda: morph_pipeline(['стали']), lambda: rule(empty()), lambda: rule(empty(), 'x')])()
    return around(ok_rule(depth - 1), k)


def around(r, k=None):
    """a valid rule around r"""
    k = RNG.randrange(3, 12) if k is None else k
    if k == 3:
        items = [RNG.choice([lambda: 'x', lambda: ok_pred(1)])() for _ in range(RNG.randrange(3))]
        items.insert(RNG.randrange(len(items) + 1), RNG.choice([lambda x: x, main])(r))
        return rule(*items)
    if k == 4:
        items = [rule('x'), r]
        RNG.shuffle(items)
        return or_(*items)
    if k == 5:
        return r.optional(reverse=RNG.random() < .5)
    if k == 6:
        a = RNG.choice([{}, {'min': 1}, {'min': 2}, {'max': 1}, {'max': 3}, {'min': 2, 'max': 2}, {'min': 1, 'max': 3}])
        return r.repeatable(reverse=RNG.random() < .5, **a)
    if k == 7:
        return r.named(RNG.choice(['n', '', 'имя']))
    if k == 8:
        return r.interpretation(ok_inter())
    if k == 9:
        return r.match(ok_rel())
    if k == 10:
        return forward().define(rule(r)) if RNG.random() < .5 else forward().define(r, 'x')
    return rule(r)


def wraps(r):
    for _ in range(RNG.randrange(5)):
        r = around(r)
    return r


def parser(r):
    return Parser(r, tokenizer=TOKENIZER, tagger=TAGGER)


def bad(what, fn, case=None):
    R.case(('misuse', what, repr(case)[:200]))
    try:
        fn()
    except RecursionError as x:
        R.check(False, 'not rejected with an error of its own: ' + what, case)
    except Exception as x:
        return
    R.fail('accepted: ' + what, case)


def good(what, fn, case=None):
    R.case(('valid', what, repr(case)[:200]))
    try:
        return fn()
    except RecursionError:
        return None
    except Exception as x:
        R.raised('rejected: ' + what, case, x)


def undefined():
    f = forward()
    k = RNG.randrange(6)
    if k == 0:
        f = forward().define(f, 'x')
    if k == 1:
        f = forward().define(or_(f.optional(), rule('x')))
    if k == 2:
        g = forward()
        g.define(or_(rule('x'), rule('x', g, f)))
        f = g
    return f


class Sub(str):
    pass


def mixed():
    kinds = [lambda: ok_pred(1), ok_rel, lambda: ok_rule(1), lambda: 'x', lambda: 1, lambda: None, lambda: main(P.eq('a')),
             lambda: F, lambda: F.a, lambda: P.eq, lambda: forward()]
    pure = [{0}, {1}]
    n = RNG.randrange(1, 4)
    picks = [RNG.randrange(len(kinds)) for _ in range(n)]
    items = [kinds[p]() for p in picks]
    s = set(picks)
    both = s <= {0} or s <= {1}
    rules = s <= {2, 10}
    (good if both else bad)('and_ of %s' % sorted(s), lambda: and_(*items), items)
    (good if both or rules else bad)('or_ of %s' % sorted(s), lambda: or_(*items), items)
    item = items[0]
    (good if picks[0] in (0, 1) else bad)('not_ of kind %d' % picks[0], lambda: not_(item), item)
    from yargy.predicates import AndPredicate, OrPredicate, NotPredicate
    from yargy.relations import AndRelation, OrRelation, NotRelation
    for C, k in [(AndPredicate, 0), (OrPredicate, 0), (AndRelation, 1), (OrRelation, 1)]:
        (good if s <= {k} else bad)('%s of %s' % (C.__name__, sorted(s)), lambda: C(items), items)
    for C, k in [(NotPredicate, 0), (NotRelation, 1)]:
        (good if picks[0] == k else bad)('%s of %d' % (C.__name__, picks[0]), lambda: C(item), item)
    (good if picks[0] in (0, 2, 10) else bad)('main of kind %d' % picks[0], lambda: main(item), item)
    (good if picks[0] == 1 else bad)('match with kind %d' % picks[0], lambda: around(rule('x')).match(item), item)
    (good if picks[0] in (7, 8) else bad)('interpretation by kind %d' % picks[0],
                                           lambda: around(rule('x')).interpretation(item), item)
    (good if picks[0] == 8 else bad)('interpretation of a token by kind %d' % picks[0],
                                     lambda: P.eq('x').interpretation(item), item)
    (good if picks[0] == 3 else bad)('named by kind %d' % picks[0], lambda: around(rule('x')).named(item), item)


def constructs():
    bad('two mains', lambda: wraps(rule(*[main(P.eq('a')) if RNG.random() < .5 else main(rule('x')) for _ in range(2)])))
    a, b, c = RNG.sample(range(4), 3)
    items = ['x'] * 4
    items[a] = main(rule('x'))
    items[b] = main(P.eq('b'))
    bad('two mains among parts', lambda: rule(*items), (a, b))
    items[b] = 'y'
    good('one main', lambda: parser(rule(*items)), a)
    for r in [wraps(rule('x')), P.eq('x')]:
        lo, hi = RNG.randrange(-2, 5), RNG.randrange(-2, 5)
        (good if lo >= 1 else bad)('min=%d' % lo, lambda: r.repeatable(min=lo), lo)
        (good if hi >= 1 else bad)('max=%d' % hi, lambda: r.repeatable(max=hi), hi)
        (good if 1 <= lo <= hi else bad)('min=%d max=%d' % (lo, hi), lambda: r.repeatable(min=lo, max=hi), (lo, hi))
    flag = RNG.choice([1, 0, None, 'x', []])
    if flag is not None:
        bad('reverse=%r in optional' % (flag,), lambda: wraps(rule('x')).optional(reverse=flag))
        for kw in ({}, {'min': 2}, {'max': 2}, {'min': 1, 'max': 2}):
            bad('reverse=%r in repeatable' % (flag,), lambda: wraps(rule('x')).repeatable(reverse=flag, **kw), kw)
    bad('forward of forward', lambda: forward().define(RNG.choice([forward(), forward().define('x')])))
    good('forward of rule', lambda: parser(forward().define(rule(wraps(rule('x'))))))
    u = undefined()
    for _ in range(RNG.randrange(4)):
        u = around(u)
    bad('forward never defined', lambda: parser(u), u)
    from yargy.rule.constructors import (Rule, OrRule, OptionalRule, RepeatableRule, NamedRule, InterpretationRule,
                                         RelationRule, MinBoundedRule, MaxBoundedRule, MinMaxBoundedRule)
    x = RNG.choice(['x', 1, None, P.eq('a'), main(rule('a')), F.a, ok_rel()])
    bad('or of a wrong kind', lambda: OrRule([rule('x'), x]), x)
    bad('wrapping a wrong kind', lambda: RNG.choice([
        lambda: OptionalRule(x, False), lambda: RepeatableRule(x, False), lambda: NamedRule(x, 'x'),
        lambda: InterpretationRule(x, None), lambda: RelationRule(x, gnc_relation()), lambda: MinBoundedRule(x, 1, False),
        lambda: MaxBoundedRule(x, 1, False), lambda: MinMaxBoundedRule(x, 1, 1, False)])(), x)
    bad('productions of a wrong kind', lambda: Rule([x]), x)
    lines = RNG.choice([[1], ['a', 1], [None], ['a', ['b']], [P.eq('a')], [rule('a')]])
    bad('lines of a wrong kind', lambda: RNG.choice([pipeline, caseless_pipeline, morph_pipeline])(lines), lines)


def surroundings():
    p = bad_pred()
    where = rule(*RNG.choice([[p], ['x', p], [p, 'x'], [main(p)], ['x', main(p)], [rule(p), 'x']]))
    r = wraps(where)
    bad('unknown grammeme, type or tag', lambda: parser(r), p)
    good('rule', lambda: parser(wraps(ok_rule())), None)
    q = ok_pred()
    good('predicate', lambda: parser(rule(q)), q)
    t = RNG.choice(['B', 'I', 'Q'])
    comp = TaggersComposition([PassTagger(), TAGGER])
    (good if t != 'Q' else bad)('tag %r of a composition' % t,
                                lambda: Parser(rule(P.tag(t)), tokenizer=TOKENIZER, tagger=comp))
    bad('tag without tagger', lambda: Parser(rule(P.tag(t)), tokenizer=TOKENIZER))
    x = RNG.choice([1, 'x', [], rule('x')])
    if x:
        bad('tokenizer of a wrong kind', lambda: Parser(rule('x'), tokenizer=x), x)
        bad('tagger of a wrong kind', lambda: Parser(rule('x'), tokenizer=TOKENIZER, tagger=x), x)
    y = RNG.choice([P.eq('x'), 'x', 1, None, gnc_relation(), F, main(rule('x'))])
    bad('parser of a wrong kind', lambda: Parser(y, tokenizer=TOKENIZER), y)


def tokenizers():
    t = Tokenizer()
    have = list(TYPES)
    steps = []
    for _ in range(RNG.randrange(1, 5)):
        k = RNG.randrange(4)
        if k == 0:
            x = RNG.choice([1, 'EMAIL', ('EMAIL', 'x'), None, TokenRule, {'type': 'x'}])
            bad('adding a wrong kind of token rule', lambda: t.add_rules(*RNG.sample([EMAIL_RULE, x], 2)), x)
            bad('token rules of a wrong kind', lambda: Tokenizer(RULES + [x]), x)
            bad('token rules of a wrong kind', lambda: MorphTokenizer(RULES + [x], morph=TOKENIZER.morph), x)
        elif k == 1 and len(have) > 2:
            ts = RNG.sample(have, RNG.randrange(1, 3))
            steps.append(('remove', ts))
            good('removing types', lambda: t.remove_types(*ts), steps)
            for x in ts:
                have.remove(x)
        elif k == 2:
            x = RNG.choice(['XX', 'ru', ''] + [x for x in TYPES + ['NEW'] if x not in have])
            ts = [x] + RNG.sample(have, RNG.randrange(2))
            RNG.shuffle(ts)
            bad('removing unknown types', lambda: t.remove_types(*ts), (steps, ts))
        else:
            name = RNG.choice(['NEW', 'RU', 'Z'])
            steps.append(('add', name))
            good('adding a token rule', lambda: t.add_rules(TokenRule(name, 'zz')), steps)
            if name not in have:
                have.append(name)
        for x in set(TYPES + ['NEW', 'XX', 'Z']):
            use = lambda: Parser(rule(P.type(x)), tokenizer=t)
            (good if x in have else bad)('type %r' % x, use, (steps, have))


def facts():
    names = RNG.sample(['a', 'b', 'c', 'd', 'имя'], RNG.randrange(1, 4))
    made = []
    for n in names:
        made.append(RNG.choice([lambda: n, lambda: attribute(n), lambda: attribute(n, 5), lambda: attribute(n).repeatable()])())
    X = good('fact', lambda: fact('X', made), names)
    for n in ['a', 'b', 'c', 'd', 'имя', 'as_jso', 'x']:
        (good if n in names else bad)('attribute %r' % n, lambda: getattr(X, n), names)
        (good if n in names else bad)('fact value %r' % n, lambda: X(**{n: 1}), names)
    for n in ['as_json', 'spans', '_raw', '__attributes__', '__init__', '__class__', '__eq__', '__doc__', 'set', 'scheme', 'raw']:
        bad('fact value %r' % n, lambda: X(**{n: RNG.choice([1, None, [], X])}), names)
    d = RNG.choice([0, 1, 'x', False, []])
    bad('repeatable attribute with a default', lambda: attribute('a', d).repeatable(), d)
    for use in ('inflected', 'normalized'):
        bad('chaining %s twice' % use, lambda: getattr(getattr(F.a, use)(), use)())


def run():
    parts = [mixed, constructs, surroundings, tokenizers, facts]
    n = 0
    while R.left() > 0 and not R.full() and n < (4000 if THOROUGH else 500):
        n += 1
        for p in parts:
            p()


R.rule = 'a misuse or a valid use of a constructor, combinator or parser, with its seeded surroundings'
R.bound = 'surroundings up to 4 levels; seeded'
main_ = main
from base import main as report
report(run)
