"""C22: printed grammars: the lines against the parts of the compiled grammar, and read back as a grammar."""
from gram import *
import re

from yargy import and_, or_ as either, not_
from yargy.relations import Relation
from yargy.relations.constructors import AndRelation, OrRelation, NotRelation
from yargy.rule.constructors import Production, EmptyProduction
from yargy.rule.bnf import BNFRule
from yargy.interpretation import fact
from yargy.parser import Context
from yargy.morph import Form, Grams
from yargy.predicates import eq, type as has_type
from yargy.tokenizer import MorphTokenizer
from yargy.pipelines import pipeline, caseless_pipeline, morph_pipeline

LINE = re.compile(r"(\S+) ->(?: (.*))?$")
PART = re.compile(r"\^?(?:or_\((?:'[a-z]'(?:, )?)+\)|'[a-z]'|[A-Za-z]\w*)(?: |$)")


def rel_and(*items):
    return AndRelation(items)


def rel_or(*items):
    return OrRelation(items)


rel_not = NotRelation


class Tie(Relation):
    __attributes__ = ['name']

    def __init__(self, name):
        self.name = name

    def __call__(self, form, other):
        return True

    @property
    def label(self):
        return self.name


class Forms(Tokenizer):
    def __call__(self, text):
        for i, t in enumerate(Tokenizer.__call__(self, text)):
            yield t.morphed([Form(i, Grams(set()), raw=None)])


def source(bnf):
    return list(bnf.source)


def parts(start):
    """rules of a compiled grammar, the start first"""
    seen, order = {id(start)}, [start]
    for x in order:
        for p in x.productions:
            for t in p.terms:
                if isinstance(t, BNFRule) and id(t) not in seen:
                    seen.add(id(t))
                    order.append(t)
    return order


def shown(rule):
    """the label of a rule, from what it carries"""
    out = rule.name if rule.interpretator is None else rule.interpretator.label
    return out if rule.relation is None else '%s^%s' % (out, rule.relation.label)


def line(rule):
    kind = {'PipelineBNFRule': 'pipeline', 'CaselessPipelineBNFRule': 'caseless_pipeline',
            'MorphPipelineBNFRule': 'morph_pipeline'}.get(type(rule).__name__)
    if kind:
        return '%s -> %s' % (shown(rule), kind)
    alternatives = []
    for p in rule.productions:
        if isinstance(p, EmptyProduction):
            alternatives.append('e')
            continue
        words = []
        for i, t in enumerate(p.terms):
            own = shown(t) if isinstance(t, BNFRule) else t.label
            words.append('^' + own if p.main > 0 and i == p.main else own)
        alternatives.append(' '.join(words))
    return '%s -> %s' % (shown(rule), ' | '.join(alternatives))


def compare(what, case, bnf, given):
    ok, lines = R.guard(what, case, source, bnf)
    if not ok:
        return
    R.case((what, repr(case)[:300]))
    every = parts(bnf.start)
    want = [line(x) for x in every]
    if sorted(lines) != sorted(want) or lines[:1] != want[:1]:
        R.fail('%s: the lines are not those of the rules' % what, case, got=lines, want=want)
        return
    if {id(x) for x in bnf.rules} != {id(x) for x in every} or len(bnf.rules) != len(every):
        R.fail('%s: a rule is missing or printed twice' % what, case, got=lines)
        return
    numbers = [x.name for x in bnf.rules if x.name not in given]
    if numbers != ['R%d' % i for i in range(len(numbers))]:
        R.fail('%s: rules without a name are not numbered in the order of the lines' % what, case, got=lines, numbers=numbers)
    ok, again = R.guard(what, case, source, bnf)
    if ok and again != lines:
        R.fail('%s: printed again it is another one' % what, case, got=again, want=lines)
    ok, again = R.guard(what, case, lambda: source(bnf.start.as_bnf))
    if ok and again != lines:
        R.fail('%s: printed from its start it is another one' % what, case, got=again, want=lines)
    # printing a part of it leaves it as it is
    for x in every[1:4]:
        ok, own = R.guard(what, case, lambda: source(x.as_bnf))
        if ok and sorted(own) != sorted(line(y) for y in parts(x)):
            R.fail('%s: the lines of a part are not those of its rules' % what, case, got=own)
    ok, again = R.guard(what, case, source, bnf)
    if ok and again != lines:
        R.fail('%s: printed after a part of it, it is another one' % what, case, got=again, want=lines)


def grammars():
    tokenizer = Forms()
    F = fact('F', ['a', 'b'])
    ties = [Tie('one'), Tie('two')]
    ties += [rel_and(*ties), rel_or(*ties), rel_not(ties[0])]
    end = time.time() + R.left(.55)
    while time.time() < end and not R.full():
        gen = Gen(RNG, marks=.5, mains=True, share=RNG.choice([0, .1, .3]), pipes=RNG.random() < .3)
        g = gen.grammar(RNG.choice([1, 2, 3]), 1)
        if known_defect(g):
            continue
        kinds = {}

        def wrap(r, label):
            for k in kinds.setdefault(label, [RNG.randrange(3) for _ in range(RNG.choice([1, 1, 2, 3]))]):
                if k == 0:
                    r = r.named('name_' + label)
                elif k == 1:
                    r = r.match(RNG.choice(ties))
                else:
                    r = r.interpretation(RNG.choice([F, F.a, F.b.const('x'), F.b.custom(str), F.a.inflected({'nomn'})]))
            return r
        case = (repr(g), kinds)
        try:
            made = build(g, wrap)
            stages = [('compiled', limited(5, lambda: made.activate(Context(tokenizer)).normalized.as_bnf))]
            if not cyclic(g):
                stages.append(('in a parser', limited(5, lambda: Parser(made, tokenizer=tokenizer).rule.as_bnf)))
        except (Slow, RecursionError):
            continue
        except Exception as x:
            R.raised('compiled', case, x)
            continue
        given = {'name_' + k for k in kinds}
        for what, bnf in stages:
            compare(what, case, bnf, given)


def read(lines):
    """the printed lines as a grammar"""
    defs = {}
    start = None
    for x in lines:
        m = LINE.match(x)
        if not m:
            raise ValueError('not a rule: %r' % x)
        name, body = m.group(1), m.group(2) or ''
        start = start or name
        if name in defs:
            raise ValueError('two rules of one name: %r' % name)
        items = []
        for alternative in body.split(' | '):
            if alternative == 'e':
                items.append(('empty',))
                continue
            terms, at = [], 0
            while at < len(alternative):
                t = PART.match(alternative, at)
                if not t:
                    raise ValueError('not a part: %r in %r' % (alternative[at:], x))
                word = t.group(0).strip().lstrip('^')
                terms.append(('t', ''.join(re.findall("'([a-z])'", word))) if "'" in word else ('ref', word))
                at = t.end()
            items.append(('seq', tuple(terms), 0))
        defs[name] = ('alt', tuple(items))
    for d in defs.values():
        for s in d[1]:
            for t in (s[1] if s[0] == 'seq' else ()):
                if t[0] == 'ref' and t[1] not in defs:
                    raise ValueError('no line for %r' % t[1])
    return Grammar(('ref', start), defs)


def back():
    """the language of the printed lines is the language of the grammar"""
    end = time.time() + R.left(.9)
    while time.time() < end and not R.full():
        gen = Gen(RNG, marks=.3, mains=True, share=RNG.choice([0, .1]), pipes=False)
        g = gen.grammar(RNG.choice([1, 2, 3]), RNG.choice([0, 1]))
        if known_defect(g):
            continue
        term = lambda letters: eq(letters[0]) if len(letters) == 1 else either(*[eq(x) for x in letters])   # noqa: E731
        try:
            bnf = limited(5, lambda: build(g, term=term).normalized.as_bnf)
        except (Slow, RecursionError):
            continue
        except Exception as x:
            R.raised('compiled', g, x)
            continue
        labels = [x.name for x in parts(bnf.start)]
        ok, lines = R.guard('printed', g, source, bnf)
        if not ok or len({x for x in labels if x[0] == 'n'}) != len([x for x in labels if x[0] == 'n']):
            continue
        try:
            h = read(lines)
        except ValueError as x:
            R.fail('the lines cannot be read back: %s' % x, g, got=lines)
            continue
        for _ in range(4):
            words = tuple(RNG.choice(gen.alphabet) for _ in range(RNG.randrange(0, 5)))
            got, want = Spans(h, words).of(h.start), Spans(g, words).of(g.start)
            R.case(('read back', repr(g)[:200], words))
            if got != want:
                R.fail('the lines derive other texts', (repr(g), words), got=sorted(got), want=sorted(want), lines=lines)
                break


def labels():
    """operands of compositions, gazetteers, a main part and an empty alternative as documented"""
    a, b, c = eq('a'), eq('b'), has_type('RU')
    for made, name in ((and_, 'and_'), (either, 'or_')):
        for parts_ in ([a], [a, b], [b, a], [a, b, c], [b, b]):
            R.same(made(*parts_).label, '%s(%s)' % (name, ', '.join(x.label for x in parts_)), 'label', (name, parts_))
    R.same(not_(a).label, 'not_(%s)' % a.label, 'label', 'not_')
    R.same(not_(either(a, and_(b, c))).label, 'not_(or_(%s, and_(%s, %s)))' % (a.label, b.label, c.label), 'label', 'nested')
    x, y, z = Tie('x'), Tie('y'), Tie('z')
    R.same([rel_and(x, y, z).label, rel_or(z, x).label, rel_not(y).label, rel_not(rel_or(x, rel_and(y, z))).label],
           ['and_(x, y, z)', 'or_(z, x)', 'not_(y)', 'not_(or_(x, and_(y, z)))'], 'labels of relations', 'x y z')
    from yargy import rule, forward, or_
    from yargy.relations import main
    F = fact('F', ['a'])
    last = rule('c').named('LAST')
    loop = forward()
    loop.define(or_(rule('d', loop), rule('e')).named('LOOP'))
    for made, want in (
        (rule('a', 'b', 'c'), ["R0 -> 'a' 'b' 'c'"]),
        (rule('a', main(b), 'c'), ["R0 -> 'a' ^'b' 'c'"]),
        (rule('a', 'b', main(last)), ["R0 -> 'a' 'b' ^LAST", "LAST -> 'c'"]),
        (rule(main(a), 'b'), ["R0 -> 'a' 'b'"]),
        (or_(rule('a'), empty(), rule('b', 'c')), ["R0 -> 'a' | e | 'b' 'c'"]),
        (rule('a', last, last).named('TOP'), ["TOP -> 'a' LAST LAST", "LAST -> 'c'"]),
        (rule('a').interpretation(F.a).match(x), ["F.a^x -> 'a'"]),
        (rule('a').named('N').match(rel_and(x, y)), ["N^and_(x, y) -> 'a'"]),
        (rule('a').named('N').interpretation(F), ["F -> 'a'"]),
        (loop, ["LOOP -> 'd' LOOP | 'e'"]),
        (rule(pipeline(['a']), caseless_pipeline(['a']), morph_pipeline(['a'])),
         ['R0 -> R1 R2 R3', 'R1 -> pipeline', 'R2 -> caseless_pipeline', 'R3 -> morph_pipeline']),
        (pipeline(['a']).named('P').match(y), ['P^y -> pipeline']),
    ):
        ok, got = R.guard('printed', want, lambda: source(made.activate(Context(MorphTokenizer())).normalized.as_bnf))
        if ok:
            R.same(got[:1] + sorted(got[1:]), want[:1] + sorted(want[1:]), 'printed', want)


R.rule = 'a printed grammar: its lines against its rules; read back as a grammar; a documented label'
R.bound = 'grammars up to depth 3 with shared and recursive parts and up to three marks on a part, texts up to 4 words'
main(labels, grammars, back)
