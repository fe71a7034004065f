"""Planted bugs (see mkseed.py)."""
P = 'yargy/'
SEEDS = []


def seed(id, property, edits, needs, what, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, what_it_breaks=what, demo=demo))


seed('c06-single', 'C06', [(P + 'predicates/bank.py', 'return number.single or number.only_single',
                           'return number.single or number.only_single or not number.plural')],
     'a word form without number (an adverb, an infinitive)',
     'is_single accepts, and keeps, forms that are not in the singular', '''
from yargy.tokenizer import MorphTokenizer
from yargy.predicates import is_single
t, = MorphTokenizer()('быстро')
forms = [f for f in t.forms if f.grams.number.single or f.grams.number.only_single]
assert is_single().constrain(t).forms == forms
assert is_single()(t) == bool(forms)
''')

seed('c07-bi', 'C07', [(P + 'relations/bank.py', 'or (other_bi and (form_male or form_female))',
                       'or (other_bi and form_male)')],
     'a word of common gender second, a feminine word first',
     'gender agreement depends on the order of the two forms', '''
from yargy.morph import Form, Grams
from yargy.relations import gender_relation
a, b = Form('a', Grams({'femn', 'sing'})), Form('b', Grams({'ms-f', 'sing'}))
r = gender_relation()
assert bool(r(a, b)) == bool(r(b, a)) == True
''')

seed('c12-inflected-custom', 'C12', [(P + 'interpretation/attribute.py', '''        return MorphFunctionNormalizer(
            InflectedNormalizer(self.grams),''', '''        return MorphFunctionNormalizer(
            InflectedNormalizer(),''')],
     'inflected(grams) followed by custom, on an attribute, with grammemes other than the default',
     'the grammemes are forgotten when a function follows', '''
from yargy import Parser, rule
from yargy.predicates import gram
from yargy.interpretation import fact, inflected
F = fact('F', ['x'])
G = fact('G', ['x'])
def run(F, mark):
    return Parser(rule(gram('NOUN').interpretation(mark)).interpretation(F)).match('стол').fact.x
want = inflected({'gent', 'sing'})
assert run(F, F.x.inflected({'gent', 'sing'}).custom(str.upper)) == 'СТОЛА'
''')

seed('c17-normalized', 'C17', [(P + 'morph.py', 'return {_.normalized for _ in self(word)}',
                               'return {_.normalized for _ in self(word)[:2]}')],
     'a word with more than two readings whose later readings have other normal forms',
     'the normal forms of a word are not those of all its readings', '''
from yargy.morph import MorphAnalyzer
m = MorphAnalyzer()
for w in ['стали', 'уха', 'мыла', 'три', 'пила', 'простой', 'знать', 'вести', 'банка', 'жила', 'дорогой', 'белила']:
    assert m.normalized(w) == {r.normal_form for r in m.raw.parse(w)}, w
''')

seed('c20-order', 'C20', [(P + 'tagger.py', 'for tagger in self.taggers:\n            tokens',
                          'for tagger in reversed(self.taggers):\n            tokens')],
     'a composition of two taggers where the later one reads the tags of the earlier one',
     'taggers are applied in the opposite order', '''
from yargy.tagger import Tagger, TaggersComposition
from yargy.tokenizer import Tokenizer
class A(Tagger):
    tags = ['A']
    def __call__(self, tokens):
        return (_.tagged('A') for _ in tokens)
class B(Tagger):
    tags = ['B']
    def __call__(self, tokens):
        return (_.tagged('B') for _ in tokens)
t, = TaggersComposition([A(), B()])(Tokenizer()('x'))
assert t.tag == 'B'
''')

seed('c01-next', 'C01', [(P + 'span.py', 'if start >= stop:', 'if start > stop:')],
     'two matches that touch',
     'a match that starts right where another ends is not combined with it', '''
from yargy import Parser, rule
from yargy.predicates import eq
p = Parser(rule(eq('a'), eq('b')))
assert len(list(p.findall('a b a b'))) == 2
''')

seed('c03-alternatives', 'C03', [(P + 'parser.py', '''id(self.rule), id(self.production), self.dot_index,
            self.start_column.index, self.stop_column.index,
            tuple''', '''id(self.rule), len(self.production.terms), self.dot_index,
            self.start_column.index, self.stop_column.index,
            tuple''')],
     'a rule with two alternatives of the same length, started at the same token',
     'alternatives of equal length are taken for the same, so all but the first are lost', '''
from yargy import Parser, rule, or_
from yargy.predicates import eq
p = Parser(or_(rule(eq('a'), eq('b')), rule(eq('a'), eq('c'))))
assert p.match('a b') and p.match('a c')
''')

seed('c04-rank', 'C04', [(P + 'tree/constructors.py', '''                if a.rank < b.rank:
                    return True
                elif a.rank > b.rank:
                    return False
                elif a.rank == b.rank:
                    return a < b
            return False''', '''                if a.rank != b.rank:
                    return a.rank < b.rank
                elif a < b:
                    return True
            return False''')],
     'two derivations that differ in a left part (nested) and, the other way round, in a right part',
     'a right part decides when the left part has already decided', '''
from yargy import Parser, rule, or_
from yargy.predicates import eq, true
from yargy.interpretation import fact
A = or_(rule(eq('a')).named('A1'), rule(true()).named('A2'))
S = rule(rule(rule(A, eq('x')).named('N'), A).named('M'))
m = Parser(S).match('a x a')
def ranks(n):
    out = []
    for c in n.children:
        if hasattr(c, 'rank'):
            out.append(c.rank)
            out += ranks(c)
    return out
from yargy.tree import Node
trees = sorted(__import__('yargy.parser', fromlist=['x']).prepare_trees(Parser(S).matches('a x a', all=False)))
assert all(not (b < a) for i, a in enumerate(trees) for b in trees[i:])
best = m
assert all(r == 0 for r in ranks(m.tree.root)), ranks(m.tree.root)
for x in trees:
    for y in trees:
        assert not (x < y and y < x)
''')

seed('c01-seen', 'C01', [(P + 'parser.py', """            match = prepare_match(tree)
            if match:
                spans.append(span)
                span_matches[span] = match
""", """            match = prepare_match(tree)
            span_matches[span] = match
            if match:
                spans.append(span)
""")],
     'a range whose preferred derivation fails agreement while a later one meets it',
     'a range is given up after its first derivation, so findall covers less than it could', """
from yargy import Parser, rule, or_
from yargy.predicates import gram, eq
from yargy.relations import gnc_relation
gnc = gnc_relation()
A = rule(gram('ADJF').match(gnc), gram('NOUN').match(gnc))
B = rule(eq('красивая'), eq('столы'))
p = Parser(or_(A, B))
m, = p.findall('красивая столы')
assert len(m.tokens) == 2
""")

seed('c02-names', 'C02', [(P + 'parser.py', 'self.states_index[id(next_term)].append(state)',
                           'self.states_index[next_term.name].append(state)'),
                          (P + 'parser.py', 'return self.start_column.states_index[id(self.rule)]',
                           'return self.start_column.states_index[self.rule.name]')],
     'two different parts of a grammar with the same name',
     'a phrase of one rule is taken for a phrase of another rule of the same name', """
from yargy import Parser, rule, or_
from yargy.predicates import eq
A = rule(eq('a'), eq('x')).named('N')
B = rule(eq('b'), eq('x')).named('N')
p = Parser(or_(rule(A, eq('1')), rule(B, eq('2'))))
assert p.match('a x 1') and p.match('b x 2')
assert p.match('a x 2') is None and p.match('b x 1') is None
""")

seed('c03-end', 'C03', [(P + 'parser.py', """            if next_column
            else rule.productions
""", """            if next_column
            else rule.productions[:1]
""")],
     'a rule at the end of the text that derives nothing by an alternative other than the first',
     'an optional part that prefers to be present cannot be absent at the end of the text', """
from yargy import Parser, rule, or_, empty
from yargy.predicates import eq
p = Parser(rule(eq('a'), or_(rule(eq('b'), eq('c')), rule(eq('d')), empty())))
assert p.match('a') and p.match('a d')
p = Parser(rule(eq('a'), rule(eq('b')).optional(reverse=True)))
assert p.match('a') and p.match('a b')
""")

seed('c04-squash', 'C04', [(P + 'rule/transformators.py', """    def visit_MaxBoundedRule(self, item):
        child = item.rule
        if isinstance(child, (RepeatableRule, RepeatableOptionalRule)):
            return self.visit_BoundedRule(item)
        elif isinstance(child, OptionalRule):
            return self.visit(OptionalRule(
                MaxBoundedRule(
                    child.rule, item.max, item.reverse
                ),
                child.reverse
            ))""", """    def visit_MaxBoundedRule(self, item):
        child = item.rule
        if isinstance(child, (RepeatableRule, RepeatableOptionalRule)):
            return self.visit_BoundedRule(item)
        elif isinstance(child, OptionalRule):
            return self.visit(OptionalRule(
                MaxBoundedRule(
                    child.rule, item.max, child.reverse
                ),
                item.reverse
            ))""")],
     'an optional part repeated up to a bound, with only one of the two reversed',
     'the order of the optional part and of its repetition are exchanged', """
from yargy import Parser, rule
from yargy.predicates import eq
a = rule(eq('a'))
p = Parser(rule(a.optional(reverse=True).repeatable(max=3).named('X'), a.optional().named('Y')))
def words(text):
    # how many words the first part takes
    m = p.match(text)
    def leaves(n):
        return 1 if hasattr(n, 'token') else sum(map(leaves, n.children))
    def find(n):
        if not hasattr(n, 'token'):
            if n.rule.name == 'X':
                return leaves(n)
            for c in n.children:
                r = find(c)
                if r is not None:
                    return r
    return find(m.tree.root)
assert words('a a') == 2, words('a a')
""")

seed('c04-reverse', 'C04', [(P + 'rule/transformators.py', '        a, b, c = b, c, a\n',
                             '        a, c = c, a\n')],
     'an optional repetition that prefers to be present, next to another that competes for the same words',
     'a repetition takes as little as possible when the optional part is reversed', """
from yargy import Parser, rule
from yargy.predicates import eq
a = rule(eq('a'))
p = Parser(rule(a.repeatable().optional(reverse=True).named('X'), a.repeatable().optional(reverse=True).named('Y')))
m = p.match('a a a')
def leaves(n):
    return 1 if hasattr(n, 'token') else sum(map(leaves, n.children))
def find(n, name):
    if hasattr(n, 'token'):
        return
    if n.rule.name == name:
        return leaves(n)
    for c in n.children:
        r = find(c, name)
        if r is not None:
            return r
assert find(m.tree.root, 'X') == 3, find(m.tree.root, 'X')
""")

seed('c05-shared', 'C05', [(P + 'rule/bnf.py', 'return self.parents[id(item)] > 1', 'return self.parents[id(item)] > 2')],
     'the same rule used once plain and once with an interpretation',
     'the interpretation put on one use of a part shows up on its other use', """
from yargy import Parser, rule
from yargy.predicates import eq, in_
from yargy.interpretation import fact
F = fact('F', ['x'])
w = rule(in_({'a', 'b', 'c'}), in_({'a', 'b', 'c'}))
p = Parser(rule(w.interpretation(F.x), eq('-'), w).interpretation(F))
f = p.match('a b - b c').fact
assert f.x == 'a b', f
""")

seed('c08-chain', 'C08', [(P + 'relations/graph.py', 'combinations(items, 2)', 'zip(items, items[1:])')],
     'three tied words of which the first and the third cannot agree',
     'agreement is checked between neighbours only', """
from yargy.relations.graph import TokenRelationsGraph
from yargy.relations import gender_relation
from yargy.morph import Form, Grams
from yargy.token import Token
from yargy.span import Span
def word(i, *forms):
    return Token('w%d' % i, Span(i, i + 1), 'RU').morphed([Form('f', Grams(set(f))) for f in forms])
g = TokenRelationsGraph()
r = gender_relation()
for w in [word(0, ['masc', 'sing']), word(1, ['ms-f', 'sing']), word(2, ['femn', 'sing'])]:
    g.add(r, w)
assert not g.validate()
""")

seed('c08-second', 'C08', [(P + 'relations/graph.py', """                            checked_first_forms.append(first_form)
                        if second_form not in checked_second_forms:
                            checked_second_forms.append(second_form)""",
                            """                            checked_first_forms.append(first_form)
                            if second_form not in checked_second_forms:
                                checked_second_forms.append(second_form)""")],
     'one form of a word that agrees with several forms of the other word',
     'forms that agree are removed', """
from yargy.relations.graph import TokenRelationsGraph
from yargy.relations import gender_relation
from yargy.morph import Form, Grams
from yargy.token import Token
from yargy.span import Span
def word(i, *forms):
    return Token('w%d' % i, Span(i, i + 1), 'RU').morphed([Form('f%d' % j, Grams(set(f))) for j, f in enumerate(forms)])
g = TokenRelationsGraph()
r = gender_relation()
a, b = word(0, ['masc', 'sing']), word(1, ['masc', 'sing', 'nomn'], ['masc', 'sing', 'accs'])
g.add(r, a)
g.add(r, b)
assert g.validate()
assert len(g.constrain(b).forms) == 2
""")

seed('c09-remove', 'C09', [(P + 'tokenizer.py', '            if _.type not in types\n', '            if _.type != types[-1]\n')],
     'several types removed at once',
     'only the last of the types given is removed', """
from yargy.tokenizer import Tokenizer
t = Tokenizer().remove_types('PUNCT', 'INT')
assert [_.type for _ in t('a, 1')] == ['LATIN', 'OTHER', 'OTHER'], list(t('a, 1'))
""")

seed('c09-shared', 'C09', [(P + 'tokenizer.py', '        self.reset(list(rules) + self.rules)\n',
                            '        for rule in reversed(rules):\n            self.rules.insert(0, rule)\n        self.reset(self.rules)\n')],
     'a rule added to one tokenizer, another tokenizer made after it',
     'a rule added to one tokenizer changes the default rules', """
from yargy.tokenizer import Tokenizer, PHONE_RULE, RULES
n = len(RULES)
a = Tokenizer().add_rules(PHONE_RULE)
assert [_.type for _ in Tokenizer()('89261234567')] == ['INT']
assert len(RULES) == n
""")

seed('c10-length', 'C10', [(P + 'token.py', """    return Token(
        token.normalized,
        token.span,
        token.type
    )""", """    value = token.normalized
    start, stop = token.span
    return Token(
        value,
        Span(start, min(stop, start + len(value))),
        token.type
    )""")],
     'a word whose normal form is shorter than the word, right before punctuation',
     'a space appears where the text had no gap', """
from yargy.tokenizer import MorphTokenizer
from yargy.token import join_normalized_tokens
assert join_normalized_tokens(list(MorphTokenizer()('столами, столами'))) == 'стол, стол'
""")

seed('c11-json', 'C11', [(P + 'interpretation/fact.py', """            if value is not None:
                data[key] = value""", """            if value or key in self.repeatable:
                data[key] = value""")],
     'an attribute with the value 0, False or the empty text',
     'attributes whose value is 0 or False are missing from the JSON view', """
from yargy import Parser, rule
from yargy.predicates import eq
from yargy.interpretation import fact
F = fact('F', ['x', 'y'])
p = Parser(rule(eq('a').interpretation(F.x.const(0)), eq('b').interpretation(F.y)).interpretation(F))
m = p.match('a b')
assert dict(m.fact.as_json) == {'x': 0, 'y': 'b'}, m.fact.as_json
""")

seed('c11-merge', 'C11', [(P + 'interpretation/fact.py', 'for key in fact.modified:', 'for key in fact.attributes:')],
     'a nested fact of the same kind that leaves an attribute unmarked which was marked before it',
     'a nested fact resets attributes it does not mark', """
from yargy import Parser, rule
from yargy.predicates import eq
from yargy.interpretation import fact
F = fact('F', ['x', 'y'])
inner = rule(eq('b').interpretation(F.y)).interpretation(F)
p = Parser(rule(eq('a').interpretation(F.x), inner).interpretation(F))
f = p.match('a b').fact
assert (f.x, f.y) == ('a', 'b'), f
""")

seed('c11-spans', 'C11', [(P + 'interpretation/fact.py', """        return sorted(
            self._raw.spans,
            key=lambda _: _.start
        )""", """        return list(self._raw.spans)""")],
     'attributes declared in another order than they occur in the text',
     'the spans of a fact are not in text order', """
from yargy import Parser, rule
from yargy.predicates import eq
from yargy.interpretation import fact
F = fact('F', ['y', 'x'])
p = Parser(rule(eq('a').interpretation(F.x), eq('b').interpretation(F.y)).interpretation(F))
s = p.match('a b').fact.spans
assert [_.start for _ in s] == [0, 2], s
""")

seed('c12-inflect', 'C12', [(P + 'morph.py', """        if not record:
            return self.normalized
        return record.word""", """        if not record:
            return self.raw.word
        return record.word""")],
     'a word that cannot be inflected and differs from its normal form',
     'inflected gives the word as written instead of its normal form', """
from yargy.tokenizer import MorphTokenizer
from yargy.token import join_inflected_tokens
for w in ['бежали', 'шёл', 'столы', 'быстрее', 'красивее']:
    t, = MorphTokenizer()(w)
    f = t.forms[0]
    r = f.raw.inflect({'NOUN', 'gent'})
    assert join_inflected_tokens([t], {'NOUN', 'gent'}) == (r.word if r else f.normalized), w
""")

seed('c13-latin', 'C13', [(P + 'pipelines.py', '            normalized = {token.normalized}\n',
                           '            normalized = {token.value}\n')],
     'a morph pipeline line that starts with a word which is not Russian, written in capitals',
     'lines that start with a Latin word are not found when the text has capitals', """
from yargy import Parser
from yargy.pipelines import morph_pipeline
p = Parser(morph_pipeline(['IBM офис', 'xerox']))
assert p.match('IBM офиса') and p.match('Xerox') and p.match('xerox')
""")

seed('c14-forms', 'C14', [(P + 'relations/graph.py', '            return token.constrained(forms)\n',
                           '            token.forms = forms\n            return token\n')],
     'two matches of one text that share a word tied by agreement',
     'narrowing the forms of a word in one match narrows them in other matches and in the cache', """
from yargy import Parser, rule, or_
from yargy.predicates import gram
from yargy.relations import gnc_relation
from yargy.tokenizer import MorphTokenizer
gnc = gnc_relation()
p = Parser(rule(gram('ADJF').match(gnc), gram('NOUN').match(gnc)))
t = list(p.tokenizer('новые банки'))
before = [len(_.forms) for _ in t]
ADJ, NOUN = gram('ADJF'), gram('NOUN')
from yargy.predicates import true
q = Parser(rule(true().match(gnc), true().match(gnc)))
a = list(q.extract('новые банки стали'))
alone = {tuple(_.value for _ in m.tokens): [len(_.forms) for _ in m.tokens] for m in a}
for m in q.extract('банки стали'):
    want = [len(_.forms) for _ in m.tokens]
    got = alone[tuple(_.value for _ in m.tokens)]
    assert got == want, (got, want)
""")

seed('c15-main', 'C15', [(P + 'rule/transformators.py', """                if len(productions) == 1:
                    production = productions[0]
                    return self.visit(production)""", """                if len(productions) == 1:
                    production = productions[0]
                    return Production(
                        [self.visit_term(_) for _ in production.terms]
                    )""")],
     'a phrase with a main word that is the only part of another phrase',
     'the main mark of an inner phrase is lost when the outer phrase has nothing else', """
from yargy import Parser, rule
from yargy.predicates import eq
from yargy.relations import main
p = Parser(rule(rule(eq('a'), main(eq('b')))))
m = p.match('a b')
assert m.tree.root.main.value == 'b', m.tree.root.main
""")

seed('c16-tag', 'C16', [(P + 'token.py', "    __attributes__ = ['value', 'span', 'type', 'tag']\n",
                         "    __attributes__ = ['value', 'span', 'type']\n")],
     'two tokens that differ only in their tags',
     'tokens with different tags are equal', """
from yargy.token import Token
from yargy.span import Span
t = Token('x', Span(0, 1), 'T')
assert t.tagged('A') != t.tagged('B') and not (t.tagged('A') == t.tagged('B')) and t.tagged('A') == t.tagged('A')
""")

seed('c17-voct', 'C17', [(P + 'morph.py', "'ablt', 'loct', 'voct']", "'ablt', 'loct']")],
     'a form in the vocative',
     'the vocative is not among the case features', """
from yargy.morph import Case
from yargy.morph import Grams
assert Grams({'voct'}).case != Grams(set()).case
""")

seed('c18-types', 'C18', [(P + 'predicates/bank.py', """            for type in self.types:
                context.tokenizer.check_type(type)""", """            type, *_ = self.types
            context.tokenizer.check_type(type)""")],
     'a custom predicate for several types of which a later one is unknown',
     'an unknown token type is accepted', """
from yargy import Parser, rule
from yargy.predicates import custom
try:
    Parser(rule(custom(str.isdigit, types=['INT', 'NOSUCH'])))
except ValueError:
    pass
else:
    raise SystemExit(1)
""")

seed('c18-relation', 'C18', [(P + 'rule/constructors.py', """        super(RelationRule, self).__init__(rule)
        assert_type(relation, Relation)""", """        super(RelationRule, self).__init__(rule)
        assert_type(relation, (Relation, type))""")],
     'a relation class given in place of a relation',
     'a class is accepted where a relation is required', """
from yargy import rule
from yargy.relations import gnc_relation
from yargy.predicates import gram
try:
    rule('x').match(gnc_relation)
except TypeError:
    pass
else:
    raise SystemExit(1)
rule('x').match(gnc_relation())
""")

seed('c19-ids', 'C19', [(P + 'dot.py', '        item_id = id(item)\n', '        item_id = repr(item)\n')],
     'two equal parts of a grammar',
     'equal but distinct parts share an identifier in the drawing', """
from yargy import rule
from yargy.predicates import eq
r = rule(eq('a'), eq('a'))
lines = [l for l in r.as_dot.source if '[' in l and '->' not in l and l[0].isdigit()]
ids = [l.split()[0] for l in lines]
assert len(ids) == len(set(ids)) == 4, lines
""")

seed('c20-check', 'C20', [(P + 'tagger.py', """        return any(
            _.check_tag(tag)
            for _ in self.taggers
        )""", """        return all(
            _.check_tag(tag)
            for _ in self.taggers
        )""")],
     'a composition of taggers with different tags',
     'a composition does not know the tags of its parts', """
from yargy.tagger import Tagger, TaggersComposition
class A(Tagger):
    tags = ['A']
class B(Tagger):
    tags = ['B']
t = TaggersComposition([A(), B()])
assert t.check_tag('A') and t.check_tag('B') and not t.check_tag('C')
""")

seed('c07-fixed', 'C07', [(P + 'relations/bank.py', """            form_mask == other_mask
            or form_fixed
            or other_fixed""", """            form_mask == other_mask
            or form_fixed""")],
     'an indeclinable word second, in a case other than that of the first',
     'case agreement with an indeclinable word depends on the order', """
from yargy.morph import Form, Grams
from yargy.relations import case_relation
a, b = Form('a', Grams({'gent'})), Form('b', Grams({'nomn', 'Fixd'}))
r = case_relation()
assert bool(r(a, b)) == bool(r(b, a)) == True
""")

seed('c06-all', 'C06', [(P + 'predicates/bank.py', """            return any(
                _.normalized in self.value
                for _ in token.forms
            )""", """            return token.normalized in self.value or any(
                _.normalized in self.value
                for _ in token.forms[:2]
            )""")],
     'a word whose third or later reading has a dictionary form in question',
     'dictionary predicates look at two readings only', """
from yargy.tokenizer import MorphTokenizer
from yargy.predicates.bank import DictionaryPredicate
for w in ['стали', 'три', 'уха', 'мыла', 'вести', 'белила', 'пила', 'банка', 'простой']:
    t, = MorphTokenizer()(w)
    for f in t.forms:
        assert DictionaryPredicate({f.normalized})(t), (w, f)
""")

seed('c05-equal', 'C05', [(P + 'rule/bnf.py', """        if item.interpretator:
            item = lift(item)""", """        if item.interpretator and item.interpretator != interpretator:
            item = lift(item)""")],
     'the same interpretation put on one part twice, one over the other',
     'an interpretation over an equal one is lost: a function marked twice is applied once', """
from yargy import Parser, rule
from yargy.predicates import eq
from yargy.interpretation import fact, custom
F = fact('F', ['x'])
f = lambda v: v + '!'
r = rule(eq('a')).interpretation(custom(f)).interpretation(custom(f)).interpretation(F.x).interpretation(F)
assert Parser(r).match('a').fact.x == 'a!!'
""")

seed('c13-casefold', 'C13', [(P + 'pipelines.py', """        value = token.value.lower()
        if value in self.index""", """        value = token.value.casefold()
        if value in self.index""")],
     'a caseless pipeline with a word whose lower case and case folding differ',
     'lines with such a word are never found', """
from yargy import Parser
from yargy.pipelines import caseless_pipeline
from yargy.tokenizer import Tokenizer
p = Parser(caseless_pipeline(['\\u00df x', 'y']), tokenizer=Tokenizer())
assert p.match('\\u00df X') and p.match('Y')
""")

seed('c13-first', 'C13', [(P + 'pipelines.py', "            index[term.value].append(production)",
                                              "            index[term.value].insert(0, production)")],
     'two lines of a pipeline with the same words but other spaces or case',
     'the last of the lines is the key, not the earliest', """
from yargy import Parser
from yargy.pipelines import caseless_pipeline, pipeline
from yargy.interpretation import fact
F = fact('F', ['x'])
p = Parser(pipeline(['a b', 'c', 'a  b']).interpretation(F.x.normalized()).interpretation(F))
assert p.match('a b').fact.x == 'a b'
p = Parser(caseless_pipeline(['Ivan', 'ivan']).interpretation(F.x.normalized()).interpretation(F))
assert p.match('IVAN').fact.x == 'Ivan'
""")

seed('c15-walk', 'C15', [(P + 'tree/constructors.py', """        items = dfs_tree(self.root)""",
                                                      """        items = bfs_tree(self.root)""")],
     'a word next to a phrase, after it',
     'words of a match are listed by depth, not in order of the text', """
from yargy import Parser, rule
from yargy.predicates import eq
p = Parser(rule(rule(rule(eq('a'), eq('b')), eq('c')), eq('d')))
assert [t.value for t in p.match('a b c d').tokens] == ['a', 'b', 'c', 'd']
""")

seed('c15-flatten', 'C15', [(P + 'tree/transformators.py', """                for item in self.flatten(child):
                    yield item""", """                queue = list(child.children)
                while queue:
                    item = queue.pop(0)
                    if isinstance(item, Leaf) or item.interpretator:
                        yield item
                    else:
                        queue.extend(item.children)""")],
     'a marked phrase with an unmarked part two levels deep, followed by another word',
     'words of a marked phrase come in the wrong order', """
from yargy import Parser, rule
from yargy.predicates import eq
from yargy.interpretation import fact
F = fact('F', ['x'])
r = rule(rule(rule(eq('a'), eq('b')).named('X'), eq('c')).named('Y'), eq('d')).interpretation(F.x).interpretation(F)
assert Parser(r).match('a b c d').fact.x == 'a b c d'
r = rule(rule(rule(eq('a'), eq('b')), eq('c')), eq('d')).interpretation(F.x).interpretation(F)
assert Parser(r).match('a b c d').fact.x == 'a b c d'
""")

seed('c22-main', 'C22', [(P + 'rule/constructors.py', """            if self.main > 0 and self.main == index:""",
                                                      """            if self.main > 0 and term is self.terms[self.main]:""")],
     'an alternative that has the main part twice',
     'the mark of the main part is printed at every place of that part', """
from yargy import rule
from yargy.relations import main
a, b = rule('a').named('A'), rule('b').named('B')
got = list(rule(a, b, main(a)).named('X').normalized.as_bnf.source)
assert got[0] == 'X -> A B ^A', got
assert list(rule(a, main(b)).named('X').normalized.as_bnf.source)[0] == 'X -> A ^B'
""")

seed('c22-lines', 'C22', [(P + 'rule/bnf.py', """        for rule in self.rules:
            yield str(rule)
""", """        lines = set()
        for rule in self.rules:
            line = str(rule)
            if line not in lines:
                lines.add(line)
                yield line
""")],
     'two rules of a grammar that are printed alike',
     'a rule of the grammar has no line', """
from yargy import rule
from yargy.interpretation import fact
F = fact('F', ['x'])
r = rule(rule('a').interpretation(F.x), rule('a').interpretation(F.x)).named('TOP')
assert list(r.normalized.as_bnf.source) == ["TOP -> F.x F.x", "F.x -> 'a'", "F.x -> 'a'"]
""")

seed('c22-renumber', 'C22', [(P + 'rule/bnf.py', """        if not rule.name:
            rule.name = 'R%d' % count""", """        if not rule.name or rule.name[0] == 'R' and rule.name[1:].isdigit():
            rule.name = 'R%d' % count""")],
     'printing a part of a grammar before the grammar itself is printed again',
     'printing a part gives rules of the grammar other names, two of them the same', """
from yargy import rule, or_
b = or_(rule('x', rule('y', 'z').optional()), rule('w'))
g = rule('a', b, rule('q', 'r').repeatable()).named('TOP').normalized.as_bnf
before = list(g.source)
for x in g.rules[1:]:
    list(x.as_bnf.source)
assert list(g.source) == before, (before, list(g.source))
assert len({x.name for x in g.rules}) == len(g.rules)
""")
