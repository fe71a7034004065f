from gram import *


def same_token(a, b):
    return a.value == b.value and (a.span.start, a.span.stop) == (b.span.start, b.span.stop) and a.type == b.type


def valid_tree(node, prod_ok):
    """the tree of one match: words accepted, phrases complete"""
    for item in node.children:
        if hasattr(item, 'predicate'):
            if not item.predicate(item.token):
                return 'a word is not accepted by its terminal'
        else:
            bad = valid_tree(item, prod_ok)
            if bad:
                return bad
    return None


def check(g, parser, words, D, text=None):
    text = text_of(words) if text is None else text
    starts = positions(words)
    case = (str(g), ' '.join(words))
    tokens = list(parser.tagger(parser.tokenizer(text)))
    runs = [('extract', lambda: list(parser.extract(text))), ('findall', lambda: list(parser.findall(text)))]
    spans = D.spans.of(g.start)
    derived = {}
    for what, fn in runs + [('match', lambda: [m for m in [parser.match(text)] if m is not None])]:
        ok, found = attempt(what, (g, words), fn)
        if not ok:
            return
        # an ambiguous grammar has thousands
        for m in found[:150] + found[150:][-50:]:
            R.case(case + (what,), len(m.tokens) > 1)
            if not m.tokens:
                R.fail(what + ': match of no words', case)
                return
            a, b = index_range(m, starts)
            if len(m.tokens) != b - a or not all(same_token(x, y) for x, y in zip(m.tokens, tokens[a:b])):
                R.fail(what + ': match tokens are not consecutive tokens of the text', case, got=m.tokens)
                return
            if what == 'match' and (a, b) != (0, len(words)):
                R.fail('match does not cover the text', case, got=(a, b))
                return
            if (a, b) not in spans:
                R.fail(what + ': the grammar does not derive the match', case, got=(a, b), want=sorted(spans))
                return
            bad = valid_tree(m.tree.root, None)
            if bad:
                R.fail(what + ': ' + bad, case)
                return
            if (a, b) not in derived:
                try:
                    want = [marks(d.nodes) for d in D.of(g.start, a, b)]
                    derived[a, b] = [[(l, i, j) for l, i, j in w if isinstance(l, str)] for w in want]
                except Cyclic:
                    derived[a, b] = None
            want = derived[a, b]
            if want is None:
                continue
            got = node_marks(m, starts, named)
            if got not in want:
                R.fail(what + ': the reported phrases are not a derivation', case, got=got, want=want[:5])
                return


def grammars():
    gen = Gen(RNG, marks=.8)
    for g, parser, words in cases(gen, R.left(.8), sizes=(0, 1, 2, 3, 4, 5)):
        try:
            D = Derivations(g, words)
        except Cyclic:
            continue
        check(g, parser, words, D)


def twin(kind, g, parser, words, text):
    try:
        check(g, parser, words, Derivations(g, words), text)
    except Cyclic:
        pass


R.rule = 'grammar, text and entry point; non-trivial: a match of more than one word'
R.bound = 'random grammars to depth 3 with named parts, texts to 5 tokens'
main(twins(twin, .2), grammars)
