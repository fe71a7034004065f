"""Random grammars and texts for the grammar-level properties."""
import signal
from base import *
from ref import *
from yargy import Parser
from yargy.tokenizer import Tokenizer


class Slow(Exception):
    pass


def alarm(*_):
    raise Slow()


signal.signal(signal.SIGALRM, alarm)


def limited(seconds, fn, *a):
    # again if one is lost in a callback
    signal.setitimer(signal.ITIMER_REAL, seconds, 1)
    try:
        return fn(*a)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def text_of(words, rng=None):
    return ' '.join(words)


def index_range(match, starts):
    """token range of a match, from the positions of its tokens"""
    a = starts[match.tokens[0].span.start]
    b = starts[match.tokens[-1].span.start]
    return a, b + 1


def positions(words):
    """character position of each word in text_of(words) -> index"""
    out, at = {}, 0
    for i, w in enumerate(words):
        out[at] = i
        at += len(w) + 1
    return out


def node_marks(match, starts, label=lambda n: None):
    """marked parts of the match tree, outer first"""
    out = []

    def leaves(n):
        return [n] if not n.children and hasattr(n, 'token') else [l for c in n.children for l in leaves(c)]

    def walk(n):
        l = label(n)
        if l is not None:
            ls = leaves(n)
            out.append((l, starts[ls[0].token.span.start], starts[ls[-1].token.span.start] + 1))
        for c in n.children:
            walk(c)
    walk(match.tree.root)
    return out


def named(n):
    rule = getattr(n, 'rule', None)
    name = getattr(rule, 'name', None)
    return name if name and name.startswith('n') else None


def cases(gen, seconds, sizes=(0, 1, 2, 3, 4, 5), texts=4, depth=(1, 2, 3), need_finite=True, wrap=None,
          skip=known_defect):
    """(grammar, parser, words, spans or derivations) until the time is over"""
    end = time.time() + min(seconds, R.left())
    while time.time() < end and not R.full():
        g = gen.grammar(gen.rng.choice(depth))
        if need_finite and cyclic(g) or skip(g):
            continue
        try:
            parser = limited(5, lambda: Parser(build(g, wrap), tokenizer=Tokenizer()))
        except Slow:
            continue
        except RecursionError:
            continue
        except Exception as x:
            R.raised('Parser', g, x)
            continue
        for _ in range(texts):
            n = gen.rng.choice(sizes)
            words = tuple(gen.rng.choice(gen.alphabet) for _ in range(n))
            yield g, parser, words


def attempt(what, case, fn, *a):
    """(ok, value); a run over the limit is skipped"""
    try:
        return True, limited(4, fn, *a)
    except Slow:
        return False, None
    except RecursionError:
        return False, None
    except Exception as x:
        R.raised(what, case, x)
        return False, None


class Twins(object):
    """texts where every word is written the same, and the words differ by type, tag or forms"""

    def __init__(self, kind):
        from yargy import or_, predicates as P
        from yargy.morph import Form, Grams
        from yargy.predicates.constructors import Predicate
        from yargy.tagger import Tagger
        from yargy.token import Token
        twins = self
        self.words = ()
        letter = lambda token: twins.words[token.span.start // 2]

        class Types(Tokenizer):
            def __call__(self, text):
                for t in Tokenizer.__call__(self, text):
                    if kind == 'type':
                        t = Token(t.value, t.span, letter(t))
                    if kind == 'form':
                        t = t.morphed([Form(t.value, Grams({letter(t)}), raw=None)])
                    yield t

            def check_type(self, type):
                return True

        class Tags(Tagger):
            tags = ['a', 'b', 'c']

            def __call__(self, tokens):
                for t in tokens:
                    yield t.tagged(letter(t))

        class Has(Predicate):
            __attributes__ = ['letter']

            def __init__(self, letter):
                self.letter = letter

            def activate(self, context):
                return self

            def __call__(self, token):
                return any(self.letter in f.grams for f in token.forms)

            @property
            def label(self):
                return 'has'

        one = {'type': P.type, 'tag': P.tag, 'form': Has}[kind]
        self.term = lambda letters: one(letters[0]) if len(letters) == 1 else or_(*[one(x) for x in letters])
        self.tokenizer = Types()
        self.tagger = Tags() if kind == 'tag' else None

    def cases(self, gen, seconds, sizes=(1, 2, 3, 4), texts=4):
        """(grammar, parser, words)"""
        end = time.time() + min(seconds, R.left())
        while time.time() < end and not R.full():
            g = gen.grammar(gen.rng.choice((0, 1, 2)))
            if cyclic(g) or known_defect(g):
                continue
            options = dict(tokenizer=self.tokenizer)
            if self.tagger:
                options['tagger'] = self.tagger
            ok, parser = attempt('Parser', g, lambda: Parser(build(g, term=self.term), **options))
            if not ok:
                continue
            for _ in range(texts):
                self.words = tuple(gen.rng.choice(gen.alphabet) for _ in range(gen.rng.choice(sizes)))
                yield g, parser, self.words


def twins(check, share, **options):
    def part():
        for kind in ('type', 'tag', 'form'):
            gen = Gen(RNG, pipes=False, marks=.8, **options)
            for g, parser, words in Twins(kind).cases(gen, R.left(share) / 3):
                check(kind, g, parser, words, 'x ' * len(words))
    return part
