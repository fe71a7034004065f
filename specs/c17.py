"""C17: word forms reflect the dictionary; caching changes nothing."""
from .lib import *

MORPH = 'yargy.morph.'


class Raw2(Raw):
    pass


RAWS = T('model', Raw)


class Dictionary(object):
    """pymorphy2.MorphAnalyzer (trusted): parse, TagClass.grammeme_is_known"""

    def __init__(self, eng, ref):
        self.ref = ref

    def method_model(self, e, name):
        if name == 'parse':
            return PyFn('parse', lambda e, a, k: e.symlist(
                e.uf('readings', IntSort, StrSort, IntSort)(self.ref, e.term(a[0])), RAWS))
        if name == 'TagClass':
            return TagClass(self.ref)
        return None

    def subst_model(self, e, k, x):
        return self


class TagClass(object):
    def __init__(self, ref):
        self.ref = ref

    def method_model(self, e, name):
        if name == 'grammeme_is_known':
            return PyFn('known', lambda e, a, k: Sym(BOOL, e.uf('known', IntSort, StrSort, BoolSort)(
                self.ref, e.term(a[0]))))
        return None


DICTIONARY = T('model', Dictionary)
SCHEMA17 = dict(SCHEMA)
SCHEMA17[('MorphAnalyzer', 'raw')] = DICTIONARY


def analyzer(e, cls):
    a = e.fresh(OBJ('MorphAnalyzer'), 'morph')
    a.cls, a.cands = e.w.get(MORPH + cls), None
    e.type_facts(a)
    e.allow('readings', 'raw_normal_form', 'raw_grammemes', 'known')
    return a


def reading(e, a, word, k):
    l = e.uf('readings', IntSort, StrSort, IntSort)(get(e, a, 'raw').ref, word)
    return l, e.at(e.symlist(l, RAWS).parts, k)


def is_form_of(e, f, raw, what):
    e.prove(is_cls(e, f, 'Form'), what + ': is a form')
    e.prove(e.term(get(e, f, 'normalized')) == e.uf('raw_normal_form', IntSort, StrSort)(raw.ref),
            what + ': normal form of the reading')
    grams = get(e, f, 'grams')
    e.prove(is_cls(e, grams, 'Grams'), what + ': grammemes')
    x = e.fresh(STR, 'gram')
    want = e.mem(e.uf('raw_grammemes', IntSort, IntSort)(raw.ref), STR, x.e)
    e.prove(zb(e.contains(grams, x)) == want, what + ': exactly the grammemes of the reading')
    r = get(e, f, 'raw')
    e.prove(isinstance(r, Raw) and r.ref == raw.ref, what + ': keeps the reading it came from')


def analysis(cls):
    @unit('C17', 'readings of a word (%s)' % cls, [MORPH + cls + '.__call__', MORPH + 'MorphAnalyzer.__call__',
                                                 MORPH + 'prepare_form', MORPH + 'Form.__init__',
                                                 MORPH + 'Grams.__init__', MORPH + 'Grams.__contains__'],
          schema=SCHEMA17)
    def u(e):
        a, word = analyzer(e, cls), e.fresh(STR, 'word')
        r = e.res(e.call(a, [word]))
        e.prove(isinstance(r, ListV), 'a sequence of forms')
        k = e.index()
        l, raw = reading(e, a, word.e, k)
        n = e.length(e.symlist(l, RAWS).parts)
        e.prove(e.length(r.parts) == n, 'one form per reading')
        with e.loopctx(k, n):
            is_form_of(e, e.res(e.at(r.parts, k)), raw, 'form number k')
        frame(e)

    @unit('C17', 'asking again (%s)' % cls, [MORPH + cls + '.__call__', MORPH + 'MorphAnalyzer.__call__'],
          schema=SCHEMA17)
    def again(e):
        """the answer for a word does not depend on words asked before, by this or another analyzer"""
        a, b = analyzer(e, cls), analyzer(e, cls)
        other, word = e.fresh(STR, 'other'), e.fresh(STR, 'word')
        e.call(a, [other])
        e.call(b, [word])
        r = e.res(e.call(a, [word]))
        k = e.index()
        l, raw = reading(e, a, word.e, k)
        n = e.length(e.symlist(l, RAWS).parts)
        e.prove(e.length(r.parts) == n, 'one form per reading')
        with e.loopctx(k, n):
            is_form_of(e, e.res(e.at(r.parts, k)), raw, 'form number k')

    @unit('C17', 'normal forms of a word (%s)' % cls, [MORPH + 'MorphAnalyzer.normalized'], schema=SCHEMA17)
    def normal(e):
        a, word = analyzer(e, cls), e.fresh(STR, 'word')
        r = e.res(e.call(e.getattr(a, 'normalized'), [word]))
        x = e.fresh(STR, 'x')
        k = q(e)
        l, raw = reading(e, a, word.e, k)
        n = e.length(e.symlist(l, RAWS).parts)
        e.prove(zb(e.contains(r, x)) == z3.Exists([k], z3.And(
            k >= 0, k < n, e.uf('raw_normal_form', IntSort, StrSort)(raw.ref) == x.e)),
            'exactly the normal forms of the readings')
        frame(e)

    @unit('C17', 'known grammemes (%s)' % cls, [MORPH + 'MorphAnalyzer.check_gram'], schema=SCHEMA17)
    def known(e):
        a, x = analyzer(e, cls), e.fresh(STR, 'gram')
        ok = e.uf('known', IntSort, StrSort, BoolSort)(get(e, a, 'raw').ref, x.e)
        try:
            e.call(e.getattr(a, 'check_gram'), [x])
        except PyRaise as p:
            e.prove(z3.And(p.name == 'ValueError', z3.Not(ok)), 'only unknown grammemes are refused')
        else:
            e.prove(ok, 'only known grammemes are accepted')


analysis('MorphAnalyzer')
analysis('CachedMorphAnalyzer')


def uses(e, a, ref, what):
    """the analyzer answers with the readings of this dictionary"""
    word = e.fresh(STR, 'word')
    r = e.res(e.call(a, [word]))
    e.prove(isinstance(r, ListV), what + ': a sequence of forms')
    k = e.index()
    l = e.uf('readings', IntSort, StrSort, IntSort)(ref, word.e)
    n = e.length(e.symlist(l, RAWS).parts)
    e.prove(e.length(r.parts) == n, what + ': one form per reading')
    with e.loopctx(k, n):
        is_form_of(e, e.res(e.at(r.parts, k)), e.at(e.symlist(l, RAWS).parts, k), what)
    gram = e.fresh(STR, 'gram')
    try:
        e.call(e.getattr(a, 'check_gram'), [gram])
        told = True
    except PyRaise:
        told = False
    known = e.uf('known', IntSort, StrSort, BoolSort)(ref, gram.e)
    e.prove(known if told else z3.Not(known), what + ': knows the grammemes of the dictionary')


ALLOW17 = ('readings', 'raw_normal_form', 'raw_grammemes', 'known')


@unit('C17', 'an analyzer answers by the dictionary it is given', [
    MORPH + 'MorphAnalyzer.__init__', MORPH + 'MorphAnalyzer.__call__', MORPH + 'MorphAnalyzer.check_gram'],
    schema=SCHEMA17)
def given(e):
    e.allow(*ALLOW17)
    e.default_dictionary = lambda e: Dictionary(e, e.const('default', IntSort))
    mine = e.const('mine', IntSort)
    uses(e, e.call(e.w.get(MORPH + 'MorphAnalyzer'), [Dictionary(e, mine)]), mine, 'the given dictionary')
    frame(e)


def default(cls):
    @unit('C17', 'an analyzer made without one uses the default dictionary (%s)' % cls, [
        MORPH + cls + '.__init__', MORPH + 'MorphAnalyzer.__init__', MORPH + cls + '.__call__',
        MORPH + 'MorphAnalyzer.check_gram'], schema=SCHEMA17)
    def u(e):
        """trusted: pymorphy2.MorphAnalyzer() always gives the readings of the installed dictionary"""
        e.allow(*ALLOW17)
        d = e.const('default', IntSort)
        e.default_dictionary = lambda e: Dictionary(e, d)
        a = e.call(e.w.get(MORPH + cls), [])
        b = e.call(e.w.get(MORPH + cls), [])
        uses(e, a, d, 'the default dictionary')
        uses(e, b, d, 'and for another analyzer')
        frame(e)


default('MorphAnalyzer')
default('CachedMorphAnalyzer')

FEATURES = {
    'gender': [('male', ['masc']), ('female', ['femn']), ('neutral', ['neut']), ('bi', ['Ms-f', 'ms-f']),
               ('general', ['GNdr'])],
    'number': [('single', ['sing']), ('plural', ['plur']), ('only_single', ['Sgtm']), ('only_plural', ['Pltm'])],
    'case': [('fixed', ['Fixd'])],
}
CASES = ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct']


def feature(name, table):
    @unit('C17', 'features: ' + name, [MORPH + 'Grams.' + name, MORPH + name.capitalize() + '.__init__',
                                       MORPH + 'Grams.__contains__'], schema=SCHEMA)
    def u(e):
        values = e.fresh(SET(STR), 'values')
        g = e.call(e.w.get(MORPH + 'Grams'), [values])
        f = get(e, g, name)
        e.prove(is_cls(e, f, name.capitalize()), 'features of the kind')
        has = lambda x: e.mem(values.ref, STR, e.lit(x))        # noqa: E731
        for n, gs in table:
            e.prove(zb(e.truth(get(e, f, n))) == z3.Or(*[has(x) for x in gs]),
                    '%s is the presence of %s' % (n, ' or '.join(gs)))
        if name == 'case':
            mask = e.concrete(e.parts_of(get(e, f, 'mask')))
            e.prove(mask is not None and len(mask) == len(CASES), 'one mask entry per case')
            for c, m in zip(CASES, mask or []):
                e.prove(zb(e.truth(m)) == has(c), 'mask entry: presence of ' + c)
        frame(e)


for name, table in FEATURES.items():
    feature(name, table)
