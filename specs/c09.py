"""C09: tokenization is a faithful, ordered segmentation of the text.

Trusted contract of re: finditer of an alternation of named groups gives matches from left to right that do not overlap;
each is of the first alternative that matches at its place, lastgroup is the name of its group, group(0) the text at its
span; a character at which no alternative matches is skipped.  What a single character class accepts is computed by re
itself for every code point."""
from .lib import *
from pyvc.models import Regex, strcat
from . import c20

TK = 'yargy.tokenizer.'
SCHEMA9 = merged(SCHEMA, {('TokenRule', 'type'): STR, ('TokenRule', 'pattern'): STR,
                          ('Tokenizer', 'rules'): LIST(OBJ('TokenRule')), ('Tokenizer', 'types'): SET(STR),
                          ('MorphTokenizer', 'morph'): OBJ('MorphAnalyzer')})
UNICODE, IGNORECASE = 32, 2


def strings(e):
    """facts about strings: joining to a given beginning, and writing a number, lose nothing"""
    a, b = z3.Const('a!s', StrSort), z3.Const('b!s', StrSort)
    cat = e.uf('concat', StrSort, StrSort, StrSort)
    e.assume(z3.ForAll([a, b], e.uf('rest_after', StrSort, StrSort, StrSort)(a, cat(a, b)) == b, patterns=[cat(a, b)]))
    i = q(e)
    text = e.uf('str_int', IntSort, StrSort)
    e.assume(z3.ForAll([i], e.uf('number_of', StrSort, IntSort)(text(i)) == i, patterns=[text(i)]))


def groups(e, regex):
    """alternatives of a pattern: parts with (name, pattern of the alternative)"""
    r = e.res(regex)
    if not isinstance(r, Regex):
        raise Unsupported('not a regular expression')
    p = r.pattern

    def part(x):
        if isinstance(x, Item):
            return Item(one(x.value), x.guard)
        if isinstance(x, For):
            return For(x.k, x.n, [part(y) for y in x.parts])
        raise Unsupported('a pattern of another shape')

    def one(v):
        v = e.res(v)
        ps = list(v.parts) if isinstance(v, StrCat) else [v]
        flat_ = []
        for x in ps:
            flat_.extend(x.parts if isinstance(x, StrCat) else [x])
        ps = flat_
        if len(ps) < 3 or not isinstance(ps[0], str) or not ps[0].startswith('(?P<') or ps[-1] != ')':
            raise Unsupported('a pattern of another shape')
        ps[0] = ps[0][4:]
        at = [i for i, x in enumerate(ps) if isinstance(x, str) and '>' in x]
        if not at:
            raise Unsupported('a pattern of another shape')
        i = at[0]
        head, tail = ps[i].split('>', 1)
        return strcat(ps[:i] + [head]), strcat([tail] + ps[i + 1:-1])
    if isinstance(p, StrJoin) and p.sep == '|':
        return [part(x) for x in p.seq]
    raise Unsupported('a pattern of another shape')


class Found(object):
    """a match of the alternation"""

    def __init__(self, s, at):
        self.s, self.at = s, at

    def method_model(self, e, name):
        start, stop = (Sym(INT, e.uf(n + self.s.name, IntSort, IntSort)(self.at)) for n in ('start', 'stop'))
        fn = lambda f: PyFn(name, f)                               # noqa: E731
        whole = e.res(e.call(PyFn('text', lambda e, a, k: self.s.text_at(e, start, stop)), []))

        def only(x):
            def f(e, a, k):
                if a and e.res(a[0]) != 0:
                    raise Unsupported('group of a match')
                return x
            return fn(f)
        if name == 'lastgroup':
            return self.s.name_at(e, self.at)
        if name in ('group', '__getitem__'):
            return only(whole)
        if name == 'span':
            return only((start, stop))
        if name == 'start':
            return only(start)
        if name == 'end':
            return only(stop)
        return None

    def getitem_model(self, e, i):
        if e.res(i) != 0:
            raise Unsupported('group of a match')
        return e.call(self.method_model(e, 'group'), [])

    def subst_model(self, e, k, x):
        return Found(self.s, z3.simplify(z3.substitute(self.at, (k, x))))


class Search(object):
    """the assumed contract of re.finditer for one pattern and text"""

    def __init__(self, e, regex, text):
        self.regex, self.text = regex, text
        self.name = '_%d' % e.new_stamp()
        alts = groups(e, regex)
        if len(alts) != 1 or not isinstance(alts[0], For) or len(alts[0].parts) != 1 or \
                not isinstance(alts[0].parts[0], Item) or alts[0].parts[0].guard is not True:
            raise Unsupported('a pattern of another shape')
        self.alts = alts[0]
        self.n = e.const('matches', IntSort)
        self.which = e.uf('rule_of' + self.name, IntSort, IntSort)
        start, stop = (e.uf(n + self.name, IntSort, IntSort) for n in ('start', 'stop'))
        i, j = q(e), q(e)
        e.assume(self.n >= 0)
        e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n), z3.And(
            self.which(i) >= 0, self.which(i) < self.alts.n, start(i) >= 0, start(i) <= stop(i))), patterns=[start(i)]))
        e.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < self.n), stop(i) <= start(j)),
                           patterns=[z3.MultiPattern(stop(i), start(j))]))

    def name_at(self, e, at):
        return e.res(e.subst(self.alts.parts[0].value[0], self.alts.k, self.which(at)))

    def text_at(self, e, a, b):
        return Sym(STR, e.uf('text_at', StrSort, IntSort, IntSort, StrSort)(e.term(self.text), e.num(a), e.num(b)))

    def found(self, e):
        k = e.index()
        return e.new_list([For(k, self.n, [Item(Found(self, k))])], GenV)


def hook(e):
    e.searches = []

    def search(eng, regex, text):
        s = Search(eng, regex, text)
        eng.searches.append(s)
        return s.found(eng)
    e.regex_hook = search


# --- the pattern -----------------------------------------------------------------------------------------

@unit('C09', 'the pattern has a group for each rule, in order, and its name stands for the type of the rule', [
    TK + 'Tokenizer.compile', TK + 'Tokenizer.reset', TK + 'Tokenizer.__init__', TK + 'TokenRule.__init__'], schema=SCHEMA9)
def compiling(e):
    strings(e)
    rules = e.fresh(LIST(OBJ('TokenRule')), 'rules')
    n = e.length(rules.parts)
    for make in (lambda: e.call(e.w.cls('Tokenizer'), [rules]),
                 lambda: e.call(e.w.cls('MorphTokenizer'), [rules], {'morph': e.fresh(OBJ('MorphAnalyzer'), 'morph')})):
        t = e.res(make())
        same_seq(e, get(e, t, 'rules').parts, rules.parts, 'its rules', eq=lambda a, b: same_obj(e, a, b))
        regex = e.res(e.getattr(t, 'regexp'))
        e.prove(isinstance(regex, Regex) and regex.flags == UNICODE | IGNORECASE, 'regardless of case, for all of Unicode')
        k = e.index()
        want = [For(k, n, [Item(e.at(rules.parts, k))])]
        mapping = get(e, t, 'mapping')

        def eq(x, rule):
            e.prove(zb(e.eq(x[1], get(e, rule, 'pattern'))), 'the group of a rule has its pattern')
            e.prove(zb(e.eq(e.getitem(mapping, x[0]), get(e, rule, 'type'))), 'the name of a group stands for the type of its rule')
            return True
        same_seq(e, groups(e, regex), want, 'a group for each rule', eq=eq)
        s = z3.Const('type!', StrSort)
        types = get(e, t, 'types')
        e.prove(zb(e.contains(types, Sym(STR, s))) == zb(e.exists_in(rules.parts, lambda r: e.mkbool(
            e.term(get(e, r, 'type')) == s))), 'its types are those of its rules')
    frame(e)


@unit('C09', 'tokens are the matches: ordered, with the text at the span and the type of the rule', [
    TK + 'Tokenizer.__call__', TK + 'Tokenizer.compile'], schema=SCHEMA9)
def tokens(e):
    strings(e)
    hook(e)
    rules = e.fresh(LIST(OBJ('TokenRule')), 'rules')
    t = e.res(e.call(e.w.cls('Tokenizer'), [rules]))
    text_ = e.fresh(STR, 'text')
    r = e.parts_of(e.call(t, [text_]))
    e.prove(len(e.searches) == 1, 'one search of the text')
    s = e.searches[0]
    e.prove(s.regex is e.res(e.getattr(t, 'regexp')), 'by the pattern of the tokenizer')
    e.prove(zb(e.eq(s.text, text_)), 'of the whole text')
    start, stop = (e.uf(n + s.name, IntSort, IntSort) for n in ('start', 'stop'))
    k = e.index()
    want = [For(k, s.n, [Item((Sym(INT, start(k)), Sym(INT, stop(k)), e.at(rules.parts, s.which(k))))])]

    def eq(x, w):
        e.prove(is_cls(e, x, 'yargy.token.Token') if isinstance(x, ObjV) else False, 'a token')
        span = get(e, x, 'span')
        a, b = get(e, span, 'start'), get(e, span, 'stop')
        e.prove(z3.And(e.num(a) == e.num(w[0]), e.num(b) == e.num(w[1])), 'the span of the match')
        e.prove(zb(e.eq(get(e, x, 'value'), s.text_at(e, a, b))), 'the value is the text at the span')
        e.prove(zb(e.eq(get(e, x, 'type'), get(e, w[2], 'type'))), 'the type is that of the rule that matched')
        return True
    same_seq(e, r, want, 'a token for each match', eq=eq)
    i, j = e.index(), e.index()
    r, = r                          # as proved: a token for each match, whichever way it is made
    one = lambda i: get(e, flat(e, e.inst_parts(r.parts, r.k, i))[0], 'span')       # noqa: E731
    with e.loopctx(j, s.n):
        with e.loopctx(i, j):
            e.prove(e.num(get(e, one(i), 'stop')) <= e.num(get(e, one(j), 'start')), 'in text order, without overlap')
    frame(e)


# --- changing the rules --------------------------------------------------------------------------------------

def compiled(e, a, k):
    """contract of compile (above): a function of the rules; the types are those of the rules"""
    e.ghost_emit('compiled', [Item(e.res(a[1]))])
    types = e.const('types', IntSort)
    t = z3.Const('type!%d' % e.new_stamp(), StrSort)
    some = e.exists_in(e.parts_of(a[1]), lambda r: e.mkbool(e.term(get(e, r, 'type')) == t))
    e.assume(z3.ForAll([t], e.mem(types, STR, t) == zb(some), patterns=[e.mem(types, STR, t)]))
    return (e.fresh(ANY, 'regexp'), e.fresh(ANY, 'mapping'), e.symlist(types, STR, SetV))


def changed(e, t, rules, mark, label):
    """the tokenizer now has exactly these rules, and nothing else has changed"""
    now = get(e, t, 'rules')
    same_seq(e, now.parts, rules, label, eq=lambda a, b: same_obj(e, a, b))
    made = flat(e, e.ghost.get('compiled', []))
    e.prove(len(made) > 0, label + ': compiled')
    same_seq(e, made[-1].parts, rules, label + ': compiled', eq=lambda a, b: same_obj(e, a, b))
    bad = []
    for op in e.logs[mark:]:
        if op.kind in ('field', 'heapw', 'pointwise') and isinstance(op.target, ObjV) and not op.target.fresh:
            if op.target is not t and not e.valid(op.target.ref == t.ref):
                bad.append('%s.%s' % (op.target, op.data[0]))
        if op.kind in ('append', 'extend', 'set', 'pop', 'reorder', 'insert', 'add', 'update') and \
                isinstance(op.target, ListV) and op.target.ref is not None:
            bad.append('%s of %s' % (op.kind, op.target.ref))
    e.prove(not bad, '%s: nothing but this tokenizer is changed %s' % (label, ', '.join(bad)))


@unit('C09', 'added rules come before the others', [TK + 'Tokenizer.add_rules', TK + 'Tokenizer.reset'], schema=SCHEMA9,
      contracts={TK + 'Tokenizer.compile': compiled})
def adding(e):
    t = e.fresh(OBJ('Tokenizer'), 'tokenizer')
    new = e.fresh(LIST(OBJ('TokenRule')), 'new')
    old = get(e, t, 'rules').parts
    mark = len(e.logs)
    r = e.res(e.call(e.getattr(t, 'add_rules'), [StarV(new.parts)]))
    e.prove(same_obj(e, r, t), 'the tokenizer')
    changed(e, t, list(new.parts) + list(old), mark, 'the new rules, then the others')
    a = e.fresh(OBJ('TokenRule'), 'rule')
    mark = len(e.logs)
    e.call(e.getattr(t, 'add_rules'), [a])
    changed(e, t, [Item(a)] + list(new.parts) + list(old), mark, 'one new rule')


@unit('C09', 'removed types do not occur, the other rules stay', [TK + 'Tokenizer.remove_types', TK + 'Tokenizer.reset',
                                                               TK + 'Tokenizer.check_type'], schema=SCHEMA9,
      contracts={TK + 'Tokenizer.compile': compiled})
def removing(e):
    t = e.fresh(OBJ('Tokenizer'), 'tokenizer')
    ts = e.fresh(LIST(STR), 'types')
    have, old = get(e, t, 'types'), get(e, t, 'rules').parts
    e.assume(z3.Not(zb(e.exists_in(ts.parts, lambda x: e.mkbool(z3.Not(zb(e.contains(have, x))))))))     # else refused: C18
    mark = len(e.logs)
    r = e.res(e.call(e.getattr(t, 'remove_types'), [StarV(ts.parts)]))
    e.prove(same_obj(e, r, t), 'the tokenizer')
    k = e.index()
    rule = e.res(e.at(old, k))
    gone = zb(e.contains(ts, get(e, rule, 'type')))
    changed(e, t, [For(k, e.length(old), [Item(rule, z3.Not(gone))])], mark, 'the rules of other types, in order')
    x = e.fresh(STR, 'removed')
    e.assume(zb(e.contains(ts, x)))
    e.prove(z3.Not(zb(e.contains(get(e, t, 'types'), x))), 'a removed type is not known any more')
    e.prove(z3.Not(zb(e.exists_in(get(e, t, 'rules').parts, lambda r: e.mkbool(e.eq(get(e, r, 'type'), x))))),
            'no rule gives a removed type')


@unit('C09', 'a new tokenizer has the default rules and leaves them alone', [
    TK + 'Tokenizer.__init__', TK + 'MorphTokenizer.__init__', TK + 'Tokenizer.add_rules', TK + 'Tokenizer.remove_types'],
    schema=SCHEMA9, contracts={TK + 'Tokenizer.compile': compiled, TK + 'Tokenizer.check_type': lambda e, a, k: None},
    remembers=('rules', 'regexp', 'mapping', 'types'))
def defaults(e):
    default = e.res(e.w.get(TK + 'RULES'))
    was = list(e.concrete(default.parts))
    for c, kw in (('Tokenizer', {}), ('MorphTokenizer', {'morph': e.fresh(OBJ('MorphAnalyzer'), 'morph')})):
        t = e.res(e.call(e.w.cls(c), [], kw))
        u = e.res(e.call(e.w.cls(c), [], kw))
        e.call(e.getattr(t, 'add_rules'), [e.fresh(OBJ('TokenRule'), 'rule')])
        e.call(e.getattr(t, 'remove_types'), ['OTHER'])
        for o in (u, e.res(e.call(e.w.cls(c), [], kw))):
            now = e.concrete(get(e, o, 'rules').parts)
            e.prove(now is not None and len(now) == len(was) and all(x is y for x, y in zip(now, was)),
                    'another %s still has the default rules' % c)
        now = e.concrete(default.parts)
        e.prove(len(now) == len(was) and all(x is y for x, y in zip(now, was)), 'the default rules stay')
        for x in was:
            e.prove(not any(op.target is x for op in e.logs), 'the rules themselves stay')


# --- the default rules ------------------------------------------------------------------------------------

def char_class(pattern, flags):
    """the set of characters c such that the pattern matches exactly the non-empty runs (or single ones) of them"""
    import re
    try:
        from re import _parser as sre, _constants as const
    except ImportError:
        import sre_parse as sre, sre_constants as const
    tree = sre.parse(pattern, flags)

    def single(items):
        items = list(items)
        if len(items) != 1:
            return False
        op, arg = items[0]
        if op in (const.IN, const.LITERAL, const.NOT_LITERAL, const.ANY, const.CATEGORY):
            return True
        if op is const.SUBPATTERN:
            return single(arg[3])
        return False
    items = list(tree)
    if len(items) == 1 and items[0][0] is const.MAX_REPEAT:
        lo, hi, sub = items[0][1]
        ok = lo == 1 and hi is const.MAXREPEAT and single(sub)
    else:
        ok = single(items)
    if not ok:
        raise Unsupported('the pattern %r is not a run of characters of a class' % pattern)
    r = re.compile(pattern, flags)
    return {c for c in range(0x110000) if r.fullmatch(chr(c))}


@unit('C09', 'with the default rules every non-space character is in a token, and no token has spaces but line breaks', [
    TK + 'RULES'], schema=SCHEMA9, budget=120)
def default_rules(e):
    rules = e.concrete(e.res(e.w.get(TK + 'RULES')).parts)
    covered, spaces = set(), {c for c in range(0x110000) if chr(c).isspace()}
    for r in rules:
        p = get(e, r, 'pattern')
        if not isinstance(p, str):
            raise Unsupported('a computed pattern')
        have = char_class(p, UNICODE | IGNORECASE)
        covered |= have
        e.prove(have & spaces <= {10, 13}, 'tokens of the rule %s have no spaces but line breaks' % get(e, r, 'type'))
    e.prove(len(covered | spaces) == 0x110000, 'every character but spaces begins a token')


share('C09', 'C20', 'morphological tokenizer', 'split')
