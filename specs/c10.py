"""C10: joined text keeps word order and gaps; a match span is its extent."""
from .lib import *

TOKEN = 'yargy.token.'


def normalized(e, a, k):
    return Sym(STR, e.uf('token_normalized', IntSort, StrSort)(a[0].ref))


def inflected(e, a, k):
    g = e.box(a[1]) if len(a) > 1 else e.vlit('no grams')
    return Sym(STR, e.uf('form_inflected', IntSort, ValSort, StrSort)(a[0].ref, g))


WORDS = {'property:Token.normalized': normalized, 'dispatch:Form.inflect': inflected}


def bounds(e, t):
    s = get(e, t, 'span')
    return e.term(get(e, s, 'start')), e.term(get(e, s, 'stop'))


def joined(e, got, tokens, word, label):
    """got = the words of the tokens, a space before a word exactly when there was a gap"""
    got = e.res(got)
    if isinstance(got, str) or not isinstance(got, StrJoin):
        if e.is_str(got):
            n = e.length(tokens.parts)
            if not isinstance(got, str):
                raise Unsupported('text built another way: %r' % (got,))
            e.prove(z3.And(n == 0, got == ''), label + ': only no tokens give this text')
            return
        raise Unsupported('text built another way: %r' % (got,))
    e.prove(got.sep == '', label + ': nothing else between the words')
    seq = [x for x in got.seq]
    n = e.length(tokens.parts)
    if len(seq) != 1 or not isinstance(seq[0], For):
        raise Unsupported('text built another way')
    e.prove(seq[0].n == n, label + ': every token once')
    k = e.index()
    inner = e.inst_parts(seq[0].parts, seq[0].k, k)
    with e.loopctx(k, n):
        def one():
            out = [e.res(x) for x in flat(e, inner)]
            t = e.res(e.at(tokens.parts, k))
            e.type_facts(t)
            if e.branch(k > 0):
                p = e.res(e.at(tokens.parts, k - 1))
                e.type_facts(p)
                gap = e.branch(bounds(e, t)[0] > bounds(e, p)[1])
            else:
                gap = False
            want = [' '] if gap else []
            e.prove(len(out) == len(want) + 1, label + ': a space exactly where there is a gap')
            if gap:
                e.prove(zb(e.eq(out[0], ' ')), label + ': the gap is one space')
            e.prove(zb(e.eq(out[-1], word(t))), label + ': the words in order')
        e.run_paths(one)


def tokens(e):
    return e.fresh(LIST(OBJ('Token')), 'tokens')


@unit('C10', 'join_tokens', [TOKEN + 'join_tokens', TOKEN + 'format_tokens'], schema=SCHEMA)
def join(e):
    ts = tokens(e)
    r = e.call(e.w.get(TOKEN + 'join_tokens'), [ts])
    joined(e, r, ts, lambda t: get(e, t, 'value'), 'joined text')
    frame(e)


@unit('C10', 'join_normalized_tokens', [TOKEN + 'join_normalized_tokens', TOKEN + 'normalize_token',
                                        TOKEN + 'format_tokens'], schema=SCHEMA, contracts=WORDS)
def join_normalized(e):
    ts = tokens(e)
    r = e.call(e.w.get(TOKEN + 'join_normalized_tokens'), [ts])
    joined(e, r, ts, lambda t: normalized(e, [t], {}), 'normalized text')
    frame(e)


def head_form(e, t):
    return e.mk(OBJ('Form'), e.uf('el_obj_Form', IntSort, IntSort, IntSort)(
        fieldterm(e, 'MorphToken', 'forms', t.ref, IntSort), z3.IntVal(0)))


def has_forms(e, ts):
    """tokens with word forms have at least one (a reading of the word)"""
    k = q(e)
    t = e.uf('el_obj_Token', IntSort, IntSort, IntSort)(ts.ref, k)
    e.assume(z3.ForAll([k], z3.Implies(k >= 0, e.uf('len_obj_Form', IntSort, IntSort)(
        fieldterm(e, 'MorphToken', 'forms', t, IntSort)) > 0)))


@unit('C10', 'join_inflected_tokens', [TOKEN + 'join_inflected_tokens', TOKEN + 'inflect_token',
                                       TOKEN + 'format_tokens'], schema=SCHEMA, contracts=WORDS)
def join_inflected(e):
    ts = tokens(e)
    has_forms(e, ts)
    grams = e.fresh(SET(STR), 'grams')
    r = e.call(e.w.get(TOKEN + 'join_inflected_tokens'), [ts, grams])

    def word(t):
        if e.branch(is_cls(e, t, 'MorphToken')):
            return inflected(e, [head_form(e, t), grams], {})
        return normalized(e, [t], {})
    joined(e, r, ts, word, 'inflected text')
    frame(e)


def replaced(name, extra):
    @unit('C10', name, [TOKEN + name], schema=SCHEMA, contracts=WORDS)
    def u(e):
        t = e.fresh(OBJ('Token'), 'token')
        e.assume(e.uf('len_obj_Form', IntSort, IntSort)(fieldterm(e, 'MorphToken', 'forms', t.ref, IntSort)) > 0)
        args = [e.fresh(SET(STR), 'grams')] if extra else []
        r = e.res(e.call(e.w.get(TOKEN + name), [t] + args))
        e.prove(is_cls(e, r, 'Token'), 'a token')
        for f in ('span', 'type'):
            e.prove(same_obj(e, get(e, r, f), get(e, t, f)), 'keeps the %s' % f)
        if extra and e.branch(is_cls(e, t, 'MorphToken')):
            want = inflected(e, [head_form(e, t)] + args, {})
        else:
            want = normalized(e, [t], {})
        e.prove(zb(e.eq(get(e, r, 'value'), want)), 'only the word changes')
        frame(e)


replaced('normalize_token', False)
replaced('inflect_token', True)


def normal_form(cls):
    @unit('C10', 'normalized of a ' + cls, [TOKEN + cls + '.normalized'], schema=SCHEMA)
    def u(e):
        t = e.fresh(OBJ(cls), 'token')
        t.cls, t.cands = e.w.cls(cls), None
        e.type_facts(t)
        e.allow('lower')
        morph = 'Morph' in cls
        if morph:
            e.assume(e.length(forms_of(e, t).parts) > 0)
        r = get(e, t, 'normalized')
        if morph:
            want = get(e, head_form(e, t), 'normalized')
        else:
            want = e.call(e.getattr(get(e, t, 'value'), 'lower'), [])
        e.prove(zb(e.eq(r, want)), 'normal form: of the first reading, or the text in lower case')
        frame(e)


for c in ('Token', 'TagToken', 'MorphToken', 'MorphTagToken'):
    normal_form(c)


@unit('C10', 'get_tokens_span', [TOKEN + 'get_tokens_span'], schema=SCHEMA)
def extent(e):
    ts = tokens(e)
    n = e.length(ts.parts)
    e.assume(n > 0)
    s = e.res(e.call(e.w.get(TOKEN + 'get_tokens_span'), [ts]))
    first, last = e.at(ts.parts, z3.IntVal(0)), e.at(ts.parts, n - 1)
    e.prove(is_cls(e, s, 'Span'), 'a span')
    e.prove(e.term(get(e, s, 'start')) == bounds(e, first)[0], 'starts where the first token starts')
    e.prove(e.term(get(e, s, 'stop')) == bounds(e, last)[1], 'ends where the last token ends')
    frame(e)


def leaves(e, a, k):
    """Tree.walk(types=Leaf): the leaves of the tree (contract of C15)"""
    ts = e.res(k.get('types', a[1] if len(a) > 1 else None))
    if ts is not e.w.cls('Leaf'):
        raise Unsupported('walk over %r' % (ts,))
    return e.symlist(e.uf('tree_leaves', IntSort, IntSort)(a[0].ref), OBJ('Leaf'), GenV)


MATCH = dict(SCHEMA)
MATCH.update({('Leaf', 'token'): OBJ('Token'), ('Leaf', 'predicate'): OBJ('Predicate')})


@unit('C10', 'span and tokens of a match', ['yargy.parser.Match.__init__', TOKEN + 'get_tokens_span'],
      schema=MATCH, contracts={'dispatch:Tree.walk': leaves})
def match(e):
    tree = e.fresh(OBJ('Tree'), 'tree')
    ls = leaves(e, [tree, e.w.cls('Leaf')], {})
    n = e.length(ls.parts)
    e.assume(n > 0)
    m = e.res(e.call(e.w.get('yargy.parser.Match'), [tree]))
    ts = get(e, m, 'tokens')
    k = e.index()
    e.prove(e.length(ts.parts) == n, 'one token per leaf')
    with e.loopctx(k, n):
        e.prove(zb(e.ident(e.at(ts.parts, k), get(e, e.res(e.at(ls.parts, k)), 'token'))),
                'the tokens of the leaves in order')
    tok = lambda i: get(e, e.res(e.at(ls.parts, i)), 'token')        # noqa: E731
    s = get(e, m, 'span')
    e.prove(e.term(get(e, s, 'start')) == bounds(e, tok(z3.IntVal(0)))[0], 'the span starts with the first token')
    e.prove(e.term(get(e, s, 'stop')) == bounds(e, tok(n - 1))[1], 'the span ends with the last token')
    frame(e)
