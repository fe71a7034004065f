"""C20: annotations preserve tokens; taggers compose in order; the morphological tokenizer only adds forms."""
from .lib import *

TOKEN = 'yargy.token.'
CLASSES = ['Token', 'MorphToken', 'TagToken', 'MorphTagToken']
MORPH = {'MorphToken', 'MorphTagToken'}
TAG = {'TagToken', 'MorphTagToken'}


def annotate(cls, method):
    @unit('C20', '%s.%s' % (cls, method), [TOKEN + '%s.%s' % (cls, method), TOKEN + 'MorphTagToken.__init__',
                                           TOKEN + 'MorphToken.__init__', TOKEN + 'TagToken.__init__',
                                           TOKEN + 'Token.__init__'], schema=SCHEMA)
    def u(e):
        t = e.fresh(OBJ(cls), 'token')
        t.cls = e.w.cls(cls)                   # exactly this class
        t.cands = None
        e.type_facts(t)
        x = e.fresh(ANY, 'tag') if method == 'tagged' else e.fresh(LIST(OBJ('Form')), 'forms')
        r = e.res(e.call(e.getattr(t, method), [x]))
        morph, tag = cls in MORPH or method != 'tagged', cls in TAG or method == 'tagged'
        for n in ('value', 'span', 'type'):
            e.prove(same_obj(e, get(e, r, n), get(e, t, n)), '%s keeps the %s of a %s' % (method, n, cls))
        e.prove(is_cls(e, r, 'MorphToken') == morph, '%s: the result has word forms' % method)
        e.prove(is_cls(e, r, 'TagToken') == tag, '%s: the result has a tag' % method)
        if morph:
            same_seq(e, get(e, r, 'forms').parts, x.parts if method != 'tagged' else forms_of(e, t).parts,
                     '%s of a %s: word forms of the result' % (method, cls), eq=e.ident)
        if tag:
            e.prove(same_obj(e, get(e, r, 'tag'), x if method == 'tagged' else get(e, t, 'tag')),
                    '%s of a %s: tag of the result' % (method, cls))
        e.prove(zb(e.ident(r, t)) == False, '%s makes a new token' % method)     # noqa: E712
        frame(e, 'the original token is unchanged by ' + method)


annotate('Token', 'morphed')
annotate('Token', 'tagged')
annotate('TagToken', 'morphed')
annotate('MorphToken', 'tagged')
annotate('MorphToken', 'constrained')
annotate('MorphTagToken', 'constrained')

# --- taggers ---------------------------------------------------------------

TAGGERS = {('TaggersComposition', 'taggers'): LIST(OBJ('Tagger')), ('Tagger', 'tags'): LIST(ANY)}


@unit('C20', 'PassTagger', ['yargy.tagger.PassTagger.__call__'], schema=SCHEMA)
def passes(e):
    ts = e.fresh(LIST(OBJ('Token')), 'tokens')
    t = e.call(e.w.get('yargy.tagger.PassTagger'), [])
    r = e.res(e.call(t, [ts]))
    same_seq(e, e.parts_of(r), ts.parts, 'the default tagger passes the tokens on', eq=e.ident)
    frame(e)


def knows(e, a, k):
    return Sym(BOOL, e.uf('knows', IntSort, ValSort, BoolSort)(a[0].ref, e.box(a[1])))


@unit('C20', 'check_tag of a composition', ['yargy.tagger.TaggersComposition.check_tag'], schema=TAGGERS,
      contracts={'dispatch:Tagger.check_tag': knows})
def composed_tags(e):
    xs = e.fresh(LIST(OBJ('Tagger')), 'taggers')
    c = e.call(e.w.get('yargy.tagger.TaggersComposition'), [xs])
    x = e.fresh(ANY, 'tag')
    got = e.truth(e.call(e.getattr(c, 'check_tag'), [x]))
    k = q(e)
    el = e.uf('el_obj_Tagger', IntSort, IntSort, IntSort)(xs.ref, k)
    want = z3.Exists([k], z3.And(k >= 0, k < e.length(xs.parts), e.uf('knows', IntSort, ValSort, BoolSort)(el, x.e)))
    e.prove(zb(got) == want, 'a composition knows a tag exactly when one of its taggers does')
    frame(e)


@unit('C20', 'check_tag of a tagger', ['yargy.tagger.Tagger.check_tag'], schema=TAGGERS)
def own_tags(e):
    c = e.fresh(OBJ('Tagger'), 'tagger')
    f = e.w.get('yargy.tagger.Tagger').lookup('check_tag')[0]
    x = e.fresh(ANY, 'tag')
    got = e.truth(e.body_call(Bound(f, c), [x]))
    tags = get(e, c, 'tags')
    k = q(e)
    want = z3.Exists([k], z3.And(k >= 0, k < e.length(tags.parts),
                                 e.uf('el_any', IntSort, IntSort, ValSort)(tags.ref, k) == x.e))
    e.prove(zb(got) == want, 'a tagger knows exactly its tags')
    frame(e)


def tagged_list(e, a, k):
    tokens = e.res(a[1])
    if tokens.ref is None:
        raise Unsupported('computed tokens')
    return e.symlist(e.uf('tagger_result', IntSort, IntSort, IntSort)(a[0].ref, tokens.ref), OBJ('Token'))


@unit('C20', 'composition applies the taggers in order', ['yargy.tagger.TaggersComposition.__call__'],
      schema=TAGGERS, contracts={'dispatch:Tagger.__call__': tagged_list})
def composed(e):
    xs = e.fresh(LIST(OBJ('Tagger')), 'taggers')
    c = e.call(e.w.get('yargy.tagger.TaggersComposition'), [xs])
    ts = e.fresh(LIST(OBJ('Token')), 'tokens')
    # chain(k): the tokens after the first k taggers
    chain = e.uf('chain', IntSort, IntSort)
    k = q(e)
    el = e.uf('el_obj_Tagger', IntSort, IntSort, IntSort)(xs.ref, k)
    n = e.length(xs.parts)
    e.assume(chain(0) == ts.ref)
    e.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n),
                                       chain(k + 1) == e.uf('tagger_result', IntSort, IntSort, IntSort)(el, chain(k))),
                       patterns=[el]))
    e.folds = [lambda e, init, p, m: (lambda k: e.symlist(z3.simplify(chain(k)), OBJ('Token')))
               if isinstance(init, ListV) and init.ref is not None else None]
    r = e.res(e.call(c, [ts]))
    e.prove(isinstance(r, ListV) and r.ref is not None and r.ref == chain(n),
            'the taggers are applied in the given order, each to what the one before gave')
    frame(e)

# --- the morphological tokenizer -----------------------------------------------


def segments(e, a, k):
    return e.symlist(e.uf('segments', IntSort, StrSort, IntSort)(a[0].ref, e.term(a[1])), OBJ('Token'), GenV)


def analysis(e, a, k):
    return e.symlist(e.uf('analysis', IntSort, StrSort, IntSort)(a[0].ref, e.term(a[1])), OBJ('Form'))


TOKENIZER = dict(SCHEMA)
TOKENIZER[('MorphTokenizer', 'morph')] = OBJ('MorphAnalyzer')


@unit('C20', 'morphological tokenizer', ['yargy.tokenizer.MorphTokenizer.__call__'], schema=TOKENIZER,
      contracts={'yargy.tokenizer.Tokenizer.__call__': segments, 'dispatch:MorphAnalyzer.__call__': analysis})
def morph_tokenizer(e):
    t = e.fresh(OBJ('MorphTokenizer'), 'tokenizer')
    text_ = e.fresh(STR, 'text')
    plain = segments(e, [t, text_], {})
    k = e.index()
    n = e.length(plain.parts)
    Token = e.w.cls('Token')
    e.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), e.cls_tag(
        e.uf('el_obj_Token', IntSort, IntSort, IntSort)(plain.ref, k)) == Token.id)))
    r = e.parts_of(e.res(e.call(t, [text_])))
    e.prove(e.length(r) == n, 'as many tokens as the plain tokenizer gives')
    with e.loopctx(k, n):
        a, b = e.res(e.at(plain.parts, k)), e.res(e.at(r, k))
        e.type_facts(a)
        for f in ('value', 'span', 'type'):
            e.prove(same_obj(e, get(e, b, f), get(e, a, f)), 'the tokenizer keeps the %s' % f)
        ru = zb(e.eq(get(e, a, 'type'), 'RU'))
        e.prove(is_cls(e, b, 'MorphToken') == ru, 'word forms exactly on the Russian words')
        e.prove(z3.Not(is_cls(e, b, 'TagToken')), 'no tag')
        if e.branch(ru):
            same_seq(e, get(e, b, 'forms').parts, analysis(e, [get(e, t, 'morph'), get(e, a, 'value')], {}).parts,
                     'the word forms are the analysis of the text', eq=e.ident)
        else:
            e.prove(zb(e.ident(a, b)), 'other tokens are passed on')
    frame(e)


@unit('C20', 'split', ['yargy.tokenizer.Tokenizer.split'], schema=TOKENIZER,
      contracts={'dispatch:Tokenizer.__call__': segments})
def split(e):
    t = e.fresh(OBJ('Tokenizer'), 'tokenizer')
    text_ = e.fresh(STR, 'text')
    r = e.res(e.call(e.getattr(t, 'split'), [text_]))
    plain = segments(e, [t, text_], {})
    k = e.index()
    e.prove(e.length(r.parts) == e.length(plain.parts), 'one text per token')
    with e.loopctx(k, e.length(plain.parts)):
        e.prove(zb(e.eq(e.at(r.parts, k), get(e, e.res(e.at(plain.parts, k)), 'value'))), 'the text of the token')
    frame(e)
