"""Writes properties.jsonl (kept in step with contracts/; run by hand)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "findall picks a maximum-coverage set of non-overlapping matches",
  "The matches returned by findall come in text order, never share a token, and each occupies one of the token ranges at which the grammar matches. No other choice of pairwise non-overlapping matching ranges covers more tokens. find returns the first of them, or None when there is none.",
  ["inputs", "programs"], "all grammars and texts; equivalently all finite sets of candidate token ranges (any number, any overlap structure)",
  "The tests try a handful of fixed span lists; optimality is a statement about every set of overlapping ranges and every alternative selection.",
  ["yargy/span.py", "yargy/parser.py"],
  [("dynamic program over sorted ranges", "yargy/span.py: resolve_spans, get_nexts"), ("one match per range, best tree first", "yargy/parser.py: prepare_resolved_matches, Parser.findall")],
  ["Parser.findall", "Parser.find", "yargy.span.resolve_spans"])
p("C02", "Every reported match is a real derivation of the words it covers",
  "Every match found in a text consists of consecutive tokens of that text which the grammar derives: each word was accepted by the terminal it is attached to, and each phrase follows one alternative of its rule, complete and in order. match succeeds only when the grammar derives the whole text. The match tokens keep the text, position and type of the tokens they came from.",
  ["inputs", "programs"], "all grammars (including recursive ones) and all token sequences",
  "Tests check that a dozen grammars accept a dozen strings; that nothing underivable is ever reported quantifies over all grammars and texts.",
  ["yargy/parser.py", "yargy/tree/constructors.py"],
  [("chart states carry partial derivations", "yargy/parser.py: Parser.predict/scan/complete, State"), ("child attached without touching the shared prefix", "yargy/tree/constructors.py: Node.attached")],
  ["Parser.match", "Parser.extract", "Parser.findall", "Parser.chart"],
  [("column states", "partial derivations ending at a token boundary", "yargy/parser.py: Column")])
p("C03", "No derivation is missed",
  "Whenever the grammar derives a run of consecutive tokens (and its agreement constraints can be met), extract reports that run, and match reports it when the run is the whole text. This includes optional and empty parts, shared sub-rules, and left, right or mutual recursion. It is stated for grammars in which a run has finitely many derivations.",
  ["inputs", "programs"], "all finitely ambiguous grammars and all token sequences",
  "Absence of a match for some grammar shape (e.g. a nullable rule used twice around another) is invisible to tests that do not contain that shape.",
  ["yargy/parser.py", "yargy/pipelines.py"],
  [("chart closure under predict, scan, complete", "yargy/parser.py: Parser.chart"), ("waiting states indexed by awaited rule", "yargy/parser.py: Column.update_index, State.parents"), ("duplicate suppression", "yargy/parser.py: Column.append, State.__hash__")],
  ["Parser.extract", "Parser.match"],
  [("states_index", "states waiting for a rule at a column", "yargy/parser.py: Column")])
p("C04", "Ambiguity is resolved by the order of alternatives",
  "When a stretch of text has several derivations, the one reported is the one that prefers earlier-listed alternatives, comparing outer choices before inner ones and left before right. Repetition takes as much as possible, and an optional part is left out only as its order says (in an optional repetition, at every repeat); reverse=True flips exactly that choice. The outcome does not depend on the run, the hash seed or the order in which derivations were found.",
  ["inputs", "programs", "configurations"], "all grammars, all ambiguous texts, all orders in which derivations are discovered",
  "Tests pin a few ambiguous examples; a comparison that is not a strict order, or that stops early, misorders only certain tree shapes.",
  ["yargy/tree/constructors.py", "yargy/rule/transformators.py", "yargy/parser.py"],
  [("derivation comparison", "yargy/tree/constructors.py: Node.__lt__, Tree.__lt__"), ("order of generated alternatives", "yargy/rule/transformators.py: repeatable, optional, repeatable_optional, max_bound"), ("rank of a predicted alternative", "yargy/parser.py: Parser.predict")],
  ["Parser.match", "Parser.findall"])
p("C05", "Grammar combinators mean what they say after compilation",
  "The compiled grammar accepts exactly the token sequences denoted by the combinators the user wrote: sequence, alternatives, optional, repeatable with its min and max, empty, forward references and pipelines, in any nesting. Names, interpretations and agreement relations stay attached to exactly the parts they were put on, also when a part is used in several places. Compiling never merges or drops distinct parts of a grammar.",
  ["programs"], "all grammar terms: every nesting of combinators, every bound, shared and recursive sub-rules",
  "Tests compare the compiled form of fewer than twenty fixed grammars; nestings, bounds and sharing patterns are unbounded.",
  ["yargy/rule/transformators.py", "yargy/rule/bnf.py", "yargy/rule/constructors.py", "yargy/api.py"],
  [("rewrites, one visitor method per construct", "yargy/rule/transformators.py"), ("lowering to rules with attached interpretation and relation", "yargy/rule/bnf.py: BNFTransformator"), ("each part rewritten once", "yargy/rule/transformators.py: RuleTransformator.visit")],
  ["Rule.normalized", "Rule.as_bnf", "Parser"],
  [("visited", "rewritten parts by identity of the original", "yargy/rule/transformators.py: RuleTransformator")])
p("C06", "Predicates decide exactly their documented condition",
  "Each built-in predicate accepts a token exactly when its documented condition on the token's text, type, tag or word forms holds, on every kind of token, and answers no rather than failing on tokens it does not apply to. and_, or_ and not_ combine predicates as the logical connectives do. Selecting by grammeme or by singular number leaves exactly the word forms that satisfy it.",
  ["inputs"], "all tokens (plain, with forms, with tags, both), all parameter values, all nestings of and_, or_, not_",
  "Doctests show one or two tokens per predicate; the conditions quantify over all tokens and form sets.",
  ["yargy/predicates/bank.py", "yargy/predicates/constructors.py"],
  [("predicate classes", "yargy/predicates/bank.py"), ("connectives", "yargy/predicates/constructors.py: AndPredicate, OrPredicate, NotPredicate")],
  ["predicate(token)", "predicate.activate", "predicate.constrain"])
p("C07", "Agreement relations follow the grammatical rules and are symmetric",
  "Two word forms agree in gender, number or case exactly when the documented feature conditions hold (common gender, pluralia and singularia tantum, fixed case included), and gnc agreement is exactly all three together. Agreement does not depend on the order of the two forms. and_, or_ and not_ combine relations as the logical connectives do.",
  ["inputs"], "all pairs of feature sets: every combination of gender, number, case and fixedness marks",
  "Tests exercise five phrases; there are millions of feature combinations, and an asymmetric or missing clause shows only on rare ones.",
  ["yargy/relations/bank.py", "yargy/relations/constructors.py", "yargy/morph.py"],
  [("relation truth tables", "yargy/relations/bank.py"), ("connectives", "yargy/relations/constructors.py"), ("features read from grammemes", "yargy/morph.py: Gender, Number, Case")],
  ["relation(form, form)", "Parser.match with .match(relation)"])
p("C08", "Agreement constraints accept what can agree and keep only agreeing forms",
  "A match whose parts are tied by an agreement relation is reported only if every tied word keeps at least one form, and the kept forms are forms the word had, none of them more often than it had it, each agreeing with some form that every word it is tied to had (with a form kept, when only two words are tied). If one form can be chosen per word so that all tied pairs agree, the match is reported and none of those forms is removed. Words not tied by a relation are untouched.",
  ["inputs", "programs"], "all grammars with relations, all words with any number of forms, any number of tied words",
  "Tests use two or three dictionary phrases; the interplay of several relations and many homonymous forms is unbounded.",
  ["yargy/relations/graph.py", "yargy/tree/transformators.py", "yargy/parser.py"],
  [("pairwise filtering of forms", "yargy/relations/graph.py: TokenRelationsGraph.validate"), ("forms applied to the match's words", "yargy/relations/graph.py: constrain; yargy/tree/transformators.py: ApplyRelationsTransformator")],
  ["Match.tokens[i].forms", "Parser.match returning None"],
  [("token_forms", "forms still possible for a tied word", "yargy/relations/graph.py")])
p("C09", "Tokenization is a faithful, ordered segmentation of the text",
  "Tokens come in text order without overlap, each token's value is exactly the text at its span, and its type is that of the rule that produced it; with the default rules every non-space character belongs to exactly one token and no token contains spaces beyond line breaks. Added rules take precedence over existing ones and removed types never occur. Changing one tokenizer never affects another or the default rules.",
  ["inputs", "configurations", "histories"], "all texts, all rule lists, all sequences of add/remove calls on any number of tokenizers",
  "Tests tokenize a few strings with a few rule sets; coverage and isolation hold for all texts and call histories or not at all.",
  ["yargy/tokenizer.py"],
  [("one alternation with a named group per rule", "yargy/tokenizer.py: Tokenizer.compile, __call__"), ("rule list replaced, never edited in place", "yargy/tokenizer.py: add_rules, remove_types")],
  ["Tokenizer(text)", "Tokenizer.split", "Tokenizer.add_rules", "Tokenizer.remove_types"])
p("C10", "Joined text keeps word order and gaps; a match span is its extent",
  "Joining the tokens of a match yields their texts in order with a single space exactly where the source had a gap between consecutive tokens, and nothing else; normalized or inflected joining changes only the word texts, not the gaps. The span of a match starts where its first token starts and ends where its last token ends.",
  ["inputs"], "all token sequences with arbitrary spans and texts",
  "Tests join a few two-token phrases.",
  ["yargy/token.py", "yargy/span.py", "yargy/parser.py"],
  [("gap-sensitive join", "yargy/token.py: format_tokens, join_tokens"), ("extent", "yargy/token.py: get_tokens_span"), ("per-word replacement", "yargy/token.py: normalize_token, inflect_token")],
  ["match.span", "match.fact attributes", "yargy.token.join_tokens"])
p("C11", "Facts collect exactly the attributes marked in the matched phrase",
  "The fact of a match has for each attribute the value of the marked part of the phrase: the last one for an ordinary attribute, all of them in text order for a repeatable one, including values contributed by nested facts of the same kind, and the declared default when nothing was marked. Attributes of other facts never leak in, and nested facts of other kinds appear only where an attribute takes them. The JSON view holds the same values in declaration order, leaving out attributes without a value, and the fact's spans are the spans of the text its values came from, in order.",
  ["inputs", "programs"], "all fact schemes and all interpretation trees built from attribute, fact and normalizer marks",
  "Tests build about a dozen facts; ordering, merging and nesting quantify over all interpretation trees.",
  ["yargy/interpretation/fact.py", "yargy/interpretation/interpretator.py", "yargy/interpretation/attribute.py", "yargy/tree/transformators.py"],
  [("assembly", "yargy/interpretation/fact.py: InterpretatorFact.set, merge, normalized, as_json, spans"), ("dispatch on marked parts", "yargy/interpretation/interpretator.py: FactInterpretator, AttributeInterpretator"), ("unmarked phrases flattened in order", "yargy/tree/transformators.py: KeepInterpretationNodesTransformator")],
  ["match.fact", "fact.as_json", "fact.spans"])
p("C12", "Normalizers compute the documented value",
  "A part marked const yields the constant, marked normalized yields the dictionary form of each word, marked inflected yields each word inflected to the requested grammemes (the word's normal form if it cannot be inflected, nominative singular if none were requested), and marked custom yields the function of the otherwise normalized value; otherwise the part yields its text. Chained marks compose in the order written. The same mark gives the same value whether it is written on the attribute or on the rule.",
  ["inputs", "programs"], "all marks and chains, all token sequences and word forms, all functions",
  "Tests show one phrase per normalizer.",
  ["yargy/interpretation/normalizer.py", "yargy/interpretation/attribute.py", "yargy/interpretation/interpretator.py", "yargy/token.py", "yargy/morph.py"],
  [("normalizer classes", "yargy/interpretation/normalizer.py"), ("marks to normalizers", "yargy/interpretation/attribute.py"), ("application", "yargy/interpretation/interpretator.py: NormalizerInterpretator, AttributeNormalizerInterpretator")],
  ["match.fact"])
p("C13", "A gazetteer matches exactly its lines and reports the line as key",
  "A pipeline matches a run of tokens exactly when the alternatives rule listing the same lines word by word would: by equal text, by case-insensitive text, or by a shared dictionary form per word. Every line is reachable, whatever other lines start with the same word, and the earliest matching line wins. The normalized value of a match is the line as it was written, also when the same pipeline is used several times in a grammar.",
  ["inputs", "programs"], "all lists of lines (shared prefixes, duplicates, homonyms) and all texts",
  "Tests use lists of two to four lines.",
  ["yargy/pipelines.py", "yargy/tree/transformators.py"],
  [("first-word index", "yargy/pipelines.py: PipelineBNFRule.build_index, predict and subclasses"), ("line to words", "yargy/pipelines.py: PipelineScheme.get_key"), ("line carried to the normalizer", "yargy/pipelines.py: PipelineProduction; yargy/tree/transformators.py: InterpretationTransformator")],
  ["Parser.findall", "match.fact with normalized()"])
p("C14", "Parsers are reusable and do not interfere with each other",
  "Parsing the same text again, after any other texts, gives the same matches, and an earlier match is unchanged by later parsing. Building a parser does not change the rules it was built from: a second parser from the same rules, with the same settings, behaves identically. Matches of one text do not influence each other's words.",
  ["histories", "programs"], "all sequences of parser constructions and calls over shared rules and tokens",
  "Tests build each grammar once and parse once; interference needs a second construction, a second call or two competing derivations.",
  ["yargy/rule/transformators.py", "yargy/parser.py", "yargy/tree/transformators.py", "yargy/rule/constructors.py"],
  [("fresh chart per call", "yargy/parser.py: Parser.chart"), ("rewrites build new rules", "yargy/rule/transformators.py: RuleTransformator"), ("trees rebuilt before being constrained", "yargy/tree/transformators.py: TreeTransformator")],
  ["Parser(rule)", "repeated Parser.match/findall"],
  [("Leaf.token", "word attached to a terminal", "yargy/tree/constructors.py")])
p("C15", "Phrase trees keep the words, and the main word is the marked one",
  "The words of a reported match are exactly the words of its derivation in text order; dropping empty parts and unmarked phrases loses no word and no marked phrase. The word that stands for a phrase in agreement is the main word of the part marked main (the first part if none is marked), whichever other optional parts of the phrase are absent.",
  ["inputs", "programs"], "all derivation trees with any pattern of empty and unmarked parts",
  "Tests have one example with a marked main word and none with an absent optional part before it.",
  ["yargy/tree/transformators.py", "yargy/tree/constructors.py", "yargy/rule/constructors.py"],
  [("empty parts removed", "yargy/tree/transformators.py: PropogateEmptyTransformator"), ("main word", "yargy/tree/constructors.py: Node.main; yargy/rule/constructors.py: prepare_terms"), ("traversal", "yargy/tree/constructors.py: dfs_tree")],
  ["match.tokens", "match.tree", "agreement outcome of Parser.match"])
p("C16", "Value objects compare and hash by value",
  "Two value objects (tokens, spans, rules, predicates, facts, matches) are equal exactly when they have the same class and equal declared fields, and inequality is the negation of equality; a span also equals the plain pair of its bounds, and forward references are equal only to themselves. Objects that are equal hash equally when their fields are hashable, and iterating an object yields its declared fields in order. Spans are ordered by start, then stop.",
  ["inputs"], "all objects of all value classes",
  "Tests compare a few tokens and facts.",
  ["yargy/record.py", "yargy/span.py", "yargy/rule/constructors.py"],
  [("field-wise comparison", "yargy/record.py: Record.__eq__, __ne__, __iter__, __hash__"), ("span comparison", "yargy/span.py: Span.__eq__, __lt__")],
  ["==, !=, hash, iteration on public objects"])
p("C17", "Word forms reflect the morphological dictionary faithfully",
  "Analysing a word gives one form per dictionary reading, in the dictionary's order, with that reading's normal form and grammemes; the normal forms of a word are the set of those. The gender, number and case features of a form are exactly the presence of the corresponding grammemes. Caching analyses never changes an answer, and a grammeme is accepted exactly when the dictionary knows it.",
  ["inputs", "histories"], "all dictionary readings and grammeme sets, all sequences of lookups",
  "Tests check three words; the feature tables quantify over all grammeme sets.",
  ["yargy/morph.py"],
  [("readings to forms", "yargy/morph.py: prepare_form, MorphAnalyzer"), ("features", "yargy/morph.py: Gender, Number, Case, Grams"), ("cache", "yargy/morph.py: CachedMorphAnalyzer")],
  ["MorphAnalyzer(word)", "form.grams"])
p("C18", "Misuse is rejected with an error instead of being silently accepted",
  "Combining rules, predicates and relations of mixed kinds, marking two main parts, bounds below one or with max under min, a forward reference to a forward reference or one never defined, and arguments of the wrong kind raise an error when the grammar or parser is built. Naming a grammeme, token type or tag that the parser's dictionary, tokenizer or tagger does not have, an attribute the fact does not declare, or removing an unknown token type raises an error too. Valid uses raise none.",
  ["inputs", "programs"], "all argument combinations to the constructors and the parser",
  "Tests cover one or two error cases; a dropped check is invisible to the others.",
  ["yargy/check.py", "yargy/api.py", "yargy/rule/constructors.py", "yargy/predicates/bank.py", "yargy/tokenizer.py", "yargy/interpretation/fact.py", "yargy/interpretation/interpretator.py", "yargy/rule/bnf.py", "yargy/morph.py"],
  [("argument checks", "yargy/check.py and the constructors that call it"), ("activation checks", "yargy/predicates/bank.py: gram, type, tag, custom")],
  ["exceptions from the public constructors, Parser and match.fact"])
p("C19", "DOT drawings show every part once and are always well formed",
  "The drawing of a grammar or a match has one node per distinct part and one edge per direct containment, plus one edge per agreement tie in a match tree, with distinct parts never sharing an identifier. Every attribute value is quoted so that any text in labels leaves the DOT source well formed and reads back as the same label.",
  ["inputs", "programs"], "all grammars and match trees, all label texts including quotes, backslashes and line breaks",
  "No test renders a drawing with special characters; most do not look at drawings at all.",
  ["yargy/dot.py", "yargy/rule/transformators.py", "yargy/tree/transformators.py"],
  [("quoting", "yargy/dot.py: style.quote"), ("numbering by identity", "yargy/dot.py: Graph.id"), ("node and edge collection", "yargy/dot.py: DotTransformator; DotRuleTransformator; DotTreeTransformator")],
  ["rule.as_dot.source", "tree.as_dot.source"])
p("C20", "Annotating tokens preserves them; taggers compose in order",
  "Giving a token word forms or a tag, or narrowing its forms, keeps its text, span and type, any annotation it already had, and leaves the original token unchanged. A composition of taggers applies them in the given order and knows a tag exactly when one of them does; the default tagger changes nothing. The morphological tokenizer yields the same segmentation as the plain one, with word forms exactly on the Russian words.",
  ["inputs", "configurations"], "all tokens with any annotations, all lists of taggers, all texts",
  "One tagger test and one tokenizer test, each on a single sentence.",
  ["yargy/token.py", "yargy/tagger.py", "yargy/tokenizer.py"],
  [("annotation constructors", "yargy/token.py: morphed, tagged, constrained"), ("composition", "yargy/tagger.py: TaggersComposition, PassTagger"), ("morphological tokenizer", "yargy/tokenizer.py: MorphTokenizer.__call__")],
  ["Token.morphed/tagged/constrained", "TaggersComposition", "MorphTokenizer"])
p("C21", "Parsing always terminates",
  "Building a parser and parsing any text finish for every grammar and text.",
  ["inputs", "programs"], "all grammars, including those that derive the same run in infinitely many ways, and all texts",
  "Tests can only observe termination of the runs they make.",
  ["yargy/parser.py"],
  [("duplicate suppression in a column", "yargy/parser.py: Column.append")],
  ["Parser.match", "Parser.findall"])
p("C22", "The printed grammar is the compiled grammar",
  "The source of a compiled grammar has one line for every rule of it, the start first, with the alternatives of the rule and their parts in order, a main part other than the first marked ^, the empty alternative shown as e, and each rule called the same wherever it appears: by its interpretation, else its name, followed by ^ and its agreement relation. Rules without a name are called R0, R1 and so on in the order of the lines, no two of them the same. Printing a grammar or a part of it leaves names and rules as they were, so that it prints the same again.",
  ["programs"], "all grammars: every nesting of combinators, marks and gazetteers, shared and recursive parts",
  "Tests compare the source of some twenty fixed grammars, none with a composition of relations and few with more than one mark.",
  ["yargy/rule/bnf.py", "yargy/rule/constructors.py", "yargy/pipelines.py"],
  [("a line of a rule", "yargy/rule/bnf.py: BNFRule.__str__, BNFRule.label; yargy/pipelines.py: PipelineBNFRule.__str__"), ("an alternative", "yargy/rule/constructors.py: Production.__str__, EmptyProduction.__str__"), ("numbers of nameless rules", "yargy/rule/bnf.py: generate_names"), ("every rule once", "yargy/rule/constructors.py: bfs_rule, Rule.walk")],
  ["Rule.as_bnf", "BNF.source", "Parser.rule.as_bnf"])
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(path, 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
try:
    import jsonschema
except ImportError:
    jsonschema = None
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x, s)
    assert x['statement'].count('. ') <= 2, x['id']
print(len(P))
